from mutants_conc import M, S, IO, CH, SO, N, F, RW
TAKE='''  auto out = std::move(queue.front());
  queue.pop();
  return optional<T>(std::move(out));
'''
MUTANTS=[
# C14
M('chan-drop-closed','C14',(CH,'''  auto notify = queue.size() == 0 && !closed;
  queue.push(in);
''','''  if (closed) {
    return;
  }
  auto notify = queue.size() == 0 && !closed;
  queue.push(in);
''')),
M('chan-nopop','C14',(CH,'  queue.pop();\n','  if (!closed) {\n    queue.pop();\n  }\n')),
M('chan-lifo','C14',(CH,'queue.front()','queue.back()')),
M('chan-close-clears','C14',(CH,'  closed = true;\n','  closed = true;\n  queue = {};\n')),
M('chan-closed-first','C14',(CH,'  if (queue.size() == 0) {\n    return optional<T>();','  if (closed) {\n    return optional<T>();')),
M('chan-closed-or','C14',(CH,'  if (queue.size() == 0) {\n    return optional<T>();','  if (queue.size() == 0 || closed) {\n    return optional<T>();')),
M('chan-reset-open','C14',(CH,'  queue = {};\n  closed = false;\n','  queue = {};\n')),
M('chan-reset-queue','C14',(CH,'  queue = {};\n  closed = false;\n','  closed = false;\n')),
M('chan-reset-cond','C14',(CH,'  queue = {};\n  closed = false;\n','  if (closed) {\n    queue = {};\n  }\n  closed = false;\n')),
M('chan-nowait','C14',(CH,'  cv.wait(lock, [&] { return queue.size() > 0 || closed; });\n','  cv.wait_for(lock, std::chrono::seconds(5), [&] { return queue.size() > 0 || closed; });\n')),
M('chan-pop-twice','C14',(CH,'  queue.pop();\n','  queue.pop();\n  if (closed && queue.size() > 0) {\n    queue.pop();\n  }\n')),
M('chan-drop-before-return','C14',(CH,TAKE,'''  auto out = std::move(queue.front());
  queue.pop();
  if (closed && queue.size() == 0) {
    return optional<T>();
  }
  return optional<T>(std::move(out));
''')),
M('chan-pop-unlocked-gap','C14',(CH,TAKE,'''  auto out = queue.front();
  lock.unlock();
  lock.lock();
  queue.pop();
  return optional<T>(std::move(out));
''')),
M('chan-init-closed','C14',(CH,'bool closed = false;','bool closed = true;')),
M('chan-put-twice','C14',(CH,'  queue.push(std::move(in));\n','  queue.push(in);\n  if (!notify && queue.size() == 1) {\n    queue.push(std::move(in));\n  }\n')),
# C16
M('rw-count-if','C16',(RW,'  readLocks++;\n','  if (pendingWriteLocks == 0) {\n    readLocks++;\n  }\n')),
M('rw-count-bool','C16',(RW,'  readLocks++;\n','  readLocks = 1;\n')),
M('rw-dec-guard','C16',(RW,'  readLocks--;\n','  if (pendingWriteLocks > 0) {\n    readLocks--;\n  }\n')),
M('rw-writer-gt1','C16',(RW,'  if (readLocks > 0) {','  if (readLocks > 1) {')),
M('rw-writer-pred','C16',(RW,'return readLocks == 0; });','return readLocks <= 1; });')),
M('rw-writer-timed','C16',(RW,'    cv.wait(lock, [&] { return readLocks == 0; });','    cv.wait_for(lock, std::chrono::seconds(1), [&] { return readLocks == 0; });')),
M('rw-writer-norelease','C16 C12',(RW,'  lock.release();  // Keep lock held\n','')),
M('rw-writer-cond-release','C16',(RW,'''    pendingWriteLocks--;
  }
  lock.release();  // Keep lock held''','''    pendingWriteLocks--;
    lock.release();
    return;
  }
  if (pendingWriteLocks == 0) { lock.release(); }''')),
M('rw-unlockwriter-none','C16',(RW,'''    cv.notify_one();
  }
  mutex.unlock();''','''    cv.notify_one();
    return;
  }
  mutex.unlock();''')),
M('rw-rlock-move-keep','C16',(RW,'''RLock::RLock(RLock&& other) {
  m = other.m;
  other.m = nullptr;''','''RLock::RLock(RLock&& other) {
  m = other.m;''')),
M('rw-wlock-assign-norel','C16',(RW,'''    if (m != nullptr) {
      m->unlockWriter();
    }
''','')),
M('rw-rlock-assign-self','C16',(RW,'''  if (this != &other) {
    if (m != nullptr) {
      m->unlockReader();
    }
    m = other.m;
    other.m = nullptr;
  }''','''  if (m != nullptr) {
    m->unlockReader();
  }
  m = other.m;
  other.m = nullptr;''')),
M('rw-wlock-dtor-mode','C16',(RW,'''WLock::~WLock() {
  if (m != nullptr) {
    m->unlockWriter();''','''WLock::~WLock() {
  if (m != nullptr) {
    m->unlockReader();''')),
M('rw-rlock-assign-keep','C16',(RW,'''      m->unlockReader();
    }
    m = other.m;
    other.m = nullptr;''','''      m->unlockReader();
    }
    m = other.m;''')),
M('rw-rlock-dtor-null','C16',(RW,'''RLock::~RLock() {
  if (m != nullptr) {
    m->unlockReader();
  }''','''RLock::~RLock() {
  m->unlockReader();''')),
M('rw-rlock-default-move','C16',(RW,'  inline RLock(RLock&&);','  RLock(RLock&&) = default;'),(RW,'''RLock::RLock(RLock&& other) {
  m = other.m;
  other.m = nullptr;
}
''','')),
M('rw-assign-order','C16',(RW,'''    if (m != nullptr) {
      m->unlockWriter();
    }
    m = other.m;
''','''    m = other.m;
    if (m != nullptr) {
      m->unlockWriter();
    }
''')),
M('rw-wlock-made-twice','C16',(RW,'WLock::WLock(RWMutex& mutex) : m(&mutex) {\n  m->lockWriter();','WLock::WLock(RWMutex& mutex) : m(&mutex) {\n  m->lockReader();')),
# C17
M('fut-flag-first','C17',(F,'''  state->val = value;
  state->hasVal = true;
  state->cv.notify_all();''','''  state->hasVal = true;
  state->cv.notify_all();
  lock.unlock();
  lock.lock();
  state->val = value;''')),
M('fut-get-nowait','C17',(F,'  state->cv.wait(lock, [&] { return state->hasVal; });\n  return state->val;','  if (!state->hasVal) {\n    state->cv.wait(lock);\n  }\n  return state->val;')),
M('fut-get-timeout','C17',(F,'  state->cv.wait(lock, [&] { return state->hasVal; });\n  return state->val;','  state->cv.wait_for(lock, std::chrono::hours(1), [&] { return state->hasVal; });\n  return state->val;')),
M('fut-get-default','C17',(F,'  state->cv.wait(lock, [&] { return state->hasVal; });\n  return state->val;','  state->cv.wait(lock, [&] { return state->hasVal; });\n  return T();')),
M('fut-wait-once','C17',(F,'  std::unique_lock<std::mutex> lock(state->mutex);\n  state->cv.wait(lock, [&] { return state->hasVal; });\n}','  std::unique_lock<std::mutex> lock(state->mutex);\n  state->cv.wait_for(lock, std::chrono::minutes(1));\n}')),
M('fut-waitfor-swap','C17',(F,'''  return state->cv.wait_until(lock, timeout, [&] { return state->hasVal; })
             ? future_status::ready
             : future_status::timeout;''','''  return state->cv.wait_until(lock, timeout, [&] { return state->hasVal; })
             ? future_status::timeout
             : future_status::ready;''')),
M('fut-waitfor-cvstatus','C17',(F,'''  return state->cv.wait_for(lock, timeout, [&] { return state->hasVal; })
             ? future_status::ready
             : future_status::timeout;''','''  return state->cv.wait_for(lock, timeout) == std::cv_status::no_timeout
             ? future_status::ready
             : future_status::timeout;''')),
M('fut-waitfor-const','C17',(F,'state->cv.wait_for(lock, timeout, [','state->cv.wait_for(lock, std::chrono::seconds(1), [')),
M('fut-getfuture-fresh','C17',(F,'  return future<T>(state);','  return future<T>(std::make_shared<State>());')),
M('fut-raw-state','C17',(F,'  inline future(const std::shared_ptr<State>& state);\n\n  std::shared_ptr<State> state = std::make_shared<State>();','  inline future(const std::shared_ptr<State>& state);\n\n  State* state = nullptr;'),(F,'state(s) {}','state(s.get()) {}')),
M('fut-set-once','C17',(F,'''  state->val = std::move(value);
  state->hasVal = true;''','''  if (!state->hasVal) {
    state->hasVal = true;
  } else {
    state->val = std::move(value);
  }''')),
M('fut-set-novalue','C17',(F,'  state->val = value;\n',"")),
M('fut-init-true','C17',(F,'bool hasVal = false;','bool hasVal = true;')),
]
NEUTRAL=[
M('np-chan-front-pop','',(CH,TAKE,'''  optional<T> out(std::move(queue.front()));
  queue.pop();
  return out;
''')),
M('np-chan-empty-last','',(CH,'''  if (queue.size() == 0) {
    return optional<T>();
  }
'''+TAKE,'''  optional<T> result;
  if (!queue.empty()) {
    result = std::move(queue.front());
    queue.pop();
  }
  return result;
''')),
M('np-chan-swap','',(CH,'  queue = {};\n  closed = false;\n','  std::queue<T> none;\n  queue.swap(none);\n  closed = false;\n')),
M('np-chan-poploop','',(CH,'  queue = {};\n  closed = false;\n','  closed = false;\n  while (!queue.empty()) {\n    queue.pop();\n  }\n')),
M('np-chan-emplace','',(CH,'  queue.push(in);\n','  queue.emplace(in);\n')),
M('np-chan-helper','',(CH,'''  auto notify = queue.size() == 0 && !closed;
  queue.push(in);
  if (notify) {
    cv.notify_all();
  }''','''  lock.unlock();
  T copy = in;
  put(std::move(copy));''')),
M('np-chan-open','',(CH,'bool closed = false;','bool open = true;'),(CH,'  closed = false;','  open = true;'),(CH,'  closed = true;','  open = false;'),(CH,'|| closed;','|| !open;'),(CH,'&& !closed;','&& open;'),(CH,'&& !closed;','&& open;')),
M('np-chan-lockguard','',(CH,'  std::unique_lock<std::mutex> lock(mutex);\n  closed = true;','  std::lock_guard<std::mutex> lock(mutex);\n  closed = true;')),
M('np-rw-flag','',(RW,'''void RWMutex::lockWriter() {
  std::unique_lock<std::mutex> lock(mutex);
  if (readLocks > 0) {
    pendingWriteLocks++;
    cv.wait(lock, [&] { return readLocks == 0; });
    pendingWriteLocks--;
  }
  lock.release();  // Keep lock held
}
''','''void RWMutex::lockWriter() {
  std::unique_lock<std::mutex> lock(mutex);
  cv.wait(lock, [&] { return readLocks == 0 && !writing; });
  writing = true;
}
'''),(RW,'''  if (pendingWriteLocks > 0) {
    cv.notify_one();
  }
  mutex.unlock();
''','''  std::unique_lock<std::mutex> lock(mutex);
  writing = false;
  cv.notify_all();
'''),(RW,'''  std::unique_lock<std::mutex> lock(mutex);
  readLocks++;''','''  std::unique_lock<std::mutex> lock(mutex);
  cv.wait(lock, [&] { return !writing; });
  readLocks++;'''),(RW,'''  readLocks--;
  if (readLocks == 0 && pendingWriteLocks > 0) {
    cv.notify_one();
  }''','''  readLocks--;
  cv.notify_all();'''),(RW,'  int pendingWriteLocks = 0;','  bool writing = false;')),
M('np-rw-swap','',(RW,'''RLock::RLock(RLock&& other) {
  m = other.m;
  other.m = nullptr;''','''RLock::RLock(RLock&& other) : m(nullptr) {
  std::swap(m, other.m);''')),
M('np-rw-exchange','',(RW,'''RLock::RLock(RLock&& other) {
  m = other.m;
  other.m = nullptr;''','''RLock::RLock(RLock&& other) : m(other.m) {
  other.m = nullptr;''')),
M('np-rw-assign-tmp','',(RW,'''  if (this != &other) {
    if (m != nullptr) {
      m->unlockReader();
    }
    m = other.m;
    other.m = nullptr;
  }''','''  if (this == &other) {
    return *this;
  }
  RWMutex* old = m;
  m = other.m;
  other.m = nullptr;
  if (old) {
    old->unlockReader();
  }''')),
M('np-fut-status','',(F,'''  return state->cv.wait_for(lock, timeout, [&] { return state->hasVal; })
             ? future_status::ready
             : future_status::timeout;''','''  state->cv.wait_for(lock, timeout, [&] { return state->hasVal; });
  if (state->hasVal) {
    return future_status::ready;
  }
  return future_status::timeout;''')),
M('np-fut-get-via-wait','',(F,'''  std::unique_lock<std::mutex> lock(state->mutex);
  state->cv.wait(lock, [&] { return state->hasVal; });
  return state->val;''','''  wait();
  std::unique_lock<std::mutex> lock(state->mutex);
  T out = state->val;
  return out;'''),und=True),
M('np-fut-waitfor-until','',(F,'''  std::unique_lock<std::mutex> lock(state->mutex);
  return state->cv.wait_for(lock, timeout, [&] { return state->hasVal; })
             ? future_status::ready
             : future_status::timeout;''','''  return wait_until(std::chrono::steady_clock::now() + timeout);''')),
M('np-fut-flag-order','',(F,'''  state->val = value;
  state->hasVal = true;''','''  state->hasVal = true;
  state->val = value;''')),
M('np-fut-set-fwd','',(F,'''  std::unique_lock<std::mutex> lock(state->mutex);
  state->val = value;
  state->hasVal = true;
  state->cv.notify_all();''','''  T copy(value);
  set_value(std::move(copy));''')),
]
