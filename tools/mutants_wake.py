from mutants_conc import M, S, IO, CH, SO, N, F, RW
MUTANTS=[
M('wake-pipe-close','C13',(IO,'    closed = true;\n    cv.notify_all();','    closed = true;')),
M('wake-pipe-close-one','C13',(IO,'    closed = true;\n    cv.notify_all();','    closed = true;\n    cv.notify_one();')),
M('wake-pipe-write-wrong','C13',(IO,'    auto notify = data.size() == 0;\n','    auto notify = data.size() > 0;\n')),
M('wake-pipe-write-after','C13',(IO,'    auto notify = data.size() == 0;\n',''),(IO,'    if (notify) {\n      cv.notify_all();','    if (data.size() == 0) {\n      cv.notify_all();')),
M('wake-pipe-write-one','C13',(IO,'    if (notify) {\n      cv.notify_all();','    if (bytes == 1) {\n      cv.notify_all();')),
M('wake-pipe-pred-closed','C13',(IO,'return closed || data.size() > 0;','return data.size() > 0;')),
M('wake-pipe-if','C13',(IO,'      cv.wait(lock, [&] { return closed || data.size() > 0; });\n      if (closed) {\n        return n;\n      }\n','      if (!closed && data.size() == 0) { waitOnce(lock); }\n      if (closed) {\n        return n;\n      }\n'),(IO,' private:\n  std::mutex mutex;','  void waitOnce(std::unique_lock<std::mutex>& l) { cv.wait(l); }\n private:\n  std::mutex mutex;')),
M('wake-chan-close','C13',(CH,'  closed = true;\n  cv.notify_all();','  closed = true;')),
M('wake-chan-close-one','C13',(CH,'  closed = true;\n  cv.notify_all();','  closed = true;\n  cv.notify_one();')),
M('wake-chan-close-cond','C13',(CH,'  closed = true;\n  cv.notify_all();','  closed = true;\n  if (queue.size() > 0) {\n    cv.notify_all();\n  }')),
M('wake-chan-put-one','C13',(CH,'''  queue.push(std::move(in));
  if (notify) {
    cv.notify_all();''','''  queue.push(std::move(in));
  if (notify) {
    cv.notify_one();''')),
M('wake-chan-put-after','C13',(CH,'''  auto notify = queue.size() == 0 && !closed;
  queue.push(in);
''','''  queue.push(in);
  auto notify = queue.size() == 0 && !closed;
''')),
M('wake-chan-put-closed','C13',(CH,'  auto notify = queue.size() == 0 && !closed;\n  queue.push(std::move(in));','  auto notify = queue.size() == 0 && closed;\n  queue.push(std::move(in));')),
M('wake-chan-if','C13',(CH,'  cv.wait(lock, [&] { return queue.size() > 0 || closed; });\n','  if (queue.size() == 0 && !closed) {\n    cv.wait(lock);\n  }\n')),
M('wake-chan-pred','C13 C14',(CH,'return queue.size() > 0 || closed;','return queue.size() > 0;')),
M('wake-chan-before','C13',(CH,'''  std::unique_lock<std::mutex> lock(mutex);
  closed = true;
  cv.notify_all();''','''  cv.notify_all();
  std::unique_lock<std::mutex> lock(mutex);
  closed = true;''')),
M('wake-future-set','C13',(F,'  state->val = value;\n  state->hasVal = true;\n  state->cv.notify_all();','  state->val = value;\n  state->hasVal = true;')),
M('wake-future-one','C13',(F,'  state->val = std::move(value);\n  state->hasVal = true;\n  state->cv.notify_all();','  state->val = std::move(value);\n  state->hasVal = true;\n  state->cv.notify_one();')),
M('wake-future-before','C13',(F,'  std::unique_lock<std::mutex> lock(state->mutex);\n  state->val = value;\n  state->hasVal = true;\n  state->cv.notify_all();','  state->cv.notify_all();\n  std::unique_lock<std::mutex> lock(state->mutex);\n  state->val = value;\n  state->hasVal = true;')),
M('wake-future-if','C13 C17',(F,'  state->cv.wait(lock, [&] { return state->hasVal; });\n  return state->val;','  if (!state->hasVal) {\n    state->cv.wait(lock);\n  }\n  return state->val;')),
M('wake-rw-reader','C13',(RW,'  if (readLocks == 0 && pendingWriteLocks > 0) {','  if (readLocks > 0 && pendingWriteLocks > 0) {')),
M('wake-rw-reader-off','C13',(RW,'  if (readLocks == 0 && pendingWriteLocks > 0) {','  if (readLocks == 0 && pendingWriteLocks > 1) {')),
M('wake-rw-writer','C13',(RW,'  if (pendingWriteLocks > 0) {\n    cv.notify_one();\n  }\n  mutex.unlock();','  mutex.unlock();')),
M('wake-rw-writer-off','C13',(RW,'  if (pendingWriteLocks > 0) {\n    cv.notify_one();\n  }\n  mutex.unlock();','  if (pendingWriteLocks > 1) {\n    cv.notify_one();\n  }\n  mutex.unlock();')),
M('wake-rw-count-late','C13',(RW,'    pendingWriteLocks++;\n    cv.wait(lock, [&] { return readLocks == 0; });\n    pendingWriteLocks--;','    cv.wait(lock, [&] { return readLocks == 0; });\n    pendingWriteLocks++;\n    pendingWriteLocks--;')),
M('wake-rw-if','C13 C16',(RW,'    cv.wait(lock, [&] { return readLocks == 0; });','    cv.wait(lock);')),
M('wake-rw-notify-before-dec','C13',(RW,'  readLocks--;\n  if (readLocks == 0 && pendingWriteLocks > 0) {\n    cv.notify_one();\n  }','  if (readLocks == 0 && pendingWriteLocks > 0) {\n    cv.notify_one();\n  }\n  readLocks--;')),
]
NEUTRAL=[
M('nw-pipe-loop','',(IO,'      cv.wait(lock, [&] { return closed || data.size() > 0; });\n','      while (!closed && data.size() == 0) {\n        cv.wait(lock);\n      }\n')),
M('nw-pipe-notify-always','',(IO,'    if (notify) {\n      cv.notify_all();\n    }','    (void)notify;\n    cv.notify_all();')),
M('nw-pipe-notify-unlocked','',(IO,'    if (notify) {\n      cv.notify_all();\n    }','    lock.unlock();\n    if (notify) {\n      cv.notify_all();\n    }')),
M('nw-chan-forever','',(CH,'  cv.wait(lock, [&] { return queue.size() > 0 || closed; });\n','  for (;;) {\n    if (queue.size() > 0 || closed) {\n      break;\n    }\n    cv.wait(lock);\n  }\n')),
M('nw-chan-one','',(CH,'''  auto notify = queue.size() == 0 && !closed;
  queue.push(in);
  if (notify) {
    cv.notify_all();
  }''','''  queue.push(in);
  cv.notify_one();'''),(CH,'''  auto notify = queue.size() == 0 && !closed;
  queue.push(std::move(in));
  if (notify) {
    cv.notify_all();
  }''','''  queue.push(std::move(in));
  cv.notify_one();''')),
M('nw-chan-helper','',(CH,'  cv.wait(lock, [&] { return queue.size() > 0 || closed; });\n','  while (!ready()) {\n    cv.wait(lock);\n  }\n'),(CH,' private:\n  bool closed = false;',' private:\n  bool ready() const { return closed || !queue.empty(); }\n  bool closed = false;')),
M('nw-chan-wake-helper','',(CH,'''  auto notify = queue.size() == 0 && !closed;
  queue.push(in);
  if (notify) {
    cv.notify_all();
  }''','''  bool wasEmpty = queue.empty();
  queue.push(in);
  wake(wasEmpty);'''),(CH,' private:\n  bool closed = false;',' private:\n  void wake(bool wasEmpty) {\n    if (wasEmpty) {\n      cv.notify_all();\n    }\n  }\n  bool closed = false;')),
M('nw-future-outside','',(F,'''  std::unique_lock<std::mutex> lock(state->mutex);
  state->val = value;
  state->hasVal = true;
  state->cv.notify_all();''','''  auto s = state;
  {
    std::unique_lock<std::mutex> lock(s->mutex);
    s->val = value;
    s->hasVal = true;
  }
  s->cv.notify_all();''')),
M('nw-future-loop','',(F,'  state->cv.wait(lock, [&] { return state->hasVal; });\n  return state->val;','  while (!state->hasVal) {\n    state->cv.wait(lock);\n  }\n  return state->val;')),
M('nw-future-helper','',(F,'  state->cv.wait(lock, [&] { return state->hasVal; });\n  return state->val;','  auto& st = *state;\n  st.cv.wait(lock, [&st] { return st.hasVal; });\n  return st.val;')),
M('nw-rw-all','',(RW,'  readLocks--;\n  if (readLocks == 0 && pendingWriteLocks > 0) {\n    cv.notify_one();\n  }','  if (--readLocks == 0) {\n    cv.notify_all();\n  }')),
M('nw-rw-nocond','',(RW,'  if (readLocks > 0) {\n    pendingWriteLocks++;\n    cv.wait(lock, [&] { return readLocks == 0; });\n    pendingWriteLocks--;\n  }','  pendingWriteLocks += 1;\n  while (readLocks != 0) {\n    cv.wait(lock);\n  }\n  pendingWriteLocks -= 1;')),
M('nw-rw-guard','',(RW,'  readLocks--;\n  if (readLocks == 0 && pendingWriteLocks > 0) {\n    cv.notify_one();\n  }','  readLocks = readLocks - 1;\n  if (pendingWriteLocks == 0) {\n    return;\n  }\n  if (readLocks == 0) {\n    cv.notify_one();\n  }')),
]
