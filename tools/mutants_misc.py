S='src/session.cpp'; CS='src/content_stream.cpp'; IO='src/io.cpp'; CH='src/chan.h'; RW='src/rwmutex.h'
SO='src/socket.cpp'; NE='src/network.cpp'; FU='include/dap/future.h'; AN='include/dap/any.h'; VA='include/dap/variant.h'
OP='include/dap/optional.h'; TI='include/dap/typeinfo.h'; TO='src/typeof.cpp'; SE='include/dap/session.h'
def M(name, props, *edits, **k):
    d={'name':name,'props':props.split(),'edits':list(edits)}; d.update(k); return d
MUTANTS=[
# C13/C14/C15: two cooperating sites
M('xx-chan-flag-two','C13',(CH,'  bool closed = false;\n','  bool closed = false;\n  int waiters = 0;\n'),
  (CH,'  cv.wait(lock, [&] { return queue.size() > 0 || closed; });','  if (queue.size() == 0 && !closed) {\n    waiters++;\n    cv.wait(lock, [&] { return queue.size() > 0 || closed; });\n    waiters = 0;\n  }'),
  (CH,'  auto notify = queue.size() == 0 && !closed;\n  queue.push(std::move(in));\n  if (notify) {\n    cv.notify_all();','  queue.push(std::move(in));\n  if (waiters == 1) {\n    cv.notify_one();')),
M('xx-chan-take-peek','C14',(CH,'  auto out = std::move(queue.front());\n  queue.pop();','  auto out = std::move(queue.back());\n  queue.pop();')),
M('xx-chan-max','C14',(CH,'  queue.push(in);','  if (queue.size() < 1024) {\n    queue.push(in);\n  }')),
M('xx-chan-max-old','C14',(CH,'  queue.push(std::move(in));','  if (queue.size() >= 4096) {\n    queue.pop();\n  }\n  queue.push(std::move(in));')),
M('xx-pipe-limit','C15',(IO,'    auto notify = data.size() == 0;\n','    if (data.size() + bytes > (1u << 20)) {\n      bytes = (1u << 20) - data.size();\n    }\n    auto notify = data.size() == 0;\n')),
M('xx-pipe-read-min','C15',(IO,'for (; n < bytes && data.size() > 0; n++) {','for (n = 0; n < bytes && data.size() > 0; n++) {')),
M('xx-pipe-read-closed-drop','C15',(IO,'''      if (closed) {
        return n;
      }
      for (''','''      if (closed) {
        data.clear();
        return bytes;
      }
      for (''')),
M('xx-pipe-signed','C15',(IO,'std::deque<uint8_t> data;','std::deque<char> data;'),(IO,'data.emplace_back(src[i]);','data.emplace_back(static_cast<char>(src[i] & 0x7f));')),
M('xx-file-ferror','C15',(IO,'if (fwrite(buffer, 1, n, f) == n) {','if (fwrite(buffer, 1, n, f) > 0) {')),
M('xx-file-fwrite-swap','C15',(IO,'if (fwrite(buffer, 1, n, f) == n) {','if (fwrite(buffer, n, 1, f) == n) {')),
M('xx-file-close-order','C11 C15',(IO,'''        std::unique_lock<std::mutex> readLock(readMutex);
        std::unique_lock<std::mutex> writeLock(writeMutex);
        fclose(f);''','''        std::unique_lock<std::mutex> writeLock(writeMutex);
        fclose(f);'''),),
M('xx-file-dtor','C15',(IO,'  ~File() { close(); }\n','  ~File() {}\n')),
M('xx-file-text-close','C15',(IO,'    return std::make_shared<File>(f, true);\n  }\n  return nullptr;','    return std::make_shared<File>(f, false);\n  }\n  return nullptr;')),
# C16
M('xx-rw-upgrade','C16',(RW,'  if (readLocks > 0) {\n    pendingWriteLocks++;','  if (readLocks > 1) {\n    pendingWriteLocks++;')),
M('xx-rw-once','C16',(RW,'    cv.wait(lock, [&] { return readLocks == 0; });','    cv.wait(lock);')),
M('xx-rw-pending-pred','C16',(RW,'    cv.wait(lock, [&] { return readLocks == 0; });','    cv.wait(lock, [&] { return readLocks <= pendingWriteLocks; });')),
M('xx-rw-unlock-late','C13',(RW,'    cv.notify_one();\n  }\n}\n\nvoid RWMutex::lockWriter','    lock.unlock();\n    if (pendingWriteLocks == 1) {\n      cv.notify_one();\n    }\n  }\n}\n\nvoid RWMutex::lockWriter')),
M('xx-rw-rlock-assign','C16',(RW,'''    if (m != nullptr) {
      m->unlockReader();
    }
    m = other.m;
    other.m = nullptr;
''','''    std::swap(m, other.m);
    if (m == nullptr) {
      m = other.m;
    }
''')),
# C17
M('xx-fut-get-move','C17',(FU,'  return state->val;\n','  return std::move(state->val);\n')),
M('xx-fut-set-reset','C17',(FU,'  state->val = std::move(value);\n  state->hasVal = true;','  state->val = std::move(value);\n  state->hasVal = !state->hasVal;')),
M('xx-fut-waituntil-neg','C17',(FU,'state->cv.wait_until(lock, timeout, [&] { return state->hasVal; })\n             ? future_status::ready\n             : future_status::timeout','state->cv.wait_until(lock, timeout) == std::cv_status::no_timeout\n             ? future_status::ready\n             : future_status::timeout')),
M('xx-fut-waitfor-zero','C17',(FU,'  return state->cv.wait_for(lock, timeout, [&] { return state->hasVal; })','  if (timeout.count() <= 0) {\n    return future_status::timeout;\n  }\n  return state->cv.wait_for(lock, timeout, [&] { return state->hasVal; })')),
M('xx-fut-waitfor-double','C17',(FU,'  return state->cv.wait_for(lock, timeout, [&] { return state->hasVal; })','  return state->hasVal || state->cv.wait_for(lock, timeout, [&] { return true; })')),
# C18-C21
M('xx-net-close-both','C18',(SO,'''        // ::shutdown() to unblock ::accept(). We'll actually close the socket
        // under lock below.
        ::shutdown(s, SHUT_RDWR);''','''        ::shutdown(s, SHUT_RDWR);
        ::close(s);''')),
M('xx-net-close-unlocked','C18 C11',(SO,'''    WLock l(mutex);
    if (s != InvalidSocket) {
#if !def''','''    if (s != InvalidSocket) {
#if !def''')),
M('xx-net-close-toctou','C18',(SO,'''    WLock l(mutex);
    if (s != InvalidSocket) {
#if !defined(_WIN32) && !defined(__APPLE__)
      ::close(s);
#endif
      s = InvalidSocket;
    }
''','''    SOCKET old = s;
    {
      WLock l(mutex);
      s = InvalidSocket;
    }
    if (old != InvalidSocket) {
      ::close(old);
    }
''')),
M('xx-net-accept-leak-cond','C18',(SO,'        if (accepted != InvalidSocket) {','        if (accepted > 0 && !errored(socket)) {')),
M('xx-net-info-reuse','C18',(SO,'    if (info) {\n        freeaddrinfo(info);\n    }\n    close();','    if (info && s != InvalidSocket) {\n        freeaddrinfo(info);\n    }\n    close();')),
M('xx-net-listen-drop','C18',(SO,'      if (listen(socket, 0) != 0) {\n        return;\n      }','      if (listen(socket, 0) != 0) {\n        ::close(socket);\n        return;\n      }')),
M('xx-net-getaddr-two','C18',(SO,'      auto out = std::make_shared<Shared>(info, socket);\n      out->setOptions();\n      return out;','      auto out = std::make_shared<Shared>(info, socket);\n      out->setOptions();\n      if (!out->isOpen()) {\n        freeaddrinfo(info);\n        return nullptr;\n      }\n      return out;')),
M('xx-io-send-eagain','C19',(SO,'      if (len < 0 && errno == EINTR) {\n        continue;\n      }\n      if (len <= 0) {\n        return false;','      if (len < 0 && errno == EINTR) {\n        return true;\n      }\n      if (len <= 0) {\n        return false;')),
M('xx-io-send-u8','C19',(SO,'      bytes -= static_cast<size_t>(len);','      bytes -= static_cast<uint8_t>(len);')),
M('xx-io-recv-len','C19',(SO,'return (len < 0) ? 0 : len;','return (len < 0) ? bytes : len;')),
M('xx-io-recv-waitall','C19',(SO,'static_cast<int>(bytes), 0);\n      if (len < 0 && errno == EINTR)','static_cast<int>(bytes), MSG_TRUNC);\n      if (len < 0 && errno == EINTR)')),
M('xx-con-out-early','C20',(SO,'    if (!setBlocking(socket, false)) {\n      return;\n    }\n','    if (!setBlocking(socket, false)) {\n      return;\n    }\n    out = shared;\n')),
M('xx-con-isopen-skip','C20',(SO,'      if (res > 0 && !errored(socket) && setBlocking(socket, true)) {','      if (res > 0 && setBlocking(socket, true)) {'),(SO,'  return out->isOpen() ? out : nullptr;','  return out;')),
M('xx-con-loop','C20',(SO,'      res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);','      do {\n        res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);\n      } while (res == 0 && timeoutMillis > 60000);')),
M('xx-con-round','C20',(SO,'      tv.tv_sec = timeoutMillis / 1000;\n      tv.tv_usec = (timeoutMillis % 1000) * 1000;','      tv.tv_sec = timeoutMillis / 1000 + 1;\n      tv.tv_usec = 0;')),
M('xx-con-ms','C20',(SO,'      tv.tv_sec = timeoutMillis / 1000;\n      tv.tv_usec = (timeoutMillis % 1000) * 1000;','      tv.tv_sec = 0;\n      tv.tv_usec = timeoutMillis * 1000;')),
M('xx-srv-stop-flag','C21',(NE,'    if (!stopped.exchange(true)) {\n      socket->close();\n      thread.join();\n    }','    stopped = true;\n    if (socket) {\n      socket->close();\n    }\n    if (thread.joinable()) {\n      thread.join();\n    }')),
M('xx-srv-open-stopped','C21',(NE,'    stopped = false;\n    thread = std::thread','    thread = std::thread')),
M('xx-srv-conn-stopped','C21',(NE,'          onConnect(rw);\n          continue;','          if (!stopped) {\n            onConnect(rw);\n          }\n          continue;')),
M('xx-srv-err-retry','C21',(NE,'          onError("Failed to accept connection");\n        }\n        break;','          onError("Failed to accept connection");\n          continue;\n        }\n        break;')),
M('xx-srv-localhost','C21',(NE,'return start("localhost", port, onConnect, onError);','return start("0.0.0.0", port, onConnect, onError);')),
M('xx-srv-port16','C21',(NE,'std::to_string(port).c_str()));\n\n    if','std::to_string(port & 0x7fff).c_str()));\n\n    if')),
# C12
M('xx-lock-order','C12',(IO,'''    std::unique_lock<std::mutex> lock(writeMutex);
    if (closed) {
      return false;
    }
    if (fwrite''','''    std::unique_lock<std::mutex> lock(writeMutex);
    std::unique_lock<std::mutex> order(readMutex);
    if (closed) {
      return false;
    }
    if (fwrite''')),
M('xx-lock-responsemutex-handler','C12',(S,'''    const dap::TypeInfo* typeinfo;
    GenericResponseHandler handler;
''','''    std::unique_lock<std::mutex> sendLock(sendMutex);
    const dap::TypeInfo* typeinfo;
    GenericResponseHandler handler;
''')),
M('xx-lock-onclose','C12',(S,'      if (onClose) {\n        onClose();','      if (onClose) {\n        std::unique_lock<std::mutex> lock(sendMutex);\n        onClose();')),
M('xx-lock-take-held','C12',(S,'      while (auto payload = inbox.take()) {\n        payload.value()();','      while (auto payload = inbox.take()) {\n        std::unique_lock<std::mutex> lock(sendMutex);\n        payload.value()();')),
M('xx-lock-release','C12',(S,'      lock.unlock();\n      handlers.error("Send failed as the writer is closed");','      lock.release();\n      handlers.error("Send failed as the writer is closed");')),
M('xx-lock-manual','C12',(CH,'  std::unique_lock<std::mutex> lock(mutex);\n  closed = true;\n  cv.notify_all();','  mutex.lock();\n  if (closed) {\n    return;\n  }\n  closed = true;\n  cv.notify_all();\n  mutex.unlock();')),
M('xx-lock-srv-conn','C12',(NE,'          onConnect(rw);\n','          std::unique_lock<std::mutex> lock(mutex);\n          onConnect(rw);\n')),
# C30
M('xx-fmt-twopass','C30',(S,'''      char buf[2048];
      va_list vararg;
      va_start(vararg, format);
      vsnprintf(buf, sizeof(buf), format, vararg);
      va_end(vararg);
''','''      va_list vararg;
      va_start(vararg, format);
      int len = vsnprintf(nullptr, 0, format, vararg);
      std::vector<char> text(len + 1);
      vsnprintf(text.data(), text.size(), format, vararg);
      va_end(vararg);
      const char* buf = text.data();
''')),
M('xx-fmt-event-name','C30',(S,'''      handlers.error("No event handler registered for event '%s'",
                     event.c_str());''','''      handlers.error(("No event handler registered for event " + event).c_str());''')),
M('xx-fmt-lld','C30',(S,'static_cast<long long>(requestSeq));','static_cast<int>(requestSeq));')),
M('xx-fmt-msg','C30',(S,'auto error = dap::Error(message);','auto error = dap::Error(message.c_str());')),
M('xx-fmt-nul','C30',(IO,'  return w->write(buf, strlen(buf));','  buf[sizeof(buf) - 1] = \'\\n\';\n  return w->write(buf, strlen(buf));')),
M('xx-fmt-small','C30',(IO,'  vsnprintf(buf, sizeof(buf), msg, vararg);','  vsnprintf(buf, 4096, msg, vararg);')),
# C26
M('xx-any-is-size','C26',(AN,'type == TypeOf<T>::type()','type != nullptr && type->size() == TypeOf<T>::type()->size()')),
# C11
M('xx-race-reader-close','C11',(CS,'  if (reader) {\n    reader->close();\n  }\n}\n\nstd::string','  if (reader) {\n    eof = true;\n    reader->close();\n  }\n}\n\nstd::string')),
M('xx-race-eof','C11',(S,'  bool send(const std::string& s) {\n    std::unique_lock','  bool send(const std::string& s) {\n    lastSent = s.size();\n    std::unique_lock'),(S,'  std::mutex sendMutex;\n','  std::mutex sendMutex;\n  size_t lastSent = 0;\n')),
M('xx-race-closed-plain','C11',(NE,'std::atomic<bool> stopped;','bool stopped;'),(NE,'!stopped.exchange(true)','!stopped && (stopped = true)')),
]
