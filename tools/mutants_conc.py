S='src/session.cpp'; IO='src/io.cpp'; CH='src/chan.h'; SO='src/socket.cpp'; N='src/network.cpp'; F='include/dap/future.h'; RW='src/rwmutex.h'; TO='src/typeof.cpp'; SB='src/string_buffer.h'
def M(name, props, *edits, **k):
    d={'name':name,'props':props.split(),'edits':list(edits)}; d.update(k); return d
UL='std::unique_lock<std::mutex> lock(mutex);\n'
MUTANTS=[
# C11
M('race-pipe-isopen','C11',(IO,'    std::unique_lock<std::mutex> lock(mutex);\n    return !closed;','    return !closed;')),
M('race-pipe-write-early','C11',(IO,'''    std::unique_lock<std::mutex> lock(mutex);
    if (closed) {
      return false;
    }
    if (bytes == 0) {''','''    if (closed) {
      return false;
    }
    std::unique_lock<std::mutex> lock(mutex);
    if (bytes == 0) {''')),
M('race-pipe-close','C11',(IO,'''    std::unique_lock<std::mutex> lock(mutex);
    closed = true;
    cv.notify_all();''','''    closed = true;
    cv.notify_all();''')),
M('race-file-plain','C11',(IO,'std::atomic<bool> closed = {false};','bool closed = false;'),(IO,'if (!closed.exchange(true)) {','if (!closed) {\n        closed = true;')),
M('race-file-write-mutex','C11',(IO,'std::unique_lock<std::mutex> lock(writeMutex);\n','')),
M('race-file-close-one','C11',(IO,'        std::unique_lock<std::mutex> readLock(readMutex);\n','')),
M('race-chan-close','C11',(CH,'  std::unique_lock<std::mutex> lock(mutex);\n  closed = true;','  closed = true;')),
M('race-chan-put','C11',(CH,'  std::unique_lock<std::mutex> lock(mutex);\n  auto notify = queue.size() == 0 && !closed;\n  queue.push(in);','  auto notify = queue.size() == 0 && !closed;\n  std::unique_lock<std::mutex> lock(mutex);\n  queue.push(in);')),
M('race-chan-take-unlock','C11',(CH,'  auto out = std::move(queue.front());\n','  lock.unlock();\n  auto out = std::move(queue.front());\n')),
M('race-server-stopped','C11',(N,'std::atomic<bool> stopped;','bool stopped;'),(N,'    if (!stopped.exchange(true)) {','    if (!stopped) {\n      stopped = true;')),
M('race-nextseq','C11',(S,'std::atomic<uint32_t> nextSeq = {1};','uint32_t nextSeq = 1;')),
M('race-request-lookup','C11',(S,'      std::unique_lock<std::mutex> lock(requestMutex);\n      auto it = requestMap.find(name);','      auto it = requestMap.find(name);')),
M('race-event-wrongmutex','C11',(S,'std::unique_lock<std::mutex> lock(eventMutex);\n      auto it','std::unique_lock<std::mutex> lock(requestMutex);\n      auto it')),
M('race-response-early-unlock','C11',(S,'      auto responseIt = responseMap.find(seq);\n      if (responseIt == responseMap.end()) {\n        return {};\n      }\n','      auto responseIt = responseMap.find(seq);\n      if (responseIt == responseMap.end()) {\n        return {};\n      }\n      lock.unlock();\n')),
M('race-errorhandler','C11',(S,'''      {
        std::unique_lock<std::mutex> lock(errorMutex);
        handler = errorHandler;
      }
''','''      handler = errorHandler;
''')),
M('race-errorhandler-put','C11',(S,'      std::unique_lock<std::mutex> lock(errorMutex);\n      errorHandler = handler;','      errorHandler = handler;')),
M('race-set-value','C11',(F,'  state->val = std::move(value);\n  state->hasVal = true;\n  state->cv.notify_all();','  state->val = std::move(value);\n  lock.unlock();\n  state->hasVal = true;\n  state->cv.notify_all();')),
M('race-get','C11',(F,'  state->cv.wait(lock, [&] { return state->hasVal; });\n  return state->val;','  state->cv.wait(lock, [&] { return state->hasVal; });\n  lock.unlock();\n  return state->val;')),
M('race-sock-write','C11',(SO,'''    RLock lock(mutex);
    if (s == InvalidSocket) {
      return false;
    }
''','''    if (s == InvalidSocket) {
      return false;
    }
''')),
M('race-sock-read-scope','C11',(SO,'''    RLock lock(mutex);
    if (s == InvalidSocket) {
      return 0;
    }
''','''    {
      RLock lock(mutex);
      if (s == InvalidSocket) {
        return 0;
      }
    }
''')),
M('race-sock-close-r','C11',(SO,'''    WLock l(mutex);
    if (s != InvalidSocket) {''','''    RLock l(mutex);
    if (s != InvalidSocket) {''')),
M('race-sock-lock','C11',(SO,'''    RLock l(mutex);
    f(s, info);''','''    f(s, info);''')),
M('race-types','C11',(TO,'  std::unique_lock<std::mutex> lock(typeinfos->typesMutex);\n','')),
M('race-dtor-flag','C11',(S,'    inbox.close();\n','    closing = true;\n    inbox.close();\n'),(S,'      if (onClose) {\n        onClose();','      if (onClose && !closing) {\n        onClose();'),(S,'  std::atomic<bool> isBound','  bool closing = false;\n  std::atomic<bool> isBound')),
M('race-lastseq','C11',(S,'    int seq = nextSeq++;\n','    int seq = nextSeq++;\n    lastSeq = seq;\n'),(S,'  std::atomic<bool> isBound','  int lastSeq = 0;\n  std::atomic<bool> isBound')),
# C12
M('lock-isopen-close','C12',(SO,'''      if ((s != InvalidSocket) && !errored(s)) {
        return true;
      }
    }
    close();
    return false;''','''      if ((s != InvalidSocket) && !errored(s)) {
        return true;
      }
      close();
    }
    return false;''')),
M('lock-close-upgrade','C12',(SO,'''      }
    }

    WLock l(mutex);''','''      }

    WLock l2(mutex);
    }
    WLock l(mutex);''')),
M('lock-error-cb','C12',(S,'        handler = errorHandler;\n      }\n      if (handler) {\n        handler(buf);\n      }','        handler = errorHandler;\n      if (handler) {\n        handler(buf);\n      }\n      }')),
M('lock-put-error','C12',(S,'              .second;\n      lock.unlock();\n      if (!added) {\n        error("Event','              .second;\n      if (!added) {\n        error("Event')),
M('lock-chan-manual','C12',(CH,'  std::unique_lock<std::mutex> lock(mutex);\n  auto notify = queue.size() == 0 && !closed;\n  queue.push(in);','  mutex.lock();\n  auto notify = queue.size() == 0 && !closed;\n  queue.push(in);\n  if (closed) { return; }\n  mutex.unlock();')),
M('lock-server-thread','C12',(N,'        if (!stopped) {\n          onError','        std::unique_lock<std::mutex> l(mutex);\n        if (!stopped) {\n          l.unlock();\n          onError')),
M('lock-server-onerror','C12',(N,'      lock.unlock();  // onError may call back into the server.\n','')),
M('lock-file-order','C12',(IO,'''    std::unique_lock<std::mutex> lock(writeMutex);
    if (closed) {''','''    std::unique_lock<std::mutex> lock(writeMutex);
    std::unique_lock<std::mutex> rlock(readMutex);
    if (closed) {''')),
M('lock-dtor-join','C12',(S,'    inbox.close();\n','    std::unique_lock<std::mutex> lock(sendMutex);\n    inbox.close();\n')),
M('lock-send-handler','C12',(S,'    handlers.put(seq, responseTypeInfo, responseHandler);\n','    std::unique_lock<std::mutex> lock(sendMutex);\n    handlers.put(seq, responseTypeInfo, responseHandler);\n')),
M('lock-chan-double','C12',(CH,'  closed = true;\n  cv.notify_all();','  closed = true;\n  std::unique_lock<std::mutex> l2(mutex);\n  cv.notify_all();')),
M('lock-accept-cb','C12',(SO,'''  if (shared) {
    bool listening = false;
    shared->lock([&](SOCKET socket, const addrinfo* info) {
      if (socket == InvalidSocket ||
          bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
        return;''','''  if (shared) {
    bool listening = false;
    shared->lock([&](SOCKET socket, const addrinfo* info) {
      if (socket == InvalidSocket ||
          bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
        shared->close();
        return;''')),
]
NEUTRAL=[
M('n-chan-loop','',(CH,'cv.wait(lock, [&] { return queue.size() > 0 || closed; });','while (queue.empty() && !closed) {\n    cv.wait(lock);\n  }')),
M('n-chan-helper','',(CH,"""  std::unique_lock<std::mutex> lock(mutex);
  auto notify = queue.size() == 0 && !closed;
  queue.push(std::move(in));
  if (notify) {
    cv.notify_all();
  }""","""  std::lock_guard<std::mutex> guard(mutex);
  bool wasEmpty = queue.empty();
  queue.push(std::move(in));
  wakeIf(wasEmpty && !closed);"""),(CH,' private:\n  bool closed',' private:\n  void wakeIf(bool doIt) {\n    if (doIt) {\n      cv.notify_all();\n    }\n  }\n  bool closed')),
M('n-chan-notify-after','',(CH,"""  std::unique_lock<std::mutex> lock(mutex);
  auto notify = queue.size() == 0 && !closed;
  queue.push(in);
  if (notify) {
    cv.notify_all();
  }""","""  bool notify;
  {
    std::unique_lock<std::mutex> lock(mutex);
    notify = queue.size() == 0 && !closed;
    queue.push(in);
  }
  if (notify) {
    cv.notify_all();
  }""")),
M('n-chan-always-notify','',(CH,"""  queue.push(in);
  if (notify) {
    cv.notify_all();
  }""","""  (void)notify;
  queue.push(in);
  cv.notify_all();""")),
M('n-chan-take-restruct','',(CH,"""  if (queue.size() == 0) {
    return optional<T>();
  }
  auto out = std::move(queue.front());
  queue.pop();
  return optional<T>(std::move(out));""","""  optional<T> out;
  if (!queue.empty()) {
    out = std::move(queue.front());
    queue.pop();
  }
  return out;""")),
M('n-chan-close-guard','',(CH,'  std::unique_lock<std::mutex> lock(mutex);\n  closed = true;\n  cv.notify_all();','  {\n    std::lock_guard<std::mutex> lock(mutex);\n    closed = true;\n  }\n  cv.notify_all();')),
M('n-chan-reset-loop','',(CH,'  queue = {};\n  closed = false;','  closed = false;\n  while (!queue.empty()) {\n    queue.pop();\n  }')),
M('n-pipe-insert','',(IO,"""    for (size_t i = 0; i < bytes; i++) {
      data.emplace_back(src[i]);
    }""","""    data.insert(data.end(), src, src + bytes);""")),
M('n-pipe-pushback','',(IO,"""    for (size_t i = 0; i < bytes; i++) {
      data.emplace_back(src[i]);
    }""","""    auto end = src + bytes;
    while (src != end) {
      data.push_back(*src++);
    }""")),
M('n-pipe-read-while','',(IO,"""      for (; n < bytes && data.size() > 0; n++) {
        out[n] = data.front();
        data.pop_front();
      }""","""      while (n < bytes && !data.empty()) {
        out[n++] = data.front();
        data.pop_front();
      }""")),
M('n-pipe-read-do','',(IO,"""    size_t n = 0;
    while (true) {
      cv.wait(lock, [&] { return closed || data.size() > 0; });
      if (closed) {
        return n;
      }
      for (; n < bytes && data.size() > 0; n++) {
        out[n] = data.front();
        data.pop_front();
      }
      if (n == bytes) {
        return n;
      }
    }""","""    size_t n = 0;
    do {
      while (!closed && data.empty()) {
        cv.wait(lock);
      }
      if (closed) {
        break;
      }
      for (; n < bytes && !data.empty(); n++) {
        out[n] = data.front();
        data.pop_front();
      }
    } while (n != bytes);
    return n;""")),
M('n-pipe-take-helper','',(IO,"""      for (; n < bytes && data.size() > 0; n++) {
        out[n] = data.front();
        data.pop_front();
      }""","""      n += drain(out + n, bytes - n);"""),(IO,""" private:
  std::mutex mutex;
  std::condition_variable cv;
  std::deque""",""" private:
  // drain() moves up to max bytes from data to out. mutex must be held.
  size_t drain(uint8_t* out, size_t max) {
    size_t n = 0;
    for (; n < max && data.size() > 0; n++) {
      out[n] = data.front();
      data.pop_front();
    }
    return n;
  }

  std::mutex mutex;
  std::condition_variable cv;
  std::deque""")),
M('n-pipe-copy-erase','',(IO,"""      for (; n < bytes && data.size() > 0; n++) {
        out[n] = data.front();
        data.pop_front();
      }""","""      size_t count = std::min(bytes - n, data.size());
      std::copy(data.begin(), data.begin() + count, out + n);
      data.erase(data.begin(), data.begin() + count);
      n += count;"""),(IO,'#include <atomic>','#include <algorithm>\n#include <atomic>')),
M('n-file-guard','',(IO,'std::unique_lock<std::mutex> lock(readMutex);','std::lock_guard<std::mutex> guard(readMutex);'),(IO,'std::unique_lock<std::mutex> lock(writeMutex);','std::lock_guard<std::mutex> guard(writeMutex);')),
M('n-file-fread','',(IO,"""    auto out = reinterpret_cast<char*>(buffer);
    for (size_t i = 0; i < n; i++) {
      int c = fgetc(f);
      if (c == EOF) {
        return i;
      }
      out[i] = char(c);
    }
    return n;""","""    return fread(buffer, 1, n, f);""")),
M('n-file-read-while','',(IO,"""    for (size_t i = 0; i < n; i++) {
      int c = fgetc(f);
      if (c == EOF) {
        return i;
      }
      out[i] = char(c);
    }
    return n;""","""    size_t count = 0;
    while (count < n) {
      const int c = fgetc(f);
      if (c == EOF) {
        break;
      }
      out[count++] = static_cast<char>(c);
    }
    return count;""")),
M('n-file-write','',(IO,"""    if (fwrite(buffer, 1, n, f) == n) {
      fflush(f);
      return true;
    }
    return false;""","""    const size_t written = fwrite(buffer, 1, n, f);
    if (written != n) {
      return false;
    }
    fflush(f);
    return true;""")),
M('n-file-close-early','',(IO,"""    if (closable) {
      if (!closed.exchange(true)) {
        std::unique_lock<std::mutex> readLock(readMutex);
        std::unique_lock<std::mutex> writeLock(writeMutex);
        fclose(f);
      }
    }""","""    if (!closable || closed.exchange(true)) {
      return;
    }
    std::lock_guard<std::mutex> readLock(readMutex);
    std::lock_guard<std::mutex> writeLock(writeMutex);
    fclose(f);""")),
M('n-rspy','',(IO,"""    auto c = r->read(buffer, n);
    if (c > 0) {
      auto chars = reinterpret_cast<const char*>(buffer);
      std::string buf = prefix;
      buf.append(chars, chars + c);
      s->write(buf.data(), buf.size());
    }
    return c;""","""    const size_t got = r->read(buffer, n);
    if (got == 0) {
      return got;
    }
    const std::string text = prefix + std::string(static_cast<const char*>(buffer), got);
    s->write(text.data(), text.size());
    return got;""")),
M('n-spy-helper','',(IO,"""      auto chars = reinterpret_cast<const char*>(buffer);
      std::string buf = prefix;
      buf.append(chars, chars + c);
      s->write(buf.data(), buf.size());""","""      tee(s, prefix, buffer, c);"""),(IO,"""    auto chars = reinterpret_cast<const char*>(buffer);
    std::string buf = prefix;
    buf.append(chars, chars + n);
    s->write(buf.data(), buf.size());""","""    tee(s, prefix, buffer, n);"""),(IO,'class ReaderSpy','void tee(const std::shared_ptr<dap::Writer>& s, const std::string& prefix, const void* data, size_t n) {\n  std::string buf = prefix;\n  buf.append(reinterpret_cast<const char*>(data), n);\n  s->write(buf.data(), buf.size());\n}\n\nclass ReaderSpy')),
M('n-wspy','',(IO,"""    if (!w->write(buffer, n)) {
      return false;
    }
    auto chars = reinterpret_cast<const char*>(buffer);
    std::string buf = prefix;
    buf.append(chars, chars + n);
    s->write(buf.data(), buf.size());
    return true;""","""    const bool ok = w->write(buffer, n);
    if (ok) {
      std::string buf(prefix);
      buf.append(static_cast<const char*>(buffer), n);
      s->write(buf.c_str(), buf.length());
    }
    return ok;""")),
M('n-sock-read-do','',(SO,"""    while (true) {
      auto len =
          recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
      if (len < 0 && errno == EINTR) {
        continue;
      }
      return (len < 0) ? 0 : len;
    }""","""    decltype(recv(s, static_cast<char*>(buffer), 0, 0)) len;
    do {
      len = recv(s, static_cast<char*>(buffer), static_cast<int>(bytes), 0);
    } while (len < 0 && errno == EINTR);
    return len > 0 ? len : 0;""")),
M('n-sock-write-for','',(SO,"""    while (bytes > 0) {
      auto len = ::send(s, data, static_cast<int>(bytes), flags);
      if (len < 0 && errno == EINTR) {
        continue;
      }
      if (len <= 0) {
        return false;
      }
      data += len;
      bytes -= static_cast<size_t>(len);
    }
    return true;""","""    size_t sent = 0;
    while (sent < bytes) {
      const auto len = ::send(s, data + sent, static_cast<int>(bytes - sent), flags);
      if (len > 0) {
        sent += static_cast<size_t>(len);
      } else if (!(len < 0 && errno == EINTR)) {
        return false;
      }
    }
    return true;""")),
M('n-sock-close-helper','',(SO,"""    WLock l(mutex);
    if (s != InvalidSocket) {
#if !defined(_WIN32) && !defined(__APPLE__)
      ::close(s);
#endif
      s = InvalidSocket;
    }
  }
""","""    WLock l(mutex);
    releaseHandle();
  }

  // releaseHandle() closes the handle. mutex must be held for writing.
  void releaseHandle() {
    if (s == InvalidSocket) {
      return;
    }
    const SOCKET old = s;
    s = InvalidSocket;
#if !defined(_WIN32) && !defined(__APPLE__)
    ::close(old);
#else
    (void)old;
#endif
  }
""")),
M('n-sock-isopen','',(SO,"""    {
      RLock l(mutex);
      if ((s != InvalidSocket) && !errored(s)) {
        return true;
      }
    }
    close();
    return false;""","""    bool open = false;
    {
      RLock l(mutex);
      open = s != InvalidSocket && !errored(s);
    }
    if (!open) {
      close();
    }
    return open;""")),
M('n-sock-ctor','',(SO,"""      if (socket == InvalidSocket ||
          bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
        return;
      }

      if (listen(socket, 0) != 0) {
        return;
      }

      listening = true;""","""      listening = socket != InvalidSocket && bind(socket, info->ai_addr, static_cast<int>(info->ai_addrlen)) == 0 &&
                  listen(socket, 0) == 0;""")),
M('n-sock-accept','',(SO,"""      if (socket != InvalidSocket && !errored(socket)) {
        init();
        auto accepted = ::accept(socket, 0, 0);
        if (accepted != InvalidSocket) {
          out = std::make_shared<Shared>(accepted);
          out->setOptions();
        }
      }""","""      if (socket == InvalidSocket || errored(socket)) {
        return;
      }
      init();
      const SOCKET accepted = ::accept(socket, nullptr, nullptr);
      if (accepted == InvalidSocket) {
        return;
      }
      auto connection = std::make_shared<Shared>(accepted);
      connection->setOptions();
      out = connection;""")),
M('n-sock-connect-helper','',(SO,"""      fd_set fdset;
      FD_ZERO(&fdset);
      FD_SET(socket, &fdset);

      timeval tv;
      tv.tv_sec = timeoutMillis / 1000;
      tv.tv_usec = (timeoutMillis % 1000) * 1000;
      res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);
      if (res > 0 && !errored(socket) && setBlocking(socket, true)) {
        out = shared;
      }""","""      if (waitWritable(socket, timeoutMillis) && !errored(socket)) {
        if (setBlocking(socket, true)) {
          out = shared;
        }
      }"""),(SO,'bool errored(SOCKET s) {',"""// waitWritable() waits for the socket to become writable.
bool waitWritable(SOCKET s, uint32_t timeoutMillis) {
  fd_set fdset;
  FD_ZERO(&fdset);
  FD_SET(s, &fdset);
  timeval tv;
  tv.tv_sec = timeoutMillis / 1000;
  tv.tv_usec = (timeoutMillis - (timeoutMillis / 1000) * 1000) * 1000;
  return select(static_cast<int>(s + 1), nullptr, &fdset, nullptr, &tv) > 0;
}

bool errored(SOCKET s) {""")),
M('n-sock-connect-invert','',(SO,"""    auto res = ::connect(socket, info->ai_addr, (int)info->ai_addrlen);
    if (res == 0) {
      if (setBlocking(socket, true)) {
        out = shared;
      }
    } else {
#if""","""    auto res = ::connect(socket, info->ai_addr, (int)info->ai_addrlen);
    const bool immediate = res == 0;
    if (immediate && setBlocking(socket, true)) {
      out = shared;
    }
    if (!immediate) {
#if""")),
M('n-sock-create','',(SO,"""    if (info) {
      auto socket =
          ::socket(info->ai_family, info->ai_socktype, info->ai_protocol);
      auto out = std::make_shared<Shared>(info, socket);
      out->setOptions();
      return out;
    }

    term();
    return nullptr;""","""    if (info == nullptr) {
      term();
      return nullptr;
    }
    const SOCKET handle = ::socket(info->ai_family, info->ai_socktype, info->ai_protocol);
    auto out = std::make_shared<Shared>(info, handle);
    out->setOptions();
    return out;""")),
M('n-srv-loop','',(N,"""      while (true) {
        if (auto rw = socket->accept()) {
          onConnect(rw);
          continue;
        }
        if (!stopped) {
          onError("Failed to accept connection");
        }
        break;
      };""","""      while (auto rw = socket->accept()) {
        onConnect(rw);
      }
      if (!stopped) {
        onError("Failed to accept connection");
      }""")),
M('n-srv-inline','',(N,"""    std::unique_lock<std::mutex> lock(mutex);
    stopWithLock();
  }
""","""    std::lock_guard<std::mutex> guard(mutex);
    const bool wasStopped = stopped.exchange(true);
    if (wasStopped) {
      return;
    }
    socket->close();
    thread.join();
  }
""")),
M('n-srv-run-helper','',(N,"""    thread = std::thread([=] {
      while (true) {
        if (auto rw = socket->accept()) {
          onConnect(rw);
          continue;
        }
        if (!stopped) {
          onError("Failed to accept connection");
        }
        break;
      };
    });""","""    thread = std::thread([=] { serve(onConnect, onError); });"""),(N,' private:\n',""" private:
  void serve(const OnConnect& onConnect, const OnError& onError) {
    for (;;) {
      auto connection = socket->accept();
      if (!connection) {
        break;
      }
      onConnect(connection);
    }
    if (isRunning()) {
      onError("Failed to accept connection");
    }
  }

""")),
M('n-srv-reset','',(N,'    socket = std::unique_ptr<dap::Socket>(\n        new dap::Socket(address, std::to_string(port).c_str()));','    const std::string service = std::to_string(port);\n    socket.reset(new dap::Socket(address, service.c_str()));')),
M('n-fut-loop','',(F,'  state->cv.wait(lock, [&] { return state->hasVal; });\n  return state->val;','  while (!state->hasVal) {\n    state->cv.wait(lock);\n  }\n  return state->val;')),
M('n-fut-set-guard','',(F,'  std::unique_lock<std::mutex> lock(state->mutex);\n  state->val = std::move(value);\n  state->hasVal = true;\n  state->cv.notify_all();','  auto& s = *state;\n  {\n    std::lock_guard<std::mutex> lock(s.mutex);\n    s.val = std::move(value);\n    s.hasVal = true;\n  }\n  s.cv.notify_all();')),
M('n-fut-waitfor','',(F,"""  return state->cv.wait_for(lock, timeout, [&] { return state->hasVal; })
             ? future_status::ready
             : future_status::timeout;""","""  const bool ready = state->cv.wait_for(lock, timeout, [&] { return state->hasVal; });
  if (!ready) {
    return future_status::timeout;
  }
  return future_status::ready;""")),
M('n-fut-get-wait','',(F,'  std::unique_lock<std::mutex> lock(state->mutex);\n  state->cv.wait(lock, [&] { return state->hasVal; });\n  return state->val;','  wait();\n  std::unique_lock<std::mutex> lock(state->mutex);\n  return state->val;')),
M('n-rw-loop','',(RW,"""  if (readLocks > 0) {
    pendingWriteLocks++;
    cv.wait(lock, [&] { return readLocks == 0; });
    pendingWriteLocks--;
  }""","""  pendingWriteLocks++;
  while (readLocks > 0) {
    cv.wait(lock);
  }
  pendingWriteLocks--;""")),
M('n-rw-unlockreader','',(RW,"""  readLocks--;
  if (readLocks == 0 && pendingWriteLocks > 0) {
    cv.notify_one();
  }""","""  if (--readLocks == 0) {
    if (pendingWriteLocks > 0) {
      cv.notify_one();
    }
  }""")),
M('n-rw-unlockreader-all','',(RW,"""  if (readLocks == 0 && pendingWriteLocks > 0) {
    cv.notify_one();
  }""","""  cv.notify_all();""")),
M('n-rw-move','',(RW,"""RLock::RLock(RLock&& other) {
  m = other.m;
  other.m = nullptr;
}""","""RLock::RLock(RLock&& other) : m(other.m) {
  other.m = nullptr;
}""")),
M('n-rw-assign','',(RW,"""  if (this != &other) {
    if (m != nullptr) {
      m->unlockReader();
    }
    m = other.m;
    other.m = nullptr;
  }
  return *this;""","""  if (this == &other) {
    return *this;
  }
  RWMutex* const old = m;
  m = other.m;
  other.m = nullptr;
  if (old) {
    old->unlockReader();
  }
  return *this;""")),
M('n-to-guard','',(TO,"""  auto typeinfos = TypeInfos::get();
  std::unique_lock<std::mutex> lock(typeinfos->typesMutex);
  typeinfos->types.emplace_back(std::unique_ptr<TypeInfo>(ti));""","""  auto& infos = *TypeInfos::get();
  std::unique_ptr<TypeInfo> owned(ti);
  std::lock_guard<std::mutex> guard(infos.typesMutex);
  infos.types.push_back(std::move(owned));""")),
M('n-sb-read','',(SB,"""  auto len = std::min(bytes, chunk_length);
  memcpy(buffer, str.data(), len);
  str = std::string(str.begin() + len, str.end());
  if (bytes < chunk_length) {
    chunk_length -= bytes;
  } else {
    chunk_lengths.pop_front();
  }
  return len;""","""  const size_t len = bytes < chunk_length ? bytes : chunk_length;
  memcpy(buffer, str.c_str(), len);
  str.erase(0, len);
  chunk_length -= len;
  if (chunk_length == 0) {
    chunk_lengths.pop_front();
  }
  return len;""")),
M('n-sb-substr','',(SB,'  str = std::string(str.begin() + len, str.end());','  str = str.substr(len);')),
M('n-sb-write','',(SB,'  auto chars = reinterpret_cast<const char*>(buffer);\n  str.append(chars, chars + bytes);','  str += std::string(static_cast<const char*>(buffer), bytes);')),
]
