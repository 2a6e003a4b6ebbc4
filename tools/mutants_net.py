from mutants_conc import M, S, IO, CH, SO, N, F, RW
RECV='''    while (true) {
      auto len =
          recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
      if (len < 0 && errno == EINTR) {
        continue;
      }
      return (len < 0) ? 0 : len;
    }
'''
SEND='''    while (bytes > 0) {
      auto len = ::send(s, data, static_cast<int>(bytes), flags);
      if (len < 0 && errno == EINTR) {
        continue;
      }
      if (len <= 0) {
        return false;
      }
      data += len;
      bytes -= static_cast<size_t>(len);
    }
    return true;
'''
CLOSE='''    WLock l(mutex);
    if (s != InvalidSocket) {
#if !defined(_WIN32) && !defined(__APPLE__)
      ::close(s);
#endif
      s = InvalidSocket;
    }
'''
DTOR='''    if (info) {
        freeaddrinfo(info);
    }
    close();
    term();
'''
ACC='''      if (socket != InvalidSocket && !errored(socket)) {
        init();
        auto accepted = ::accept(socket, 0, 0);
        if (accepted != InvalidSocket) {
          out = std::make_shared<Shared>(accepted);
          out->setOptions();
        }
      }
'''
CREATE='''    if (info) {
      auto socket =
          ::socket(info->ai_family, info->ai_socktype, info->ai_protocol);
      auto out = std::make_shared<Shared>(info, socket);
      out->setOptions();
      return out;
    }
'''
LOOP='''        if (auto rw = socket->accept()) {
          onConnect(rw);
          continue;
        }
        if (!stopped) {
          onError("Failed to accept connection");
        }
        break;
'''
STOP='''    if (!stopped.exchange(true)) {
      socket->close();
      thread.join();
    }
'''
WAIT='''      tv.tv_sec = timeoutMillis / 1000;
      tv.tv_usec = (timeoutMillis % 1000) * 1000;
'''
MUTANTS=[
# C18
M('net-close-keep','C18',(SO,CLOSE,CLOSE.replace('      s = InvalidSocket;\n',''))),
M('net-close-nocheck','C18',(SO,CLOSE,CLOSE.replace('    if (s != InvalidSocket) {\n','    {\n'))),
M('net-close-rlock','C18',(SO,CLOSE,CLOSE.replace('WLock','RLock'))),
M('net-close-noclose','C18',(SO,'#if !defined(_WIN32) && !defined(__APPLE__)\n      ::close(s);\n#endif\n','')),
M('net-close-noshutdown','C18',(SO,'''        // under lock below.
        ::shutdown(s, SHUT_RDWR);
''','''        // under lock below.
''')),
M('net-close-shutrd','C18',(SO,'''        // under lock below.
        ::shutdown(s, SHUT_RDWR);
''','''        // under lock below.
        ::shutdown(s, SHUT_RD);
''')),
M('net-close-shutwr','C18',(SO,'''        // under lock below.
        ::shutdown(s, SHUT_RDWR);
''','''        // under lock below.
        ::shutdown(s, SHUT_WR);
''')),
M('net-close-early','C18',(SO,'''        // under lock below.
        ::shutdown(s, SHUT_RDWR);
''','''        // under lock below.
        ::shutdown(s, SHUT_RDWR);
        ::close(s);
''')),
M('net-dtor-noclose','C18',(SO,DTOR,DTOR.replace('    close();\n',''))),
M('net-dtor-close-info','C18',(SO,DTOR,DTOR.replace('    close();\n','    if (info) {\n      close();\n    }\n'))),
M('net-dtor-noinfo','C18',(SO,DTOR,DTOR.replace('''    if (info) {
        freeaddrinfo(info);
    }
''',''))),
M('net-dtor-info-cond','C18',(SO,DTOR,DTOR.replace('if (info)','if (info && s != InvalidSocket)'))),
M('net-create-free','C18',(SO,CREATE,CREATE.replace('      out->setOptions();\n','      out->setOptions();\n      freeaddrinfo(info);\n'))),
M('net-create-leak-info','C18',(SO,CREATE,CREATE.replace('      auto out','''      if (socket == InvalidSocket) {
        term();
        return nullptr;
      }
      auto out'''))),
M('net-create-early-close','C18',(SO,CREATE,CREATE.replace('      auto out','''      if (info->ai_next != nullptr) {
        ::close(socket);
      }
      auto out'''))),
M('net-setopt-nocheck','C18',(SO,'''    RLock l(mutex);
    if (s == InvalidSocket) {
      return;
    }

    int enable''','''    RLock l(mutex);
    int enable''')),
M('net-accept-nocheck','C18',(SO,ACC,ACC.replace('if (accepted != InvalidSocket)','if (accepted != 0)'))),
M('net-accept-drop','C18',(SO,ACC,ACC.replace('if (accepted != InvalidSocket) {','if (accepted != InvalidSocket && !errored(accepted)) {'))),
M('net-accept-closed','C18',(SO,ACC,ACC.replace('if (socket != InvalidSocket && !errored(socket))','if (!errored(socket) || errno == EINTR)'))),
M('net-errored-nocheck','C18',(SO,'''  if (s == InvalidSocket) {
    return true;
  }
  char error''','''  char error'''),(SO,'socket != InvalidSocket && !errored(socket)','!errored(socket)')),
M('net-write-nocheck','C18',(SO,'''    if (s == InvalidSocket) {
      return false;
    }
''','')),
M('net-read-nocheck','C18',(SO,'''    if (s == InvalidSocket) {
      return 0;
    }
''','')),
M('net-read-stale','C18',(SO,'''    RLock lock(mutex);
    if (s == InvalidSocket) {
      return 0;
    }
    while (true) {
      auto len =
          recv(s,''','''    SOCKET s;
    {
      RLock lock(mutex);
      s = this->s;
    }
    if (s == InvalidSocket) {
      return 0;
    }
    while (true) {
      auto len =
          recv(s,''')),
M('net-isopen-close','C18',(SO,'''      if ((s != InvalidSocket) && !errored(s)) {
        return true;
      }
''','''      if ((s != InvalidSocket) && !errored(s)) {
        return true;
      }
      if (s != InvalidSocket) {
        ::close(s);
      }
''')),
M('net-isopen-true','C18',(SO,'''      if ((s != InvalidSocket) && !errored(s)) {''','''      if ((s == InvalidSocket) || !errored(s)) {''')),
M('net-read-close','C18',(SO,'      return (len < 0) ? 0 : len;\n','''      if (len == 0) {
        ::close(s);
      }
      return (len < 0) ? 0 : len;
''')),
M('net-connect-close','C18',(SO,'''    if (!setBlocking(socket, false)) {
      return;
    }
''','''    if (!setBlocking(socket, false)) {
      ::close(socket);
      return;
    }
''')),
M('net-lock-nolock','C18',(SO,'''    RLock l(mutex);
    f(s, info);
''','''    f(s, info);
''')),
# C19
M('io-recv-nointr','C19',(SO,RECV,RECV.replace('''      if (len < 0 && errno == EINTR) {
        continue;
      }
''',''))),
M('io-recv-again-any','C19',(SO,RECV,RECV.replace('len < 0 && errno == EINTR','len < 0'))),
M('io-recv-zero-retry','C19',(SO,RECV,RECV.replace('len < 0 && errno','len <= 0 && errno'))),
M('io-recv-neg','C19',(SO,RECV,RECV.replace('return (len < 0) ? 0 : len;','return len;'))),
M('io-recv-bytes','C19',(SO,RECV,RECV.replace('return (len < 0) ? 0 : len;','return (len <= 0) ? 0 : bytes;'))),
M('io-recv-plus','C19',(SO,RECV,RECV.replace('static_cast<int>(bytes)','static_cast<int>(bytes + 1)'))),
M('io-recv-eagain','C19',(SO,RECV,RECV.replace('errno == EINTR','errno == EAGAIN'))),
M('io-recv-peek','C19',(SO,RECV,RECV.replace('bytes), 0)','bytes), MSG_PEEK)'))),
M('io-recv-once','C19',(SO,RECV,'''    for (int i = 0; i < 3; i++) {
      auto len =
          recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
      if (len < 0 && errno == EINTR) {
        continue;
      }
      return (len < 0) ? 0 : len;
    }
    return 0;
''')),
M('io-send-noadvance','C19',(SO,SEND,SEND.replace('      data += len;\n',''))),
M('io-send-full','C19',(SO,SEND,SEND.replace('      bytes -= static_cast<size_t>(len);\n','      bytes -= bytes;\n'))),
M('io-send-once','C19',(SO,SEND,'''    auto len = ::send(s, data, static_cast<int>(bytes), flags);
    return len >= 0;
''')),
M('io-send-eq','C19',(SO,SEND,'''    while (bytes > 0) {
      auto len = ::send(s, data, static_cast<int>(bytes), flags);
      if (len < 0 && errno == EINTR) {
        continue;
      }
      return static_cast<size_t>(len) == bytes;
    }
    return true;
''')),
M('io-send-nointr','C19',(SO,SEND,SEND.replace('''      if (len < 0 && errno == EINTR) {
        continue;
      }
''',''))),
M('io-send-flags','C19',(SO,'constexpr int flags = MSG_NOSIGNAL;','constexpr int flags = 0;')),
M('io-send-noflags','C19',(SO,SEND,SEND.replace('bytes), flags','bytes), 0'))),
M('io-send-zero','C19',(SO,SEND,SEND.replace('len <= 0','len < 0 && errno != EAGAIN').replace('      data += len;','      if (len <= 0) {\n        continue;\n      }\n      data += len;'))),
M('io-send-failtrue','C19',(SO,SEND,SEND.replace('''      if (len <= 0) {
        return false;
      }
''','''      if (len <= 0) {
        break;
      }
'''))),
M('io-send-more','C19',(SO,SEND,SEND.replace('''      bytes -= static_cast<size_t>(len);
''','''      bytes -= static_cast<size_t>(len);
      if (bytes == 1) {
        break;
      }
'''))),
M('io-send-skip','C19',(SO,SEND,SEND.replace('''      data += len;
''','''      data += len + (bytes > 65536 ? 1 : 0);
'''))),
M('io-send-intr-adv','C19',(SO,SEND,SEND.replace('''      if (len < 0 && errno == EINTR) {
        continue;
      }
''','''      if (len < 0 && errno == EINTR) {
        data++;
        bytes--;
        continue;
      }
'''))),
M('io-send-closed-true','C19',(SO,'''    if (s == InvalidSocket) {
      return false;
    }
''','''    if (s == InvalidSocket) {
      return true;
    }
''')),
# C20
M('con-ready-ge','C20',(SO,'if (res > 0 && !errored','if (res >= 0 && !errored')),
M('con-noerr','C20',(SO,'res > 0 && !errored(socket) && setBlocking','res > 0 && setBlocking'),(SO,'return out->isOpen() ? out : nullptr;','return out;')),
M('con-noerr2','C20',(SO,'''      if (res > 0 && !errored(socket) && setBlocking(socket, true)) {''','''      errored(socket);
      if (res > 0 && setBlocking(socket, true)) {''')),
M('con-noblock','C20',(SO,'res > 0 && !errored(socket) && setBlocking(socket, true)','res > 0 && !errored(socket)')),
M('con-noblock-imm','C20',(SO,'''      if (setBlocking(socket, true)) {
        out = shared;
      }
    } else {''','''      out = shared;
    } else {''')),
M('con-block-ignored','C20',(SO,'''      if (setBlocking(socket, true)) {
        out = shared;
      }
    } else {''','''      setBlocking(socket, true);
      out = shared;
    } else {''')),
M('con-usec','C20',(SO,WAIT,WAIT.replace('(timeoutMillis % 1000) * 1000','(timeoutMillis % 1000)'))),
M('con-usec2','C20',(SO,WAIT,WAIT.replace('(timeoutMillis % 1000) * 1000','timeoutMillis * 1000'))),
M('con-sec','C20',(SO,WAIT,WAIT.replace('timeoutMillis / 1000','(timeoutMillis + 999) / 1000'))),
M('con-sec16','C20',(SO,WAIT,WAIT.replace('timeoutMillis / 1000','(timeoutMillis & 0xffff) / 1000'))),
M('con-nolimit','C20',(SO,'nullptr, &fdset, nullptr, &tv)','nullptr, &fdset, nullptr, timeoutMillis > 60000 ? nullptr : &tv)')),
M('con-read','C20',(SO,'nullptr, &fdset, nullptr, &tv)','&fdset, nullptr, nullptr, &tv)')),
M('con-nfds','C20',(SO,'static_cast<int>(socket + 1)','static_cast<int>(socket)')),
M('con-setsize','C20',(SO,'''      if (socket >= FD_SETSIZE) {
        return;  // Does not fit in the fd_set.
      }
''','')),
M('con-blocking-connect','C20',(SO,'''    if (!setBlocking(socket, false)) {
      return;
    }
''','')),
M('con-setblocking-inv','C20',(SO,'blocking ? (arg & ~O_NONBLOCK) : (arg | O_NONBLOCK)','blocking ? (arg | O_NONBLOCK) : (arg & ~O_NONBLOCK)')),
M('con-setblocking-result','C20',(SO,'return fcntl(s, F_SETFL, arg) >= 0;','fcntl(s, F_SETFL, arg);\n  return true;')),
M('con-setblocking-xor','C20',(SO,'blocking ? (arg & ~O_NONBLOCK) :','blocking ? (arg & O_NONBLOCK) :')),
M('con-zero','C20',(SO,'''      if (::connect(socket, info->ai_addr, (int)info->ai_addrlen) == 0) {
        out = shared;
      }
      return;
''','''      if (::connect(socket, info->ai_addr, (int)info->ai_addrlen) == 0 ||
          errno == EISCONN || errno == EALREADY) {
        out = shared;
      }
      return;
''')),
M('con-timeout-small','C20',(SO,'if (timeoutMillis == 0) {','if (timeoutMillis < 10) {')),
M('con-net-timeout','C20',(N,'return Socket::connect(addr, std::to_string(port).c_str(), timeoutMillis);','return Socket::connect(addr, std::to_string(port).c_str(), timeoutMillis / 1000);')),
M('con-net-port','C20',(N,'return Socket::connect(addr, std::to_string(port).c_str(), timeoutMillis);','return Socket::connect(addr, std::to_string(port & 0x7fff).c_str(), timeoutMillis);')),
M('con-net-addr','C20',(N,'return Socket::connect(addr,','return Socket::connect("localhost",')),
M('con-so-error-inv','C20',(SO,'return error != 0;','return error == 1;')),
M('con-res-else','C20',(SO,'    if (res == 0) {\n      if (setBlocking','    if (res <= 0) {\n      if (setBlocking')),
# C21
M('srv-drop-stopped','C21',(N,LOOP,LOOP.replace('onConnect(rw);','if (!stopped) {\n            onConnect(rw);\n          }'))),
M('srv-twice','C21',(N,LOOP,LOOP.replace('          onConnect(rw);\n','          onConnect(rw);\n          if (!rw->isOpen()) {\n            onConnect(rw);\n          }\n'))),
M('srv-break-conn','C21',(N,LOOP,LOOP.replace('          continue;\n','          if (rw->isOpen()) {\n            continue;\n          }\n          break;\n'))),
M('srv-err-always','C21',(N,LOOP,LOOP.replace('''        if (!stopped) {
          onError("Failed to accept connection");
        }
''','''        onError("Failed to accept connection");
'''))),
M('srv-err-never','C21',(N,LOOP,LOOP.replace('if (!stopped) {','if (stopped) {'))),
M('srv-retry','C21',(N,LOOP,LOOP.replace('''          onError("Failed to accept connection");
        }
        break;
''','''          onError("Failed to accept connection");
          continue;
        }
        break;
'''))),
M('srv-join-first','C21',(N,STOP,STOP.replace('''      socket->close();
      thread.join();
''','''      thread.join();
      socket->close();
'''))),
M('srv-noclose','C21',(N,STOP,STOP.replace('''      socket->close();
''',''))),
M('srv-nojoin','C21',(N,STOP,STOP.replace('''      thread.join();
''','''      thread.detach();
'''))),
M('srv-start-nostop','C21',(N,'''    stopWithLock();
    socket =''','''    socket =''')),
M('srv-start-stop-late','C21',(N,'''    stopWithLock();
    socket = std::unique_ptr<dap::Socket>(
        new dap::Socket(address, std::to_string(port).c_str()));
''','''    socket = std::unique_ptr<dap::Socket>(
        new dap::Socket(address, std::to_string(port).c_str()));
    stopWithLock();
''')),
M('srv-dtor','C21',(N,'~Impl() { stop(); }','~Impl() {\n    if (socket && socket->isOpen()) {\n      stop();\n    }\n  }')),
M('srv-anyaddr','C21',(N,'return start("localhost", port','return start("0.0.0.0", port')),
M('srv-nulladdr','C21',(N,'return start("localhost", port','return start(nullptr, port')),
M('srv-open-true','C21',(N,'''      onError("Failed to open socket");
      return false;
''','''      onError("Failed to open socket");
      return true;
''')),
M('srv-open-noerr','C21',(N,'''      onError("Failed to open socket");
      return false;
''','''      return false;
''')),
M('srv-mark-early','C21',(N,'''    if (!socket->isOpen()) {''','''    stopped = false;
    if (!socket->isOpen()) {''')),
M('srv-mark-late','C21',(N,'''    stopped = false;
    thread =''','''    thread ='''),(N,'''    });

    return true;
''','''    });
    stopped = false;

    return true;
''')),
M('srv-mark-never','C21',(N,'''    stopped = false;
    thread =''','''    thread =''')),
M('srv-init','C21',(N,'Impl() : stopped{true}','Impl() : stopped{false}')),
M('srv-capref','C21',(N,'thread = std::thread([=] {','thread = std::thread([this, &onConnect, &onError] {')),
M('srv-port','C21',(N,'std::to_string(port).c_str()));\n\n    if (!socket','std::to_string(port & 0xfff).c_str()));\n\n    if (!socket')),
M('srv-noopen','C21',(N,'''    if (!socket->isOpen()) {
      lock.unlock();''','''    if (!socket) {
      lock.unlock();''')),
]
NEUTRAL=[
M('nn-close-exchange','',(SO,CLOSE,'''    SOCKET old = InvalidSocket;
    {
      WLock l(mutex);
      old = s;
      s = InvalidSocket;
    }
    if (old != InvalidSocket) {
      ::close(old);
    }
''')),
M('nn-close-order','',(SO,CLOSE,'''    WLock l(mutex);
    if (s == InvalidSocket) {
      return;
    }
    const SOCKET old = s;
    s = InvalidSocket;
    ::close(old);
''')),
M('nn-dtor-order','',(SO,DTOR,'''    close();
    if (info != nullptr) {
      freeaddrinfo(info);
    }
    term();
''')),
M('nn-create-invert','',(SO,'''    addrinfo* info = nullptr;
    getaddrinfo(address, port, &hints, &info);

'''+CREATE+'''
    term();
    return nullptr;
''','''    addrinfo* info = nullptr;
    if (getaddrinfo(address, port, &hints, &info) != 0 || info == nullptr) {
      term();
      return nullptr;
    }
    const SOCKET handle =
        ::socket(info->ai_family, info->ai_socktype, info->ai_protocol);
    auto out = std::make_shared<Shared>(info, handle);
    out->setOptions();
    return out;
''')),
M('nn-shutdown-helper','',(SO,'''  void close() {
    {
      RLock l(mutex);
      if (s != InvalidSocket) {
#if defined(_WIN32)
        closesocket(s);
#elif __APPLE__''','''  void close() {
    {
      RLock l(mutex);
      if (valid()) {
#if defined(_WIN32)
        closesocket(s);
#elif __APPLE__'''),(SO,' private:\n  addrinfo* const info;',' private:\n  bool valid() const { return s != InvalidSocket; }\n  addrinfo* const info;')),
M('nn-recv-do','',(SO,RECV,'''    auto dst = reinterpret_cast<char*>(buffer);
    ssize_t len;
    do {
      len = recv(s, dst, bytes, 0);
    } while (len < 0 && errno == EINTR);
    return len > 0 ? static_cast<size_t>(len) : 0;
''')),
M('nn-recv-helper','',(SO,RECV,'''    while (true) {
      auto len =
          recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
      if (len >= 0) {
        return static_cast<size_t>(len);
      }
      if (errno != EINTR) {
        return 0;
      }
    }
''')),
M('nn-send-count','',(SO,SEND,'''    size_t done = 0;
    while (done < bytes) {
      const auto len = ::send(s, data + done, bytes - done, flags);
      if (len > 0) {
        done += static_cast<size_t>(len);
      } else if (len == 0 || errno != EINTR) {
        return false;
      }
    }
    return true;
''')),
M('nn-send-for','',(SO,SEND,'''    for (size_t left = bytes; left != 0;) {
      auto len = ::send(s, data, static_cast<int>(left), flags);
      if (len < 0 && errno == EINTR) {
        continue;
      }
      if (len <= 0) {
        return false;
      }
      left -= static_cast<size_t>(len);
      data += len;
    }
    return true;
''')),
M('nn-send-end','',(SO,SEND,'''    const char* const end = data + bytes;
    while (data != end) {
      auto len = ::send(s, data, static_cast<size_t>(end - data), flags);
      if (len < 0 && errno == EINTR) {
        continue;
      }
      if (len <= 0) {
        return false;
      }
      data += len;
    }
    return true;
''')),
M('nn-send-helper','',(SO,SEND,'''    while (bytes > 0) {
      auto len = sendSome(data, bytes, flags);
      if (len <= 0) {
        return false;
      }
      data += len;
      bytes -= static_cast<size_t>(len);
    }
    return true;
'''),(SO,' private:\n  addrinfo* const info;',''' private:
  // sendSome() sends as much as the system takes, retrying interruptions.
  long sendSome(const char* data, size_t bytes, int flags) {
    while (true) {
      auto len = ::send(s, data, static_cast<int>(bytes), flags);
      if (len >= 0 || errno != EINTR) {
        return len;
      }
    }
  }
  addrinfo* const info;''')),
M('nn-con-tv','',(SO,'''      timeval tv;
'''+WAIT,'''      timeval tv = {};
      const uint32_t seconds = timeoutMillis / 1000;
      tv.tv_sec = seconds;
      tv.tv_usec = (timeoutMillis - seconds * 1000) * 1000;
''')),
M('nn-con-error','',(SO,'''  char error = 0;
  socklen_t len = sizeof(error);
  getsockopt(s, SOL_SOCKET, SO_ERROR, &error, &len);
  return error != 0;
''','''  int error = 0;
  socklen_t len = sizeof(error);
  if (getsockopt(s, SOL_SOCKET, SO_ERROR, &error, &len) != 0) {
    return false;
  }
  return error != 0;
''')),
M('nn-con-setblocking','',(SO,'''  arg = blocking ? (arg & ~O_NONBLOCK) : (arg | O_NONBLOCK);
  return fcntl(s, F_SETFL, arg) >= 0;
''','''  int flags = arg;
  if (blocking) {
    flags &= ~O_NONBLOCK;
  } else {
    flags |= O_NONBLOCK;
  }
  return fcntl(s, F_SETFL, flags) != -1;
''')),
M('nn-con-fail','',(SO,'''      if (res > 0 && !errored(socket) && setBlocking(socket, true)) {
        out = shared;
      }
''','''      if (res <= 0) {
        return;
      }
      if (errored(socket)) {
        return;
      }
      if (!setBlocking(socket, true)) {
        return;
      }
      out = shared;
''')),
M('nn-srv-while','',(N,LOOP,'''        auto rw = socket->accept();
        if (rw == nullptr) {
          if (!stopped.load()) {
            onError("Failed to accept connection");
          }
          return;
        }
        onConnect(rw);
''')),
M('nn-srv-stop','',(N,STOP,'''    const bool wasStopped = stopped.exchange(true);
    if (wasStopped) {
      return;
    }
    socket->close();
    thread.join();
''')),
M('nn-srv-reset','',(N,'''    socket = std::unique_ptr<dap::Socket>(
        new dap::Socket(address, std::to_string(port).c_str()));
''','''    const auto portString = std::to_string(port);
    socket.reset(new dap::Socket(address, portString.c_str()));
''')),
M('nn-srv-thread','',(N,'''    thread = std::thread([=] {
      while (true) {
'''+LOOP+'''      };
    });
''','''    thread = std::thread([this, onConnect, onError] { run(onConnect, onError); });
'''),(N,'''  void stopWithLock() {''','''  void run(const OnConnect& onConnect, const OnError& onError) {
    while (auto rw = socket->accept()) {
      onConnect(rw);
    }
    if (!stopped) {
      onError("Failed to accept connection");
    }
  }

  void stopWithLock() {''')),
M('nn-srv-joinable','',(N,STOP,'''    if (!stopped.exchange(true)) {
      socket->close();
      if (thread.joinable()) {
        thread.join();
      }
    }
''')),
]
