from mutants_conc import M, S, IO, CH, SO, N, F, RW
SB='src/string_buffer.h'
PR='''      for (; n < bytes && data.size() > 0; n++) {
        out[n] = data.front();
        data.pop_front();
      }
'''
PW='''    for (size_t i = 0; i < bytes; i++) {
      data.emplace_back(src[i]);
    }
'''
FR='''    for (size_t i = 0; i < n; i++) {
      int c = fgetc(f);
      if (c == EOF) {
        return i;
      }
      out[i] = char(c);
    }
    return n;
'''
MUTANTS=[
M('str-pipe-lifo','C15',(IO,PR,PR.replace('front()','back()').replace('pop_front','pop_back'))),
M('str-pipe-keep','C15',(IO,PR,'''      for (; n < bytes && data.size() > 0; n++) {
        out[n] = data.front();
        if (n + 1 < bytes || data.size() == 1) {
          data.pop_front();
        }
      }
''')),
M('str-pipe-off','C15',(IO,PR,PR.replace('n < bytes &&','n <= bytes &&'))),
M('str-pipe-restart','C15',(IO,PR,'''      for (size_t i = 0; n < bytes && data.size() > 0; i++, n++) {
        out[i] = data.front();
        data.pop_front();
      }
''')),
M('str-pipe-ret-bytes','C15',(IO,'''      if (closed) {
        return n;
      }
''','''      if (closed) {
        return bytes;
      }
''')),
M('str-pipe-ret-zero','C15',(IO,'''      if (closed) {
        return n;
      }
''','''      if (closed) {
        return 0;
      }
''')),
M('str-pipe-empty0','C15',(IO,'      cv.wait(lock, [&] { return closed || data.size() > 0; });\n','      if (data.size() == 0) {\n        cv.wait_for(lock, std::chrono::seconds(5));\n      }\n      if (data.size() == 0) {\n        return n;\n      }\n')),
M('str-pipe-closed-write','C15',(IO,'''    if (closed) {
      return false;
    }
    if (bytes == 0) {
      return true;
    }
    auto notify''','''    if (bytes == 0) {
      return true;
    }
    auto notify''')),
M('str-pipe-write-short','C15',(IO,PW,PW.replace('i < bytes','i + 1 < bytes'))),
M('str-pipe-write-front','C15',(IO,'data.emplace_back','data.emplace_front')),
M('str-pipe-write-cap','C15',(IO,PW,PW.replace('i < bytes','i < bytes && data.size() < 65536'))),
M('str-pipe-write-fail','C15',(IO,PW,PW.replace('    }\n','      if (data.size() > 65536) {\n        return false;\n      }\n    }\n'))),
M('str-pipe-isopen','C15',(IO,'    return !closed;\n','    return !closed || data.size() > 0;\n')),
M('str-pipe-reopen','C15',(IO,'''    auto notify = data.size() == 0;
''','''    auto notify = data.size() == 0;
    closed = false;
''')),
M('str-pipe-noclose','C15',(IO,'    closed = true;\n    cv','    if (data.size() == 0) {\n      closed = true;\n    }\n    cv')),
M('str-sb-chunk','C15',(SB,'  chunk_lengths.push_back(bytes);\n','  chunk_lengths.push_back(str.size());\n')),
M('str-sb-chunk-dec','C15',(SB,'    chunk_length -= bytes;\n','    chunk_length -= bytes - 1;\n')),
M('str-sb-len','C15',(SB,'  return len;\n','  return bytes;\n')),
M('str-sb-min','C15',(SB,'std::min(bytes, chunk_length)','std::max(bytes, chunk_length)')),
M('str-sb-le','C15',(SB,'  if (bytes < chunk_length) {','  if (len < bytes) {')),
M('str-sb-write-closed','C15',(SB,'''  if (closed) {
    return false;
  }
''','')),
M('str-sb-skip','C15',(SB,'str.begin() + len, str.end()','str.begin() + bytes, str.end()')),
M('str-sb-closed0','C15',(SB,'if (closed || bytes == 0 || str.size() == 0 || chunk_lengths.size() == 0) {','if (closed || bytes == 0 || str.size() < bytes || chunk_lengths.size() == 0) {')),
M('str-sb-prepend','C15',(SB,'  str.append(chars, chars + bytes);\n','  str.insert(0, chars, bytes);\n')),
M('str-file-noexch','C15',(IO,'      if (!closed.exchange(true)) {\n','      if (!closed) {\n        closed = true;\n')),
M('str-file-noguard','C15',(IO,'      if (!closed.exchange(true)) {\n','      {\n        closed = true;\n')),
M('str-file-unlocked-close','C15',(IO,'        std::unique_lock<std::mutex> readLock(readMutex);\n','')),
M('str-file-check-first','C15',(IO,'''    std::unique_lock<std::mutex> lock(writeMutex);
    if (closed) {
      return false;
    }
''','''    if (closed) {
      return false;
    }
    std::unique_lock<std::mutex> lock(writeMutex);
''')),
M('str-file-nocheck','C15',(IO,'''    if (closed) {
      return 0;
    }
''','')),
M('str-file-closable','C15',(IO,'    if (closable) {\n','    if (closable || !closed) {\n')),
M('str-file-eof','C15',(IO,FR,FR.replace('''      if (c == EOF) {
        return i;
      }
      out[i] = char(c);
''','''      out[i] = char(c);
      if (c == EOF) {
        return i + 1;
      }
'''))),
M('str-file-eof-nocheck','C15',(IO,FR,FR.replace('if (c == EOF)','if (c == EOF && i > 0)'))),
M('str-file-zero','C15',(IO,FR,FR.replace('if (c == EOF)','if (c == EOF || c == 0)'))),
M('str-file-plus1','C15',(IO,FR,FR.replace('return i;','return i + 1;'))),
M('str-file-shift','C15',(IO,FR,FR.replace('i < n','i <= n'))),
M('str-file-short','C15',(IO,'    if (fwrite(buffer, 1, n, f) == n) {','    if (fwrite(buffer, 1, n, f) > 0) {')),
M('str-file-n1','C15',(IO,'    if (fwrite(buffer, 1, n, f) == n) {','    if (fwrite(buffer, n, 1, f) <= 1) {')),
M('str-file-noflush','C15',(IO,'      fflush(f);\n','')),
M('str-file-null','C15',(IO,'  if (auto f = fopen(path, "wb")) {\n    return std::make_shared<File>(f, true);\n  }\n  return nullptr;','  return std::make_shared<File>(fopen(path, "wb"), true);')),
M('ad-rw-swap','C31',(IO,'bool isOpen() override { return r->isOpen() && w->isOpen(); }','bool isOpen() override { return r->isOpen() || w->isOpen(); }')),
M('ad-rw-open-r','C31',(IO,'bool isOpen() override { return r->isOpen() && w->isOpen(); }','bool isOpen() override { return r->isOpen(); }')),
M('ad-rw-close-w','C31',(IO,'    r->close();\n    w->close();\n','    if (r->isOpen()) {\n      r->close();\n    } else {\n      w->close();\n    }\n')),
M('ad-rw-close-r','C31',(IO,'    r->close();\n    w->close();\n','    w->close();\n')),
M('ad-rw-write','C31',(IO,'    return w->write(buffer, n);\n','    return n == 0 || w->write(buffer, n);\n')),
M('ad-rw-write2','C31',(IO,'    return w->write(buffer, n);\n','    return w->write(buffer, n) || w->write(buffer, n);\n')),
M('ad-rw-read','C31',(IO,'{ return r->read(buffer, n); }','{\n    return n > 0 ? r->read(buffer, n - 1) : 0;\n  }')),
M('ad-spy-n','C31',(IO,'      buf.append(chars, chars + c);\n','      buf.append(chars, chars + n);\n')),
M('ad-spy-order','C31',(IO,'    if (!w->write(buffer, n)) {\n      return false;\n    }\n    auto chars = reinterpret_cast<const char*>(buffer);\n    std::string buf = prefix;\n    buf.append(chars, chars + n);\n    s->write(buf.data(), buf.size());\n    return true;','    auto chars = reinterpret_cast<const char*>(buffer);\n    std::string buf = prefix;\n    buf.append(chars, chars + n);\n    s->write(buf.data(), buf.size());\n    return w->write(buffer, n);')),
M('ad-spy-ret','C31',(IO,'    s->write(buf.data(), buf.size());\n    return true;','    return s->write(buf.data(), buf.size());')),
M('ad-spy-ret-n','C31',(IO,'    return c;\n','    return n;\n')),
M('ad-spy-zero','C31',(IO,'    if (c > 0) {\n','    {\n')),
M('ad-spy-one','C31',(IO,'    if (c > 0) {\n','    if (c > 1) {\n')),
M('ad-spy-prefix','C31',(IO,'      std::string buf = prefix;\n      buf','      std::string buf;\n      buf')),
M('ad-spy-prefix-end','C31',(IO,'''    std::string buf = prefix;
    buf.append(chars, chars + n);
''','''    std::string buf(chars, n);
    buf += prefix;
''')),
M('ad-spy-cstr','C31',(IO,'''      buf.append(chars, chars + c);
      s->write(buf.data(), buf.size());
''','''      buf.append(chars, chars + c);
      s->write(buf.c_str(), strlen(buf.c_str()));
''')),
M('ad-spy-close','C31',(IO,'  bool isOpen() override { return w->isOpen(); }\n  void close() override { w->close(); }\n','  bool isOpen() override { return w->isOpen(); }\n  void close() override {\n    w->close();\n    s->close();\n  }\n')),
M('ad-spy-open','C31',(IO,'bool isOpen() override { return r->isOpen(); }','bool isOpen() override { return r->isOpen() && s->isOpen(); }')),
M('ad-spy-args','C31',(IO,'make_shared<WriterSpy>(w, s, prefix)','make_shared<WriterSpy>(s, w, prefix)')),
M('ad-create-args','C31',(IO,'  bool write(const void* buffer, size_t n) override {\n    return w->write(buffer, n);','  bool write(const void* buffer, size_t n) override {\n    if (!r->isOpen()) {\n      return false;\n    }\n    return w->write(buffer, n);')),
M('ad-writef-size','C31',(IO,'return w->write(buf, strlen(buf));','return w->write(buf, strlen(msg));')),
M('ad-writef-ret','C31',(IO,'return w->write(buf, strlen(buf));','w->write(buf, strlen(buf));\n  return true;')),
M('ad-writef-nul','C31',(IO,'return w->write(buf, strlen(buf));','return w->write(buf, strlen(buf) + 1);')),
]
NEUTRAL=[
M('ns-pipe-while','',(IO,PR,'''      while (n < bytes && !data.empty()) {
        out[n++] = data.front();
        data.pop_front();
      }
''')),
M('ns-pipe-ptr','',(IO,PR,'''      while (n < bytes && !data.empty()) {
        *out++ = data.front();
        data.pop_front();
        ++n;
      }
''')),
M('ns-pipe-copy','',(IO,PR,'''      size_t count = std::min(bytes - n, data.size());
      for (size_t i = 0; i < count; i++) {
        out[n + i] = data[i];
      }
      data.erase(data.begin(), data.begin() + count);
      n += count;
'''),(IO,'#include <atomic>','#include <algorithm>\n#include <atomic>')),
M('ns-pipe-insert','',(IO,PW,'    data.insert(data.end(), src, src + bytes);\n')),
M('ns-pipe-push','',(IO,PW,'    for (auto p = src; p != src + bytes; ++p) {\n      data.push_back(*p);\n    }\n')),
M('ns-pipe-helper','',(IO,PR,'      n += drain(out + n, bytes - n);\n'),(IO,''' private:
  std::mutex mutex;
  std::condition_variable cv;
  std::deque<uint8_t> data;
''',''' private:
  size_t drain(uint8_t* dst, size_t max) {
    size_t i = 0;
    for (; i < max && data.size() > 0; i++) {
      dst[i] = data.front();
      data.pop_front();
    }
    return i;
  }
  std::mutex mutex;
  std::condition_variable cv;
  std::deque<uint8_t> data;
''')),
M('ns-pipe-dowait','',(IO,'      cv.wait(lock, [&] { return closed || data.size() > 0; });\n','      while (!closed && data.size() == 0) {\n        cv.wait(lock);\n      }\n')),
M('ns-pipe-partial','',(IO,'      if (n == bytes) {\n        return n;\n      }\n','      if (n > 0 || bytes == 0) {\n        return n;\n      }\n')),
M('ns-pipe-open','',(IO,'bool closed = false;\n};\n\nclass RW','bool open = true;\n};\n\nclass RW'),(IO,'    return !closed;\n  }\n\n  void close','    return open;\n  }\n\n  void close'),(IO,'    closed = true;\n    cv','    open = false;\n    cv'),(IO,'return closed || data','return !open || data'),(IO,'      if (closed) {\n        return n','      if (!open) {\n        return n'),(IO,'    if (closed) {\n      return false;\n    }\n    if (bytes','    if (!open) {\n      return false;\n    }\n    if (bytes')),
M('ns-sb-erase','',(SB,'  str = std::string(str.begin() + len, str.end());\n','  str.erase(0, len);\n')),
M('ns-sb-substr','',(SB,'  str = std::string(str.begin() + len, str.end());\n','  str = str.substr(len);\n')),
M('ns-sb-empty','',(SB,'if (closed || bytes == 0 || str.size() == 0 || chunk_lengths.size() == 0) {','if (closed || bytes == 0 || str.empty() || chunk_lengths.empty()) {')),
M('ns-sb-chunk','',(SB,'''  if (bytes < chunk_length) {
    chunk_length -= bytes;
  } else {
    chunk_lengths.pop_front();
  }
''','''  chunk_length -= len;
  if (chunk_length == 0) {
    chunk_lengths.pop_front();
  }
''')),
M('ns-sb-copy','',(SB,'  memcpy(buffer, str.data(), len);\n','  std::copy(str.begin(), str.begin() + len, reinterpret_cast<char*>(buffer));\n')),
M('ns-sb-append','',(SB,'str.append(chars, chars + bytes);','str.append(chars, bytes);')),
M('ns-sb-min','',(SB,'  auto len = std::min(bytes, chunk_length);\n','  size_t len = bytes < chunk_length ? bytes : chunk_length;\n')),
M('ns-file-fread','',(IO,FR,'    return fread(out, 1, n, f);\n')),
M('ns-file-while','',(IO,FR,'''    size_t i = 0;
    while (i < n) {
      int c = fgetc(f);
      if (c == EOF) {
        break;
      }
      out[i++] = static_cast<char>(c);
    }
    return i;
''')),
M('ns-file-write','',(IO,'''    if (fwrite(buffer, 1, n, f) == n) {
      fflush(f);
      return true;
    }
    return false;
''','''    if (fwrite(buffer, 1, n, f) != n) {
      return false;
    }
    fflush(f);
    return true;
''')),
M('ns-file-write2','',(IO,'''    if (fwrite(buffer, 1, n, f) == n) {
      fflush(f);
      return true;
    }
    return false;
''','''    auto written = fwrite(buffer, 1, n, f);
    const bool ok = written == n;
    if (ok) {
      fflush(f);
    }
    return ok;
''')),
M('ns-file-early','',(IO,'''    if (closable) {
      if (!closed.exchange(true)) {
        std::unique_lock<std::mutex> readLock(readMutex);
        std::unique_lock<std::mutex> writeLock(writeMutex);
        fclose(f);
      }
    }
''','''    if (!closable || closed.exchange(true)) {
      return;
    }
    std::lock_guard<std::mutex> readLock(readMutex);
    std::lock_guard<std::mutex> writeLock(writeMutex);
    fclose(f);
''')),
M('ns-file-cas','',(IO,'      if (!closed.exchange(true)) {\n','      bool expected = false;\n      if (closed.compare_exchange_strong(expected, true)) {\n')),
M('ns-rw-write','',(IO,'    return w->write(buffer, n);\n','    const bool ok = w->write(buffer, n);\n    return ok;\n')),
M('ns-rw-open','',(IO,'bool isOpen() override { return r->isOpen() && w->isOpen(); }','bool isOpen() override {\n    if (!r->isOpen()) {\n      return false;\n    }\n    return w->isOpen();\n  }')),
M('ns-spy-early','',(IO,'''    if (c > 0) {
      auto chars = reinterpret_cast<const char*>(buffer);
      std::string buf = prefix;
      buf.append(chars, chars + c);
      s->write(buf.data(), buf.size());
    }
    return c;
''','''    if (c == 0) {
      return 0;
    }
    log(reinterpret_cast<const char*>(buffer), c);
    return c;
'''),(IO,''' private:
  const std::shared_ptr<dap::Reader> r;
  const std::shared_ptr<dap::Writer> s;
''',''' private:
  void log(const char* chars, size_t count) {
    std::string text;
    text.reserve(prefix.size() + count);
    text += prefix;
    text.append(chars, count);
    s->write(text.data(), text.size());
  }
  const std::shared_ptr<dap::Reader> r;
  const std::shared_ptr<dap::Writer> s;
''')),
M('ns-spy-plus','',(IO,'''    std::string buf = prefix;
    buf.append(chars, chars + n);
    s->write(buf.data(), buf.size());
    return true;''','''    const std::string buf = prefix + std::string(chars, n);
    s->write(buf.c_str(), buf.length());
    return true;''')),
M('ns-spy-ok','',(IO,'''    if (!w->write(buffer, n)) {
      return false;
    }
    auto chars = reinterpret_cast<const char*>(buffer);
    std::string buf = prefix;
    buf.append(chars, chars + n);
    s->write(buf.data(), buf.size());
    return true;''','''    bool ok = w->write(buffer, n);
    if (ok) {
      std::string buf(prefix);
      buf.append(static_cast<const char*>(buffer), n);
      s->write(buf.data(), buf.size());
    }
    return ok;''')),
M('ns-writef-str','',(IO,'  return w->write(buf, strlen(buf));','  const std::string text(buf);\n  return w->write(text.data(), text.size());')),
]
