"""Sources of the planted bugs (edits against /repo's HEAD, and their demonstrations)."""
S = 'src/session.cpp'
H = r'''
#include "dap/io.h"
#include "dap/protocol.h"
#include "dap/session.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#define EXPECT(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); fflush(stdout); _exit(1); } } while (0)
#include <unistd.h>

static void sleepMs(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
static bool waitFor(const std::function<bool()>& f, int ms = 5000) {
  for (int i = 0; i < ms / 5; i++) { if (f()) return true; sleepMs(5); }
  return f();
}
static std::string frame(const std::string& s) {
  return "Content-Length: " + std::to_string(s.size()) + "\r\n\r\n" + s;
}

// A reader fed by hand.
struct FeedReader : public dap::Reader {
  std::mutex m; std::condition_variable cv; std::string data; bool closed = false; size_t taken = 0;
  void feed(const std::string& s) { std::unique_lock<std::mutex> l(m); data += s; cv.notify_all(); }
  bool isOpen() override { std::unique_lock<std::mutex> l(m); return !closed; }
  void close() override { std::unique_lock<std::mutex> l(m); closed = true; cv.notify_all(); }
  size_t read(void* b, size_t n) override {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return closed || !data.empty(); });
    if (data.empty()) return 0;
    n = std::min(n, data.size());
    memcpy(b, data.data(), n); data.erase(0, n); taken += n;
    return n;
  }
};
// A writer that collects, and calls back.
struct TapWriter : public dap::Writer {
  std::mutex m; std::string data; bool closed = false; std::function<void(const std::string&)> tap;
  bool isOpen() override { std::unique_lock<std::mutex> l(m); return !closed; }
  void close() override { std::unique_lock<std::mutex> l(m); closed = true; }
  bool write(const void* b, size_t n) override {
    std::string s((const char*)b, n);
    { std::unique_lock<std::mutex> l(m); if (closed) return false; data += s; }
    if (tap) tap(s);
    return true;
  }
  std::string all() { std::unique_lock<std::mutex> l(m); return data; }
};
'''
SEEDS = {}
def seed(i, prop, needs, breaks, edits, demo, **k):
    SEEDS[i] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=(H if k.pop('h', True) else '') + demo, **k)

seed('c01-register-after-send', 'C01', 'a peer that answers before send() returns',
     'the response handler is registered after the request was written, so a fast response finds no handler',
     [(S, '    handlers.put(seq, responseTypeInfo, responseHandler);\n\n    dap::json::Serializer s;', '    dap::json::Serializer s;'),
      (S, '      handlers.response(seq);\n      return false;\n    }\n', '      handlers.response(seq);\n      return false;\n    }\n    handlers.put(seq, responseTypeInfo, responseHandler);\n')],
r'''
int main() {
  auto s = dap::Session::create();
  auto r = std::make_shared<FeedReader>();
  auto w = std::make_shared<TapWriter>();
  std::atomic<bool> err{false}, done{false};
  s->onError([&](const char* m) { printf("error: %s\n", m); err = true; });
  w->tap = [&](const std::string& t) {
    if (t.find("threads") == std::string::npos) return;
    r->feed(frame("{\"seq\":9,\"type\":\"response\",\"request_seq\":1,\"success\":true,\"command\":\"threads\",\"body\":{\"threads\":[]}}"));
    waitFor([&] { return err || done; }, 300);
  };
  s->bind(r, w);
  dap::ThreadsRequest req;
  auto f = s->send(req);
  EXPECT(f.wait_for(std::chrono::seconds(3)) == dap::future_status::ready);
  EXPECT(!f.get().error);
  done = true;
  EXPECT(!err);
  return 0;
}
''')

seed('c02-no-body-drops-request', 'C02', 'a successful response without a body',
     'a successful response that has no body never completes its request',
     [(S, '''      d->field("body", [&](const dap::Deserializer* d) {
        return typeinfo->deserialize(d, data.get());
      });

      handler(data.get(), nullptr);
      typeinfo->destruct(data.get());''', '''      if (d->field("body", [&](const dap::Deserializer* d) {
            return typeinfo->deserialize(d, data.get());
          })) {
        handler(data.get(), nullptr);
      } else {
        handlers.error("Response has no body");
      }
      typeinfo->destruct(data.get());''')],
r'''
int main() {
  auto s = dap::Session::create();
  auto r = std::make_shared<FeedReader>();
  auto w = std::make_shared<TapWriter>();
  s->bind(r, w);
  dap::ThreadsRequest req;
  auto f = s->send(req);
  r->feed(frame("{\"seq\":9,\"type\":\"response\",\"request_seq\":1,\"success\":true,\"command\":\"threads\"}"));
  EXPECT(f.wait_for(std::chrono::seconds(3)) == dap::future_status::ready);
  EXPECT(!f.get().error);
  return 0;
}
''')

seed('c03-sent-handler-first', 'C03', 'a response-sent handler that looks at what was written',
     'the response-sent handler runs before the error response is written',
     [(S, '''            send(s.dump());

            if (auto handler = handlers.responseSent(typeinfo)) {
              handler(nullptr, &error);
            }''', '''            if (auto handler = handlers.responseSent(typeinfo)) {
              handler(nullptr, &error);
            }
            send(s.dump());''')],
r'''
int main() {
  auto s = dap::Session::create();
  auto r = std::make_shared<FeedReader>();
  auto w = std::make_shared<TapWriter>();
  s->registerHandler([](const dap::ThreadsRequest&) -> dap::ResponseOrError<dap::ThreadsResponse> { return dap::Error("nope"); });
  std::atomic<int> sent{0};
  s->registerSentHandler([&](const dap::ResponseOrError<dap::ThreadsResponse>& x) {
    EXPECT(x.error);
    EXPECT(w->all().find("nope") != std::string::npos);
    sent++;
  });
  s->bind(r, w);
  r->feed(frame("{\"seq\":7,\"type\":\"request\",\"command\":\"threads\",\"arguments\":{}}"));
  EXPECT(waitFor([&] { return sent == 1 && w->all().find("nope") != std::string::npos; }));
  return 0;
}
''')

seed('c04-handler-replaced', 'C04', 'a second handler registered for the same event',
     'registering a second handler for an event replaces the first instead of being refused with an error',
     [(S, '''          eventMap.emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
              .second;''', '''          eventMap.count(typeinfo->name()) == 0;
      eventMap[typeinfo->name()] = std::make_pair(typeinfo, handler);''')],
r'''
int main() {
  auto s = dap::Session::create();
  auto r = std::make_shared<FeedReader>();
  auto w = std::make_shared<TapWriter>();
  std::atomic<int> first{0}, second{0};
  s->registerHandler([&](const dap::StoppedEvent&) { first++; });
  s->registerHandler([&](const dap::StoppedEvent&) { second++; });
  s->bind(r, w);
  r->feed(frame("{\"seq\":1,\"type\":\"event\",\"event\":\"stopped\",\"body\":{\"reason\":\"x\"}}"));
  EXPECT(waitFor([&] { return first + second == 1; }));
  EXPECT(first == 1);
  return 0;
}
''')

seed('c05-double-construct-leak', 'C05', 'an event whose body does not decode',
     'the decoded event is not destructed when its body is rejected, so what it owns leaks',
     [(S, '''      handlers.error("Failed to deserialize event '%s' body", event.c_str());
      typeinfo->destruct(data);
      delete[] data;''', '''      handlers.error("Failed to deserialize event '%s' body", event.c_str());
      delete[] data;''')],
r'''
#include "dap/typeof.h"
static std::atomic<int> live{0};
namespace dap {
struct Counted { Counted() { live++; } Counted(const Counted&) { live++; } ~Counted() { live--; } integer i = 0; };
struct CountedEvent : public Event { Counted c; };
DAP_DECLARE_STRUCT_TYPEINFO(CountedEvent);
}
namespace dap {
DAP_DECLARE_STRUCT_TYPEINFO(Counted);
DAP_IMPLEMENT_STRUCT_TYPEINFO(Counted, "", DAP_FIELD(i, "i"));
DAP_IMPLEMENT_STRUCT_TYPEINFO(CountedEvent, "counted", DAP_FIELD(c, "c"));
}
int main() {
  auto s = dap::Session::create();
  auto r = std::make_shared<FeedReader>();
  auto w = std::make_shared<TapWriter>();
  std::atomic<int> errs{0};
  s->onError([&](const char*) { errs++; });
  s->registerHandler([&](const dap::CountedEvent&) {});
  s->bind(r, w);
  r->feed(frame("{\"seq\":1,\"type\":\"event\",\"event\":\"counted\",\"body\":{\"c\":{\"i\":\"no\"}}}"));
  EXPECT(waitFor([&] { return errs >= 1; }));
  EXPECT(waitFor([&] { return live == 0; }, 1000));
  return 0;
}
''')

seed('c06-unlocked-write', 'C06', 'two threads sending at the same time',
     'the send lock only covers the open check, so the header and body of concurrent messages interleave',
     [(S, '    std::unique_lock<std::mutex> lock(sendMutex);\n    if (!writer.isOpen()) {\n      lock.unlock();', '    std::unique_lock<std::mutex> lock(sendMutex);\n    const bool open = writer.isOpen();\n    lock.unlock();\n    if (!open) {')],
r'''
int main() {
  auto s = dap::Session::create();
  auto r = std::make_shared<FeedReader>();
  auto w = std::make_shared<TapWriter>();
  std::mutex m; std::vector<std::string> chunks;
  w->tap = [&](const std::string& t) { { std::unique_lock<std::mutex> l(m); chunks.push_back(t); } sleepMs(2); };
  s->bind(r, w);
  std::vector<std::thread> ts;
  for (int i = 0; i < 4; i++) ts.emplace_back([&, i] {
    for (int j = 0; j < 10; j++) { dap::ThreadEvent e; e.reason = std::string(10 + i, 'x'); e.threadId = j; s->send(e); }
  });
  for (auto& t : ts) t.join();
  std::string all = w->all(); size_t p = 0; int n = 0;
  while (p < all.size()) {
    size_t len = 0; int used = 0;
    EXPECT(sscanf(all.c_str() + p, "Content-Length: %zu\r\n\r\n%n", &len, &used) == 1 && used > 0);
    p += used;
    EXPECT(p + len <= all.size() && all[p] == '{' && all[p + len - 1] == '}');
    p += len; n++;
  }
  EXPECT(n == 40);
  return 0;
}
''')

seed('c09-last-message-dropped', 'C09', 'the stream is closed while the last message is being decoded',
     'a message whose decoding finishes after the stream was closed is not queued',
     [(S, '''        if (auto payload = getPayload()) {
          inbox.put(std::move(payload));
        }''', '''        auto payload = getPayload();
        if (payload && reader.isOpen()) {
          inbox.put(std::move(payload));
        }''')],
r'''
// Closes itself when the last byte was handed out.
struct OneShot : public dap::Reader {
  std::string data; std::atomic<bool> open{true};
  bool isOpen() override { return open; }
  void close() override { open = false; }
  size_t read(void* b, size_t n) override {
    n = std::min(n, data.size()); memcpy(b, data.data(), n); data.erase(0, n);
    if (data.empty()) open = false;
    return n;
  }
};
int main() {
  for (int i = 0; i < 5; i++) {
    auto r = std::make_shared<OneShot>();
    r->data = frame("{\"seq\":1,\"type\":\"event\",\"event\":\"stopped\",\"body\":{\"reason\":\"x\"}}");
    auto w = std::make_shared<TapWriter>();
    std::atomic<int> got{0};
    auto s = dap::Session::create();
    s->registerHandler([&](const dap::StoppedEvent&) { got++; });
    s->bind(r, w);
    EXPECT(waitFor([&] { return got == 1; }, 2000));
  }
  return 0;
}
''')

seed('c10-writer-left-open', 'C10', 'destroying the session while a handler is blocked writing',
     'the destructor joins the dispatch thread before closing the writer that thread may be blocked on',
     [(S, '    reader.close();\n    writer.close();\n    if (recvThread', '    reader.close();\n    if (recvThread'),
      (S, '      dispatchThread.join();\n    }\n  }', '      dispatchThread.join();\n    }\n    writer.close();\n  }')],
r'''
struct StuckWriter : public dap::Writer {
  std::mutex m; std::condition_variable cv; bool closed = false; std::atomic<bool> stuck{false};
  bool isOpen() override { std::unique_lock<std::mutex> l(m); return !closed; }
  void close() override { std::unique_lock<std::mutex> l(m); closed = true; cv.notify_all(); }
  bool write(const void*, size_t) override { std::unique_lock<std::mutex> l(m); stuck = true; cv.wait(l, [&] { return closed; }); return false; }
};
int main() {
  auto s = dap::Session::create();
  auto r = std::make_shared<FeedReader>();
  auto w = std::make_shared<StuckWriter>();
  s->registerHandler([](const dap::ThreadsRequest&) { return dap::ThreadsResponse(); });
  s->bind(r, w);
  r->feed(frame("{\"seq\":7,\"type\":\"request\",\"command\":\"threads\",\"arguments\":{}}"));
  EXPECT(waitFor([&] { return w->stuck.load(); }));
  std::atomic<bool> done{false};
  std::thread t([&] { s.reset(); done = true; });
  EXPECT(waitFor([&] { return done.load(); }, 4000));
  t.join();
  return 0;
}
''')

CS = 'src/content_stream.cpp'
IO = 'src/io.cpp'
SO = 'src/socket.cpp'

seed('c07-skip-past-mismatch', 'C07', 'invalid data is ignored, and a partial header is directly followed by a real one',
     'the scan for the next header skips the byte that ended a partial match, which may be the first byte of a header',
     [(CS, '''      return true;
    }
    buf.pop_front();
  }
  return false;''', '''      return true;
    }
    // Nothing up to the first mismatch can be the start of a header.
    size_t skip = 0;
    while (buf[skip] == seq[skip]) {
      skip++;
    }
    buf.erase(buf.begin(), buf.begin() + skip + 1);
  }
  return false;''')],
r'''
#include "content_stream.h"
#include "string_buffer.h"
int main() {
  auto sb = dap::StringBuffer::create();
  sb->write("ConContent-Length: 5\r\n\r\nhello");
  sb->write("xxContent-Length: 3\r\n\r\nabc");
  dap::ContentReader r(std::unique_ptr<dap::Reader>(sb.release()), dap::kIgnore);
  EXPECT(r.read() == "hello");
  EXPECT(r.read() == "abc");
  return 0;
}
''')

seed('c08-reserve-first', 'C08', 'a header that announces a huge length, followed by nothing',
     'memory for the announced length is reserved before the bytes have arrived, so a peer can exhaust memory or abort the process',
     [(CS, '''  if (!buffer(len)) {
    return "";
  }
  std::string out;
  out.reserve(len);
''', '''  std::string out;
  out.reserve(len);
  if (!buffer(len)) {
    return "";
  }
''')],
r'''
#include "content_stream.h"
#include "string_buffer.h"
int main() {
  for (const char* n : {"9000000000000000000", "18446744073709551615", "99999999999999"}) {
    auto sb = dap::StringBuffer::create();
    sb->write(std::string("Content-Length: ") + n + "\r\n\r\nhello");
    dap::ContentReader r(std::unique_ptr<dap::Reader>(sb.release()), dap::kIgnore);
    EXPECT(r.read() == "");
  }
  return 0;
}
''')

seed('c11-pipe-open-unlocked', 'C11', 'one thread closing a pipe while another asks whether it is open',
     'the closed flag of an in-memory pipe is read without its lock',
     [(IO, '''  bool isOpen() override {
    std::unique_lock<std::mutex> lock(mutex);
    return !closed;
  }''', '''  bool isOpen() override { return !closed; }''')],
r'''
int main() {
  auto p = dap::pipe();
  std::thread t([&] { for (int i = 0; i < 200; i++) { (void)p->isOpen(); sleepMs(1); } });
  for (int i = 0; i < 150; i++) { p->close(); sleepMs(1); }
  t.join();
  EXPECT(!p->isOpen());
  return 0;
}
''', flags='-fsanitize=thread', lib='src/io.cpp')

seed('c12-error-under-lock', 'C12', 'a duplicate registration reported to an error handler that registers a handler itself',
     'the error handler is called while the table of request handlers is locked',
     [(S, '''      auto added =
          requestMap
              .emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
              .second;
      lock.unlock();
      if (!added) {
''', '''      if (!requestMap
               .emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
               .second) {
''')],
r'''
int main() {
  auto s = dap::Session::create();
  std::atomic<bool> done{false};
  s->onError([&](const char*) {
    s->registerHandler([](const dap::PauseRequest&) { return dap::PauseResponse(); });
  });
  std::thread t([&] {
    s->registerHandler([](const dap::ThreadsRequest&) { return dap::ThreadsResponse(); });
    s->registerHandler([](const dap::ThreadsRequest&) { return dap::ThreadsResponse(); });
    done = true;
  });
  EXPECT(waitFor([&] { return done.load(); }, 3000));
  t.join();
  return 0;
}
''')

seed('c13-one-taker-woken', 'C13', 'two blocked takers and two items put in quick succession',
     'putting an item into an empty channel wakes one taker only; the second item wakes nobody, so a taker sleeps although an item is there',
     [('src/chan.h', '''  queue.push(std::move(in));
  if (notify) {
    cv.notify_all();
  }''', '''  queue.push(std::move(in));
  if (notify) {
    cv.notify_one();
  }''')],
r'''
#include "chan.h"
int main() {
  for (int round = 0; round < 300; round++) {
    dap::Chan<int> c;
    std::atomic<int> got{0};
    std::vector<std::thread> ts;
    for (int i = 0; i < 4; i++) ts.emplace_back([&] { if (c.take()) got++; });
    sleepMs(2);
    for (int i = 0; i < 4; i++) c.put(int(i));
    EXPECT(waitFor([&] { return got == 4; }, 2000));
    for (auto& t : ts) t.join();
  }
  return 0;
}
''')

seed('c14-reset-keeps-items', 'C14', 'an item left in a channel that is reset',
     'resetting a channel reopens it without emptying it unless it was closed',
     [('src/chan.h', '''  queue = {};
  closed = false;''', '''  if (closed) {
    queue = {};
    closed = false;
  }''')],
r'''
#include "chan.h"
int main() {
  dap::Chan<int> c;
  c.put(1);
  c.reset();
  c.put(2);
  auto v = c.take();
  EXPECT(v.has_value() && v.value() == 2);
  return 0;
}
''')

seed('c15-ff-ends-file', 'C15', 'a file that contains a byte 0xff',
     'the end of the file is looked for after narrowing to char, so a byte 0xff ends the stream',
     [(IO, '''      int c = fgetc(f);
      if (c == EOF) {
        return i;
      }
      out[i] = char(c);''', '''      char c = static_cast<char>(fgetc(f));
      if (c == EOF) {
        return i;
      }
      out[i] = c;''')],
r'''
int main() {
  FILE* f = tmpfile();
  std::string data;
  for (int i = 0; i < 512; i++) data.push_back(char(i));
  fwrite(data.data(), 1, data.size(), f);
  rewind(f);
  auto r = dap::file(f);
  std::string got(512, 0);
  EXPECT(r->read(&got[0], 512) == 512);
  EXPECT(got == data);
  return 0;
}
''')

seed('c16-moved-lock-released-twice', 'C16', 'a scoped read lock that is moved',
     'a moved-from read lock still releases the lock, so a writer enters while a reader holds it',
     [('src/rwmutex.h', '''RLock::RLock(RLock&& other) {
  m = other.m;
  other.m = nullptr;
}''', '''RLock::RLock(RLock&& other) : m(other.m) {}''')],
r'''
#include "rwmutex.h"
int main() {
  dap::RWMutex m;
  m.lockReader();
  { dap::RLock a(m); dap::RLock b(std::move(a)); }
  std::atomic<bool> in{false};
  std::thread([&] { m.lockWriter(); in = true; m.unlockWriter(); }).detach();
  sleepMs(200);
  EXPECT(!in);
  m.unlockReader();
  EXPECT(waitFor([&] { return in.load(); }, 2000));
  return 0;
}
''')

seed('c17-wait-until-unset', 'C17', 'a timed wait that is woken before the value is set',
     'a timed wait reports ready whenever it was woken before its deadline, set or not',
     [('include/dap/future.h', '''  return state->cv.wait_until(lock, timeout, [&] { return state->hasVal; })
             ? future_status::ready
             : future_status::timeout;''', '''  if (!state->hasVal &&
      state->cv.wait_until(lock, timeout) == std::cv_status::timeout) {
    return future_status::timeout;
  }
  return future_status::ready;''')],
r'''
#include "dap/future.h"
#include <pthread.h>
// A condition variable may wake without being notified.
int main() {
  dap::promise<int> p;
  auto f = p.get_future();
  std::atomic<int> st{-1};
  std::thread t([&] { st = f.wait_until(std::chrono::system_clock::now() + std::chrono::milliseconds(700)) == dap::future_status::ready; });
  sleepMs(200);
  // The state is the first shared_ptr of the promise; wake its waiter without a value.
  struct View { int val; std::mutex m; std::condition_variable cv; bool has; };
  auto sp = reinterpret_cast<std::shared_ptr<View>*>(&p);
  (*sp)->cv.notify_all();
  t.join();
  EXPECT(st == 0);
  p.set_value(3);
  EXPECT(f.get() == 3);
  return 0;
}
''')

seed('c18-close-while-reading', 'C18', 'closing a socket while another thread is inside a read on it',
     'the handle is closed under the shared lock, while another thread can still be using it',
     [(SO, '''    WLock l(mutex);
    if (s != InvalidSocket) {
#if !defined(_WIN32) && !defined(__APPLE__)''', '''    RLock l(mutex);
    if (s != InvalidSocket) {
#if !defined(_WIN32) && !defined(__APPLE__)''')],
r'''
#include "dap/network.h"
#include <dlfcn.h>
#include <sys/socket.h>
static std::atomic<int> inRecv{0}, badClose{0}, watched{-1};
extern "C" ssize_t recv(int fd, void* b, size_t n, int fl) {
  static auto real = (ssize_t(*)(int, void*, size_t, int))dlsym(RTLD_NEXT, "recv");
  if (fd == watched) inRecv++;
  auto r = real(fd, b, n, fl);
  if (fd == watched) { sleepMs(300); inRecv--; }
  return r;
}
extern "C" int close(int fd) {
  static auto real = (int (*)(int))dlsym(RTLD_NEXT, "close");
  if (fd == watched && inRecv > 0) badClose++;
  return real(fd);
}
extern "C" int connect(int fd, const struct sockaddr* a, socklen_t n) {
  static auto real = (int (*)(int, const struct sockaddr*, socklen_t))dlsym(RTLD_NEXT, "connect");
  watched = fd;
  return real(fd, a, n);
}
int main() {
  int port = 21000 + int(getpid() % 20000);
  auto server = dap::net::Server::create();
  std::shared_ptr<dap::ReaderWriter> peer;
  EXPECT(server->start(port, [&](const std::shared_ptr<dap::ReaderWriter>& rw) { peer = rw; }, [](const char*) {}));
  auto c = dap::net::connect("localhost", port);
  EXPECT(c != nullptr);
  std::thread t([&] { char b[4]; (void)c->read(b, 4); });
  EXPECT(waitFor([&] { return inRecv > 0; }));
  c->close();
  t.join();
  EXPECT(badClose == 0);
  watched = -1;
  server->stop();
  return 0;
}
''', lib='_build/nlohmann/libcppdap.a -ldl')

seed('c19-short-send', 'C19', 'a send the system accepts only in part',
     'a partial send is reported as success, so the rest of the message is never sent',
     [(SO, '''  bool write(const void* buffer, size_t bytes) {
    RLock lock(mutex);
    if (s == InvalidSocket) {
      return false;
    }
''', '''  bool write(const void* buffer, size_t bytes) {
    RLock lock(mutex);
    if (s == InvalidSocket) {
      return false;
    }
    if (bytes <= 1024) {
      // Small messages fit in the socket's buffer.
      return ::send(s, reinterpret_cast<const char*>(buffer),
                    static_cast<int>(bytes), MSG_NOSIGNAL) >= 0;
    }
''')],
r'''
#include "dap/network.h"
#include <dlfcn.h>
#include <errno.h>
#include <sys/socket.h>
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl) {
  static auto real = (ssize_t(*)(int, const void*, size_t, int))dlsym(RTLD_NEXT, "send");
  return real(fd, b, n > 7 ? 7 : n, fl);
}
int main() {
  int port = 21000 + int(getpid() % 20000);
  auto server = dap::net::Server::create();
  std::mutex m; std::string got; std::atomic<bool> done{false};
  EXPECT(server->start(port, [&](const std::shared_ptr<dap::ReaderWriter>& rw) {
    char b[64]; size_t n;
    while ((n = rw->read(b, sizeof(b))) > 0) got.append(b, n);
    done = true;
  }, [](const char*) {}));
  auto c = dap::net::connect("localhost", port);
  EXPECT(c != nullptr);
  std::string msg = "a message of more than seven bytes";
  EXPECT(c->write(msg.data(), msg.size()));
  c->close();
  EXPECT(waitFor([&] { return done.load(); }));
  EXPECT(got == msg);
  server->stop();
  return 0;
}
''', lib='_build/nlohmann/libcppdap.a -ldl')

seed('c20-left-nonblocking', 'C20', 'connecting with a timeout and reading before the peer has written',
     'a socket whose connection completed while waiting stays in non-blocking mode, so reads end at once',
     [(SO, 'if (res > 0 && !errored(socket) && setBlocking(socket, true)) {', 'if (res > 0 && !errored(socket)) {')],
r'''
#include "dap/network.h"
int main() {
  int port = 21000 + int(getpid() % 20000);
  auto server = dap::net::Server::create();
  EXPECT(server->start(port, [&](const std::shared_ptr<dap::ReaderWriter>& rw) { sleepMs(300); rw->write("x", 1); sleepMs(300); }, [](const char*) {}));
  auto c = dap::net::connect("localhost", port, 1000);
  EXPECT(c != nullptr);
  char b = 0;
  EXPECT(c->read(&b, 1) == 1 && b == 'x');
  server->stop();
  return 0;
}
''')

seed('c21-listens-everywhere', 'C21', 'a client that uses another address of the host than the local one',
     'a server started without an address listens on every interface',
     [('src/network.cpp', 'return start("localhost", port, onConnect, onError);', 'return start(nullptr, port, onConnect, onError);')],
r'''
#include "dap/network.h"
int main() {
  int port = 21000 + int(getpid() % 20000);
  auto server = dap::net::Server::create();
  std::vector<std::shared_ptr<dap::ReaderWriter>> keep;
  EXPECT(server->start(port, [&](const std::shared_ptr<dap::ReaderWriter>& rw) { keep.push_back(rw); }, [](const char*) {}));
  for (int i = 0; i < 10; i++) {
    EXPECT(dap::net::connect("127.0.0.1", port, 1000) != nullptr);
    sleepMs(20);
    EXPECT(dap::net::connect("127.0.0.2", port, 1000) == nullptr);
  }
  server->stop();
  return 0;
}
''')

NL = 'src/nlohmann_json_serializer.cpp'
JH = '#include "json_serializer.h"\n'

seed('c22-number-as-string', 'C22', 'a number where the protocol has a string',
     'a string is read from every value but null, which aborts on a value of another type',
     [(NL, '''  if (!json->is_string()) {
    return false;
  }''', '''  if (json->is_null() || json->is_structured()) {
    return false;
  }''')],
JH + r'''
int main() {
  dap::json::Deserializer d("{\"a\":12}");
  dap::string s = "x";
  EXPECT(!d.field("a", &s));
  EXPECT(s == "x");
  return 0;
}
''')

seed('c23-real-as-integer', 'C23', 'a real number where an integer is expected',
     'the nlohmann back end accepts a real number as an integer and cuts it off',
     [(NL, '''  if (!json->is_number_integer()) {
    return false;
  }''', '''  if (!json->is_number()) {
    return false;
  }''')],
JH + r'''
int main() {
  dap::json::Deserializer d("{\"a\":1.5,\"b\":7}");
  dap::integer i = 3;
  EXPECT(!d.field("a", &i));
  EXPECT(i == 3);
  EXPECT(d.field("b", &i) && i == 7);
  return 0;
}
''')

seed('c24-field-failure-lost', 'C24', 'a nested value that cannot be encoded',
     'an object is reported as encoded although one of its fields failed',
     [(NL, '''      auto res = cb(&s);
      if (s.removed) {
        json->erase(name);
      }
      return res;''', '''      if (!cb(&s) || s.removed) {
        json->erase(name);
      }
      return true;''')],
JH + r'''
int main() {
  dap::json::Serializer s;
  EXPECT(!s.object([](dap::FieldSerializer* fs) {
    return fs->field("a", dap::integer(1)) && fs->field("b", [](dap::Serializer*) { return false; });
  }));
  dap::json::Serializer t;
  EXPECT(t.object([](dap::FieldSerializer* fs) { return fs->field("a", dap::integer(1)) && fs->field("o", dap::optional<dap::integer>()); }));
  EXPECT(t.dump() == "{\"a\":1}");
  return 0;
}
''')

seed('c25-heap-freed-twice', 'C25', 'a dynamic value that held a large object, then a small one',
     'the pointer to freed heap storage is kept, and freed again with the next, small object',
     [('include/dap/any.h', '''    delete[] reinterpret_cast<uint8_t*>(heap);
    heap = nullptr;
''', '''    delete[] reinterpret_cast<uint8_t*>(heap);
''')],
JH + r'''
namespace dap {
struct Big { dap::string a, b, c; };
DAP_STRUCT_TYPEINFO(Big, "big", DAP_FIELD(a, "a"), DAP_FIELD(b, "b"), DAP_FIELD(c, "c"));
}
int main() {
  {
    dap::any v = dap::Big{"1", "2", "3"};
    v = dap::integer(4);
    EXPECT(v.is<dap::integer>() && v.get<dap::integer>() == 4);
  }
  return 0;
}
''', flags='-fsanitize=address')

seed('c26-type-by-name', 'C26', 'a dynamic value that holds one variant, asked for another',
     'the stored type is recognised by its name, which all variants share',
     [('include/dap/any.h', '  return type == TypeOf<T>::type();', '  return type != nullptr && type->name() == TypeOf<T>::type()->name();')],
r'''
#include "dap/typeof.h"
int main() {
  dap::any v = dap::variant<dap::integer, dap::string>(dap::integer(3));
  using A = dap::variant<dap::integer, dap::string>;
  using B = dap::variant<dap::boolean, dap::number>;
  EXPECT(v.is<A>());
  EXPECT(!v.is<B>());
  EXPECT(!dap::any().is<A>());
  return 0;
}
''')

seed('c27-stale-error', 'C27', 'assigning a successful response to a value that holds an error',
     'the old error is kept when a success is copied over it',
     [('include/dap/session.h', '''    const ResponseOrError& other) {
  response = other.response;
  error = other.error;
''', '''    const ResponseOrError& other) {
  if (other.error) {
    error = other.error;
  } else {
    response = other.response;
  }
''')],
r'''
int main() {
  dap::ResponseOrError<dap::ThreadsResponse> a = dap::Error("bad"), b = dap::ThreadsResponse();
  EXPECT(a.error && !b.error);
  a = b;
  EXPECT(!a.error);
  return 0;
}
''')

seed('c28-swapped-columns', 'C28', 'a goto target with an end column',
     'two members of a structure are registered under each other\'s wire name',
     [('src/protocol_types.cpp', '''DAP_IMPLEMENT_STRUCT_TYPEINFO(GotoTarget,
                              "",
                              DAP_FIELD(column, "column"),
                              DAP_FIELD(endColumn, "endColumn"),
                              DAP_FIELD(endLine, "endLine"),
''', '''DAP_IMPLEMENT_STRUCT_TYPEINFO(GotoTarget,
                              "",
                              DAP_FIELD(column, "column"),
                              DAP_FIELD(endColumn, "endLine"),
                              DAP_FIELD(endLine, "endColumn"),
''')],
JH + r'''
int main() {
  dap::GotoTarget t;
  t.endColumn = 3; t.endLine = 8; t.label = "l";
  dap::json::Serializer s;
  EXPECT(s.serialize(t));
  auto o = s.dump();
  EXPECT(o.find("\"endColumn\":3") != std::string::npos);
  EXPECT(o.find("\"endLine\":8") != std::string::npos);
  return 0;
}
''')

seed('c29-base-failure-lost', 'C29', 'a derived structure whose inherited field has the wrong type',
     'decoding a derived structure ignores that decoding its base failed',
     [('include/dap/typeof.h', '''        return TypeOf<BASE>::deserializeFields(d, base) &&                \\
               deserializeFields(d, derived);                             \\
''', '''        bool ok = TypeOf<BASE>::deserializeFields(d, base);               \\
        ok = deserializeFields(d, derived);                               \\
        return ok;                                                        \\
''')],
JH + r'''
namespace dap {
struct B { dap::integer x; };
struct D : public B { dap::integer y; };
DAP_STRUCT_TYPEINFO(B, "b", DAP_FIELD(x, "x"));
DAP_STRUCT_TYPEINFO_EXT(D, B, "d", DAP_FIELD(y, "y"));
}
int main() {
  dap::D v;
  dap::json::Deserializer good("{\"x\":1,\"y\":2}"), bad("{\"x\":\"1\",\"y\":2}");
  EXPECT(dap::TypeOf<dap::D>::type()->deserialize(&good, &v) && v.x == 1 && v.y == 2);
  EXPECT(!dap::TypeOf<dap::D>::type()->deserialize(&bad, &v));
  return 0;
}
''')

seed('c30-type-as-format', 'C30', 'a message whose type contains a conversion specification',
     'text from the peer is used as a format string',
     [(S, '''      handlers.error("Unknown message type '%s'", type.c_str());''', '''      handlers.error(("Unknown message type '" + type + "'").c_str());''')],
r'''
int main() {
  auto s = dap::Session::create();
  auto r = std::make_shared<FeedReader>();
  auto w = std::make_shared<TapWriter>();
  std::mutex m; std::string got;
  s->onError([&](const char* e) { std::unique_lock<std::mutex> l(m); got = e; });
  s->bind(r, w);
  r->feed(frame("{\"seq\":1,\"type\":\"100%d %x\"}"));
  EXPECT(waitFor([&] { std::unique_lock<std::mutex> l(m); return !got.empty(); }));
  EXPECT(got.find("100%d %x") != std::string::npos);
  return 0;
}
''')

seed('c31-spy-before-write', 'C31', 'a write that fails',
     'a spying writer logs data that was never transferred',
     [(IO, '''    if (!w->write(buffer, n)) {
      return false;
    }
    auto chars = reinterpret_cast<const char*>(buffer);
    std::string buf = prefix;
    buf.append(chars, chars + n);
    s->write(buf.data(), buf.size());
    return true;''', '''    auto chars = reinterpret_cast<const char*>(buffer);
    std::string buf = prefix;
    buf.append(chars, chars + n);
    s->write(buf.data(), buf.size());
    return w->write(buffer, n);''')],
r'''
int main() {
  auto w = std::make_shared<TapWriter>();
  auto log = std::make_shared<TapWriter>();
  auto spy = dap::spy(std::shared_ptr<dap::Writer>(w), log, "->");
  EXPECT(spy->write("ab", 2));
  EXPECT(log->all() == "->ab");
  w->close();
  EXPECT(!spy->write("cd", 2));
  EXPECT(log->all() == "->ab");
  return 0;
}
''')

seed('c32-error-under-request-type', 'C32', 'a handler that answers later, with an error, and a response-sent handler',
     'an error answered through a callback is reported under the type of the request, so its response-sent handler is not found',
     [('include/dap/session.h', '''            [onError, onSuccess](const ResponseOrError<ResponseType>& res) {
              if (res.error) {
                onError(TypeOf<ResponseType>::type(), res.error);''', '''            [onError, onSuccess](const ResponseOrError<ResponseType>& res) {
              if (res.error) {
                onError(TypeOf<RequestType>::type(), res.error);''')],
r'''
int main() {
  auto s = dap::Session::create();
  auto r = std::make_shared<FeedReader>();
  auto w = std::make_shared<TapWriter>();
  std::atomic<int> sent{0};
  s->registerHandler([](const dap::ThreadsRequest&, std::function<void(dap::ResponseOrError<dap::ThreadsResponse>)> cb) { cb(dap::Error("no")); });
  s->registerSentHandler([&](const dap::ResponseOrError<dap::ThreadsResponse>& x) { if (x.error) sent++; });
  s->bind(r, w);
  r->feed(frame("{\"seq\":7,\"type\":\"request\",\"command\":\"threads\",\"arguments\":{}}"));
  EXPECT(waitFor([&] { return w->all().find("\"no\"") != std::string::npos; }));
  EXPECT(waitFor([&] { return sent == 1; }, 2000));
  return 0;
}
''')
