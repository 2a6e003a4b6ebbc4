// Registers one handler of each supported form and sends a request and an
// event, for request, response and event types about which nothing is known.
// Never compiled to code.
#include "dap/protocol.h"
#include "dap/session.h"

#include <functional>
#include <string>

namespace witness {

struct Resp : dap::Response {
  std::string text;
};
struct Req : dap::Request {
  using Response = Resp;
  std::string text;
};
struct Ev : dap::Event {
  std::string text;
};

}  // namespace witness

namespace dap {
template <>
struct TypeOf<witness::Resp> {
  static const TypeInfo* type();
};
template <>
struct TypeOf<witness::Req> {
  static const TypeInfo* type();
};
template <>
struct TypeOf<witness::Ev> {
  static const TypeInfo* type();
};
}  // namespace dap

namespace witness {

using ROE = dap::ResponseOrError<Resp>;

void onResponse(dap::Session& s, std::function<Resp(const Req&)> h) {
  s.registerHandler([h](const Req& r) { return h(r); });
}
void onError(dap::Session& s, std::function<dap::Error(const Req&)> h) {
  s.registerHandler([h](const Req& r) { return h(r); });
}
void onEither(dap::Session& s, std::function<ROE(const Req&)> h) {
  s.registerHandler([h](const Req& r) { return h(r); });
}
void onLater(dap::Session& s,
             std::function<void(const Req&, std::function<void(Resp)>)> h) {
  s.registerHandler(
      [h](const Req& r, std::function<void(Resp)> cb) { h(r, cb); });
}
void onEitherLater(dap::Session& s,
                   std::function<void(const Req&, std::function<void(ROE)>)> h) {
  s.registerHandler(
      [h](const Req& r, std::function<void(ROE)> cb) { h(r, cb); });
}
void onEvent(dap::Session& s, std::function<void(const Ev&)> h) {
  s.registerHandler([h](const Ev& e) { h(e); });
}
void onSent(dap::Session& s, std::function<void(const ROE&)> h) {
  s.registerSentHandler([h](const ROE& r) { h(r); });
}
dap::future<ROE> sendRequest(dap::Session& s, const Req& r) { return s.send(r); }
void sendEvent(dap::Session& s, const Ev& e) { s.send(e); }

}  // namespace witness
