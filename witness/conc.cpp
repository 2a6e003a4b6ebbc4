// Instantiates the header-only concurrency and stream types of cppdap so that
// every member function is part of the analysed program. Never compiled to code.
#include "chan.h"
#include "rwmutex.h"
#include "string_buffer.h"
#include "dap/future.h"
#include "dap/optional.h"

#include <chrono>
#include <string>

namespace witness {
struct Item {
  int v;
  bool operator==(const Item& o) const { return v == o.v; }
};
}  // namespace witness

template struct dap::Chan<witness::Item>;
template class dap::promise<witness::Item>;
template class dap::future<witness::Item>;
template class dap::optional<witness::Item>;

namespace witness {

dap::future_status waitFor(const dap::future<Item>& f,
                           const std::chrono::milliseconds& d) {
  return f.wait_for(d);
}

dap::future_status waitUntil(const dap::future<Item>& f,
                             const std::chrono::steady_clock::time_point& t) {
  return f.wait_until(t);
}

std::unique_ptr<dap::StringBuffer> stringBuffer() {
  return dap::StringBuffer::create();
}

dap::future_status ready() { return dap::future_status::ready; }
dap::future_status timeout() { return dap::future_status::timeout; }

void make() {
  dap::Chan<Item> chan;
  dap::promise<Item> promise;
  dap::future<Item> future = promise.get_future();
  dap::detail::promise_state<Item> state;
  dap::optional<Item> none;
  (void)chan;
  (void)future;
  (void)state;
  (void)none;
}

}  // namespace witness
