// Applies every public operation of dap::any, dap::variant, dap::optional and
// dap::ResponseOrError, so that overload resolution and template instantiation
// are the compiler's. Never compiled to code.
#include "dap/any.h"
#include "dap/optional.h"
#include "dap/session.h"
#include "dap/typeof.h"
#include "dap/variant.h"

#include <cstddef>
#include <utility>

namespace witness {

// Two types about which nothing is known.
struct A {
  A();
  A(const A&);
  A& operator=(const A&);
  ~A();
  long x;
};
struct B {
  B();
  B(const B&);
  B& operator=(const B&);
  ~B();
  long x;
};

}  // namespace witness

namespace dap {
template <>
struct TypeOf<witness::A> {
  static const TypeInfo* type();
};
template <>
struct TypeOf<witness::B> {
  static const TypeInfo* type();
};
}  // namespace dap

namespace witness {

struct Any {
  dap::any v;
  Any() {}
  Any(const A& x) : v(x) {}
  Any(const B& x) : v(x) {}
  Any(const Any& o, int) : v(o.v) {}
  Any(Any&& o, int) : v(std::move(o.v)) {}
};

void anyCopyAssign(dap::any& a, dap::any& b) { a = static_cast<const dap::any&>(b); }
void anyMoveAssign(dap::any& a, dap::any& b) { a = std::move(b); }
void anyAssignA(dap::any& a, const A& x) { a = x; }
void anyAssignB(dap::any& a, const B& x) { a = x; }
void anyAssignNull(dap::any& a) { a = nullptr; }
void anyReset(dap::any& a) { a.reset(); }
bool anyIsA(const dap::any& a) { return a.is<A>(); }
bool anyIsB(const dap::any& a) { return a.is<B>(); }
bool anyIsNull(const dap::any& a) { return a.is<std::nullptr_t>(); }
A* anyGetA(const dap::any& a) { return &a.get<A>(); }
B* anyGetB(const dap::any& a) { return &a.get<B>(); }
const dap::TypeInfo* typeA() { return dap::TypeOf<A>::type(); }
const dap::TypeInfo* typeB() { return dap::TypeOf<B>::type(); }

// -- variants ------------------------------------------------------------------
using Variant = dap::variant<A, B>;

struct Var {
  Variant v;
  Var() {}
  Var(const A& x) : v(x) {}
  Var(const B& x) : v(x) {}
  Var(const Var& o, int) : v(o.v) {}
  Var(Var&& o, int) : v(std::move(o.v)) {}
};

void varCopyAssign(Variant& a, Variant& b) { a = static_cast<const Variant&>(b); }
void varMoveAssign(Variant& a, Variant& b) { a = std::move(b); }
void varAssignA(Variant& a, const A& x) { a = x; }
void varAssignB(Variant& a, const B& x) { a = x; }
bool varIsA(const Variant& a) { return a.is<A>(); }
bool varIsB(const Variant& a) { return a.is<B>(); }
A* varGetA(const Variant& a) { return &a.get<A>(); }
B* varGetB(const Variant& a) { return &a.get<B>(); }
bool acceptsA() { return Variant::accepts<A>(); }
bool acceptsB() { return Variant::accepts<B>(); }
bool acceptsLong() { return Variant::accepts<long>(); }
struct SubA : A {};
bool acceptsDerived() { return Variant::accepts<SubA>(); }
bool acceptsBase() { return dap::variant<SubA, B>::accepts<A>(); }
bool acceptsOnly() { return dap::variant<A>::accepts<B>(); }
bool acceptsLast() { return dap::variant<long, int, B>::accepts<B>(); }

// -- optionals -----------------------------------------------------------------
using Text = dap::optional<std::string>;
using Num = dap::optional<long>;
using Small = dap::optional<int>;

struct OptText {
  Text v;
  OptText() {}
  OptText(const std::string& x) : v(x) {}
  OptText(std::string& x, long) : v(x) {}
  OptText(std::string& x, char) : v(std::move(x)) {}
  OptText(const OptText& o, int) : v(o.v) {}
  OptText(OptText&& o, int) : v(std::move(o.v)) {}
};
void textCopyAssign(Text& a, Text& b) { a = static_cast<const Text&>(b); }
void textMoveAssign(Text& a, Text& b) { a = std::move(b); }
void textAssign(Text& a, const std::string& x) { a = x; }
void textAssignVar(Text& a, std::string& x) { a = x; }
void textAssignMove(Text& a, std::string& x) { a = std::move(x); }
bool textHas(const Text& a) { return a.has_value(); }
bool textBool(const Text& a) { return static_cast<bool>(a); }
std::string& textValue(Text& a) { return a.value(); }
const std::string& textConstValue(const Text& a) { return a.value(); }
const std::string& textOr(const Text& a, const std::string& d) { return a.value(d); }
std::string& textStar(Text& a) { return *a; }
const std::string& textConstStar(const Text& a) { return *a; }
std::string& textArrow(Text& a) { return *a.operator->(); }
const std::string& textConstArrow(const Text& a) { return *a.operator->(); }

struct OptNum {
  Num v;
  OptNum() {}
  OptNum(const long& x) : v(x) {}
  OptNum(const Small& x, char) : v(x) {}
  OptNum(Small& x, int) : v(std::move(x)) {}
};
struct OptSmall {
  Small v;
  OptSmall() {}
  OptSmall(const int& x) : v(x) {}
};
bool numHas(const Num& a) { return a.has_value(); }
const long& numValue(const Num& a) { return a.value(); }
bool numEq(const Num& a, const Num& b) { return a == b; }
bool numNe(const Num& a, const Num& b) { return a != b; }
bool numLt(const Num& a, const Num& b) { return a < b; }
bool numLe(const Num& a, const Num& b) { return a <= b; }
bool numGt(const Num& a, const Num& b) { return a > b; }
bool numGe(const Num& a, const Num& b) { return a >= b; }

// -- response or error -----------------------------------------------------------
using Roe = dap::ResponseOrError<std::string>;

struct BoxRoe {
  Roe v;
  BoxRoe() {}
  BoxRoe(const std::string& r) : v(r) {}
  BoxRoe(std::string& r, char) : v(std::move(r)) {}
  BoxRoe(const dap::Error& e) : v(e) {}
  BoxRoe(dap::Error& e, char) : v(std::move(e)) {}
  BoxRoe(const BoxRoe& o, int) : v(o.v) {}
  BoxRoe(BoxRoe&& o, int) : v(std::move(o.v)) {}
};
void roeCopyAssign(Roe& a, Roe& b) { a = static_cast<const Roe&>(b); }
void roeMoveAssign(Roe& a, Roe& b) { a = std::move(b); }
void roeAssign(Roe& a, const std::string& r) { a = r; }
void roeAssignError(Roe& a, const dap::Error& e) { a = e; }
const std::string& roeResponse(const Roe& a) { return a.response; }
const std::string& roeMessage(const Roe& a) { return a.error.message; }
bool roeFailed(const Roe& a) { return a.error; }
bool errFailed(const dap::Error& a) { return a; }
bool errDefault() { return dap::Error(); }
dap::Error errFromText(const std::string& s) { return dap::Error(s); }

}  // namespace witness
