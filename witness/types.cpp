// Instantiates the type descriptions for element types about which nothing is
// known, and describes structures with the public macros.  Never compiled to code.
#include "dap/protocol.h"
#include "dap/typeof.h"

#include <string>

namespace witness {

// an opaque element type
struct E {
  E();
  E(const E&);
  E& operator=(const E&);
  ~E();
  long words[3];
};
struct F {
  F();
  F(const F&);
  F& operator=(const F&);
  ~F();
  char text[5];
};
struct Plain {
  int unrelated[3];
};
struct Base {
  E first;
  F second;
};
struct Derived : Plain, Base {
  F third;
  E fourth;
};

}  // namespace witness

namespace dap {
template <>
struct TypeOf<witness::E> {
  static constexpr bool has_custom_serialization = true;
  static const TypeInfo* type();
};
template <>
struct TypeOf<witness::F> {
  static constexpr bool has_custom_serialization = true;
  static const TypeInfo* type();
};
DAP_DECLARE_STRUCT_TYPEINFO(witness::Base);
DAP_DECLARE_STRUCT_TYPEINFO(witness::Derived);
DAP_IMPLEMENT_STRUCT_TYPEINFO(witness::Base,
                              "Base",
                              DAP_FIELD(first, "first"),
                              DAP_FIELD(second, "second"));
DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(witness::Derived,
                                  witness::Base,
                                  "Derived",
                                  DAP_FIELD(third, "third"),
                                  DAP_FIELD(fourth, "fourth"));
}  // namespace dap

namespace witness {

using ArrayE = dap::array<E>;
using OptionalE = dap::optional<E>;
using VariantEF = dap::variant<E, F>;

#define ASK(NAME, ...)                                                         \
  const dap::TypeInfo* type_##NAME() { return dap::TypeOf<__VA_ARGS__>::type(); } \
  size_t size_##NAME() { return sizeof(__VA_ARGS__); }                         \
  size_t align_##NAME() { return alignof(__VA_ARGS__); }                       \
  void make_##NAME(void* p) { new (p) __VA_ARGS__(); }                         \
  void read_##NAME(const dap::Deserializer* d, void* p) {                      \
    d->deserialize(reinterpret_cast<__VA_ARGS__*>(p));                         \
  }                                                                            \
  void write_##NAME(dap::Serializer* s, const void* p) {                       \
    s->serialize(*reinterpret_cast<const __VA_ARGS__*>(p));                    \
  }

ASK(boolean, dap::boolean)
ASK(string, dap::string)
ASK(integer, dap::integer)
ASK(number, dap::number)
ASK(object, dap::object)
ASK(any, dap::any)
ASK(array, ArrayE)
ASK(optional, OptionalE)
ASK(variant, VariantEF)
ASK(base, Base)
ASK(derived, Derived)

const dap::TypeInfo* type_null() { return dap::TypeOf<dap::null>::type(); }
size_t size_null() { return sizeof(dap::null); }
size_t align_null() { return alignof(dap::null); }
void make_null(void* p) { new (p) dap::null(); }

}  // namespace witness
