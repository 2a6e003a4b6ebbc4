// Applies every operation of the JSON back ends through the interfaces
// dap::Deserializer, dap::Serializer and dap::FieldSerializer, so that overload
// resolution and template instantiation are the compiler's. Never compiled to code.
#include "json_serializer.h"

#include "dap/any.h"
#include "dap/optional.h"
#include "dap/types.h"
#include "dap/variant.h"

#include <functional>
#include <string>

namespace witness {

// -- decoding -----------------------------------------------------------------

template <typename T>
bool decode(const std::string& text, T* v) {
  dap::json::Deserializer d(text);
  const dap::Deserializer& b = d;
  return b.deserialize(v);
}

bool dec_boolean(const std::string& text, dap::boolean* v) { return decode(text, v); }
bool dec_integer(const std::string& text, dap::integer* v) { return decode(text, v); }
bool dec_number(const std::string& text, dap::number* v) { return decode(text, v); }
bool dec_string(const std::string& text, dap::string* v) { return decode(text, v); }
bool dec_object(const std::string& text, dap::object* v) { return decode(text, v); }
bool dec_any(const std::string& text, dap::any* v) { return decode(text, v); }
bool dec_array(const std::string& text, dap::array<dap::any>* v) { return decode(text, v); }
bool dec_optional(const std::string& text, dap::optional<dap::integer>* v) { return decode(text, v); }
bool dec_variant(const std::string& text, dap::variant<dap::integer, dap::string>* v) { return decode(text, v); }

size_t dec_count(const std::string& text) {
  dap::json::Deserializer d(text);
  const dap::Deserializer& b = d;
  return b.count();
}

bool dec_visit(const std::string& text, const std::function<bool(dap::Deserializer*)>& cb) {
  dap::json::Deserializer d(text);
  const dap::Deserializer& b = d;
  return b.array(cb);
}

bool dec_field(const std::string& text, const std::string& name, const std::function<bool(dap::Deserializer*)>& cb) {
  dap::json::Deserializer d(text);
  const dap::Deserializer& b = d;
  return b.field(name, cb);
}

bool dec_member(const std::string& text, const std::string& name, dap::any* v) {
  dap::json::Deserializer d(text);
  const dap::Deserializer& b = d;
  return b.field(name, v);
}

// -- encoding -----------------------------------------------------------------

bool enc_boolean(dap::boolean v, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  bool ok = b.serialize(v);
  *out = s.dump();
  return ok;
}

bool enc_integer(dap::integer v, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  bool ok = b.serialize(v);
  *out = s.dump();
  return ok;
}

bool enc_number(dap::number v, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  bool ok = b.serialize(v);
  *out = s.dump();
  return ok;
}

template <typename T>
bool encode(const T& v, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  bool ok = b.serialize(v);
  *out = s.dump();
  return ok;
}

bool enc_string(const dap::string& v, std::string* out) { return encode(v, out); }
bool enc_object(const dap::object& v, std::string* out) { return encode(v, out); }
bool enc_any(const dap::any& v, std::string* out) { return encode(v, out); }
bool enc_array(const dap::array<dap::any>& v, std::string* out) { return encode(v, out); }

bool enc_cstring(const char* v, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  bool ok = b.serialize(v);
  *out = s.dump();
  return ok;
}

bool enc_visit(size_t n, const std::function<bool(dap::Serializer*)>& cb, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  bool ok = b.array(n, cb);
  *out = s.dump();
  return ok;
}

bool enc_fields(const std::function<bool(dap::FieldSerializer*)>& cb, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  bool ok = b.object(cb);
  *out = s.dump();
  return ok;
}

// One field, then another.
bool enc_two(const std::string& n0, const std::function<bool(dap::Serializer*)>& c0,
             const std::string& n1, const std::function<bool(dap::Serializer*)>& c1, bool* r0, bool* r1, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  bool ok = b.object([&](dap::FieldSerializer* fs) {
    *r0 = fs->field(n0, c0);
    *r1 = fs->field(n1, c1);
    return *r0 && *r1;
  });
  *out = s.dump();
  return ok;
}

// A field given by value.
bool enc_member(const std::string& n0, const dap::any& v, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  bool ok = b.object([&](dap::FieldSerializer* fs) { return fs->field(n0, v); });
  *out = s.dump();
  return ok;
}

// An optional with and without a value.
bool enc_some(const std::string& n0, const dap::integer& x, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  dap::optional<dap::integer> o(x);
  bool ok = b.object([&](dap::FieldSerializer* fs) { return fs->field(n0, o); });
  *out = s.dump();
  return ok;
}

bool enc_none(const std::string& n0, const dap::integer&, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  dap::optional<dap::integer> o;
  bool ok = b.object([&](dap::FieldSerializer* fs) { return fs->field(n0, o); });
  *out = s.dump();
  return ok;
}

// An object and an array inside an array, and inside an object.
bool enc_nestarray(size_t n, const std::function<bool(dap::Serializer*)>& cb, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  bool ok = b.array(2, [&](dap::Serializer* e) { return e->array(n, cb); });
  *out = s.dump();
  return ok;
}

bool enc_nestobject(const std::string& n0, std::string* out) {
  dap::json::Serializer s;
  dap::Serializer& b = s;
  bool ok = b.object([&](dap::FieldSerializer* fs) {
    return fs->field(n0, [&](dap::Serializer* e) { return e->object([&](dap::FieldSerializer*) { return true; }); });
  });
  *out = s.dump();
  return ok;
}

// A variant.
bool enc_held(const dap::integer& x, std::string* out) {
  dap::variant<dap::integer, dap::string> v(x);
  return encode(v, out);
}

}  // namespace witness
