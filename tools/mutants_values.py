from mutants_conc import M
A='include/dap/any.h'; V='include/dap/variant.h'; O='include/dap/optional.h'; SE='include/dap/session.h'
MUTANTS=[
# C25
M('any-move-keeps-heap','C25',(A,'''  other.value = nullptr;
  other.type = nullptr;
  other.heap = nullptr;''','''  other.type = nullptr;
  other.heap = nullptr;''')),
M('any-moveas-noreset','C25',(A,'''  if (this == &rhs) {
    return *this;
  }
  reset();
  type = rhs.type;
  if (rhs.isInBuffer''','''  if (this == &rhs) {
    return *this;
  }
  type = rhs.type;
  if (rhs.isInBuffer''')),
M('any-move-no-src-reset','C25',(A,'''    type->copyConstruct(value, other.value);
    other.reset();''','''    type->copyConstruct(value, other.value);''')),
M('any-moveas-no-src-reset','C25',(A,'''    type->copyConstruct(value, rhs.value);
    rhs.reset();''','''    type->copyConstruct(value, rhs.value);''')),
M('any-no-selfassign','C25',(A,'''any& any::operator=(const any& rhs) {
  if (this == &rhs) {
    return *this;
  }
''','''any& any::operator=(const any& rhs) {
''')),
M('any-no-selfmove','C25',(A,'''any& any::operator=(any&& rhs) noexcept {
  if (this == &rhs) {
    return *this;
  }
''','''any& any::operator=(any&& rhs) noexcept {
''')),
M('any-moveas-heap-left','C25',(A,'''  rhs.value = nullptr;
  rhs.type = nullptr;
  rhs.heap = nullptr;
  return *this;''','''  rhs.value = nullptr;
  rhs.type = nullptr;
  return *this;''')),
M('any-move-heap-left','C25',(A,'''  other.value = nullptr;
  other.type = nullptr;
  other.heap = nullptr;''','''  other.value = nullptr;
  other.type = nullptr;''')),
M('any-move-drop-heap','C25',(A,'''    value = other.value;
    heap = other.heap;''','''    value = other.value;''')),
M('any-copy-share','C25',(A,'''any::any(const any& other) noexcept : type(other.type) {
  if (other.value != nullptr) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, other.value);
  }''','''any::any(const any& other) noexcept : type(other.type) {
  if (other.heap != nullptr) {
    value = other.value;
    heap = other.heap;
  } else if (other.value != nullptr) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, other.value);
  }''')),
M('any-heap-size','C25',(A,'heap = new uint8_t[size + align];','heap = new uint8_t[size];')),
M('any-heap-noalign','C25',(A,'  value = alignUp(heap, align);','  value = heap;')),
M('any-buffer-noalign','C25',(A,'  value = alignUp(buffer, align);','  value = buffer;')),
M('any-inline-offbyone','C25',(A,'isInBuffer(reinterpret_cast<uint8_t*>(value) + size - 1)','isInBuffer(reinterpret_cast<uint8_t*>(value) + size - 2)')),
M('any-inline-start-only','C25',(A,'isInBuffer(reinterpret_cast<uint8_t*>(value) + size - 1)','isInBuffer(value)')),
M('any-inline-size','C25',(A,'if (isInBuffer(reinterpret_cast<uint8_t*>(value) + size - 1)) {','if (size <= sizeof(buffer)) {')),
M('any-inbuf-le','C25',(A,'addr < reinterpret_cast<uintptr_t>(buffer + sizeof(buffer))','addr <= reinterpret_cast<uintptr_t>(buffer + sizeof(buffer))')),
M('any-inbuf-lower','C25',(A,'''  return addr >= reinterpret_cast<uintptr_t>(buffer) &&
         addr <''','''  return addr <''')),
M('any-free-single','C25',(A,'delete[] reinterpret_cast<uint8_t*>(heap);','delete reinterpret_cast<uint8_t*>(heap);')),
M('any-free-heap-kept','C25',(A,'''    delete[] reinterpret_cast<uint8_t*>(heap);
    heap = nullptr;''','''    delete[] reinterpret_cast<uint8_t*>(heap);''')),
M('any-reset-nodestruct','C25',(A,'''    type->destruct(value);
    free();''','''    free();''')),
M('any-reset-nofree','C25',(A,'''    type->destruct(value);
    free();''','''    type->destruct(value);''')),
M('any-reset-order','C25',(A,'''    type->destruct(value);
    free();''','''    auto v = value;
    free();
    type->destruct(v);''')),
M('any-assign-type-after','C25',(A,'''    reset();
    type = TypeOf<T>::type();
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, &val);''','''    auto t = TypeOf<T>::type();
    if (value == nullptr) {
      type = t;
      alloc(type->size(), type->alignment());
    } else {
      type->destruct(value);
      type = t;
    }
    type->copyConstruct(value, &val);''')),
M('any-assign-construct-over','C25',(A,'''    *reinterpret_cast<T*>(value) = val;''','''    type->copyConstruct(value, &val);''')),
M('any-move-type-kept','C26 C25',(A,'''  rhs.value = nullptr;
  rhs.type = nullptr;
  rhs.heap = nullptr;
  return *this;''','''  rhs.value = nullptr;
  rhs.heap = nullptr;
  return *this;''')),
M('any-reset-type-kept','C26',(A,'''  value = nullptr;
  type = nullptr;
}

any& any::operator=(const any& rhs) {''','''  value = nullptr;
}

any& any::operator=(const any& rhs) {''')),
M('any-nullptr-noop','C25',(A,'''any& any::operator=(const std::nullptr_t&) {
  reset();
''','''any& any::operator=(const std::nullptr_t&) {
''')),
M('any-copy-source-type','C25',(A,'''  reset();
  type = rhs.type;
  if (rhs.value != nullptr) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, rhs.value);
  }
  return *this;''','''  auto old = type;
  reset();
  type = rhs.type;
  if (rhs.value != nullptr) {
    if (old == nullptr) old = type;
    alloc(old->size(), old->alignment());
    type->copyConstruct(value, rhs.value);
  }
  return *this;''')),
M('any-alignup-down','C25',(A,'((ptr + alignment - 1) / alignment)','(ptr / alignment)')),
M('any-alignup-next','C25',(A,'((ptr + alignment - 1) / alignment)','((ptr + alignment) / alignment)'),(A,'[size + align]','[size + align - 1]')),
M('any-reuse-storage','C25',(A,'''  reset();
  type = rhs.type;
  if (rhs.value != nullptr) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, rhs.value);
  }
  return *this;''','''  if (value != nullptr && rhs.value != nullptr && type->size() >= rhs.type->size()) {
    type->destruct(value);
    type = rhs.type;
    type->copyConstruct(value, rhs.value);
    return *this;
  }
  reset();
  type = rhs.type;
  if (rhs.value != nullptr) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, rhs.value);
  }
  return *this;''')),
# C26
M('any-is-name','C26',(A,'  return type == TypeOf<T>::type();','  return type != nullptr && type->size() == TypeOf<T>::type()->size();')),
M('any-is-null-true','C26',(A,'  return type == TypeOf<T>::type();','  return type == nullptr || type == TypeOf<T>::type();')),
M('any-get-buffer','C26',(A,'''  assert(is<T>());
  return *reinterpret_cast<T*>(value);''','''  assert(is<T>());
  return *reinterpret_cast<T*>(heap != nullptr ? heap : value);''')),
M('variant-noassert','C26',(V,'''variant<T0, Types...>& variant<T0, Types...>::operator=(const T& v) {
  static_assert(accepts<T>(), "variant does not accept template type T");
''','''variant<T0, Types...>& variant<T0, Types...>::operator=(const T& v) {
''')),
M('variant-ctor-noassert','C26',(V,'''variant<T0, Types...>::variant(const T& v) : value(v) {
  static_assert(accepts<T>(), "variant does not accept template type T");
''','''variant<T0, Types...>::variant(const T& v) : value(v) {
''')),
M('variant-get-noassert','C26',(V,'''T& variant<T0, Types...>::get() const {
  static_assert(accepts<T>(), "variant does not accept template type T");
''','''T& variant<T0, Types...>::get() const {
''')),
M('variant-default-empty','C26',(V,'variant<T0, Types...>::variant() : value(T0()) {}','variant<T0, Types...>::variant() {}')),
M('variant-is-accepts','C26',(V,'  return value.is<T>();','  return accepts<T>() && !value.is<std::nullptr_t>();')),
M('variant-assign-keep','C26',(V,'''  value = v;
  return *this;''','''  if (value.is<std::nullptr_t>() || value.is<T>()) value = v;
  return *this;''')),
M('variant-typeisin-first','C26',(V,'std::is_same<T, List0>::value || TypeIsIn<T, ListN...>::value','std::is_same<T, List0>::value || sizeof...(ListN) == 1')),
M('variant-convertible','C26',(V,'std::is_same<T, List0>::value ||','std::is_convertible<T, List0>::value ||')),
# C27
M('opt-copy-noset','C27',(O,'optional<T>::optional(const optional& other) : val(other.val), set(other.set) {}','optional<T>::optional(const optional& other) : val(other.val), set(true) {}')),
M('opt-copyas-onlyset','C27',(O,'''  val = other.val;
  set = other.set;
  return *this;
}

template <typename T>
optional<T>& optional<T>::operator=(optional&& other) noexcept {''','''  if (other.set) {
    val = other.val;
    set = true;
  }
  return *this;
}

template <typename T>
optional<T>& optional<T>::operator=(optional&& other) noexcept {''')),
M('opt-copyas-or','C27',(O,'''  val = other.val;
  set = other.set;
  return *this;
}

template <typename T>
optional<T>& optional<T>::operator=(optional&& other) noexcept {''','''  val = other.val;
  set = set || other.set;
  return *this;
}

template <typename T>
optional<T>& optional<T>::operator=(optional&& other) noexcept {''')),
M('opt-copyas-moves','C27',(O,'''  val = other.val;
  set = other.set;
  return *this;
}

template <typename T>
optional<T>& optional<T>::operator=(optional&& other) noexcept {''','''  val = std::move(const_cast<optional&>(other).val);
  set = other.set;
  return *this;
}

template <typename T>
optional<T>& optional<T>::operator=(optional&& other) noexcept {''')),
M('opt-assign-move','C27',(O,'  val = std::forward<U>(value);','  val = std::move(value);')),
M('opt-ctor-move','C27',(O,': val(std::forward<U>(value)), set(true) {}',': val(std::move(value)), set(true) {}')),
M('opt-default-always','C27',(O,'''  if (!has_value()) {
    return defaultValue;
  }
  return val;''','''  if (has_value()) {
    return defaultValue;
  }
  return val;''')),
M('opt-default-nocheck','C27',(O,'''  if (!has_value()) {
    return defaultValue;
  }
  return val;''','''  (void)defaultValue;
  return val;''')),
M('opt-assign-noset','C27',(O,'''  val = std::forward<U>(value);
  set = true;''','''  val = std::forward<U>(value);''')),
M('opt-bool-inv','C27',(O,'''optional<T>::operator bool() const noexcept {
  return set;''','''optional<T>::operator bool() const noexcept {
  return !set;''')),
M('opt-eq-novalue','C27',(O,'  return lhs.value() == rhs.value();','  return true;')),
M('opt-eq-empty','C27',(O,'''  if (!lhs.has_value() && !rhs.has_value()) {
    return true;
  }
''','''  if (!lhs.has_value() && !rhs.has_value()) {
    return false;
  }
''')),
M('opt-lt-swap','C27',(O,'''  if (!rhs.has_value()) {
    return false;
  }
  if (!lhs.has_value()) {
    return true;
  }
  return lhs.value() < rhs.value();''','''  if (!lhs.has_value()) {
    return true;
  }
  if (!rhs.has_value()) {
    return false;
  }
  return lhs.value() < rhs.value();''')),
M('opt-le-lt','C27',(O,'return lhs.value() <= rhs.value();','return lhs.value() < rhs.value();')),
M('opt-ge-swap','C27',(O,'return lhs.value() >= rhs.value();','return rhs.value() >= lhs.value();')),
M('opt-convert-noset','C27',(O,'''optional<T>::optional(const optional<U>& other) : set(other.has_value()) {
  if (set) {''','''optional<T>::optional(const optional<U>& other) {
  if (other.has_value()) {''')),
M('opt-convert-noval','C27',(O,'''optional<T>::optional(optional<U>&& other) : set(other.has_value()) {
  if (set) {
    val =''','''optional<T>::optional(optional<U>&& other) : set(other.has_value()) {
  if (!set) {
    val =''')),
M('opt-moveas-noset','C27',(O,'''  val = std::move(other.val);
  set = other.set;
  return *this;
}

template <typename T>
template <typename U /* = T */, typename>''','''  val = std::move(other.val);
  return *this;
}

template <typename T>
template <typename U /* = T */, typename>''')),
M('roe-copyas-noerr','C27',(SE,'''  response = other.response;
  error = other.error;
  return *this;''','''  response = other.response;
  if (other.error) error = other.error;
  return *this;''')),
M('roe-moveas-noresp','C27',(SE,'''  response = std::move(other.response);
  error = std::move(other.error);
  return *this;''','''  if (!error) response = std::move(other.response);
  error = std::move(other.error);
  return *this;''')),
M('roe-move-noerr','C27',(SE,': response(std::move(other.response)), error(std::move(other.error)) {}',': response(std::move(other.response)), error() {}')),
M('roe-copy-moves','C27',(SE,': response(other.response), error(other.error) {}',': response(other.response), error(std::move(const_cast<ResponseOrError&>(other).error)) {}')),
M('err-bool-cap','C27',(SE,'return message.size() > 0;','return message.size() > 1;')),
]
NEUTRAL=[
M('nv-any-swapmove','',(A,'''  other.value = nullptr;
  other.type = nullptr;
  other.heap = nullptr;
}''','''  other.heap = nullptr;
  other.type = nullptr;
  other.value = nullptr;
}''')),
M('nv-any-helper','',(A,'''any::any(const any& other) noexcept : type(other.type) {
  if (other.value != nullptr) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, other.value);
  }''','''any::any(const any& other) noexcept {
  *this = other;''')),
M('nv-any-copyfrom','',(A,'''any& any::operator=(const any& rhs) {
  if (this == &rhs) {
    return *this;
  }
  reset();
  type = rhs.type;
  if (rhs.value != nullptr) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, rhs.value);
  }
  return *this;''','''any& any::operator=(const any& rhs) {
  if (this != &rhs) {
    reset();
    if (rhs.value != nullptr) {
      const TypeInfo* ty = rhs.type;
      alloc(ty->size(), ty->alignment());
      ty->copyConstruct(value, rhs.value);
      type = ty;
    }
  }
  return *this;''')),
M('nv-any-copyswap','',(A,'''any& any::operator=(const any& rhs) {
  if (this == &rhs) {
    return *this;
  }
  reset();
  type = rhs.type;
  if (rhs.value != nullptr) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, rhs.value);
  }
  return *this;''','''any& any::operator=(const any& rhs) {
  if (this == &rhs) {
    return *this;
  }
  any tmp(rhs);
  *this = std::move(tmp);
  return *this;''')),
M('nv-any-reset-early','',(A,'''  if (value != nullptr) {
    type->destruct(value);
    free();
  }
  value = nullptr;
  type = nullptr;''','''  if (value == nullptr) {
    type = nullptr;
    return;
  }
  type->destruct(value);
  free();
  type = nullptr;''')),
M('nv-any-assign-always','',(A,'''  if (!is<T>()) {
    reset();
    type = TypeOf<T>::type();
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, &val);
  } else {
#ifdef __clang_analyzer__
    assert(value != nullptr);
#endif
    *reinterpret_cast<T*>(value) = val;
  }
  return *this;''','''  if (is<T>()) {
    *reinterpret_cast<T*>(value) = val;
    return *this;
  }
  const TypeInfo* ty = TypeOf<T>::type();
  reset();
  alloc(ty->size(), ty->alignment());
  ty->copyConstruct(value, &val);
  type = ty;
  return *this;''')),
M('nv-any-alignmask','',(A,'''  return reinterpret_cast<void*>(alignment *
                                 ((ptr + alignment - 1) / alignment));''','''  auto rem = ptr % alignment;
  return reinterpret_cast<void*>(rem == 0 ? ptr : ptr + (alignment - rem));''')),
M('nv-any-alignand','',(A,'''  return reinterpret_cast<void*>(alignment *
                                 ((ptr + alignment - 1) / alignment));''','''  return reinterpret_cast<void*>((ptr + alignment - 1) & ~(alignment - 1));''')),
M('nv-any-inbuf','',(A,'''  auto addr = reinterpret_cast<uintptr_t>(ptr);
  return addr >= reinterpret_cast<uintptr_t>(buffer) &&
         addr < reinterpret_cast<uintptr_t>(buffer + sizeof(buffer));''','''  auto addr = reinterpret_cast<uintptr_t>(ptr);
  auto begin = reinterpret_cast<uintptr_t>(&buffer[0]);
  auto end = begin + sizeof(buffer);
  return begin <= addr && addr < end;''')),
M('nv-any-inbuf-ptr','',(A,'''  auto addr = reinterpret_cast<uintptr_t>(ptr);
  return addr >= reinterpret_cast<uintptr_t>(buffer) &&
         addr < reinterpret_cast<uintptr_t>(buffer + sizeof(buffer));''','''  auto p = static_cast<const uint8_t*>(ptr);
  return p >= buffer && p < buffer + sizeof(buffer);''')),
M('nv-any-alloc-else','',(A,'''  value = alignUp(buffer, align);
  if (isInBuffer(reinterpret_cast<uint8_t*>(value) + size - 1)) {
    return;
  }
  heap = new uint8_t[size + align];
  value = alignUp(heap, align);''','''  void* local = alignUp(buffer, align);
  if (!isInBuffer(reinterpret_cast<uint8_t*>(local) + size - 1)) {
    heap = new uint8_t[size + align - 1];
    local = alignUp(heap, align);
  }
  value = local;''')),
M('nv-any-heapflag','',(A,'''  if (other.isInBuffer(other.value)) {
    alloc''','''  if (other.value != nullptr && other.heap == nullptr) {
    alloc''')),
M('nv-any-move-swapped','',(A,'''  if (rhs.isInBuffer(rhs.value)) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, rhs.value);
    rhs.reset();
  } else {
    value = rhs.value;
    heap = rhs.heap;
  }''','''  if (!rhs.isInBuffer(rhs.value)) {
    std::swap(value, rhs.value);
    std::swap(heap, rhs.heap);
  } else {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, rhs.value);
    type->destruct(rhs.value);
  }''')),
M('nv-variant-init','',(V,'variant<T0, Types...>::variant() : value(T0()) {}','variant<T0, Types...>::variant() {\n  value = T0();\n}')),
M('nv-opt-init','',(O,'optional<T>::optional(const optional& other) : val(other.val), set(other.set) {}','optional<T>::optional(const optional& other) : set(other.set) {\n  if (set) {\n    val = other.val;\n  }\n}')),
M('nv-opt-ternary','',(O,'''  if (!has_value()) {
    return defaultValue;
  }
  return val;''','''  return set ? val : defaultValue;''')),
M('nv-opt-eq','',(O,'''  if (!lhs.has_value() && !rhs.has_value()) {
    return true;
  }
  if (!lhs.has_value() || !rhs.has_value()) {
    return false;
  }
  return lhs.value() == rhs.value();''','''  if (lhs.has_value() != rhs.has_value()) {
    return false;
  }
  return !lhs.has_value() || lhs.value() == rhs.value();''')),
M('nv-opt-lt','',(O,'''  if (!rhs.has_value()) {
    return false;
  }
  if (!lhs.has_value()) {
    return true;
  }
  return lhs.value() < rhs.value();''','''  return rhs.has_value() && (!lhs.has_value() || lhs.value() < rhs.value());''')),
M('nv-opt-gt','',(O,'return lhs.value() > rhs.value();','return rhs.value() < lhs.value();')),
M('nv-opt-selfcheck','',(O,'''  val = other.val;
  set = other.set;
  return *this;
}

template <typename T>
optional<T>& optional<T>::operator=(optional&& other) noexcept {''','''  if (this != &other) {
    set = other.set;
    val = other.val;
  }
  return *this;
}

template <typename T>
optional<T>& optional<T>::operator=(optional&& other) noexcept {''')),
M('nv-opt-move-clears','',(O,''': val(std::move(other.val)), set(other.set) {}''',''': val(std::move(other.val)), set(other.set) {
  other.set = false;
}''')),
M('nv-roe-order','',(SE,'''  response = other.response;
  error = other.error;
  return *this;''','''  error = other.error;
  response = other.response;
  return *this;''')),
M('nv-roe-copyswap','',(SE,'''  response = std::move(other.response);
  error = std::move(other.error);
  return *this;''','''  std::swap(response, other.response);
  std::swap(error, other.error);
  return *this;''')),
M('nv-err-empty','',(SE,'return message.size() > 0;','return !message.empty();')),
]
