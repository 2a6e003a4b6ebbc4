# any.h edits rewritten for the repaired assignments
ANYFIX = {
  'any-moveas-noreset': [('is replaced.\n  reset();\n  type = moved.type;', 'is replaced.\n  type = moved.type;')],
  'any-moveas-no-src-reset': [('    type->copyConstruct(value, moved.value);\n    moved.reset();\n', '    type->copyConstruct(value, moved.value);\n')],
  'any-moveas-heap-left': [('  moved.value = nullptr;\n  moved.type = nullptr;\n  moved.heap = nullptr;\n', '  moved.value = nullptr;\n  moved.type = nullptr;\n')],
  'any-assign-type-after': [('    reset();\n    type = TypeOf<T>::type();\n    alloc(type->size(), type->alignment());\n    type->copyConstruct(value, &copy);', '    auto t = TypeOf<T>::type();\n    if (value == nullptr) {\n      type = t;\n      alloc(type->size(), type->alignment());\n    } else {\n      type->destruct(value);\n      type = t;\n    }\n    type->copyConstruct(value, &copy);')],
  'any-move-type-kept': [('  other.value = nullptr;\n  other.type = nullptr;\n', '  other.value = nullptr;\n')],
  'any-copy-source-type': [('  any copy(rhs);  // rhs may be part of the value that is replaced.\n  return *this = std::move(copy);\n', '  any copy(rhs);\n  auto old = type;\n  reset();\n  type = copy.type;\n  if (copy.value != nullptr) {\n    if (old == nullptr) old = type;\n    alloc(old->size(), old->alignment());\n    type->copyConstruct(value, copy.value);\n  }\n  return *this;\n')],
  'any-reuse-storage': [('  any copy(rhs);  // rhs may be part of the value that is replaced.\n  return *this = std::move(copy);\n', '  any copy(rhs);\n  if (value != nullptr && copy.value != nullptr && type->size() >= copy.type->size()) {\n    type->destruct(value);\n    type = copy.type;\n    type->copyConstruct(value, copy.value);\n    return *this;\n  }\n  return *this = std::move(copy);\n')],
  'nv-any-copyfrom': [('  any copy(rhs);  // rhs may be part of the value that is replaced.\n  return *this = std::move(copy);\n', '  any copy(rhs);\n  reset();\n  if (copy.value != nullptr) {\n    const TypeInfo* ty = copy.type;\n    alloc(ty->size(), ty->alignment());\n    ty->copyConstruct(value, copy.value);\n    type = ty;\n  }\n  return *this;\n')],
  'nv-any-copyswap': [('  any copy(rhs);  // rhs may be part of the value that is replaced.\n  return *this = std::move(copy);\n', '  any tmp(rhs);\n  *this = std::move(tmp);\n  return *this;\n')],
  'nv-any-assign-always': [('  if (!is<T>()) {\n    T copy(val);  // val may be part of the value that is replaced.\n    reset();\n    type = TypeOf<T>::type();\n    alloc(type->size(), type->alignment());\n    type->copyConstruct(value, &copy);\n  } else {\n#ifdef __clang_analyzer__\n    assert(value != nullptr);\n#endif\n    *reinterpret_cast<T*>(value) = val;\n  }\n  return *this;\n', '  if (is<T>()) {\n    *reinterpret_cast<T*>(value) = val;\n    return *this;\n  }\n  const TypeInfo* ty = TypeOf<T>::type();\n  T tmp = val;\n  reset();\n  alloc(ty->size(), ty->alignment());\n  ty->copyConstruct(value, &tmp);\n  type = ty;\n  return *this;\n')],
  'nv-any-move-swapped': [('  if (moved.isInBuffer(moved.value)) {\n    alloc(type->size(), type->alignment());\n    type->copyConstruct(value, moved.value);\n    moved.reset();\n  } else {\n    value = moved.value;\n    heap = moved.heap;\n  }\n', '  if (!moved.isInBuffer(moved.value)) {\n    std::swap(value, moved.value);\n    std::swap(heap, moved.heap);\n  } else {\n    alloc(type->size(), type->alignment());\n    type->copyConstruct(value, moved.value);\n    type->destruct(moved.value);\n  }\n')],
}

def anyfix(ms):
    for m in ms:
        if m['name'] in ANYFIX:
            m['edits'] = [('include/dap/any.h', o, w) for o, w in ANYFIX[m['name']]]

AH = 'include/dap/any.h'
MUTANTS = [
 {'name': 'ya-nested-copy', 'props': ['C25'], 'edits': [(AH, '''  any copy(rhs);  // rhs may be part of the value that is replaced.
  return *this = std::move(copy);
''', '''  reset();
  type = rhs.type;
  if (rhs.value != nullptr) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, rhs.value);
  }
  return *this;
''')]},
 {'name': 'ya-nested-value', 'props': ['C25'], 'edits': [(AH, '    T copy(val);  // val may be part of the value that is replaced.\n', ''), (AH, 'copyConstruct(value, &copy)', 'copyConstruct(value, &val)')]},
 {'name': 'ya-nested-move', 'props': ['C25'], 'edits': [(AH, '  any moved(std::move(rhs));  // rhs may be part of the value that is replaced.\n', '  any& moved = rhs;\n')]},
 {'name': 'ya-alloc-noalign', 'props': ['C25'], 'edits': [(AH, 'new uint8_t[size + align]', 'new uint8_t[size]')]},
 {'name': 'ya-inbuf-start', 'props': ['C25'], 'edits': [(AH, 'reinterpret_cast<uint8_t*>(value) + size - 1)', 'reinterpret_cast<uint8_t*>(value) + size / 2)')]},
 {'name': 'ya-get-null', 'props': ['C26'], 'edits': [(AH, '  return type == TypeOf<T>::type();', '  return value == nullptr || type == TypeOf<T>::type();')]},
 {'name': 'ya-is-size', 'props': ['C26'], 'edits': [(AH, '  return type == TypeOf<T>::type();', '  return type == TypeOf<T>::type() || (type != nullptr && type->size() == sizeof(T) && type->alignment() == alignof(T));')]},
 {'name': 'ya-null-type', 'props': ['C26'], 'edits': [(AH, '  return value == nullptr;\n', '  return type == nullptr || type->size() == 0;\n'), (AH, '  value = nullptr;\n  type = nullptr;\n}', '  value = nullptr;\n}')]},
 {'name': 'ya-var-accept', 'props': ['C26'], 'edits': [('include/dap/variant.h', 'std::is_same<T, List0>::value ||', '(sizeof(T) == sizeof(List0)) ||')]},
 {'name': 'ya-var-ctor', 'props': ['C27 C26'.split()[1]], 'edits': [('include/dap/variant.h', '  value = v;\n', '  if (!value.is<T>()) {\n    value = T();\n  } else {\n    value = v;\n  }\n')]},
]
NEUTRAL = [
 {'name': 'ya-n-tmpT', 'props': [], 'edits': [(AH, '    T copy(val);  // val may be part of the value that is replaced.\n', '    const T keep = val;\n'), (AH, 'copyConstruct(value, &copy)', 'copyConstruct(value, &keep)')]},
 {'name': 'ya-n-oneliner', 'props': [], 'edits': [(AH, '''  any copy(rhs);  // rhs may be part of the value that is replaced.
  return *this = std::move(copy);
''', '''  return *this = any(rhs);
''')]},
 {'name': 'ya-n-take', 'props': [], 'edits': [(AH, '''  inline void free();
''', '''  inline void free();
  inline void take(any& from);
'''), (AH, '''  reset();
  type = moved.type;
  if (moved.isInBuffer(moved.value)) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, moved.value);
    moved.reset();
  } else {
    value = moved.value;
    heap = moved.heap;
  }
  moved.value = nullptr;
  moved.type = nullptr;
  moved.heap = nullptr;
  return *this;
}
''', '''  reset();
  take(moved);
  return *this;
}

void any::take(any& from) {
  type = from.type;
  if (from.isInBuffer(from.value)) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, from.value);
    from.reset();
  } else {
    value = from.value;
    heap = from.heap;
  }
  from.value = nullptr;
  from.type = nullptr;
  from.heap = nullptr;
}
'''), (AH, '''any::any(any&& other) noexcept : type(other.type) {
  if (other.isInBuffer(other.value)) {
    alloc(type->size(), type->alignment());
    type->copyConstruct(value, other.value);
    other.reset();
  } else {
    value = other.value;
    heap = other.heap;
  }
  other.value = nullptr;
  other.type = nullptr;
  other.heap = nullptr;
}''', '''any::any(any&& other) noexcept {
  take(other);
}''')]},
]
