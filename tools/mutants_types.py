from mutants_conc import M
TO='include/dap/typeof.h'; TC='src/typeof.cpp'; TI='include/dap/typeinfo.h'; SZ='include/dap/serialization.h'
SER='''      if (!fs->field(field.name, [&](Serializer* s) {                         \\
            auto ptr = reinterpret_cast<const uint8_t*>(obj) + field.offset;  \\
            return field.type->serialize(s, ptr);                             \\
          })) {                                                               \\
        return false;                                                         \\
      }                                                                       \\
'''
DES='''      if (!fd->field(field.name, [&](Deserializer* d) {                       \\
            auto ptr = reinterpret_cast<uint8_t*>(obj) + field.offset;        \\
            return field.type->deserialize(d, ptr);                           \\
          })) {                                                               \\
        return false;                                                         \\
      }                                                                       \\
'''
MUTANTS=[
M('ty-arr-elem','C29',(TO,'TypeInfo::create<BasicTypeInfo<array<T>>>','TypeInfo::create<BasicTypeInfo<T>>')),
M('ty-opt-elem','C29',(TO,'TypeInfo::create<BasicTypeInfo<optional<T>>>','TypeInfo::create<BasicTypeInfo<T>>')),
M('ty-var-first','C29',(TO,'TypeInfo::create<BasicTypeInfo<variant<T0, Types...>>>','TypeInfo::create<BasicTypeInfo<variant<T0>>>')),
M('ty-size-align','C29',(TO,'alignment() const override { return alignof(T); }','alignment() const override { return sizeof(void*); }')),
M('ty-size-ptr','C29',(TO,'size() const override { return sizeof(T); }','size() const override { return sizeof(T*) > sizeof(T) ? sizeof(T*) : sizeof(T); }')),
M('ty-copy-default','C29',(TO,'new (dst) T(*reinterpret_cast<const T*>(src));','new (dst) T(); (void)src;')),
M('ty-copy-swap','C29',(TO,'new (dst) T(*reinterpret_cast<const T*>(src));','new (const_cast<void*>(src)) T(*reinterpret_cast<const T*>(dst));')),
M('ty-no-destruct','C29',(TO,'    reinterpret_cast<T*>(ptr)->~T();','    (void)ptr;')),
M('ty-delete','C29',(TO,'    reinterpret_cast<T*>(ptr)->~T();','    delete reinterpret_cast<T*>(ptr);')),
M('ty-de-true','C29',(TO,'    return d->deserialize(reinterpret_cast<T*>(ptr));','    d->deserialize(reinterpret_cast<T*>(ptr));\n    return true;')),
M('ty-int-number','C29',(TC,'return &TypeInfos::get()->integer;','return &TypeInfos::get()->number;')),
M('ty-num-integer','C29',(TC,'dap::BasicTypeInfo<dap::number> number = {"number"};','dap::BasicTypeInfo<dap::integer> number = {"number"};')),
M('ty-null-size','C29',(TC,'size() const override { return sizeof(null); }','size() const override { return 0; }')),
M('ty-refrace','C29',(TC,'''    if (--refcount == 0) {''','''    refcount--;
    if (refcount == 0) {''')),
M('ty-release-le','C29',(TC,'''    if (--refcount == 0) {''','''    if (--refcount <= 1) {''')),
M('ty-release-post','C29',(TC,'''    if (--refcount == 0) {''','''    if (refcount-- == 0) {''')),
M('ty-init-zero','C29',(TC,'std::atomic<uint64_t> refcount = {1};','std::atomic<uint64_t> refcount = {0};')),
M('ty-init-two','C29',(TC,'std::atomic<uint64_t> refcount = {1};','std::atomic<uint64_t> refcount = {2};')),
M('ty-exit-destroy','C29',(TC,'~Instance() { ptr()->release(); }','~Instance() { ptr()->~TypeInfos(); }'),(TC,' private:\n  TypeInfos() = default;',' public:\n  TypeInfos() = default;')),
M('ty-exit-nothing','C29',(TC,'    ~Instance() { ptr()->release(); }\n','')),
M('ty-term-reset','C29',(TC,'  TypeInfos::get()->reference();','  static bool once = (TypeInfos::get()->reference(), true);\n  (void)once;')),
M('ty-reg-unlocked','C29 C11',(TC,'  std::unique_lock<std::mutex> lock(typeinfos->typesMutex);\n','')),
M('ty-reg-missing','C29',(TI,'    deleteOnExit(typeinfo);\n','')),
M('ty-reg-twice','C29',(TI,'    deleteOnExit(typeinfo);\n','    deleteOnExit(typeinfo);\n    deleteOnExit(typeinfo);\n')),
M('ty-nostatic','C29',(TO,'''    static auto typeinfo = TypeInfo::create<BasicTypeInfo<array<T>>>(''','''    auto typeinfo = TypeInfo::create<BasicTypeInfo<array<T>>>(''')),
M('ty-lazy','C29',(TO,'''    static auto typeinfo = TypeInfo::create<BasicTypeInfo<optional<T>>>(
        "optional<" + TypeOf<T>::type()->name() + ">");
''','''    static TypeInfo* typeinfo = nullptr;
    if (typeinfo == nullptr) {
      typeinfo = TypeInfo::create<BasicTypeInfo<optional<T>>>(
        "optional<" + TypeOf<T>::type()->name() + ">");
    }
''')),
M('ty-static-var','C29',(TO,'''    static auto typeinfo =
        TypeInfo::create<BasicTypeInfo<variant<T0, Types...>>>("variant");
    return typeinfo;''','''    static BasicTypeInfo<variant<T0, Types...>> typeinfo("variant");
    return &typeinfo;''')),
M('ty-static-ti','C29',(TO,'''    static auto typeinfo = TypeInfo::create<TI>();                          \\
    return typeinfo;                                                        \\''','''    static TI typeinfo;                                                     \\
    return &typeinfo;                                                       \\''')),
M('ty-storage','C29',(TC,'aligned_storage<sizeof(TypeInfos), alignof(TypeInfos)>::type memory;','aligned_storage<sizeof(TypeInfos), 1>::type memory;')),
M('ty-ser-ignore','C29',(TO,SER,SER.replace('        return false;                                                         \\','        break;                                                                \\'))),
M('ty-ser-continue','C29',(TO,SER,SER.replace('        return false;                                                         \\','        continue;                                                             \\'))),
M('ty-des-ignore','C29',(TO,DES,DES.replace('        return false;                                                         \\','        break;                                                                \\'))),
M('ty-des-offset','C29',(TO,DES,DES.replace(' + field.offset;        ',';                       '))),
M('ty-des-firstonly','C29',(TO,DES,DES+'      break;                                                                  \\\n')),
M('ty-ext-or','C29',(TO,'''        return TypeOf<BASE>::deserializeFields(d, base) &&                \\''','''        return TypeOf<BASE>::deserializeFields(d, base) ||                \\''')),
M('ty-ext-nobase','C29',(TO,'''          return TypeOf<BASE>::serializeFields(fs, base) &&               \\''','''          (void)base; return                                              \\''')),
M('ty-ext-obj','C29',(TO,'auto base = static_cast<const BASE*>(derived);                  \\','auto base = static_cast<const BASE*>(obj);                      \\')),
M('ty-ext-obj2','C29',(TO,'auto base = static_cast<BASE*>(derived);                          \\','auto base = static_cast<BASE*>(obj);                              \\')),
M('ty-ext-own','C29',(TO,'               deserializeFields(d, derived);                             \\','               deserializeFields(d, base);                                \\')),
M('ty-offsetof','C29',(TO,'((int)(size_t) & reinterpret_cast<const volatile char&>((((s*)32)->m)) - 32)','((int8_t)(int)((size_t) & reinterpret_cast<const volatile char&>((((s*)32)->m)) - 32) & 31)')),
M('ty-ser-ptr','C29',(TO,'    return s->serialize(*reinterpret_cast<const T*>(ptr));','    return s->serialize(T(*reinterpret_cast<const T*>(ptr)), 0);'),compiles=False),
]
NEUTRAL=[
M('nt-ser-all','',(TO,SER,'''      auto write = [&](Serializer* s) {                                       \\
        return field.type->serialize(                                         \\
            s, static_cast<const char*>(obj) + field.offset);                 \\
      };                                                                      \\
      if (fs->field(field.name, write)) continue;                             \\
      return false;                                                           \\
''')),
M('nt-des-result','',(TO,DES,'''      bool ok = fd->field(field.name, [&](Deserializer* d) {                  \\
            void* ptr = reinterpret_cast<char*>(obj) + field.offset;          \\
            return field.type->deserialize(d, ptr);                           \\
          });                                                                 \\
      if (!ok) { return false; }                                              \\
''')),
M('nt-release','',(TC,'''    if (--refcount == 0) {''','''    if (refcount.fetch_sub(1) == 1) {''')),
M('nt-release2','',(TC,'''    if (--refcount == 0) {
      this->~TypeInfos();
    }''','''    const uint64_t left = --refcount;
    if (left > 0) {
      return;
    }
    this->~TypeInfos();''')),
M('nt-reference','',(TC,'    refcount++;\n','    refcount.fetch_add(1);\n')),
M('nt-emplace','',(TC,'  typeinfos->types.emplace_back(std::unique_ptr<TypeInfo>(ti));','  std::unique_ptr<TypeInfo> owned(ti);\n  typeinfos->types.push_back(std::move(owned));')),
M('nt-guard','',(TC,'  std::unique_lock<std::mutex> lock(typeinfos->typesMutex);','  std::lock_guard<std::mutex> lock(typeinfos->typesMutex);')),
M('nt-emplace-raw','',(TC,'  typeinfos->types.emplace_back(std::unique_ptr<TypeInfo>(ti));','  typeinfos->types.emplace_back(ti);')),
M('nt-method','',(TC,'''  auto typeinfos = TypeInfos::get();
  std::unique_lock<std::mutex> lock(typeinfos->typesMutex);
  typeinfos->types.emplace_back(std::unique_ptr<TypeInfo>(ti));''','''  TypeInfos::get()->add(ti);'''),(TC,'''  struct NullTI :''','''  void add(dap::TypeInfo* ti) {
    std::unique_lock<std::mutex> lock(typesMutex);
    types.emplace_back(std::unique_ptr<dap::TypeInfo>(ti));
  }

  struct NullTI :''')),
M('nt-static-cast','',(TO,'reinterpret_cast<T*>(ptr)','static_cast<T*>(ptr)'),n=2),
M('nt-destruct-local','',(TO,'    reinterpret_cast<T*>(ptr)->~T();','    T* object = reinterpret_cast<T*>(ptr);\n    object->~T();')),
M('nt-create-unique','',(TI,'''    auto typeinfo = new T(std::forward<ARGS>(args)...);
    deleteOnExit(typeinfo);
    return typeinfo;''','''    T* created = new T(std::forward<ARGS>(args)...);
    TypeInfo::deleteOnExit(created);
    return created;''')),
M('nt-arr-name','',(TO,'''    static auto typeinfo = TypeInfo::create<BasicTypeInfo<array<T>>>(
        "array<" + TypeOf<T>::type()->name() + ">");
    return typeinfo;''','''    static const TypeInfo* const info = [] {
      std::string name = "array<" + TypeOf<T>::type()->name() + ">";
      return TypeInfo::create<BasicTypeInfo<array<T>>>(std::move(name));
    }();
    return info;''')),
M('nt-ext-if','',(TO,'''        return TypeOf<BASE>::deserializeFields(d, base) &&                \\
               deserializeFields(d, derived);                             \\''','''        if (!TypeOf<BASE>::deserializeFields(d, base)) { return false; }  \\
        return deserializeFields(d, derived);                             \\''')),
M('nt-instance','',(TC,'''  struct Instance {
    TypeInfos* ptr() { return reinterpret_cast<TypeInfos*>(memory.data); }
    Instance() { new (ptr()) TypeInfos(); }
    ~Instance() { ptr()->release(); }
  };

  static Instance instance;
  return instance.ptr();''','''  struct Instance {
    TypeInfos* infos;
    Instance() : infos(new (memory.data) TypeInfos()) {}
    ~Instance() { infos->release(); }
  };

  static Instance instance;
  return instance.infos;''')),
M('nt-offset-order','',(TO,'''            auto ptr = reinterpret_cast<uint8_t*>(obj) + field.offset;        \\''','''            auto ptr = &reinterpret_cast<uint8_t*>(obj)[field.offset];        \\''')),
]
MUTANTS=[m for m in MUTANTS if m.get('compiles', True)]
