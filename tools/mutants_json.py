from mutants_conc import M
NL='src/nlohmann_json_serializer.cpp'; RP='src/rapid_json_serializer.cpp'; JC='src/jsoncpp_json_serializer.cpp'; SZ='include/dap/serialization.h'; NU='src/null_json_serializer.h'
MUTANTS=[
M('js-nl-int-number','C23 C22',(NL,'!json->is_number_integer()','!json->is_number()')),
M('js-nl-num-float','C23',(NL,'if (!json->is_number()) {','if (!json->is_number_float()) {')),
M('js-nl-int32','C23',(NL,'*v = json->get<int64_t>();','*v = json->get<int32_t>();')),
M('js-nl-bool-unchecked','C22',(NL,'''  if (!json->is_boolean()) {
    return false;
  }
''','')),
M('js-nl-str-unchecked','C22',(NL,'''  if (!json->is_string()) {
    return false;
  }
  *v''','''  if (json->is_null()) {
    return false;
  }
  *v''')),
M('js-nl-str-assign-first','C22',(NL,'''  if (!json->is_string()) {
    return false;
  }
''','''  if (!json->is_string()) {
    *v = "";
    return false;
  }
''')),
M('js-nl-any-null','C23',(NL,'''  } else if (json->is_null()) {
    *v = null();
''','')),
M('js-nl-any-order','C23',(NL,'} else if (json->is_number_float()) {\n    *v = dap::number','} else if (json->is_number()) {\n    *v = dap::number')),
M('js-nl-any-nested','C22',(NL,'''    if (!deserialize(&arr)) {
      return false;
    }
''','''    deserialize(&arr);
''')),
M('js-nl-obj-skip','C22 C23',(NL,'''    if (!d.deserialize(&val)) {
      return false;
    }
    (*v)''','''    if (!d.deserialize(&val)) {
      continue;
    }
    (*v)''')),
M('js-nl-obj-unchecked','C22 C23',(NL,'''  if (!json->is_object()) {
    return false;
  }
  v->reserve''','''  v->reserve''')),
M('js-nl-obj-arr','C22 C23',(NL,'''  if (!json->is_object()) {
    return false;
  }
  v->reserve''','''  if (!json->is_structured()) {
    return false;
  }
  v->reserve''')),
M('js-nl-array-bound','C22 C23',(NL,'i < json->size(); i++) {\n    NlohmannDes','i <= json->size(); i++) {\n    NlohmannDes')),
M('js-nl-array-u8','C23',(NL,'for (size_t i = 0; i < json->size(); i++) {\n    NlohmannDes','for (uint8_t i = 0; i < (uint8_t)json->size(); i++) {\n    NlohmannDes')),
M('js-nl-array-nostop','C23',(NL,'''    NlohmannDeserializer d(&(*json)[i]);
    if (!cb(&d)) {
      return false;
    }
  }
  return true;''','''    NlohmannDeserializer d(&(*json)[i]);
    cb(&d);
  }
  return true;''')),
M('js-nl-array-unchecked','C22 C23',(NL,'''  if (!json->is_array()) {
    return false;
  }
''','')),
M('js-nl-field-missing-true','C23',(NL,'return cb(&NullDeserializer::instance);','return true;')),
M('js-nl-field-noend','C22',(NL,'''  if (it == json->end()) {
    return cb(&NullDeserializer::instance);
  }
''','')),
M('js-nl-field-insert','C23',(NL,'''  auto it = json->find(name);
  if (it == json->end()) {
    return cb(&NullDeserializer::instance);
  }
  auto obj = *it;''','''  auto copy = *json;
  auto obj = copy[name];''')),
M('js-nl-field-ret','C23',(NL,'''  NlohmannDeserializer d(&obj);
  return cb(&d);''','''  NlohmannDeserializer d(&obj);
  cb(&d);
  return true;''')),
M('js-nl-parse-throw','C22',(NL,'parse(str, nullptr, false)','parse(str)')),
M('js-nl-double-own','C22',(NL,': json(json), ownsJson(false) {}\n\nNlohmannDeserializer::~',': json(json), ownsJson(true) {}\n\nNlohmannDeserializer::~')),
M('js-nl-leak','C22',(NL,'nlohmann::json::parse(str, nullptr, false))),\n      ownsJson(true)','nlohmann::json::parse(str, nullptr, false))),\n      ownsJson(false)')),
M('js-nl-ser-int','C24',(NL,'*json = (int64_t)v;','*json = (int)(int64_t)v;')),
M('js-nl-ser-num','C24',(NL,'*json = (double)v;','*json = (float)(double)v;')),
M('js-nl-ser-any-int','C24',(NL,'*json = (int64_t)v.get<dap::integer>();','*json = (double)v.get<dap::integer>();')),
M('js-nl-ser-obj-fail','C24',(NL,'''    NlohmannSerializer s(&(*json)[it.first]);
    if (!s.serialize(it.second)) {
      return false;
    }''','''    NlohmannSerializer s(&(*json)[it.first]);
    s.serialize(it.second);''')),
M('js-nl-ser-arr-fail','C24',(NL,'''    NlohmannSerializer s(&(*json)[i]);
    if (!cb(&s)) {
      return false;
    }''','''    NlohmannSerializer s(&(*json)[i]);
    if (!cb(&s)) {
      break;
    }''')),
M('js-nl-ser-arr-zero','C24',(NL,'''  *json = std::vector<int>();
  for (size_t i = 0; i < count; i++) {''','''  for (size_t i = 0; i < count; i++) {''')),
M('js-nl-ser-removed','C24',(NL,'''      if (s.removed) {
        json->erase(name);
      }
''','')),
M('js-nl-ser-removed-ret','C24',(NL,'      return res;','      return res && !s.removed;')),
M('js-nl-ser-field-true','C24',(NL,'      return res;','      return true;')),
M('js-nl-ser-obj-true','C24',(NL,'  return cb(&fs);','  cb(&fs);\n  return true;')),
M('js-nl-ser-any-type','C24',(NL,'      return type->serialize(this, value);','      type->serialize(this, value);\n      return true;')),
M('js-nl-ser-any-else','C24',(NL,'''      return type->serialize(this, value);
    }
    return false;''','''      return type->serialize(this, value);
    }
    return true;''')) if False else M('js-nl-ser-any-notype','C24',(NL,'    if (type && value) {','    if (!type && value) {')),
M('js-nl-dump-strict','C24',(NL,'error_handler_t::replace','error_handler_t::strict')),
M('js-nl-ser-empty-obj','C24',(NL,'''  if (!json->is_object()) {
    *json = nlohmann::json::object();
  }
''','')),
M('js-nl-fields-null','C24',(NL,'''  *json = nlohmann::json({}, false, nlohmann::json::value_t::object);
''','')),
M('js-rp-int-order','C22',(RP,'if (json()->IsInt()) {','if (json()->IsInt64()) {')),
M('js-rp-int-uint','C23',(RP,'''  } else if (json()->IsUint()) {
    *v = static_cast<int64_t>(json()->GetUint());
    return true;
  } else if (json()->IsInt64()) {
    *v = json()->GetInt64();
    return true;
''','''  } else if (json()->IsInt64()) {
    *v = static_cast<int>(json()->GetInt64());
    return true;
''')),
M('js-rp-num-double','C23',(RP,'if (!json()->IsNumber()) {','if (!json()->IsDouble()) {')),
M('js-rp-str-cut','C23',(RP,'  *v = dap::string(json()->GetString(), json()->GetStringLength());\n  return','  *v = dap::string(json()->GetString());\n  return')),
M('js-rp-any-int32','C23',(RP,'''  } else if (json()->IsInt64()) {
    *v = dap::integer(json()->GetInt64());
  } else if (json()->IsUint64()) {
    *v = dap::integer(static_cast<int64_t>(json()->GetUint64()));
''','''  } else if (json()->IsInt()) {
    *v = dap::integer(json()->GetInt());
''')),
M('js-rp-count','C22',(RP,'return json()->IsArray() ? json()->Size() : 0;','return json()->Size();')),
M('js-rp-array-unchecked','C22',(RP,'''  if (!json()->IsArray()) {
    return false;
  }
''','')),
M('js-rp-field-cstr','C23',(RP,'json()->FindMember(makeKey(name))','json()->FindMember(name.c_str())')),
M('js-rp-field-index','C22',(RP,'''  auto it = json()->FindMember(makeKey(name));
  if (it == json()->MemberEnd()) {
    return cb(&NullDeserializer::instance);
  }
  RapidDeserializer d(&(it->value));''','''  RapidDeserializer d(&(*json())[makeKey(name)]);''')),
M('js-rp-field-unchecked','C22',(RP,'''  if (!json()->IsObject()) {
    return false;
  }
  auto it''','''  auto it''')),
M('js-rp-parse-cstr','C23',(RP,'doc->Parse(str.data(), str.size());','doc->Parse(str.c_str());')),
M('js-rp-obj-key','C23',(RP,'''    (*v)[dap::string(el->name.GetString(), el->name.GetStringLength())] =''','''    (*v)[dap::string(el->name.GetString())] =''')),
M('js-rp-ser-int','C24',(RP,'json()->SetInt64(v);\n  return','json()->SetInt(static_cast<int>(v));\n  return')),
M('js-rp-ser-key-ref','C24',(RP,'''        rapidjson::Value name_value{key.GetString(), key.GetStringLength(),
                                    allocator};
        json->AddMember(name_value, rapidjson::Value(), allocator);''','''        json->AddMember(rapidjson::StringRef(name.c_str()), rapidjson::Value(), allocator);''')),
M('js-rp-ser-str-ref','C24',(RP,'''    json()->SetString(s.data(), static_cast<uint32_t>(s.length()), allocator);
  } else''','''    json()->SetString(rapidjson::StringRef(s.data(), s.length()));
  } else''')),
M('js-rp-ser-str-cut','C24',(RP,'json()->SetString(v.data(), static_cast<uint32_t>(v.length()), allocator);','json()->SetString(v.c_str(), allocator);')),
M('js-rp-ser-null','C24',(RP,'    json()->SetNull();\n','')),
M('js-rp-ser-arr-size','C24',(RP,'while (count > json()->Size()) {','while (count > json()->Size() + 1) {')),
M('js-rp-ser-arr-notarr','C24',(RP,'''  if (!json()->IsArray()) {
    json()->SetArray();
  }
''','')),
M('js-rp-ser-dup','C24',(RP,'''      if (!json->HasMember(key)) {
''','''      {
''')) if False else M('js-rp-ser-rm-cut','C24',(RP,'json->RemoveMember(key);','json->RemoveMember(name.c_str());')),
M('js-rp-ser-arr-fail','C24',(RP,'''    RapidSerializer s(&(*json())[i], allocator);
    if (!cb(&s)) {
      return false;
    }
  }
  return true;''','''    RapidSerializer s(&(*json())[i], allocator);
    cb(&s);
  }
  return true;''')),
M('js-jc-int-real','C23',(JC,' || json->type() == Json::ValueType::realValue','')),
M('js-jc-int-isint','C23',(JC,'!json->isInt64() ||','!json->isInt() ||')),
M('js-jc-int-integral','C22',(JC,'!json->isInt64() ||','!json->isIntegral() ||')),
M('js-jc-str-conv','C22 C23',(JC,'''  if (!json->isString()) {
    return false;
  }
''','')),
M('js-jc-bool-conv','C22 C23',(JC,'''  if (!json->isBool()) {
    return false;
  }
''','''  if (!json->isBool() && !json->isNumeric()) {
    return false;
  }
''')),
M('js-jc-any-double','C23',(JC,'json->type() == Json::ValueType::realValue) {\n    // json','json->isDouble()) {\n    // json')),
M('js-jc-any-null-first','C23',(JC,'''  } else if (json->isNull()) {
    *v = null();
  } else {
    return false;''','''  } else {
    return false;''')),
M('js-jc-array-obj','C23',(JC,'''  if (!json->isArray()) {
    return false;
  }
  for''','''  if (!json->isArray() && !json->isObject()) {
    return false;
  }
  for''')),
M('js-jc-field-unchecked','C22',(JC,'''  if (!json->isObject()) {
    return false;
  }
  auto value''','''  auto value''')),
M('js-jc-field-null','C22 C23',(JC,'''  if (value == nullptr) {
    return cb(&NullDeserializer::instance);
  }
''','')),
M('js-jc-parse-ignored','C22 C23',(JC,'''    if (!jsonReader->parse(text.data(), text.data() + text.size(), &json,
                           &error)) {
      return Json::Value();
    }
''','''    jsonReader->parse(text.data(), text.data() + text.size(), &json, &error);
''')),
M('js-jc-nocatch','C22',(JC,'''#if JSON_USE_EXCEPTION
  try {
#endif''',''),(JC,'''#if JSON_USE_EXCEPTION
  } catch (const Json::Exception&) {
    // Thrown if the value is nested too deeply.
    return Json::Value();
  }
#endif''','')),
M('js-jc-ser-arr-index','C24',(JC,'JsonCppSerializer s(&(*json)[Json::Value::ArrayIndex(i)]);','JsonCppSerializer s(&(*json)[Json::Value::ArrayIndex(count - 1 - i)]);')),
M('js-jc-ser-empty-arr','C24',(JC,'  *json = Json::Value(Json::arrayValue);\n','')),
M('js-jc-ser-rm','C24',(JC,'json->removeMember(name);','(*json)[name] = Json::Value();')),
M('js-jc-ser-any-str','C24',(JC,'*json = v.get<dap::string>();','*json = v.get<dap::string>().c_str();')),
M('js-null-any','C23',(NU,'bool deserialize(dap::any*) const override { return false; }','bool deserialize(dap::any*) const override { return true; }')),
M('js-null-array','C23',(NU,'''  bool array(const std::function<bool(dap::Deserializer*)>&) const override {
    return false;''','''  bool array(const std::function<bool(dap::Deserializer*)>&) const override {
    return true;''')),
M('js-sz-arr-i','C23 C22',(SZ,'d->deserialize(&(*vec)[i++])','d->deserialize(&(*vec)[++i])')),
M('js-sz-arr-noresize','C22',(SZ,'  vec->resize(n);\n','  vec->reserve(n);\n')),
M('js-sz-arr-true','C22',(SZ,'''  if (!array([&](Deserializer* d) { return d->deserialize(&(*vec)[i++]); })) {
    return false;
  }
  return true;''','''  array([&](Deserializer* d) { return d->deserialize(&(*vec)[i++]); });
  return true;''')),
M('js-sz-opt-none','C24',(SZ,'''  if (!opt.has_value()) {
    remove();
    return true;
  }''','''  if (!opt.has_value()) {
    return true;
  }''')),
M('js-sz-opt-val','C24',(SZ,'  return serialize(opt.value());','  serialize(opt.value());\n  return true;')),
M('js-sz-ser-arr','C24',(SZ,'return array(vec.size(), [&](Serializer* s) { return s->serialize(*it++); });','return array(vec.size(), [&](Serializer* s) { return s->serialize(*it); });')),
M('js-sz-field-true','C24',(SZ,'[&](Serializer* s) { return s->serialize(v); });','[&](Serializer* s) { s->serialize(v); return true; });')),
]
NEUTRAL=[
M('nj-nl-not','',(NL,'''  if (!json->is_boolean()) {
    return false;
  }
  *v = json->get<bool>();
  return true;''','''  const bool good = json->is_boolean();
  if (good) {
    *v = json->get<bool>();
  }
  return good;''')),
M('nj-nl-range','',(NL,'''  for (size_t i = 0; i < json->size(); i++) {
    NlohmannDeserializer d(&(*json)[i]);
    if (!cb(&d)) {
      return false;
    }
  }
  return true;''','''  for (auto& el : *json) {
    NlohmannDeserializer d(&el);
    if (!cb(&d)) {
      return false;
    }
  }
  return true;''')),
M('nj-nl-while','',(NL,'''  for (size_t i = 0; i < json->size(); i++) {
    NlohmannDeserializer d(&(*json)[i]);
    if (!cb(&d)) {
      return false;
    }
  }
  return true;''','''  const size_t n = json->size();
  bool ok = true;
  size_t i = 0;
  while (ok && i < n) {
    NlohmannDeserializer d(&json->at(i++));
    ok = cb(&d);
  }
  return ok;''')),
M('nj-nl-field-ref','',(NL,'''  auto obj = *it;
  NlohmannDeserializer d(&obj);''','''  NlohmannDeserializer d(&*it);''')),
M('nj-nl-field-contains','',(NL,'''  auto it = json->find(name);
  if (it == json->end()) {
    return cb(&NullDeserializer::instance);
  }
  auto obj = *it;
  NlohmannDeserializer d(&obj);
  return cb(&d);''','''  if (json->contains(name)) {
    NlohmannDeserializer d(&json->at(name));
    return cb(&d);
  }
  return cb(&NullDeserializer::instance);''')),
M('nj-nl-items-it','',(NL,'''  for (auto& el : json->items()) {
    NlohmannDeserializer d(&el.value());
    dap::any val;
    if (!d.deserialize(&val)) {
      return false;
    }
    (*v)[el.key()] = val;
  }''','''  for (auto it = json->begin(); it != json->end(); ++it) {
    NlohmannDeserializer d(&it.value());
    dap::any val;
    if (!d.deserialize(&val)) {
      return false;
    }
    v->emplace(it.key(), std::move(val));
  }''')) ,
M('nj-nl-direct','',(NL,'''    dap::any val;
    if (!d.deserialize(&val)) {
      return false;
    }
    (*v)[el.key()] = val;''','''    dap::any& slot = (*v)[el.key()];
    if (!d.deserialize(&slot)) {
      return false;
    }''')),
M('nj-nl-switch','',(NL,'''  if (json->is_boolean()) {
    *v = dap::boolean(json->get<bool>());
  } else if (json->is_number_float()) {
    *v = dap::number(json->get<double>());
  } else if (json->is_number_integer()) {
    *v = dap::integer(json->get<int64_t>());
  } else if (json->is_string()) {
    *v = json->get<std::string>();
  } else if''','''  switch (json->type()) {
    case nlohmann::json::value_t::boolean:
      *v = dap::boolean(json->get<bool>());
      return true;
    case nlohmann::json::value_t::number_float:
      *v = dap::number(json->get<double>());
      return true;
    case nlohmann::json::value_t::number_integer:
    case nlohmann::json::value_t::number_unsigned:
      *v = dap::integer(json->get<int64_t>());
      return true;
    case nlohmann::json::value_t::string:
      *v = json->get<std::string>();
      return true;
    default:
      break;
  }
  if''')),
M('nj-nl-any-reuse','',(NL,'''  if (json->is_boolean()) {
    *v = dap::boolean(json->get<bool>());''','''  dap::boolean b;
  if (deserialize(&b)) {
    *v = b;''')),
M('nj-nl-helper','',(NL,'''bool NlohmannDeserializer::deserialize(dap::number* v) const {
  if (!json->is_number()) {
    return false;
  }
  *v = json->get<double>();
  return true;
}''','''template <typename T, typename U>
static bool readIf(bool cond, const nlohmann::json* j, U* out) {
  if (cond) {
    *out = j->get<T>();
  }
  return cond;
}

bool NlohmannDeserializer::deserialize(dap::number* v) const {
  return readIf<double>(json->is_number(), json, v);
}''')),
M('nj-nl-ser-push','',(NL,'''  *json = std::vector<int>();
  for (size_t i = 0; i < count; i++) {
    NlohmannSerializer s(&(*json)[i]);
    if (!cb(&s)) {
      return false;
    }
  }''','''  *json = nlohmann::json::array();
  for (size_t i = 0; i < count; i++) {
    json->push_back(nullptr);
    NlohmannSerializer s(&(*json)[i]);
    if (!cb(&s)) {
      return false;
    }
  }''')),
M('nj-nl-ser-temp','',(NL,'''    NlohmannSerializer s(&(*json)[it.first]);
    if (!s.serialize(it.second)) {
      return false;
    }''','''    nlohmann::json child;
    NlohmannSerializer s(&child);
    if (!s.serialize(it.second)) {
      return false;
    }
    (*json)[it.first] = std::move(child);''')),
M('nj-nl-ser-field','',(NL,'''      NlohmannSerializer s(&(*json)[name]);
      auto res = cb(&s);
      if (s.removed) {
        json->erase(name);
      }
      return res;''','''      auto& slot = (*json)[name];
      NlohmannSerializer s(&slot);
      if (!cb(&s)) {
        if (s.removed) {
          json->erase(name);
        }
        return false;
      }
      if (s.removed) {
        json->erase(name);
      }
      return true;''')),
M('nj-nl-ser-any','',(NL,'''  if (v.is<dap::boolean>()) {
    *json = (bool)v.get<dap::boolean>();
  } else if (v.is<dap::integer>()) {''','''  if (v.is<dap::boolean>()) {
    return serialize(v.get<dap::boolean>());
  }
  if (v.is<dap::integer>()) {''')),
M('nj-nl-ser-any-self','',(NL,'''  if (v.is<dap::boolean>()) {
    *json = (bool)v.get<dap::boolean>();
  } else if''','''  if (v.is<dap::null>()) {
    *json = nullptr;
    return true;
  }
  if (v.is<dap::boolean>()) {
    *json = (bool)v.get<dap::boolean>();
  } else if''')),
M('nj-nl-loop','',(NL,'''  for (auto& it : v) {
    Nloh''','''  for (auto p = v.begin(); p != v.end(); ++p) {
    const auto& it = *p;
    Nloh''')),
M('nj-rp-int','',(RP,'''  if (json()->IsInt()) {
    *v = json()->GetInt();
    return true;
  } else if (json()->IsUint()) {
    *v = static_cast<int64_t>(json()->GetUint());
    return true;
  } else if (json()->IsInt64()) {''','''  if (json()->IsInt64()) {''')),
M('nj-rp-local','',(RP,'''  if (!json()->IsNumber()) {
    return false;
  }
  *v = json()->GetDouble();''','''  const auto* j = json();
  if (!j->IsNumber()) {
    return false;
  }
  const double d = j->GetDouble();
  *v = d;''')),
M('nj-rp-iter','',(RP,'''  for (uint32_t i = 0; i < json()->Size(); i++) {
    RapidDeserializer d(&(*json())[i]);
    if''','''  for (auto it = json()->Begin(); it != json()->End(); ++it) {
    RapidDeserializer d(it);
    if''')),
M('nj-rp-member','',(RP,'''  if (it == json()->MemberEnd()) {
    return cb(&NullDeserializer::instance);
  }
  RapidDeserializer d(&(it->value));
  return cb(&d);''','''  if (it != json()->MemberEnd()) {
    RapidDeserializer d(&(it->value));
    return cb(&d);
  }
  return cb(&NullDeserializer::instance);''')),
M('nj-rp-has','',(RP,'''  auto it = json()->FindMember(makeKey(name));
  if (it == json()->MemberEnd()) {
    return cb(&NullDeserializer::instance);
  }
  RapidDeserializer d(&(it->value));''','''  if (!json()->HasMember(makeKey(name))) {
    return cb(&NullDeserializer::instance);
  }
  RapidDeserializer d(&(*json())[makeKey(name)]);''')),
M('nj-rp-foriter','',(RP,'el != json()->MemberEnd(); el++','el != json()->MemberEnd(); ++el')),
M('nj-rp-addhelper','',(RP,'''}  // anonymous namespace''','''// memberOf() returns the member of obj called name, added if needed.
rapidjson::Value& memberOf(rapidjson::Value* obj, const std::string& name,
                           rapidjson::Document::AllocatorType& allocator) {
  auto key = makeKey(name);
  if (!obj->HasMember(key)) {
    rapidjson::Value copy(key.GetString(), key.GetStringLength(), allocator);
    obj->AddMember(copy, rapidjson::Value(), allocator);
  }
  return (*obj)[key];
}

}  // anonymous namespace'''),(RP,'''      auto key = makeKey(name);
      if (!json->HasMember(key)) {
        rapidjson::Value name_value{key.GetString(), key.GetStringLength(),
                                    allocator};
        json->AddMember(name_value, rapidjson::Value(), allocator);
      }
      rapidjson::Value& member = (*json)[key];
      RapidSerializer s(&member, allocator);
      auto res = cb(&s);
      if (s.removed) {
        json->RemoveMember(key);
      }''','''      RapidSerializer s(&memberOf(json, name, allocator), allocator);
      auto res = cb(&s);
      if (s.removed) {
        json->RemoveMember(makeKey(name));
      }''')),
M('nj-rp-setarr','',(RP,'''  if (!json()->IsArray()) {
    json()->SetArray();
  }

  while (count > json()->Size()) {
    json()->PushBack(rapidjson::Value(), allocator);
  }
''','''  json()->SetArray();
  for (size_t n = 0; n < count; n++) {
    json()->PushBack(rapidjson::Value(), allocator);
  }
''')),
M('nj-jc-it','',(JC,'''  for (const auto& value : *json) {
    JsonCppDeserializer d(&value);''','''  for (Json::ArrayIndex i = 0; i < json->size(); i++) {
    JsonCppDeserializer d(&(*json)[i]);''')),
M('nj-jc-member','',(JC,'''  auto value = json->find(name.data(), name.data() + name.size());
  if (value == nullptr) {
    return cb(&NullDeserializer::instance);
  }
  JsonCppDeserializer d(value);''','''  if (!json->isMember(name)) {
    return cb(&NullDeserializer::instance);
  }
  JsonCppDeserializer d(&(*json)[name]);''')),
M('nj-jc-type','',(JC,'''  if (!json->isBool()) {
    return false;
  }
  *v = json->asBool();''','''  if (json->type() != Json::booleanValue) {
    return false;
  }
  *v = json->asBool();''')),
M('nj-jc-names','',(JC,'''  for (auto i = json->begin(); i != json->end(); i++) {
    JsonCppDeserializer d(&*i);
    dap::any val;
    if (!d.deserialize(&val)) {
      return false;
    }
    (*v)[i.name()] = val;
  }''','''  for (const auto& key : json->getMemberNames()) {
    const Json::Value& item = (*json)[key];
    JsonCppDeserializer d(&item);
    dap::any val;
    if (!d.deserialize(&val)) {
      return false;
    }
    (*v)[key] = val;
  }''')),
M('nj-jc-append','',(JC,'''    JsonCppSerializer s(&(*json)[Json::Value::ArrayIndex(i)]);''','''    Json::Value& slot = json->append(Json::Value());
    JsonCppSerializer s(&slot);''')),
M('nj-sz-arr','',(SZ,'''  size_t i = 0;
  if (!array([&](Deserializer* d) { return d->deserialize(&(*vec)[i++]); })) {
    return false;
  }
  return true;''','''  auto it = vec->begin();
  return array([&](Deserializer* d) {
    auto& el = *it;
    ++it;
    return d->deserialize(&el);
  });''')),
M('nj-sz-ser','',(SZ,'''  auto it = vec.begin();
  return array(vec.size(), [&](Serializer* s) { return s->serialize(*it++); });''','''  size_t i = 0;
  return array(vec.size(), [&](Serializer* s) {
    const T& el = vec[i];
    i++;
    return s->serialize(el);
  });''')),
M('nj-sz-opt','',(SZ,'''  if (!opt.has_value()) {
    remove();
    return true;
  }
  return serialize(opt.value());''','''  if (opt.has_value()) {
    return serialize(opt.value());
  }
  remove();
  return true;''')),
]
