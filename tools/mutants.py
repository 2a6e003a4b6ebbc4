S='src/session.cpp'
IO='src/io.cpp'
def M(name, props, *edits, **k):
    d={'name':name,'props':props.split(),'edits':list(edits)}; d.update(k); return d
MUTANTS=[
M('seq-load','C01',(S,'int seq = nextSeq++;','int seq = nextSeq.load(); nextSeq = seq + 1;')),
M('seq-reset-start','C01',(S,'    recvThread = std::thread([this, onClose] {','    nextSeq = 1;\n    recvThread = std::thread([this, onClose] {')),
M('seq-8bit','C01',(S,'std::atomic<uint32_t> nextSeq','std::atomic<uint8_t> nextSeq')),
M('seq-dup','C01',(S,'fs->field("seq", dap::integer(nextSeq++)) &&\n                     fs->field("type", "response") &&\n                     fs->field("request_seq", sequence) &&\n                     fs->field("success", dap::boolean(false))','fs->field("seq", dap::integer(nextSeq)) &&\n                     fs->field("type", "response") &&\n                     fs->field("request_seq", sequence) &&\n                     fs->field("success", dap::boolean(false))')),
M('put-late','C01',(S,'    handlers.put(seq, responseTypeInfo, responseHandler);\n\n',''),(S,'      return false;\n    }\n    return true;\n  }\n\n  bool send(const dap::TypeInfo* typeinfo, const void* event)','      return false;\n    }\n    handlers.put(seq, responseTypeInfo, responseHandler);\n    return true;\n  }\n\n  bool send(const dap::TypeInfo* typeinfo, const void* event)')),
M('put-wrongkey','C01',(S,'handlers.put(seq, responseTypeInfo','handlers.put(seq + 1, responseTypeInfo')),
M('put-wrongti','C01',(S,'handlers.put(seq, responseTypeInfo','handlers.put(seq, requestTypeInfo')),
M('resp-bykey-seq','C01',(S,'d->field("request_seq", &requestSeq)','d->field("seq", &requestSeq)')),
M('resp-noerase','C01',(S,'      responseMap.erase(seq);\n','')),
M('resp-clear','C01',(S,'      responseMap.erase(seq);\n','      responseMap.clear();\n')),
M('resp-unknown-silent','C01 C04',(S,'      handlers.error("Unknown response with sequence %lld",\n                     static_cast<long long>(requestSeq));\n','')),
M('resp-success-default-true','C02',(S,'''      handlers.error("Response missing int 'success' field");
      dap::Error error("Response missing 'success' field");
      handler(nullptr, &error);
      return;
''','''      success = true;
''')),
M('resp-missing-msg','C02',(S,'''      if (message.empty()) {
        // An empty Error message represents success.
        message = "Request failed";
      }
''','')),
M('resp-missing-msg-return','C02',(S,'''        handlers.error("Failed to deserialize message");
      }''','''        handlers.error("Failed to deserialize message");
        return;
      }''')),
M('resp-both','C02',(S,'      handler(data.get(), nullptr);','      dap::Error none;\n      handler(data.get(), &none);')),
M('resp-body-wrong','C02',(S,'''d->field("body", [&](const dap::Deserializer* d)''','''d->field("arguments", [&](const dap::Deserializer* d)''')),
M('send-ignore-fail','C02 C06',(S,'        !send(s.dump())) {','        (send(s.dump()), false)) {')),
M('send-keep','C02',(S,'      handlers.response(seq);\n      return false;','      return false;')),
M('write-ret','C02 C06',('src/content_stream.cpp','return writer->write(header.data(), header.size()) &&\n         writer->write(msg.data(), msg.size());','writer->write(header.data(), header.size());\n  return writer->write(msg.data(), msg.size());')),
M('cb-wrong-seq','C03',(S,'''                     fs->field("request_seq", sequence) &&
                     fs->field("success", dap::boolean(false)) &&''','''                     fs->field("request_seq", dap::integer(nextSeq)) &&
                     fs->field("success", dap::boolean(false)) &&''')),
M('cb-success-true','C03',(S,'dap::boolean(false)','dap::boolean(true)')),
M('cb-no-command','C03',(S,'''                     fs->field("command", command) &&
                     fs->field("message", error.message);''','''                     fs->field("message", error.message);''')),
M('sent-early','C03',(S,'''            send(s.dump());

            if (auto handler = handlers.responseSent(typeinfo)) {
              handler(nullptr, &error);
            }''','''            if (auto handler = handlers.responseSent(typeinfo)) {
              handler(nullptr, &error);
            }
            send(s.dump());''')),
M('sent-twice','C03',(S,'''              handler(data, nullptr);
''','''              handler(data, nullptr);
              handler(data, nullptr);
''')),
M('sent-onlyifsent','C03',(S,'''            send(s.dump());

            if (auto handler = handlers.responseSent(typeinfo)) {
              handler(nullptr, &error);
            }''','''            send(s.dump());
''')),
M('sent-err-null','C03',(S,'''handler(nullptr, &error);
            }''','''handler(nullptr, nullptr);
            }''')),
M('send-twice','C03',(S,'''            send(s.dump());

            if (auto handler = handlers.responseSent(typeinfo)) {
              handler(data''','''            if (!send(s.dump())) send(s.dump());

            if (auto handler = handlers.responseSent(typeinfo)) {
              handler(data''')),
M('no-seq-check','C04',(S,'''    if (!d.field("seq", &sequence)) {
      handlers.error("Message missing number 'seq' field");
      return {};
    }
''','''    d.field("seq", &sequence);
''')),
M('unknown-type-silent','C04',(S,'''      handlers.error("Unknown message type '%s'", type.c_str());
''','')),
M('args-ignored','C04',(S,'''      handlers.error("Failed to deserialize request");
      typeinfo->destruct(data);
      delete[] data;
      return {};
''','''      handlers.error("Failed to deserialize request");
''')),
M('event-body-ignored','C04',(S,'''        body_ok = false;''','''        handlers.error("Failed");''')),
M('replace-handler','C04',(S,'''      auto added =
          eventMap.emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
              .second;''','''      bool added = eventMap.count(typeinfo->name()) == 0;
      eventMap[typeinfo->name()] = std::make_pair(typeinfo, handler);''')),
M('noreport-dup','C04',(S,'''        error("Response sent handler for '%s' already registered",
              typeinfo->name().c_str());''','')),
M('fmt-dynamic','C30',(S,"""handlers.error("Unknown message type '%s'", type.c_str());""",'handlers.error(type.c_str());')),
M('fmt-error-ctor','C30',(S,'auto error = dap::Error(message);','dap::Error error(message.c_str());')),
M('fmt-type','C30',(S,'static_cast<long long>(requestSeq)','requestSeq')),
M('fmt-width','C30',(S,'%lld','%d')),
M('fmt-missing','C30',(S,"""handlers.error("Failed to deserialize event '%s' body", event.c_str());""","""handlers.error("Failed to deserialize event '%s' body");""")),
M('fmt-size','C30',(IO,'vsnprintf(buf, sizeof(buf), msg','vsnprintf(buf, 4096, msg')),
M('fmt-vsprintf','C30',(IO,'vsnprintf(buf, sizeof(buf), msg','vsprintf(buf, msg')),
M('fmt-len','C30',(IO,'  vsnprintf(buf, sizeof(buf), msg, vararg);','  int len = vsnprintf(buf, sizeof(buf), msg, vararg);'),(IO,'w->write(buf, strlen(buf))','w->write(buf, len)')),
M('fmt-len2','C30',(IO,'  vsnprintf(buf, sizeof(buf), msg, vararg);','  int len = vsnprintf(buf, sizeof(buf), msg, vararg);'),(IO,'w->write(buf, strlen(buf))','len > 0 && w->write(buf, len)')),
]
CS='src/content_stream.cpp'
CH='src/content_stream.h'
NEUTRAL=[
M('helper-free-data','',(S,"""      handlers.error("Failed to deserialize request");
      typeinfo->destruct(data);
      delete[] data;
      return {};""","""      handlers.error("Failed to deserialize request");
      release(typeinfo, data);
      return {};"""),(S,"""      handlers.error("Failed to deserialize event '%s' body", event.c_str());
      typeinfo->destruct(data);
      delete[] data;""","""      release(typeinfo, data);
      handlers.error("Failed to deserialize event '%s' body", event.c_str());"""),
 (S,'  Payload processMessage(const std::string& str) {','''  static void release(const dap::TypeInfo* ti, uint8_t* p) {
    ti->destruct(p);
    delete[] p;
  }

  Payload processMessage(const std::string& str) {''')),
M('helper-response','',(S,"""            dap::json::Serializer s;
            s.object([&](dap::FieldSerializer* fs) {
              return fs->field("seq", dap::integer(nextSeq++)) &&
                     fs->field("type", "response") &&
                     fs->field("request_seq", sequence) &&
                     fs->field("success", dap::boolean(true)) &&
                     fs->field("command", command) &&
                     fs->field("body", [&](dap::Serializer* s) {
                       return typeinfo->serialize(s, data);
                     });
            });
            send(s.dump());

            if (auto handler = handlers.responseSent(typeinfo)) {
              handler(data, nullptr);
            }""","""            sendOk(typeinfo, data, sequence, command);"""),
 (S,'  Payload processEvent(dap::json::Deserializer* d) {',"""  void sendOk(const dap::TypeInfo* ti, const void* d, dap::integer seqno, const std::string& cmd) {
    dap::json::Serializer s;
    s.object([&](dap::FieldSerializer* fs) {
      if (!fs->field("seq", dap::integer(nextSeq++))) return false;
      if (!fs->field("type", "response")) return false;
      if (!fs->field("request_seq", seqno)) return false;
      if (!fs->field("success", dap::boolean(true))) return false;
      if (!fs->field("command", cmd)) return false;
      return fs->field("body", [&](dap::Serializer* s2) { return ti->serialize(s2, d); });
    });
    const std::string out = s.dump();
    send(out);
    auto h = handlers.responseSent(ti);
    if (!h) return;
    h(d, nullptr);
  }

  Payload processEvent(dap::json::Deserializer* d) {""")),
M('early-return-types','',(S,"""    if (type == "request") {
      return processRequest(&d, sequence);
    } else if (type == "event") {
      return processEvent(&d);
    } else if (type == "response") {
      processResponse(&d);
      return {};
    } else {
      handlers.error("Unknown message type '%s'", type.c_str());
    }

    return {};""","""    Payload out;
    if (type == "response") {
      processResponse(&d);
    } else if (type == "event") {
      out = processEvent(&d);
    } else if (type == "request") {
      out = processRequest(&d, sequence);
    } else {
      handlers.error("Unknown message type '%s'", type.c_str());
    }
    return out;""")),
M('lock-guard','',(S,"""      std::unique_lock<std::mutex> lock(requestMutex);
      auto it = requestMap.find(name);
      return (it != requestMap.end()) ? it->second : decltype(it->second){};""","""      std::lock_guard<std::mutex> guard(requestMutex);
      const auto found = requestMap.find(name);
      if (found == requestMap.end()) {
        return {};
      }
      return found->second;""")),
M('std-map','',(S,'std::unordered_map<int64_t,','std::map<int64_t,'),(S,'#include <unordered_map>','#include <map>\n#include <unordered_map>')),
M('erase-it','',(S,'responseMap.erase(seq);','responseMap.erase(responseIt);')),
M('insert','',(S,'responseMap.emplace(seq, std::make_pair(typeinfo, handler)).second;','responseMap.insert({seq, std::make_pair(typeinfo, handler)}).second;')),
M('put-find','',(S,"""      auto added =
          eventMap.emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
              .second;""","""      const bool added = eventMap.find(typeinfo->name()) == eventMap.end();
      if (added) {
        eventMap[typeinfo->name()] = std::make_pair(typeinfo, handler);
      }""")),
M('count-put','',(S,"""      auto added =
          eventMap.emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
              .second;""","""      const bool added = eventMap.count(typeinfo->name()) == 0;
      if (added) {
        eventMap.insert(std::make_pair(typeinfo->name(), std::make_pair(typeinfo, handler)));
      }""")),
M('rename-members','',(S,'recvThread','receiver'),(S,'dispatchThread','dispatcher'),(S,'responseMap','pending'),(S,'inbox','queue_'),n=100),
M('recv-method','',(S,"""    recvThread = std::thread([this, onClose] {
      while (reader.isOpen()) {
        if (auto payload = getPayload()) {
          inbox.put(std::move(payload));
        }
      }
      if (onClose) {
        onClose();
      }
    });

    dispatchThread = std::thread([this] {
      while (auto payload = inbox.take()) {
        payload.value()();
      }
    });
  }""","""    recvThread = std::thread(&Impl::receive, this, onClose);
    dispatchThread = std::thread([this] { dispatch(); });
  }

  void receive(ClosedHandler onClose) {
    for (;;) {
      if (!reader.isOpen()) {
        break;
      }
      auto payload = getPayload();
      if (!payload) {
        continue;
      }
      inbox.put(payload);
    }
    if (onClose) {
      onClose();
    }
  }

  void dispatch() {
    for (;;) {
      auto payload = inbox.take();
      if (!payload.has_value()) {
        return;
      }
      (*payload)();
    }
  }""")),
M('recv-lambda-method','',(S,"""      while (reader.isOpen()) {
        if (auto payload = getPayload()) {
          inbox.put(std::move(payload));
        }
      }
      if (onClose) {
        onClose();
      }
    });
""","""      receiveAll();
      if (onClose) {
        onClose();
      }
    });
"""),(S,' private:\n  using Payload',""" private:
  void receiveAll() {
    bool open = reader.isOpen();
    while (open) {
      auto payload = getPayload();
      if (payload) {
        inbox.put(std::move(payload));
      }
      open = reader.isOpen();
    }
  }

  using Payload""")),
M('dtor-helper','',(S,"""    if (recvThread.joinable()) {
      recvThread.join();
    }
    if (dispatchThread.joinable()) {
      dispatchThread.join();
    }""","""    finish(recvThread);
    finish(dispatchThread);"""),(S,' private:\n  using Payload',""" private:
  static void finish(std::thread& t) {
    if (!t.joinable()) return;
    t.join();
  }
  using Payload""")),
M('dtor-loop','',(S,"""    if (recvThread.joinable()) {
      recvThread.join();
    }
    if (dispatchThread.joinable()) {
      dispatchThread.join();
    }""","""    for (auto* t : {&dispatchThread, &recvThread}) {
      if (t->joinable()) t->join();
    }""")),
M('dtor-reorder','',(S,"""    inbox.close();
    reader.close();
    writer.close();""","""    writer.close();
    inbox.close();
    reader.close();""")),
M('unique-ptr-array','',(S,"""    auto data = new uint8_t[typeinfo->size()];
    typeinfo->construct(data);

    // "body" is""","""    std::shared_ptr<uint8_t> holder(new uint8_t[typeinfo->size()], std::default_delete<uint8_t[]>());
    uint8_t* data = holder.get();
    typeinfo->construct(data);

    // "body" is"""),(S,"""      typeinfo->destruct(data);
      delete[] data;
      return {};
    }

    return [=] {
      handler(data);
      typeinfo->destruct(data);
      delete[] data;
    };""","""      typeinfo->destruct(data);
      return {};
    }

    return [=] {
      handler(holder.get());
      typeinfo->destruct(holder.get());
    };""")),
M('response-raw-new','',(S,"""      auto data = std::unique_ptr<uint8_t[]>(new uint8_t[typeinfo->size()]);
      typeinfo->construct(data.get());""","""      std::vector<uint8_t> storage(typeinfo->size());
      uint8_t* data = storage.data();
      typeinfo->construct(data);"""),(S,'return typeinfo->deserialize(d, data.get());','return typeinfo->deserialize(d, data);'),(S,"""      handler(data.get(), nullptr);
      typeinfo->destruct(data.get());""","""      handler(data, nullptr);
      typeinfo->destruct(data);""")),
M('pair-vars','',(S,"""    const dap::TypeInfo* typeinfo;
    GenericResponseHandler handler;
    std::tie(typeinfo, handler) = handlers.response(requestSeq);
    if (!typeinfo) {""","""    auto entry = handlers.response(requestSeq);
    const dap::TypeInfo* typeinfo = entry.first;
    GenericResponseHandler handler = entry.second;
    if (typeinfo == nullptr) {""")),
M('invert-success','',(S,"""    if (success) {
      auto data = std""","""    const bool ok = success;
    if (ok == true) {
      auto data = std""")),
M('msg-ternary','',(S,"""      if (message.empty()) {
        // An empty Error message represents success.
        message = "Request failed";
      }
      auto error = dap::Error(message);
      handler(nullptr, &error);""","""      const dap::Error failure(message.size() == 0 ? std::string("Request failed") : message);
      handler(nullptr, &failure);""")),
M('seq-helper','',(S,'dap::integer(nextSeq++)','dap::integer(takeSeq())'),(S,'int seq = nextSeq++;','const int seq = takeSeq();'),(S,'  Payload processMessage(',"""  uint32_t takeSeq() { return nextSeq.fetch_add(1); }

  Payload processMessage("""),n=9),
M('content-single-write','',(CS,"""  return writer->write(header.data(), header.size()) &&
         writer->write(msg.data(), msg.size());""","""  header += msg;
  return writer->write(header.data(), header.size());""")),
M('content-if','',(CS,"""  return writer->write(header.data(), header.size()) &&
         writer->write(msg.data(), msg.size());""","""  if (!writer->write(header.c_str(), header.length())) {
    return false;
  }
  return writer->write(msg.c_str(), msg.length());""")),
M('send-guard','',(S,"""    std::unique_lock<std::mutex> lock(sendMutex);
    if (!writer.isOpen()) {
      lock.unlock();
      handlers.error("Send failed as the writer is closed");
      return false;
    }
    return writer.write(s);""","""    {
      std::lock_guard<std::mutex> guard(sendMutex);
      if (writer.isOpen()) {
        const bool written = writer.write(s);
        return written;
      }
    }
    handlers.error("Send failed as the writer is closed");
    return false;""")),
M('buffer-loop','',(CS,"""    for (size_t i = 0; i < numGot; i++) {
      buf.push_back(chunk[i]);
    }
    bytes -= numGot;""","""    buf.insert(buf.end(), chunk, chunk + numGot);
    bytes -= numGot;""")),
M('buffer-restructured','',(CS,"""  if (bytes < buf.size()) {
    return true;
  }
  bytes -= buf.size();
  while (bytes > 0) {
    uint8_t chunk[256];
    auto numWant = std::min(sizeof(chunk), bytes);""","""  uint8_t chunk[256];
  while (buf.size() < bytes) {
    const size_t missing = bytes - buf.size();
    const size_t numWant = missing < sizeof(chunk) ? missing : sizeof(chunk);"""),(CS,"""    bytes -= numGot;
""","")),
M('getpayload-flat','',(S,"""    if (request.size() > 0) {
      if (auto payload = processMessage(request)) {
        return payload;
      }
    }
    return {};""","""    if (request.empty()) {
      return {};
    }
    return processMessage(request);""")),
M('bound-cas','',(S,"""    if (isBound.exchange(true)) {""","""    bool expected = false;
    if (!isBound.compare_exchange_strong(expected, true)) {""")),
M('vectors-of-reports','',(S,"""    if (!d.field("type", &type)) {
      handlers.error("Message missing string 'type' field");
      return {};
    }

    dap::integer sequence = 0;
    if (!d.field("seq", &sequence)) {
      handlers.error("Message missing number 'seq' field");
      return {};
    }
""","""    dap::integer sequence = 0;
    const char* missing = nullptr;
    if (!d.field("type", &type)) {
      missing = "Message missing string 'type' field";
    } else if (!d.field("seq", &sequence)) {
      missing = "Message missing number 'seq' field";
    }
    if (missing != nullptr) {
      handlers.error("%s", missing);
      return {};
    }
""")),
M('event-optional-flag','',(S,"""    bool body_ok = true;
    d->field("body", [&](dap::Deserializer* d) {
      if (!typeinfo->deserialize(d, data)) {
        body_ok = false;
      }
      return true;
    });
""","""    bool body_ok = true;
    d->field("body", [&](dap::Deserializer* body) {
      body_ok = typeinfo->deserialize(body, data);
      return body_ok;
    });
""")),
M('named-lambda','',(S,"""    return [=] {
      handler(data);
      typeinfo->destruct(data);
      delete[] data;
    };""","""    auto run = [handler, typeinfo, data]() {
      handler(data);
      typeinfo->destruct(data);
      delete[] data;
    };
    return run;""")),
M('struct-entry','',(S,"""    std::unordered_map<const dap::TypeInfo*, GenericResponseSentHandler>
        responseSentMap;""","""    using SentMap = std::unordered_map<const dap::TypeInfo*, GenericResponseSentHandler>;
    SentMap responseSentMap;"""),(S,"""      auto it = responseSentMap.find(typeinfo);
      return (it != responseSentMap.end()) ? it->second
                                           : decltype(it->second){};""","""      GenericResponseSentHandler out;
      SentMap::const_iterator it = responseSentMap.find(typeinfo);
      if (it != responseSentMap.end()) out = it->second;
      return out;""")),
]
import mutants_conc
MUTANTS += mutants_conc.MUTANTS
NEUTRAL += mutants_conc.NEUTRAL
import mutants_wake
MUTANTS += mutants_wake.MUTANTS
NEUTRAL += mutants_wake.NEUTRAL
import mutants_prims
MUTANTS += mutants_prims.MUTANTS
NEUTRAL += mutants_prims.NEUTRAL
import mutants_streams
MUTANTS += mutants_streams.MUTANTS
NEUTRAL += mutants_streams.NEUTRAL
import mutants_net
MUTANTS += mutants_net.MUTANTS
NEUTRAL += mutants_net.NEUTRAL
import mutants_values
MUTANTS += mutants_values.MUTANTS
NEUTRAL += mutants_values.NEUTRAL
import mutants_front
MUTANTS += mutants_front.MUTANTS
NEUTRAL += mutants_front.NEUTRAL
import mutants_types
MUTANTS += mutants_types.MUTANTS
NEUTRAL += mutants_types.NEUTRAL
import mutants_json
MUTANTS += mutants_json.MUTANTS
NEUTRAL += mutants_json.NEUTRAL
import mutants_frames
MUTANTS += mutants_frames.MUTANTS
NEUTRAL += mutants_frames.NEUTRAL
import mutants_sess
MUTANTS += mutants_sess.MUTANTS
NEUTRAL += mutants_sess.NEUTRAL
import mutants_misc
MUTANTS += mutants_misc.MUTANTS
import mutants_any
MUTANTS += mutants_any.MUTANTS
NEUTRAL += mutants_any.NEUTRAL
mutants_any.anyfix(MUTANTS + NEUTRAL)
for _n in ('any-no-selfassign', 'any-no-selfmove', 'any-moveas-heap-left'):     # harmless since the repair
    NEUTRAL += [m for m in MUTANTS if m['name'] == _n]
    MUTANTS = [m for m in MUTANTS if m['name'] != _n]
NEUTRAL = [m for m in NEUTRAL if m['name'] != 'nv-any-helper']      # would recurse since the repair
import mutants_io2
MUTANTS += mutants_io2.MUTANTS
