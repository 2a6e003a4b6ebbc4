S='src/session.cpp'
CS='src/content_stream.cpp'
def M(name, props, *edits, **k):
    d={'name':name,'props':props.split(),'edits':list(edits)}; d.update(k); return d
REQ_FREE='''          });
      typeinfo->destruct(data);
      delete[] data;
    };
  }
'''
REQ_BAD='''      handlers.error("Failed to deserialize request");
      typeinfo->destruct(data);
      delete[] data;
      return {};
'''
EV_BAD='''      handlers.error("Failed to deserialize event '%s' body", event.c_str());
      typeinfo->destruct(data);
      delete[] data;
      return {};
'''
EV_RET='''    return [=] {
      handler(data);
      typeinfo->destruct(data);
      delete[] data;
    };
'''
RESP='''      handler(data.get(), nullptr);
      typeinfo->destruct(data.get());
'''
SUC='[=](const dap::TypeInfo* typeinfo, const void* data) {\n            // onSuccess'
ERR='[=](const dap::TypeInfo* typeinfo, const dap::Error& error) {\n            // onError'
RECV='''      while (reader.isOpen()) {
        if (auto payload = getPayload()) {
          inbox.put(std::move(payload));
        }
      }
      if (onClose) {
        onClose();
      }
'''
DTOR='''    inbox.close();
    reader.close();
    writer.close();
    if (recvThread.joinable()) {
      recvThread.join();
    }
    if (dispatchThread.joinable()) {
      dispatchThread.join();
    }
'''
DISP='''      while (auto payload = inbox.take()) {
        payload.value()();
      }
'''
SEND='''    std::unique_lock<std::mutex> lock(sendMutex);
    if (!writer.isOpen()) {
      lock.unlock();
      handlers.error("Send failed as the writer is closed");
      return false;
    }
    return writer.write(s);
'''
WR='''  return writer->write(header.data(), header.size()) &&
         writer->write(msg.data(), msg.size());
'''
ALLOC='''    auto data = new uint8_t[typeinfo->size()];
    typeinfo->construct(data);
'''
MUTANTS=[
# C05
M('ss5-req-nodestruct','C05',(S,REQ_FREE,REQ_FREE.replace('      typeinfo->destruct(data);\n',''))),
M('ss5-req-noleak','C05',(S,REQ_FREE,REQ_FREE.replace('      delete[] data;\n',''))),
M('ss5-req-order','C05',(S,REQ_FREE,REQ_FREE.replace('      typeinfo->destruct(data);\n      delete[] data;\n','      delete[] data;\n      typeinfo->destruct(data);\n'))),
M('ss5-reqbad-nodestruct','C05',(S,REQ_BAD,REQ_BAD.replace('      typeinfo->destruct(data);\n',''))),
M('ss5-reqbad-leak','C05',(S,REQ_BAD,REQ_BAD.replace('      delete[] data;\n',''))),
M('ss5-reqbad-return','C05',(S,REQ_BAD,REQ_BAD.replace('      delete[] data;\n','      delete[] data;\n      typeinfo->destruct(data);\n'))),
M('ss5-evbad-leak','C05',(S,EV_BAD,EV_BAD.replace('      delete[] data;\n',''))),
M('ss5-evbad-continue','C05 C04',(S,EV_BAD,EV_BAD.replace('      return {};\n',''))),
M('ss5-ev-free-first','C05',(S,EV_RET,EV_RET.replace('      handler(data);\n      typeinfo->destruct(data);\n','      typeinfo->destruct(data);\n      handler(data);\n'))),
M('ss5-ev-early-free','C05',(S,EV_RET,'    typeinfo->destruct(data);\n'+EV_RET.replace('      typeinfo->destruct(data);\n',''))),
M('ss5-ev-ref','C05',(S,EV_RET,EV_RET.replace('[=] {','[&] {'))),
M('ss5-ev-ref-handler','C05',(S,EV_RET,EV_RET.replace('[=] {','[=, &handler] {'))),
M('ss5-cb-ref','C05',(S,SUC,SUC.replace('[=]','[&]'))),
M('ss5-cb-ref-seq','C05',(S,'    return [=] {\n      handler(\n          data,','    return [=, &sequence] {\n      handler(\n          data,')),
M('ss5-cb-ref-err','C05',(S,ERR,ERR.replace('[=]','[&, this]'))),
M('ss5-size-ptr','C05',(S,'auto data = new uint8_t[typeinfo->size()];','auto data = new uint8_t[sizeof(typeinfo)];')),
M('ss5-size-align','C05',(S,'auto data = new uint8_t[typeinfo->size()];','auto data = new uint8_t[typeinfo->alignment()];')),
M('ss5-noconstruct','C05',(S,ALLOC,'    auto data = new uint8_t[typeinfo->size()]();\n')),
M('ss5-construct-late','C05',(S,'    typeinfo->construct(data);\n\n    if (!d->field("arguments"','    if (!d->field("arguments"'),(S,'    return [=] {\n      handler(\n          data,','    typeinfo->construct(data);\n    return [=] {\n      handler(\n          data,')),
M('ss5-resp-nodestruct','C05',(S,RESP,'      handler(data.get(), nullptr);\n')),
M('ss5-resp-destruct-first','C05',(S,RESP,'      typeinfo->destruct(data.get());\n      handler(data.get(), nullptr);\n')),
M('ss5-resp-release','C05',(S,RESP,'      handler(data.get(), nullptr);\n      typeinfo->destruct(data.release());\n')),
M('ss5-resp-reset','C05',(S,RESP,'      auto p = data.get();\n      data.reset();\n      handler(p, nullptr);\n      typeinfo->destruct(p);\n')),
M('ss5-resp-half','C05',(S,'new uint8_t[typeinfo->size()]);','new uint8_t[typeinfo->size() / 2]);')),
M('ss5-resp-noconstruct','C05',(S,'      typeinfo->construct(data.get());\n','')),
M('ss5-resp-early-return','C05',(S,'''      d->field("body", [&](const dap::Deserializer* d) {
        return typeinfo->deserialize(d, data.get());
      });
''','''      bool present = false;
      bool ok = d->field("body", [&](const dap::Deserializer* d) {
        present = true;
        return typeinfo->deserialize(d, data.get());
      });
      if (present && !ok) {
        dap::Error error("Failed to deserialize response body");
        handler(nullptr, &error);
        return;
      }
''')),
M('ss5-req-delete-scalar','C05',(S,'''          });
      typeinfo->destruct(data);
      delete[] data;''','''          });
      typeinfo->destruct(data);
      delete data;''')),
M('ss5-ev-unique-noarr','C05',(S,'    bool body_ok = true;','    std::shared_ptr<uint8_t> hold(data);\n    bool body_ok = true;')),
M('ss5-destruct-in-cb','C05',(S,'            if (auto handler = handlers.responseSent(typeinfo)) {\n              handler(nullptr, &error);\n            }\n','            if (auto handler = handlers.responseSent(typeinfo)) {\n              handler(nullptr, &error);\n            }\n            delete[] data;\n')),
# C06
M('ss6-nolock','C06',(S,'    std::unique_lock<std::mutex> lock(sendMutex);\n    if (!writer.isOpen()) {\n      lock.unlock();','    if (!writer.isOpen()) {')),
M('ss6-lock-check-only','C06',(S,SEND,SEND.replace('    return writer.write(s);','    lock.unlock();\n    return writer.write(s);'))),
M('ss6-static-lock','C06',(S,'std::unique_lock<std::mutex> lock(sendMutex);\n    if (!w','std::mutex m;\n    std::unique_lock<std::mutex> lock(m);\n    if (!w')),
M('ss6-temp-lock','C06',(S,'std::unique_lock<std::mutex> lock(sendMutex);\n    if (!w','std::unique_lock<std::mutex> lock(sendMutex, std::try_to_lock);\n    if (!w')),
M('ss6-nocheck','C06',(S,SEND,'    std::unique_lock<std::mutex> lock(sendMutex);\n    return writer.write(s);\n')),
M('ss6-ret-true','C06',(S,SEND,SEND.replace('return writer.write(s);','writer.write(s);\n    return true;'))),
M('ss6-closed-true','C06',(S,SEND,SEND.replace('return false','return true'))),
M('ss6-len','C06',(CS,'std::to_string(msg.size()) + "','std::to_string(msg.length() + 1) + "')),
M('ss6-u16','C06',(CS,'std::to_string(msg.size()) + "','std::to_string(static_cast<uint16_t>(msg.size())) + "')),
M('ss6-or','C06',(CS,WR,WR.replace('&&','||'))),
M('ss6-first','C06',(CS,WR,'  bool ok = writer->write(header.data(), header.size());\n  writer->write(msg.data(), msg.size());\n  return ok;\n')),
M('ss6-second','C06',(CS,WR,'  writer->write(header.data(), header.size());\n  return writer->write(msg.data(), msg.size());\n')),
M('ss6-nl','C06',(CS,'+ "\\r\\n\\r\\n";','+ "\\r\\n";')),
M('ss6-lf','C06',(CS,'+ "\\r\\n\\r\\n";','+ "\\n\\n";')),
M('ss6-chunk','C06',(CS,WR,'''  if (!writer->write(header.data(), header.size())) {
    return false;
  }
  const size_t kChunk = 65536;
  for (size_t i = 0; i + kChunk <= msg.size(); i += kChunk) {
    if (!writer->write(msg.data() + i, kChunk)) {
      return false;
    }
  }
  return msg.size() % kChunk == 0 ||
         writer->write(msg.data() + msg.size() - kChunk, kChunk);
''')),
M('ss6-nulterm','C06',(CS,'writer->write(header.data(), header.size()) &&','writer->write(header.c_str(), header.size() + 1) &&')),
M('ss6-ev-encfail','C06',(S,'''                   return typeinfo->serialize(s, event);
                 });
        })) {
      return false;
    }
''','''                   return typeinfo->serialize(s, event);
                 });
        })) {
      handlers.error("Failed to serialize event");
    }
''')),
M('ss6-req-encfail','C06 C02',(S,'''        }) ||
        !send(s.dump())) {''','''        }) &&
        !send(s.dump())) {''')),
M('ss6-isopen-true','C06',(CS,'return writer ? writer->isOpen() : false;','return writer != nullptr;')),
M('ss6-close-noop','C10',(CS,'''void ContentWriter::close() {
  if (writer) {
    writer->close();
  }''','''void ContentWriter::close() {
  if (writer && writer->isOpen()) {
    writer.reset();
  }''')),
# C09
M('ss9-close-before','C09',(S,RECV,RECV.replace('      while (reader.isOpen()) {\n        if (auto payload = getPayload()) {\n','      while (reader.isOpen()) {\n        if (auto payload = getPayload()) {\n').replace('''      if (onClose) {
        onClose();
      }
''','').replace('      while (reader','''      struct Notify {
        const ClosedHandler& h;
        ~Notify() {}
      } n{onClose};
      while (reader'''))),
M('ss9-noclose','C09',(S,RECV,RECV.replace('      if (onClose) {\n        onClose();\n      }\n',''))),
M('ss9-close-null','C09',(S,RECV,RECV.replace('      if (onClose) {\n        onClose();\n      }\n','      onClose();\n'))),
M('ss9-close-twice','C09',(S,DISP,DISP+'      if (closed) closed();\n'),(S,'dispatchThread = std::thread([this] {','auto closed = onClose;\n    dispatchThread = std::thread([this, closed] {')),
M('ss9-close-inloop','C09',(S,RECV,'''      while (reader.isOpen()) {
        if (auto payload = getPayload()) {
          inbox.put(std::move(payload));
        } else if (!reader.isOpen() && onClose) {
          onClose();
        }
      }
''')),
M('ss9-close-if-open','C09',(S,RECV,RECV.replace('if (onClose) {','if (onClose && !shutdown) {')),(S,'    inbox.close();\n    reader.close();','    shutdown = true;\n    inbox.close();\n    reader.close();')),
M('ss9-recheck-drop','C09',(S,RECV,RECV.replace('        if (auto payload = getPayload()) {','        auto payload = getPayload();\n        if (payload && reader.isOpen()) {'))),
M('ss9-break-empty','C09',(S,RECV,RECV.replace('          inbox.put(std::move(payload));\n        }','          inbox.put(std::move(payload));\n        } else {\n          break;\n        }'))),
M('ss9-true','C09',(S,RECV,RECV.replace('while (reader.isOpen())','while (!shutdown)'))),
M('ss9-inline','C09',(S,RECV,RECV.replace('          inbox.put(std::move(payload));','          payload();'))),
M('ss9-disp-twice','C09',(S,DISP,DISP.replace('payload.value()();','payload.value()();\n        if (shutdown) payload.value()();'))),
M('ss9-disp-stop','C09',(S,DISP,'''      while (auto payload = inbox.take()) {
        if (!reader.isOpen()) break;
        payload.value()();
      }
''')),
M('ss9-disp-skip','C09',(S,DISP,'''      while (auto payload = inbox.take()) {
        if (reader.isOpen()) {
          payload.value()();
        }
      }
''')),
M('ss9-disp-one','C09',(S,DISP,DISP.replace('while (auto','if (auto'))),
M('ss9-inbox-close','C09',(S,RECV,RECV+'      inbox.reset();\n')),
M('ss9-onclose-close-inbox-first','C09',(S,RECV,'      auto first = getPayload();\n'+RECV)),
M('ss9-eof-ignored','C09',(CS,'return reader ? !eof && reader->isOpen() : false;','return reader ? reader->isOpen() : false;')),
M('ss9-eof-noset','C09',(CS,'      eof = true;\n','      eof = buf.empty();\n')),
M('ss9-eof-partial','C09',(CS,'      eof = true;\n','      eof = !reader->isOpen();\n')),
M('ss9-detach','C10',(S,DTOR,DTOR.replace('recvThread.join();','recvThread.detach();'))),
M('ss9-payload-msg-drop','C09',(S,'    if (request.size() > 0) {','    if (request.size() > 2 && reader.isOpen()) {')),
# C10
M('ss10-nojoin-recv','C10',(S,DTOR,DTOR.replace('    if (recvThread.joinable()) {\n      recvThread.join();\n    }\n',''))),
M('ss10-join-first','C10',(S,DTOR,'''    if (recvThread.joinable()) {
      recvThread.join();
    }
    inbox.close();
    reader.close();
    writer.close();
    if (dispatchThread.joinable()) {
      dispatchThread.join();
    }
''')),
M('ss10-noinbox','C10',(S,DTOR,DTOR.replace('    inbox.close();\n',''))),
M('ss10-noreader','C10',(S,DTOR,DTOR.replace('    reader.close();\n',''))),
M('ss10-inbox-late','C10',(S,DTOR,DTOR.replace('    inbox.close();\n','').replace('      recvThread.join();\n    }\n','      recvThread.join();\n      inbox.close();\n    }\n'))),
M('ss10-inbox-late-ok-dispatch-first','C10',(S,DTOR,'''    inbox.close();
    if (dispatchThread.joinable()) {
      dispatchThread.join();
    }
    reader.close();
    writer.close();
    if (recvThread.joinable()) {
      recvThread.join();
    }
''')),
M('ss10-join-cond','C10',(S,DTOR,DTOR.replace('if (dispatchThread.joinable())','if (dispatchThread.joinable() && isBound)'))),
M('ss10-join-wrong','C10',(S,DTOR,DTOR.replace('if (dispatchThread.joinable())','if (recvThread.joinable())'))),
M('ss10-reader-cond','C10',(S,DTOR,DTOR.replace('    reader.close();\n','    if (!reader.isOpen()) reader.close();\n'))),
M('ss10-start-twice','C10',(S,'''      handlers.error("Session::startProcessingMessages() called twice");
      return;
''','''      handlers.error("Session::startProcessingMessages() called twice");
''')),
M('ss10-start-silent','C10',(S,'''      handlers.error("Session::startProcessingMessages() called twice");
''','')),
M('ss10-connect-silent','C10',(S,'''      handlers.error("Session::connect called twice");
''','')),
M('ss10-connect-through','C10',(S,'''      handlers.error("Session::connect called twice");
      return;
''','''      handlers.error("Session::connect called twice");
''')),
M('ss10-connect-wronggate','C10',(S,'if (isBound.exchange(true)) {','if (isProcessingMessages) {')),
M('ss10-connect-noset','C10',(S,'if (isBound.exchange(true)) {','if (isBound.exchange(reader.isOpen())) {')),
M('ss10-connect-racy','C10',(S,'    if (isBound.exchange(true)) {','    if (isBound.load()) {'),(S,'    reader = dap::ContentReader(r','    isBound = true;\n    reader = dap::ContentReader(r')),
M('ss10-start-racy','C10',(S,'if (isProcessingMessages.exchange(true)) {','if (isProcessingMessages) {'),(S,'    recvThread = std::thread([','    isProcessingMessages = true;\n    recvThread = std::thread([')),
M('ss10-restart','C10',(S,RECV,RECV+'      isProcessingMessages = false;\n')),
M('ss10-reader-close-noop','C10',(CS,'''void ContentReader::close() {
  if (reader) {
    reader->close();''','''void ContentReader::close() {
  if (reader && !eof) {
    eof = true;''')),
M('ss10-dispatch-detach','C10',(S,'    dispatchThread = std::thread([this] {','    std::thread worker([this] {'),(S,DISP+'    });\n',DISP+'    });\n    worker.detach();\n')),
# C01/C02/C03/C04
M('ss1-int16','C01',(S,'    void put(int seq,\n','    void put(int16_t seq,\n')),
M('ss1-resp-int','C01',(S,'response(\n        int64_t seq) {','response(\n        int seq) {')),
M('ss1-seq-cond','C01',(S,'int seq = nextSeq++;','int seq = nextSeq;\n    if (responseHandler) {\n      nextSeq++;\n    }')),
M('ss1-seq-fixed','C01',(S,'fs->field("seq", dap::integer(nextSeq++)) &&\n                 fs->field("type", "event")','fs->field("seq", dap::integer(nextSeq + 1)) &&\n                 fs->field("type", "event")')),
M('ss1-seq-twice','C01',(S,'return fs->field("seq", dap::integer(seq)) &&','return fs->field("seq", dap::integer(nextSeq++)) &&')),
M('ss1-seq-req','C01',(S,'fs->field("seq", dap::integer(nextSeq++)) &&\n                     fs->field("type", "response")','fs->field("seq", sequence) &&\n                     fs->field("type", "response")')),
M('ss1-erase-late','C01',(S,'''      auto out = std::move(responseIt->second);
      responseMap.erase(seq);
      return out;
''','''      auto out = responseIt->second;
      lock.unlock();
      lock.lock();
      responseMap.erase(seq);
      return out;
''')),
M('ss1-fallback','C01',(S,'''      if (responseIt == responseMap.end()) {
        return {};
      }
''','''      if (responseIt == responseMap.end()) {
        if (responseMap.size() != 1) {
          return {};
        }
        responseIt = responseMap.begin();
      }
''')),
M('ss2-noclean-send','C02',(S,'''        }) ||
        !send(s.dump())) {
      // There will be no response to this request.
      handlers.response(seq);
      return false;
    }
    return true;
''','''        })) {
      handlers.response(seq);
      return false;
    }
    return send(s.dump());
''')),
M('ss2-empty-message','C02',(S,'      if (message.empty()) {','      if (message.empty() && success) {')),
M('ss2-space-message','C02',(S,'message = "Request failed";','message = std::string();')),
M('ss2-success-null','C02',(S,'      dap::Error error("Response missing \'success\' field");\n      handler(nullptr, &error);\n      return;','      handler(nullptr, nullptr);\n      return;')),
M('ss2-body-fail-skip','C02',(S,'      d->field("body", [&](const dap::Deserializer* d) {\n        return typeinfo->deserialize(d, data.get());\n      });\n','      if (!d->field("body", [&](const dap::Deserializer* d) {\n            return typeinfo->deserialize(d, data.get());\n          })) {\n        handlers.error("Failed to deserialize response body");\n        typeinfo->destruct(data.get());\n        return;\n      }\n')),
M('ss3-cmd-type','C03',(S,'fs->field("command", command) &&\n                     fs->field("body"','fs->field("command", typeinfo->name()) &&\n                     fs->field("body"')),
M('ss3-nosend-serfail','C03',(S,'''                       return typeinfo->serialize(s, data);
                     });
            });
            send(s.dump());
''','''                       return typeinfo->serialize(s, data);
                     });
            });
            if (!handlers.responseSent(typeinfo)) send(s.dump());
''')),
M('ss3-sent-both','C03',(S,'handler(nullptr, &error);\n            }\n          });','handler(data, &error);\n            }\n          });')),
M('ss3-errmsg-command','C03',(S,'fs->field("message", error.message);','fs->field("message", command);')),
M('ss3-sent-typeinfo','C03',(S,'''          [=](const dap::TypeInfo* typeinfo, const void* data) {
            // onSuccess''','''          [=](const dap::TypeInfo* ti, const void* data) {
            // onSuccess'''),(S,'                       return typeinfo->serialize(s, data);\n','                       return ti->serialize(s, data);\n')),
M('ss3-success-missing','C03',(S,'                     fs->field("success", dap::boolean(false)) &&\n','')),
M('ss3-seq32','C03',(S,'Payload processRequest(dap::json::Deserializer* d, dap::integer sequence)','Payload processRequest(dap::json::Deserializer* d, int sequence)'),(S,'fs->field("request_seq", sequence)','fs->field("request_seq", dap::integer(sequence))'),n=2),
M('ss4-cmd-prefix','C04',(S,'auto it = requestMap.find(name);','auto it = requestMap.find(name.substr(0, name.find(\'/\')));')),
M('ss4-default-handler','C04',(S,'auto it = eventMap.find(name);','auto it = eventMap.find(name);\n      if (it == eventMap.end()) it = eventMap.begin();')),
M('ss4-cmd-missing','C04',(S,'''      handlers.error("Request missing string 'command' field");
      return {};
''','''      handlers.error("Request missing string 'command' field");
''')),
M('ss4-type-contains','C04',(S,'if (type == "request") {','if (type.find("request") == 0) {')),
M('ss4-type-else','C04',(S,'} else if (type == "response") {','} else if (type != "event") {')),
M('ss4-noreport-event','C04',(S,'''      handlers.error("No event handler registered for event '%s'",
                     event.c_str());
''','')),
M('ss4-noreport-args','C04',(S,'      handlers.error("Failed to deserialize request");\n','')),
M('ss4-overwrite-ev','C04',(S,'''          eventMap.emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
              .second;
''','''          eventMap.emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
              .second;
      eventMap[typeinfo->name()] = std::make_pair(typeinfo, handler);
''')),
M('ss4-args-optional','C04',(S,'''    if (!d->field("arguments", [&](dap::Deserializer* d) {
          return typeinfo->deserialize(d, data);
        })) {''','''    bool ok = true;
    d->field("arguments", [&](dap::Deserializer* d) {
      ok = typeinfo->deserialize(d, data);
      return ok;
    });
    if (!ok && !command.empty() && command.back() != 's') {''')),
M('ss4-erase-on-use','C04',(S,'''      auto it = requestMap.find(name);
      return (it != requestMap.end()) ? it->second : decltype(it->second){};''','''      auto it = requestMap.find(name);
      if (it == requestMap.end()) return {};
      auto out = std::move(it->second);
      return out;''')),
]
P='src/protocol_types.cpp'
R='src/protocol_requests.cpp'
E_='src/protocol_events.cpp'
H='include/dap/protocol.h'
MUTANTS += [
M('pr-swap','C28',(P,'DAP_FIELD(endColumn, "endColumn"),\n                              DAP_FIELD(endLine, "endLine"),\n                              DAP_FIELD(id','DAP_FIELD(endColumn, "endLine"),\n                              DAP_FIELD(endLine, "endColumn"),\n                              DAP_FIELD(id')),
M('pr-drop','C28',(P,'                              DAP_FIELD(origin, "origin"),\n','')),
M('pr-typo','C28',(P,'DAP_FIELD(presentationHint, "presentationHint"),\n                              DAP_FIELD(sourceReference','DAP_FIELD(presentationHint, "presentationhint"),\n                              DAP_FIELD(sourceReference')),
M('pr-dupname','C28',(P,'DAP_FIELD(sourceReference, "sourceReference"),','DAP_FIELD(sourceReference, "path"),')),
M('pr-member-twice','C28',(P,'DAP_FIELD(endLine, "endLine"),\n                              DAP_FIELD(id, "id")','DAP_FIELD(line, "endLine"),\n                              DAP_FIELD(id, "id")')),
M('pr-cmd','C28',(R,'"breakpointLocations",','"breakpointLocation",')),
M('pr-cmd-dup','C28',(R,'"completions",','"cancel",')),
M('pr-restart','C28',(R,'DAP_FIELD(restart, "__restart"));','DAP_FIELD(restart, "restart"));')),
M('pr-opt','C28',(H,'  optional<string> hitCondition;\n  // The source line of the breakpoint or logpoint.\n  integer line;','  string hitCondition;\n  // The source line of the breakpoint or logpoint.\n  integer line;')),
M('pr-int-number','C28',(H,'  // The source line of the breakpoint or logpoint.\n  integer line;','  // The source line of the breakpoint or logpoint.\n  number line;')),
M('pr-newmember','C28',(H,'  // The source line of the breakpoint or logpoint.\n  integer line;','  // The source line of the breakpoint or logpoint.\n  integer line;\n  optional<string> label;')),
M('pr-ev-swap','C28',(E_,'DAP_FIELD(breakpoint, "breakpoint"),\n                              DAP_FIELD(reason, "reason")','DAP_FIELD(breakpoint, "breakpoint")')),
M('pr-ev-name','C28',(E_,'"exited"','"exit"')),
M('pr-resp-type','C28',(H,'using Response = BreakpointLocationsResponse;','using Response = AttachResponse;')),
]

def N(name, *edits, **k):
    d={'name':name,'edits':list(edits)}; d.update(k); return d
CB_S='''            dap::json::Serializer s;
            s.object([&](dap::FieldSerializer* fs) {
              return fs->field("seq", dap::integer(nextSeq++)) &&
                     fs->field("type", "response") &&
                     fs->field("request_seq", sequence) &&
                     fs->field("success", dap::boolean(true)) &&
                     fs->field("command", command) &&
                     fs->field("body", [&](dap::Serializer* s) {
                       return typeinfo->serialize(s, data);
                     });
            });
            send(s.dump());
'''
CB_E='''            dap::json::Serializer s;
            s.object([&](dap::FieldSerializer* fs) {
              return fs->field("seq", dap::integer(nextSeq++)) &&
                     fs->field("type", "response") &&
                     fs->field("request_seq", sequence) &&
                     fs->field("success", dap::boolean(false)) &&
                     fs->field("command", command) &&
                     fs->field("message", error.message);
            });
            send(s.dump());
'''
NEUTRAL=[
N('ns-shared-deleter',(S,ALLOC+'''
    // "body" is''','''    std::shared_ptr<uint8_t> storage(new uint8_t[typeinfo->size()],
                                     [typeinfo](uint8_t* p) {
                                       typeinfo->destruct(p);
                                       delete[] p;
                                     });
    auto data = storage.get();
    typeinfo->construct(data);

    // "body" is'''),(S,EV_BAD,EV_BAD.replace('      typeinfo->destruct(data);\n      delete[] data;\n','')),
  (S,EV_RET,'''    return [handler, storage] {
      handler(storage.get());
    };
''')),
N('ns-while-true',(S,RECV,'''      while (true) {
        if (!reader.isOpen()) {
          break;
        }
        auto payload = getPayload();
        if (!payload) {
          continue;
        }
        inbox.put(std::move(payload));
      }
      if (onClose) {
        onClose();
      }
''')),
N('ns-for-dispatch',(S,DISP,'''      for (auto payload = inbox.take(); payload; payload = inbox.take()) {
        auto& fn = payload.value();
        fn();
      }
''')),
N('ns-forever-dispatch',(S,DISP,'''      for (;;) {
        auto payload = inbox.take();
        if (!payload) {
          return;
        }
        payload.value()();
      }
''')),
N('ns-dispatch-move',(S,DISP,'''      while (true) {
        auto item = inbox.take();
        if (!item.has_value()) {
          break;
        }
        Payload payload = std::move(item.value());
        payload();
      }
'''),(S,'  bool send(const dap::TypeInfo* requestTypeInfo,','  using Payload = std::function<void()>;\n\n  bool send(const dap::TypeInfo* requestTypeInfo,'),(S,' private:\n  using Payload = std::function<void()>;\n',' private:\n')),
N('ns-resp-node',(S,'''      auto responseIt = responseMap.find(seq);
      if (responseIt == responseMap.end()) {
        return {};
      }
      auto out = std::move(responseIt->second);
      responseMap.erase(seq);
      return out;
''','''      std::pair<const dap::TypeInfo*, GenericResponseHandler> out{};
      const auto entry = responseMap.find(seq);
      if (entry != responseMap.end()) {
        out = entry->second;
        responseMap.erase(entry);
      }
      return out;
''')),
N('ns-first-helper',(S,'''    if (isBound.exchange(true)) {
      handlers.error("Session::connect called twice");
      return;
    }
''','''    if (!firstCall(isBound, "Session::connect called twice")) {
      return;
    }
'''),(S,'''    if (isProcessingMessages.exchange(true)) {
      handlers.error("Session::startProcessingMessages() called twice");
      return;
    }
''','''    if (!firstCall(isProcessingMessages,
                   "Session::startProcessingMessages() called twice")) {
      return;
    }
'''),(S,'''  bool send(const std::string& s) {''','''  bool firstCall(std::atomic<bool>& flag, const char* twice) {
    if (!flag.exchange(true)) {
      return true;
    }
    handlers.error("%s", twice);
    return false;
  }

  bool send(const std::string& s) {''')),
N('ns-send-response',(S,CB_S,'''            sendResponse(sequence, command, true, [&](dap::FieldSerializer* fs) {
              return fs->field("body", [&](dap::Serializer* s) {
                return typeinfo->serialize(s, data);
              });
            });
'''),(S,CB_E,'''            sendResponse(sequence, command, false, [&](dap::FieldSerializer* fs) {
              return fs->field("message", error.message);
            });
'''),(S,'''  bool send(const std::string& s) {''','''  template <typename F>
  void sendResponse(dap::integer sequence,
                    const dap::string& command,
                    bool success,
                    F&& extra) {
    dap::json::Serializer s;
    s.object([&](dap::FieldSerializer* fs) {
      return fs->field("seq", dap::integer(nextSeq++)) &&
             fs->field("type", "response") &&
             fs->field("request_seq", sequence) &&
             fs->field("success", dap::boolean(success)) &&
             fs->field("command", command) && extra(fs);
    });
    send(s.dump());
  }

  bool send(const std::string& s) {''')),
N('ns-send-response-fn',(S,CB_E,'''            const dap::string message = error.message;
            auto fill = [&](dap::FieldSerializer* fs) {
              bool ok = fs->field("seq", dap::integer(nextSeq.fetch_add(1)));
              ok = ok && fs->field("type", "response");
              ok = ok && fs->field("request_seq", sequence);
              ok = ok && fs->field("success", dap::boolean(false));
              ok = ok && fs->field("command", command);
              return ok && fs->field("message", message);
            };
            dap::json::Serializer out;
            out.object(fill);
            send(out.dump());
''')),
N('ns-fetch-add',(S,'int seq = nextSeq++;','const int seq = static_cast<int>(nextSeq.fetch_add(1));')),
N('ns-seq-64',(S,'int seq = nextSeq++;','const int64_t seq = nextSeq++;'),(S,'    void put(int seq,\n','    void put(int64_t seq,\n'),(S,'error("Response handler for sequence %d already registered", seq);','error("Response handler for sequence %lld already registered",\n              static_cast<long long>(seq));')),
N('ns-seq-u32',(S,'int seq = nextSeq++;','const uint32_t seq = nextSeq++;')),
N('ns-join-helper',(S,DTOR,'''    shutdown = true;
    inbox.close();
    reader.close();
    writer.close();
    for (auto thread : {&recvThread, &dispatchThread}) {
      if (thread->joinable()) {
        thread->join();
      }
    }
''')),
N('ns-header-stream',(CS,'''  auto header =
      std::string("Content-Length: ") + std::to_string(msg.size()) + "\\r\\n\\r\\n";
''','''  char header_buf[64];
  int header_len = snprintf(header_buf, sizeof(header_buf),
                            "Content-Length: %zu\\r\\n\\r\\n", msg.size());
  std::string header(header_buf, static_cast<size_t>(header_len));
'''),(CS,'#include <algorithm>','#include <stdio.h>\n\n#include <algorithm>')),
N('ns-header-append',(CS,'''  auto header =
      std::string("Content-Length: ") + std::to_string(msg.size()) + "\\r\\n\\r\\n";
''','''  std::string header;
  header.reserve(48);
  header += "Content-Length: ";
  header.append(std::to_string(msg.size()));
  header += "\\r\\n";
  header += "\\r\\n";
''')),
N('ns-write-split',(CS,WR,'''  if (!writer->write(header.data(), header.size())) {
    return false;
  }
  const char* p = msg.data();
  const size_t n = msg.size();
  return writer->write(p, n);
''')),
N('ns-event-helper',(S,EV_RET,'''    return eventPayload(typeinfo, handler, data);
'''),(S,'''  void processResponse(const dap::Deserializer* d) {''','''  static Payload eventPayload(const dap::TypeInfo* typeinfo,
                              const GenericEventHandler& handler,
                              uint8_t* data) {
    return [typeinfo, handler, data] {
      handler(data);
      typeinfo->destruct(data);
      delete[] data;
    };
  }

  void processResponse(const dap::Deserializer* d) {''')),
N('ns-request-mutable',(S,'''    return [=] {
      handler(
          data,''','''    return [this, handler, typeinfo, data, sequence, command] {
      handler(
          data,''')),
N('ns-find-handler',(S,'''      auto it = requestMap.find(name);
      return (it != requestMap.end()) ? it->second : decltype(it->second){};''','''      for (auto it = requestMap.find(name); it != requestMap.end();) {
        return it->second;
      }
      return {};''')),
N('ns-resp-complete',(S,'''      dap::Error error("Response missing 'success' field");
      handler(nullptr, &error);
      return;
''','''      fail(handler, "Response missing 'success' field");
      return;
'''),(S,'''      auto error = dap::Error(message);
      handler(nullptr, &error);
''','''      fail(handler, message);
'''),(S,'''  bool send(const std::string& s) {''','''  static void fail(const GenericResponseHandler& handler,
                   const std::string& message) {
    const dap::Error error(message);
    handler(nullptr, &error);
  }

  bool send(const std::string& s) {''')),
N('ns-body-cb',(S,'''    bool body_ok = true;
    d->field("body", [&](dap::Deserializer* d) {
      if (!typeinfo->deserialize(d, data)) {
        body_ok = false;
      }
      return true;
    });

    if (!body_ok) {''','''    const bool body_ok = d->field("body", [&](dap::Deserializer* body) {
      return typeinfo->deserialize(body, data);
    });

    if (!body_ok) {''')),
N('ns-dispatch-table',(S,'''    if (type == "request") {
      return processRequest(&d, sequence);
    } else if (type == "event") {
      return processEvent(&d);
    } else if (type == "response") {
      processResponse(&d);
      return {};
    } else {
      handlers.error("Unknown message type '%s'", type.c_str());
    }

    return {};
''','''    const std::string kind = type;
    if (kind == "response") {
      processResponse(&d);
      return nullptr;
    }
    if (kind == "request") {
      return processRequest(&d, sequence);
    }
    if (kind == "event") {
      return processEvent(&d);
    }
    handlers.error("Unknown message type '%s'", kind.c_str());
    return nullptr;
''')),
N('ns-send-unlock-scope',(S,SEND,'''    bool open = false;
    bool ok = false;
    {
      std::lock_guard<std::mutex> lock(sendMutex);
      open = writer.isOpen();
      if (open) {
        ok = writer.write(s);
      }
    }
    if (!open) {
      handlers.error("Send failed as the writer is closed");
    }
    return ok;
''')),
N('ns-thread-member',(S,'''    dispatchThread = std::thread([this] {
'''+DISP+'''    });
''','''    dispatchThread = std::thread(&Impl::dispatch, this);
'''),(S,'''  bool send(const std::string& s) {''','''  void dispatch() {
    while (auto payload = inbox.take()) {
      payload.value()();
    }
  }

  bool send(const std::string& s) {''')),
]
