IO='src/io.cpp'; SB='src/string_io.h'; SE='include/dap/session.h'
def M(name, props, *edits): return {'name':name,'props':props.split(),'edits':list(edits)}
MUTANTS=[
M('yb-pipe-read-mask','C15',(IO,'out[n] = data.front();','out[n] = data.front() & 0x7f;')),
M('yb-pipe-read-cr','C15',(IO,'out[n] = data.front();',"out[n] = data.front() == '\\r' ? '\\n' : data.front();")),
M('yb-pipe-write-cr','C15',(IO,'      data.emplace_back(src[i]);',"      if (src[i] != '\\r') {\n        data.emplace_back(src[i]);\n      }")),
M('yb-pipe-read-back','C15',(IO,'''        out[n] = data.front();
        data.pop_front();''','''        out[n] = data.back();
        data.pop_back();''')),
M('yb-pipe-closed-write-true','C15',(IO,'''    if (closed) {
      return false;
    }
    if (bytes == 0) {''','''    if (closed && bytes != 0) {
      return false;
    }
    if (bytes == 0) {''')),
M('yb-pipe-one-notify','C13',(IO,'    auto notify = data.size() == 0;\n','    auto notify = data.size() == 0 && bytes > 1;\n')),
M('yb-pipe-close-notify-one','C13',(IO,'    closed = true;\n    cv.notify_all();','    closed = true;\n    cv.notify_one();')),
M('yb-rw-swap','C31',(IO,'bool isOpen() override { return r->isOpen() && w->isOpen(); }','bool isOpen() override { return r->isOpen() || w->isOpen(); }')),
M('yb-rw-close-one','C31',(IO,'    r->close();\n    w->close();','    if (r->isOpen()) {\n      r->close();\n    } else {\n      w->close();\n    }')),
M('yb-rspy-n','C31',(IO,'buf.append(chars, chars + c);','buf.append(chars, chars + n);')),
M('yb-rspy-nul','C31',(IO,'      buf.append(chars, chars + c);','      buf.append(chars, chars + c);\n      buf = buf.c_str();')),
M('yb-rspy-eof','C31',(IO,'    return c;\n','    return c > 0 ? c : (r->isOpen() ? 1 : 0);\n')),
M('yb-wspy-result','C31',(IO,'    s->write(buf.data(), buf.size());\n    return true;','    return s->write(buf.data(), buf.size());')),
M('yb-wspy-swap','C31',(IO,'    if (!w->write(buffer, n)) {\n      return false;\n    }\n    auto chars','    if (!s->isOpen() || !w->write(buffer, n)) {\n      return false;\n    }\n    auto chars')),
M('yb-file-close-order','C15',(IO,'''        std::unique_lock<std::mutex> readLock(readMutex);
        std::unique_lock<std::mutex> writeLock(writeMutex);
        fclose(f);''','''        std::unique_lock<std::mutex> readLock(readMutex);
        fclose(f);''')),
]
