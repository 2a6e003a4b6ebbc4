from mutants_conc import M
CS='src/content_stream.cpp'; CH='src/content_stream.h'
BUF='''  if (bytes < buf.size()) {
    return true;
  }
  bytes -= buf.size();
  while (bytes > 0) {
    uint8_t chunk[256];
    auto numWant = std::min(sizeof(chunk), bytes);
    auto numGot = reader->read(chunk, numWant);
    if (numGot == 0) {
      // Reader::read() only returns 0 once the stream has ended.
      eof = true;
      return false;
    }
    for (size_t i = 0; i < numGot; i++) {
      buf.push_back(chunk[i]);
    }
    bytes -= numGot;
  }
  return true;
'''
SCAN='''  while (buffer(len)) {
    if (match(seq, len)) {
      return true;
    }
    buf.pop_front();
  }
  return false;
'''
MATCH='''  auto it = buf.begin();
  for (size_t i = 0; i < len; i++, it++) {
    if (*it != seq[i]) {
      return false;
    }
  }
  for (size_t i = 0; i < len; i++) {
    buf.pop_front();
  }
  return true;
'''
ANY='''  int c = buf.front();
  if (c == 0) {
    return 0;  // strchr() would match the terminator.
  }
  if (auto p = strchr(chars, c)) {
    buf.pop_front();
    return *p;
  }
  return 0;
'''
DIG='''  size_t len = 0;
  while (true) {
    auto c = matchAny("0123456789");
    if (c == 0) {
      break;
    }
    size_t digit = size_t(c) - size_t('0');
    if (len > (SIZE_MAX - digit) / 10) {
      return badHeader();
    }
    len *= 10;
    len += digit;
  }
  if (len == 0) {
    return badHeader();
  }
'''
OUT='''  std::string out;
  out.reserve(len);
  for (size_t i = 0; i < len; i++) {
    out.push_back(static_cast<char>(buf.front()));
    buf.pop_front();
  }
  return out;
'''
MUTANTS=[
# C07
M('fr-scan-skip-all','C07',(CS,SCAN,SCAN.replace('    buf.pop_front();\n','    for (size_t i = 0; i < len; i++) {\n      buf.pop_front();\n    }\n'))),
M('fr-match-partial','C07',(CS,'''    if (*it != seq[i]) {
      return false;
    }
  }
''','''    if (*it != seq[i]) {
      for (size_t j = 0; j < i; j++) {
        buf.pop_front();
      }
      return false;
    }
  }
''')),
M('fr-match-last','C07',(CS,'for (size_t i = 0; i < len; i++, it++) {','for (size_t i = 0; i + 1 < len; i++, it++) {')),
M('fr-nul-ws','C07',(CS,'''  if (c == 0) {
    return 0;  // strchr() would match the terminator.
  }
''','')),
M('fr-any-pop','C07',(CS,'''    buf.pop_front();
    return *p;
  }
  return 0;
''','''    buf.pop_front();
    return *p;
  }
  buf.pop_front();
  return 0;
''')),
M('fr-lose-chunk-tail','C07',(CS,'for (size_t i = 0; i < numGot; i++) {\n      buf.push_back','for (size_t i = 0; i < numGot && i < 255; i++) {\n      buf.push_back')),
M('fr-dup-first','C07',(CS,'''    for (size_t i = 0; i < numGot; i++) {
      buf.push_back(chunk[i]);
''','''    for (size_t i = 0; i < numGot; i++) {
      buf.push_back(chunk[i == 1 ? 0 : i]);
''')),
M('fr-reverse','C07',(CS,'buf.push_back(chunk[i]);','buf.push_back(chunk[numGot - 1 - i]);')),
M('fr-push-front','C07',(CS,'buf.push_back(chunk[i]);','buf.push_front(chunk[i]);')),
M('fr-want-all','C07',(CS,'for (size_t i = 0; i < numGot; i++) {\n      buf','for (size_t i = 0; i < numWant; i++) {\n      buf')),
M('fr-buffer-once','C08',(CS,'    bytes -= numGot;\n','    bytes -= numWant;\n')),
M('fr-hex','C07',(CS,'    len *= 10;\n','    len *= 16;\n')),
M('fr-digit','C07',(CS,"size_t digit = size_t(c) - size_t('0');","size_t digit = size_t(c) & 7;")),
M('fr-lf','C07',(CS,'match("\\r\\n\\r\\n")','match("\\r\\n")')),
M('fr-bare-lf','C07',(CS,'  if (!match("\\r\\n\\r\\n")) {','  if (!match("\\r\\n\\r\\n") && !match("\\n\\n")) {')),
M('fr-ws-comma','C07',(CS,'matchAny(" \\t")','matchAny(" \\t,")')),
M('fr-ws-none','C07',(CS,'''  while (matchAny(" \\t")) {
  }
''','''  matchAny(" \\t");
''')),
M('fr-no-close-crlf','C07',(CS,'''  if (!match("\\r\\n\\r\\n")) {
    return badHeader();
''','''  if (!match("\\r\\n\\r\\n")) {
    return "";
''')),
M('fr-no-close-zero','C07',(CS,'''  if (len == 0) {
    return badHeader();
''','''  if (len == 0) {
    return "";
''')),
M('fr-close-always','C07',(CS,'''  if (on_invalid_data == kClose) {
    close();
  }
''','''  close();
''')),
M('fr-close-never','C07',(CS,'''  if (on_invalid_data == kClose) {
    close();
  }
''','')),
M('fr-policy-swap','C07',(CS,'if (on_invalid_data == kClose) {\n    if (!match','if (on_invalid_data == kIgnore) {\n    if (!match')),
M('fr-close-scan','C07',(CS,'''    if (!match("Content-Length:")) {
      return badHeader();''','''    if (!scan("Content-Length:")) {
      return badHeader();''')),
M('fr-payload-off','C07',(CS,'''    out.push_back(static_cast<char>(buf.front()));
    buf.pop_front();
  }
  return out;''','''    out.push_back(static_cast<char>(buf.front()));
    buf.pop_front();
  }
  if (buf.size() > 1 && buf.front() == '\\r') {
    buf.pop_front();
  }
  return out;''')),
M('fr-payload-short','C07',(CS,'for (size_t i = 0; i < len; i++) {\n    out','for (size_t i = 1; i < len; i++) {\n    out')),
M('fr-payload-strip','C07',(CS,'  std::string out;\n  out.reserve(len);\n','''  while (buf.front() == '\\n') {
    buf.pop_front();
    len--;
  }
  std::string out;
  out.reserve(len);
''')),
M('fr-limit','C07',(CS,'''  if (len == 0) {
    return badHeader();''','''  if (len == 0 || len > 65536) {
    return badHeader();''')),
M('fr-move-buf','C07',(CS,'  buf = std::move(rhs.buf);\n','')),
M('fr-move-policy','C07',(CS,'  on_invalid_data = std::move(rhs.on_invalid_data);\n','')),
M('fr-ctor-policy','C07',(CS,': reader(reader), on_invalid_data(on_invalid_data) {}',': reader(reader), on_invalid_data(kIgnore) {\n  (void)on_invalid_data;\n}')),
M('fr-flush-bad','C07',(CS,'std::string ContentReader::badHeader() {\n','std::string ContentReader::badHeader() {\n  buf.clear();\n')),
M('fr-scan-flush','C07',(CS,SCAN,SCAN.replace('  return false;\n','  buf.clear();\n  return false;\n').replace('    buf.pop_front();\n','    if (buf.size() > 512) {\n      buf.clear();\n    } else {\n      buf.pop_front();\n    }\n'))),
M('fr-scan-give-up','C07',(CS,SCAN,'  size_t skipped = 0;\n'+SCAN.replace('    buf.pop_front();\n','    buf.pop_front();\n    if (++skipped > 4096) {\n      return false;\n    }\n'))),
M('fr-scan-first','C07',(CS,SCAN,SCAN.replace('    buf.pop_front();\n','    do {\n      buf.pop_front();\n    } while (!buf.empty() && buf.front() != seq[0] && buf.front() != 0);\n').replace("buf.front() != seq[0] && ",""))),
# C08
M('fr-want','C08',(CS,'auto numWant = std::min(sizeof(chunk), bytes);','auto numWant = bytes;')),
M('fr-want-max','C08',(CS,'auto numWant = std::min(sizeof(chunk), bytes);','auto numWant = std::max(sizeof(chunk), bytes);')),
M('fr-chunk-small','C08',(CS,'uint8_t chunk[256];\n    auto numWant = std::min(sizeof(chunk), bytes);','uint8_t chunk[256];\n    auto numWant = std::min(size_t(512), bytes);')),
M('fr-nowrap','C08',(CS,'''    if (len > (SIZE_MAX - digit) / 10) {
      return badHeader();
    }
''','')),
M('fr-wrap-weak','C08',(CS,'if (len > (SIZE_MAX - digit) / 10) {','if (len > SIZE_MAX / 10) {')),
M('fr-wrap-post','C08',(CS,'''    if (len > (SIZE_MAX - digit) / 10) {
      return badHeader();
    }
    len *= 10;
    len += digit;
''','''    auto prev = len;
    len *= 10;
    len += digit;
    if (len < prev) {
      return badHeader();
    }
''')),
M('fr-reserve-early','C08',(CS,'''  if (!buffer(len)) {
    return "";
  }
  std::string out;
  out.reserve(len);
''','''  std::string out;
  out.reserve(len);
  if (!buffer(len)) {
    return "";
  }
''')),
M('fr-buffer-unchecked','C08',(CS,'''  if (!buffer(len)) {
    return "";
  }
''','''  buffer(len);
''')),
M('fr-buffer-minus','C08',(CS,'  if (!buffer(len)) {\n    return "";','  if (!buffer(len - 1)) {\n    return "";')),
M('fr-any-unchecked','C08',(CS,'''  if (!buffer(1)) {
    return false;
  }
''','''  buffer(1);
''')),
M('fr-match-unchecked','C08',(CS,'''  if (!buffer(len)) {
    return false;
  }
  auto it''','''  buffer(len);
  auto it''')),
M('fr-eof-true','C08',(CS,'''      eof = true;
      return false;
''','''      eof = true;
      return !buf.empty();
''')),
M('fr-vector-resize','C08',(CS,OUT,'''  std::string out(len, 0);
  for (size_t i = 0; i < len; i++) {
    out[i] = static_cast<char>(buf.front());
    buf.pop_front();
  }
  return out;
'''),(CS,'''  if (!buffer(len)) {
    return "";
  }
  std::string out(len, 0);
''','''  std::string out(len, 0);
  if (!buffer(len)) {
    return "";
  }
''')),
# neutral
M('nr-erase','',(CS,'''  for (size_t i = 0; i < len; i++) {
    buf.pop_front();
  }
  return true;
''','''  buf.erase(buf.begin(), buf.begin() + len);
  return true;
''')),
M('nr-insert','',(CS,'''    for (size_t i = 0; i < numGot; i++) {
      buf.push_back(chunk[i]);
    }
''','''    buf.insert(buf.end(), chunk, chunk + numGot);
''')),
M('nr-out-range','',(CS,OUT,'''  std::string out(buf.begin(), buf.begin() + len);
  buf.erase(buf.begin(), buf.begin() + len);
  return out;
''')),
M('nr-out-assign','',(CS,OUT,'''  std::string out;
  out.assign(buf.begin(), buf.begin() + len);
  for (size_t i = 0; i < len; i++) {
    buf.pop_front();
  }
  return out;
''')),
M('nr-buffer-while','',(CS,BUF,'''  while (buf.size() < bytes) {
    uint8_t chunk[256];
    size_t want = bytes - buf.size();
    if (want > sizeof(chunk)) {
      want = sizeof(chunk);
    }
    size_t got = reader->read(chunk, want);
    if (got == 0) {
      eof = true;
      return false;
    }
    for (size_t i = 0; i < got; i++) {
      buf.push_back(chunk[i]);
    }
  }
  return true;
''')),
M('nr-buffer-rev','',(CS,BUF,'''  if (buf.size() > bytes) {
    return true;
  }
  size_t missing = bytes - buf.size();
  while (missing != 0) {
    uint8_t chunk[256];
    const size_t want = missing < sizeof(chunk) ? missing : sizeof(chunk);
    const size_t got = reader->read(&chunk[0], want);
    if (!got) {
      eof = true;
      return false;
    }
    missing -= got;
    for (const uint8_t* p = chunk; p != chunk + got; ++p) {
      buf.push_back(*p);
    }
  }
  return true;
''')),
M('nr-receive-helper','',(CS,BUF,'''  if (bytes < buf.size()) {
    return true;
  }
  bytes -= buf.size();
  while (bytes > 0) {
    size_t got = receive(bytes);
    if (got == 0) {
      return false;
    }
    bytes -= got;
  }
  return true;
}

size_t ContentReader::receive(size_t bytes) {
  uint8_t chunk[256];
  auto numWant = std::min(sizeof(chunk), bytes);
  auto numGot = reader->read(chunk, numWant);
  if (numGot == 0) {
    eof = true;
    return 0;
  }
  for (size_t i = 0; i < numGot; i++) {
    buf.push_back(chunk[i]);
  }
  return numGot;
'''),(CH,'  bool buffer(size_t bytes);\n','  bool buffer(size_t bytes);\n  size_t receive(size_t bytes);\n')),
M('nr-scan-for','',(CS,SCAN,'''  for (; buffer(len); buf.pop_front()) {
    if (match(seq, len)) {
      return true;
    }
  }
  return false;
''')),
M('nr-scan-do','',(CS,SCAN,'''  while (true) {
    if (!buffer(len)) {
      return false;
    }
    const bool found = match(seq, len);
    if (found) {
      break;
    }
    buf.pop_front();
  }
  return true;
''')),
M('nr-match-equal','',(CS,'''  auto it = buf.begin();
  for (size_t i = 0; i < len; i++, it++) {
    if (*it != seq[i]) {
      return false;
    }
  }
''','''  if (!std::equal(seq, seq + len, buf.begin())) {
    return false;
  }
''')),
M('nr-match-index','',(CS,'''  auto it = buf.begin();
  for (size_t i = 0; i < len; i++, it++) {
    if (*it != seq[i]) {
      return false;
    }
  }
''','''  for (size_t i = 0; i < len; ++i) {
    if (buf[i] != seq[i]) {
      return false;
    }
  }
''')),
M('nr-match-flag','',(CS,'''  auto it = buf.begin();
  for (size_t i = 0; i < len; i++, it++) {
    if (*it != seq[i]) {
      return false;
    }
  }
''','''  bool same = true;
  for (size_t i = 0; i < len; ++i) {
    if (buf.at(i) != seq[i]) {
      same = false;
      break;
    }
  }
  if (!same) {
    return false;
  }
''')),
M('nr-digit-range','',(CS,DIG,'''  size_t len = 0;
  while (buffer(1)) {
    const uint8_t c = buf.front();
    if (c < '0' || c > '9') {
      break;
    }
    buf.pop_front();
    const size_t digit = c - '0';
    if (len > (SIZE_MAX - digit) / 10) {
      return badHeader();
    }
    len = len * 10 + digit;
  }
  if (len == 0) {
    return badHeader();
  }
''')),
M('nr-digit-for','',(CS,DIG,'''  size_t len = 0;
  for (char c = matchAny("0123456789"); c != 0; c = matchAny("0123456789")) {
    auto digit = static_cast<size_t>(c - '0');
    if (len > (SIZE_MAX - digit) / 10) {
      return badHeader();
    }
    len = 10 * len + digit;
  }
  if (len == 0) {
    return badHeader();
  }
''')),
M('nr-digit-helper','',(CS,DIG,'''  size_t len = 0;
  if (!readLength(&len)) {
    return badHeader();
  }
'''),(CS,'std::string ContentReader::badHeader() {','''bool ContentReader::readLength(size_t* out) {
  size_t len = 0;
  while (auto c = matchAny("0123456789")) {
    size_t digit = size_t(c) - size_t('0');
    if (len > (SIZE_MAX - digit) / 10) {
      return false;
    }
    len *= 10;
    len += digit;
  }
  *out = len;
  return len != 0;
}

std::string ContentReader::badHeader() {'''),(CH,'  bool buffer(size_t bytes);\n','  bool buffer(size_t bytes);\n  bool readLength(size_t* out);\n')),
M('nr-any-loop','',(CS,ANY,'''  const char c = static_cast<char>(buf.front());
  for (const char* p = chars; *p; ++p) {
    if (*p == c) {
      buf.pop_front();
      return c;
    }
  }
  return 0;
''')),
M('nr-ws-for','',(CS,'''  while (matchAny(" \\t")) {
  }
''','''  for (;;) {
    if (matchAny(" \\t") == 0) {
      break;
    }
  }
''')),
M('nr-vec-buf','',(CH,'std::deque<uint8_t> buf;','std::vector<uint8_t> buf;'),(CH,'#include <stdint.h>','#include <stdint.h>\n#include <vector>'),
  (CS,'    buf.pop_front();\n  }\n  return false;','    buf.erase(buf.begin());\n  }\n  return false;'),
  (CS,'''  for (size_t i = 0; i < len; i++) {
    buf.pop_front();
  }
  return true;''','''  buf.erase(buf.begin(), buf.begin() + len);
  return true;'''),
  (CS,'''    buf.pop_front();
    return *p;''','''    buf.erase(buf.begin());
    return *p;'''),
  (CS,OUT,'''  std::string out(buf.begin(), buf.begin() + len);
  buf.erase(buf.begin(), buf.begin() + len);
  return out;
''')),
M('nr-policy-switch','',(CS,'''  if (on_invalid_data == kClose) {
    if (!match("Content-Length:")) {
      return badHeader();
    }
  } else {
    if (!scan("Content-Length:")) {
      return "";
    }
  }
''','''  switch (on_invalid_data) {
    case kClose:
      if (!match("Content-Length:")) {
        return badHeader();
      }
      break;
    default:
      if (!scan("Content-Length:")) {
        return "";
      }
      break;
  }
''')),
M('nr-header-helper','',(CS,'''  if (on_invalid_data == kClose) {
    if (!match("Content-Length:")) {
      return badHeader();
    }
  } else {
    if (!scan("Content-Length:")) {
      return "";
    }
  }
''','''  const bool strict = on_invalid_data == kClose;
  const bool found =
      strict ? match("Content-Length:") : scan("Content-Length:");
  if (!found) {
    return strict ? badHeader() : std::string();
  }
''')),
M('nr-bad-inline','',(CS,'''  if (!match("\\r\\n\\r\\n")) {
    return badHeader();
  }
''','''  if (!match("\\r\\n\\r\\n")) {
    if (on_invalid_data == kClose) {
      close();
    }
    return std::string();
  }
''')),
M('nr-chunk-size','',(CS,'uint8_t chunk[256];','uint8_t chunk[1024];')),
M('nr-array-chunk','',(CS,'uint8_t chunk[256];\n    auto numWant = std::min(sizeof(chunk), bytes);\n    auto numGot = reader->read(chunk, numWant);','std::array<uint8_t, 256> chunk;\n    auto numWant = std::min(chunk.size(), bytes);\n    auto numGot = reader->read(chunk.data(), numWant);'),(CS,'#include <algorithm>','#include <array>\n#include <algorithm>')),
M('nr-out-plus','',(CS,'    out.push_back(static_cast<char>(buf.front()));\n','    out += static_cast<char>(buf.front());\n')),
M('nr-no-reserve','',(CS,'  out.reserve(len);\n','')),
M('nr-len-ull','',(CS,'  size_t len = 0;\n  while','  uint64_t len = 0;\n  while')),
M('nr-swap-move','',(CS,'  buf = std::move(rhs.buf);\n  reader = std::move(rhs.reader);\n','  reader = std::move(rhs.reader);\n  buf.swap(rhs.buf);\n')),
]
NEUTRAL=[m for m in MUTANTS if m['name'].startswith('nr-')]
MUTANTS=[m for m in MUTANTS if not m['name'].startswith('nr-')]
