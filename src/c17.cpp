// C17: file specifications and URIs round-trip; arbitrary text is interpreted or refused consistently.
#include <sys/stat.h>
#include <unistd.h>

#include <climits>
#include <cstring>
#include <fstream>
#include <memory>
#include <optional>
#include <set>
#include <sstream>

#include <vrs/DiskFile.h>
#include <vrs/ErrorCode.h>
#include <vrs/FileHandler.h>
#include <vrs/FileHandlerFactory.h>
#include <vrs/RecordFileReader.h>
#include <vrs/RecordFileWriter.h>
#include <vrs/Recordable.h>

#include "pbt.h"

using namespace vrs;
using std::map;
using std::optional;
using std::string;
using std::string_view;
using std::unique_ptr;
using std::vector;

namespace pbt {
string show(const FileSpec& f) {
  return "{" + show(f.fileHandlerName) + " " + show(f.fileName) + " " + show(f.uri) + " " + show(f.chunks) + " " + show(f.chunkSizes) + " " +
      show(std::map<string, string>(f.extras.begin(), f.extras.end())) + "}";
}
} // namespace pbt

namespace {

string noNul(string t) {
  for (char& ch : t) {
    ch = ch ? ch : '0';
  }
  return t;
}
string genText(pbt::Src& s, size_t max) {
  switch (s.weighted({3, 3, 2, 1})) {
    case 0:
      return s.ident(max);
    case 1:
      return noNul(s.text(max));
    case 2: {
      string t;
      static const char* parts[] = {"/", "a", "\"", "\\", ":", "?", "=", "&", ";", "%41", "%", "{", "}", " ", "\xc3\xa9", "\n", "_1", ".vrs", "[", ","};
      for (size_t n = s.size(max / 2); n > 0; n--) {
        t += s.pick(parts);
      }
      return t;
    }
    default:
      return noNul(s.anyText(max));
  }
}
bool reserved(const string& key) {
  return key == "chunks" || key == "storage" || key == "filename" || key == "source_uri" || key == "chunk_sizes";
}
FileSpec genSpec(pbt::Src& s) {
  FileSpec f;
  f.fileHandlerName = s.chance(1, 3) ? "" : s.chance(1, 3) ? string(s.flip() ? "diskfile" : "asyncdiskfile") : genText(s, 12);
  for (size_t n = s.size(5); n > 0; n--) {
    f.chunks.push_back(genText(s, 20));
  }
  if (s.flip()) {
    for (size_t n = s.flip() ? f.chunks.size() : s.size(4); n > 0; n--) {
      f.chunkSizes.push_back((int64_t)s.interesting(64));
    }
  }
  if (s.flip()) {
    f.fileName = genText(s, 12);
  }
  if (s.chance(1, 3)) {
    f.uri = genText(s, 20);
  }
  for (size_t n = s.size(5); n > 0; n--) {
    string key = genText(s, 8);
    if (!reserved(key)) {
      f.extras[key] = genText(s, 16);
    }
  }
  return f;
}

// the grammar of uris, written independently: optional <scheme>:, path, optional ?key=value separated by & or ;
bool schemeChar(unsigned char ch, bool first) {
  bool alpha = (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z');
  return alpha || (!first && ((ch >= '0' && ch <= '9') || strchr(".-+_", ch) != nullptr)) ;
}
bool isScheme(const string& t) {
  for (size_t k = 0; k < t.size(); k++) {
    if (!t[k] || !schemeChar((unsigned char)t[k], k == 0)) {
      return false;
    }
  }
  return true;
}
int hex(char ch) {
  return ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1;
}
optional<string> decode(const string& t) {
  string out;
  for (size_t k = 0; k < t.size(); k++) {
    unsigned char ch = (unsigned char)t[k];
    if (ch == '%' && k + 2 < t.size() && hex(t[k + 1]) >= 0 && hex(t[k + 2]) >= 0) {
      ch = (unsigned char)(hex(t[k + 1]) * 16 + hex(t[k + 2]));
      k += 2;
    }
    if (ch < 0x20) {
      return {};
    }
    out += (char)ch;
  }
  return out;
}
struct Uri {
  string scheme, path;
  map<string, string> params;
};
optional<Uri> parse(const string& t) {
  Uri u;
  string rest = t;
  size_t colon = t.find(':');
  if (colon != string::npos) {
    u.scheme = t.substr(0, colon);
    if (colon == 0 || !isScheme(u.scheme)) {
      return {};
    }
    rest = t.substr(colon + 1);
  }
  size_t q = rest.find('?');
  if (colon == string::npos && q == string::npos) {
    return {}; // a plain name isn't a uri
  }
  string path = rest.substr(0, q);
  if (path.empty()) {
    return {};
  }
  if (q != string::npos) {
    string query = rest.substr(q + 1) + "&";
    for (size_t start = 0; start < query.size();) {
      size_t end = query.find_first_of("&;", start);
      string kv = query.substr(start, end - start);
      start = end + 1;
      size_t eq = kv.find('=');
      if (eq != string::npos && eq > 0 && eq + 1 < kv.size() && kv.find('=', eq + 1) == string::npos) {
        auto k = decode(kv.substr(0, eq)), v = decode(kv.substr(eq + 1));
        if (k && v) {
          u.params[*k] = *v;
        }
      }
    }
  }
  auto p = decode(path);
  if (!p) {
    return {};
  }
  u.path = *p;
  return u;
}

string percent(pbt::Src& s, const string& t, const char* mustEncode) {
  string out;
  for (char ch : t) {
    if (strchr(mustEncode, ch) != nullptr || ch == '%' || s.chance(1, 6)) {
      char b[4];
      snprintf(b, sizeof(b), s.flip() ? "%%%02x" : "%%%02X", (unsigned char)ch);
      out += b;
    } else {
      out += ch;
    }
  }
  return out;
}
string printable(pbt::Src& s, size_t max) {
  string t = genText(s, max);
  for (char& ch : t) {
    ch = (unsigned char)ch < 0x20 ? '~' : ch;
  }
  return t.empty() ? "p" : t;
}

// a view of memory which ends where the text ends, so that reads past it are noticed
struct Exact {
  unique_ptr<char[]> data;
  string_view view;
  explicit Exact(const string& t) : data(new char[t.size()]), view(data.get(), t.size()) {
    memcpy(data.get(), t.data(), t.size());
  }
};

void useSpec(const FileSpec& f) {
  FileSpec back;
  REQUIRE(back.fromJson(f.toJson()));
  REQUIRE(back == f);
  REQUIRE_EQ(back.getXXHash(), f.getXXHash());
  REQUIRE_EQ(back.getEasyPath(), f.getEasyPath());
  string location = f.getSourceLocation();
  if (!f.uri.empty() && !f.isDiskFile()) {
    REQUIRE(f.uri.compare(0, location.size(), location) == 0);
  } else {
    REQUIRE_EQ(location, f.fileHandlerName);
  }
  f.getFileName();
  f.getFileSize();
}

} // namespace

PBT_TEST(
    json,
    450000,
    4000000,
    "specifications with arbitrary handler, chunks, sizes, name, uri, options (any bytes but NUL) written as json and read back, equal, with the "
    "same hash; and as a path, json or uri; non-trivial: options and chunks; distinct by specification") {
  FileSpec f = genSpec(s);
  string j = f.toJson();
  FileSpec a, b;
  REQUIRE_MSG(a.fromJson(Exact(j).view), j);
  REQUIRE_EQ_MSG(a, f, j);
  REQUIRE_EQ(b.fromPathJsonUri(Exact(j).view), 0);
  REQUIRE_EQ(b, f);
  useSpec(f);
  // a specification read over another one replaces it
  FileSpec g = genSpec(s);
  REQUIRE_EQ(g.fromPathJsonUri(j), 0);
  REQUIRE_EQ(g, f);
  // any change is visible
  FileSpec m = f;
  switch (s.below(6)) {
    case 0:
      m.fileHandlerName += "x";
      break;
    case 1:
      m.fileName += "x";
      break;
    case 2:
      m.uri += "x";
      break;
    case 3:
      if (!m.chunks.empty()) {
        m.chunks.back() += "x";
      } else {
        m.chunks.push_back("x");
      }
      break;
    case 4:
      m.chunkSizes.push_back(s.range(-5, 5));
      break;
    default:
      m.extras["more extra"] += "x";
      break;
  }
  REQUIRE(!(m == f));
  REQUIRE(m.getXXHash() != f.getXXHash());
  REQUIRE(m.toJson() != j);
  if (!f.empty() && !(f.isDiskFile() && f.chunks.size() == 1 && f.extras.empty()) && (f.isDiskFile() || f.uri.empty())) {
    REQUIRE_EQ(f.toPathJsonUri(), j);
  }
  if (!f.extras.empty() && !f.chunks.empty()) {
    c.nontrivial(j);
  }
}

PBT_TEST(
    uriParts,
    450000,
    4000000,
    "uris built from a scheme, a path and parameters of any characters from space up, percent-encoded at random, parsed into exactly these parts, "
    "without or with a scheme; and converted to text and back; control characters refused; non-trivial: parameters, and an encoded character; "
    "distinct by uri") {
  bool withScheme = s.chance(3, 4);
  string scheme = withScheme ? "s" + s.ident(6) + s.pick(vector<string>{"", "+x", ".y-z", "_1"}) : "";
  string path = printable(s, 16);
  map<string, string> params;
  for (size_t n = s.size(4); n > 0; n--) {
    params[printable(s, 6)] = printable(s, 8);
  }
  bool control = s.chance(1, 10);
  string encodedPath = percent(s, path, withScheme ? "?" : "?:");
  if (control) {
    size_t at = s.below(encodedPath.size() + 1);
    while (at > 0 && (encodedPath[at - 1] == '%' || (at > 1 && encodedPath[at - 2] == '%'))) {
      at--;
    }
    char b[4];
    snprintf(b, sizeof(b), "%%%02x", (unsigned)s.below(32));
    encodedPath.insert(at, b);
  }
  string uri = (withScheme ? scheme + ":" : "") + encodedPath;
  bool first = true;
  for (auto& kv : params) {
    uri += first ? "?" : s.flip() ? "&" : ";";
    uri += percent(s, kv.first, withScheme ? "&;=" : "&;=:") + "=" + percent(s, kv.second, withScheme ? "&;=" : "&;=:");
    first = false;
  }
  c.note(pbt::show(uri));
  if (!withScheme && params.empty()) {
    uri += "?";
  }
  string outScheme = "junk", outPath = "junk";
  FileSpec::Extras extras{{"junk", "junk"}};
  int status = FileSpec::parseUri(Exact(uri).view, outScheme, outPath, extras);
  if (control) {
    REQUIRE_EQ(status, (int)INVALID_URI_VALUE);
    REQUIRE(outScheme.empty() && outPath.empty() && extras.empty());
  } else {
    REQUIRE_EQ(status, 0);
    REQUIRE_EQ(outScheme, scheme);
    REQUIRE_EQ(outPath, path);
    REQUIRE_EQ((map<string, string>(extras.begin(), extras.end())), params);
  }
  if (withScheme) {
    FileSpec f = genSpec(s);
    int st = f.fromPathJsonUri(Exact(uri).view);
    if (control) {
      REQUIRE(st != 0);
    } else {
      REQUIRE_EQ(st, 0);
      REQUIRE_EQ(f.fileHandlerName, scheme);
      REQUIRE_EQ(f.uri, uri);
      REQUIRE_EQ(f.chunks, vector<string>{path});
      REQUIRE(f.chunkSizes.empty() && f.fileName.empty());
      REQUIRE_EQ((map<string, string>(f.extras.begin(), f.extras.end())), params);
      FileSpec g;
      REQUIRE_EQ(g.fromPathJsonUri(f.toPathJsonUri()), 0);
      REQUIRE_EQ(g, f);
      useSpec(f);
    }
  }
  if (!params.empty() && uri.find('%') != string::npos) {
    c.nontrivial(uri);
  }
}

PBT_TEST(
    arbitraryText,
    750000,
    8000000,
    "arbitrary text as a path, json or uri, in memory ending with the text: interpreted as json, uri or path as an independent parser says, "
    "everything else untouched; the result converted to text and back is the same; non-trivial: accepted and not a plain name; distinct by text") {
  string t;
  if (s.chance(1, 3)) {
    t = s.anyText(24);
  } else {
    static const char* parts[] = {"{", "}", "\"", ":", "?", "=", "&", ";", "%", "%41", "%0a", "%zz", "%C3", "a", "bc", "/", "//", ".", "-", "_", "+", "x", "http", "diskfile", "asyncdiskfile",
                                  "\"chunks\"", "[", "]", ",", "\"storage\"", "\"filename\"", "\"chunk_sizes\"", "1", "-7", "null", "\"a\"", "\\", "\"extra\":\"v\"", "\xc3\xa9", " ", "\n"};
    for (size_t n = s.size(14); n > 0; n--) {
      t += s.pick(parts);
    }
    if (s.chance(1, 6)) {
      FileSpec g = genSpec(s);
      t = g.toJson();
      for (size_t n = s.size(3); n > 0 && !t.empty(); n--) {
        size_t at = s.below(t.size());
        switch (s.below(3)) {
          case 0:
            t.erase(at, s.size(5));
            break;
          case 1:
            t.insert(at, s.pick(parts));
            break;
          default:
            t[at] = (char)s.below(256);
        }
      }
    }
  }
  Exact e(t);
  FileSpec f = genSpec(s);
  string defaultHandler = s.chance(1, 4) ? "myhandler" : "";
  int status = f.fromPathJsonUri(e.view, defaultHandler);
  FileSpec again;
  REQUIRE_EQ(again.fromPathJsonUri(e.view, defaultHandler), status);
  if (status == 0) {
    REQUIRE_EQ(again, f);
  }
  string handler = defaultHandler.empty() ? "diskfile" : defaultHandler;
  if (t.empty()) {
    REQUIRE(status != 0);
  } else if (t[0] == '{') {
    FileSpec j;
    bool parsed = j.fromJson(e.view);
    REQUIRE_EQ(parsed, status == 0);
    if (parsed) {
      REQUIRE_EQ(j, f);
    } else {
      REQUIRE(j.empty() && f.empty());
    }
    // only closed objects are json
    if (parsed) {
      REQUIRE(t.find('}') != string::npos);
    }
  } else {
    size_t colon = t.find(':');
    bool isUri = colon != string::npos && colon > 1 && isScheme(t.substr(0, colon));
    auto u = parse(t);
    if (isUri) {
      REQUIRE_EQ(status == 0, u.has_value());
      if (u) {
        REQUIRE_EQ(f.fileHandlerName, u->scheme);
        REQUIRE_EQ(f.chunks, vector<string>{u->path});
        REQUIRE_EQ((map<string, string>(f.extras.begin(), f.extras.end())), u->params);
        REQUIRE_EQ(f.uri, t);
      }
    } else {
      REQUIRE_EQ(status, 0);
      size_t q = t.find('?');
      bool params = q != string::npos && q > 1 && q + 1 < t.size() && schemeChar((unsigned char)t[q + 1], true) && t.find('=', q + 2) != string::npos;
      if (params && u && !u->scheme.empty() && !defaultHandler.empty()) {
        // one letter before a colon: a drive or a scheme, depending on the handler
      } else if (params && u && u->scheme.empty()) {
        REQUIRE_EQ(f.chunks, vector<string>{u->path});
        REQUIRE_EQ((map<string, string>(f.extras.begin(), f.extras.end())), u->params);
        REQUIRE_EQ(f.uri, t);
        REQUIRE_EQ(f.fileHandlerName, handler);
      } else {
        REQUIRE_EQ(f.chunks, vector<string>{t});
        REQUIRE(f.extras.empty());
        REQUIRE(f.uri.empty());
        REQUIRE_EQ(f.fileHandlerName, handler);
      }
      REQUIRE(f.chunkSizes.empty() && f.fileName.empty());
    }
  }
  if (status == 0 && t.find('\0') == string::npos) {
    bool nul = false;
    for (auto& ch : f.chunks) {
      nul = nul || ch.find('\0') != string::npos;
    }
    if (!nul) {
      useSpec(f);
    }
    if (t.find_first_of(":?{%") != string::npos) {
      c.nontrivial(t);
    }
  }
  // the parts of uris
  string scheme, path;
  FileSpec::Extras extras;
  int st = FileSpec::parseUri(e.view, scheme, path, extras);
  auto u = parse(t);
  REQUIRE_EQ_MSG(st == 0, u.has_value(), pbt::show(t));
  if (u) {
    REQUIRE_EQ(scheme, u->scheme);
    REQUIRE_EQ(path, u->path);
    REQUIRE_EQ((map<string, string>(extras.begin(), extras.end())), u->params);
  } else {
    REQUIRE(scheme.empty() && path.empty());
  }
  string out = "junk";
  int ds = FileSpec::urldecode(e.view, out);
  auto d = decode(t);
  REQUIRE_EQ(ds == 0, d.has_value());
  if (d) {
    REQUIRE_EQ(out, *d);
  }
  string key, value;
  FileSpec::decodeQuery(e.view, key, value);
}

PBT_TEST(
    filesOnDisk,
    24000,
    250000,
    "folders with files named as chunks, with gaps, _0 first chunks, symbolic links to them, opened by path, by link, with parameters or as "
    "json: the chunks found compared with the chunks expected, and the file read in full; non-trivial: 2 chunks or more, or a link; distinct by layout") {
  string dir = c.dir() + "/";
  string base = s.pick(vector<string>{"file", "file.vrs", "a_b", "with space", "caf\xc3\xa9", "x_10", "x_00"});
  bool zero = s.chance(1, 3);
  string first = base + (zero ? "_0" : "");
  std::set<string> files;
  auto make = [&](const string& name, const string& content) {
    std::ofstream(dir + name) << content;
    files.insert(name);
  };
  size_t chunks = s.size(12);
  size_t gap = s.chance(1, 3) && chunks ? s.below(chunks) + 1 : 0;
  string all;
  auto content = [&](size_t k) {
    return s.chance(1, 4) ? string() : string("content ") + std::to_string(k) + string(s.below(20), 'x');
  };
  string c0 = content(0);
  make(first, c0);
  vector<string> expected{dir + first};
  all = c0;
  for (size_t k = 1; k <= chunks; k++) {
    if (k == gap) {
      if (s.flip()) {
        mkdir((dir + base + "_" + std::to_string(k)).c_str(), 0777); // a folder isn't a chunk
      }
      continue;
    }
    string ct = content(k);
    string name = base + "_" + std::to_string(k);
    make(name, ct);
    if (gap == 0 || k < gap) {
      expected.push_back(dir + name);
      all += ct;
    }
  }
  make(base + "_01", "decoy");
  make(base + "_1x", "decoy");
  bool link = s.chance(1, 3);
  string path = dir + first;
  if (link) {
    mkdir((dir + "links").c_str(), 0777);
    path = dir + "links/" + s.pick(vector<string>{"link", "other_0", "l.vrs"});
    REQUIRE(symlink((dir + first).c_str(), path.c_str()) == 0);
    std::ofstream(path + "_1") << "decoy";
    if (s.chance(1, 3)) { // a link to a link
      string path2 = dir + "links/link2";
      REQUIRE(symlink(path.c_str(), path2.c_str()) == 0);
      path = path2;
      std::ofstream(path + "_1") << "decoy";
    }
  }
  string text = path;
  map<string, string> extras;
  switch (s.below(4)) {
    case 0:
      break;
    case 1:
      text = path + "?param=12&other=x";
      extras = {{"param", "12"}, {"other", "x"}};
      break;
    case 2: {
      FileSpec j;
      j.chunks = {path};
      j.extras["k"] = "v";
      text = j.toJson();
      extras = {{"k", "v"}};
      break;
    }
    default:
      text = "diskfile:" + path;
  }
  c.note(pbt::show(text) + " chunks " + std::to_string(chunks) + " gap " + std::to_string(gap));
  FileSpec f;
  bool checkLocal = s.chance(1, 4);
  REQUIRE_EQ(RecordFileReader::vrsFilePathToFileSpec(text, f, checkLocal), 0);
  REQUIRE(f.isDiskFile());
  REQUIRE_EQ((map<string, string>(f.extras.begin(), f.extras.end())), extras);
  // links and further chunks are resolved, but for files known not to be VRS files when it is to be checked
  bool smallFile = c0.size() < 80;
  (void)smallFile;
  vector<string> real;
  for (auto& p : f.chunks) {
    char* r = realpath(p.c_str(), nullptr);
    REQUIRE_MSG(r != nullptr, p);
    real.push_back(r);
    free(r);
  }
  vector<string> realExpected;
  for (auto& p : expected) {
    char* r = realpath(p.c_str(), nullptr);
    realExpected.push_back(r);
    free(r);
  }
  REQUIRE_EQ(real, realExpected);
  REQUIRE(f.chunkSizes.empty());
  REQUIRE_EQ(f.getFileSize(), (int64_t)all.size());
  DiskFile d;
  REQUIRE_EQ(d.openSpec(f), 0);
  REQUIRE_EQ(d.getTotalSize(), (int64_t)all.size());
  string got(all.size(), 0);
  REQUIRE_EQ(got.empty() ? 0 : d.read(got.data(), got.size()), 0);
  REQUIRE_EQ(got, all);
  d.close();
  // a missing file isn't found, whatever it is called
  FileSpec m;
  REQUIRE(RecordFileReader::vrsFilePathToFileSpec(dir + "missing", m) != 0);
  FileSpec several;
  several.chunks = expected;
  REQUIRE_EQ(RecordFileReader::vrsFilePathToFileSpec(several.toJson() , m), 0);
  REQUIRE_EQ(m.chunks, expected);
  if (expected.size() > 1) {
    REQUIRE_EQ(unlink(expected[s.below(expected.size())].c_str()), 0);
    REQUIRE(RecordFileReader::vrsFilePathToFileSpec(several.toJson(), m) != 0);
  }
  if (expected.size() > 1 || link) {
    c.nontrivial(text + pbt::show(expected));
  }
}

PBT_TEST(
    options,
    300000,
    3000000,
    "options set as numbers, booleans or text, read as numbers of every type, compared with an independent conversion of the text; defaults for "
    "missing or invalid text; locations of uris; non-trivial: text that is a number; distinct by text") {
  FileSpec f = genSpec(s);
  string name = s.ident(6);
  string text;
  switch (s.below(8)) {
    case 0: {
      int64_t v = (int64_t)s.interesting(64);
      f.setExtra(name, v);
      REQUIRE_EQ(f.getExtraAsInt64(name, 7), v);
      text = std::to_string(v);
      break;
    }
    case 1: {
      uint64_t v = s.interesting(64);
      f.setExtra(name, v);
      REQUIRE_EQ(f.getExtraAsUInt64(name, 7), v);
      text = std::to_string(v);
      break;
    }
    case 2: {
      int v = (int)s.interesting(32);
      f.setExtra(name, v);
      REQUIRE_EQ(f.getExtraAsInt(name, 7), v);
      text = std::to_string(v);
      break;
    }
    case 3: {
      bool v = s.flip();
      f.setExtra(name, v);
      REQUIRE_EQ(f.getExtraAsBool(name, !v), v);
      text = v ? "1" : "0";
      break;
    }
    case 4: {
      double v = (double)s.range(-1000000, 1000000) / 64;
      f.setExtra(name, v);
      REQUIRE_EQ(f.getExtraAsDouble(name, 7), v);
      f.getExtra(name, text);
      break;
    }
    case 5:
      text = genText(s, 10);
      f.setExtra(name, string_view(text));
      break;
    case 6:
      text = s.pick(vector<string>{"12 ", " 12", "+12", "-12", "0x10", "1e3", "12a", "-", "00012", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                                   "18446744073709551615", "18446744073709551616", "2147483647", "2147483648", "-2147483648", "-2147483649", "true", "false", "no", "off", "OFF", "NO", "yes", "-0", ""});
      f.setExtra(name, text);
      break;
    default:
      text = (s.flip() ? "-" : "") + std::to_string(s.interesting(64)) + s.pick(vector<string>{"", "0", "00000", " ", "x"});
      f.setExtra(name, text.c_str());
  }
  REQUIRE(f.hasExtra(name));
  REQUIRE_EQ(f.getExtra(name), text);
  // independent conversion
  bool neg = !text.empty() && text[0] == '-';
  string digits = text.substr(neg ? 1 : 0);
  bool number = !digits.empty() && digits.find_first_not_of("0123456789") == string::npos;
  unsigned __int128 mag = 0;
  for (char ch : digits.substr(0, number ? string::npos : 0)) {
    if (mag < ((unsigned __int128)1 << 100)) {
      mag = mag * 10 + (unsigned)(ch - '0');
    }
  }
  auto fits = [&](unsigned __int128 maxPos, unsigned __int128 maxNeg) { return number && mag <= (neg ? maxNeg : maxPos); };
  unsigned __int128 one = 1;
  const int di = (int)s.range(-3, 3);
  REQUIRE_EQ_MSG(f.getExtraAsInt(name, di), (fits((one << 31) - 1, one << 31) ? (int)(neg ? -(__int128)mag : (__int128)mag) : di), pbt::show(text));
  REQUIRE_EQ_MSG(f.getExtraAsInt64(name, di), (fits((one << 63) - 1, one << 63) ? (int64_t)(neg ? -(__int128)mag : (__int128)mag) : (int64_t)di), pbt::show(text));
  bool u64 = number && !neg && mag < (one << 64);
  REQUIRE_EQ_MSG(f.getExtraAsUInt64(name, 9), (u64 ? (uint64_t)mag : 9u), pbt::show(text));
  if (number && digits.size() < 15) {
    REQUIRE_EQ(f.getExtraAsDouble(name, 0.5), (neg ? -(double)(uint64_t)mag : (double)(uint64_t)mag));
  }
  if (text == "0" || text == "false" || text == "1" || text == "true" || text.empty()) {
    bool def = s.flip();
    REQUIRE_EQ(f.getExtraAsBool(name, def), (text.empty() ? def : text[0] == '1' || text[0] == 't'));
  }
  f.unsetExtra(name);
  REQUIRE(!f.hasExtra(name));
  REQUIRE_EQ(f.getExtraAsInt(name, di), di);
  REQUIRE_EQ(f.getExtra(name), string());
  // locations
  FileSpec g;
  string scheme = "s" + s.ident(4), host = "h" + s.ident(6) + s.pick(vector<string>{"", ".com", "-x", "_9"});
  string slashes(s.below(3), '/');
  string rest = s.pick(vector<string>{"", "/path", "?q=1", ":80/x", "/a/b?c=d"});
  REQUIRE_EQ(g.fromPathJsonUri(scheme + ":" + slashes + host + rest), 0);
  REQUIRE_EQ(g.getSourceLocation(), scheme + ":" + slashes + host);
  if (number) {
    c.nontrivial(text);
  }
}

// -- file handlers and delegators ---------------------------------------------------------------
namespace {
struct Handler : DiskFile {
  explicit Handler(string n) : name(std::move(n)) {}
  unique_ptr<FileHandler> makeNew() const override {
    return std::make_unique<Handler>(name);
  }
  const string& getFileHandlerName() const override {
    return name;
  }
  int openSpec(const FileSpec& spec) override {
    return isFileHandlerMatch(spec) ? SUCCESS : (int)FILE_HANDLER_MISMATCH;
  }
  bool isOpened() const override {
    return true;
  }
  string name;
};
struct Delegator : FileDelegator {
  explicit Delegator(string n) : name(std::move(n)) {}
  int delegateOpen(const FileSpec&, unique_ptr<FileHandler>& out) override {
    out = std::make_unique<Handler>(name);
    return 0;
  }
  string name;
};
} // namespace

PBT_TEST(
    handlers,
    150000,
    1200000,
    "up to 25 registrations and removals of handlers, delegators and option delegators, between requests to open specifications by handler name "
    "and options; the object that gets the request compared with a model; non-trivial: 3 different answers or more; distinct by history") {
  auto& factory = FileHandlerFactory::getInstance();
  const vector<string> names{"h1", "h2", "h3"};
  map<string, string> handlers, delegators;
  map<string, map<string, string>> extras;
  std::set<string> answers;
  std::ostringstream note;
  for (size_t n = s.size(25); n > 0; n--) {
    string name = s.pick(names), value = s.pick(names);
    string tag = name + value + std::to_string(s.below(4));
    size_t op = s.weighted({8, 3, 3, 3, 1, 1, 1});
    note << op << name << value << tag << " ";
    switch (op) {
      case 1:
        factory.registerFileHandler(std::make_unique<Handler>(name));
        handlers[name] = name;
        break;
      case 2:
        factory.registerFileDelegator(name, std::make_unique<Delegator>("d" + tag));
        delegators[name] = "d" + tag;
        break;
      case 3:
        factory.registerExtraDelegator("x" + name, value, std::make_unique<Delegator>("e" + tag));
        extras["x" + name][value] = "e" + tag;
        break;
      case 4:
        factory.unregisterFileHandler(name);
        handlers.erase(name);
        break;
      case 5:
        factory.unregisterFileDelegator(name);
        delegators.erase(name);
        break;
      case 6:
        if (extras.count("x" + name)) {
          factory.unregisterExtraDelegator("x" + name, value);
          extras["x" + name].erase(value);
          if (extras["x" + name].empty()) {
            extras.erase("x" + name);
          }
        }
        break;
      default: {
        FileSpec f;
        f.fileHandlerName = name;
        f.chunks = {"path"};
        if (s.chance(1, 3)) {
          f.extras["x" + s.pick(names)] = value;
        }
        // the expected answer: the first registered option present decides, then delegators, then handlers
        string expected;
        bool decided = false;
        for (auto& x : extras) {
          auto it = f.extras.find(x.first);
          if (it != f.extras.end()) {
            auto d = x.second.find(it->second);
            expected = d == x.second.end() ? "" : d->second;
            decided = true;
            break;
          }
        }
        if (!decided) {
          expected = delegators.count(name) ? delegators[name] : handlers.count(name) ? name : "";
        }
        unique_ptr<FileHandler> out;
        int status = factory.delegateOpen(f, out);
        REQUIRE_EQ_MSG(status == 0, !expected.empty(), note.str());
        if (status == 0) {
          REQUIRE_EQ_MSG(out->getFileHandlerName(), expected, note.str());
        }
        answers.insert(expected);
      }
    }
  }
  for (auto& n : names) {
    factory.unregisterFileHandler(n);
    factory.unregisterFileDelegator(n);
    if (extras.count("x" + n)) {
      for (auto& v : names) {
        factory.unregisterExtraDelegator("x" + n, v);
        auto& m = extras["x" + n];
        m.erase(v);
        if (m.empty()) {
          break;
        }
      }
    }
  }
  if (answers.size() >= 3) {
    c.nontrivial(note.str());
  }
}
