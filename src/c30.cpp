// C30: helper conversions are total and consistent.
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <climits>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>

#include <vrs/Compressor.h>
#include <vrs/FileHandler.h>
#include <vrs/Record.h>
#include <vrs/RecordFormat.h>
#include <vrs/helpers/EnumStringConverter.h>
#include <vrs/helpers/MemBuffer.h>
#include <vrs/helpers/Strings.h>
#include <vrs/helpers/Throttler.h>
#include <vrs/os/FileList.h>
#include <vrs/os/Utils.h>

#include "pbt.h"

using namespace vrs;
using std::string;
using std::string_view;
using std::vector;

namespace {

/// text over a small alphabet (so that matches happen), or of any kind, without NULs
string textNoNul(pbt::Src& s, const string& alphabet, size_t most = 24) {
  string t;
  if (s.chance(1, 5)) {
    t = s.anyText(most);
  } else {
    size_t n = s.size(most);
    for (size_t k = 0; k < n; k++) {
      t.push_back(alphabet[s.below(alphabet.size())]);
    }
  }
  t.erase(std::remove(t.begin(), t.end(), '\0'), t.end());
  return t;
}

/// a heap copy of exactly the bytes of a text, so that reading past them is detected
struct Exact {
  std::unique_ptr<char[]> data;
  size_t size;
  explicit Exact(const string& t) : data{new char[t.size()]}, size{t.size()} {
    memcpy(data.get(), t.data(), size);
  }
  string_view view() const {
    return {data.get(), size};
  }
};

char lower(char c) {
  return c >= 'A' && c <= 'Z' ? char(c + 32) : c;
}

string lowered(string t) {
  for (char& c : t) {
    c = lower(c);
  }
  return t;
}

string recased(pbt::Src& s, string t) {
  for (char& c : t) {
    if (((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')) && s.flip()) {
      c = char(c ^ 32);
    }
  }
  return t;
}

int sign(int v) {
  return v < 0 ? -1 : v > 0 ? 1 : 0;
}

bool digit(char c) {
  return c >= '0' && c <= '9';
}

/// natural order of file names: digit runs are numbers, everything else bytes
int naturalCompare(const string& a, const string& b) {
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    if (digit(a[i]) && digit(b[j])) {
      size_t ie = i, je = j;
      while (ie < a.size() && digit(a[ie])) {
        ie++;
      }
      while (je < b.size() && digit(b[je])) {
        je++;
      }
      while (i < ie && a[i] == '0') {
        i++;
      }
      while (j < je && b[j] == '0') {
        j++;
      }
      if (ie - i != je - j) {
        return ie - i < je - j ? -1 : 1;
      }
      int cmp = a.compare(i, ie - i, b, j, je - j);
      if (cmp != 0) {
        return sign(cmp);
      }
      i = ie;
      j = je;
    } else {
      if (a[i] != b[j]) {
        return (uint8_t)a[i] < (uint8_t)b[j] ? -1 : 1;
      }
      i++;
      j++;
    }
  }
  return i < a.size() ? 1 : j < b.size() ? -1 : 0;
}

string modelTrim(const string& t, const string& white) {
  size_t b = t.find_first_not_of(white);
  if (b == string::npos) {
    return {};
  }
  size_t e = t.find_last_not_of(white);
  return t.substr(b, e - b + 1);
}

/// the text of a number, or something close
string numberText(pbt::Src& s) {
  string t;
  switch (s.below(8)) {
    case 0:
      t = std::to_string((int64_t)s.interesting(64));
      break;
    case 1:
      t = std::to_string(s.interesting(64));
      break;
    case 2:
      t = std::to_string((int32_t)s.interesting(32));
      break;
    case 3: {
      __int128 edges[] = {INT_MAX, INT_MIN, INT64_MAX, INT64_MIN, (__int128)UINT64_MAX, UINT32_MAX, 0};
      __int128 v = edges[s.below(7)] + (int)s.below(5) - 2;
      bool neg = v < 0;
      if (neg) {
        v = -v;
      }
      do {
        t.insert(t.begin(), char('0' + (int)(v % 10)));
        v /= 10;
      } while (v != 0);
      if (neg) {
        t.insert(t.begin(), '-');
      }
      break;
    }
    case 4: {
      size_t n = s.size(30);
      for (size_t k = 0; k < n; k++) {
        t.push_back((char)('0' + s.below(10)));
      }
      break;
    }
    case 5:
      t = s.anyText(6);
      break;
    default:
      t = std::to_string(s.below(2000));
      break;
  }
  if (s.chance(1, 6)) {
    t.insert(t.begin(), s.below(3) + 1, '0');
  }
  if (s.chance(1, 6)) {
    const char* extra[] = {"+", "-", " ", "x", ".", "e3", "0x", "--"};
    size_t at = s.flip() ? 0 : s.below(t.size() + 1);
    t.insert(at, extra[s.below(8)]);
  }
  return t;
}

/// strict decimal parser: digits, with a leading minus when allowed
std::optional<__int128> strictNumber(const string& t, bool allowMinus) {
  size_t k = 0;
  bool neg = false;
  if (allowMinus && !t.empty() && t[0] == '-') {
    neg = true;
    k = 1;
  }
  if (k == t.size()) {
    return {};
  }
  __int128 v = 0;
  for (; k < t.size(); k++) {
    if (!digit(t[k])) {
      return {};
    }
    if (v < ((__int128)1 << 120) / 10) {
      v = v * 10 + (t[k] - '0');
    }
  }
  return neg ? -v : v;
}

} // namespace

PBT_TEST(trimming, 150000, 2400000, "there was something to trim and something to keep") {
  const char* alphabets[] = {" \tab", "x. y", "\n\r a"};
  const string white = s.flip() ? string(" \t") : textNoNul(s, " \t.xy\"'", 4);
  string t = textNoNul(s, alphabets[s.below(3)]);
  string want = modelTrim(t, white);
  Exact exact(t);
  string_view view = helpers::trimView(exact.view(), white.c_str());
  string got = helpers::trim(t, white.c_str());
  REQUIRE_EQ_MSG(got, want, pbt::show(t) + " trimming " + pbt::show(white));
  REQUIRE_EQ_MSG(string(view), want, pbt::show(t) + " trimming " + pbt::show(white));
  REQUIRE(view.empty() || (view.data() >= exact.view().data() && view.data() + view.size() <= exact.view().data() + t.size()));
  if (white == " \t") {
    REQUIRE_EQ(helpers::trim(t), want);
    REQUIRE_EQ(string(helpers::trimView(t)), want);
  }
  if (!want.empty() && want.size() < t.size()) {
    c.nontrivial(t + white);
  }
}

PBT_TEST(caseInsensitive, 150000, 2400000, "the texts compared share a first character") {
  string a = textNoNul(s, "aAbB@`[{zZ_\xe9", 10);
  string b = s.chance(1, 3) ? recased(s, a) : s.chance(1, 2) ? recased(s, a) + textNoNul(s, "aAbB", 4) : textNoNul(s, "aAbB@`[{zZ_\xe9", 10);
  if (s.flip()) {
    std::swap(a, b);
  }
  string la = lowered(a), lb = lowered(b);
  Exact ea(a), eb(b);
  int want = la == lb ? 0 : std::lexicographical_compare(la.begin(), la.end(), lb.begin(), lb.end(), [](char x, char y) {
    return (uint8_t)x < (uint8_t)y;
  }) ? -1 : 1;
  string what = pbt::show(a) + " and " + pbt::show(b);
  REQUIRE_EQ_MSG(sign(helpers::strcasecmp(ea.view(), eb.view())), want, what);
  REQUIRE_EQ_MSG(sign(helpers::strcasecmp(eb.view(), ea.view())), -want, what);
  REQUIRE_EQ_MSG(sign(helpers::strcasecmp(a, b)), want, what);
  REQUIRE_EQ_MSG(sign(helpers::strcasecmp(a, b.c_str())), want, what);
  REQUIRE_EQ_MSG(sign(helpers::strcasecmp(a.c_str(), b)), want, what);
  bool starts = la.size() >= lb.size() && la.compare(0, lb.size(), lb) == 0;
  bool ends = la.size() >= lb.size() && la.compare(la.size() - lb.size(), lb.size(), lb) == 0;
  REQUIRE_EQ_MSG(helpers::startsWith(ea.view(), eb.view()), starts, what);
  REQUIRE_EQ_MSG(helpers::endsWith(ea.view(), eb.view()), ends, what);
  if (!a.empty() && !b.empty() && la[0] == lb[0]) {
    c.nontrivial(a + "|" + b);
  }
}

PBT_TEST(naturalOrder, 200000, 3200000, "two of the names have digits where they differ") {
  auto name = [&] {
    string t;
    size_t parts = s.below(5);
    for (size_t k = 0; k < parts; k++) {
      switch (s.below(3)) {
        case 0:
          t += string(s.below(3), '0') + std::to_string(s.flip() ? s.below(12) : s.interesting(40));
          break;
        case 1:
          t += s.pick(vector<string>{"a", "b", "image", ".", "-", "_", "/", ":", "\xc3\xa9", "\xff", "Z", " "});
          break;
        default:
          t += textNoNul(s, "01a.", 3);
          break;
      }
    }
    return t;
  };
  vector<string> names(3);
  names[0] = name();
  for (size_t k = 1; k < 3; k++) {
    names[k] = name();
    if (s.chance(1, 3)) { // a relative of another name
      names[k] = names[0];
      if (!names[k].empty() && s.flip()) {
        names[k].resize(s.below(names[k].size()));
      }
      if (s.flip()) {
        size_t at = s.below(names[k].size() + 1);
        names[k].insert(at, s.pick(vector<string>{"0", "1", "00", "9", "a", "\xc3"}));
      }
    }
  }
  bool digits = false;
  for (auto& x : names) {
    for (auto& y : names) {
      int want = naturalCompare(x, y);
      REQUIRE_EQ_MSG(helpers::beforeFileName(x.c_str(), y.c_str()), want < 0, pbt::show(x) + " before " + pbt::show(y));
      REQUIRE_EQ(helpers::beforefileName(x, y), want < 0);
      size_t k = 0;
      while (k < x.size() && k < y.size() && x[k] == y[k]) {
        k++;
      }
      digits = digits || (k < x.size() && k < y.size() && digit(x[k]) && digit(y[k]));
    }
  }
  // strict weak order: irreflexive, asymmetric, with transitive precedence and equivalence
  auto before = [&](int i, int j) { return helpers::beforeFileName(names[i].c_str(), names[j].c_str()); };
  auto same = [&](int i, int j) { return !before(i, j) && !before(j, i); };
  for (int i = 0; i < 3; i++) {
    REQUIRE(!before(i, i));
    for (int j = 0; j < 3; j++) {
      REQUIRE(!(before(i, j) && before(j, i)));
      for (int k = 0; k < 3; k++) {
        REQUIRE(!(before(i, j) && before(j, k)) || before(i, k));
        REQUIRE(!(same(i, j) && same(j, k)) || same(i, k));
      }
    }
  }
  if (digits) {
    c.nontrivial(names[0] + "|" + names[1] + "|" + names[2]);
  }
}

PBT_TEST(replacing, 100000, 1600000, "the token is there at least twice, or is part of its replacement") {
  string t = textNoNul(s, "abab.", 30);
  string token = textNoNul(s, "ab", 3), by = s.chance(1, 3) ? token + textNoNul(s, "ab", 2) : textNoNul(s, "abx", 4);
  string want;
  size_t count = 0;
  if (token.empty()) {
    want = t;
  } else {
    for (size_t k = 0; k < t.size();) {
      if (t.compare(k, token.size(), token) == 0) {
        want += by;
        k += token.size();
        count++;
      } else {
        want += t[k++];
      }
    }
  }
  string got = t;
  bool replaced = helpers::replaceAll(got, token, by);
  string what = pbt::show(t) + ": " + pbt::show(token) + " by " + pbt::show(by);
  REQUIRE_EQ_MSG(got, want, what);
  REQUIRE_EQ_MSG(replaced, count > 0, what);
  if (count > 1 || (count > 0 && by.find(token) != string::npos)) {
    c.nontrivial(what);
  }
}

PBT_TEST(splitting, 150000, 2400000, "there were two tokens at least, one of them empty or trimmed") {
  char delimiter = s.pick(vector<char>{',', ' ', '|', '\n', 'x'});
  string t = textNoNul(s, string("ab \t") + delimiter + delimiter, 30);
  bool skipEmpty = s.flip();
  const string white = s.flip() ? string(" \t") : string("a");
  const char* trimChars = s.flip() ? white.c_str() : nullptr;
  vector<string> raw; // the tokens, always one more than there are delimiters
  raw.emplace_back();
  for (char ch : t) {
    if (ch == delimiter) {
      raw.emplace_back();
    } else {
      raw.back().push_back(ch);
    }
  }
  bool interesting = false;
  auto cook = [&](const vector<string>& in) {
    vector<string> out;
    for (auto& x : in) {
      string y = trimChars != nullptr ? modelTrim(x, trimChars) : x;
      interesting = interesting || y.empty() || y != x;
      if (!(skipEmpty && y.empty())) {
        out.push_back(y);
      }
    }
    return out;
  };
  vector<string> wantViews = cook(raw);
  size_t pieces = raw.size();
  if (raw.back().empty()) {
    raw.pop_back(); // split() never reports an empty token at the end
  }
  vector<string> want = cook(raw);
  vector<string> got = {"previous", "content"};
  vector<string_view> views = {"previous"};
  Exact exact(t);
  size_t n = helpers::split(t, delimiter, got, skipEmpty, trimChars);
  size_t m = helpers::splitViews(exact.view(), delimiter, views, skipEmpty, trimChars);
  string what = pbt::show(t) + " at " + pbt::show(string(1, delimiter));
  REQUIRE_EQ_MSG(n, got.size(), what);
  REQUIRE_EQ_MSG(m, views.size(), what);
  REQUIRE_MSG(got == want, what);
  vector<string> gotViews(views.begin(), views.end());
  REQUIRE_MSG(gotViews == wantViews, what + ", views");
  for (auto& v : views) {
    REQUIRE(v.empty() || (v.data() >= exact.data.get() && v.data() + v.size() <= exact.data.get() + exact.size));
  }
  if (pieces > 1 && interesting) {
    c.nontrivial(what);
  }
}

PBT_TEST(numbers, 300000, 4800000, "the text is a number, or one edit away from one") {
  string t = s.chance(1, 8) ? s.pick(vector<string>{"0", "false", "off", "no", "true", "1", "n", "offs", "00", " no"}) : numberText(s);
  t = recased(s, t);
  Exact exact(t);
  StringStringMap m;
  string key = s.ident(8);
  m[key] = t;
  m[key + "x"] = "17";
  string what = pbt::show(t);
  if (!t.empty() && std::any_of(t.begin(), t.end(), digit)) {
    c.nontrivial(t);
  }
  {
    auto v = strictNumber(t, true);
    int i = 42, i2 = 42;
    bool want = v && *v >= INT_MIN && *v <= INT_MAX;
    REQUIRE_EQ_MSG(helpers::readInt(exact.view(), i), want, what);
    REQUIRE_EQ_MSG(helpers::getInt(m, key, i2), want, what);
    REQUIRE_MSG(!want || (i == (int)*v && i2 == i), what);
    int64_t l = 42, l2 = 42;
    want = v && *v >= INT64_MIN && *v <= INT64_MAX;
    REQUIRE_EQ_MSG(helpers::readInt64(exact.view(), l), want, what);
    REQUIRE_EQ_MSG(helpers::getInt64(m, key, l2), want, what);
    REQUIRE_MSG(!want || (l == (int64_t)*v && l2 == l), what);
    v = strictNumber(t, false);
    uint64_t u = 42, u2 = 42;
    want = v && *v <= UINT64_MAX;
    REQUIRE_EQ_MSG(helpers::readUInt64(exact.view(), u), want, what);
    REQUIRE_EQ_MSG(helpers::getUInt64(m, key, u2), want, what);
    REQUIRE_MSG(u == (want ? (uint64_t)*v : 0) && u2 == u, what);
  }
  {
    bool b = s.flip(), b2 = b;
    string l = lowered(t);
    bool value = !(l == "0" || l == "false" || l == "off" || l == "no");
    REQUIRE_EQ_MSG(helpers::readBool(exact.view(), b), !t.empty(), what);
    REQUIRE_EQ_MSG(helpers::getBool(m, key, b2), !t.empty(), what);
    REQUIRE_MSG(t.empty() || (b == value && b2 == value), what);
  }
  { // next unsigned number of a text: as many digits as there are
    const char* start = t.c_str();
    const char* p = start;
    size_t n = 0;
    while (digit(start[n])) {
      n++;
    }
    auto v = strictNumber(t.substr(0, n), false);
    bool want = v && *v <= UINT32_MAX;
    uint32_t u = 42;
    REQUIRE_EQ_MSG(helpers::parseNextUInt32(p, u), want, what);
    REQUIRE_EQ_MSG((size_t)(p - start), want ? n : 0, what);
    REQUIRE_MSG(!want || u == (uint32_t)*v, what);
  }
  { // doubles written with all their digits come back
    double d = s.real();
    if (std::isfinite(d) && (d == 0 || std::fabs(d) >= std::numeric_limits<double>::min())) {
      char text[64];
      snprintf(text, sizeof(text), "%.17g", d);
      m["d"] = text;
      double back = 42;
      REQUIRE_MSG(helpers::getDouble(m, "d", back), text);
      REQUIRE_EQ_MSG(back, d, text);
    }
    double before = 42;
    m["d"] = s.pick(vector<string>{"", "abc", "-", ".", "e5"});
    REQUIRE(!helpers::getDouble(m, "d", before));
    REQUIRE_EQ(before, 42.);
  }
  { // no field, no value
    string none = key + "~none";
    int i = 42;
    int64_t l = 42;
    uint64_t u = 42;
    double d = 42;
    bool b = true;
    REQUIRE(!helpers::getInt(m, none, i) && !helpers::getInt64(m, none, l) && !helpers::getUInt64(m, none, u) && !helpers::getDouble(m, none, d) && !helpers::getBool(m, none, b));
    REQUIRE(i == 42 && l == 42 && u == 42 && d == 42 && b);
    REQUIRE(!helpers::getByteSize(m, none, u));
    REQUIRE_EQ(u, 0u);
  }
}

PBT_TEST(byteSizes, 200000, 3200000, "a number with a unit") {
  string t = numberText(s);
  string unit;
  if (s.chance(3, 4)) {
    unit = s.pick(vector<string>{"B", "KB", "MB", "GB", "TB", "EB", "K", "M", "XB", "KBs", "Bx", "KiB", " KB", "PB", "kk"});
    if (s.chance(1, 2)) {
      t = std::to_string(s.below(s.flip() ? 30000 : 200000000));
    }
  }
  string text = t + recased(s, unit);
  // a number, followed by nothing or by one of the documented units
  size_t n = 0;
  while (n < text.size() && digit(text[n])) {
    n++;
  }
  auto v = strictNumber(text.substr(0, n), false);
  string rest = lowered(text.substr(n));
  static const std::map<string, int> kShift = {{"", 0}, {"b", 0}, {"kb", 10}, {"mb", 20}, {"gb", 30}, {"tb", 40}, {"eb", 50}};
  auto it = kShift.find(rest);
  bool want = v && it != kShift.end() && *v <= (__int128)(UINT64_MAX >> it->second);
  uint64_t value = want ? (uint64_t)*v << it->second : 0;
  Exact exact(text);
  uint64_t got = 42, got2 = 42;
  REQUIRE_EQ_MSG(helpers::readByteSize(exact.view(), got), want, pbt::show(text));
  REQUIRE_EQ_MSG(got, value, pbt::show(text));
  StringStringMap m{{"size", text}};
  REQUIRE_EQ_MSG(helpers::getByteSize(m, "size", got2), want, pbt::show(text));
  REQUIRE_EQ_MSG(got2, value, pbt::show(text));
  if (v && !rest.empty()) {
    c.nontrivial(text);
  }
}

PBT_TEST(fileSizes, 200000, 3200000, "more than a KiB") {
  static const std::map<string, int> kUnits = {{"B", 0}, {"KiB", 10}, {"MiB", 20}, {"GiB", 30}, {"TiB", 40}, {"PiB", 50}, {"EiB", 60}};
  auto parsed = [&](int64_t bytes) {
    string text = helpers::humanReadableFileSize(bytes);
    string what = std::to_string(bytes) + " printed as " + text;
    char* end = nullptr;
    double v = strtod(text.c_str(), &end);
    REQUIRE_MSG(end != text.c_str() && *end == ' ', what);
    auto it = kUnits.find(end + 1);
    REQUIRE_MSG(it != kUnits.end(), what);
    REQUIRE_EQ_MSG(text[0] == '-', bytes < 0, what);
    v = std::fabs(v);
    // the greatest unit which gives at least 1, and up to 3 digits or 4 before the dot
    uint64_t ubytes = bytes < 0 ? 0 - (uint64_t)bytes : (uint64_t)bytes;
    int shift = 0;
    while (shift < 60 && (ubytes >> shift) >= 1024) {
      shift += 10;
    }
    REQUIRE_EQ_MSG(it->second, shift, what);
    long double exact = (long double)ubytes / (long double)(1ull << shift);
    long double off = std::fabs((long double)v - exact);
    long double tolerance = shift == 0 ? 0 : exact >= 100 ? 1 : exact >= 10 ? 0.0625 + 0.05 + 0.001 : 0.00625 + 0.005 + 0.001;
    REQUIRE_MSG(off <= tolerance, what);
    REQUIRE_MSG(v < 1024, what);
    size_t dot = text.find('.');
    size_t decimals = dot == string::npos ? 0 : text.find(' ') - dot - 1;
    REQUIRE_EQ_MSG(decimals, shift == 0 || exact >= 100 ? 0u : exact >= 10 ? 1u : 2u, what);
    return std::ldexp(v, shift);
  };
  int64_t a = (int64_t)s.interesting(63);
  if (s.flip()) {
    int shift = 10 * (int)s.below(7);
    a = (int64_t)(s.below(1100) << shift) + (int64_t)s.below(5) - 2;
    if (s.flip() && shift > 0) {
      a += (int64_t)(s.u64() & ((1ull << shift) - 1));
    }
    a = a < 0 ? -(a + 1) : a;
  }
  int64_t b = s.flip() ? (int64_t)s.interesting(63) : a + (int64_t)std::min<uint64_t>(s.interesting(40), (uint64_t)(INT64_MAX - a));
  if (a > b) {
    std::swap(a, b);
  }
  double va = parsed(a), vb = parsed(b);
  REQUIRE_MSG(va <= vb, std::to_string(a) + " and " + std::to_string(b) + " printed in the other order");
  REQUIRE_EQ(parsed(-a), va);
  REQUIRE_EQ(helpers::humanReadableFileSize((uint64_t)a), helpers::humanReadableFileSize(a));
  if (a >= 1024) {
    c.nontrivial((uint64_t)a ^ pbt::mix64((uint64_t)b));
  }
}

PBT_TEST(durations, 200000, 3200000, "more than a minute, or less than a second") {
  double d = 0;
  switch (s.below(4)) {
    case 0:
      d = s.real();
      break;
    case 1: {
      double unit = s.pick(vector<double>{1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 1, 60, 3600, 86400, 7 * 86400., 31557600});
      d = unit * (double)s.below(2000);
      d = s.flip() ? d : d + unit * (double)s.below(1000) / 1000;
      break;
    }
    case 2: {
      d = s.pick(vector<double>{60, 3600, 86400, 7 * 86400., 31557600, 1e9 * 31557600, 1, 2e-3, 2e-6, 2e-9, 2e-12, 2e-15, 2e-18}) * (double)(1 + s.below(3));
      d = std::nextafter(d, s.flip() ? 0 : INFINITY);
      break;
    }
    default:
      d = (double)s.below(1000000000) / 1000;
      break;
  }
  if (s.chance(1, 4)) {
    d = -d;
  }
  string text = helpers::humanReadableDuration(d);
  string what = pbt::show(d) + " printed as " + text;
  REQUIRE(!text.empty());
  if (!std::isfinite(d) || std::fabs(d) > 1e307) {
    return;
  }
  // add the parts back up
  const char* p = text.c_str();
  bool neg = *p == '-';
  if (neg) {
    p++;
  }
  REQUIRE_EQ_MSG(neg, std::signbit(d), what);
  struct Unit {
    const char* suffix;
    double seconds;
  };
  static const Unit kUnits[] = {{" year, ", 31557600}, {" years, ", 31557600}, {" week, ", 604800}, {" weeks, ", 604800},
      {" day, ", 86400}, {" days, ", 86400}, {"h ", 3600}, {"m ", 60}, {"ms", 1e-3}, {"us", 1e-6}, {"ns", 1e-9}, {"ps", 1e-12}, {"fs", 1e-15}, {"s", 1}};
  double sum = 0, last = 1e300, least = 0;
  while (*p != 0) {
    char* end = nullptr;
    double v = strtod(p, &end);
    REQUIRE_MSG(end != p, what);
    const Unit* unit = nullptr;
    for (auto& u : kUnits) {
      if (strncmp(end, u.suffix, strlen(u.suffix)) == 0) {
        unit = &u;
        break;
      }
    }
    REQUIRE_MSG(unit != nullptr, what);
    REQUIRE_MSG(unit->seconds < last, what + ": units out of order");
    last = least = unit->seconds;
    bool plural = strstr(unit->suffix, "s, ") != nullptr;
    if (strstr(unit->suffix, ", ") != nullptr) {
      REQUIRE_EQ_MSG(plural, v != 1, what);
    }
    sum += v * unit->seconds;
    p = end + strlen(unit->suffix);
  }
  double a = std::fabs(d);
  double tolerance = a * 1e-9 + (least >= 1 ? 0.0005001 : least * 0.5001);
  if (a < 2e-15) {
    tolerance = a < 2e-18 ? a * 1e-5 + 1e-320 : 0.0005001e-15;
  }
  REQUIRE_MSG(std::fabs(sum - a) <= tolerance, what + ", which is " + pbt::show(sum));
  if (a >= 60 && a < 1e9 * 31557600) { // no part is worth one of the next unit
    REQUIRE_MSG(least == 1, what);
  }
  if (a > 60 || (a > 0 && a < 1)) {
    c.nontrivial(text);
  }
}

PBT_TEST(timestamps, 200000, 3200000, "a time with a fraction") {
  double d = s.flip() ? s.real() : (double)(int64_t)s.interesting(50) / s.pick(vector<double>{1, 1000, 1e6, 1e9, 1e12});
  if (s.chance(1, 5)) {
    d = std::nextafter(s.pick(vector<double>{1e-3, 1e-6, 1e-9, 1e10}), s.flip() ? 0 : 1e300);
  }
  if (s.chance(1, 4)) {
    d = -d;
  }
  uint8_t precision = s.flip() ? s.pick(vector<uint8_t>{3, 6, 9}) : (uint8_t)s.below(12);
  string text = helpers::humanReadableTimestamp(d, precision);
  string what = pbt::show(d) + " with precision " + std::to_string(precision) + " printed as " + text;
  REQUIRE(!text.empty());
  if (precision == 3) {
    REQUIRE_EQ(helpers::humanReadableTimestamp(d), text);
  }
  if (!std::isfinite(d) || std::fabs(d) > 1e307) {
    return;
  }
  int digits = precision <= 3 ? 3 : precision <= 6 ? 6 : 9;
  double a = std::fabs(d);
  char* end = nullptr;
  double back = strtod(text.c_str(), &end);
  REQUIRE_MSG(*end == 0, what);
  bool scientific = text.find('e') != string::npos;
  double tiny = std::pow(10, -digits);
  if (a != 0 && (a < tiny * (1 - 1e-9) || a >= 1e10)) {
    REQUIRE_MSG(scientific, what);
  } else if (a == 0 || (a > tiny * (1 + 1e-9) && a < 1e10)) {
    REQUIRE_MSG(!scientific, what);
    REQUIRE_EQ_MSG(text.size() - text.find('.') - 1, (size_t)digits, what);
    REQUIRE_MSG(std::fabs(back - d) <= tiny * 0.5001 + a * 1e-15, what);
  }
  if (scientific) {
    REQUIRE_MSG(std::fabs(back - d) <= a * (a >= 1 ? 0.5001e-9 : 0.5001e-3) + 5e-324, what);
  }
  if (d != std::floor(d)) {
    c.nontrivial(text);
  }
}

PBT_TEST(dateTimes, 150000, 2400000, "after 1970") {
  static bool utc = [] {
    setenv("TZ", "UTC", 1);
    tzset();
    return true;
  }();
  (void)utc;
  int64_t t = (int64_t)(s.flip() ? s.below(253402300800ull) : s.below(4102444800ull));
  // civil date of a day count
  int64_t days = t / 86400, sec = t % 86400;
  int64_t y = 1970;
  auto leap = [](int64_t yr) { return (yr % 4 == 0 && yr % 100 != 0) || yr % 400 == 0; };
  int64_t eras = days / 146097;
  y += eras * 400;
  days -= eras * 146097;
  while (days >= (leap(y) ? 366 : 365)) {
    days -= leap(y) ? 366 : 365;
    y++;
  }
  int lengths[] = {31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int month = 0;
  while (days >= lengths[month]) {
    days -= lengths[month++];
  }
  char want[80];
  snprintf(want, sizeof(want), "%04d-%02d-%02d %02d:%02d:%02d", (int)y, month + 1, (int)days + 1, (int)(sec / 3600), (int)(sec / 60 % 60), (int)(sec % 60));
  double fraction = (double)s.below(1000) / 1001;
  REQUIRE_EQ_MSG(helpers::humanReadableDateTime((double)t + fraction), string(want), std::to_string(t));
  (void)helpers::humanReadableDateTime(-(double)t);
  if (t > 0) {
    c.nontrivial((uint64_t)t);
  }
}

PBT_TEST(printable, 100000, 1600000, "there was something to escape") {
  string t;
  size_t n = s.size(60);
  for (size_t k = 0; k < n; k++) {
    t.push_back((char)s.below(s.flip() ? 256 : 40));
  }
  string want;
  bool escaped = false;
  for (char ch : t) {
    uint8_t u = (uint8_t)ch;
    if (u >= 32 && u < 127) {
      want.push_back(ch);
      continue;
    }
    escaped = true;
    switch (u) {
      case 10:
        want += "\\n";
        break;
      case 13:
        want += "\\r";
        break;
      case 9:
        want += "\\t";
        break;
      case 8:
        want += "\\b";
        break;
      case 27:
        want += "\\e";
        break;
      default: {
        char hex[8];
        snprintf(hex, sizeof(hex), "\\x%02x", u);
        want += hex;
      }
    }
  }
  REQUIRE_EQ(helpers::make_printable(t), want);
  if (escaped) {
    c.nontrivial(t);
  }
}

PBT_TEST(memBuffer, 75000, 1200000, "data was added in several pieces, over several blocks") {
  size_t alloc = s.pick(vector<size_t>{0, 1, 10, 100, 1000, 256 * 1024});
  helpers::MemBuffer buffer = alloc == 256 * 1024 ? helpers::MemBuffer() : helpers::MemBuffer(alloc);
  vector<uint8_t> want;
  size_t ops = 1 + s.below(20), pieces = 0;
  auto collect = [&] {
    vector<uint8_t> out = s.bytes(s.below(50));
    buffer.getData(out);
    REQUIRE_MSG(out == want, "got " + std::to_string(out.size()) + " bytes, wanted " + std::to_string(want.size()));
    want.clear();
    REQUIRE_EQ(buffer.getSize(), 0u);
  };
  for (size_t k = 0; k < ops; k++) {
    switch (s.below(5)) {
      case 0:
      case 1: {
        vector<uint8_t> data = s.bytes(s.size(s.flip() ? 20 : 400));
        data.reserve(1);
        buffer.addData(data.data(), data.size());
        want.insert(want.end(), data.begin(), data.end());
        pieces++;
        break;
      }
      case 2:
      case 3: {
        size_t least = s.size(s.flip() ? 20 : 400);
        uint8_t* space = nullptr;
        size_t available = buffer.allocateSpace(space, least);
        REQUIRE(available >= least);
        REQUIRE(space != nullptr || available == 0);
        size_t used = std::min<size_t>(available, s.flip() ? least : s.size(500));
        pbt::Prng p{s.u64()};
        for (size_t b = 0; b < std::min<size_t>(available, 600); b++) {
          space[b] = (uint8_t)p.next();
        }
        if (s.chance(5, 6)) {
          buffer.addAllocatedSpace(used);
          want.insert(want.end(), space, space + used);
          pieces++;
        }
        break;
      }
      default:
        if (s.chance(1, 3)) {
          collect();
        }
        break;
    }
    REQUIRE_EQ(buffer.getSize(), want.size());
  }
  if (pieces > 2 && want.size() > alloc) {
    c.nontrivial(pbt::hashBytes(want.data(), want.size()));
  }
  collect();
}

namespace {
template <class E>
void checkEnum(pbt::Src& s, const char* name, size_t count, E fallback, bool skipsZero) {
  std::set<string> names;
  for (size_t k = 0; k < count; k++) {
    E e = (E)k;
    string n = toString(e);
    string what = string(name) + " " + std::to_string(k) + " " + n;
    REQUIRE_MSG(!n.empty(), what);
    REQUIRE_MSG(names.insert(lowered(n)).second, what + ": name used twice");
    E want = k == 0 && skipsZero ? fallback : e;
    REQUIRE_MSG(toEnum<E>(n) == want, what);
    REQUIRE_MSG(toEnum<E>(recased(s, n)) == want, what);
    string other = s.flip() ? n + "x" : n.substr(0, n.size() - 1);
    if (names.count(lowered(other)) == 0) {
      bool isName = false;
      for (size_t j = 0; j < count; j++) {
        isName = isName || lowered(toString((E)j)) == lowered(other);
      }
      REQUIRE_MSG(isName || toEnum<E>(other) == fallback, what + ": " + other + " is no name");
    }
  }
  string junk = s.anyText(8);
  if (names.count(lowered(junk)) == 0) {
    REQUIRE_MSG(toEnum<E>(junk) == fallback, string(name) + " " + pbt::show(junk));
  }
  // values which aren't values have the name of the fallback
  E outside = (E)(count + s.below(5));
  REQUIRE_EQ(toString(outside), toString(fallback));
}

// a converter of our own, as its documentation shows
enum class Car : size_t { Unknown, Renault, Peugeot, Citroen };
const string_view sCarNames[] = {"Unknown", "Renault", "Peugeot", "Citroen"};
struct CarConverter : EnumStringConverter<Car, sCarNames, 4, Car::Citroen, Car::Unknown> {};
struct CarConverter0 : EnumStringConverter<Car, sCarNames, 4, Car::Citroen, Car::Peugeot, true> {};
} // namespace

PBT_TEST(enums, 15000, 240000, "always") {
  c.nontrivial(s.u64());
  checkEnum<ContentType>(s, "ContentType", (size_t)ContentType::COUNT, ContentType::CUSTOM, true);
  checkEnum<ImageFormat>(s, "ImageFormat", (size_t)ImageFormat::COUNT, ImageFormat::UNDEFINED, true);
  checkEnum<PixelFormat>(s, "PixelFormat", (size_t)PixelFormat::COUNT, PixelFormat::UNDEFINED, true);
  checkEnum<AudioFormat>(s, "AudioFormat", (size_t)AudioFormat::COUNT, AudioFormat::UNDEFINED, true);
  checkEnum<AudioSampleFormat>(s, "AudioSampleFormat", (size_t)AudioSampleFormat::COUNT, AudioSampleFormat::UNDEFINED, true);
  checkEnum<CachingStrategy>(s, "CachingStrategy", (size_t)CachingStrategy::COUNT, CachingStrategy::Undefined, true);
  for (auto t : {Record::Type::STATE, Record::Type::CONFIGURATION, Record::Type::DATA}) {
    REQUIRE(toEnum<Record::Type>(recased(s, toString(t))) == t);
  }
  for (int k = 0; k <= (int)CompressionPreset::LastZstdPreset; k++) {
    CompressionPreset p = (CompressionPreset)k;
    REQUIRE_MSG(toEnum<CompressionPreset>(recased(s, toString(p))) == p, toString(p));
  }
  for (auto t : {CompressionType::None, CompressionType::Lz4, CompressionType::Zstd}) {
    REQUIRE_MSG(toEnum<CompressionType>(recased(s, toString(t))) == t, toString(t));
  }
  size_t k = s.below(7);
  string n = k < 4 ? string(sCarNames[k]) : s.anyText(8);
  string r = recased(s, n);
  auto index = [&](const string& t, bool noCase, size_t first, size_t fallback) {
    for (size_t j = first; j < 4; j++) {
      if (t == sCarNames[j] || (noCase && lowered(t) == lowered(string(sCarNames[j])))) {
        return j;
      }
    }
    return fallback;
  };
  Exact er(r);
  REQUIRE_EQ((size_t)CarConverter::toEnum(er.view()), index(r, false, 1, 3));
  REQUIRE_EQ((size_t)CarConverter::toEnumNoCase(er.view()), index(r, true, 1, 3));
  REQUIRE_EQ((size_t)CarConverter0::toEnum(r), index(r, false, 0, 3));
  REQUIRE_EQ((size_t)CarConverter0::toEnumNoCase(r), index(r, true, 0, 3));
  REQUIRE_EQ(CarConverter::toString((Car)k), k < 4 ? string(sCarNames[k]) : "Unknown");
  REQUIRE_EQ(string(CarConverter0::toCString((Car)k)), k < 4 ? string(sCarNames[k]) : "Peugeot");
}

namespace {
struct Tree {
  string path;
  vector<string> files;
  vector<Tree> folders;
  bool ignored = false;
};

string fileName(pbt::Src& s) {
  string t;
  switch (s.below(3)) {
    case 0:
      t = s.pick(vector<string>{"image", "img", "\xc3\xa9", "Z", "b", ""}) + string(s.below(3), '0') + std::to_string(s.below(120)) + s.pick(vector<string>{"", ".vrs", ".png"});
      break;
    case 1:
      t = s.ident(8);
      break;
    default:
      t = os::sanitizeFileName(s.anyText(12));
      break;
  }
  return t.empty() || t == "." || t == ".." || t.size() > 200 ? "x" : t;
}

void makeTree(pbt::Src& s, Tree& tree, int depth, size_t& total) {
  std::set<string> names;
  size_t n = s.below(depth == 0 ? 25 : 8);
  for (size_t k = 0; k < n; k++) {
    string name = fileName(s);
    if (!names.insert(name).second) {
      continue;
    }
    string path = tree.path + "/" + name;
    size_t kind = s.weighted({8, 3, 1, 1});
    if (kind == 1 && depth < 4) {
      REQUIRE_EQ(mkdir(path.c_str(), 0755), 0);
      tree.folders.emplace_back();
      tree.folders.back().path = path;
      makeTree(s, tree.folders.back(), depth + 1, total);
    } else if (kind == 2) {
      const string& target = !tree.files.empty() && s.flip() ? tree.files[s.below(tree.files.size())] : tree.path;
      REQUIRE_EQ(symlink(target.c_str(), path.c_str()), 0); // links aren't followed
      string linked;
      REQUIRE(os::getLinkedTarget(path, linked));
      char* real = realpath(target.c_str(), nullptr);
      REQUIRE_EQ(linked, string(real));
      free(real);
    } else if (kind == 3) {
      REQUIRE_EQ(mkfifo(path.c_str(), 0644), 0); // not a regular file
    } else {
      FILE* f = os::fileOpen(path, "wb");
      REQUIRE_MSG(f != nullptr, pbt::show(path));
      os::fileWriteString(f, name);
      os::fileClose(f);
      REQUIRE(os::isFile(path) && os::pathExists(path) && !os::isDir(path));
      REQUIRE_EQ((size_t)os::getFileSize(path), name.size());
      tree.files.push_back(path);
      total++;
    }
  }
}

/// files of a folder first, then each of its folders in turn; entries of one group of a folder
/// are only expected in the order of their names
void expectList(const Tree& tree, int depth, vector<string>& out) {
  vector<string> files = tree.files;
  std::stable_sort(files.begin(), files.end(), [](const string& a, const string& b) { return naturalCompare(a, b) < 0; });
  out.insert(out.end(), files.begin(), files.end());
  if (depth > 0) {
    vector<const Tree*> folders;
    for (auto& f : tree.folders) {
      folders.push_back(&f);
    }
    std::sort(folders.begin(), folders.end(), [](const Tree* a, const Tree* b) { return a->path < b->path; });
    for (auto* f : folders) {
      expectList(*f, depth - 1, out);
    }
  }
}

void requireSameList(const vector<string>& got, const vector<string>& want, const string& what) {
  REQUIRE_EQ_MSG(got.size(), want.size(), what);
  for (size_t k = 0; k < got.size(); k++) {
    REQUIRE_MSG(naturalCompare(got[k], want[k]) == 0, what + " #" + std::to_string(k) + ": " + pbt::show(got[k]) + " rather than " + pbt::show(want[k]));
  }
  vector<string> a = got, b = want;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  REQUIRE_MSG(a == b, what);
}
} // namespace

PBT_TEST(fileLists, 6000, 96000, "more than a few files, in more than one folder") {
  Tree tree;
  tree.path = c.dir() + "/tree";
  REQUIRE_EQ(os::makeDir(tree.path), 0);
  size_t total = 0;
  makeTree(s, tree, 0, total);
  vector<string> files = {"previous"}, folders = {"old"};
  REQUIRE_EQ(os::getFilesAndFolders(tree.path, files, &folders), 0);
  vector<string> want;
  expectList(tree, 0, want);
  want.push_back("previous");
  std::stable_sort(want.begin(), want.end(), [](const string& a, const string& b) { return naturalCompare(a, b) < 0; });
  requireSameList(files, want, "files");
  vector<string> wantFolders;
  for (auto& f : tree.folders) {
    wantFolders.push_back(f.path);
  }
  std::sort(wantFolders.begin(), wantFolders.end());
  REQUIRE_MSG(folders == wantFolders, "folders");
  vector<string> entries = os::listDir(tree.path);
  std::set<string> all(entries.begin(), entries.end());
  REQUIRE_EQ(all.size(), entries.size());
  for (auto& f : tree.files) {
    REQUIRE(all.count(f) == 1);
  }
  for (auto& f : wantFolders) {
    REQUIRE(all.count(f) == 1 && os::isDir(f));
  }
  int depth = (int)s.below(6);
  files = {"z", "a"};
  want.clear();
  expectList(tree, depth, want);
  want.insert(want.begin(), {"z", "a"});
  REQUIRE_EQ(os::getFileList(tree.path, files, depth), 0);
  REQUIRE(files[0] == "z" && files[1] == "a");
  requireSameList(files, want, "list of depth " + std::to_string(depth));
  if (!tree.files.empty()) {
    files.clear();
    const string& one = tree.files[s.below(tree.files.size())];
    REQUIRE_EQ(os::getFileList(one, files, depth), 0);
    REQUIRE(files == vector<string>{one});
  }
  files = {"kept"};
  string none = tree.path + "/none/" + fileName(s);
  REQUIRE(os::getFileList(none, files, depth) != 0);
  REQUIRE(os::getFilesAndFolders(none, files, &folders) != 0);
  REQUIRE(files == vector<string>{"kept"});
  REQUIRE(!os::pathExists(none) && !os::isFile(none) && !os::isDir(none) && os::getFileSize(none) == -1);
  if (total > 5 && !tree.folders.empty()) {
    c.nontrivial(pbt::hashStr(std::to_string(total) + (tree.files.empty() ? "" : tree.files[0].substr(tree.path.size()))));
  }
}

PBT_TEST(fileNames, 40000, 640000, "the name had something to sanitize") {
  string t;
  if (s.chance(1, 10)) {
    t = s.pick(vector<string>{"", ".", "..", "...", "/", "../..", "a/../b"});
  } else {
    size_t n = s.size(40);
    for (size_t k = 0; k < n; k++) {
      t.push_back(s.chance(1, 3) ? s.pick(vector<char>{'/', '\\', 0x7f, 0, 31, 32, '.', '%', ':'}) : (char)s.below(256));
    }
  }
  string want;
  for (char ch : t) {
    uint8_t u = (uint8_t)ch;
    if (u < 32 || u == '/' || u == 0x7f) {
      char hex[8];
      snprintf(hex, sizeof(hex), "%%%02X", u);
      want += hex;
    } else {
      want += ch;
    }
  }
  if (want == "." || want == "..") {
    want = "~" + want;
  }
  string got = os::sanitizeFileName(t);
  REQUIRE_EQ_MSG(got, want, pbt::show(t));
  if (got != t) {
    c.nontrivial(t);
  }
  // the name is that of a file of the folder where it's created
  string dir = c.dir();
  if (!got.empty() && got.size() < 200) {
    string path = os::pathJoin(dir, got);
    bool mangled = got[0] == '\\'; // treated as a separator there
    if (!mangled) {
      REQUIRE_EQ_MSG(path, dir + "/" + got, pbt::show(t));
      FILE* f = os::fileOpen(path, "wb");
      REQUIRE_MSG(f != nullptr, pbt::show(path));
      os::fileClose(f);
      REQUIRE(os::isFile(dir + "/" + got));
      if (got.back() != '\\') {
        REQUIRE_EQ(os::getFilename(path), got);
        REQUIRE_EQ(os::getParentFolder(path), dir);
      }
      string renamed = dir + "/r";
      REQUIRE_EQ(os::rename(path, renamed), 0);
      REQUIRE(!os::pathExists(path) || path == renamed);
      REQUIRE_EQ(os::remove(renamed), 0);
    }
  }
  // paths made of parts come apart again
  size_t n = 1 + s.below(4);
  string path = s.flip() ? "/" + s.ident(8) : s.ident(8), parent;
  for (size_t k = 0; k < n; k++) {
    parent = path;
    string part = s.ident(8);
    path = os::pathJoin(path, (s.flip() ? "/" : "") + part);
    REQUIRE_EQ(path, parent + "/" + part);
    REQUIRE_EQ(os::getFilename(path), part);
    REQUIRE_EQ(os::getParentFolder(path), parent);
    string slashed = path + string(1 + s.below(3), '/');
    REQUIRE_EQ(os::getFilename(slashed), part);
    REQUIRE_EQ(os::getParentFolder(slashed), parent);
  }
  string x = s.ident(8), y = s.ident(8), z = s.ident(8);
  REQUIRE_EQ(os::pathJoin(x, y, z), x + "/" + y + "/" + z);
  REQUIRE_EQ(os::pathJoin(x, y, z, x), x + "/" + y + "/" + z + "/" + x);
}

PBT_TEST(uniqueNames, 15000, 240000, "always") {
  c.nontrivial(s.u64());
  int length = (int)s.below(20);
  string name = os::randomName(length);
  REQUIRE_EQ(name.size(), (size_t)length);
  for (char ch : name) {
    REQUIRE(digit(ch) || (ch >= 'a' && ch <= 'z'));
  }
  bool slash = s.flip();
  string base = c.dir() + (slash ? "/" : "/base");
  size_t suffix = s.pick(vector<size_t>{1, 2, 5, 10});
  // with one character of suffix, names are bound to be tried which exist already
  std::set<string> seen;
  size_t n = suffix == 1 ? 1 + s.below(30) : 3;
  for (size_t k = 0; k < n; k++) {
    string path = os::getUniquePath(base, suffix);
    string start = base + (slash ? "" : "~");
    REQUIRE(path.compare(0, start.size(), start) == 0 && path.size() == start.size() + suffix);
    REQUIRE(!os::pathExists(path));
    REQUIRE(seen.insert(path).second);
    if (s.flip()) {
      REQUIRE_EQ(os::makeDir(path), 0);
    } else {
      FILE* f = os::fileOpen(path, "wb");
      REQUIRE(f != nullptr);
      os::fileClose(f);
    }
    REQUIRE(os::makeDir(path) != 0 || true);
  }
  string folder = os::makeUniqueFolder(base, 6);
  REQUIRE(folder.back() == '/');
  REQUIRE(os::isDir(folder));
  REQUIRE(os::listDir(folder).empty());
  string deep = folder + "a/b/c";
  REQUIRE_EQ(os::makeDirectories(deep), 0);
  REQUIRE(os::isDir(deep));
}

PBT_TEST(throttling, 30000, 480000, "some reports were skipped") {
  int64_t limit = (int64_t)(1 + s.below(30));
  utils::Throttler throttler(limit, 1000000), always(limit, 0);
  struct Who {
    int line;
    const void* object;
    int64_t count = 0, skipped = 0, reported = 0;
    vector<bool> history;
  };
  int objects[3];
  vector<Who> whos;
  size_t n = 1 + s.below(4);
  for (size_t k = 0; k < n; k++) {
    Who w{(int)(10 + k / 2), k % 2 == 0 ? nullptr : (const void*)&objects[s.below(3)]};
    whos.push_back(w);
  }
  size_t calls = s.size(3000);
  size_t skipped = 0;
  for (size_t k = 0; k < calls; k++) {
    Who& w = whos[s.below(n)];
    bool report = throttler.report(w.line, w.object);
    w.history.push_back(report);
    w.count++;
    string what = "limit " + std::to_string(limit) + ", call " + std::to_string(w.count);
    REQUIRE_MSG(report || w.count > limit, what + " not reported");
    int64_t frequency = utils::Throttler::reportFrequency(w.count);
    if (report) {
      w.reported++;
      w.skipped = 0;
    } else {
      w.skipped++;
      skipped++;
      // never silent for longer than documented
      REQUIRE_MSG(w.skipped < 2 * frequency, what + ": " + std::to_string(w.skipped) + " skipped in a row");
    }
    REQUIRE(always.report(w.line, w.object)); // no delay: nothing is held back
  }
  for (auto& w : whos) { // each (line, object) is on its own
    utils::Throttler alone(limit, 1000000);
    for (size_t k = 0; k < w.history.size(); k++) {
      REQUIRE_EQ(alone.report(1, nullptr), (bool)w.history[k]);
    }
    if (w.count > limit + 200) {
      REQUIRE_MSG(w.reported < limit + 40 + (w.count - limit) / 9, "not throttled: " + std::to_string(w.reported) + " of " + std::to_string(w.count));
    }
  }
  int64_t counter = (int64_t)(s.flip() ? s.below(100000) : s.interesting(45));
  int64_t want = 1;
  for (int64_t top = 10; counter > top; top *= 10) {
    want *= 10;
  }
  REQUIRE_EQ_MSG(utils::Throttler::reportFrequency(counter), want, std::to_string(counter));
  if (skipped > 0) {
    c.nontrivial((uint64_t)calls * 1000 + (uint64_t)limit * 10 + n);
  }
}
