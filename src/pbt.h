// A small property-based testing engine.
//
// A case is a deterministic function of a sequence of bounded choices (class Src). Random search draws
// the choices from a PRNG seeded by (VERIF_SEED, test, case number); a failing case is shrunk on its
// choice sequence (delete blocks, lower values), every candidate running in a child process, so that
// crashes, sanitizer reports, aborts and hangs are failures like any other and can be shrunk and replayed.
#pragma once

#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

uint64_t mix64(uint64_t x);
uint64_t hashBytes(const void* data, size_t size, uint64_t seed = 0);
inline uint64_t hashStr(const std::string& s, uint64_t seed = 0) {
  return hashBytes(s.data(), s.size(), seed);
}

struct Prng {
  uint64_t s;
  explicit Prng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    return mix64(s);
  }
  uint64_t below(uint64_t n) {
    return n <= 1 ? 0 : next() % n;
  }
};

struct Failure {
  std::string msg;
};
/// Thrown to give up on a case whose precondition isn't met (not counted as a failure).
struct Discard {};

class Src {
 public:
  /// a value in [0, max], recorded as one choice; smaller is "simpler"
  uint64_t draw(uint64_t max);
  uint64_t below(uint64_t n) {
    return n <= 1 ? 0 : draw(n - 1);
  }
  /// a value in [lo, hi]
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)draw((uint64_t)(hi - lo));
  }
  /// true with probability num/den; shrinks to false
  bool chance(uint32_t num, uint32_t den) {
    return draw(den - 1) >= den - num;
  }
  bool flip() {
    return draw(1) == 1;
  }
  /// a size in [0, max], small ones much more often
  uint64_t size(uint64_t max);
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <class T, size_t N>
  const T& pick(const T (&v)[N]) {
    return v[below(N)];
  }
  /// index chosen with the given weights; put the simplest first
  size_t weighted(const std::vector<uint32_t>& weights);
  uint64_t u64();
  uint32_t u32() {
    return (uint32_t)u64();
  }
  /// an "interesting" integer of the given bit width (boundary values, small values, random)
  uint64_t interesting(int bits);
  double real(); // finite doubles, boundary values included
  /// content of exactly n bytes in one of several styles (zeros, counter, text, noise...), few choices
  std::vector<uint8_t> bytes(size_t n);
  /// text of up to maxLen characters
  std::string text(size_t maxLen); // printable ASCII mostly
  std::string anyText(size_t maxLen); // any bytes, including NUL, invalid UTF-8
  std::string ident(size_t maxLen); // non-empty identifier

  // engine side
  enum Mode { kRandom, kReplay } mode = kRandom;
  Prng prng{0};
  std::vector<uint64_t> given;
  size_t pos = 0;
  uint64_t* record = nullptr; // shared memory buffer
  uint64_t* recordMax = nullptr;
  volatile uint64_t* recordCount = nullptr;
  size_t recordCap = 0;
};

class Ctx {
 public:
  /// An empty scratch directory of this case, removed after it.
  const std::string& dir();
  /// Text describing the case (kept even if the case crashes).
  void note(const std::string& s);
  /// The case is non-trivial by the check's rule; `key` identifies it for counting distinct ones.
  void nontrivial(uint64_t key);
  void nontrivial(const std::string& key) {
    nontrivial(hashStr(key));
  }
  /// Classification counter, reported as evidence.
  void label(const std::string& l, uint64_t n = 1);
  /// A failure that's a listed known finding: returns true if listed (the caller then goes on)
  bool known(const std::string& findingId);
  bool thorough() const {
    return thorough_;
  }

  bool thorough_ = false;
  struct Impl;
  Impl* impl = nullptr;
};

using TestFn = void (*)(Src&, Ctx&);

struct Test {
  std::string name;
  uint64_t quick, thorough; // number of cases
  TestFn fn;
  std::string rule;
  bool racy = false; // schedule dependent: a failure may not reproduce on each replay
};

struct Registrar {
  Registrar(const char* name, uint64_t quick, uint64_t thorough, TestFn fn, const char* rule, bool racy = false);
};

[[noreturn]] void fail(const char* file, int line, const std::string& msg);

template <class T>
std::string show(const T& v) {
  std::ostringstream os;
  os << v;
  return os.str();
}
inline std::string show(double v) {
  std::ostringstream os;
  os.precision(17);
  os << v;
  return os.str();
}
inline std::string show(bool v) {
  return v ? "true" : "false";
}
inline std::string show(uint8_t v) {
  return std::to_string((int)v);
}
inline std::string show(int8_t v) {
  return std::to_string((int)v);
}
std::string show(const std::string& s); // quoted, escaped, truncated
std::string show(const std::vector<uint8_t>& v);
inline std::string show(const std::vector<char>& v) {
  return show(std::vector<uint8_t>(v.begin(), v.end()));
}
inline std::string show(const char* s) {
  return show(std::string(s));
}
template <class A, class B>
std::string show(const std::pair<A, B>& p) {
  return "(" + show(p.first) + "," + show(p.second) + ")";
}
template <class T>
std::string show(const std::vector<T>& v) {
  std::string s = "[";
  for (size_t k = 0; k < v.size() && k < 40; k++) {
    s += (k ? "," : "") + show(v[k]);
  }
  return s + (v.size() > 40 ? ",...]" : "]");
}
template <class A, class B>
std::string show(const std::map<A, B>& v) {
  std::string s = "{";
  for (const auto& p : v) {
    s += show(p.first) + ":" + show(p.second) + ",";
  }
  return s + "}";
}

} // namespace pbt

#define PBT_TEST(name, quick, thorough, rule)                                       \
  static void test_##name(pbt::Src& s, pbt::Ctx& c);                                \
  static pbt::Registrar reg_##name(#name, quick, thorough, test_##name, rule);      \
  static void test_##name([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Ctx& c)

#define PBT_RACY_TEST(name, quick, thorough, rule)                                  \
  static void test_##name(pbt::Src& s, pbt::Ctx& c);                                \
  static pbt::Registrar reg_##name(#name, quick, thorough, test_##name, rule, true); \
  static void test_##name([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Ctx& c)

#define REQUIRE(cond)                                                       \
  do {                                                                      \
    if (!(cond)) {                                                          \
      pbt::fail(__FILE__, __LINE__, "failed: " #cond);                      \
    }                                                                       \
  } while (0)
#define REQUIRE_MSG(cond, msg)                                              \
  do {                                                                      \
    if (!(cond)) {                                                          \
      std::ostringstream os_;                                               \
      os_ << "failed: " #cond " -- " << msg;                                \
      pbt::fail(__FILE__, __LINE__, os_.str());                             \
    }                                                                       \
  } while (0)
#define REQUIRE_EQ(a, b)                                                    \
  do {                                                                      \
    const auto& a_ = (a);                                                   \
    const auto& b_ = (b);                                                   \
    if (!(a_ == b_)) {                                                      \
      pbt::fail(__FILE__, __LINE__, std::string("failed: " #a " == " #b ": ") + pbt::show(a_) + " vs. " + pbt::show(b_)); \
    }                                                                       \
  } while (0)
#define REQUIRE_EQ_MSG(a, b, msg)                                           \
  do {                                                                      \
    const auto& a_ = (a);                                                   \
    const auto& b_ = (b);                                                   \
    if (!(a_ == b_)) {                                                      \
      std::ostringstream os_;                                               \
      os_ << msg;                                                           \
      pbt::fail(__FILE__, __LINE__, std::string("failed: " #a " == " #b ": ") + pbt::show(a_) + " vs. " + pbt::show(b_) + " -- " + os_.str()); \
    }                                                                       \
  } while (0)
