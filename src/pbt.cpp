#include "pbt.h"

#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <iostream>

#include <sanitizer/common_interface_defs.h>

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:"
         "max_allocation_size_mb=3000:hard_rss_limit_mb=3500:quarantine_size_mb=32:"
         "detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=12:"
         "detect_container_overflow=0";
}
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:exitcode=77";
}
extern "C" const char* __tsan_default_options() {
  return "halt_on_error=1:exitcode=77:die_after_fork=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1";
}

namespace fs = std::filesystem;

namespace pbt {

uint64_t mix64(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

uint64_t hashBytes(const void* data, size_t size, uint64_t seed) {
  const uint8_t* p = (const uint8_t*)data;
  uint64_t h = mix64(seed + 0x1234567) ^ (size * 0x9E3779B97F4A7C15ull);
  while (size >= 8) {
    uint64_t v;
    memcpy(&v, p, 8);
    h = mix64(h ^ v) + 0x9E3779B97F4A7C15ull;
    p += 8;
    size -= 8;
  }
  uint64_t v = 0;
  memcpy(&v, p, size);
  return mix64(h ^ v);
}

uint64_t Src::draw(uint64_t max) {
  uint64_t v = 0;
  if (mode == kRandom) {
    v = max == UINT64_MAX ? prng.next() : prng.next() % (max + 1);
  } else if (pos < given.size()) {
    v = std::min(given[pos], max);
  }
  pos++;
  if (record != nullptr && *recordCount < recordCap) {
    record[*recordCount] = v;
    recordMax[*recordCount] = max;
    *recordCount = *recordCount + 1;
  }
  return v;
}

uint64_t Src::size(uint64_t max) {
  if (max == 0) {
    return 0;
  }
  // pick a magnitude, then a value
  int bits = 1;
  while ((max >> bits) != 0) {
    bits++;
  }
  uint64_t b = draw(bits);
  uint64_t lim = b >= 64 ? max : std::min<uint64_t>(max, (1ull << b));
  return draw(lim);
}

size_t Src::weighted(const std::vector<uint32_t>& weights) {
  uint64_t total = 0;
  for (auto w : weights) {
    total += w;
  }
  uint64_t v = draw(total - 1);
  for (size_t k = 0; k < weights.size(); k++) {
    if (v < weights[k]) {
      return k;
    }
    v -= weights[k];
  }
  return 0;
}

uint64_t Src::u64() {
  return draw(UINT64_MAX);
}

uint64_t Src::interesting(int bits) {
  uint64_t mask = bits >= 64 ? UINT64_MAX : (1ull << bits) - 1;
  switch (draw(5)) {
    case 0:
      return draw(3) & mask;
    case 1:
      return draw(300) & mask;
    case 2: { // around powers of two
      uint64_t p = 1ull << draw(bits - 1);
      return (p + draw(2) - 1) & mask;
    }
    case 3: // around max
      return (mask - draw(3)) & mask;
    case 4: // around the signed limits
      return ((mask >> 1) + draw(3) - 1) & mask;
    default:
      return u64() & mask;
  }
}

double Src::real() {
  switch (draw(6)) {
    case 0:
      return (double)(int64_t)draw(10);
    case 1:
      return (double)((int64_t)draw(2000) - 1000) / 8;
    case 2: {
      static const double kVals[] = {
          0., -0., 1e-300, -1e-300, 5e-324, 1.7976931348623157e308, -1.7976931348623157e308, 1e15, 1e-9, 0.1, 1. / 3, -1, 4294967296., 9007199254740993.};
      return kVals[draw(sizeof(kVals) / sizeof(kVals[0]) - 1)];
    }
    case 3:
      return (double)draw(1000000) / 1000;
    case 4:
      return -(double)draw(1000000) / 997;
    default: {
      uint64_t v = u64();
      double d;
      memcpy(&d, &v, 8);
      return std::isfinite(d) ? d : 0.5;
    }
  }
}

std::vector<uint8_t> Src::bytes(size_t n) {
  std::vector<uint8_t> v(n);
  if (n == 0) {
    return v;
  }
  uint64_t style = draw(6);
  uint64_t param = draw(0xffffff);
  Prng r(param * 7 + style);
  switch (style) {
    case 0: // counter
      for (size_t k = 0; k < n; k++) {
        v[k] = (uint8_t)(k + param);
      }
      break;
    case 1: // constant
      memset(v.data(), (int)(param & 0xff), n);
      break;
    case 2: // noise: does not compress
    case 3:
      for (size_t k = 0; k < n; k++) {
        v[k] = (uint8_t)(r.next() >> 17);
      }
      break;
    case 4: { // repeats with changes
      size_t period = 1 + param % 97;
      for (size_t k = 0; k < n; k++) {
        v[k] = (uint8_t)(k % period * 31 + (k / 1000) * param);
      }
      break;
    }
    case 5: // small alphabet
      for (size_t k = 0; k < n; k++) {
        v[k] = (uint8_t)('a' + r.next() % 4);
      }
      break;
    default: // half noise, half zeros: compresses a bit
      for (size_t k = 0; k < n; k++) {
        v[k] = (k / 64) % 2 ? 0 : (uint8_t)r.next();
      }
      break;
  }
  return v;
}

std::string Src::text(size_t maxLen) {
  size_t n = size(maxLen);
  std::string t(n, ' ');
  uint64_t param = n ? draw(0xffffff) : 0;
  Prng r(param);
  for (size_t k = 0; k < n; k++) {
    t[k] = param == 0 ? (char)('a' + k % 26) : (char)(32 + r.below(95));
  }
  return t;
}

std::string Src::anyText(size_t maxLen) {
  if (draw(3) == 0) {
    return text(maxLen);
  }
  size_t n = size(maxLen);
  std::string t(n, ' ');
  uint64_t style = draw(3);
  uint64_t param = n ? draw(0xffffff) : 0;
  Prng r(param);
  static const char* kSpecial[] = {
      "\"", "\\", "\n", "\t", "/", ":", "?", "&", "=", "%", "{", "}", "[", "]", ",", "\x7f", "\xc3\xa9",
      "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff", "\xc0", "\0", " ", "+", "-", "#", "'", "<", ">", "0", "A", "z"};
  for (size_t k = 0; k < n;) {
    if (style == 1) {
      const char* sp = kSpecial[r.below(sizeof(kSpecial) / sizeof(kSpecial[0]))];
      size_t len = *sp ? strlen(sp) : 1;
      for (size_t i = 0; i < len && k < n; i++) {
        t[k++] = sp[i];
      }
    } else if (style == 2) {
      t[k++] = (char)r.next();
    } else {
      t[k++] = (char)(32 + r.below(95));
    }
  }
  return t;
}

std::string Src::ident(size_t maxLen) {
  size_t n = 1 + size(maxLen - 1);
  std::string t(n, 'a');
  uint64_t param = draw(0xffff);
  Prng r(param);
  static const char kChars[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
  for (size_t k = 0; k < n && param != 0; k++) {
    t[k] = kChars[r.below(k == 0 ? 53 : 63)];
  }
  return t;
}

std::string show(const std::string& s) {
  std::string r = "\"";
  for (size_t k = 0; k < s.size() && k < 300; k++) {
    unsigned char ch = (unsigned char)s[k];
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += (char)ch;
    } else if (ch >= 32 && ch < 127) {
      r += (char)ch;
    } else {
      char buf[8];
      snprintf(buf, sizeof(buf), "\\x%02x", ch);
      r += buf;
    }
  }
  return r + (s.size() > 300 ? "\"...(" + std::to_string(s.size()) + ")" : "\"");
}

std::string show(const std::vector<uint8_t>& v) {
  std::string r = "<" + std::to_string(v.size()) + ":";
  for (size_t k = 0; k < v.size() && k < 24; k++) {
    char buf[8];
    snprintf(buf, sizeof(buf), "%02x", v[k]);
    r += buf;
  }
  return r + (v.size() > 24 ? "..>" : ">");
}

void fail(const char* file, int line, const std::string& msg) {
  const char* slash = strrchr(file, '/');
  throw Failure{std::string(slash ? slash + 1 : file) + ":" + std::to_string(line) + ": " + msg};
}

static std::vector<Test>& tests() {
  static std::vector<Test> sTests;
  return sTests;
}

Registrar::Registrar(const char* name, uint64_t quick, uint64_t thorough, TestFn fn, const char* rule, bool racy) {
  tests().push_back(Test{name, quick, thorough, fn, rule, racy});
}

// ------------------------------------------------------------------------------------------------

constexpr size_t kMaxChoices = 1 << 18;
constexpr size_t kMsgSize = 16 * 1024;

enum Outcome : uint32_t { kRunning = 0, kPass = 1, kFail = 2, kDiscard = 3 };

struct Shm { // one per worker
  std::atomic<int64_t> test, caseNo;
  std::atomic<int64_t> startMs; // 0: not in a case
  std::atomic<uint32_t> outcome;
  std::atomic<uint32_t> done;
  volatile uint64_t nChoices;
  volatile uint64_t noteLen;
  char msg[kMsgSize];
  char note[kMsgSize];
  uint64_t choices[kMaxChoices];
  uint64_t maxes[kMaxChoices];
};

struct Ctx::Impl {
  Shm* shm = nullptr;
  std::string base, dirPath;
  bool dirUsed = false;
  uint64_t evaluations = 0, discards = 0;
  std::set<uint64_t> keys;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, uint64_t> perTest;
  std::set<std::string> knownIds;
  std::map<std::string, uint64_t> knownHits;
  std::vector<std::string> samples;
  bool sampleThis = false;
  uint64_t caseSerial = 0;
};

static void cleanDir(const std::string& path) {
  if (path.find("/vrsverif.") == std::string::npos) {
    abort(); // only ever remove our own scratch directories
  }
  std::error_code ec;
  // make everything removable again, whatever permissions the case left
  for (auto it = fs::recursive_directory_iterator(path, fs::directory_options::skip_permission_denied, ec);
       !ec && it != fs::recursive_directory_iterator();
       it.increment(ec)) {
    if (it->is_directory(ec) && !it->is_symlink(ec)) {
      fs::permissions(it->path(), fs::perms::owner_all, fs::perm_options::add, ec);
    }
  }
  fs::remove_all(path, ec);
}

const std::string& Ctx::dir() {
  if (!impl->dirUsed) {
    impl->dirPath = impl->base + "/c";
    fs::create_directories(impl->dirPath);
    impl->dirUsed = true;
  }
  return impl->dirPath;
}

void Ctx::note(const std::string& str) {
  size_t len = impl->shm->noteLen;
  size_t n = std::min(str.size(), kMsgSize - len - 2);
  memcpy(impl->shm->note + len, str.data(), n);
  impl->shm->note[len + n] = '\n';
  impl->shm->noteLen = len + n + (n == str.size() ? 1 : 0);
}

void Ctx::nontrivial(uint64_t key) {
  if (impl->keys.insert(mix64(key) ^ (uint64_t)impl->shm->test.load()).second) {
    impl->sampleThis = true;
  }
}

void Ctx::label(const std::string& l, uint64_t n) {
  impl->labels[l] += n;
}

bool Ctx::known(const std::string& id) {
  if (impl->knownIds.count(id) == 0) {
    return false;
  }
  impl->knownHits[id]++;
  return true;
}

static int64_t nowMs() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (int64_t)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}

struct Options {
  std::string property = "X00";
  bool thorough = false;
  uint64_t seed = 1;
  int workers = 8;
  std::string evidence, replayOut = ".", replay, knownFile, only, level = "exploration";
  double scale = 1;
  int64_t ceilingMs = 480000;
  int64_t hangMs = 90000;
  bool verbose = false;
};
static Options opt;
static std::string scratch;

static void setupChild(const std::string& errBase) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int fd = open("/dev/null", O_RDWR);
  dup2(fd, 0);
  dup2(fd, 1);
  if (!opt.verbose) {
    dup2(fd, 2);
    __sanitizer_set_report_path(errBase.c_str());
  }
  rlimit rl{0, 0};
  setrlimit(RLIMIT_CORE, &rl);
}

static Outcome runCase(const Test& t, Src& src, Ctx& ctx) {
  Shm* shm = ctx.impl->shm;
  shm->nChoices = 0;
  shm->noteLen = 0;
  shm->outcome = kRunning;
  memset(shm->msg, 0, 16);
  src.record = shm->choices;
  src.recordMax = shm->maxes;
  src.recordCount = &shm->nChoices;
  src.recordCap = kMaxChoices;
  ctx.impl->sampleThis = false;
  ctx.impl->dirUsed = false;
  shm->startMs = nowMs();
  Outcome out = kPass;
  std::string msg;
  try {
    t.fn(src, ctx);
  } catch (const Failure& f) {
    out = kFail;
    msg = f.msg;
  } catch (const Discard&) {
    out = kDiscard;
  } catch (const std::exception& e) {
    out = kFail;
    msg = std::string("uncaught exception: ") + e.what();
  }
  if (ctx.impl->dirUsed) {
    cleanDir(ctx.impl->dirPath);
  }
  strncpy(shm->msg, msg.c_str(), kMsgSize - 1);
  shm->startMs = 0;
  shm->outcome = out;
  ctx.impl->evaluations++;
  ctx.impl->perTest[t.name]++;
  if (out == kDiscard) {
    ctx.impl->discards++;
  }
  if (ctx.impl->sampleThis && shm->noteLen > 0) {
    // keep few samples, spread over tests
    size_t same = 0;
    for (auto& sm : ctx.impl->samples) {
      same += sm.compare(0, t.name.size() + 1, t.name + ":") == 0;
    }
    if (same < 2) {
      ctx.impl->samples.push_back(t.name + ": " + std::string(shm->note, std::min<size_t>((size_t)shm->noteLen, 900)));
    }
  }
  return out;
}

static uint64_t caseSeed(const Test& t, int64_t k) {
  return mix64(mix64(opt.seed * 0x9E3779B97F4A7C15ull + hashStr(t.name)) + (uint64_t)k);
}

static std::string readFile(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

static std::string sanitizerReport(const std::string& errBase, pid_t pid) {
  std::string p = errBase + "." + std::to_string(pid);
  std::string r = readFile(p);
  unlink(p.c_str());
  return r;
}

static std::string describeDeath(int status, const std::string& report) {
  std::string m;
  if (WIFSIGNALED(status)) {
    m = std::string("crash: killed by signal ") + std::to_string(WTERMSIG(status));
  } else {
    m = "crash: process exited with code " + std::to_string(WEXITSTATUS(status));
  }
  if (!report.empty()) {
    m += "\n" + report.substr(0, 3500);
  }
  return m;
}

struct Result {
  Outcome outcome = kPass;
  bool hang = false;
  bool externalKill = false;
  std::string msg, note;
  std::vector<uint64_t> choices, maxes;
};

static std::set<std::string> gKnownIds;

/// Run one case in a child process
static Result runIsolated(const Test& t, const std::vector<uint64_t>* choices, uint64_t seed, Shm* shm, int64_t hangMs) {
  static int serial = 0;
  std::string base = scratch + "/r" + std::to_string(serial++);
  std::string err = scratch + "/rerr";
  fs::create_directories(base);
  shm->startMs = 0;
  shm->outcome = kRunning;
  shm->nChoices = 0;
  shm->noteLen = 0;
  pid_t pid = fork();
  if (pid == 0) {
    setupChild(err);
    Ctx::Impl impl;
    impl.shm = shm;
    impl.base = base;
    impl.knownIds = gKnownIds;
    Ctx ctx;
    ctx.impl = &impl;
    ctx.thorough_ = opt.thorough;
    Src src;
    if (choices != nullptr) {
      src.mode = Src::kReplay;
      src.given = *choices;
    } else {
      src.prng = Prng(seed);
    }
    runCase(t, src, ctx);
    _exit(0);
  }
  Result r;
  int status = 0;
  int64_t start = nowMs();
  while (true) {
    pid_t w = waitpid(pid, &status, WNOHANG);
    if (w == pid) {
      break;
    }
    if (nowMs() - start > hangMs) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      r.hang = true;
      break;
    }
    usleep(nowMs() - start < 50 ? 300 : 5000);
  }
  size_t n = std::min<size_t>((size_t)shm->nChoices, kMaxChoices);
  r.choices.assign(shm->choices, shm->choices + n);
  r.maxes.assign(shm->maxes, shm->maxes + n);
  r.note.assign(shm->note, std::min<size_t>((size_t)shm->noteLen, kMsgSize));
  std::string report = sanitizerReport(err, pid);
  if (r.hang) {
    r.outcome = kFail;
    r.msg = "hang: case did not finish in " + std::to_string(hangMs / 1000) + " s";
  } else if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && shm->outcome != kRunning) {
    r.outcome = (Outcome)shm->outcome.load();
    r.msg = shm->msg;
  } else {
    r.outcome = kFail;
    r.externalKill = WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL;
    r.msg = describeDeath(status, report);
  }
  cleanDir(base);
  return r;
}

static Result shrink(const Test& t, Result best, Shm* shm, int64_t budgetMs) {
  int64_t end = nowMs() + budgetMs;
  int tries = 0;
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (nowMs() > end || tries > 3000) {
      return false;
    }
    tries++;
    Result r = runIsolated(t, &cand, 0, shm, 10000);
    if (r.outcome == kFail && !r.hang && !r.externalKill) {
      // keep only progress (shorter, or smaller at the same length)
      if (r.choices.size() < best.choices.size() ||
          (r.choices.size() == best.choices.size() && r.choices < best.choices)) {
        best = r;
        return true;
      }
    }
    return false;
  };
  bool progress = true;
  while (progress && nowMs() < end && tries < 3000) {
    progress = false;
    // delete blocks
    for (size_t len = std::max<size_t>(best.choices.size() / 2, 1); len >= 1; len /= 2) {
      for (size_t at = 0; at + len <= best.choices.size() && nowMs() < end;) {
        auto cand = best.choices;
        cand.erase(cand.begin() + at, cand.begin() + at + len);
        if (attempt(cand)) {
          progress = true;
        } else {
          at += std::max<size_t>(1, len > 4 ? len / 2 : len);
        }
      }
      if (len == 1) {
        break;
      }
    }
    // zero blocks, then lower values
    for (size_t len = 8; len >= 1; len /= 2) {
      for (size_t at = 0; at + len <= best.choices.size() && nowMs() < end; at += len) {
        auto cand = best.choices;
        bool any = false;
        for (size_t k = at; k < at + len; k++) {
          any |= cand[k] != 0;
          cand[k] = 0;
        }
        if (any && attempt(cand)) {
          progress = true;
        }
      }
      if (len == 1) {
        break;
      }
    }
    for (size_t at = 0; at < best.choices.size() && nowMs() < end; at++) {
      // binary search down
      uint64_t lo = 0;
      while (at < best.choices.size() && best.choices[at] > lo && nowMs() < end) {
        auto cand = best.choices;
        uint64_t mid = lo + (best.choices[at] - lo) / 2;
        cand[at] = mid;
        if (attempt(cand)) {
          progress = true;
          if (at >= best.choices.size()) {
            break;
          }
        } else {
          lo = mid + 1;
        }
      }
      // delete this choice and lower a preceding one (list lengths)
      for (size_t back = 1; back <= 3 && at >= back && at < best.choices.size(); back++) {
        if (best.choices[at - back] > 0) {
          auto cand = best.choices;
          cand[at - back]--;
          cand.erase(cand.begin() + at);
          if (attempt(cand)) {
            progress = true;
          }
        }
      }
    }
  }
  return best;
}

static std::string jsonEscape(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += (char)ch;
    } else if (ch == '\n') {
      r += "\\n";
    } else if (ch < 32 || ch >= 127) {
      char buf[8];
      snprintf(buf, sizeof(buf), "\\u%04x", ch);
      r += buf;
    } else {
      r += (char)ch;
    }
  }
  return r;
}

struct Totals {
  uint64_t evaluations = 0, discards = 0;
  std::set<uint64_t> keys;
  std::map<std::string, uint64_t> labels, perTest, knownHits;
  std::vector<std::string> samples;
};

static void dumpStats(const Ctx::Impl& i, const std::string& path) {
  std::ofstream f(path, std::ios::binary);
  f << "E " << i.evaluations << " " << i.discards << "\n";
  for (auto k : i.keys) {
    f << "K " << k << "\n";
  }
  auto dumpMap = [&f](char tag, const std::map<std::string, uint64_t>& m) {
    for (const auto& p : m) {
      f << tag << " " << p.second << " " << p.first << "\n";
    }
  };
  dumpMap('L', i.labels);
  dumpMap('T', i.perTest);
  dumpMap('H', i.knownHits);
  for (auto s : i.samples) {
    std::replace(s.begin(), s.end(), '\n', '|');
    f << "S " << s << "\n";
  }
  f << "D\n";
}

static bool loadStats(Totals& tot, const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::string line;
  bool done = false;
  while (std::getline(f, line)) {
    std::istringstream is(line.size() > 2 ? line.substr(2) : "");
    uint64_t v = 0, w = 0;
    switch (line[0]) {
      case 'E':
        is >> v >> w;
        tot.evaluations += v;
        tot.discards += w;
        break;
      case 'K':
        is >> v;
        tot.keys.insert(v);
        break;
      case 'L':
      case 'T':
      case 'H': {
        is >> v;
        std::string name;
        is.get();
        std::getline(is, name);
        (line[0] == 'L' ? tot.labels : line[0] == 'T' ? tot.perTest : tot.knownHits)[name] += v;
        break;
      }
      case 'S':
        tot.samples.push_back(line.substr(2));
        break;
      case 'D':
        done = true;
        break;
    }
  }
  return done;
}

static std::vector<const Test*> selected() {
  std::vector<const Test*> r;
  for (const auto& t : tests()) {
    if (opt.only.empty() || ("," + opt.only + ",").find("," + t.name + ",") != std::string::npos) {
      r.push_back(&t);
    }
  }
  return r;
}

static uint64_t caseCount(const Test& t) {
  double n = (double)(opt.thorough ? t.thorough : t.quick) * opt.scale;
  return n < 1 ? 1 : (uint64_t)n;
}

static void writeEvidence(const Totals& tot, double wall, int violations, bool ceilingHit) {
  if (opt.evidence.empty()) {
    return;
  }
  std::string tmp = opt.evidence + ".tmp";
  {
    std::ofstream f(tmp);
    f << "{\n \"property\": \"" << opt.property << "\",\n \"tier\": \"" << (opt.thorough ? "thorough" : "quick")
      << "\",\n \"seed\": " << opt.seed << ",\n \"level\": \"" << opt.level << "\",\n \"coverage\": {\n  \"evaluations\": "
      << tot.evaluations << ",\n  \"distinct_nontrivial\": " << tot.keys.size() << ",\n  \"discarded\": " << tot.discards
      << ",\n  \"stopped_at_time_ceiling\": " << (ceilingHit ? "true" : "false") << ",\n  \"rule\": \"";
    bool first = true;
    for (const auto* t : selected()) {
      f << (first ? "" : " || ") << t->name << ": " << jsonEscape(t->rule);
      first = false;
    }
    f << "\",\n  \"cases_per_test\": {";
    first = true;
    for (const auto& p : tot.perTest) {
      f << (first ? "" : ", ") << "\"" << jsonEscape(p.first) << "\": " << p.second;
      first = false;
    }
    f << "},\n  \"labels\": {";
    first = true;
    for (const auto& p : tot.labels) {
      f << (first ? "" : ", ") << "\"" << jsonEscape(p.first) << "\": " << p.second;
      first = false;
    }
    f << "},\n  \"samples\": [";
    first = true;
    size_t count = 0;
    std::map<std::string, int> perTest;
    for (const auto& s : tot.samples) {
      if (perTest[s.substr(0, s.find(':'))]++ >= 2 || count++ >= 24) {
        continue;
      }
      f << (first ? "" : ",") << "\n   \"" << jsonEscape(s) << "\"";
      first = false;
    }
    f << "\n  ]\n },\n \"assumptions\": [],\n \"violations\": " << violations << ",\n \"wall_s\": " << wall << "\n}\n";
  }
  rename(tmp.c_str(), opt.evidence.c_str());
}

static void loadKnown() {
  // lines: KNOWN property=<id> finding=<finding id> <text>
  std::ifstream f(opt.knownFile);
  std::string line;
  while (std::getline(f, line)) {
    std::string key = "property=" + opt.property + " finding=";
    size_t at = line.find(key);
    if (line.compare(0, 6, "KNOWN ") == 0 && at != std::string::npos) {
      std::string rest = line.substr(at + key.size());
      gKnownIds.insert(rest.substr(0, rest.find(' ')));
    }
  }
}

static std::string knownText(const std::string& id) {
  std::ifstream f(opt.knownFile);
  std::string line;
  while (std::getline(f, line)) {
    std::string key = "property=" + opt.property + " finding=" + id + " ";
    size_t at = line.find(key);
    if (line.compare(0, 6, "KNOWN ") == 0 && at != std::string::npos) {
      return line.substr(at + key.size());
    }
  }
  return "";
}

static void workerMain(int w, Shm* shm, std::atomic<int64_t>* minFail, int64_t deadline) {
  setupChild(scratch + "/err" + std::to_string(w));
  Ctx::Impl impl;
  impl.shm = shm;
  impl.base = scratch + "/w" + std::to_string(w);
  impl.knownIds = gKnownIds;
  Ctx ctx;
  ctx.impl = &impl;
  ctx.thorough_ = opt.thorough;
  auto sel = selected();
  for (size_t ti = 0; ti < sel.size(); ti++) {
    const Test& t = *sel[ti];
    uint64_t n = caseCount(t);
    for (uint64_t k = w; k < n; k += opt.workers) {
      int64_t order = (int64_t)(ti << 32 | k);
      if (order > minFail->load() || nowMs() > deadline) {
        break;
      }
      shm->test = (int64_t)ti;
      shm->caseNo = (int64_t)k;
      Src src;
      src.prng = Prng(caseSeed(t, (int64_t)k));
      if (runCase(t, src, ctx) == kFail) {
        int64_t cur = minFail->load();
        while (order < cur && !minFail->compare_exchange_weak(cur, order)) {
        }
        shm->done = 2;
        dumpStats(impl, scratch + "/stats" + std::to_string(w));
        _exit(0);
      }
    }
  }
  dumpStats(impl, scratch + "/stats" + std::to_string(w));
  shm->done = 1;
  _exit(0);
}

static int reportFailure(const Test& t, const Result& r, uint64_t seed, int64_t caseNo, int confirmed, int tries) {
  fs::create_directories(opt.replayOut);
  std::string path = opt.replayOut + "/" + opt.property + "-" + t.name + ".replay";
  {
    std::ofstream f(path);
    f << "property " << opt.property << "\ntest " << t.name << "\ntier " << (opt.thorough ? "thorough" : "quick")
      << "\nseed " << opt.seed << "\ncase " << caseNo << "\ncase_seed " << seed << "\nreproduced " << confirmed << "/"
      << tries << "\nchoices";
    for (auto v : r.choices) {
      f << " " << v;
    }
    f << "\n--- case\n" << r.note << "\n--- failure\n" << r.msg << "\n";
  }
  std::cout << "Property " << opt.property << " fails in test " << t.name << " (seed " << opt.seed << ", case "
            << caseNo << ", reproduced " << confirmed << "/" << tries << ")\n"
            << "--- shrunk case (" << r.choices.size() << " choices)\n"
            << r.note.substr(0, 3000) << "--- failure\n"
            << r.msg.substr(0, 3000) << "\n";
  std::cout << "VIOLATION property=" << opt.property << " replay=" << path << std::endl;
  return 1;
}

static int doReplay() {
  std::ifstream f(opt.replay);
  std::string line, testName;
  std::vector<uint64_t> choices;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "test") {
      is >> testName;
    } else if (k == "tier") {
      is >> k;
      opt.thorough = k == "thorough";
    } else if (k == "choices") {
      uint64_t v;
      while (is >> v) {
        choices.push_back(v);
      }
    } else if (k == "---") {
      break;
    }
  }
  Shm* shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (const auto& t : tests()) {
    if (t.name == testName) {
      int tries = t.racy ? 20 : 1;
      for (int k = 0; k < tries; k++) {
        Result r = runIsolated(t, &choices, 0, shm, opt.hangMs);
        if (k == 0 || r.outcome == kFail) {
          std::cout << "--- case\n" << r.note << "--- outcome: " << (r.outcome == kFail ? "FAIL\n" + r.msg : "pass") << std::endl;
        }
        if (r.outcome == kFail) {
          std::cout << "VIOLATION property=" << opt.property << " replay=" << opt.replay << std::endl;
          return 1;
        }
      }
      return 0;
    }
  }
  std::cerr << "unknown test " << testName << std::endl;
  return 2;
}

static int runAll() {
  int64_t t0 = nowMs();
  int W = opt.workers;
  std::vector<Shm*> shms(W);
  std::vector<pid_t> pids(W);
  for (auto& p : shms) {
    p = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  auto* minFail = (std::atomic<int64_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *minFail = INT64_MAX;
  auto sel = selected();
  for (int w = 0; w < W; w++) {
    pid_t pid = fork();
    if (pid == 0) {
      workerMain(w, shms[w], minFail, t0 + opt.ceilingMs);
    }
    pids[w] = pid;
  }
  struct Death {
    int64_t order;
    std::string msg;
    bool external, hang;
    std::string note;
  };
  std::map<int64_t, Death> deaths;
  int alive = W;
  while (alive > 0) {
    usleep(20000);
    for (int w = 0; w < W; w++) {
      if (pids[w] == 0) {
        continue;
      }
      int status = 0;
      pid_t r = waitpid(pids[w], &status, WNOHANG);
      int64_t start = shms[w]->startMs.load();
      bool hang = false;
      if (r == 0) {
        if (start != 0 && nowMs() - start > opt.hangMs) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &status, 0);
          hang = true;
        } else {
          continue;
        }
      }
      alive--;
      pid_t pid = pids[w];
      pids[w] = 0;
      int64_t order = shms[w]->test << 32 | shms[w]->caseNo;
      if (hang || !(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
        std::string rep = sanitizerReport(scratch + "/err" + std::to_string(w), pid);
        Death d{order, hang ? "hang" : describeDeath(status, rep), !hang && WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL, hang, std::string(shms[w]->note, std::min<size_t>((size_t)shms[w]->noteLen, kMsgSize))};
        deaths[order] = d;
        int64_t cur = minFail->load();
        while (order < cur && !minFail->compare_exchange_weak(cur, order)) {
        }
      } else if (shms[w]->done == 2) {
        Death d{order, shms[w]->msg, false, false, std::string(shms[w]->note, std::min<size_t>((size_t)shms[w]->noteLen, kMsgSize))};
        deaths[order] = d;
      }
    }
  }
  bool ceilingHit = nowMs() > t0 + opt.ceilingMs;
  Totals tot;
  for (int w = 0; w < W; w++) {
    loadStats(tot, scratch + "/stats" + std::to_string(w));
  }
  double wall = (double)(nowMs() - t0) / 1000;
  int rc = 0;
  if (!deaths.empty()) {
    // lowest failing case first
    bool reported = false;
    std::string lastMsg;
    for (auto& [order, d] : deaths) {
      const Test& t = *sel[order >> 32];
      int64_t k = order & 0xffffffff;
      uint64_t seed = caseSeed(t, k);
      Shm* shm = shms[0];
      int confirmed = 0, tries = 0;
      Result first;
      int maxTries = t.racy ? 30 : 3;
      int64_t confirmEnd = nowMs() + 150000;
      while (tries < maxTries && nowMs() < confirmEnd && !(t.racy && confirmed >= 3)) {
        Result r = runIsolated(t, nullptr, seed, shm, d.hang ? std::min<int64_t>(opt.hangMs, 60000) : opt.hangMs);
        tries++;
        if (r.outcome == kFail && !r.externalKill) {
          confirmed++;
          if (first.outcome != kFail) {
            first = r;
          }
        }
      }
      if (confirmed == 0 && (d.external || d.hang)) {
        // killed from outside (memory pressure?) or stalled once, and fine when run again: no answer
        std::cerr << "inconclusive case: " << d.msg << "\n";
        lastMsg = d.msg;
        continue;
      }
      if (confirmed == 0) {
        // an oracle failed once: sound whatever the schedule, but not reproducible by replaying choices
        first.outcome = kFail;
        first.msg = d.msg;
        first.note = d.note;
      }
      Result best = first;
      if (confirmed == tries && !first.hang) {
        best = shrink(t, first, shm, t.racy ? 20000 : 40000);
      }
      rc = reportFailure(t, best, seed, k, confirmed, tries);
      reported = true;
      break;
    }
    if (!reported) {
      std::cerr << "check stopped without an answer: " << lastMsg << "\n";
      rc = 3;
    }
  }
  for (const auto& id : gKnownIds) {
    // listed findings are reproduced on every run by the test that looks for them
    std::cout << "KNOWN-FINDING: property=" << opt.property << " " << id << " " << knownText(id) << " (seen "
              << tot.knownHits[id] << " times in this run)" << std::endl;
  }
  writeEvidence(tot, wall, rc == 1 ? 1 : 0, ceilingHit);
  std::cout << opt.property << ": " << tot.evaluations << " cases, " << tot.keys.size() << " distinct non-trivial, "
            << tot.discards << " discarded, " << wall << " s" << (ceilingHit ? " (time ceiling)" : "") << std::endl;
  return rc;
}

} // namespace pbt

int main(int argc, char** argv) {
  using namespace pbt;
  for (int k = 1; k < argc; k++) {
    std::string a = argv[k];
    auto val = [&]() -> std::string { return k + 1 < argc ? argv[++k] : ""; };
    if (a == "--property") {
      opt.property = val();
    } else if (a == "--tier") {
      opt.thorough = val() == "thorough";
    } else if (a == "--seed") {
      opt.seed = strtoull(val().c_str(), nullptr, 10);
    } else if (a == "--workers") {
      opt.workers = atoi(val().c_str());
    } else if (a == "--evidence") {
      opt.evidence = val();
    } else if (a == "--replay-out") {
      opt.replayOut = val();
    } else if (a == "--replay") {
      opt.replay = val();
    } else if (a == "--known") {
      opt.knownFile = val();
    } else if (a == "--level") {
      opt.level = val();
    } else if (a == "--only") {
      opt.only = val();
    } else if (a == "--scale") {
      opt.scale = atof(val().c_str());
    } else if (a == "--ceiling") {
      opt.ceilingMs = atoll(val().c_str()) * 1000;
    } else if (a == "--hang") {
      opt.hangMs = atoll(val().c_str()) * 1000;
    } else if (a == "-v") {
      opt.verbose = true;
    } else if (a == "--list") {
      for (auto& t : tests()) {
        std::cout << t.name << " " << t.quick << " " << t.thorough << "\n";
      }
      return 0;
    }
  }
  loadKnown();
  const char* base = getenv("VERIF_SCRATCH");
  scratch = std::string(base ? base : "/dev/shm") + "/vrsverif." + std::to_string(getpid());
  fs::create_directories(scratch);
  // temporary folder of the code under test
  std::string tmp = scratch + "/tmp";
  fs::create_directories(tmp);
  setenv("TMPDIR", tmp.c_str(), 1);
  setenv("HOME", tmp.c_str(), 1);
  int rc = opt.replay.empty() ? runAll() : doReplay();
  cleanDir(scratch);
  return rc;
}
