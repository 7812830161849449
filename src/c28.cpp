// C28: command-line operations match their documented effect.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cmath>
#include <iostream>
#include <regex>

#include "contentgen.h"
#include "copyoptions.h"
#include "damaged.h"

#include <vrs/helpers/Rapidjson.hpp>
#include <vrs/utils/PixelFrame.h>
#include <vrs/utils/RecordFileInfo.h>
#include <vrs/utils/Validation.h>
#include <vrs/utils/xxhash/xxhash.h>
#include <vrs/utils/cli/DefaultDecimator.h>
#include <vrs/utils/cli/ListRecords.h>
#include <vrs/utils/cli/MakeZeroFilterCopier.h>
#include <vrs/utils/cli/PrintRecordFormatRecords.h>
#include <vrs/utils/cli/PrintRecordFormats.h>

// the tool itself
#define main vrsMain
#include <tools/vrs/vrs.cpp>
#undef main

using namespace copies;

namespace {

/// what's written on the standard output
template <class F>
string printed(pbt::Ctx& c, F f) {
  string path = c.dir() + "-stdout";
  fflush(stdout);
  std::cout.flush();
  int saved = dup(1);
  int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  REQUIRE(saved >= 0 && fd >= 0);
  dup2(fd, 1);
  close(fd);
  f();
  fflush(stdout);
  std::cout.flush();
  dup2(saved, 1);
  close(saved);
  auto bytes = damaged::slurp(path);
  unlink(path.c_str());
  return {bytes.begin(), bytes.end()};
}

struct Result {
  int status = -1;
  string out;
};

/// runs the tool
Result run(pbt::Ctx& c, const vector<string>& args) {
  vector<string> all{"/usr/bin/vrs"};
  all.insert(all.end(), args.begin(), args.end());
  vector<vector<char>> bytes;
  for (auto& a : all) {
    bytes.emplace_back(a.c_str(), a.c_str() + a.size() + 1);
  }
  vector<char*> argv;
  for (auto& b : bytes) {
    argv.push_back(b.data());
  }
  int argc = (int)argv.size();
  argv.push_back(nullptr);
  Result r;
  TemporaryRecordableInstanceIdsResetter resetter; // as in a process of its own
  r.out = printed(c, [&] { r.status = vrsMain(argc, argv.data()); });
  return r;
}

string show(const vector<string>& args) {
  string t = "vrs";
  for (auto& a : args) {
    t += " " + (a.empty() ? string("''") : a);
  }
  return t;
}

/// every file under a folder
map<string, Bytes> snapshot(const string& dir, const string& prefix = "") {
  map<string, Bytes> files;
  DIR* d = opendir(dir.c_str());
  if (d == nullptr) {
    return files;
  }
  while (dirent* e = readdir(d)) {
    string name = e->d_name;
    if (name == "." || name == "..") {
      continue;
    }
    struct stat st{};
    lstat((dir + "/" + name).c_str(), &st);
    if (S_ISDIR(st.st_mode)) {
      files[prefix + name + "/"] = {};
      auto more = snapshot(dir + "/" + name, prefix + name + "/");
      files.insert(more.begin(), more.end());
    } else {
      files[prefix + name] = damaged::slurp(dir + "/" + name);
    }
  }
  closedir(d);
  return files;
}

void requireUnchanged(const map<string, Bytes>& before, const map<string, Bytes>& after, const string& what) {
  for (auto& f : before) {
    auto it = after.find(f.first);
    REQUIRE_MSG(it != after.end(), what << ": " << f.first << " is gone");
    REQUIRE_MSG(it->second == f.second, what << ": " << f.first << " was modified");
  }
}

void requireSameFiles(const map<string, Bytes>& before, const map<string, Bytes>& after, const string& what) {
  requireUnchanged(before, after, what);
  for (auto& f : after) {
    REQUIRE_MSG(before.count(f.first) != 0, what << ": " << f.first << " was created");
  }
}

Recording recordOne(pbt::Src& s, pbt::Ctx& c, const string& name, int maxOps = 25, bool plain = true) {
  Recording rec;
  RecordingOptions opt;
  opt.name = name;
  opt.maxStreams = 3;
  opt.maxOps = maxOps;
  opt.bigPayload = 600;
  opt.allowChunks = s.chance(1, 60);
  opt.allowThreads = false;
  opt.idGaps = true;
  opt.plainClock = plain;
  opt.quietExtremes = true;
  record(s, c, rec, opt);
  REQUIRE_EQ(rec.status, 0);
  return rec;
}

/// filters: arguments, and the same requested from the library
struct Filters {
  vector<vector<string>> args;
  RecordFilterParams params;
  double minTime = 0, maxTime = 0;
  bool hasMin = false, hasMax = false, relMin = false, relMax = false, around = false, first = false;
  std::unique_ptr<DefaultDecimator::Params> decimation;

  void prepare(FilteredFileReader& f) const {
    if (hasMin) {
      f.setMinTime(minTime, relMin);
    }
    if (hasMax) {
      f.setMaxTime(maxTime, relMax);
    }
    f.filter.aroundTime = around;
    f.firstRecordsOnly = first;
  }
  void apply(FilteredFileReader& f) const {
    f.applyFilters(params);
    if (decimation) {
      decimation->decimate(f);
    }
  }
};

void genFilters(pbt::Src& s, Filters& f, const vector<string>& paths, bool simple = false) {
  RecordFileReader r;
  REQUIRE_EQ(r.openFile(s.pick(paths)), 0);
  auto& index = r.getIndex();
  for (size_t n = s.weighted({5, 3, 1}); n > 0; n--) {
    auto one = genStreamFilter(s, r);
    bool add = s.flip();
    REQUIRE(add ? f.params.includeStream(one.first) : f.params.excludeStream(one.first));
    f.args.push_back({add ? "+" : "-", one.first});
  }
  for (size_t n = s.weighted({6, 2, 1}); n > 0; n--) {
    string type = s.pick({string("configuration"), string("state"), string("data")});
    bool add = s.flip();
    REQUIRE(add ? f.params.includeType(type) : f.params.excludeType(type));
    f.args.push_back({add ? "+" : "-", type});
  }
  auto value = [&](double& v, bool& rel) {
    double base = index.empty() ? 10 : index[s.below(index.size())].timestamp;
    double last = index.empty() ? 20 : index.back().timestamp, begin = index.empty() ? 0 : index.front().timestamp;
    rel = s.flip();
    v = rel ? (s.flip() ? std::min(base - last, -0.125) : std::max(0., base - begin)) : std::max(0., base + 0.0625 * (double)s.range(-8, 8));
    return (rel && v >= 0 ? "+" : "") + num(v);
  };
  size_t kind = s.weighted({5, 1, 1, 2, 1});
  if (kind == 1) {
    f.args.push_back({"--after", value(f.minTime, f.relMin)});
    f.hasMin = true;
  } else if (kind == 2) {
    f.args.push_back({"--before", value(f.maxTime, f.relMax)});
    f.hasMax = true;
  } else if (kind == 3) {
    string a = value(f.minTime, f.relMin), b = value(f.maxTime, f.relMax);
    f.args.push_back({"--range", a, b});
    f.hasMin = f.hasMax = true;
  } else if (kind == 4) {
    string a = value(f.minTime, f.relMin);
    f.maxTime = 0.125 * (double)s.draw(60);
    f.args.push_back({"--around", a, num(f.maxTime)});
    f.hasMin = f.hasMax = f.around = true;
  }
  if (s.chance(1, 6)) {
    f.first = true;
    f.args.push_back({s.flip() ? "-1" : "--first-records"});
  }
  if (!simple && s.chance(1, 6)) {
    f.decimation = std::make_unique<DefaultDecimator::Params>();
    if (s.flip() && !r.getStreams().empty()) {
      string id = std::to_string((int)r.getStreams().begin()->getTypeId());
      double v = 0.125 * (double)(1 + s.draw(30));
      f.decimation->decimationIntervals.emplace_back(id, v);
      f.args.push_back({"--decimate", id, num(v)});
    }
    if (s.flip()) {
      f.decimation->bucketInterval = 0.125 * (double)(1 + s.draw(30));
      f.args.push_back({"--bucket-interval", num(f.decimation->bucketInterval)});
    }
    if (s.flip()) {
      f.decimation->bucketMaxTimestampDelta = 0.125 * (double)s.draw(10);
      f.args.push_back({"--bucket-max-delta", num(f.decimation->bucketMaxTimestampDelta)});
    }
    if (f.args.empty() || f.args.back()[0].compare(0, 3, "--b") != 0) {
      if (f.decimation->decimationIntervals.empty()) {
        f.decimation.reset();
      }
    }
  }
}

/// the order of groups of arguments doesn't matter, that of the files, and of filters does
vector<string> interleave(pbt::Src& s, vector<vector<vector<string>>> lists) {
  vector<string> args;
  for (;;) {
    vector<size_t> left;
    for (size_t k = 0; k < lists.size(); k++) {
      if (!lists[k].empty()) {
        left.push_back(k);
      }
    }
    if (left.empty()) {
      return args;
    }
    auto& l = lists[s.pick(left)];
    args.insert(args.end(), l.front().begin(), l.front().end());
    l.erase(l.begin());
  }
}

vector<vector<string>> files(const vector<string>& paths) {
  vector<vector<string>> v;
  for (auto& p : paths) {
    v.push_back({p});
  }
  return v;
}

struct CopyArgs {
  CopyOptions o{false};
  vector<vector<string>> args;
};

void genCopyArgs(pbt::Src& s, CopyArgs& a, const set<StreamId>& ids) {
  if (s.flip()) {
    a.args.push_back({"--no-progress"});
  }
  if (s.chance(2, 3)) {
    static const std::pair<const char*, CompressionPreset> kNames[] = {
        {"none", CompressionPreset::None},
        {"default", CompressionPreset::Default},
        {"fast", CompressionPreset::Lz4Fast},
        {"tight", CompressionPreset::Lz4Tight},
        {"zfast", CompressionPreset::ZstdFast},
        {"zlight", CompressionPreset::ZstdLight},
        {"zmedium", CompressionPreset::ZstdMedium},
        {"zsdefault", CompressionPreset::ZstdMedium},
        {"ztight", CompressionPreset::ZstdTight},
        {"zmax", CompressionPreset::ZstdMax},
    };
    auto& p = kNames[s.below(10)];
    a.o.setCompressionPreset(p.second);
    a.args.push_back({string("--compression=") + p.first});
  }
  if (s.chance(1, 5)) {
    size_t n = s.draw(2);
    size_t unit = s.below(3);
    a.o.maxChunkSizeMB = n * (unit == 2 ? 1024 : 1);
    a.args.push_back({"--chunk-size", std::to_string(n) + (unit == 0 ? "" : unit == 1 ? (s.flip() ? "M" : "m") : (s.flip() ? "G" : "g"))});
  }
  if (s.chance(1, 4)) {
    a.o.compressionPoolSize = (unsigned)s.draw(3);
    a.args.push_back({"--mt", std::to_string(a.o.compressionPoolSize)});
  }
  if (s.chance(1, 4)) {
    string name = "t" + s.ident(3), v = s.text(10);
    v.erase(std::remove(v.begin(), v.end(), '\0'), v.end());
    a.o.getTagOverrider().fileTags[name] = v;
    a.args.push_back({"--file-tag", name, v});
  }
  if (s.chance(1, 4) && !ids.empty()) {
    vector<StreamId> all(ids.begin(), ids.end());
    StreamId id = s.pick(all);
    string name = "t" + s.ident(3), v = s.ident(8);
    a.o.getTagOverrider().streamTags[id][name] = v;
    a.args.push_back({"--stream-tag", id.getNumericName(), name, v});
  }
}

vector<string> lines(const string& t) {
  vector<string> v;
  std::istringstream in(t);
  string line;
  while (std::getline(in, line)) {
    v.push_back(line);
  }
  return v;
}

void requireSameRecordings(const string& expected, const string& actual, const string& what) {
  RecordFileReader a, b;
  REQUIRE_EQ(a.openFile(expected), 0);
  REQUIRE_EQ_MSG(b.openFile(actual), 0, what);
  REQUIRE(b.hasIndex());
  Tags tags = tagsOf(a);
  requireTags(b, tags);
  auto& i = a.getIndex();
  auto& j = b.getIndex();
  REQUIRE_EQ_MSG(i.size(), j.size(), what);
  int s1 = 0, s2 = 0;
  auto r1 = readAll(a, s1), r2 = readAll(b, s2);
  REQUIRE_EQ(s1, 0);
  REQUIRE_EQ_MSG(s2, 0, what);
  requireSameRecords(r1, r2, what);
  for (size_t k = 0; k < i.size(); k++) {
    REQUIRE_EQ_MSG(b.getRecordSize((uint32_t)k), a.getRecordSize((uint32_t)k), "size of record " << k << " of " << what); // so, the compression
  }
  auto c1 = a.getFileChunks(), c2 = b.getFileChunks();
  REQUIRE_EQ_MSG(c1.size(), c2.size(), "chunks of " << what);
}

} // namespace

PBT_TEST(
    copies,
    3500,
    60000,
    "1 to 3 recordings copied or merged by a command line with random options, in any order, compared with the same requested from the library; sometimes "
    "to one of the sources, with a missing or invalid source; sources unchanged; non-trivial: records copied with options or filters; distinct by command") {
  size_t count = 1 + s.weighted({5, 3, 1});
  vector<string> paths;
  vector<Recording> recs;
  for (size_t k = 0; k < count; k++) {
    recs.push_back(recordOne(s, c, "f" + std::to_string(k) + ".vrs"));
    paths.push_back(recs.back().path);
  }
  Filters f;
  genFilters(s, f, paths);
  bool zero = count == 1 && s.chance(1, 8);
  CopyArgs a;
  set<StreamId> outIds;
  {
    RecordFileReader r;
    REQUIRE_EQ(r.openFile(paths[0]), 0);
    for (auto& i : mapIds(r.getStreams())) {
      outIds.insert(i.second);
    }
  }
  genCopyArgs(s, a, outIds);
  bool merge = s.flip();
  a.o.mergeStreams = merge;
  string target = c.dir() + "/out.vrs";
  size_t trouble = s.weighted({20, 2, 1, 1, 1});
  vector<string> given = paths;
  if (trouble == 1) { // onto a source
    target = s.pick(paths);
    size_t how = s.below(4);
    if (how == 1) {
      REQUIRE_EQ(symlink(target.c_str(), (c.dir() + "/link.vrs").c_str()), 0);
      target = c.dir() + "/link.vrs";
    } else if (how == 2) {
      target = c.dir() + "/./" + target.substr(target.rfind('/') + 1);
    } else if (how == 3) {
      REQUIRE_EQ(link(target.c_str(), (c.dir() + "/hard.vrs").c_str()), 0);
      target = c.dir() + "/hard.vrs";
    }
  } else if (trouble == 2) { // a source which isn't a recording
    string bad = c.dir() + "/bad.vrs";
    auto bytes = s.bytes(s.size(300));
    damaged::spit(bad, bytes, bytes.size());
    given[s.below(given.size())] = bad;
  } else if (trouble == 3) { // a missing one
    given[s.below(given.size())] = c.dir() + "/missing.vrs";
  } else if (trouble == 4) { // can't be created
    target = c.dir() + "/missing/out.vrs";
  }
  vector<vector<string>> to{{"--to", target}};
  if (zero) {
    to.push_back({"--zero-vrs"});
  }
  vector<string> args = interleave(s, {files(given), f.args, a.args, to});
  args.insert(args.begin(), merge ? "merge" : "copy");
  c.note(show(args));
  auto before = snapshot(c.dir());
  Result r = run(c, args);
  auto after = snapshot(c.dir());
  requireUnchanged(before, after, "copy");
  if (trouble != 0) {
    REQUIRE_MSG(r.status != 0, "no failure: " << r.out);
    if (trouble != 4) {
      requireSameFiles(before, after, "failed copy");
    }
    c.label(trouble == 1 ? "onto a source" : trouble == 2 ? "bad source" : trouble == 3 ? "missing source" : "no folder");
    c.nontrivial(show(args));
    return;
  }
  REQUIRE_MSG(r.status == 0, "status " << r.status << ": " << r.out);
  // the same with the library
  string reference = c.dir() + "/ref.vrs";
  TemporaryRecordableInstanceIdsResetter resetter;
  FilteredFileReader first(paths[0]);
  f.prepare(first);
  REQUIRE_EQ(first.openFile(), 0);
  f.apply(first);
  if (count == 1) {
    REQUIRE_EQ(filterCopy(first, reference, a.o, zero ? makeZeroFilterCopier : makeCopier), 0);
  } else {
    std::list<FilteredFileReader> more;
    for (size_t k = 1; k < count; k++) {
      more.emplace_back(paths[k]);
      f.prepare(more.back());
      REQUIRE_EQ(more.back().openFile(), 0);
      f.apply(more.back());
    }
    REQUIRE_EQ(filterMerge(first, more, reference, a.o), 0);
  }
  requireSameRecordings(reference, target, show(args));
  RecordFileReader out;
  REQUIRE_EQ(out.openFile(target), 0);
  if (count == 1) { // merging may leave out records after counting them
    REQUIRE_MSG(r.out.find("Wrote " + std::to_string(out.getIndex().size()) + " records in ") != string::npos, r.out);
  }
  c.label(zero ? "zero" : count == 1 ? "one file" : merge ? "merge" : "copy");
  if (f.first && count > 1) {
    c.label("first records of several");
  }
  if (!out.getIndex().empty() && f.args.size() + a.args.size() > 0) {
    c.nontrivial(show(args) + std::to_string(out.getIndex().size()));
  }
}

PBT_TEST(
    refused,
    20000,
    200000,
    "any command with valid options, one of them made invalid, at any place: failure, and no file created or modified; non-trivial: all; distinct by "
    "command line") {
  Recording rec = recordOne(s, c, "f.vrs", 6);
  string out = c.dir() + "/out.vrs";
  static const char* kCommands[] = {"details", "copy", "merge", "check", "checksum", "checksums", "checksum-verbatim", "hexdump", "decode", "compare", "compare-verbatim", "debug", "record-formats", "list", "print", "print-details", "print-json", "print-json-pretty", "rage", "extract-images", "extract-audio", "extract-all", "json-description", "json-pretty-description", "fix-index", "compression-benchmark"};
  string command = kCommands[s.below(26)];
  bool several = command == "copy" || command == "merge" || command == "compare" || command == "compare-verbatim" || command == "fix-index";
  Filters f;
  genFilters(s, f, {rec.path});
  CopyArgs a;
  RecordFileReader r;
  REQUIRE_EQ(r.openFile(rec.path), 0);
  genCopyArgs(s, a, r.getStreams());
  vector<vector<string>> groups = f.args;
  groups.insert(groups.end(), a.args.begin(), a.args.end());
  vector<vector<string>> file{{rec.path}}, to{{"--to", out}}, bad;
  string junk = s.pick({string("abc"), string("x1"), string(""), string("--"), string("+")});
  bool atEnd = false;
  size_t kind = s.below(24);
  switch (kind) {
    case 0:
      bad = {{"--" + s.ident(6) + "zz"}};
      break;
    case 1:
      bad = {{c.dir() + "/missing.vrs"}};
      break;
    case 2:
      if (several) {
        throw pbt::Discard{};
      }
      bad = {{rec.path}}; // one too many
      break;
    case 3:
      bad = {{"--to"}};
      atEnd = true;
      break;
    case 4:
      bad = {{"--compression=" + s.pick({string("abc"), string("x1"), string("noneX"), string("zdefault")})}};
      break;
    case 5:
      bad = {{"--chunk-size", junk}};
      break;
    case 6:
      bad = {{"--chunk-size"}};
      atEnd = true;
      break;
    case 7:
      bad = {{"--mt", junk}};
      break;
    case 8:
      bad = {{"--mt"}};
      atEnd = true;
      break;
    case 9:
      bad = {{s.flip() ? "--after" : "--before", junk}};
      break;
    case 10:
      bad = {{s.flip() ? "--after" : "--before"}};
      atEnd = true;
      break;
    case 11:
      bad = {{"--range", s.flip() ? junk : "1", junk}};
      break;
    case 12:
      bad = {{s.flip() ? "--range" : "--around", "1"}};
      atEnd = true;
      break;
    case 13:
      bad = {{"--around", s.flip() ? junk : "1", junk}};
      break;
    case 14:
      bad = {{s.flip() ? "+" : "-", s.pick({string("abc"), string("x1"), string("configurations"), string(" ")})}};
      break;
    case 15:
      bad = {{s.flip() ? "+" : "-"}};
      atEnd = true;
      break;
    case 16:
      bad = {{"--file-tag", "", "value"}};
      break;
    case 17:
      bad = {{"--file-tag", "name"}};
      atEnd = true;
      break;
    case 18:
      bad = {{"--stream-tag", s.pick({string("abc"), string(""), string("1"), string("100-"), string("-1")}), "name", "value"}};
      break;
    case 19:
      bad = {{"--stream-tag", "100-1", "", "value"}};
      break;
    case 20:
      bad = {{"--stream-tag", "100-1", "name"}};
      atEnd = true;
      break;
    case 21:
      bad = {{"--decimate", "100", junk}};
      break;
    case 22:
      bad = {{s.flip() ? "--bucket-interval" : "--bucket-max-delta", junk}};
      break;
    default: // no file or nothing to write to
      if (command == "copy" || command == "merge") {
        if (s.flip()) {
          to.clear();
        } else {
          file.clear();
        }
      } else if (command == "details") {
        file = {{c.dir()}}; // a folder
      } else {
        file.clear();
      }
      break;
  }
  vector<vector<vector<string>>> lists{file, groups, to};
  if (!atEnd) {
    lists.push_back(bad);
  }
  vector<string> args = interleave(s, lists);
  if (atEnd) {
    args.insert(args.end(), bad[0].begin(), bad[0].end());
  }
  args.insert(args.begin(), command);
  if (command == "details" && kind != 1 && kind != 23 && s.flip() && file.size() == 1) { // implicitly
    args.erase(std::find(args.begin(), args.end(), rec.path));
    args[0] = rec.path;
  }
  c.note(show(args));
  auto before = snapshot(c.dir());
  Result res = run(c, args);
  REQUIRE_MSG(res.status != 0, "accepted: " << res.out);
  requireSameFiles(before, snapshot(c.dir()), "refused command");
  c.label(command);
  c.nontrivial(show(args));
}

PBT_TEST(
    reports,
    6000,
    60000,
    "commands which print something about one or two recordings, possibly damaged, with filters: what's printed is what the library says, and nothing is "
    "written; non-trivial: several records selected, not all; distinct by command and text") {
  Recording rec = recordOne(s, c, "f.vrs", 30);
  string other = rec.path;
  bool sameBytes = true;
  if (s.chance(1, 3)) {
    other = recordOne(s, c, "g.vrs", 6).path;
  } else if (s.flip()) {
    other = c.dir() + "/g.vrs";
    auto bytes = damaged::slurp(rec.path);
    if (s.flip()) {
      bytes[s.below(bytes.size())] ^= 1 << s.below(8);
    }
    damaged::spit(other, bytes, bytes.size());
  }
  if (s.chance(1, 5)) {
    auto bytes = damaged::slurp(rec.path);
    bytes[bytes.size() - 1 - s.below(std::min<size_t>(bytes.size(), 400))] ^= 0x11;
    damaged::spit(rec.path, bytes, bytes.size());
  }
  Bytes wholeFile;
  {
    auto a = damaged::chunkPathsOf(c.dir(), "f.vrs"), b = other == rec.path ? a : damaged::chunkPathsOf(c.dir(), "g.vrs");
    Bytes x, y;
    for (auto& p : a) {
      auto bytes = damaged::slurp(p);
      x.insert(x.end(), bytes.begin(), bytes.end());
    }
    for (auto& p : b) {
      auto bytes = damaged::slurp(p);
      y.insert(y.end(), bytes.begin(), bytes.end());
    }
    sameBytes = x == y;
    wholeFile = x;
  }
  RecordFileReader probe;
  if (probe.openFile(rec.path) != 0 || probe.getIndex().size() > 10000) {
    throw pbt::Discard{};
  }
  probe.closeFile();
  static const char* kCommands[] = {"details", "", "check", "checksum", "checksums", "hexdump", "decode", "record-formats", "list", "print", "print-details", "print-json", "print-json-pretty", "rage", "json-description", "json-pretty-description", "compare", "compare-verbatim", "checksum-verbatim", "debug"};
  string command = kCommands[s.below(20)];
  Filters f;
  genFilters(s, f, {rec.path});
  vector<vector<string>> paths{{rec.path}};
  bool compare = command == "compare" || command == "compare-verbatim";
  if (compare) {
    paths.push_back({other});
  }
  vector<string> args;
  if (command.empty()) {
    args = interleave(s, {f.args, {{"--no-progress"}}});
    args.insert(args.begin(), rec.path);
  } else {
    args = interleave(s, {paths, f.args, {{"--no-progress"}}});
    args.insert(args.begin(), command);
  }
  c.note(show(args));
  auto before = snapshot(c.dir());
  Result res = run(c, args);
  requireSameFiles(before, snapshot(c.dir()), command);
  // the library
  FilteredFileReader r(rec.path), r2(other);
  f.prepare(r);
  REQUIRE_EQ(r.openFile(), 0);
  f.apply(r);
  using RecordFileInfo::Details;
  CopyOptions options(false);
  int status = 0;
  size_t selected = 0, total = r.reader.getIndex().size();
  string out = printed(c, [&] {
    auto overview = [&](Details d) { RecordFileInfo::printOverview(std::cout, r.reader, r.filter.streams, d); };
    auto check = [&](CheckType t) { std::cout << checkRecords(r, options, t) << "\n"; };
    if (command == "details" || command.empty()) {
      overview(Details::Everything);
    } else if (command == "check") {
      overview(Details::MainCounters);
      check(CheckType::Check);
    } else if (command == "decode") {
      overview(Details::MainCounters);
      check(CheckType::Decode);
    } else if (command == "checksum") {
      check(CheckType::Checksum);
    } else if (command == "checksums") {
      check(CheckType::Checksums);
    } else if (command == "hexdump") {
      check(CheckType::HexDump);
    } else if (command == "record-formats") {
      std::cout << printRecordFormats(r) << "\n";
    } else if (command == "list") {
      listRecords(r);
    } else if (command == "print") {
      printRecordFormatRecords(r, PrintoutType::Compact);
    } else if (command == "print-details") {
      printRecordFormatRecords(r, PrintoutType::Details);
    } else if (command == "print-json") {
      printRecordFormatRecords(r, PrintoutType::JsonCompact);
    } else if (command == "print-json-pretty") {
      printRecordFormatRecords(r, PrintoutType::JsonPretty);
    } else if (command == "rage") {
      overview(Details::Everything);
      std::cout << "\nFirst records:\n";
      r.firstRecordsOnly = true;
      printRecordFormatRecords(r, PrintoutType::Details);
    } else if (command == "json-description") {
      std::cout << RecordFileInfo::jsonOverview(r.reader, r.filter.streams, Details::Everything) << "\n";
    } else if (command == "json-pretty-description") {
      std::cout << RecordFileInfo::jsonOverview(r.reader, r.filter.streams, Details::Everything + Details::JsonPretty) << "\n";
    } else if (command == "compare") {
      overview(Details::MainCounters);
      std::cout << "Comparing with ";
      f.prepare(r2);
      int error = r2.openFile();
      if (error == 0) {
        f.apply(r2);
        RecordFileInfo::printOverview(std::cout, r2.reader, r2.filter.streams, Details::MainCounters);
        std::cout << (compareVRSfiles(r, r2, options) ? "Files are equivalent." : "Files differ.") << "\n";
      } else {
        status = 1;
      }
    } else if (command == "compare-verbatim") {
      compareVerbatim(r.spec, r2.spec, false);
      std::cout << (sameBytes ? "Files are identical." : "Files differ.") << "\n";
    } else if (command == "checksum-verbatim") {
      XXH64Digester digester;
      digester.ingest(wholeFile.data(), wholeFile.size());
      std::cout << digester.digestToString() << "\n";
    } else if (command == "debug") {
      std::cout << "VRS file internals of '" << r.getPathOrUri() << "'\n";
      FileSpec spec;
      std::unique_ptr<FileHandler> file;
      if (RecordFileReader::vrsFilePathToFileSpec(rec.path, spec) != 0 || !(file = FileHandler::makeOpen(spec)) || !FileFormat::printVRSFileInternals(file)) {
        status = 1;
      }
    }
  });
  r.iterateAdvanced([&](RecordFileReader&, const Info&) {
    selected++;
    return true;
  });
  auto normal = [](string t) {
    static const std::regex kTime("(in|after) [0-9.]+ ?[a-zµ]+[0-9.: a-zµ]*");
    return std::regex_replace(t, kTime, "$1 T");
  };
  if (out != res.out) {
    auto a = lines(normal(out)), b = lines(normal(res.out));
    for (size_t k = 0; k < std::max(a.size(), b.size()); k++) {
      REQUIRE_MSG(k < a.size(), "unexpected line: " << b[k]);
      REQUIRE_MSG(k < b.size(), "missing line: " << a[k]);
      REQUIRE_EQ(b[k], a[k]);
    }
  }
  REQUIRE_EQ_MSG(res.status != 0, status != 0, res.out);
  c.label(command.empty() ? "(none)" : command);
  if (selected > 1 && selected < total) {
    c.nontrivial(command + out);
  }
}

PBT_TEST(
    fixIndex,
    6000,
    60000,
    "1 to 3 recordings, some truncated at any place, or not recordings: after fix-index, the files which can be opened have an index with the same "
    "records as before, those which had one are unchanged, and the command fails if one of the files can't be opened; non-trivial: a file was fixed; "
    "distinct by sizes") {
  size_t count = 1 + s.weighted({3, 2, 1});
  vector<string> paths;
  struct State {
    bool opens = false, indexed = false;
    vector<Rec> records;
    map<string, Bytes> bytes;
  };
  vector<State> states(count);
  size_t fixed = 0;
  string key;
  for (size_t k = 0; k < count; k++) {
    string name = "f" + std::to_string(k) + ".vrs";
    Recording rec = recordOne(s, c, name, 20);
    paths.push_back(rec.path);
    auto chunks = damaged::chunkPathsOf(c.dir(), name);
    if (s.chance(3, 5)) {
      auto bytes = damaged::slurp(chunks.back());
      size_t n = s.chance(1, 10) ? s.below(bytes.size()) : bytes.size() - 1 - s.below(std::min<size_t>(bytes.size() - 1, 3000));
      damaged::spit(chunks.back(), bytes, n);
      key += std::to_string(n) + ",";
    }
    State& st = states[k];
    for (auto& p : chunks) {
      st.bytes[p] = damaged::slurp(p);
    }
    RecordFileReader r;
    st.opens = r.openFile(rec.path) == 0;
    if (st.opens) {
      st.indexed = r.hasIndex();
      int status = 0;
      st.records = readAll(r, status);
      REQUIRE_EQ(status, 0);
    }
  }
  vector<string> args = paths;
  args.insert(args.begin(), "fix-index");
  c.note(show(args) + " " + key);
  Result res = run(c, args);
  bool failed = false;
  for (size_t k = 0; k < count; k++) {
    State& st = states[k];
    if (st.opens && !st.indexed && !failed && !st.records.empty()) {
      RecordFileReader r;
      REQUIRE_EQ(r.openFile(paths[k]), 0);
      REQUIRE_MSG(r.hasIndex(), "no index in " << paths[k]);
      int status = 0;
      auto records = readAll(r, status);
      REQUIRE_EQ(status, 0);
      requireSameRecords(st.records, records, paths[k]);
      fixed++;
    } else if (!st.opens || st.indexed) {
      for (auto& b : st.bytes) {
        REQUIRE_MSG(damaged::slurp(b.first) == b.second, b.first << " was modified");
      }
    }
    failed = failed || !st.opens;
  }
  REQUIRE_EQ_MSG(res.status != 0, failed, res.out);
  if (fixed > 0) {
    c.nontrivial(key);
  }
}

namespace {

string numbered(StreamId id, size_t n, double ts, int width) {
  char text[400];
  snprintf(text, sizeof(text), "%s-%0*zu-%.3f", id.getNumericName().c_str(), width, n, ts);
  return text;
}

string rawName(const ImageContentBlockSpec& spec) {
  switch (spec.getImageFormat()) {
    case ImageFormat::RAW:
      return "-" + spec.getPixelFormatAsString() + "-" + std::to_string(spec.getWidth()) + "x" + std::to_string(spec.getHeight()) +
          (spec.getRawStride() > 0 ? "-stride_" + std::to_string(spec.getRawStride()) : "") + ".raw";
    case ImageFormat::VIDEO:
      return "#" + std::to_string(spec.getKeyFrameIndex()) + "." + spec.getCodecName();
    default:
      return "." + toString(spec.getImageFormat());
  }
}

/// the png file made of raw pixels, if there is one
std::optional<Bytes> pngOf(pbt::Ctx& c, const contentgen::Event& ev) {
  auto frame = std::make_shared<PixelFrame>(ev.block.image());
  auto& spec = ev.block.image();
  frame->getBuffer() = ev.bytes;
  std::shared_ptr<PixelFrame> normal;
  PixelFrame::normalizeFrame(frame, normal, true);
  string path = c.dir() + "-one.png";
  int status = normal->writeAsPng(path);
  std::optional<Bytes> res;
  if (status == 0) {
    res = damaged::slurp(path);
  }
  unlink(path.c_str());
  (void)spec;
  return res;
}

uint64_t le(const Bytes& b, size_t at, size_t n) {
  uint64_t v = 0;
  for (size_t k = n; k > 0; k--) {
    v = v << 8 | b[at + k - 1];
  }
  return v;
}

struct Wav {
  AudioContentBlockSpec spec;
  Bytes data;
};

void requireWav(const Bytes& b, const Wav& w, const string& name) {
  REQUIRE_MSG(b.size() >= 44, name << ": " << b.size() << " bytes");
  auto text = [&](size_t at) { return string(b.begin() + at, b.begin() + at + 4); };
  REQUIRE_EQ(text(0), "RIFF");
  REQUIRE_EQ(le(b, 4, 4), b.size() - 8);
  REQUIRE_EQ(text(8), "WAVE");
  REQUIRE_EQ(text(12), "fmt ");
  REQUIRE_EQ(le(b, 16, 4), 16u);
  auto sf = w.spec.getSampleFormat();
  bool real = sf == AudioSampleFormat::F32_LE || sf == AudioSampleFormat::F64_LE || sf == AudioSampleFormat::F32_BE || sf == AudioSampleFormat::F64_BE;
  uint64_t format = real ? 3 : sf == AudioSampleFormat::A_LAW ? 6 : sf == AudioSampleFormat::MU_LAW ? 7 : 1;
  REQUIRE_EQ_MSG(le(b, 20, 2), format, name);
  uint64_t bytes = AudioContentBlockSpec::getBytesPerSample(sf), channels = w.spec.getChannelCount(), rate = w.spec.getSampleRate();
  REQUIRE_EQ(le(b, 22, 2), channels);
  REQUIRE_EQ(le(b, 24, 4), rate);
  REQUIRE_EQ(le(b, 28, 4), (uint32_t)(rate * channels * bytes));
  REQUIRE_EQ(le(b, 32, 2), channels * bytes);
  REQUIRE_EQ(le(b, 34, 2), (uint64_t)w.spec.getBitsPerSample());
  REQUIRE_EQ(text(36), "data");
  REQUIRE_EQ(le(b, 40, 4), b.size() - 44);
  REQUIRE_MSG(Bytes(b.begin() + 44, b.end()) == w.data, name << ": samples differ, " << b.size() - 44 << " bytes instead of " << w.data.size());
}

/// the wav files of a stream
struct WavModel {
  StreamId id;
  size_t count = 0;
  string current;
  map<string, Wav> files;

  void add(const contentgen::Event& ev, double ts) {
    auto& spec = ev.block.audio();
    if (spec.getAudioFormat() != AudioFormat::PCM) {
      return; // random bytes are no opus audio
    }
    auto same = [](const AudioContentBlockSpec& a, const AudioContentBlockSpec& b) {
      return a.getSampleFormat() == b.getSampleFormat() && a.getChannelCount() == b.getChannelCount() && a.getSampleRate() == b.getSampleRate() &&
          a.getSampleFrameStride() == b.getSampleFrameStride();
    };
    if (current.empty() || !same(files[current].spec, spec)) {
      current = numbered(id, count++, ts, 4) + ".wav";
      files[current] = Wav{spec, {}};
    }
    auto& data = files[current].data;
    size_t size = AudioContentBlockSpec::getBytesPerSample(spec.getSampleFormat()) * spec.getChannelCount(), stride = spec.getSampleFrameStride();
    for (size_t k = 0; k < spec.getSampleCount(); k++) {
      data.insert(data.end(), ev.bytes.begin() + k * stride, ev.bytes.begin() + k * stride + size);
    }
  }
};

} // namespace

PBT_TEST(
    extraction,
    6000,
    80000,
    "recordings with generated formats, filtered by stream and time, extracted: one file per image, named by stream, rank and time, with the bytes recorded, or "
    "a png of the same pixels; wav files with the samples of consecutive compatible blocks; metadata as json, a description and the contents of each record; "
    "no other file; non-trivial: 2 files or more; distinct by names and contents") {
  contentgen::FormatRecording fr;
  string path = c.dir() + "/f.vrs";
  contentgen::recordFormats(s, c, fr, path);
  string folder = c.dir() + (s.flip() ? "/out" : "/a/b");
  size_t what = s.below(4); // images, raw images, audio, all
  vector<vector<string>> filter;
  set<StreamId> ids;
  for (auto& st : fr.streams) {
    ids.insert(st.stream->getStreamId());
  }
  // streams are considered when they have data records, and formats with what's extracted
  set<StreamId> eligible;
  for (auto& st : fr.streams) {
    bool data = false, inData = false, inOthers = false;
    for (auto& e : fr.expected) {
      data = data || (e.id == st.stream->getStreamId() && e.type == Record::Type::DATA);
    }
    for (auto& k : st.kinds) {
      for (auto& b : k.blocks) {
        if (b.type == (what == 2 ? ContentType::AUDIO : ContentType::IMAGE)) {
          (k.type == Record::Type::DATA ? inData : inOthers) = true;
        }
      }
    }
    if (what != 3 && data && !inData && inOthers) {
      throw pbt::Discard{}; // unspecified
    }
    if (what == 3 || (data && inData)) {
      eligible.insert(st.stream->getStreamId());
    }
  }
  double after = -1e300;
  if (s.chance(1, 3)) {
    auto id = s.pick(vector<StreamId>(ids.begin(), ids.end()));
    ids.erase(id);
    filter.push_back({"-", id.getNumericName()});
  }
  if (what == 3 ? false : s.chance(1, 4)) {
    after = s.pick(fr.expected).ts;
    filter.push_back({"--after", num(after)});
  }
  vector<vector<string>> options{{"--to", folder}};
  if (what == 1) {
    options.push_back({"--raw-images"});
  }
  vector<string> args = interleave(s, {{{path}}, filter, options});
  args.insert(args.begin(), what < 2 ? "extract-images" : what == 2 ? "extract-audio" : "extract-all");
  c.note(fr.formats + show(args));
  // expected
  map<string, std::optional<Bytes>> images;
  map<StreamId, size_t> rank;
  map<StreamId, WavModel> wavs;
  struct Line {
    const contentgen::Expected* e;
    vector<const contentgen::Event*> blocks;
    bool partial = false;
    vector<string> names;
  };
  vector<Line> linesWanted;
  size_t found = 0;
  map<StreamId, bool> unsure; // images that can't be decoded stop the reading of their record
  // the last configuration and state before the range are included
  map<std::pair<StreamId, Record::Type>, const contentgen::Expected*> preRoll;
  bool anyAfter = false;
  for (auto& e : fr.expected) {
    anyAfter = anyAfter || e.ts > after;
    if (e.ts <= after && e.type != Record::Type::DATA) {
      preRoll[{e.id, e.type}] = &e;
    }
  }
  if (!anyAfter) {
    throw pbt::Discard{}; // unspecified
  }
  for (auto& p : preRoll) { // when the state's configuration is read after it, what describes its contents is unspecified
    auto config = preRoll.find({p.first.first, Record::Type::CONFIGURATION});
    if (p.first.second == Record::Type::STATE && (config == preRoll.end() || config->second > p.second)) {
      for (auto& ev : p.second->events) {
        if (ev.type == ContentType::IMAGE || ev.type == ContentType::AUDIO) {
          throw pbt::Discard{};
        }
      }
    }
  }
  for (auto& e : fr.expected) {
    if (ids.count(e.id) == 0 || eligible.count(e.id) == 0 || (e.ts <= after && (e.type == Record::Type::DATA || preRoll[{e.id, e.type}] != &e))) {
      continue;
    }
    Line line{&e, {}};
    for (auto& ev : e.events) {
      line.blocks.push_back(&ev);
      line.names.push_back("");
      if (ev.type == ContentType::IMAGE) {
        if (ev.unsupported) {
          if (what < 2) {
            rank[e.id]++;
          }
          continue;
        }
        auto& spec = ev.block.image();
        if (what == 2) {
          continue;
        }
        size_t n = ++rank[e.id];
        found++;
        bool decode = what != 1 && (spec.getImageFormat() == ImageFormat::RAW || spec.getImageFormat() == ImageFormat::VIDEO);
        string name;
        if (decode) {
          name = numbered(e.id, n, e.ts, 5) + ".png";
          if (spec.getImageFormat() == ImageFormat::VIDEO || spec.getRawImageSize() == ContentBlock::kSizeUnknown) {
            line.partial = true; // no decoder, no dimensions
            break;
          }
          auto png = pngOf(c, ev);
          if (png) {
            images[(what == 3 ? e.id.getNumericName() + "/" : "") + name] = png;
          }
        } else {
          name = numbered(e.id, n, e.ts, 5) + rawName(spec);
          if (name.find('/') != string::npos) {
            throw pbt::Discard{};
          }
          images[(what == 3 ? e.id.getNumericName() + "/" : "") + name] = ev.bytes;
        }
        line.names.back() = name;
      } else if (ev.type == ContentType::AUDIO && what >= 2 && !ev.unsupported) {
        auto& w = wavs[e.id];
        w.id = e.id;
        w.add(ev, e.ts);
      }
    }
    if (!e.events.empty()) { // there is a format to read it, with contents
      linesWanted.push_back(std::move(line));
    }
  }
  auto before = snapshot(c.dir());
  for (size_t times = s.chance(1, 4) ? 2 : 1; times > 0; times--) {
    Result res = run(c, args);
    REQUIRE_MSG(res.status == 0, res.out);
    auto all = snapshot(c.dir());
    requireUnchanged(before, all, "extraction");
    auto files = snapshot(folder);
    size_t left = 0;
    for (auto& f : files) {
      left += f.first.back() != '/';
    }
    for (auto& i : images) {
      auto it = files.find(i.first);
      REQUIRE_MSG(it != files.end(), "no file " << i.first << ": " << res.out);
      REQUIRE_MSG(it->second == *i.second, "wrong content of " << i.first);
      left--;
    }
    if (what < 2) {
      REQUIRE_MSG(res.out.find("Found " + std::to_string(found) + " image(s).") != string::npos, res.out);
    }
    size_t count = 0;
    for (auto& w : wavs) {
      for (auto& f : w.second.files) {
        auto it = files.find((what == 3 ? w.first.getNumericName() + "/" : "") + f.first);
        REQUIRE_MSG(it != files.end(), "no file " << f.first << ": " << res.out);
        requireWav(it->second, f.second, f.first);
        left--;
        count++;
      }
    }
    if (what == 2) {
      REQUIRE_MSG(res.out.find("Wrote " + std::to_string(count) + " audio file(s) from ") != string::npos, res.out);
    }
    if (what == 3) {
      REQUIRE(files.count("ReadMe.md") == 1 && files.count("metadata.jsons") == 1);
      left -= 2;
      auto& bytes = files["metadata.jsons"];
      auto got = lines(string(bytes.begin(), bytes.end()));
      REQUIRE_EQ(got.size(), 1 + 2 * linesWanted.size());
      using JDocument = vrs_rapidjson::Document;
      auto parse = [](const string& t) {
        auto d = std::make_unique<JDocument>();
        d->Parse<vrs_rapidjson::kParseNanAndInfFlag | vrs_rapidjson::kParseFullPrecisionFlag>(t.data(), t.size());
        REQUIRE_MSG(!d->HasParseError() && d->IsObject(), "not json: " << t);
        return d;
      };
      parse(got[0]);
      for (size_t k = 0; k < linesWanted.size(); k++) {
        auto& line = linesWanted[k];
        auto head = parse(got[1 + 2 * k]);
        REQUIRE(head->HasMember("stream") && head->HasMember("type") && head->HasMember("timestamp") && head->MemberCount() == 3);
        REQUIRE_EQ(string((*head)["stream"].GetString()), line.e->id.getNumericName());
        REQUIRE_EQ(string((*head)["type"].GetString()), string(Record::typeName(line.e->type)));
        REQUIRE_EQ((*head)["timestamp"].GetDouble(), line.e->ts);
        auto body = parse(got[2 + 2 * k]);
        REQUIRE(body->MemberCount() == 1 && body->HasMember("content") && (*body)["content"].IsArray());
        auto& content = (*body)["content"];
        size_t at = 0;
        for (size_t b = 0; b < line.blocks.size(); b++) {
          auto& ev = *line.blocks[b];
          if (ev.type == ContentType::AUDIO && !ev.unsupported) {
            continue;
          }
          if (line.partial && b + 1 == line.blocks.size()) {
            break;
          }
          REQUIRE_MSG(at < content.Size(), "no block " << b << " in " << got[2 + 2 * k]);
          auto& block = content[(unsigned)at++];
          REQUIRE(block.IsObject());
          if (ev.unsupported) {
            REQUIRE(block.MemberCount() == 1 && block.HasMember("unsupported_block"));
            REQUIRE_EQ(string(block["unsupported_block"].GetString()), ev.block.asString());
          } else if (ev.type == ContentType::IMAGE) {
            REQUIRE(block.MemberCount() == 1 && block.HasMember("image"));
            REQUIRE_EQ(string(block["image"].GetString()), line.names[b]);
          } else if (ev.type == ContentType::DATA_LAYOUT) {
            lay::Live live(ev.layout);
            live.store(ev.layout);
            live.collectVariableDataAndUpdateIndex();
            vrs::JsonFormatProfileSpec profile(vrs::JsonFormatProfile::Public);
            profile.type = false;
            string json = live.asJson(profile);
            REQUIRE_MSG(got[2 + 2 * k].find(json) != string::npos, "no " << json << " in " << got[2 + 2 * k]);
          } else if (ev.type == ContentType::CUSTOM) {
            REQUIRE_MSG(block.MemberCount() == 1 && block.HasMember("custom") && block["custom"].HasMember("size"), got[2 + 2 * k]);
            REQUIRE_EQ(block["custom"]["size"].GetUint64(), ev.bytes.size());
          }
        }
        REQUIRE_MSG(at == content.Size(), "more blocks than recorded: " << got[2 + 2 * k]);
      }
    }
    REQUIRE_MSG(left == 0, left << " unexpected files: " << res.out);
  }
  c.label(args[0] + (what == 1 ? " raw" : ""));
  size_t total = images.size();
  uint64_t key = 0;
  for (auto& i : images) {
    key = pbt::mix64(key ^ pbt::hashStr(i.first) ^ pbt::hashBytes(i.second->data(), i.second->size()));
  }
  for (auto& w : wavs) {
    for (auto& f : w.second.files) {
      total++;
      key = pbt::mix64(key ^ pbt::hashBytes(f.second.data.data(), f.second.data.size()));
    }
  }
  if (total > 1) {
    c.nontrivial(key);
  }
}

PBT_TEST(help, 200, 400, "the help and the examples are printed, with and without arguments; all") {
  size_t kind = s.below(3);
  vector<string> args;
  if (kind == 0) {
    args = {"help"};
  } else if (kind == 1) {
    args = {s.ident(6) + "zzz"};
  }
  Result r = run(c, args);
  REQUIRE_EQ(r.status == 0, kind == 0);
  for (const char* text : {"copy", "merge", "--compression=", "--chunk-size", "extract-images", "fix-index", "--range", "Examples:"}) {
    REQUIRE_MSG(r.out.find(text) != string::npos, "no " << text << " in " << r.out);
  }
  c.nontrivial(s.u64());
}
