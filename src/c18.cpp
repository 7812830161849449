// C18: cached file details give the same view as the file itself; damaged caches are refused or harmless.
#include <dirent.h>
#include <unistd.h>

#include <sstream>

#include <vrs/FileCache.h>
#include <vrs/FileDetailsCache.h>
#include <vrs/FileHandlerFactory.h>
#include <vrs/ProgressLogger.h>

#include "damaged.h"

using namespace gen;
using namespace vrs;
using std::map;
using std::set;
using std::string;
using std::vector;

namespace {

struct Remote {
  size_t reads = 0;
  int64_t bytesRead = 0;
  int64_t failAt = -1; // number of the read to fail
  int64_t failCount = 1;
  bool failed = false;
} remoteState;

class RemoteFile : public DiskFile {
 public:
  std::unique_ptr<FileHandler> makeNew() const override {
    return std::make_unique<RemoteFile>();
  }
  const string& getFileHandlerName() const override {
    static const string n = "remotefile";
    return n;
  }
  bool isRemoteFileSystem() const override {
    return true;
  }
  int openSpec(const FileSpec& spec) override {
    FileSpec local = spec;
    local.fileHandlerName.clear();
    return DiskFile::openSpec(local);
  }
  using DiskFile::read;
  int read(void* buffer, size_t length) override {
    int64_t n = (int64_t)remoteState.reads++;
    remoteState.bytesRead += (int64_t)length;
    if (remoteState.failAt >= 0 && n >= remoteState.failAt && n < remoteState.failAt + remoteState.failCount) {
      remoteState.failed = true;
      lastRWSize_ = 0;
      return lastError_ = 90909;
    }
    return DiskFile::read(buffer, length);
  }
};

void setUp(pbt::Ctx& c) {
  static bool registered = false;
  if (!registered) {
    FileHandlerFactory::getInstance().registerFileHandler(std::make_unique<RemoteFile>());
    registered = true;
  }
  remoteState = {};
  REQUIRE_EQ(FileCache::makeFileCache("cache", c.dir()), 0);
}

struct View {
  int status = 0;
  bool hasIndex = false;
  set<StreamId> streams;
  map<string, string> fileTags;
  map<string, pair<map<string, string>, map<string, string>>> tags;
  vector<std::tuple<double, int64_t, string, int>> index;
  vector<string> records;
  int readStatus = 0;
  size_t openReads = 0;
};

View look(const FileSpec& spec, ProgressLogger* progress = nullptr) {
  View v;
  RecordFileReader r;
  if (progress) {
    r.setOpenProgressLogger(progress);
  }
  size_t before = remoteState.reads;
  v.status = r.openFile(spec);
  v.openReads = remoteState.reads - before;
  if (v.status != 0) {
    r.closeFile();
    return v;
  }
  v.hasIndex = r.hasIndex();
  v.streams = r.getStreams();
  v.fileTags = r.getTags();
  for (StreamId id : v.streams) {
    auto& t = r.getTags(id);
    v.tags[id.getNumericName()] = {t.user, t.vrs};
  }
  for (auto& i : r.getIndex()) {
    v.index.emplace_back(i.timestamp, i.fileOffset, i.streamId.getNumericName(), (int)i.recordType);
  }
  for (auto& rec : readAll(r, v.readStatus)) {
    v.records.push_back(rec.str() + std::to_string(pbt::hashBytes(rec.data.data(), rec.data.size())));
  }
  r.closeFile();
  return v;
}

void requireSame(const View& a, const View& b, const string& what) {
  REQUIRE_EQ_MSG(a.status, b.status, what);
  REQUIRE_EQ_MSG(a.hasIndex, b.hasIndex, what);
  REQUIRE_MSG(a.streams == b.streams, what << ": " << a.streams.size() << " streams vs " << b.streams.size());
  REQUIRE_EQ_MSG(a.fileTags, b.fileTags, what);
  for (auto& t : b.tags) {
    auto it = a.tags.find(t.first);
    REQUIRE_MSG(it != a.tags.end(), what << " tags of " << t.first);
    REQUIRE_EQ_MSG(it->second.first, t.second.first, what);
    REQUIRE_EQ_MSG(it->second.second, t.second.second, what);
  }
  REQUIRE_EQ_MSG(a.tags.size(), b.tags.size(), what);
  REQUIRE_EQ_MSG(a.index.size(), b.index.size(), what);
  REQUIRE_MSG(a.index == b.index, what << ": index");
  REQUIRE_EQ_MSG(a.records.size(), b.records.size(), what);
  for (size_t k = 0; k < a.records.size(); k++) {
    REQUIRE_EQ_MSG(a.records[k], b.records[k], what << " record " << k);
  }
  REQUIRE_EQ_MSG(a.readStatus, b.readStatus, what);
}

vector<string> cacheFiles(pbt::Ctx& c, const string& prefix) {
  vector<string> r;
  string dir = c.dir() + "/.cache";
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      if (string(e->d_name).rfind(prefix, 0) == 0) {
        r.push_back(dir + "/" + e->d_name);
      }
    }
    closedir(d);
  }
  return r;
}

/// a recording, maybe truncated, as a remote file
FileSpec makeFile(pbt::Src& s, pbt::Ctx& c, Recording& rec, string& what, bool& cut) {
  cut = false;
  RecordingOptions opt;
  opt.maxOps = 30;
  opt.bigPayload = 3000;
  opt.allowChunks = s.chance(1, 15);
  record(s, c, rec, opt);
  REQUIRE_EQ(rec.status, 0);
  FileSpec spec;
  spec.fileHandlerName = "remotefile";
  spec.chunks = damaged::chunkPathsOf(c.dir(), opt.name);
  what = modeName(rec.mode);
  if (s.chance(1, 3)) {
    Bytes b = damaged::slurp(spec.chunks.back());
    size_t keep = s.draw(b.size());
    if (spec.chunks.size() > 1 || keep >= 150) {
      damaged::spit(spec.chunks.back(), b, keep);
      cut = true;
      what += ", cut at " + std::to_string(keep) + " of " + std::to_string(b.size());
    }
  }
  return spec;
}

View direct(const FileSpec& spec) {
  FileCache::disableFileCache();
  return look(spec);
}

struct Cancel : ProgressLogger {
  int64_t at = -1;
  int64_t calls = 0;
  bool cancelled = false;
  bool logNewStep(const string&, size_t, size_t) override {
    cancelled = cancelled || calls == at;
    return calls++ != at;
  }
  using ProgressLogger::logProgress;
  bool logProgress(const string&, size_t, size_t, bool) override {
    cancelled = cancelled || calls == at;
    return calls++ != at;
  }
  bool logStatus(const string&, int) override {
    return true;
  }
  bool logDuration(const string&, double, int) override {
    return true;
  }
};

} // namespace

PBT_TEST(
    cachedView,
    7000,
    40000,
    "a recording made in any mode, a third of them truncated, opened from a remote handler several times with a cache, with options (sort_records, "
    "fail fast, prefetch), after failed and cancelled attempts: streams, tags, index, index status and records compared with those of the file "
    "opened without a cache; non-trivial: at least a record and an opening from the cache; distinct by file and history") {
  Recording rec;
  string what;
  bool cut = false;
  FileSpec spec = makeFile(s, c, rec, what, cut);
  setUp(c);
  FileSpec sortedSpec = spec, fastSpec = spec;
  sortedSpec.setExtra("sort_records", true);
  fastSpec.setExtra(kFailFastOnIncompleteIndex, true);
  View plain = direct(spec), sorted = direct(sortedSpec), fast = direct(fastSpec);
  size_t hits = 0, failedAttempts = 0;
  setUp(c);
  for (size_t k = 0; k < 4; k++) {
    string step = what + " then ";
    switch (s.weighted({4, 1, 1, 2, 1})) {
      case 1: {
        step += "sorted";
        what += " sorted";
        View v = look(sortedSpec);
        requireSame(v, sorted, step);
        break;
      }
      case 2: {
        step += "fail fast";
        what += " fast";
        View v = look(fastSpec);
        if (v.status != 0) {
          REQUIRE_EQ_MSG(v.status, fast.status, step);
          failedAttempts++;
        } else {
          requireSame(v, plain, step); // the index may be in the cache
        }
        break;
      }
      case 3: {
        Cancel cancel;
        cancel.at = (int64_t)s.below(9);
        step += "cancelled at " + std::to_string(cancel.at);
        what += " cancel" + std::to_string(cancel.at);
        View v = look(spec, &cancel);
        failedAttempts += v.status != 0;
        REQUIRE_MSG(v.status == 0 || cancel.cancelled || plain.status != 0, step << " failed " << v.status);
        break;
      }
      case 4: {
        // another file with an empty cache in between
        what += " emptied";
        for (auto& f : cacheFiles(c, "vrs_")) {
          unlink(f.c_str());
        }
        break;
      }
      default: {
        what += " open";
        View v = look(spec);
        requireSame(v, plain, step);
        bool cached = !cacheFiles(c, "vrs_details_").empty();
        REQUIRE_MSG(cached || plain.status != 0 || cut, step << "no cache file");
        size_t reads = v.openReads;
        View v2 = look(spec);
        requireSame(v2, plain, step + "again");
        if (plain.status == 0 && cached) {
          // the file isn't read to open it once its details are in the cache
          REQUIRE_MSG(v2.openReads == 0, step << v2.openReads << " reads, instead of " << reads);
          hits++;
        }
      }
    }
  }
  c.note(what);
  FileCache::disableFileCache();
  c.label("failed attempts", failedAttempts);
  c.label("openings from cache", hits);
  if (!plain.hasIndex) {
    c.label("no index");
  }
  if (!plain.index.empty() && hits > 0) {
    c.nontrivial(what + std::to_string(rec.log.size()));
  }
}

PBT_TEST(
    damagedCache,
    7000,
    40000,
    "the cache files of a recording, emptied, cut, extended, replaced by another or with bytes changed: a cache which isn't complete isn't trusted, "
    "none crashes the reader or makes it allocate absurd amounts of memory, and a cache refused is replaced by a good one; non-trivial: a details "
    "cache refused; distinct by file and damage") {
  Recording rec;
  string what;
  bool cut = false;
  FileSpec spec = makeFile(s, c, rec, what, cut);
  setUp(c);
  View plain = direct(spec);
  if (plain.status != 0) {
    throw pbt::Discard{};
  }
  setUp(c);
  requireSame(look(spec), plain, what);
  if (cut && cacheFiles(c, "vrs_details_").empty()) {
    throw pbt::Discard{}; // details not read reliably aren't cached
  }
  bool header = s.chance(1, 5);
  auto files = cacheFiles(c, header ? "vrs_header_" : "vrs_details_");
  REQUIRE_EQ(files.size(), 1u);
  Bytes good = damaged::slurp(files[0]);
  REQUIRE(good.size() > 10);
  Bytes bad = good;
  bool refused = true;
  string damage;
  switch (s.below(7)) {
    case 0:
      bad.resize(s.draw(good.size() - 1));
      damage = "cut at " + std::to_string(bad.size());
      break;
    case 1: {
      auto more = s.bytes(1 + s.size(30));
      bad.insert(bad.end(), more.begin(), more.end());
      damage = "extended";
      refused = !header;
      break;
    }
    case 2:
      bad = s.bytes(s.size(300));
      damage = "random";
      break;
    case 3:
      std::fill(bad.begin(), bad.end(), 0);
      damage = "zeros";
      break;
    case 4: {
      // zeros at the end: blocks not written
      size_t n = 1 + s.draw(good.size() - 1);
      std::fill(bad.end() - (long)n, bad.end(), 0);
      refused = false;
      damage = "zeros at the end " + std::to_string(n);
      break;
    }
    default: {
      for (size_t n = 1 + s.size(6); n > 0; n--) {
        size_t at = s.draw(bad.size() - 1);
        if (s.flip()) {
          bad[at] = (uint8_t)s.interesting(8);
        } else {
          uint32_t v = (uint32_t)s.interesting(32);
          memcpy(&bad[std::min(at, bad.size() - 4)], &v, 4);
        }
        damage += "at " + std::to_string(at) + " ";
      }
      refused = false;
    }
  }
  if (bad == good) {
    throw pbt::Discard{};
  }
  what += (header ? " header " : " details ") + damage;
  c.note(what);
  damaged::spit(files[0], bad, bad.size());
  View v = look(spec);
  if (refused) {
    requireSame(v, plain, what);
    requireSame(look(spec), plain, what + " again");
    REQUIRE_MSG(damaged::slurp(files[0]).size() > 0, what);
    View v3 = look(spec);
    requireSame(v3, plain, what + " after");
    REQUIRE_EQ_MSG(v3.openReads, 0u, what);
    c.nontrivial(what + std::to_string(rec.log.size()));
  } else if (v.status == 0) {
    c.label(v.index == plain.index && v.tags == plain.tags && v.streams == plain.streams ? "changed bytes, same view" : "changed bytes, another view");
  } else {
    c.label("changed bytes, error");
  }
  FileCache::disableFileCache();
}

PBT_TEST(
    failedReads,
    7000,
    40000,
    "reads of the remote file that fail, once or from one on, while it's opened with a cache: later, without failures, the file's details are the "
    "ones of the file; non-trivial: an opening failed or was degraded, distinct by file and failure") {
  Recording rec;
  string what;
  bool cut = false;
  FileSpec spec = makeFile(s, c, rec, what, cut);
  setUp(c);
  View plain = direct(spec);
  setUp(c);
  remoteState.failAt = (int64_t)s.size(12);
  remoteState.failCount = s.chance(1, 3) ? 1000000 : 1;
  what += ", reads fail from " + std::to_string(remoteState.failAt) + (remoteState.failCount > 1 ? " on" : "");
  c.note(what);
  View first = look(spec);
  bool failed = remoteState.failed && (first.status != plain.status || first.index != plain.index || first.tags != plain.tags || first.hasIndex != plain.hasIndex);
  remoteState.failAt = -1;
  View v = look(spec);
  requireSame(v, plain, what);
  FileCache::disableFileCache();
  if (failed) {
    c.label(first.status ? "failed" : "degraded");
    c.nontrivial(what + std::to_string(rec.log.size()));
  }
}

PBT_TEST(
    detailsFiles,
    4000,
    20000,
    "details files written with arbitrary streams, tags (any bytes) and record lists of up to 120000 records, read back: equal; non-trivial: "
    "2 streams and 10 records or more; distinct by content") {
  set<StreamId> streams;
  for (size_t n = s.size(20); n > 0; n--) {
    streams.insert(StreamId((RecordableTypeId)(1 + s.below(1000)), (uint16_t)(1 + s.interesting(15))));
  }
  vector<StreamId> ids(streams.begin(), streams.end());
  map<string, string> fileTags;
  for (size_t n = s.size(6); n > 0; n--) {
    fileTags[s.anyText(12)] = s.anyText(40);
  }
  map<StreamId, StreamTags> tags;
  for (StreamId id : ids) {
    for (size_t n = s.size(4); n > 0; n--) {
      (s.flip() ? tags[id].user : tags[id].vrs)[s.anyText(10)] = s.anyText(40);
    }
  }
  size_t count = ids.empty() ? 0 : s.chance(1, 40) ? (size_t)s.range(49990, 120000) : s.chance(1, 100) ? 50000 * (1 + s.below(2)) : s.size(500);
  vector<IndexRecord::RecordInfo> index;
  pbt::Prng prng(s.draw(1000000));
  double ts = -1000;
  int64_t offset = 0;
  int style = (int)s.below(3);
  for (size_t k = 0; k < count; k++) {
    ts += style == 0 ? 0.01 : (double)prng.below(1000) / 7;
    offset += style == 2 ? (int64_t)(prng.next() >> 24) : 100;
    index.emplace_back(ts, offset, ids[prng.below(ids.size())], (Record::Type)(1 + prng.below(4)));
  }
  bool hasIndex = s.flip();
  string path = c.dir() + "/details";
  REQUIRE_EQ(FileDetailsCache::write(path, streams, fileTags, tags, index, hasIndex), 0);
  set<StreamId> streams2;
  map<string, string> fileTags2;
  map<StreamId, StreamTags> tags2;
  vector<IndexRecord::RecordInfo> index2;
  bool hasIndex2 = !hasIndex;
  if (s.flip()) {
    index2 = index;
  }
  REQUIRE_EQ(FileDetailsCache::read(path, streams2, fileTags2, tags2, index2, hasIndex2), 0);
  REQUIRE(streams2 == streams);
  // the description record adds nothing but the names of streams
  REQUIRE_EQ(fileTags2, fileTags);
  for (auto& t : tags) {
    REQUIRE_EQ(tags2[t.first].user, t.second.user);
  }
  REQUIRE_EQ(hasIndex2, hasIndex);
  REQUIRE_EQ(index2.size(), index.size());
  for (size_t k = 0; k < index.size(); k++) {
    const auto &a = index[k], &b = index2[k];
    REQUIRE_MSG(a.timestamp == b.timestamp && a.fileOffset == b.fileOffset && a.streamId == b.streamId && a.recordType == b.recordType, "record " << k);
  }
  Bytes b = damaged::slurp(path);
  Bytes cut(b.begin(), b.begin() + (long)s.draw(b.size() - 1));
  damaged::spit(path, cut, cut.size());
  REQUIRE(FileDetailsCache::read(path, streams2, fileTags2, tags2, index2, hasIndex2) != 0);
  if (ids.size() >= 2 && count >= 10) {
    c.nontrivial(pbt::hashBytes(b.data(), b.size()));
  }
}
