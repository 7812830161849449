// C04: write failures are reported, and never corrupt silently
#include <vrs/FileHandlerFactory.h>

#include "damaged.h"

namespace {

/// status is success: the file must be complete
void requireComplete(const Recording& rec, const std::vector<Rec>& expected, const std::string& what) {
  RecordFileReader reader;
  int status = reader.openFile(rec.path);
  REQUIRE_MSG(status == 0, what << ": recording reported success, but can't be opened: " << errorCodeToMessage(status));
  REQUIRE_MSG(reader.hasIndex() || expected.empty(), what << ": recording reported success, but has no index");
  auto recs = readAll(reader, status);
  REQUIRE_MSG(status == 0, what << ": recording reported success, but reading fails: " << errorCodeToMessage(status));
  requireSameRecords(sorted(expected), recs, what + ": recording reported success");
  REQUIRE_EQ_MSG(reader.getTags(), rec.fileTags, what);
}

/// a chunk announced as complete never changes
void requireChunksUnchanged(const Recording& rec, const std::string& what) {
  for (auto& e : rec.chunkLog.entries) {
    struct stat st{};
    int64_t size = stat(e.path.c_str(), &st) == 0 ? (int64_t)st.st_size : -1;
    REQUIRE_EQ_MSG(size, e.sizeAtNotification, what << ": chunk " << e.index << " changed after it was announced as complete");
  }
}

} // namespace

PBT_TEST(
    diskFaults,
    20000,
    400000,
    "random recordings (all creation modes, threads, chunks) during which one or several disk operations fail (create, write "
    "whole or partial, truncate, close; several errors, three buffering modes); success must mean a complete file, and after an "
    "error the records on disk must be recoverable; non-trivial: the failure happened after the file description was written; "
    "distinct by failed operation and disk state") {
  Recording rec;
  RecordingOptions opt;
  opt.maxOps = 30;
  opt.bigPayload = 6000;
  opt.allowChunks = s.chance(1, 12);
  fsfault::Plan plan;
  static const int kBuffering[] = {0, 1, 256, 0};
  plan.buffering = s.pick(kBuffering);
  plan.failAt = (int64_t)(s.chance(1, 3) ? s.draw(8) : s.size(60));
  plan.count = (uint32_t)(s.flip() ? 1 : s.chance(1, 3) ? 1000000 : 1 + s.draw(4));
  plan.onlySameKind = s.flip();
  static const int kErrors[] = {ENOSPC, EIO, EDQUOT, EFBIG};
  plan.error = s.pick(kErrors);
  plan.partial = s.flip();
  plan.keepLog = false;
  fsfault::start(c.dir(), plan);
  record(s, c, rec, opt);
  bool fault = fsfault::faultHappened();
  std::string text = fsfault::describeFault();
  fsfault::stop();
  std::string what = std::string(modeName(rec.mode)) + ", " + (fault ? text : "no fault") + ", buffering " + std::to_string(plan.buffering);
  c.note(what);
  requireChunksUnchanged(rec, what);
  if (rec.status == 0) {
    requireComplete(rec, rec.log, what);
    c.label(fault ? "fault tolerated" : "no fault");
  } else {
    REQUIRE_MSG(fault, what << ": recording failed without reason: " << errorCodeToMessage(rec.status));
    auto paths = chunkPathsOf(c.dir(), "f.vrs");
    Expected all = index(rec.log);
    // what's on disk before the failure is still usable
    size_t got = checkDamaged(s, c, c.dir(), "f.vrs", all, rec.tags, rec.lateIds, rec.fileTags, false, what + ", status " + std::to_string(rec.status));
    c.label(got > 0 ? "error, some records recovered" : "error, nothing recovered");
  }
  if (fault) {
    c.label(text.substr(0, text.find(' ')));
    uint64_t h = pbt::hashStr(text);
    for (auto& p : chunkPathsOf(c.dir(), "f.vrs")) {
      Bytes b = slurp(p);
      h = pbt::mix64(h ^ pbt::hashBytes(b.data(), b.size()));
    }
    if (plan.failAt > 1) {
      c.nontrivial(h);
    }
  }
}

namespace {

/// A file handler of the application, which may fail at any call
struct Faults {
  int64_t calls = 0, failAt = -1;
  int64_t count = 1;
  bool happened = false, stopped = false;
  std::string failed;
  bool next(const char* name) {
    int64_t n = calls++;
    if (!stopped && failAt >= 0 && n >= failAt && n < failAt + count) {
      happened = true;
      failed += std::string(failed.empty() ? "" : ",") + name + "#" + std::to_string(n);
      return true;
    }
    return false;
  }
};
Faults* faults = nullptr;
bool updatable = true;
bool oneCreate = false;

class AppFile : public DiskFile {
 public:
  static constexpr int kError = 90210;
  std::unique_ptr<FileHandler> makeNew() const override {
    return std::make_unique<AppFile>();
  }
  const std::string& getFileHandlerName() const override {
    static const std::string n = "appfile";
    return n;
  }
  const std::string& getWriteFileHandlerName() const override {
    static const std::string n = "appfile";
    return n;
  }
  bool reopenForUpdatesSupported() const override {
    return updatable;
  }
  int create(const FileSpec& spec) override {
    return create(spec.chunks.front(), spec.extras);
  }
  int create(const std::string& path, const FileSpec::Extras& options) override {
    return faults->next("create") ? kError : DiskFile::create(path, options);
  }
  int createSplitFile(const FileSpec& spec, const std::string& initial) override {
    if (!updatable) {
      return create(spec.chunks.back(), spec.extras);
    }
    return create(spec.chunks.front() + "_1", spec.extras);
  }
  void addSplitHead(FileSpec& spec) override {
    std::string data = spec.chunks.front();
    spec.chunks.push_back(data + "_1"); // the head is local
  }
  int write(const void* buffer, size_t length) override {
    return faults->next("write") ? kError : DiskFile::write(buffer, length);
  }
  int overwrite(const void* buffer, size_t length) override {
    return faults->next("overwrite") ? kError : DiskFile::overwrite(buffer, length);
  }
  int setPos(int64_t offset) override {
    return faults->next("setPos") ? kError : DiskFile::setPos(offset);
  }
  int truncate() override {
    return faults->next("truncate") ? kError : DiskFile::truncate();
  }
  int addChunk() override {
    return faults->next("addChunk") ? kError : DiskFile::addChunk();
  }
  int close() override {
    bool wasOpen = isOpened();
    int status = DiskFile::close();
    return wasOpen && faults->next("close") ? kError : status;
  }
};

} // namespace

PBT_TEST(
    handlerFaults,
    20000,
    300000,
    "random recordings through an application file handler, updatable or append only (which forces a local split head), whose "
    "n-th call fails (create, write, overwrite, setPos, addChunk, close), while the files are really written; non-trivial: a call "
    "failed and the file description is there, or the handler is append only; distinct by failed call and plan") {
  static bool registered = false;
  if (!registered) {
    FileHandlerFactory::getInstance().registerFileHandler(std::make_unique<AppFile>());
    registered = true;
  }
  Faults f;
  faults = &f;
  updatable = s.flip();
  if (!s.chance(1, 4)) {
    f.failAt = s.chance(1, 3) ? s.draw(8) : s.size(90);
    f.count = s.chance(1, 4) ? 1000000 : 1 + s.draw(2);
  }
  Recording rec;
  RecordingOptions opt;
  opt.maxOps = 30;
  opt.bigPayload = 4000;
  opt.allowChunks = s.chance(1, 12);
  opt.uriPrefix = "appfile:";
  record(s, c, rec, opt);
  f.stopped = true;
  std::string what = std::string(modeName(rec.mode)) + (updatable ? ", updatable" : ", append only") + ", failed: " + f.failed;
  c.note(what);
  requireChunksUnchanged(rec, what);
  if (rec.status == 0) {
    requireComplete(rec, rec.log, what);
    c.label(f.happened ? "fault tolerated" : "no fault");
  } else {
    REQUIRE_MSG(f.happened, what << ": recording failed without reason: " << errorCodeToMessage(rec.status));
    size_t got =
        checkDamaged(s, c, c.dir(), "f.vrs", index(rec.log), rec.tags, rec.lateIds, rec.fileTags, false, what + ", status " + std::to_string(rec.status));
    c.label(got > 0 ? "error, some records recovered" : "error, nothing recovered");
  }
  if (f.happened || !updatable) {
    c.nontrivial(pbt::hashStr(what, rec.log.size() * 131 + f.calls));
  }
}

PBT_TEST(
    reuseAfterFault,
    6000,
    100000,
    "a writer whose recording failed in any way makes another recording elsewhere, with the same streams and no fault: the "
    "second file holds exactly the records created since; non-trivial: the first recording failed; distinct by failed operation") {
  TemporaryRecordableInstanceIdsResetter resetter;
  std::vector<Rec> log;
  std::vector<std::unique_ptr<GenStream>> streams;
  RecordFileWriter writer;
  size_t pool = s.weighted({3, 1, 1});
  if (pool > 0) {
    writer.setCompressionThreadPoolSize(pool);
  }
  size_t n = 1 + s.draw(2);
  for (size_t k = 0; k < n; k++) {
    streams.push_back(std::make_unique<GenStream>((RecordableTypeId)((int)RecordableTypeId::UnitTest1), "", &log));
    streams.back()->setCompression(genPreset(s));
    streams.back()->withState = s.flip();
    writer.addRecordable(streams.back().get());
  }
  double now = 0;
  auto make = [&](size_t count) {
    for (size_t k = 0; k < count; k++) {
      now += 0.5;
      s.pick(streams)->make(now, Record::Type::DATA, 1, s.bytes(genPayloadSize(s, 3000)), Feed::OneChunk);
    }
  };
  fsfault::Plan plan;
  static const int kBuffering[] = {0, 1, 256, 0};
  plan.buffering = s.pick(kBuffering);
  plan.failAt = (int64_t)s.size(40);
  plan.count = s.flip() ? 1 : 1000000;
  plan.keepLog = false;
  bool split = s.flip();
  auto create = [&](const std::string& path) {
    return split ? writer.createChunkedFile(path, 0, nullptr) : writer.createFileAsync(path);
  };
  for (auto& st : streams) {
    st->configTime = st->stateTime = now;
  }
  fsfault::start(c.dir() + "/first", plan);
  int created = create(c.dir() + "/first.vrs");
  int status = created;
  if (created == 0) {
    for (size_t k = s.draw(4) + 1; k > 0; k--) {
      make(s.draw(8));
      writer.writeRecordsAsync(now - 1);
    }
    status = writer.waitForFileClosed();
  }
  bool fault = fsfault::faultHappened();
  std::string text = fsfault::describeFault();
  fsfault::stop();
  REQUIRE_MSG(fault || status == 0, "failure without reason " << errorCodeToMessage(status));
  REQUIRE(!writer.isWriting());
  c.note((split ? "split " : "") + text + " status " + std::to_string(status));
  std::vector<Rec> pending;
  if (created != 0) {
    pending = log; // records were never taken by the writer
  }
  size_t before = log.size();
  now += 1;
  for (auto& st : streams) {
    st->configTime = st->stateTime = now;
  }
  split = s.flip();
  std::string path2 = c.dir() + "/second.vrs";
  status = create(path2);
  REQUIRE_MSG(status == 0, "second recording can't be created: " << errorCodeToMessage(status));
  for (size_t k = s.draw(3) + 1; k > 0; k--) {
    make(s.draw(8));
    REQUIRE_EQ(writer.writeRecordsAsync(now - 1), 0);
  }
  status = writer.waitForFileClosed();
  REQUIRE_MSG(status == 0, "second recording failed: " << errorCodeToMessage(status));
  pending.insert(pending.end(), log.begin() + before, log.end());
  RecordFileReader reader;
  REQUIRE_EQ(reader.openFile(path2), 0);
  REQUIRE(reader.hasIndex());
  auto recs = readAll(reader, status);
  REQUIRE_EQ(status, 0);
  requireSameRecords(sorted(pending), recs, "second recording");
  if (fault) {
    c.nontrivial(pbt::hashStr(text, plan.buffering * 7 + split));
  }
}

PBT_TEST(
    indexFaults,
    30,
    600,
    "split head recordings of over 100000 records, so that the index is written in several parts: one or several operations on the head file "
    "fail, with whole or partial writes; success must mean a complete file, and after an error the records must be recoverable; "
    "non-trivial: an operation failed; distinct by operation and number of records") {
  TemporaryRecordableInstanceIdsResetter resetter;
  std::vector<Rec> log;
  GenStream stream(RecordableTypeId::UnitTest1, "", &log);
  stream.withConfig = stream.withState = false;
  RecordFileWriter writer;
  writer.addRecordable(&stream);
  fsfault::Plan plan;
  plan.keepLog = false;
  plan.only = c.dir() + "/f.vrs";
  static const int kBuffering[] = {0, 1, 0, 65536};
  plan.buffering = s.pick(kBuffering);
  plan.failAt = (int64_t)s.size(plan.buffering == 0 ? 40 : 20);
  plan.count = s.chance(1, 4) ? 1000000 : 1 + (uint32_t)s.draw(2);
  plan.onlySameKind = s.flip();
  plan.partial = s.flip();
  fsfault::start(c.dir(), plan);
  Recording rec;
  rec.path = c.dir() + "/f.vrs";
  int status = writer.createChunkedFile(rec.path, 0, nullptr);
  bool created = status == 0;
  size_t n = 99990 + s.draw(200) + 100000 * s.draw(1);
  if (created) {
    for (size_t k = 0; k < n; k++) {
      Bytes data(4);
      memcpy(data.data(), &k, 4);
      stream.make((double)k * 0.25, Record::Type::DATA, 1, data, Feed::OneChunk);
      if (k % 30000 == 29999) {
        writer.writeRecordsAsync(Record::kMaxTimestamp);
      }
    }
    status = writer.waitForFileClosed();
  }
  bool fault = fsfault::faultHappened();
  std::string text = fsfault::describeFault();
  int64_t count = fsfault::opCount();
  fsfault::stop();
  std::string what = std::to_string(n) + " records, " + std::to_string(count) + " operations on the head file, " + (fault ? text : "no fault") +
      ", buffering " + std::to_string(plan.buffering);
  c.note(what);
  if (status == 0) {
    requireComplete(rec, log, what);
    c.label(fault ? "fault tolerated" : "no fault");
  } else {
    REQUIRE_MSG(fault, what << ": recording failed without reason: " << errorCodeToMessage(status));
    std::map<StreamId, StreamTags> tags;
    Expected all = index(log);
    size_t got = checkDamaged(s, c, c.dir(), "f.vrs", all, tags, {}, {}, false, what + ", status " + std::to_string(status));
    c.label(got > 0 ? "error, some records recovered" : "error, nothing recovered");
  }
  if (fault) {
    c.nontrivial(pbt::hashStr(text, n));
  }
}
