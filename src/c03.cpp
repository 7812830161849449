// C03: a truncated or crashed recording yields its complete records
#include "damaged.h"

PBT_TEST(
    truncate,
    1500,
    30000,
    "random recordings (all creation modes), each cut at up to 24 bytes positions: record edges, header edges, and random ones, "
    "opened and half of the time fixed in place; non-trivial: at least one record recovered and at least one lost; distinct by "
    "bytes kept") {
  Recording rec;
  RecordingOptions opt;
  opt.maxOps = 40;
  opt.bigPayload = 3000;
  opt.allowChunks = s.chance(1, 40);
  if (s.chance(1, 3)) { // multi chunk, without MBs of data: small chunks made by hand below
    opt.forceMode = Mode::WriteToFile;
  }
  opt.name = "orig.vrs";
  record(s, c, rec, opt);
  REQUIRE_EQ(rec.status, 0);
  auto paths = chunkPathsOf(c.dir(), "orig.vrs");
  auto chunks = slurpAll(paths);
  if (chunks.size() == 1 && s.chance(1, 3)) {
    // the same file in any number of chunks, a record never spans chunks
    Bytes all = chunks[0];
    Scan one = physical::scan(chunks);
    std::vector<size_t> edges;
    for (auto& r : one.user) {
      edges.push_back(r.offset);
    }
    edges.push_back(one.endOfRecords);
    chunks.clear();
    size_t n = s.draw(3), at = 0;
    std::set<size_t> cuts;
    for (size_t k = 0; k < n; k++) {
      cuts.insert(s.pick(edges));
    }
    cuts.insert(all.size());
    for (size_t end : cuts) {
      chunks.push_back(Bytes(all.begin() + at, all.begin() + end));
      at = end;
    }
    c.label("re-chunked");
  }
  Scan full = physical::scan(chunks);
  REQUIRE(full.headOk);
  REQUIRE_EQ_MSG(full.user.size(), rec.log.size(), "physical records in the complete file");
  Expected all = index(rec.log);
  int64_t total = 0;
  for (auto& b : chunks) {
    total += b.size();
  }
  std::vector<int64_t> interesting{total, full.endOfRecords, full.firstUser};
  for (auto& r : full.user) {
    for (int64_t d : {-1, 0, 1, 3, 31, 32, 33}) {
      interesting.push_back(r.offset + d);
    }
  }
  for (int64_t d : {-1, 0, 1, 31, 32, 33, 40}) {
    interesting.push_back(full.endOfRecords + d);
    interesting.push_back(total - 1 - d);
  }
  size_t tries = 4 + s.draw(20);
  std::string dir = c.dir() + "/cut";
  mkdir(dir.c_str(), 0755);
  for (size_t k = 0; k < tries; k++) {
    int64_t cut = s.flip() ? s.pick(interesting) : s.range(0, total);
    cut = std::max<int64_t>(0, std::min(cut, total));
    removeAll(dir);
    int64_t left = cut;
    for (size_t n = 0; n < chunks.size(); n++) {
      if (n > 0 && left <= 0 && !s.chance(1, 4)) { // the last chunk file may exist, but be empty
        break;
      }
      size_t len = (size_t)std::min<int64_t>(std::max<int64_t>(left, 0), chunks[n].size());
      spit(dir + "/orig.vrs" + (n == 0 ? "" : "_" + std::to_string(n)), chunks[n], len);
      left -= len;
      if (len < chunks[n].size()) {
        break;
      }
    }
    if (full.split && cut < (int64_t)chunks[0].size()) {
      // a shorter head wouldn't come without its data: cut the head, keep the data
      for (size_t n = 1; n < chunks.size(); n++) {
        spit(dir + "/orig.vrs_" + std::to_string(n), chunks[n], chunks[n].size());
      }
    }
    size_t got = checkDamaged(
        s, c, dir, "orig.vrs", all, rec.tags, rec.lateIds, rec.fileTags, s.flip(),
        "cut at " + std::to_string(cut) + "/" + std::to_string(total) + " (" + std::to_string(chunks.size()) + " chunks)",
        full.split ? full.headEnd : 0);
    if (got > 0 && got < rec.log.size()) {
      c.nontrivial(pbt::mix64((uint64_t)cut ^ pbt::hashBytes(chunks.back().data(), chunks.back().size())));
    }
  }
}

PBT_TEST(
    crash,
    1500,
    30000,
    "random recordings (all creation modes) through a logging file system; the disk state after any number of disk operations, "
    "the last one possibly cut short if it's an append, is rebuilt, opened and half of the time fixed, up to 20 crash points each; non-trivial: "
    "the file description is there; distinct by disk state") {
  Recording rec;
  RecordingOptions opt;
  opt.maxOps = 40;
  opt.bigPayload = 6000;
  opt.allowChunks = s.chance(1, 40);
  fsfault::Plan plan;
  static const int kBuffering[] = {0, 1, 256, 1};
  plan.buffering = s.pick(kBuffering);
  fsfault::start(c.dir(), plan);
  record(s, c, rec, opt);
  auto log = fsfault::stop();
  REQUIRE_EQ(rec.status, 0);
  Expected all = index(rec.log);
  size_t tries = 4 + s.draw(16);
  std::string dir = c.dir() + "/crash";
  mkdir(dir.c_str(), 0755);
  for (size_t k = 0; k < tries; k++) {
    // the last operations are the most interesting
    size_t n = s.chance(1, 3) ? log.size() - std::min(log.size(), s.size(30)) : s.below(log.size() + 1);
    int64_t cut = -1;
    // an append may be cut short, in place updates (a few bytes) are considered atomic
    if (n > 0 && log[n - 1].kind == fsfault::Op::Write && s.flip() && isAppend(log, n - 1)) {
      cut = (int64_t)s.below(log[n - 1].data.size() + 1);
    }
    auto files = fsfault::diskState(log, n, cut);
    removeAll(dir);
    fsfault::materialize(files, c.dir(), dir);
    std::ostringstream what;
    what << "crash after op " << n << "/" << log.size() << " cut " << cut;
    size_t got = checkDamaged(s, c, dir, "f.vrs", all, rec.tags, rec.lateIds, rec.fileTags, s.flip(), what.str());
    uint64_t h = 0;
    for (auto& f : files) {
      h = pbt::mix64(h ^ pbt::hashBytes(f.second.data(), f.second.size()));
    }
    if (got > 0 || files.size() > 0) {
      c.nontrivial(h);
    }
    c.label(got == 0 ? "nothing recovered" : got == rec.log.size() ? "all recovered" : "part recovered");
  }
}

PBT_TEST(
    crashManyRecords,
    3,
    40,
    "split head recordings of over 100000 records, so that the index is written in several parts; crash at any operation, and "
    "cut of the data or the head; non-trivial: all") {
  TemporaryRecordableInstanceIdsResetter resetter;
  std::vector<Rec> log;
  GenStream stream(RecordableTypeId::UnitTest1, "", &log);
  stream.withConfig = stream.withState = false;
  RecordFileWriter writer;
  writer.addRecordable(&stream);
  fsfault::Plan plan;
  fsfault::start(c.dir(), plan);
  REQUIRE_EQ(writer.createChunkedFile(c.dir() + "/f.vrs", 0, nullptr), 0);
  size_t n = 99990 + s.draw(200) + 100000 * s.draw(1);
  for (size_t k = 0; k < n; k++) {
    Bytes data(4);
    memcpy(data.data(), &k, 4);
    stream.make((double)k * 0.25, Record::Type::DATA, 1, data, Feed::OneChunk);
    if (k % 30000 == 29999) {
      REQUIRE_EQ(writer.writeRecordsAsync(Record::kMaxTimestamp), 0);
    }
  }
  REQUIRE_EQ(writer.waitForFileClosed(), 0);
  auto ops = fsfault::stop();
  Expected all = index(log);
  std::map<StreamId, StreamTags> tags;
  std::string dir = c.dir() + "/crash";
  mkdir(dir.c_str(), 0755);
  for (int k = 0; k < 5; k++) {
    size_t at = k == 0 ? ops.size() : s.flip() ? ops.size() - s.draw(12) : s.below(ops.size() + 1);
    int64_t cut = at > 0 && ops[at - 1].kind == fsfault::Op::Write && s.flip() && isAppend(ops, at - 1) ? (int64_t)s.below(ops[at - 1].data.size() + 1) : -1;
    removeAll(dir);
    fsfault::materialize(fsfault::diskState(ops, at, cut), c.dir(), dir);
    checkDamaged(s, c, dir, "f.vrs", all, tags, {}, {}, true, "crash after op " + std::to_string(at) + "/" + std::to_string(ops.size()));
    c.nontrivial(at * 1000003 + n);
  }
}
