// C10: reading records is independent of order, amount read and seeks.
#include <optional>

#include <vrs/ErrorCode.h>

#include "damaged.h"
#include "physical.h"
#include "recording.h"

using namespace gen;
using std::string;
using std::vector;

namespace {

enum class Head { Accept, Reject, PeekAndReject, PeekAndAccept, TooMuch };

/// Reads each record as planned, and checks everything it gets
class Reader : public vrs::StreamPlayer {
 public:
  explicit Reader(pbt::Src& s) : s{s} {}

  void plan(const Rec* r) {
    rec = r;
    head = (Head)s.weighted({10, 3, 2, 2, 2});
    calls = processed = 0;
    at = 0;
    completeStatus = s.chance(1, 10) ? 77 : 0;
    first = r->data.empty() ? 0 : s.chance(1, 3) ? r->data.size() : s.chance(1, 3) ? 0 : s.below(r->data.size() + 1);
  }

  void checkHeader(const vrs::CurrentRecord& record) {
    if (rec == nullptr) {
      return;
    }
    REQUIRE_MSG(record.timestamp == rec->ts && record.streamId == rec->id && record.recordType == rec->type, "header of " << rec->str());
    REQUIRE_EQ_MSG(record.formatVersion, rec->version, rec->str());
    REQUIRE_EQ_MSG((size_t)record.recordSize, rec->data.size(), rec->str());
    REQUIRE(record.reader != nullptr && record.recordInfo != nullptr);
    REQUIRE(record.recordInfo->streamId == rec->id);
  }

  /// read some bytes where we are
  void readMore(const vrs::CurrentRecord& record, size_t size) {
    size_t left = rec->data.size() - at;
    REQUIRE_EQ_MSG((size_t)record.reader->getUnreadBytes(), left, rec->str());
    bool tooMuch = size > left;
    Bytes buffer(size, 0xC3);
    uint32_t readSize = 0;
    int status = 0;
    const uint64_t how = s.draw(4);
    switch (how) {
      case 0: {
        size_t half = size == 0 ? 0 : s.below(size + 1);
        Bytes b1(half, 0xC3), b2(size - half, 0xC3);
        vrs::DataReference ref(b1, b2);
        status = record.reader->read(ref, readSize);
        std::copy(b1.begin(), b1.end(), buffer.begin());
        std::copy(b2.begin(), b2.end(), buffer.begin() + half);
        break;
      }
      case 1:
        status = record.reader->read(buffer);
        readSize = (uint32_t)buffer.size();
        if (tooMuch) {
          REQUIRE_EQ(buffer.size(), (size_t)0);
          buffer.assign(size, 0xC3);
        }
        break;
      case 2:
        if (size > 0) {
          status = record.reader->read((void*)buffer.data(), size);
          readSize = tooMuch ? 0 : (uint32_t)size;
          break;
        }
        [[fallthrough]];
      default: {
        vrs::DataReference ref(buffer);
        status = record.reader->read(ref, readSize);
        break;
      }
    }
    if (tooMuch) {
      REQUIRE_MSG(status != 0, "read " << size << " bytes when " << left << " are left, without error, " << rec->str());
      REQUIRE_EQ(readSize, 0u);
      for (uint8_t b : buffer) {
        REQUIRE_MSG(b == 0xC3, "bytes read past the end of " << rec->str());
      }
      refused++;
      return;
    }
    REQUIRE_EQ_MSG(status, 0, "reading " << size << " bytes at " << at << " of " << rec->str() << " (how:" << how << ")");
    REQUIRE_EQ_MSG((size_t)readSize, size, "reading at " << at << " of " << rec->str());
    REQUIRE_MSG(memcmp(buffer.data(), rec->data.data() + at, size) == 0, "bytes " << at << " to " << at + size << " of " << rec->str());
    at += size;
  }
  void readSeveral(const vrs::CurrentRecord& record) {
    for (size_t n = s.draw(4); n > 0; n--) {
      size_t left = rec->data.size() - at;
      size_t size = s.chance(1, 6) ? left + 1 + s.draw(100) : s.chance(1, 4) ? left : s.chance(1, 4) ? s.draw(8) : s.below(left + 1);
      readMore(record, size);
    }
  }

  bool processRecordHeader(const vrs::CurrentRecord& record, vrs::DataReference& out) override {
    calls++;
    checkHeader(record);
    if (rec == nullptr) { // a damaged record
      buffer1.assign(std::min<uint32_t>(record.recordSize, 100000), 0);
      out.useVector(buffer1);
      return true;
    }
    if (head == Head::Reject) {
      return false;
    }
    if (head == Head::PeekAndReject || head == Head::PeekAndAccept) {
      readSeveral(record);
      if (head == Head::PeekAndReject) {
        return false;
      }
      first = std::min(first, rec->data.size() - at);
    }
    if (head == Head::TooMuch) {
      buffer1.assign(rec->data.size() + 1 + s.draw(2000), 0xC3);
      out.useVector(buffer1);
      return true;
    }
    size_t half = s.flip() ? first : s.below(first + 1);
    buffer1.assign(half, 0xC3);
    buffer2.assign(first - half, 0xC3);
    buffer1.shrink_to_fit();
    buffer2.shrink_to_fit();
    out.useVectors(buffer1, buffer2);
    return true;
  }

  void processRecord(const vrs::CurrentRecord& record, uint32_t readSize) override {
    processed++;
    checkHeader(record);
    if (rec == nullptr) {
      return;
    }
    REQUIRE_EQ_MSG((size_t)readSize, first, rec->str());
    Bytes got = buffer1;
    got.insert(got.end(), buffer2.begin(), buffer2.end());
    REQUIRE_EQ(got.size(), first);
    REQUIRE_MSG(
        memcmp(got.data(), rec->data.data() + at, first) == 0, "bytes " << at << " to " << at + first << " of " << rec->str() << ": " << pbt::show(got));
    at += first;
    readSeveral(record);
  }

  int recordReadComplete(vrs::RecordFileReader&, const vrs::IndexRecord::RecordInfo& info) override {
    completed++;
    return completeStatus;
  }

  void checkResult(int status) {
    if (rec == nullptr) {
      return;
    }
    REQUIRE_EQ_MSG(calls, (size_t)1, "calls for " << rec->str());
    bool accepted = head == Head::Accept || head == Head::PeekAndAccept;
    REQUIRE_EQ_MSG(processed, (size_t)accepted, "deliveries of " << rec->str());
    REQUIRE_EQ_MSG(completed, (size_t)accepted, "completions of " << rec->str());
    REQUIRE_EQ_MSG(status, accepted ? completeStatus : 0, rec->str());
    if (head == Head::TooMuch) {
      for (uint8_t b : buffer1) {
        REQUIRE_MSG(b == 0xC3, "bytes read past the end of " << rec->str());
      }
      refused++;
    }
    partial += at < rec->data.size();
    completed = 0;
  }

  pbt::Src& s;
  const Rec* rec = nullptr;
  Head head = Head::Accept;
  size_t first = 0, at = 0, calls = 0, processed = 0, completed = 0, refused = 0, partial = 0;
  int completeStatus = 0;
  Bytes buffer1, buffer2;
};

/// counts what's dispatched by type
class Dispatched : public vrs::StreamPlayer {
 public:
  bool processStateHeader(const vrs::CurrentRecord& r, vrs::DataReference& out) override {
    return head(r, Record::Type::STATE, out);
  }
  void processState(const vrs::CurrentRecord& r, uint32_t n) override {
    body(r, Record::Type::STATE, n);
  }
  bool processConfigurationHeader(const vrs::CurrentRecord& r, vrs::DataReference& out) override {
    return head(r, Record::Type::CONFIGURATION, out);
  }
  void processConfiguration(const vrs::CurrentRecord& r, uint32_t n) override {
    body(r, Record::Type::CONFIGURATION, n);
  }
  bool processDataHeader(const vrs::CurrentRecord& r, vrs::DataReference& out) override {
    return head(r, Record::Type::DATA, out);
  }
  void processData(const vrs::CurrentRecord& r, uint32_t n) override {
    body(r, Record::Type::DATA, n);
  }
  void onAttachedToFileReader(vrs::RecordFileReader&, StreamId id) override {
    attached.push_back(id);
  }
  bool head(const vrs::CurrentRecord& r, Record::Type type, vrs::DataReference& out) {
    REQUIRE_EQ((int)r.recordType, (int)type);
    data.resize(r.recordSize);
    out.useVector(data);
    return true;
  }
  void body(const vrs::CurrentRecord& r, Record::Type type, uint32_t n) {
    REQUIRE_EQ((int)r.recordType, (int)type);
    REQUIRE_EQ(n, r.recordSize);
    Rec rec;
    rec.id = r.streamId;
    rec.type = type;
    rec.ts = r.timestamp;
    rec.version = r.formatVersion;
    rec.data = data;
    got.push_back(rec);
  }
  Bytes data;
  vector<Rec> got;
  vector<StreamId> attached;
};

} // namespace

PBT_TEST(
    reads,
    20000,
    500000,
    "files of every creation mode with records of every compression, up to 200 KB; up to 60 reads in any order from one or two readers: "
    "whole, partial, in pieces, rejected, peeked at, over-long, sometimes of damaged records, with caching strategies changing; every byte "
    "delivered is compared with what was recorded; non-trivial: partial or refused reads of records of compressed streams; distinct by case") {
  Recording rec;
  RecordingOptions opt;
  opt.maxStreams = 3;
  opt.maxOps = 25;
  opt.allowChunks = false;
  opt.allowThreads = false;
  opt.tags = false;
  opt.bigPayload = s.chance(1, 10) ? 200000 : 8000;
  opt.quietExtremes = true;
  record(s, c, rec, opt);
  REQUIRE_EQ(rec.status, 0);
  vector<Rec> expected = sorted(rec.log);
  // damage the payload of some records
  std::set<int64_t> damagedOffsets;
  if (s.chance(1, 4)) {
    auto paths = damaged::chunkPathsOf(c.dir(), "f.vrs");
    vector<Bytes> chunks = damaged::slurpAll(paths);
    auto scan = physical::scan(chunks);
    int64_t before = 0;
    for (size_t k = 0; k + 1 < chunks.size(); k++) {
      before += (int64_t)chunks[k].size();
    }
    for (auto& r : scan.user) {
      int64_t payload = (int64_t)r.size - (int64_t)sizeof(vrs::FileFormat::RecordHeader);
      if (payload > 0 && s.chance(1, 3)) {
        for (size_t n = 1 + s.draw(4); n > 0; n--) {
          chunks.back()[r.offset + sizeof(vrs::FileFormat::RecordHeader) + s.below(payload) - before] ^= 1 + s.draw(254);
        }
        damagedOffsets.insert(r.offset);
      }
    }
    damaged::spit(paths.back(), chunks.back(), chunks.back().size());
  }
  vector<std::unique_ptr<vrs::RecordFileReader>> readers;
  Reader player(s);
  for (size_t k = s.chance(1, 4) ? 2 : 1; k > 0; k--) {
    readers.push_back(std::make_unique<vrs::RecordFileReader>());
    REQUIRE_EQ(readers.back()->openFile(rec.path), 0);
    REQUIRE_EQ(readers.back()->getIndex().size(), expected.size());
    if (s.flip()) {
      for (auto id : readers.back()->getStreams()) {
        readers.back()->setStreamPlayer(id, &player);
      }
    }
  }
  if (expected.empty()) {
    return;
  }
  size_t seq = 0;
  std::ostringstream note;
  for (size_t n = 5 + s.draw(55); n > 0; n--) {
    auto& reader = *readers[s.below(readers.size())];
    if (s.chance(1, 20)) {
      reader.setCachingStrategy(s.pick({vrs::CachingStrategy::Passive, vrs::CachingStrategy::Streaming, vrs::CachingStrategy::StreamingBackward}));
    }
    if (s.chance(1, 30)) {
      reader.purgeFileCache();
    }
    size_t k = s.chance(1, 3) ? s.below(expected.size()) : s.chance(1, 6) ? seq : (seq = (seq + (s.chance(1, 4) ? expected.size() - 1 : 1)) % expected.size());
    const auto& info = *reader.getRecord((uint32_t)k);
    if (s.chance(1, 15)) {
      reader.isRecordAvailableOrPrefetch(info);
    }
    if (s.chance(1, 15)) {
      reader.prefetchRecordSequence({&info});
    }
    player.plan(&expected[k]);
    bool isDamaged = damagedOffsets.count(info.fileOffset) != 0;
    note << " " << k << (isDamaged ? "!" : "") << "h" << (int)player.head;
    c.note("reads:" + note.str() + " of " + std::to_string(expected.size()) + ", " + expected[k].str());
    if (isDamaged) {
      player.rec = nullptr;
    }
    bool withPlayer = s.flip();
    int status = withPlayer ? reader.readRecord(info, &player, s.chance(1, 10)) : reader.readRecord(info);
    player.completed -= player.rec == nullptr ? player.completed : 0;
    if (!withPlayer && player.calls == 0) {
      // there was no player for the stream
      REQUIRE_EQ(status, 0);
      continue;
    }
    player.checkResult(status);
  }
  c.label("damaged", !damagedOffsets.empty());
  if ((player.partial > 0 || player.refused > 0) && rec.compressedStreams > 0) {
    c.nontrivial(note.str());
  }
}

PBT_TEST(
    dispatch,
    9000,
    200000,
    "all the records read in order by players set for some of the streams, which get each of their records once, by type, in order, then "
    "no more after being removed; non-trivial: 2 streams with players, one without; distinct by records") {
  Recording rec;
  RecordingOptions opt;
  opt.maxStreams = 4;
  opt.maxOps = 30;
  opt.allowChunks = false;
  opt.allowThreads = false;
  opt.tags = false;
  opt.bigPayload = 2000;
  opt.quietExtremes = true;
  record(s, c, rec, opt);
  REQUIRE_EQ(rec.status, 0);
  vector<Rec> expected = sorted(rec.log);
  vrs::RecordFileReader reader;
  REQUIRE(reader.readAllRecords() != 0);
  REQUIRE_EQ(reader.openFile(rec.path), 0);
  vector<Dispatched> players(3);
  std::map<StreamId, size_t> who;
  size_t without = 0;
  for (auto id : reader.getStreams()) {
    size_t p = s.below(4);
    if (p < 3) {
      who[id] = p;
      reader.setStreamPlayer(id, &players[p]);
    } else {
      without++;
      if (s.chance(1, 4)) {
        reader.setStreamPlayer(id, &players[0]);
        reader.setStreamPlayer(id, nullptr);
      }
    }
  }
  REQUIRE_EQ(reader.readAllRecords(), 0);
  for (size_t p = 0; p < players.size(); p++) {
    vector<Rec> mine;
    for (auto& r : expected) {
      auto w = who.find(r.id);
      if (w != who.end() && w->second == p) {
        mine.push_back(r);
      }
    }
    requireSameRecords(mine, players[p].got, "player #" + std::to_string(p));
    for (auto& w : who) {
      if (w.second == p) {
        REQUIRE(std::find(players[p].attached.begin(), players[p].attached.end(), w.first) != players[p].attached.end());
      }
    }
    players[p].got.clear();
  }
  REQUIRE_EQ(reader.clearStreamPlayers(), 0);
  REQUIRE_EQ(reader.readAllRecords(), 0);
  for (auto& p : players) {
    REQUIRE(p.got.empty());
  }
  std::set<size_t> used;
  for (auto& w : who) {
    used.insert(w.second);
  }
  if (used.size() >= 2 && without > 0) {
    c.nontrivial(std::to_string(expected.size()) + (expected.empty() ? "" : expected.back().str() + expected[0].str()));
  }
}
