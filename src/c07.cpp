// C07: purging keeps exactly the recent records and the last known state.
#include <cmath>
#include <optional>

#include <vrs/Compressor.h>
#include <vrs/DiskFile.h>
#include <vrs/FileFormat.h>
#include <vrs/RecordManager.h>

#include "vrsgen.h"

using namespace gen;
using std::string;
using std::vector;

namespace {

struct Entry {
  double ts;
  Record::Type type;
  uint32_t version;
  Bytes data;
  uint64_t seq;
  bool direct = false;
};

/// The model: records in time order, then order of creation
struct Model {
  vector<Entry> records;

  void add(Entry e) {
    size_t at = records.size();
    while (at > 0 && records[at - 1].ts > e.ts) {
      at--;
    }
    records.insert(records.begin() + at, std::move(e));
  }
  vector<Entry> collect(double limit) {
    vector<Entry> out, rest;
    for (auto& e : records) {
      (e.ts < limit ? out : rest).push_back(e);
    }
    records = rest;
    return out;
  }
  size_t purge(double limit) {
    std::optional<size_t> state, config;
    for (size_t k = 0; k < records.size(); k++) {
      if (records[k].ts < limit && records[k].type == Record::Type::STATE) {
        state = k;
      } else if (records[k].ts < limit && records[k].type == Record::Type::CONFIGURATION) {
        config = k;
      }
    }
    vector<Entry> rest;
    for (size_t k = 0; k < records.size(); k++) {
      if (!(records[k].ts < limit) || records[k].type == Record::Type::TAGS || (state && *state == k) || (config && *config == k)) {
        rest.push_back(records[k]);
      }
    }
    size_t count = records.size() - rest.size();
    records = rest;
    return count;
  }
};

double genTime(pbt::Src& s, double& now) {
  switch (s.draw(6)) {
    case 0:
    case 1:
      return now;
    case 2:
      return now -= (double)s.draw(3);
    case 3:
      return s.chance(1, 4) ? s.real() : (double)s.draw(10);
    default:
      return now += (double)s.draw(2);
  }
}
double genLimit(pbt::Src& s, double now) {
  switch (s.draw(5)) {
    case 0:
      return now;
    case 1:
      return s.chance(1, 3) ? Record::kMaxTimestamp : s.real();
    case 2:
      return (double)s.draw(10);
    default:
      return now - (double)s.draw(6) + 2;
  }
}
size_t genSize(pbt::Src& s) {
  switch (s.draw(4)) {
    case 0:
      return s.draw(30);
    case 1:
      return s.draw(1100);
    case 2: // the copy's done without the lock over 1K, header included
      return 960 + s.draw(60);
    default:
      return 100 + s.draw(40); // sizes that can share buffers
  }
}

/// The record as it would be written
Bytes written(pbt::Ctx& c, Record* r, StreamId id, vrs::FileFormat::RecordHeader& header) {
  string path = c.dir() + "/record";
  vrs::DiskFile file;
  REQUIRE_EQ(file.create(path), 0);
  vrs::Compressor compressor;
  uint32_t size = 0;
  REQUIRE_EQ(r->writeRecord(file, id, size, compressor, 0), 0);
  REQUIRE_EQ(file.close(), 0);
  vrs::DiskFile in;
  REQUIRE_EQ(in.open(path), 0);
  int64_t total = in.getTotalSize();
  REQUIRE(total >= (int64_t)sizeof(header));
  REQUIRE_EQ(in.read(header), 0);
  Bytes data((size_t)total - sizeof(header));
  REQUIRE_EQ(in.read(data.data(), data.size()), 0);
  REQUIRE_EQ((size_t)size, (size_t)total);
  return data;
}

} // namespace

PBT_TEST(
    manager,
    400000,
    4000000,
    "histories of up to 80 create, collect, purge (with and without recycling), recycle, cache operations on a record manager; records of all "
    "types, times colliding and out of order; collected records are kept and checked before being recycled; non-trivial: a purge dropped "
    "records and kept older ones; distinct by history") {
  vrs::RecordManager manager;
  Model model;
  StreamId id(RecordableTypeId::UnitTest1, 3);
  std::ostringstream note;
  double now = 5;
  uint64_t seq = 0;
  vector<std::pair<Record*, Entry>> held;
  size_t maxCache = 50;
  bool kept = false;
  std::map<const Record*, uint64_t> orders;
  auto check = [&](size_t k) {
    Record* r = held[k].first;
    const Entry& e = held[k].second;
    REQUIRE_EQ(r->getTimestamp(), e.ts);
    REQUIRE_EQ(r->getRecordType(), e.type);
    REQUIRE_EQ(r->getSize(), e.data.size());
  };
  auto checkContent = [&](size_t k) {
    Record* r = held[k].first;
    const Entry& e = held[k].second;
    vrs::FileFormat::RecordHeader h;
    Bytes data = written(c, r, id, h);
    REQUIRE_MSG(data == e.data, "content of record @" << e.ts << ": " << pbt::show(data) << " rather than " << pbt::show(e.data));
    REQUIRE_EQ(h.timestamp, e.ts);
    REQUIRE_EQ((int)h.recordType, (int)e.type);
    REQUIRE_EQ(h.formatVersion, e.version);
    REQUIRE(h.getStreamId() == id);
  };
  auto recycle = [&](size_t k) {
    check(k);
    held[k].first->recycle();
    held.erase(held.begin() + k);
  };
  for (size_t n = s.size(80); n > 0; n--) {
    switch (s.weighted({12, 3, 2, 2, 1, 1})) {
      case 0: {
        Entry e;
        e.ts = genTime(s, now);
        e.type = s.pick({Record::Type::DATA, Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::TAGS});
        e.version = s.u32();
        e.data = s.bytes(genSize(s));
        e.seq = seq++;
        e.direct = s.chance(1, 6);
        note << Record::typeName(e.type)[0] << e.ts << "#" << e.data.size() << (e.direct ? "d " : " ");
        Record* r;
        if (e.direct) {
          size_t half = s.below(e.data.size() + 1);
          r = manager.createUncompressedRecord(
              e.ts,
              e.type,
              e.version,
              vrs::DataSource(vrs::DataSourceChunk(e.data.data(), half)),
              std::make_unique<DirectPayload>(Bytes(e.data.begin() + half, e.data.end())));
        } else {
          r = manager.createRecord(e.ts, e.type, e.version, vrs::DataSource(vrs::DataSourceChunk(e.data.data(), e.data.size())));
        }
        REQUIRE(r != nullptr);
        REQUIRE_EQ(r->getSize(), e.data.size());
        for (auto& h : held) {
          REQUIRE_MSG(h.first != r, "a record still in use was reused");
        }
        model.add(std::move(e));
        break;
      }
      case 1: {
        double limit = genLimit(s, now);
        note << "collect<" << limit << " ";
        c.note(note.str());
        std::list<Record*> got;
        manager.collectOldRecords(limit, got);
        auto expected = model.collect(limit);
        REQUIRE_EQ_MSG(got.size(), expected.size(), "records collected before " << limit);
        size_t k = 0;
        uint64_t lastOrder = 0;
        for (auto* r : got) {
          held.emplace_back(r, expected[k]);
          check(held.size() - 1);
          if (k > 0 && expected[k - 1].ts == expected[k].ts) {
            REQUIRE_MSG(lastOrder < r->getCreationOrder(), "creation order");
          }
          lastOrder = r->getCreationOrder();
          k++;
        }
        break;
      }
      case 2: {
        double limit = genLimit(s, now);
        bool recycled = s.flip();
        note << "purge<" << limit << (recycled ? " " : "! ");
        c.note(note.str());
        size_t cacheBefore = manager.getCurrentCacheSize();
        size_t dropped = model.purge(limit);
        REQUIRE_EQ((size_t)manager.purgeOldRecords(limit, recycled), dropped);
        if (recycled) {
          size_t cacheAfter = std::max(cacheBefore, std::min(maxCache, cacheBefore + dropped));
          REQUIRE_EQ(manager.getCurrentCacheSize(), cacheAfter);
        } else {
          REQUIRE_EQ(manager.getCurrentCacheSize(), cacheBefore);
        }
        kept = kept || (dropped > 0 && !model.records.empty() && model.records.front().ts < limit);
        break;
      }
      case 3:
        for (size_t k = s.size(10); k > 0 && !held.empty(); k--) {
          size_t at = s.below(held.size());
          if (s.chance(1, 4)) {
            c.note(note.str());
            checkContent(at);
          }
          size_t cacheBefore = manager.getCurrentCacheSize();
          recycle(at);
          REQUIRE_EQ(manager.getCurrentCacheSize(), cacheBefore < maxCache ? cacheBefore + 1 : cacheBefore);
        }
        break;
      case 4:
        manager.purgeCache();
        REQUIRE_EQ(manager.getCurrentCacheSize(), (size_t)0);
        break;
      default:
        maxCache = s.size(60);
        manager.setMaxCacheSize(maxCache);
        break;
    }
  }
  c.note(note.str());
  std::list<Record*> got;
  manager.collectOldRecords(Record::kMaxTimestamp, got);
  auto expected = model.collect(Record::kMaxTimestamp);
  REQUIRE_EQ_MSG(got.size(), expected.size(), "records left");
  size_t k = 0;
  for (auto* r : got) {
    held.emplace_back(r, expected[k++]);
  }
  for (k = 0; k < held.size(); k++) {
    check(k);
  }
  if (s.chance(1, 3)) {
    for (k = 0; k < held.size(); k++) {
      checkContent(k);
    }
  }
  while (!held.empty()) {
    recycle(0);
  }
  if (kept) {
    c.nontrivial(note.str());
  }
}

namespace {

class Stream : public vrs::Recordable {
 public:
  Stream(RecordableTypeId type, Model& model, double& now) : Recordable(type, "c07"), model_{model}, now_{now} {}
  const Record* createConfigurationRecord() override {
    return make(now_, Record::Type::CONFIGURATION, 11, Bytes(20, (uint8_t)seq_));
  }
  const Record* createStateRecord() override {
    return make(now_, Record::Type::STATE, 12, Bytes(30, (uint8_t)seq_));
  }
  const Record* make(double ts, Record::Type type, uint32_t version, const Bytes& data) {
    Entry e;
    e.ts = ts;
    e.type = type;
    e.version = version;
    e.data = data;
    e.seq = seq_++;
    model_.add(e);
    return createRecord(ts, type, version, vrs::DataSource(vrs::DataSourceChunk(data.data(), data.size())));
  }

 private:
  Model& model_;
  double& now_;
  uint64_t seq_ = 0;
};

} // namespace

PBT_TEST(
    files,
    24000,
    200000,
    "1 to 3 streams and a writer reused for several files: records created, purged before and between files, streams activated and "
    "deactivated, batches up to a time; every file must have exactly the records of the model, with their content; non-trivial: two files "
    "with records, and a purge that dropped records; distinct by history") {
  vrs::TemporaryRecordableInstanceIdsResetter resetter;
  std::ostringstream note;
  double now = 5;
  size_t count = 1 + s.size(2);
  vector<Model> models(count);
  vector<std::unique_ptr<Stream>> streams;
  vector<bool> active(count, true);
  vrs::RecordFileWriter writer;
  for (size_t k = 0; k < count; k++) {
    streams.push_back(std::make_unique<Stream>(genTypeId(s), models[k], now));
    streams.back()->setCompression(genPreset(s));
    writer.addRecordable(streams.back().get());
  }
  if (s.chance(1, 4)) {
    writer.setCompressionThreadPoolSize(2);
  }
  vector<Rec> expected;
  size_t files = 0, purged = 0, filesWithRecords = 0;
  bool open = false;
  string path;
  // what collecting does in the model
  auto collect = [&](double limit) {
    for (size_t k = 0; k < count; k++) {
      if (!active[k]) {
        models[k].purge(limit);
        continue;
      }
      for (auto& e : models[k].collect(limit)) {
        Rec r;
        r.id = streams[k]->getStreamId();
        r.type = e.type;
        r.ts = e.ts;
        r.version = e.version;
        r.data = e.data;
        r.seq = e.seq;
        expected.push_back(r);
      }
    }
  };
  auto verify = [&]() {
    c.note(note.str());
    std::stable_sort(expected.begin(), expected.end(), [](const Rec& a, const Rec& b) { return a.ts < b.ts; });
    auto records = readFileRecords(path, "file");
    filesWithRecords += !records.empty();
    // batches are written in order, and each is sorted by time, stream, and creation
    auto order = [](const Rec& a, const Rec& b) { return recordOrder(a, b); };
    auto exp = expected;
    std::stable_sort(exp.begin(), exp.end(), order);
    // with several batches, records of different streams with the same time may be in another order
    std::stable_sort(records.begin(), records.end(), [](const Rec& a, const Rec& b) { return a.ts != b.ts ? a.ts < b.ts : a.id < b.id; });
    for (size_t k = 0; k < std::min(exp.size(), records.size()); k++) {
      REQUIRE_MSG(exp[k].sameContent(records[k]), "file #" << files << ", record #" << k << ": " << records[k].str() << " rather than " << exp[k].str());
    }
    REQUIRE_EQ_MSG(records.size(), exp.size(), "file #" << files);
    expected.clear();
  };
  auto close = [&]() {
    if (s.flip()) {
      REQUIRE_EQ(writer.closeFileAsync(), 0);
    }
    collect(Record::kMaxTimestamp);
    REQUIRE_EQ(writer.waitForFileClosed(), 0);
    open = false;
    note << "close ";
    verify();
  };
  for (size_t n = s.size(50); n > 0; n--) {
    switch (s.weighted({14, 3, 3, 2, 1, 2})) {
      case 0: {
        size_t k = s.below(count);
        double ts = genTime(s, now);
        if (!(ts < Record::kMaxTimestamp)) {
          ts = now;
        }
        Record::Type type = genType(s);
        Bytes data = s.bytes(genSize(s));
        note << k << Record::typeName(type)[0] << ts << "#" << data.size() << " ";
        streams[k]->make(ts, type, 1 + s.draw(3), data);
        break;
      }
      case 1: {
        double limit = genLimit(s, now);
        note << "purge<" << limit << " ";
        for (auto& m : models) {
          purged += m.purge(limit);
        }
        writer.purgeOldRecords(limit, s.flip());
        break;
      }
      case 2: {
        double limit = genLimit(s, now);
        if (open) {
          note << "batch<" << limit << " ";
          collect(limit);
          REQUIRE_EQ(writer.writeRecordsAsync(limit), 0);
        } else {
          REQUIRE(writer.writeRecordsAsync(limit) != 0);
        }
        break;
      }
      case 3: {
        size_t k = s.below(count);
        active[k] = !active[k];
        note << k << (active[k] ? "on " : "off ");
        streams[k]->setRecordableIsActive(active[k]);
        REQUIRE_EQ(streams[k]->isRecordableActive(), (bool)active[k]);
        break;
      }
      case 4:
        if (open) {
          REQUIRE(writer.writeToFile(c.dir() + "/no") != 0);
          break;
        }
        note << "write ";
        c.note(note.str());
        path = c.dir() + "/f" + std::to_string(files++) + ".vrs";
        collect(Record::kMaxTimestamp);
        REQUIRE_EQ(writer.writeToFile(path), 0);
        verify();
        break;
      default:
        if (open) {
          close();
        } else {
          note << "create ";
          c.note(note.str());
          path = c.dir() + "/f" + std::to_string(files++) + ".vrs";
          // makes its configuration and state records
          REQUIRE_EQ(s.flip() ? writer.createFileAsync(path) : writer.createChunkedFile(path, 0, nullptr), 0);
          open = true;
        }
        break;
    }
  }
  if (open) {
    close();
  }
  c.label("files", files);
  if (filesWithRecords > 1 && purged > 0) {
    c.nontrivial(note.str());
  }
}
