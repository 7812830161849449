// C06: concurrent recording loses, duplicates, reorders nothing, without data races or deadlocks.
#include <chrono>
#include <cmath>
#include <optional>
#include <thread>

#include <vrs/NewChunkHandler.h>
#include <vrs/RecordManager.h>
#include <vrs/TagsRecord.h>

#include "vrsgen.h"

using namespace gen;
using std::string;
using std::vector;

namespace {

// time is a counter, so that each record has a time of its own, which identifies it
struct Shared {
  std::atomic<uint64_t> clock{1};
  std::atomic<double> purgedBefore{-1}; // records from that time on can't have been purged
  std::atomic<int> delays{0};

  double tick() {
    return (double)clock.fetch_add(1);
  }
  double now() const {
    return (double)clock.load();
  }
  void purging(double t) {
    double old = purgedBefore.load();
    while (old < t && !purgedBefore.compare_exchange_weak(old, t)) {
    }
  }
  // schedule noise
  static void pause(unsigned kind) {
    switch (kind) {
      case 0:
        break;
      case 1:
      case 2:
        std::this_thread::yield();
        break;
      case 3:
        std::this_thread::sleep_for(std::chrono::microseconds(20));
        break;
      case 4:
        std::this_thread::sleep_for(std::chrono::microseconds(300));
        break;
      default: {
        volatile unsigned k = kind * 50;
        while (k > 0) {
          k = k - 1;
        }
        break;
      }
    }
  }
};

/// The content of a record is a function of its stream, time and size
void fill(Bytes& data, StreamId id, double ts, size_t size) {
  data.resize(size);
  uint64_t x = pbt::mix64((uint64_t)ts * 1000003 + (uint64_t)id.getTypeId() * 131 + id.getInstanceId());
  for (size_t k = 0; k < size; k++) {
    data[k] = (k & 16) ? (uint8_t)k : (uint8_t)(x >> (8 * (k & 7)));
  }
}

struct Made {
  StreamId id;
  double ts;
  Record::Type type;
  uint32_t version;
  size_t size;
};
using Log = vector<Made>;

class Payload : public vrs::DirectWriteRecordData {
 public:
  Payload(Bytes data, unsigned pause) : data_{std::move(data)}, pause_{pause} {}
  size_t getDataSize() const override {
    return data_.size();
  }
  int write(vrs::WriteFileHandler& file) const override {
    Shared::pause(pause_);
    return file.write(data_.data(), data_.size());
  }

 private:
  Bytes data_;
  unsigned pause_;
};

class RacyStream : public vrs::Recordable {
 public:
  RacyStream(RecordableTypeId type, Shared& shared) : Recordable(type, "racy"), shared_{shared} {}

  const Record* createConfigurationRecord() override {
    std::lock_guard<std::mutex> lock(mutex_);
    return make(log_, Record::Type::CONFIGURATION, 40, 0, 0, 0);
  }
  const Record* createStateRecord() override {
    std::lock_guard<std::mutex> lock(mutex_);
    return make(log_, Record::Type::STATE, 20, 0, 0, 0);
  }
  const Record* make(Log& log, Record::Type type, size_t size, unsigned how, unsigned pause, unsigned pause2) {
    double ts = shared_.tick();
    Bytes data;
    StreamId id = getStreamId();
    fill(data, id, ts, size);
    uint32_t version = 1 + (uint32_t)ts % 7;
    log.push_back({id, ts, type, version, size});
    Shared::pause(pause);
    if (how == 1) {
      size_t half = size / 2;
      return createUncompressedRecord(
          ts,
          type,
          version,
          vrs::DataSource(vrs::DataSourceChunk(data.data(), half)),
          std::make_unique<Payload>(Bytes(data.begin() + half, data.end()), pause2));
    }
    return createRecord(ts, type, version, vrs::DataSource(vrs::DataSourceChunk(data.data(), size)));
  }
  Log ownLog() {
    std::lock_guard<std::mutex> lock(mutex_);
    return log_;
  }
  double activeSince = 0; // can't have been discarded because the stream was inactive since
  bool neverActive = false;

 private:
  Shared& shared_;
  std::mutex mutex_;
  Log log_;
};

struct ProducerOp {
  size_t stream;
  Record::Type type;
  size_t size;
  unsigned how, pause, pause2;
};

class SlowChunks : public vrs::NewChunkHandler {
 public:
  explicit SlowChunks(unsigned pause) : pause_{pause} {}
  void newChunk(const string&, size_t, bool) override {
    Shared::pause(pause_);
  }

 private:
  unsigned pause_;
};

unsigned genPause(pbt::Src& s) {
  return (unsigned)s.weighted({10, 3, 3, 2, 1, 4});
}

struct Scenario {
  vrs::TemporaryRecordableInstanceIdsResetter resetter;
  Shared shared;
  vector<std::unique_ptr<RacyStream>> streams;
  vector<vector<ProducerOp>> producers;
  vector<Log> logs;
};

ProducerOp genOp(pbt::Src& s, size_t streams, size_t big) {
  ProducerOp op{};
  op.stream = s.below(streams);
  op.type = genType(s);
  op.size = s.chance(1, 4) ? s.draw(big) : s.draw(300);
  op.how = s.chance(1, 4);
  op.pause = genPause(s);
  op.pause2 = genPause(s);
  return op;
}

} // namespace

PBT_RACY_TEST(
    recording,
    10000,
    300000,
    "1 to 4 producer threads over 1 to 4 streams (and late ones), up to 60 records each, of which some written directly, while a control thread "
    "starts files, requests manual and automatic batches, activates streams, adds streams, changes compression, purges, closes; random "
    "schedule noise in every callback; non-trivial: at least two producers, and records written before the close; distinct by plan") {
  Scenario sc;
  Shared& shared = sc.shared;
  std::ostringstream note;
  size_t streamCount = 1 + s.size(3);
  size_t lateCount = s.size(2);
  // for thread safety the containers are complete before threads start
  for (size_t k = 0; k < streamCount + lateCount; k++) {
    sc.streams.push_back(std::make_unique<RacyStream>(genTypeId(s), shared));
    sc.streams.back()->setCompression(genPreset(s));
    sc.streams.back()->setTag("k", std::to_string(k));
  }
  size_t producerCount = 1 + s.draw(3);
  sc.producers.resize(producerCount);
  size_t total = 0;
  bool big = s.chance(1, 10);
  for (auto& p : sc.producers) {
    for (size_t n = s.size(60); n > 0; n--) {
      p.push_back(genOp(s, streamCount, big ? 200000 : 4000));
      total++;
    }
  }
  note << "streams:" << streamCount << "+" << lateCount << " producers:" << producerCount << " records:" << total;
  sc.logs.resize(producerCount + lateCount);

  bool pausesInCallbacks = s.flip();
  unsigned providerPause = pausesInCallbacks ? genPause(s) : 0;
  auto writer = std::make_unique<vrs::RecordFileWriter>();
  size_t pool = s.weighted({3, 1, 2, 2});
  if (pool > 0) {
    writer->setCompressionThreadPoolSize(pool);
    note << " pool:" << pool;
  }
  unsigned threadPause = pausesInCallbacks ? genPause(s) : 0;
  writer->setInitCreatedThreadCallback([threadPause](std::thread&, vrs::ThreadRole, int) { Shared::pause(threadPause); });
  for (size_t k = 0; k < streamCount; k++) {
    writer->addRecordable(sc.streams[k].get());
  }
  bool tracking = s.flip();
  if (tracking) {
    writer->trackBackgroundThreadQueueByteSize();
  }
  // one stream might never be active
  if (streamCount > 1 && s.chance(1, 5)) {
    sc.streams[0]->setRecordableIsActive(false);
    sc.streams[0]->neverActive = true;
    note << " inactive";
  }
  double purgeAge = (double)s.draw(40);
  auto purgeTime = [&shared, purgeAge, providerPause]() {
    double t = shared.now() - purgeAge;
    shared.purging(t);
    Shared::pause(providerPause);
    return t;
  };
  // negative ages: the limit is ahead of the records being created
  double writeAge = s.chance(1, 3) ? 0 : s.chance(1, 3) ? -(double)s.draw(20) : (double)s.draw(10);
  auto writeTime = [&shared, writeAge, providerPause]() {
    double t = shared.now() - writeAge;
    Shared::pause(providerPause);
    return t;
  };
  bool purge = s.chance(1, 3);
  bool purgeLater = !purge && s.chance(1, 6);
  if (purge) {
    writer->autoPurgeRecords(purgeTime, 0.0001 + (double)s.draw(10) / 10000);
    note << " purge:" << purgeAge;
  }

  struct Control {
    int op;
    unsigned pause;
    size_t arg;
  };
  vector<Control> plan;
  for (size_t n = s.size(25); n > 0; n--) {
    Control ctl{(int)s.weighted({6, 3, 3, 2, 2, 2, 1, 2}), genPause(s), 0};
    ctl.arg = s.draw(1000);
    plan.push_back(ctl);
    note << " " << ctl.op << "/" << ctl.arg % 7;
  }
  size_t files = s.chance(1, 4) ? 2 : 1;
  int mode = (int)s.weighted({4, 3, 1});
  double autoDelay = 0.0001 + (double)s.draw(20) / 10000;
  unsigned startPause = genPause(s), closePause = genPause(s);
  bool waitProducers = s.flip();
  bool asyncClose = s.flip();
  note << " files:" << files << " mode:" << mode << " age:" << writeAge;
  c.note(note.str());
  Bytes lateSizes = s.bytes(lateCount * 4);
  string dir = c.dir();

  // -- go
  vector<std::thread> threads;
  std::atomic<bool> go{false};
  auto produce = [&](size_t p) {
    while (!go) {
      std::this_thread::yield();
    }
    for (auto& op : sc.producers[p]) {
      sc.streams[op.stream]->make(sc.logs[p], op.type, op.size, op.how, op.pause, op.pause2);
    }
  };
  for (size_t p = 0; p < producerCount; p++) {
    threads.emplace_back(produce, p);
  }
  go = true;
  Shared::pause(startPause);
  vector<string> paths;
  size_t late = 0;
  size_t toggled = 0;
  uint64_t maxQueue = 0;
  double closing = 0;
  string problem; // no exceptions with running threads
  auto require = [&](bool ok, const string& what) {
    if (!ok && problem.empty()) {
      problem = what;
    }
  };
  for (size_t f = 0; f < files; f++) {
    string path = dir + "/f" + std::to_string(f) + ".vrs";
    paths.push_back(path);
    int status = 0;
    if (mode == 0) {
      status = writer->createFileAsync(path);
    } else {
      status = writer->createChunkedFile(path, mode == 2 ? 1 : 0, std::make_unique<SlowChunks>(providerPause));
    }
    require(status == 0, "file creation failed: " + std::to_string(status));
    require(writer->isWriting(), "not writing after file creation");
    for (auto& ctl : plan) {
      Shared::pause(ctl.pause);
      switch (ctl.op) {
        case 0:
          require(writer->writeRecordsAsync(shared.now() - (double)(ctl.arg % 7)) == 0, "writeRecordsAsync failed");
          break;
        case 1:
          require(writer->autoWriteRecordsAsync(writeTime, autoDelay) == 0, "autoWriteRecordsAsync failed");
          break;
        case 2:
          std::this_thread::sleep_for(std::chrono::microseconds(ctl.arg));
          break;
        case 3: { // activity
          RacyStream& st = *sc.streams[ctl.arg % streamCount];
          if (!st.neverActive) {
            st.setRecordableIsActive(false);
            Shared::pause(ctl.pause);
            writer->writeRecordsAsync(shared.now());
            st.setRecordableIsActive(true);
            // a batch started while inactive might still discard records up to its time limit
            st.activeSince = shared.now() + std::max(0., -writeAge) + 1;
            toggled++;
          }
          break;
        }
        case 4: // add a stream
          if (late < lateCount) {
            RacyStream& st = *sc.streams[streamCount + late];
            Log& log = sc.logs[producerCount + late];
            writer->addRecordable(&st);
            for (size_t k = 0; k < 4; k++) {
              st.make(log, Record::Type::DATA, lateSizes[late * 4 + k], k & 1, 0, 0);
            }
            late++;
          }
          break;
        case 5:
          sc.streams[ctl.arg % streamCount]->setCompression(
              ctl.arg % 3 == 0 ? CompressionPreset::None : ctl.arg % 3 == 1 ? CompressionPreset::Lz4Fast : CompressionPreset::ZstdLight);
          break;
        case 6: { // explicit purge: what's not been collected goes
          double t = shared.now() - (double)(ctl.arg % 20);
          shared.purging(t);
          writer->purgeOldRecords(t, ctl.arg & 1);
          break;
        }
        default:
          maxQueue = std::max(maxQueue, writer->getBackgroundThreadQueueByteSize());
          if (purgeLater) {
            writer->autoPurgeRecords(purgeTime, 0.0005);
            purgeLater = false;
          }
          break;
      }
    }
    if (f + 1 == files && waitProducers) {
      for (auto& t : threads) {
        t.join();
      }
      threads.clear();
    }
    Shared::pause(closePause);
    closing = shared.now();
    if (asyncClose) {
      require(writer->closeFileAsync() == 0, "closeFileAsync failed");
      require(writer->writeRecordsAsync(0) != 0, "batch accepted after close");
    }
    status = writer->waitForFileClosed();
    require(status == 0, "recording failed: " + std::to_string(status));
    require(!writer->isWriting(), "still writing after close");
    require(writer->getBackgroundThreadQueueByteSize() == 0, "data left in queue");
  }
  for (auto& t : threads) {
    t.join();
  }
  writer.reset();
  REQUIRE_MSG(problem.empty(), problem);

  // -- what must and may be found
  std::map<std::pair<StreamId, double>, Made> made;
  uint64_t bytes = 0;
  auto addLog = [&](const Log& log) {
    for (auto& m : log) {
      REQUIRE(made.emplace(std::make_pair(m.id, m.ts), m).second);
      bytes += m.size;
    }
  };
  for (auto& log : sc.logs) {
    addLog(log);
  }
  std::map<StreamId, RacyStream*> byId;
  for (auto& st : sc.streams) {
    addLog(st->ownLog());
    byId[st->getStreamId()] = st.get();
  }
  REQUIRE_MSG(maxQueue <= bytes + late * 4000, /* tags records of late streams */  "queue size " << maxQueue << " over " << bytes << " bytes");
  std::set<std::pair<StreamId, double>> found;
  size_t beforeClose = 0;
  for (auto& path : paths) {
    vrs::RecordFileReader reader;
    REQUIRE_EQ_MSG(reader.openFile(path), 0, path);
    REQUIRE(reader.hasIndex());
    int status = 0;
    auto records = readAll(reader, status);
    REQUIRE_EQ_MSG(status, 0, path);
    double last = -1e300;
    Bytes expected;
    for (auto& r : records) {
      REQUIRE_MSG(r.ts >= last, "record out of order in " << path);
      last = r.ts;
      auto it = made.find({r.id, r.ts});
      REQUIRE_MSG(it != made.end(), "record never created: " << r.str());
      REQUIRE_MSG(found.insert({r.id, r.ts}).second, "record found twice: " << r.str());
      const Made& m = it->second;
      REQUIRE_MSG(m.type == r.type && m.version == r.version && m.size == r.data.size(), "header of " << r.str());
      fill(expected, r.id, r.ts, m.size);
      REQUIRE_MSG(expected == r.data, "content of " << r.str() << " should be " << pbt::show(expected));
      REQUIRE_MSG(!byId[r.id]->neverActive, "record of an inactive stream: " << r.str());
    }
    beforeClose += records.size();
    for (auto& st : sc.streams) {
      if (reader.getStreams().count(st->getStreamId())) {
        size_t k = (size_t)(&st - sc.streams.data());
        REQUIRE_EQ_MSG(reader.getTag(st->getStreamId(), "k"), std::to_string(k), "tag of " << st->getStreamId().getNumericName());
      } else {
        REQUIRE_MSG((size_t)(&st - sc.streams.data()) >= streamCount, "stream missing: " << st->getStreamId().getNumericName());
      }
    }
  }
  double purged = shared.purgedBefore.load();
  std::map<StreamId, double> lastConfig, lastState;
  for (auto& m : made) {
    const Made& r = m.second;
    RacyStream* st = byId[r.id];
    size_t k = 0;
    while (sc.streams[k].get() != st) {
      k++;
    }
    bool mustBeFound = !st->neverActive && k < streamCount + late && r.ts >= st->activeSince && r.ts >= purged &&
        (waitProducers || r.ts < closing);
    // a record might have its time before the close, but be created after
    if (!waitProducers && k < streamCount) {
      mustBeFound = false;
    }
    if (mustBeFound) {
      REQUIRE_MSG(
          found.count(m.first),
          "record lost: " << r.id.getNumericName() << "/" << Record::typeName(r.type) << "@" << r.ts << " (" << found.size() << " found, " << made.size()
                          << " created, purged before " << purged << ", active since " << st->activeSince << ")");
    }
  }
  c.label("records", made.size());
  c.label("found", found.size());
  c.label("purged", purged >= 0);
  c.label("toggled", toggled);
  c.label("late streams", late);
  c.label("two files", files > 1);
  c.label("all producers done before close", waitProducers);
  if (producerCount > 1 && beforeClose > 10) {
    c.nontrivial(note.str());
  }
}

/// Record managers are shared by producers, collectors and purges: none of the records gets lost
PBT_RACY_TEST(
    manager,
    14000,
    400000,
    "a record manager used by 1 to 4 producers while other threads collect, recycle, purge with or without recycling, and empty the cache; "
    "non-trivial: at least two producers and two collects; distinct by plan") {
  vrs::TemporaryRecordableInstanceIdsResetter resetter;
  Shared shared;
  RacyStream stream(RecordableTypeId::UnitTest1, shared);
  vrs::RecordManager manager;
  size_t producers = 1 + s.draw(3);
  vector<vector<ProducerOp>> ops(producers);
  for (auto& p : ops) {
    for (size_t n = s.size(80); n > 0; n--) {
      p.push_back(genOp(s, 1, 4000));
    }
  }
  struct Op {
    int op;
    unsigned pause;
    double age;
  };
  vector<vector<Op>> others(1 + s.draw(1));
  size_t collects = 0;
  for (auto& o : others) {
    for (size_t n = s.size(40); n > 0; n--) {
      Op op{(int)s.weighted({6, 1, 1, 1, 1}), genPause(s), (double)s.draw(20)};
      collects += op.op == 0;
      o.push_back(op);
    }
  }
  manager.setMaxCacheSize(s.size(60));
  std::ostringstream note;
  note << "producers:" << producers;
  for (auto& p : ops) {
    note << " " << p.size();
  }
  for (auto& o : others) {
    note << " others:" << o.size();
  }
  c.note(note.str());

  struct Got {
    double ts;
    size_t size;
    Record* record;
  };
  vector<vector<Got>> collected(others.size() + 1);
  vector<Log> logs(producers);
  std::atomic<bool> go{false};
  std::atomic<size_t> purgedCount{0};
  std::mutex problemMutex;
  string problem;
  StreamId id = stream.getStreamId();
  auto collect = [&](double limit, vector<Got>& out, unsigned pause) {
    std::list<Record*> records;
    manager.collectOldRecords(limit, records);
    double last = -1e300;
    for (auto* r : records) {
      if (r->getTimestamp() < last || r->getTimestamp() >= limit) {
        std::lock_guard<std::mutex> lock(problemMutex);
        problem = "collected out of order or too recent";
      }
      last = r->getTimestamp();
      out.push_back({r->getTimestamp(), r->getSize(), r});
    }
    Shared::pause(pause);
    for (auto* r : records) {
      r->recycle();
    }
  };
  vector<std::thread> threads;
  for (size_t p = 0; p < producers; p++) {
    threads.emplace_back([&, p]() {
      while (!go) {
        std::this_thread::yield();
      }
      for (auto& op : ops[p]) {
        double ts = shared.tick();
        Bytes data;
        fill(data, id, ts, op.size);
        logs[p].push_back({id, ts, op.type, 1, op.size});
        Shared::pause(op.pause);
        if (op.how) {
          manager.createUncompressedRecord(
              ts, op.type, 1, vrs::DataSource(vrs::DataSourceChunk(data.data(), op.size / 2)), std::make_unique<Payload>(Bytes(op.size - op.size / 2), 0));
        } else {
          manager.createRecord(ts, op.type, 1, vrs::DataSource(vrs::DataSourceChunk(data.data(), op.size)));
        }
      }
    });
  }
  for (size_t o = 0; o < others.size(); o++) {
    threads.emplace_back([&, o]() {
      while (!go) {
        std::this_thread::yield();
      }
      for (auto& op : others[o]) {
        Shared::pause(op.pause);
        double t = shared.now() - op.age;
        switch (op.op) {
          case 0:
            collect(t, collected[o], op.pause);
            break;
          case 1:
            shared.purging(t);
            purgedCount += manager.purgeOldRecords(t, true);
            break;
          case 2:
            shared.purging(t);
            purgedCount += manager.purgeOldRecords(t, false);
            break;
          case 3:
            manager.purgeCache();
            break;
          default:
            manager.setCompression(op.age > 10 ? CompressionPreset::None : CompressionPreset::ZstdFast);
            (void)manager.getCompression();
            break;
        }
      }
    });
  }
  go = true;
  for (auto& t : threads) {
    t.join();
  }
  REQUIRE_MSG(problem.empty(), problem);
  collect(Record::kMaxTimestamp, collected.back(), 0);
  std::map<double, size_t> sizes;
  for (auto& log : logs) {
    for (auto& m : log) {
      sizes[m.ts] = m.size;
    }
  }
  std::set<double> found;
  for (auto& list : collected) {
    for (auto& g : list) {
      REQUIRE_MSG(sizes.count(g.ts), "collected a record never created: " << g.ts);
      REQUIRE_EQ(g.size, sizes[g.ts]);
      REQUIRE_MSG(found.insert(g.ts).second, "collected twice: " << g.ts);
    }
  }
  REQUIRE_EQ(found.size() + purgedCount, sizes.size());
  double purged = shared.purgedBefore.load();
  for (auto& m : sizes) {
    REQUIRE_MSG(m.first < purged || found.count(m.first), "lost " << m.first);
  }
  c.label("purged", purgedCount.load());
  if (producers > 1 && collects > 1) {
    c.nontrivial(note.str());
  }
}
