// C02: records are presented in time order, stably
#include <fstream>

#include <vrs/FileFormat.h>

#include "recording.h"

using namespace gen;
using namespace vrs;

namespace {

struct Plan {
  std::vector<std::unique_ptr<GenStream>> streams;
  std::vector<Rec> log;
  std::string path;
  size_t batches = 0, ties = 0, inversions = 0;
};

// the payload identifies the record: stream, and creation order in that stream
Bytes payload(size_t stream, uint64_t seq, size_t filler) {
  Bytes b(16 + filler, (uint8_t)(seq & 3));
  uint64_t v = stream;
  memcpy(b.data(), &v, 8);
  memcpy(b.data() + 8, &seq, 8);
  return b;
}

void makePlan(pbt::Src& s, pbt::Ctx& c, Plan& p) {
  std::ostringstream note;
  TemporaryRecordableInstanceIdsResetter resetter;
  RecordFileWriter writer;
  p.path = c.dir() + "/t.vrs";
  size_t n = 1 + s.size(5);
  for (size_t k = 0; k < n; k++) {
    p.streams.push_back(std::make_unique<GenStream>(genTypeId(s), k % 2 ? "x/y" : "a/b", &p.log));
    p.streams.back()->setCompression(genPreset(s));
    p.streams.back()->withConfig = s.flip();
    p.streams.back()->withState = s.flip();
  }
  // attach in any order
  std::vector<size_t> order(n);
  for (size_t k = 0; k < n; k++) {
    order[k] = k;
  }
  for (size_t k = n; k > 1; k--) {
    std::swap(order[k - 1], order[s.below(k)]);
  }
  for (size_t k : order) {
    writer.addRecordable(p.streams[k].get());
  }
  size_t threads = s.weighted({3, 2, 1, 1});
  writer.setCompressionThreadPoolSize(threads);
  // few distinct times, in a few styles
  std::vector<double> times;
  size_t nt = 1 + s.size(7);
  int style = (int)s.draw(4);
  for (size_t k = 0; k < nt; k++) {
    switch (style) {
      case 1:
        times.push_back(-(double)k);
        break;
      case 2:
        times.push_back(k % 2 ? 0.0 : -0.0);
        break;
      case 3:
        times.push_back(1.0 + (double)k * 2.220446049250313e-16);
        break;
      case 4:
        times.push_back(s.real());
        break;
      default:
        times.push_back((double)k);
    }
    if (times.back() >= Record::kMaxTimestamp) {
      times.back() = 1e300;
    }
  }
  for (auto& st : p.streams) {
    st->configTime = s.pick(times);
    st->stateTime = s.pick(times);
  }
  int mode = (int)s.draw(3); // 0: one shot
  note << n << " streams, threads " << threads << " mode " << mode << " times " << pbt::show(times) << ":";
  std::vector<uint64_t> seqs(n, 0);
  bool increasing = s.flip();
  size_t ops = s.size(120);
  size_t opIndex = 0;
  auto make = [&]() {
    size_t st = s.below(n);
    double t = increasing ? times[std::min(nt - 1, opIndex * nt / (ops + 1) + s.draw(1))] : s.pick(times);
    size_t filler = s.weighted({4, 1, 1, 1});
    filler = filler == 0 ? s.draw(8) : filler == 1 ? 234 + s.draw(2) : filler == 2 ? 4000 : 40000;
    Record::Type type = genType(s);
    for (auto& r : p.log) {
      p.ties += r.ts == t;
      p.inversions += r.ts > t;
    }
    p.streams[st]->make(t, type, 1, payload(st, seqs[st]++, filler), s.chance(1, 4) ? Feed::Direct : Feed::OneChunk);
    if (note.tellp() < 1500) {
      note << " " << p.streams[st]->getStreamId().getNumericName() << "@" << t << "#" << filler;
    }
  };
  int status = 0;
  if (mode == 0) {
    for (; opIndex < ops; opIndex++) {
      make();
    }
    c.note(note.str());
    status = writer.writeToFile(p.path);
    REQUIRE_EQ(status, 0);
    return;
  }
  size_t before = s.size(10);
  for (size_t k = 0; k < before; k++) {
    make();
  }
  if (mode == 2) {
    status = writer.createChunkedFile(p.path, 0, nullptr);
  } else {
    status = writer.createFileAsync(p.path);
  }
  REQUIRE_EQ(status, 0);
  for (; opIndex < ops; opIndex++) {
    if (s.chance(1, 12)) {
      double t = s.flip() ? Record::kMaxTimestamp : s.pick(times);
      note << " flush" << t;
      REQUIRE_EQ(writer.writeRecordsAsync(t), 0);
      p.batches++;
    } else {
      make();
    }
  }
  c.note(note.str());
  REQUIRE_EQ(writer.waitForFileClosed(), 0);
}

void checkOrder(RecordFileReader& reader, const Plan& p, const char* what) {
  std::vector<Rec> expected = sorted(p.log);
  int status = 0;
  auto actual = readAll(reader, status);
  REQUIRE_EQ_MSG(status, 0, what);
  requireSameRecords(expected, actual, what);
  const auto& index = reader.getIndex();
  REQUIRE_EQ(index.size(), expected.size());
  std::map<StreamId, std::vector<const IndexRecord::RecordInfo*>> perStream;
  for (auto& info : index) {
    perStream[info.streamId].push_back(&info);
  }
  for (StreamId id : reader.getStreams()) {
    REQUIRE_MSG(reader.getIndex(id) == perStream[id], what << ": list of stream " << id.getNumericName());
  }
}

// drop the index of a file made with a classic index: find the index offset in the file header
void forgetIndex(const std::string& path) {
  std::fstream f(path, std::ios::in | std::ios::out | std::ios::binary);
  // FileHeader: 4 magic u32 (2 x 2), then creationId u64, fileHeaderSize u32, recordHeaderSize u32, indexRecordOffset i64
  int64_t zero = 0;
  f.seekp(offsetof(FileFormat::FileHeader, indexRecordOffset));
  f.write((const char*)&zero, sizeof(zero));
}

} // namespace

PBT_TEST(
    timeOrder,
    40000,
    700000,
    "1-6 streams in any attachment order, up to 130 records on at most 8 distinct times (equal, negative, one ulp apart, any "
    "double), one shot or batches in any order, 0-3 compression threads; non-trivial: at least one tie and 4 records; "
    "distinct by order of creation") {
  Plan p;
  makePlan(s, c, p);
  {
    RecordFileReader reader;
    REQUIRE_EQ(reader.openFile(p.path), 0);
    checkOrder(reader, p, "index");
    // players see the same order
    Collector all;
    for (StreamId id : reader.getStreams()) {
      reader.setStreamPlayer(id, &all);
    }
    REQUIRE_EQ(reader.readAllRecords(), 0);
    requireSameRecords(sorted(p.log), all.records, "readAllRecords");
  }
  {
    RecordFileReader reader;
    FileSpec spec;
    REQUIRE_EQ(RecordFileReader::vrsFilePathToFileSpec(p.path, spec), 0);
    spec.setExtra("sort_records", "1");
    REQUIRE_EQ(reader.openFile(spec), 0);
    // this option groups by type the records with the same time and stream
    int status = 0;
    auto recs = readAll(reader, status);
    REQUIRE_EQ(status, 0);
    auto expected = p.log;
    auto rank = [](Record::Type t) { return t == Record::Type::CONFIGURATION ? 0 : t == Record::Type::STATE ? 1 : 2; };
    std::stable_sort(expected.begin(), expected.end(), [&](const Rec& a, const Rec& b) {
      return a.ts != b.ts ? a.ts < b.ts : !(a.id == b.id) ? a.id < b.id : rank(a.type) != rank(b.type) ? rank(a.type) < rank(b.type) : a.seq < b.seq;
    });
    requireSameRecords(expected, recs, "sort_records");
  }
  if (s.chance(1, 3)) {
    forgetIndex(p.path);
    RecordFileReader reader;
    REQUIRE_EQ(reader.openFile(p.path), 0);
    REQUIRE(!reader.hasIndex());
    checkOrder(reader, p, "rebuilt index");
    c.label("rebuilt");
  }
  if (p.batches) {
    c.label("batches");
  }
  if (p.inversions) {
    c.label("produced out of order");
  }
  if (p.ties > 0 && p.log.size() >= 4) {
    uint64_t h = p.batches;
    for (auto& r : p.log) {
      h = pbt::mix64(h ^ pbt::hashBytes(&r.ts, 8, (uint64_t)r.id.getTypeId() * 97 + r.id.getInstanceId() * 3 + r.data.size()));
    }
    c.nontrivial(h);
  }
}
