// C09: record lookups match a linear scan of the index.
#include <cmath>
#include <optional>

#include "damaged.h"
#include "physical.h"
#include "recording.h"

using namespace gen;
using std::string;
using std::vector;
using Info = vrs::IndexRecord::RecordInfo;

namespace {

/// A file with few streams, ties, missing types, records late or early; maybe truncated
string makeFile(pbt::Src& s, pbt::Ctx& c, std::ostringstream& note, bool& outCut, const string& fileName) {
  Recording rec;
  RecordingOptions opt;
  opt.name = fileName;
  opt.maxStreams = 3;
  opt.maxOps = s.chance(1, 4) ? 200 : 40;
  opt.allowChunks = false;
  opt.allowThreads = false;
  opt.tags = false;
  opt.bigPayload = 600;
  opt.quietExtremes = !s.chance(1, 4);
  record(s, c, rec, opt);
  REQUIRE_EQ(rec.status, 0);
  outCut = false;
  if (s.chance(1, 6)) {
    auto chunks = damaged::chunkPathsOf(c.dir(), fileName);
    auto data = damaged::slurp(chunks.back());
    size_t cut = 1 + s.below(std::min<size_t>(data.size(), 3000));
    if (data.size() > cut) {
      damaged::spit(chunks.back(), data, data.size() - cut);
      note << "cut by " << cut << " ";
      outCut = true;
    }
  }
  return rec.path;
}

/// Queries of an open file
bool queryFile(pbt::Src& s, pbt::Ctx& c, vrs::RecordFileReader& reader, std::ostringstream& note, const string& fileName, bool cut) {
  // what it all must agree with: the content of the list of records, in its order
  const auto& index = reader.getIndex();
  const vector<Info> records(index.begin(), index.end());
  std::set<double> times;
  std::set<StreamId> withRecords;
  double prev = 0;
  for (size_t k = 0; k < records.size(); k++) {
    REQUIRE(k == 0 || prev <= records[k].timestamp);
    prev = records[k].timestamp;
    times.insert(prev);
    withRecords.insert(records[k].streamId);
    REQUIRE(reader.getStreams().count(records[k].streamId) == 1);
  }
  vector<StreamId> ids(reader.getStreams().begin(), reader.getStreams().end());
  ids.emplace_back();
  ids.emplace_back(RecordableTypeId::UnitTest1, 40);
  vector<double> stamps(times.begin(), times.end());
  auto genTime = [&]() {
    if (stamps.empty() || s.chance(1, 10)) {
      return s.chance(1, 2) ? s.real() : (double)s.draw(50);
    }
    double t = stamps[s.below(stamps.size())];
    switch (s.draw(5)) {
      case 0:
        return std::nextafter(t, -1e300);
      case 1:
        return std::nextafter(t, 1e300);
      case 2:
        return t + (double)s.draw(20) / 8 - 1;
      default:
        return t;
    }
  };
  auto at = [&](const Info* info) -> std::optional<size_t> {
    if (info == nullptr) {
      return std::nullopt;
    }
    REQUIRE_MSG(info >= index.data() && info < index.data() + index.size(), "record out of the list");
    return (size_t)(info - index.data());
  };
  auto name = [](std::optional<size_t> k) { return k ? "#" + std::to_string(*k) : string("none"); };
#define SAME(CALL, EXPECTED, WHAT)                                                                                     \
  do {                                                                                                                 \
    auto got__ = at(CALL);                                                                                             \
    REQUIRE_MSG(got__ == (EXPECTED), #CALL << ": " << name(got__) << " rather than " << name(EXPECTED) << ", " << WHAT); \
  } while (false)
  auto scan = [&](StreamId id, Record::Type type, const std::function<bool(const Info&)>& f) {
    vector<size_t> found;
    for (size_t k = 0; k < records.size(); k++) {
      if ((!id.isValid() || records[k].streamId == id) && (type == Record::Type::UNDEFINED || records[k].recordType == type) &&
          f(records[k])) {
        found.push_back(k);
      }
    }
    return found;
  };
  auto any = [](const Info&) { return true; };
  auto nth = [](const vector<size_t>& v, uint64_t n) { return n < v.size() ? std::optional<size_t>(v[n]) : std::nullopt; };
  const vector<Record::Type> types{
      Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA, Record::Type::TAGS, Record::Type::UNDEFINED};
  // the sizes on disk
  std::map<int64_t, uint32_t> sizes;
  auto physicalScan = physical::scan(damaged::slurpAll(damaged::chunkPathsOf(c.dir(), fileName)));
  for (auto& r : physicalScan.user) {
    sizes[r.offset] = r.size;
  }
  Collector collector;
  StreamId recent;
  uint32_t recentIndex = 0;
  size_t queries = 30 + s.draw(120);
  note << "queries:";
  for (size_t q = 0; q < queries; q++) {
    StreamId id = recent.isValid() && s.flip() ? recent : s.pick(ids);
    Record::Type type = s.pick(types);
    // sequential, backward, and random accesses
    uint32_t n = s.chance(1, 15) ? s.u32()
        : s.chance(2, 3)         ? recentIndex + (uint32_t)s.draw(2) - (s.chance(1, 3) ? 1 : 0)
                                 : (uint32_t)s.draw(records.size() + 2);
    double t = genTime();
    uint64_t kind = s.draw(13);
    note << " " << kind;
    string what = id.getNumericName() + "/" + toString(type) + " n=" + std::to_string(n) + " t=" + pbt::show(t);
    c.note(note.str() + " " + what);
    switch (kind) {
      case 0:
      case 1:
      case 2: {
        if (!id.isValid() || type == Record::Type::UNDEFINED || type == Record::Type::TAGS) {
          REQUIRE(reader.getRecord(id, type, n) == nullptr);
          break;
        }
        recent = id;
        recentIndex = n;
        SAME(reader.getRecord(id, type, n), nth(scan(id, type, any), n), what);
        break;
      }
      case 3:
        SAME(reader.getRecord(n), (n < records.size() ? std::optional<size_t>(n) : std::nullopt), what);
        if (id.isValid()) {
          SAME(reader.getRecord(id, n), nth(scan(id, Record::Type::UNDEFINED, any), n), what);
        }
        break;
      case 4: {
        if (!id.isValid() || type == Record::Type::UNDEFINED) {
          REQUIRE(reader.getLastRecord(id, type) == nullptr);
          break;
        }
        auto all = scan(id, type, any);
        SAME(reader.getLastRecord(id, type), nth(all, all.size() - 1), what);
        break;
      }
      case 5: {
        auto after = [&](const Info& r) { return r.timestamp >= t; };
        SAME(reader.getRecordByTime(t), nth(scan({}, Record::Type::UNDEFINED, after), 0), what);
        if (type != Record::Type::UNDEFINED) {
          SAME(reader.getRecordByTime(type, t), nth(scan({}, type, after), 0), what);
        }
        if (id.isValid()) {
          SAME(reader.getRecordByTime(id, t), nth(scan(id, Record::Type::UNDEFINED, after), 0), what);
          if (type != Record::Type::UNDEFINED) {
            SAME(reader.getRecordByTime(id, type, t), nth(scan(id, type, after), 0), what);
          }
        }
        break;
      }
      case 6:
      case 7: {
        double epsilon = s.chance(1, 8) ? -1 : s.chance(1, 4) ? 0 : s.chance(1, 8) ? 1e300 : (double)s.draw(30) / 8;
        auto near = scan(id, type, [&](const Info& r) { return std::abs(r.timestamp - t) <= epsilon; });
        double best = -1;
        for (size_t k : near) {
          double d = std::abs(records[k].timestamp - t);
          best = best < 0 || d < best ? d : best;
        }
        auto check = [&](const Info* r, const char* call) {
          auto got = at(r);
          REQUIRE_MSG(got.has_value() == !near.empty(), call << ": " << name(got) << ", " << near.size() << " expected within " << epsilon << ", " << what);
          if (got) {
            REQUIRE_MSG(std::find(near.begin(), near.end(), *got) != near.end(), call << ": " << name(got) << " isn't suitable, " << what);
            REQUIRE_EQ_MSG(std::abs(records[*got].timestamp - t), best, call << ": " << name(got) << ", " << what << " within " << epsilon);
          }
          return r;
        };
        const Info* r = check(reader.getNearestRecordByTime(t, epsilon, id, type), "getNearestRecordByTime");
        REQUIRE(r == reader.getNearestRecordByTime(t, epsilon, id, type));
        if (id.isValid()) {
          REQUIRE(r == vrs::getNearestRecordByTime(reader.getIndex(id), t, epsilon, type));
        }
        break;
      }
      case 8: {
        auto all = scan(id, Record::Type::UNDEFINED, any);
        if (!id.isValid()) {
          REQUIRE(reader.getIndex(id).empty());
          REQUIRE_EQ(reader.getRecordCount(id), 0u);
          REQUIRE_EQ(reader.getRecordCount(), (uint32_t)records.size());
          break;
        }
        const auto& own = reader.getIndex(id);
        REQUIRE_EQ_MSG(own.size(), all.size(), what);
        for (size_t k = 0; k < all.size(); k++) {
          SAME(own[k], std::optional<size_t>(all[k]), what);
        }
        REQUIRE_EQ_MSG(reader.getRecordCount(id), (uint32_t)all.size(), what);
        for (auto ty : {Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::TAGS}) {
          REQUIRE_EQ_MSG(reader.getRecordCount(id, ty), (uint32_t)scan(id, ty, any).size(), what);
        }
        break;
      }
      case 9: {
        REQUIRE_EQ(reader.getRecordIndex(nullptr), (uint32_t)records.size());
        if (!records.empty()) {
          size_t k = n % records.size();
          REQUIRE_EQ(reader.getRecordIndex(&index[k]), (uint32_t)k);
          auto all = scan(records[k].streamId, Record::Type::UNDEFINED, any);
          size_t pos = std::find(all.begin(), all.end(), k) - all.begin();
          REQUIRE_EQ_MSG(reader.getRecordStreamIndex(&index[k]), (uint32_t)pos, "record #" << k);
          Info foreign = index[k]; // not a record of the file
          REQUIRE_EQ(reader.getRecordIndex(&foreign), (uint32_t)records.size());
        }
        break;
      }
      case 10: {
        REQUIRE_EQ(reader.getRecordSize((uint32_t)records.size() + (uint32_t)s.draw(3)), 0u);
        for (size_t k = 0; k < records.size(); k++) {
          size_t r = (k * 7919 + n) % records.size();
          auto size = sizes.find(records[r].fileOffset);
          REQUIRE_MSG(size != sizes.end(), "record #" << r << " isn't at a record of the file");
          REQUIRE_EQ_MSG(reader.getRecordSize((uint32_t)r), size->second, "record #" << r << " of " << records.size() << (cut ? " (cut file)" : ""));
          if (k > 10 && !s.chance(1, 20)) {
            break;
          }
        }
        break;
      }
      case 11: {
        auto data = scan({}, Record::Type::DATA, any);
        REQUIRE_EQ(reader.getFirstDataRecordTime(), data.empty() ? 0 : records[data.front()].timestamp);
        REQUIRE_EQ(reader.getLastDataRecordTime(), data.empty() ? 0 : records[data.back()].timestamp);
        break;
      }
      default: {
        if (records.empty()) {
          break;
        }
        size_t before = collector.records.size();
        if (kind == 12) {
          size_t k = n % records.size();
          REQUIRE_EQ(reader.readRecord(index[k], &collector), 0);
          REQUIRE_EQ(collector.records.size(), before + 1);
          REQUIRE(collector.records.back().ts == records[k].timestamp && collector.records.back().id == records[k].streamId);
        } else if (id.isValid()) {
          // the first configuration records
          collector.records.clear();
          switch (s.draw(2)) {
            case 0: {
              auto all = scan(id, Record::Type::CONFIGURATION, any);
              REQUIRE_EQ(reader.readFirstConfigurationRecord(id, &collector), !all.empty());
              REQUIRE_EQ(collector.records.size(), (size_t)(all.empty() ? 0 : 1));
              break;
            }
            default: {
              bool ofType = s.flip();
              std::set<size_t> expected;
              for (auto st : reader.getStreams()) {
                auto all = scan(st, Record::Type::CONFIGURATION, any);
                if (!all.empty() && (!ofType || st.getTypeId() == id.getTypeId())) {
                  expected.insert(all.front());
                }
              }
              REQUIRE_EQ(
                  ofType ? reader.readFirstConfigurationRecordsForType(id.getTypeId(), &collector)
                         : reader.readFirstConfigurationRecords(&collector),
                  !expected.empty());
              REQUIRE_EQ(collector.records.size(), expected.size());
              size_t k = 0;
              for (size_t r : expected) { // in the order of the file
                REQUIRE(collector.records[k].ts == records[r].timestamp && collector.records[k].id == records[r].streamId);
                REQUIRE_EQ((int)collector.records[k].type, (int)Record::Type::CONFIGURATION);
                k++;
              }
              break;
            }
          }
        }
        collector.records.clear();
        break;
      }
    }
  }
  // the list itself didn't change
  REQUIRE_EQ(index.size(), records.size());
  for (size_t k = 0; k < records.size(); k++) {
    REQUIRE(index[k] == records[k]);
  }
  c.label("cut", cut);
  return records.size() >= 10 && times.size() < records.size() && withRecords.size() >= 2;
}

} // namespace

PBT_TEST(
    lookups,
    26000,
    700000,
    "files of every creation mode with up to 200 records, ties, missing types, streams without records, sometimes truncated; 30 to 150 "
    "queries in random order, mixed with reads, of one or two files read one after the other, each compared with a linear scan of the list of records; non-trivial: 10 records or more, "
    "with ties, of 2 streams or more; distinct by file and queries") {
  std::ostringstream note;
  vrs::RecordFileReader reader;
  size_t rounds = s.chance(1, 3) ? 2 : 1;
  bool interesting = false;
  for (size_t round = 0; round < rounds; round++) {
    bool cut = false;
    string fileName = round == 0 ? "f.vrs" : "g.vrs";
    string path = makeFile(s, c, note, cut, fileName);
    if (round > 0) {
      if (s.chance(1, 4)) {
        REQUIRE(reader.isVrsFile(path) || cut); // resets the reader
      } else {
        REQUIRE_EQ(reader.closeFile(), 0);
      }
      note << " second file ";
    }
    vrs::FileSpec spec;
    REQUIRE_EQ(vrs::RecordFileReader::vrsFilePathToFileSpec(path, spec, true), 0);
    if (s.chance(1, 6)) {
      spec.setExtra("sort_records", "1");
    }
    int status = reader.openFile(spec);
    if (cut && status != 0) {
      throw pbt::Discard{};
    }
    REQUIRE_EQ(status, 0);
    interesting |= queryFile(s, c, reader, note, fileName, cut);
  }
  c.label("two files", rounds == 2);
  if (interesting) {
    c.nontrivial(note.str());
  }
}
