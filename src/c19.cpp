// C19: reading several files together is reading the time-ordered merge of each of them.
#include <optional>

#include <vrs/MultiRecordFileReader.h>
#include <vrs/TagConventions.h>

#include "damaged.h"
#include "recording.h"

using namespace gen;
using namespace vrs;
using std::map;
using std::set;
using std::string;
using std::vector;
using Info = IndexRecord::RecordInfo;

namespace {

/// One of the files, as seen by a reader of its own
struct File {
  FileSpec spec;
  string path;
  RecordFileReader reader;
  vector<Rec> records;
  vector<uint32_t> sizes;
  map<string, string> tags;
};

void makeFile(pbt::Src& s, pbt::Ctx& c, const string& name, string& path, string& what, bool tags) {
  Recording rec;
  RecordingOptions opt;
  opt.name = name;
  opt.maxStreams = 3;
  opt.maxOps = 25;
  opt.bigPayload = 600;
  opt.allowChunks = s.chance(1, 60);
  opt.allowThreads = false;
  opt.tags = tags;
  opt.idGaps = true;
  opt.plainClock = !s.chance(1, 6);
  opt.quietExtremes = true;
  opt.contentFormats = true;
  record(s, c, rec, opt);
  REQUIRE_EQ(rec.status, 0);
  path = rec.path;
  what += string(modeName(rec.mode)) + "/" + std::to_string(rec.streams.size()) + "/" + std::to_string(rec.log.size());
  if (s.chance(1, 12)) {
    auto chunks = damaged::chunkPathsOf(c.dir(), name);
    Bytes b = damaged::slurp(chunks.back());
    size_t cut = 1 + s.below(std::min<size_t>(b.size(), 2000));
    if (b.size() > cut + 200) {
      damaged::spit(chunks.back(), b, b.size() - cut);
      what += "cut";
    }
  }
  what += " ";
}

} // namespace

PBT_TEST(
    merged,
    16000,
    100000,
    "1 to 5 recordings, sharing or not the ids of their streams and timestamps, some truncated, some opened twice: streams, merged list of records, "
    "content, sizes, counts, tags and all lookups compared with those of a reader per file; non-trivial: 2 files or more with records, and a stream "
    "id used twice or records of two files with the same timestamp; distinct by content") {
  string what;
  size_t count = s.weighted({0, 1, 6, 3, 1, 1});
  vector<string> paths;
  bool tags = s.chance(2, 3);
  for (size_t k = 0; k < count; k++) {
    if (k > 0 && s.chance(1, 12)) {
      paths.push_back(s.pick(paths));
      what += "same ";
    } else {
      string path;
      makeFile(s, c, "f" + std::to_string(k) + ".vrs", path, what, tags);
      paths.push_back(path);
    }
  }
  bool sortRecords = s.chance(1, 6);
  what += sortRecords ? "sorted" : "";
  c.note(what);
  vector<std::unique_ptr<File>> files;
  vector<FileSpec> specs;
  int64_t totalSize = 0;
  bool anyFails = false;
  for (auto& path : paths) {
    auto f = std::make_unique<File>();
    f->path = path;
    REQUIRE_EQ(RecordFileReader::vrsFilePathToFileSpec(path, f->spec), 0);
    if (sortRecords) {
      f->spec.setExtra("sort_records", true);
    }
    specs.push_back(f->spec);
    if (f->reader.openFile(f->spec) != 0) {
      anyFails = true;
    } else {
      totalSize += f->reader.getTotalSourceSize();
      int status = 0;
      f->records = readAll(f->reader, status);
      REQUIRE_EQ(status, 0);
      for (uint32_t k = 0; k < f->records.size(); k++) {
        f->sizes.push_back(f->reader.getRecordSize(k));
      }
      f->tags = f->reader.getTags();
    }
    files.push_back(std::move(f));
  }
  MultiRecordFileReader multi;
  multi.setRelatedFileTags({});
  int status = sortRecords || s.flip() ? multi.open(specs) : multi.open(paths);
  if (anyFails) {
    REQUIRE(status != 0);
    REQUIRE(!multi.isOpened());
    REQUIRE_EQ(multi.getRecordCount(), 0u);
    REQUIRE(multi.getRecord(0) == nullptr);
    throw pbt::Discard{};
  }
  REQUIRE_EQ(status, 0);
  REQUIRE(multi.isOpened());
  REQUIRE(multi.open(specs) != 0); // only once
  REQUIRE(multi.isOpened());

  // the merged list: each record of each file once, in the order of its file, by time
  size_t total = 0;
  for (auto& f : files) {
    total += f->records.size();
  }
  REQUIRE_EQ((size_t)multi.getRecordCount(), total);
  REQUIRE_EQ(multi.getTotalSourceSize(), totalSize);
  REQUIRE_EQ(multi.getReaders().size(), files.size());
  struct Item {
    const Info* info = nullptr;
    size_t file = 0, pos = 0; // in its file
    StreamId uid;
  };
  vector<Item> merged;
  vector<size_t> next(files.size());
  map<std::pair<size_t, StreamId>, StreamId> toUnique;
  map<StreamId, std::pair<size_t, StreamId>> fromUnique;
  size_t ties = 0;
  for (uint32_t k = 0; k < total; k++) {
    Item item;
    item.info = multi.getRecord(k);
    REQUIRE(item.info != nullptr);
    bool found = false;
    for (size_t f = 0; f < files.size() && !found; f++) {
      auto& index = multi.getReaders()[f]->getIndex();
      if (item.info >= index.data() && item.info < index.data() + index.size()) {
        found = true;
        item.file = f;
        item.pos = (size_t)(item.info - index.data());
      }
    }
    REQUIRE_MSG(found, "record " << k << " is nobody's");
    REQUIRE_EQ_MSG(item.pos, next[item.file], "record " << k << " of file " << item.file);
    next[item.file]++;
    const Rec& rec = files[item.file]->records[item.pos];
    REQUIRE(item.info->timestamp == rec.ts && item.info->recordType == rec.type && item.info->streamId == rec.id);
    item.uid = multi.getUniqueStreamId(item.info);
    REQUIRE(item.uid.isValid() && item.uid.getTypeId() == rec.id.getTypeId());
    auto key = std::make_pair(item.file, rec.id);
    if (!toUnique.count(key)) {
      REQUIRE_MSG(!fromUnique.count(item.uid), item.uid.getNumericName() << " used for two streams");
      toUnique[key] = item.uid;
      fromUnique[item.uid] = key;
    }
    REQUIRE(toUnique[key] == item.uid);
    if (!merged.empty()) {
      const Item& p = merged.back();
      REQUIRE_MSG(p.info->timestamp <= item.info->timestamp, "record " << k << " out of order");
      ties += p.info->timestamp == item.info->timestamp && p.file != item.file;
      if (!sortRecords && files.size() > 1 && p.info->timestamp == item.info->timestamp) {
        REQUIRE_MSG(
            p.uid < item.uid || (p.uid == item.uid && p.info->fileOffset < item.info->fileOffset),
            "record " << k << ": " << p.uid.getNumericName() << " before " << item.uid.getNumericName());
      }
    }
    merged.push_back(item);
  }
  REQUIRE(multi.getRecord((uint32_t)total) == nullptr);

  // streams: each stream of each file, once
  size_t streamCount = 0;
  size_t collisions = 0;
  set<StreamId> seen;
  map<RecordableTypeId, size_t> typeCounts, typeCounts2;
  for (auto& f : files) {
    streamCount += f->reader.getStreams().size();
    for (StreamId id : f->reader.getStreams()) {
      collisions += !seen.insert(id).second;
      typeCounts[id.getTypeId()]++;
    }
  }
  const set<StreamId> uids = multi.getStreams();
  REQUIRE_EQ(uids.size(), streamCount);
  for (auto& u : fromUnique) {
    REQUIRE_EQ_MSG(uids.count(u.first), 1u, u.first.getNumericName());
  }
  for (StreamId id : seen) {
    REQUIRE_EQ_MSG(uids.count(id), 1u, id.getNumericName()); // new ids only for conflicts
  }
  std::multimap<string, StreamId> serials;
  for (StreamId uid : uids) {
    typeCounts2[uid.getTypeId()]++;
    serials.emplace(multi.getSerialNumber(uid), uid);
    if (fromUnique.count(uid)) {
      auto& from = fromUnique[uid];
      auto& r = files[from.first]->reader;
      const auto &a = multi.getTags(uid), &b = r.getTags(from.second);
      REQUIRE_EQ(a.user, b.user);
      REQUIRE_EQ(a.vrs, b.vrs);
      REQUIRE_EQ(multi.getFlavor(uid), r.getFlavor(from.second));
      REQUIRE_EQ(multi.getSerialNumber(uid), r.getSerialNumber(from.second));
      REQUIRE_EQ(multi.getOriginalRecordableTypeName(uid), r.getOriginalRecordableTypeName(from.second));
      REQUIRE_EQ(multi.mightContainImages(uid), r.mightContainImages(from.second));
      REQUIRE_EQ(multi.mightContainAudio(uid), r.mightContainAudio(from.second));
      RecordFormatMap fa, fb;
      REQUIRE_EQ(multi.getRecordFormats(uid, fa), r.getRecordFormats(from.second, fb));
      REQUIRE(fa == fb);
      for (auto& t : b.user) {
        REQUIRE_EQ(multi.getTag(uid, t.first), t.second);
      }
    } else {
      REQUIRE_EQ(multi.getRecordCount(uid), 0u);
    }
  }
  REQUIRE(typeCounts == typeCounts2);
  std::multimap<string, int> expectedSerials, actualSerials;
  for (auto& f : files) {
    for (StreamId id : f->reader.getStreams()) {
      expectedSerials.emplace(f->reader.getSerialNumber(id), 0);
    }
  }
  for (auto& n : serials) {
    actualSerials.emplace(n.first, 0);
    StreamId id = multi.getStreamForSerialNumber(n.first);
    REQUIRE(id == serials.lower_bound(n.first)->second);
  }
  REQUIRE(actualSerials == expectedSerials);
  // the tags of the files
  for (auto& t : multi.getTags()) {
    bool found = false;
    for (auto& f : files) {
      auto it = f->tags.find(t.first);
      found |= it != f->tags.end() && it->second == t.second;
    }
    REQUIRE_MSG(found, t.first);
    REQUIRE_EQ(multi.getTag(t.first), t.second);
  }
  for (auto& f : files) {
    for (auto& t : f->tags) {
      REQUIRE_EQ_MSG(multi.getTags().count(t.first), 1u, t.first);
    }
  }

  // lookups
  auto scan = [&](StreamId uid, Record::Type type, const std::function<bool(const Info&)>& f) {
    vector<size_t> found;
    for (size_t k = 0; k < merged.size(); k++) {
      if ((!uid.isValid() || merged[k].uid == uid) && (type == Record::Type::UNDEFINED || merged[k].info->recordType == type) && f(*merged[k].info)) {
        found.push_back(k);
      }
    }
    return found;
  };
  auto any = [](const Info&) { return true; };
  auto nth = [&](const vector<size_t>& v, size_t n) { return n < v.size() ? merged[v[n]].info : nullptr; };
  vector<StreamId> ids(uids.begin(), uids.end());
  ids.emplace_back(RecordableTypeId::UnitTest1, 500);
  const vector<Record::Type> types{Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE};
  // nth stream of a type, flavors
  for (auto& t : typeCounts) {
    auto list = multi.getStreams(t.first);
    REQUIRE_EQ(list.size(), t.second);
    for (size_t n = 0; n < list.size(); n++) {
      REQUIRE(uids.count(list[n]) == 1 && list[n].getTypeId() == t.first);
      REQUIRE(n == 0 || list[n - 1] < list[n]);
      REQUIRE_EQ(multi.getStreamForName(list[n].getNumericName()).getNumericName(), list[n].getNumericName());
      string relative = std::to_string((int)t.first) + "+" + std::to_string(n + 1);
      REQUIRE_EQ_MSG(multi.getStreamForName(relative).getNumericName(), list[n].getNumericName(), relative);
      auto flavored = multi.getStreams(t.first, multi.getFlavor(list[n]));
      REQUIRE_EQ(std::count(flavored.begin(), flavored.end(), list[n]), 1);
      for (auto id : flavored) {
        REQUIRE(multi.getFlavor(list[n]).empty() || multi.getFlavor(id) == multi.getFlavor(list[n]));
      }
      for (auto& tag : multi.getTags(list[n]).user) {
        StreamId first = multi.getStreamForTag(tag.first, tag.second);
        REQUIRE_EQ(multi.getTag(first, tag.first), tag.second);
        REQUIRE(!(list[n] < first));
      }
    }
    REQUIRE(!multi.getStreamForName(std::to_string((int)t.first) + "+" + std::to_string(list.size() + 1)).isValid());
    REQUIRE(!multi.getStreamForName(std::to_string((int)t.first) + "-" + std::to_string(list.back().getInstanceId() + 1)).isValid());
  }
  REQUIRE_EQ(multi.getStreams(RecordableTypeId::Undefined).size(), uids.size());
  for (StreamId uid : ids) {
    auto all = scan(uid, Record::Type::UNDEFINED, any);
    REQUIRE_EQ((size_t)multi.getRecordCount(uid), all.size());
    auto& own = multi.getIndex(uid);
    REQUIRE_EQ(own.size(), all.size());
    for (size_t n = 0; n <= all.size(); n++) {
      REQUIRE(n == all.size() || own[n] == nth(all, n));
      REQUIRE(multi.getRecord(uid, (uint32_t)n) == nth(all, n));
    }
    for (auto type : types) {
      auto some = scan(uid, type, any);
      REQUIRE_EQ((size_t)multi.getRecordCount(uid, type), some.size());
      for (size_t n = 0; n <= some.size(); n++) {
        REQUIRE_MSG(multi.getRecord(uid, type, (uint32_t)n) == nth(some, n), uid.getNumericName() << toString(type) << n);
      }
      REQUIRE(multi.getLastRecord(uid, type) == nth(some, some.size() - 1));
    }
  }
  for (auto type : types) {
    auto some = scan({}, type, any);
    REQUIRE(multi.getFirstRecord(type) == nth(some, 0));
    REQUIRE(multi.getLastRecord(type) == nth(some, some.size() - 1));
  }
  Info foreign = merged.empty() ? Info(0, 100, StreamId(RecordableTypeId::UnitTest1, 1), Record::Type::DATA) : *merged[0].info;
  REQUIRE_EQ((size_t)multi.getRecordIndex(nullptr), total);
  if (files.size() > 1) {
    REQUIRE_EQ((size_t)multi.getRecordIndex(&foreign), total);
  }
  Collector foreigner;
  REQUIRE(multi.readRecord(foreign, &foreigner, false) != 0);
  REQUIRE_EQ(foreigner.records.size(), 0u);

  // contents, through one player for each stream, one for all, or one given for a record
  map<StreamId, Collector> players;
  for (StreamId uid : uids) {
    if (s.chance(3, 4)) {
      multi.setStreamPlayer(uid, &players[uid]);
    }
  }
  vector<size_t> order(total);
  for (size_t k = 0; k < total; k++) {
    order[k] = k;
  }
  if (s.flip()) {
    for (size_t k = total; k > 1; k--) {
      std::swap(order[k - 1], order[s.below(k)]);
    }
  }
  for (size_t k : order) {
    const Item& item = merged[k];
    const Rec& rec = files[item.file]->records[item.pos];
    REQUIRE_EQ_MSG((size_t)multi.getRecordIndex(item.info), k, item.uid.getNumericName() << " @ " << item.info->timestamp);
    REQUIRE_EQ_MSG(multi.getRecordSize((uint32_t)k), files[item.file]->sizes[item.pos], "record " << k);
    Collector other;
    bool direct = s.chance(1, 4);
    map<StreamId, size_t> before;
    for (auto& p : players) {
      before[p.first] = p.second.records.size();
    }
    REQUIRE_EQ(direct ? multi.readRecord(*item.info, &other, false) : multi.readRecord(*item.info), 0);
    for (auto& p : players) {
      bool expected = !direct && p.first == item.uid;
      REQUIRE_EQ_MSG(p.second.records.size(), before[p.first] + expected, "record of " << item.uid.getNumericName() << " and player of " << p.first.getNumericName());
      REQUIRE(!expected || p.second.records.back().sameContent(rec));
    }
    REQUIRE_EQ(other.records.size(), (size_t)direct);
    REQUIRE(!direct || other.records[0].sameContent(rec));
  }
  if (total > 0) {
    multi.prefetchRecordSequence({merged[0].info, merged[total - 1].info});
  }
  multi.setCachingStrategy(s.flip() ? CachingStrategy::Streaming : CachingStrategy::Passive);
  for (size_t q = s.size(40); q > 0; q--) {
    StreamId uid = s.pick(ids);
    Record::Type type = s.pick(types);
    double t = merged.empty() || s.chance(1, 8) ? s.real() : merged[s.below(total)].info->timestamp + (s.flip() ? 0 : (double)s.draw(16) / 8 - 1);
    auto after = [&](const Info& r) { return r.timestamp >= t; };
    REQUIRE(multi.getRecordByTime(t) == nth(scan({}, Record::Type::UNDEFINED, after), 0));
    REQUIRE(multi.getRecordByTime(uid, t) == nth(scan(uid, Record::Type::UNDEFINED, after), 0));
    REQUIRE(multi.getRecordByTime(uid, type, t) == nth(scan(uid, type, after), 0));
    double epsilon = s.chance(1, 5) ? 0 : (double)s.draw(30) / 8;
    StreamId nearId = s.flip() ? uid : StreamId();
    Record::Type nearType = s.flip() ? type : Record::Type::UNDEFINED;
    auto near = scan(nearId, nearType, [&](const Info& r) { return std::abs(r.timestamp - t) <= epsilon; });
    const Info* r = multi.getNearestRecordByTime(t, epsilon, nearId, nearType);
    REQUIRE_EQ(r != nullptr, !near.empty());
    if (r) {
      double best = 1e300;
      bool suitable = false;
      for (size_t k : near) {
        best = std::min(best, std::abs(merged[k].info->timestamp - t));
        suitable |= merged[k].info == r;
      }
      REQUIRE(suitable);
      REQUIRE_EQ(std::abs(r->timestamp - t), best);
    }
  }
  // configuration records
  {
    Collector configs;
    vector<Rec> expected;
    bool all = true;
    for (auto& f : files) {
      Collector own;
      all &= f->reader.readFirstConfigurationRecords(&own);
      expected.insert(expected.end(), own.records.begin(), own.records.end());
    }
    REQUIRE_EQ(multi.readFirstConfigurationRecords(&configs), all);
    auto byText = [](vector<Rec> v) {
      std::multiset<string> texts;
      for (auto& r : v) {
        texts.insert(r.str());
      }
      return texts;
    };
    REQUIRE(byText(configs.records) == byText(expected));
    for (auto& u : fromUnique) {
      Collector one;
      auto some = scan(u.first, Record::Type::CONFIGURATION, any);
      REQUIRE_EQ(multi.readFirstConfigurationRecord(u.first, &one), !some.empty());
      REQUIRE_EQ(one.records.size(), some.empty() ? 0u : 1u);
      if (!some.empty()) {
        REQUIRE(one.records[0].sameContent(files[merged[some[0]].file]->records[merged[some[0]].pos]));
      }
    }
  }
  uint64_t h = total;
  for (auto& m : merged) {
    h = pbt::mix64(h ^ (uint64_t)(int64_t)(m.info->timestamp * 1000) ^ ((uint64_t)m.file << 32) ^ (uint64_t)m.info->fileOffset << 40);
  }
  REQUIRE_EQ(multi.close(), 0);
  REQUIRE(!multi.isOpened() && multi.getRecordCount() == 0 && multi.getStreams().empty() && multi.getRecord(0) == nullptr);
  // and the reader can be used again
  if (s.chance(1, 4)) {
    REQUIRE_EQ(multi.open(specs), 0);
    REQUIRE_EQ((size_t)multi.getRecordCount(), total);
  }
  c.label("files", files.size());
  size_t withRecords = 0;
  for (auto& f : files) {
    withRecords += !f->records.empty();
  }
  if (withRecords > 1 && (collisions > 0 || ties > 0)) {
    c.nontrivial(h);
  }
}

PBT_TEST(
    related,
    24000,
    300000,
    "2 to 5 small files with values from a small set, or none, for the tags that must match, default or chosen, and files missing or that aren't "
    "recordings: opened together if and only if all the files can be opened and their values match; non-trivial: 2 files with a value for a tag; "
    "distinct by values") {
  const vector<string> kNames{tag_conventions::kCaptureTimeEpoch, tag_conventions::kSessionId, "other"};
  vector<string> paths;
  vector<map<string, string>> tags;
  string what;
  bool broken = false;
  for (size_t n = 2 + s.size(3); n > 0; n--) {
    string path = c.dir() + "/r" + std::to_string(n) + ".vrs";
    map<string, string> t;
    for (auto& name : kNames) {
      size_t v = s.weighted({4, 4, 1, 1});
      if (v < 3) {
        t[name] = v == 0 ? "1" : v == 1 ? "" : "2";
      }
      what += v == 3 ? "-" : v == 1 ? "_" : t[name];
    }
    TemporaryRecordableInstanceIdsResetter resetter;
    RecordFileWriter writer;
    GenStream stream(RecordableTypeId::UnitTest1, "", nullptr);
    writer.addRecordable(&stream);
    writer.addTags(t);
    REQUIRE_EQ(writer.writeToFile(path), 0);
    if (s.chance(1, 25)) {
      broken = true;
      what += "x";
      if (s.flip()) {
        damaged::spit(path, Bytes(300, 'a'), 300);
      } else {
        path += "missing";
      }
    }
    paths.push_back(path);
    tags.push_back(t);
    what += " ";
  }
  MultiRecordFileReader multi;
  vector<string> names{tag_conventions::kCaptureTimeEpoch, tag_conventions::kSessionId};
  if (s.flip()) {
    names.clear();
    for (auto& n : kNames) {
      if (s.flip()) {
        names.push_back(n);
        what += n[0];
      }
    }
    multi.setRelatedFileTags(vector<string>(names));
  }
  c.note(what);
  bool match = true, compared = false;
  for (auto& name : names) {
    set<string> values;
    size_t n = 0;
    for (auto& t : tags) {
      if (t.count(name) && !t[name].empty()) {
        values.insert(t[name]);
        n++;
      }
    }
    match &= values.size() < 2;
    compared |= n > 1;
  }
  int status = multi.open(paths);
  REQUIRE_EQ_MSG(status == 0, match && !broken, what << ": status " << status);
  REQUIRE_EQ(multi.isOpened(), status == 0);
  if (status != 0) {
    REQUIRE_EQ(multi.getRecordCount(), 0u);
    REQUIRE(multi.getStreams().empty());
    REQUIRE(multi.getRecord(0) == nullptr && multi.getRecordByTime(0) == nullptr);
  } else {
    REQUIRE_EQ(multi.getStreams().size(), paths.size());
  }
  c.label(status == 0 ? "opened" : "refused");
  if (compared) {
    c.nontrivial(what);
  }
}
