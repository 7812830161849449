// C22: merging files keeps every record and tag.
#include "copyoptions.h"
#include <list>

#include "damaged.h"

using namespace copies;

namespace {

struct Source {
  string path;
  std::unique_ptr<RecordFileReader> plain;
  Model m;
  std::unique_ptr<FilteredFileReader> f;
  Tags tags;
};

/// adds the tags of another source, the first value of a name wins
void addTags(map<string, string>& written, const map<string, string>& more, bool keepConflicts) {
  map<string, string> added;
  for (auto& t : more) {
    auto w = written.find(t.first);
    if (w == written.end()) {
      added[t.first] = t.second;
    } else if (w->second != t.second && keepConflicts) {
      string name = t.first + "_merged";
      for (int n = 1; written.count(name) != 0 || more.count(name) != 0 || added.count(name) != 0; n++) {
        name = t.first + "_merged-" + std::to_string(n);
      }
      added[name] = t.second;
    }
  }
  written.insert(added.begin(), added.end());
}

} // namespace

PBT_TEST(
    merge,
    9000,
    80000,
    "1 to 5 recordings with shared types, tags and times, each with its own filters, merged or copied together with random options: streams, records, "
    "tags and flavors of the output compared with what the sources hold, which are unchanged; non-trivial: 2 sources or more with records selected, and "
    "2 source streams of the same type, or tags in conflict; distinct by content and options") {
  std::ostringstream what;
  size_t count = s.weighted({0, 1, 6, 3, 1, 1});
  vector<Source> sources(count);
  for (size_t k = 0; k < count; k++) {
    Source& src = sources[k];
    if (k > 0 && s.chance(1, 10)) {
      src.path = sources[s.below(k)].path;
      what << "same ";
    } else {
      Recording rec;
      RecordingOptions opt;
      opt.name = "f" + std::to_string(k) + ".vrs";
      opt.maxStreams = 3;
      opt.maxOps = 25;
      opt.bigPayload = 600;
      opt.allowChunks = s.chance(1, 100);
      opt.allowThreads = false;
      opt.idGaps = true;
      opt.plainClock = !s.chance(1, 8);
      opt.quietExtremes = true;
      record(s, c, rec, opt);
      REQUIRE_EQ(rec.status, 0);
      src.path = rec.path;
      what << rec.log.size() << " ";
    }
    src.plain = std::make_unique<RecordFileReader>();
    REQUIRE_EQ(src.plain->openFile(src.path), 0);
    src.tags = tagsOf(*src.plain);
    src.m.index = src.plain->getIndex();
    src.m.streams = src.plain->getStreams();
    src.m.types = {Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA};
    src.f = std::make_unique<FilteredFileReader>(src.path);
    RecordFilterParams params;
    if (s.chance(1, 5)) {
      auto filter = genStreamFilter(s, *src.plain);
      std::optional<set<StreamId>> ids;
      bool add = s.flip();
      applyStream(add, filter.second, src.m.streams, ids);
      REQUIRE(add ? params.includeStream(filter.first) : params.excludeStream(filter.first));
      what << (add ? "+" : "-") << filter.first << " ";
      src.m.streams = *ids;
    }
    if (s.chance(1, 8)) {
      size_t t = s.below(3);
      src.m.types.erase(t == 0 ? Record::Type::CONFIGURATION : t == 1 ? Record::Type::STATE : Record::Type::DATA);
      params.excludeType(t == 0 ? "configuration" : t == 1 ? "state" : "data");
      what << "-type" << t << " ";
    }
    REQUIRE_EQ(src.f->openFile(params), 0);
  }
  // the times of data records, over all files
  double first = 0, last = 0;
  bool anyData = false;
  for (auto& src : sources) {
    double a = 0, b = 0;
    if (src.m.dataTimes(a, b)) {
      first = anyData ? std::min(first, a) : a;
      last = anyData ? std::max(last, b) : b;
      anyData = true;
    }
  }
  // same time range for all (as the command line does), or one for each
  bool shared = s.flip();
  double minShared = std::numeric_limits<double>::lowest(), maxShared = std::numeric_limits<double>::max();
  size_t timeKind = s.weighted({5, 1, 1, 1});
  for (size_t k = 0; k < count && timeKind != 0; k++) {
    Source& src = sources[k];
    if (shared && k > 0) {
      src.f->filter.copyTimeConstraints(sources[0].f->filter);
    } else {
      double base = src.m.index.empty() ? 10 : src.m.index[s.below(src.m.index.size())].timestamp;
      double low = std::max(0., base + 0.0625 * (double)s.range(-20, 20)), high = low + 0.0625 * (double)s.draw(100);
      minShared = std::numeric_limits<double>::lowest();
      maxShared = std::numeric_limits<double>::max();
      if (timeKind & 1) {
        bool relative = anyData && s.flip();
        minShared = low;
        if (relative && low < last) {
          src.f->setMinTime(low - last, true); // relative to the end
        } else if (relative && low >= first) {
          src.f->setMinTime(low - first, true);
        } else {
          src.f->setMinTime(low, false);
        }
      }
      if (timeKind & 2) {
        maxShared = high;
        if (anyData && high >= first && s.flip()) {
          src.f->setMaxTime(high - first, true);
        } else {
          src.f->setMaxTime(high, false);
        }
      }
      what << "(" << minShared << "," << maxShared << "] ";
    }
    src.m.minTime = minShared;
    src.m.maxTime = maxShared;
  }
  CopyOptions options;
  genOptions(s, options, what, s.chance(1, 12));
  options.mergeStreams = s.flip();
  what << (options.mergeStreams ? "merge" : "copy");
  c.note(what.str());
  // streams
  Tags tags;
  tags.file = sources[0].tags.file;
  map<RecordableTypeId, vector<StreamId>> outs; // of each type
  vector<map<StreamId, StreamId>> ids(count);
  map<StreamId, string> flavors;
  bool sameType = false, conflicts = false;
  for (size_t k = 0; k < count; k++) {
    Source& src = sources[k];
    if (k > 0) {
      for (auto& t : src.tags.file) {
        conflicts = conflicts || (tags.file.count(t.first) != 0 && tags.file[t.first] != t.second);
      }
      addTags(tags.file, src.tags.file, true);
    }
    map<RecordableTypeId, size_t> nth;
    for (auto id : src.m.streams) {
      auto& of = outs[id.getTypeId()];
      size_t n = nth[id.getTypeId()]++;
      sameType = sameType || !of.empty();
      if (k > 0 && options.mergeStreams && n < of.size()) {
        ids[k][id] = of[n];
        addTags(tags.streams[of[n]].user, src.tags.streams[id].user, true);
        addTags(tags.streams[of[n]].vrs, src.tags.streams[id].vrs, false);
      } else {
        StreamId out(id.getTypeId(), (uint16_t)(of.size() + 1));
        of.push_back(out);
        ids[k][id] = out;
        tags.streams[out] = src.tags.streams[id];
        flavors[out] = src.plain->getFlavor(id);
      }
    }
  }
  // records: the first of those with the same output stream, type and time
  struct Candidate {
    StreamId id;
    int64_t offset;
    Rec rec;
  };
  map<std::tuple<double, StreamId, Record::Type>, vector<Candidate>> records;
  size_t withRecords = 0, total = 0;
  for (size_t k = 0; k < count; k++) {
    Source& src = sources[k];
    vector<Info> selected = src.m.minTime > std::numeric_limits<double>::lowest() && src.m.anyAfterMin() ? src.m.preroll() : vector<Info>();
    if (src.m.minTime > src.m.maxTime) {
      selected.clear();
    }
    for (auto& i : src.m.range()) {
      selected.push_back(i);
    }
    Collector ref;
    for (auto id : src.m.streams) {
      src.plain->setStreamPlayer(id, &ref);
    }
    for (auto& i : selected) {
      REQUIRE_EQ(src.plain->readRecord(i), 0);
      Rec r = ref.records.back();
      r.id = ids[k][r.id];
      auto& cands = records[{i.timestamp, r.id, i.recordType}];
      Candidate cand{i.streamId, i.fileOffset, r};
      auto key = [](const Candidate& x) { return std::make_pair(x.id, x.offset); };
      if (!cands.empty() && key(cand) < key(cands.front())) {
        cands.clear();
      }
      if (cands.empty() || key(cand) == key(cands.front())) {
        cands.push_back(cand);
      }
    }
    total += selected.size();
    withRecords += !selected.empty();
  }
  if (s.chance(1, 4)) {
    string name = !tags.file.empty() && s.flip() ? tags.file.begin()->first : "o" + s.ident(4), value = s.anyText(20);
    options.getTagOverrider().fileTags[name] = value;
    tags.file[name] = value;
    if (!tags.streams.empty()) {
      StreamId id = tags.streams.begin()->first;
      options.getTagOverrider().streamTags[id]["over"] = value;
      tags.streams[id].user["over"] = value;
    }
  }
  std::set<string> paths;
  for (auto& src : sources) {
    paths.insert(src.path);
  }
  map<string, vector<Bytes>> contents;
  for (auto& p : paths) {
    contents[p] = damaged::slurpAll(damaged::chunkPathsOf(c.dir(), p.substr(p.rfind('/') + 1)));
  }
  string out = c.dir() + "/out.vrs";
  {
    TemporaryRecordableInstanceIdsResetter resetter;
    if (s.flip()) {
      vector<FilteredFileReader*> more;
      for (size_t k = 1; k < count; k++) {
        more.push_back(sources[k].f.get());
      }
      if (s.chance(1, 3)) {
        REQUIRE_EQ(filterMerge(*sources[0].f, more, out, options, std::make_unique<Delegate>(s.flip())), 0);
      } else {
        REQUIRE_EQ(filterMerge(*sources[0].f, more, out, options), 0);
      }
    } else {
      // (readers can't be moved)
      std::list<FilteredFileReader> more;
      for (size_t k = 1; k < count; k++) {
        auto& f = *sources[k].f;
        more.emplace_back(sources[k].path);
        REQUIRE_EQ(more.back().openFile(), 0);
        more.back().filter = f.filter;
      }
      REQUIRE_EQ(filterMerge(*sources[0].f, more, out, options), 0);
    }
  }
  REQUIRE_EQ((size_t)options.outRecordCopiedCount, records.size());
  RecordFileReader r;
  REQUIRE_EQ(r.openFile(out), 0);
  requireTags(r, tags);
  for (auto& f : flavors) {
    REQUIRE(f.second.empty() || r.getFlavor(f.first) == f.second); // or that of the streams merged into it
  }
  int rs = 0;
  vector<Rec> actual = readAll(r, rs);
  REQUIRE_EQ(rs, 0);
  REQUIRE_EQ(actual.size(), records.size());
  std::stable_sort(actual.begin(), actual.end(), [](const Rec& a, const Rec& b) {
    return std::make_tuple(a.ts, a.id, a.type) < std::make_tuple(b.ts, b.id, b.type);
  });
  size_t k = 0;
  for (auto& e : records) {
    bool found = false;
    for (auto& cand : e.second) {
      found = found || cand.rec.sameContent(actual[k]);
    }
    REQUIRE_MSG(found, "expected " << e.second.front().rec.str() << " found " << actual[k].str());
    k++;
  }
  for (auto& p : paths) {
    REQUIRE(contents[p] == damaged::slurpAll(damaged::chunkPathsOf(c.dir(), p.substr(p.rfind('/') + 1))));
  }
  c.label(options.mergeStreams ? "streams merged" : "streams kept");
  c.label("conflicting tags", conflicts);
  c.label("duplicates", records.size() < total);
  c.label("chunked output", r.getFileChunks().size() > 1);
  if (withRecords > 1 && (sameType || conflicts)) {
    string w = what.str();
    c.nontrivial(pbt::hashBytes(w.data(), w.size(), total * 7919 + records.size()));
  }
}
