// C20: filters select exactly the requested streams, types and times.
#include <vrs/utils/cli/CliParsing.h>
#include <vrs/utils/cli/DefaultDecimator.h>

#include "filtermodel.h"

using namespace filters;
using namespace vrs::utils;

PBT_TEST(
    select,
    24000,
    200000,
    "a recording with a random combination of stream, type, time (absolute, relative to the first or last data record, around a time), first record "
    "and custom filters, given by the command line options or by the functions: resolved time range, streams, records visited, pre-rolled and indexed, "
    "compared with a scan of the index; non-trivial: some of the 4 records or more are selected, some not; distinct by content and filter") {
  Recording rec;
  RecordingOptions opt;
  opt.maxStreams = 5;
  opt.maxOps = 50;
  opt.bigPayload = 300;
  opt.allowChunks = false;
  opt.allowThreads = false;
  opt.tags = false;
  opt.idGaps = true;
  opt.plainClock = true;
  opt.quietExtremes = true;
  opt.forceMode = s.flip() ? Mode::WriteToFile : (Mode)s.weighted({1, 1, 0, 1, 0, 1});
  record(s, c, rec, opt);
  REQUIRE_EQ(rec.status, 0);
  FilteredFileReader f;
  REQUIRE_EQ(f.setSource(rec.path), 0);
  REQUIRE(f.fileExists());
  // the filters' description needs the streams of the file
  RecordFileReader plain;
  REQUIRE_EQ(plain.openFile(rec.path), 0);
  const set<StreamId>& all = plain.getStreams();
  RecordFilterParams params;
  std::ostringstream what;
  std::optional<set<StreamId>> streams;
  vector<string> args;
  bool cli = s.flip();
  std::ostringstream config;
  for (size_t n = s.weighted({3, 4, 3, 2, 1}); n > 0; n--) {
    auto filter = genStreamFilter(s, plain);
    bool add = s.flip();
    what << (add ? "+" : "-") << filter.first << " ";
    config << (config.tellp() > 0 ? "," : "") << (add ? "+" : "-") << filter.first;
    applyStream(add, filter.second, all, streams);
    if (cli) {
      args.push_back(add ? "+" : "-");
      args.push_back(filter.first);
    } else if (s.flip()) {
      REQUIRE(add ? params.includeStream(filter.first) : params.excludeStream(filter.first));
    } else {
      // a list: each with its sign
      string arg = (add ? s.flip() ? "+" : "" : s.flip() ? "-" : "~") + filter.first;
      if (s.chance(1, 3)) {
        auto more = genStreamFilter(s, plain);
        bool addMore = s.flip();
        arg += string(s.flip() ? " ," : ", ") + (addMore ? "+" : "~") + more.first;
        config << (addMore ? ",+" : ",-") << more.first;
        applyStream(addMore, more.second, all, streams);
      }
      what << "[" << arg << "] ";
      REQUIRE(params.includeExcludeStream(arg));
    }
  }
  const set<Record::Type> kAll{Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA};
  std::optional<set<Record::Type>> types;
  for (size_t n = s.weighted({4, 4, 2, 1}); n > 0; n--) {
    size_t k = s.below(3);
    Record::Type type = k == 0 ? Record::Type::CONFIGURATION : k == 1 ? Record::Type::STATE : Record::Type::DATA;
    string name = k == 0 ? "configuration" : k == 1 ? "state" : "data";
    name = name.substr(0, 1 + s.below(name.size()));
    bool add = s.flip();
    what << (add ? "+" : "-") << name << " ";
    if (!types) {
      types = add ? set<Record::Type>() : kAll;
    }
    if (add) {
      types->insert(type);
    } else {
      types->erase(type);
    }
    if (cli) {
      args.push_back(add ? "+" : "-");
      args.push_back(name);
    } else {
      REQUIRE(add ? params.includeType(name) : params.excludeType(name));
    }
  }
  Model m;
  m.index = plain.getIndex();
  m.streams = streams ? *streams : all;
  m.types = types ? *types : kAll;
  // time constraints: values relative to something, as text
  double first = 0, last = 0;
  bool anyData = m.dataTimes(first, last);
  auto someTime = [&]() {
    double base = m.index.empty() ? 10 : m.index[s.below(m.index.size())].timestamp;
    return base + (s.chance(1, 2) ? 0 : 0.0625 * (double)s.range(-20, 20));
  };
  auto genBound = [&](double& value) {
    value = someTime();
    size_t kind = anyData ? s.weighted({4, 3, 3}) : 0;
    if (kind == 1 && value - first >= 0) {
      return "+" + num(value - first);
    }
    if (kind == 2 && value - last < 0) {
      return num(value - last);
    }
    if (value < 0 || (value == 0 && std::signbit(value))) {
      value = 0; // a negative value would be relative
    }
    return num(value);
  };
  auto set1 = [&](bool isMin, const string& text) {
    if (cli) {
      args.push_back(isMin ? "--after" : "--before");
      args.push_back(text);
    } else if (s.flip()) {
      REQUIRE(isMin ? f.afterConstraint(text) : f.beforeConstraint(text));
    } else {
      bool rel = text[0] == '+' || text[0] == '-';
      isMin ? f.setMinTime(std::stod(text), rel) : f.setMaxTime(std::stod(text), rel);
    }
    what << (isMin ? ">" : "<=") << text << " ";
  };
  size_t timeKind = s.weighted({2, 2, 2, 3, 2});
  if (timeKind == 1) {
    set1(true, genBound(m.minTime));
  } else if (timeKind == 2) {
    set1(false, genBound(m.maxTime));
  } else if (timeKind == 3) {
    string low = genBound(m.minTime), high = genBound(m.maxTime);
    if (m.minTime > m.maxTime && !s.chance(1, 8)) {
      std::swap(low, high);
      std::swap(m.minTime, m.maxTime);
    }
    if (cli && s.flip()) {
      args.push_back("--range");
      args.push_back(low);
      args.push_back(high);
      what << "range " << low << " " << high << " ";
    } else {
      set1(true, low);
      set1(false, high);
    }
  } else if (timeKind == 4) {
    double center = 0, range = 0.125 * (double)s.draw(60);
    string text = genBound(center);
    m.minTime = center - range / 2;
    m.maxTime = center + range / 2;
    what << "around " << text << " " << range << " ";
    if (cli) {
      args.push_back("--around");
      args.push_back(text);
      args.push_back(num(range));
    } else {
      f.filter.minTime = std::stod(text);
      f.filter.relativeMinTime = text[0] == '+' || text[0] == '-';
      f.filter.maxTime = range;
      f.filter.aroundTime = true;
    }
  }
  if (s.chance(1, 5)) {
    m.firstOnly = true;
    what << "first-only ";
    if (cli) {
      args.push_back(s.flip() ? "-1" : "--first-records");
    } else {
      f.firstRecordsOnly = true;
    }
  }
  if (cli) {
    // options' order: only that of filters of a same kind matters
    vector<char*> argv;
    for (auto& a : args) {
      argv.push_back(const_cast<char*>(a.c_str()));
    }
    for (int k = 0; k < (int)argv.size(); k++) {
      int status = 0;
      REQUIRE(parseTimeAndStreamFilters("test", argv[k], k, (int)argv.size(), argv.data(), status, f, params));
      REQUIRE_EQ(status, 0);
    }
  }
  c.note(what.str());
  if (config.tellp() > 0) {
    REQUIRE_EQ(params.getStreamFiltersConfiguration("streams"), "streams=[" + config.str() + "]");
  } else {
    REQUIRE_EQ(params.getStreamFiltersConfiguration("streams"), string());
  }
  if (s.chance(1, 4)) { // filters are replaced by those applied last
    RecordFilterParams before;
    for (size_t n = s.draw(2); n > 0; n--) {
      auto filter = genStreamFilter(s, plain);
      REQUIRE(s.flip() ? before.includeStream(filter.first) : before.excludeStream(filter.first));
    }
    if (s.flip()) {
      REQUIRE(s.flip() ? before.includeType("data") : before.excludeType("state"));
    }
    REQUIRE_EQ(f.openFile(before), 0);
    f.applyFilters(params);
  } else {
    REQUIRE_EQ(f.openFile(params), 0);
  }
  REQUIRE(f.reader.getIndex() == m.index);
  REQUIRE(f.filter.streams == m.streams);
  REQUIRE(f.filter.types == m.types);
  set<StreamId> included;
  params.getIncludedStreams(f.reader, included);
  REQUIRE(included == m.streams);
  auto optionalIncluded = params.getIncludedStreams(f.reader);
  REQUIRE_EQ(optionalIncluded != nullptr, streams.has_value());
  REQUIRE(!optionalIncluded || *optionalIncluded == m.streams);
  // time range
  double start = 0, end = 0;
  if (anyData) {
    f.getTimeRange(start, end);
    REQUIRE_EQ(start, first);
    REQUIRE_EQ(end, last);
  }
  vector<Info> expected;
  bool valid = m.minTime <= m.maxTime;
  if (valid) {
    expected = m.range();
  }
  bool preRolled = timeKind == 1 || timeKind >= 3;
  vector<Info> expectedPre = valid && preRolled ? m.preroll() : vector<Info>();
  bool unspecifiedPre = !m.anyAfterMin();
  FilteredFileReader copy(rec.path); // for iterateSafe
  copy.filter.copyTimeConstraints(f.filter);
  copy.firstRecordsOnly = m.firstOnly;
  REQUIRE_EQ(copy.openFile(params), 0);
  f.getConstrainedTimeRange(start, end);
  REQUIRE_EQ(f.filter.minTime, m.minTime);
  REQUIRE_EQ(f.filter.maxTime, m.maxTime);
  REQUIRE(f.timeRangeValid() == (valid || m.index.empty()));
  if (anyData) {
    REQUIRE_EQ(start, std::max(first, m.minTime));
    REQUIRE_EQ(end, std::min(last, m.maxTime));
  }
  // visit
  vector<Info> seen;
  auto collect = [&](RecordFileReader& r, const Info& i) {
    REQUIRE(&r == &f.reader);
    seen.push_back(i);
    return true;
  };
  f.iterateAdvanced(collect);
  requireSame(expected, seen, "visited");
  seen.clear();
  f.preRollConfigAndState(collect);
  if (!unspecifiedPre) {
    requireSame(expectedPre, seen, "pre-rolled");
  }
  expectedPre = seen;
  // index
  auto index = f.buildIndex();
  vector<Info> both = expectedPre;
  both.insert(both.end(), expected.begin(), expected.end());
  REQUIRE_EQ(index->size(), both.size());
  for (size_t k = 0; k < both.size(); k++) {
    auto& d = (*index)[k];
    REQUIRE_EQ(d.timestamp + 0., both[k].timestamp);
    REQUIRE(d.getStreamId() == both[k].streamId);
    REQUIRE(d.getRecordType() == both[k].recordType);
  }
  // reading to the stream players
  vector<Rec> bothRead;
  {
    Collector ref;
    for (auto id : all) {
      plain.setStreamPlayer(id, &ref);
    }
    for (auto& i : both) {
      REQUIRE_EQ(plain.readRecord(i), 0);
    }
    bothRead = ref.records;
  }
  Collector col;
  for (auto id : all) {
    copy.reader.setStreamPlayer(id, &col);
  }
  REQUIRE_EQ((size_t)copy.iterateSafe(), expected.size());
  requireSameRecords(bothRead, col.records, "iterateSafe");
  // stopping early, and custom filter
  if (!expected.empty()) {
    size_t stop = 1 + s.below(expected.size());
    seen.clear();
    f.iterateAdvanced([&](RecordFileReader&, const Info& i) {
      seen.push_back(i);
      return seen.size() < stop;
    });
    requireSame(vector<Info>(expected.begin(), expected.begin() + stop), seen, "stopped");
    uint64_t salt = s.u64();
    auto skip = [salt](const Info& i) { return (pbt::mix64((uint64_t)i.fileOffset ^ salt) & 3) == 0; };
    f.skipRecordFilter = skip;
    seen.clear();
    f.iterateAdvanced(collect);
    vector<Info> kept;
    for (auto& i : expected) {
      if (!skip(i)) {
        kept.push_back(i);
      }
    }
    requireSame(kept, seen, "custom filter");
  }
  c.label(timeKind == 0 ? "all times" : timeKind == 4 ? "around" : timeKind == 3 ? "range" : "half range");
  if (cli) {
    c.label("command line");
  }
  if (!expectedPre.empty()) {
    c.label("pre-roll");
  }
  if (!valid) {
    c.label("empty range");
  }
  if (m.index.size() >= 4 && !expected.empty() && expected.size() < m.index.size()) {
    c.nontrivial(pbt::hashBytes(what.str().data(), what.str().size(), m.index.size() * 7919 + expected.size()));
  }
}

PBT_TEST(
    decimate,
    24000,
    200000,
    "a recording decimated by intervals per stream, or in buckets: data records visited compared with the definition: for intervals, the first, and "
    "then those at least an interval after the last kept; in buckets at regular intervals, the closest record of each stream within the max delta; all "
    "config and state records kept; non-trivial: some data records kept and some dropped, in 2 buckets or more; distinct by content and parameters") {
  Recording rec;
  RecordingOptions opt;
  opt.maxStreams = 4;
  opt.maxOps = 80;
  opt.bigPayload = 100;
  opt.allowModes = false;
  opt.allowThreads = false;
  opt.tags = false;
  opt.idGaps = true;
  opt.plainClock = true;
  opt.quietExtremes = true;
  record(s, c, rec, opt);
  REQUIRE_EQ(rec.status, 0);
  FilteredFileReader f(rec.path);
  RecordFileReader plain;
  REQUIRE_EQ(plain.openFile(rec.path), 0);
  RecordFilterParams params;
  std::ostringstream what;
  Model m;
  m.index = plain.getIndex();
  m.streams = plain.getStreams();
  m.types = {Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA};
  if (s.chance(1, 4)) {
    auto filter = genStreamFilter(s, plain);
    REQUIRE(params.includeStream(filter.first));
    m.streams = filter.second;
    what << "+" << filter.first << " ";
  }
  if (s.chance(1, 4) && !m.index.empty()) {
    m.minTime = std::max(0., m.index[s.below(m.index.size())].timestamp);
    f.setMinTime(m.minTime, false);
    what << ">" << m.minTime << " ";
  }
  REQUIRE_EQ(f.openFile(params), 0);
  vector<string> args;
  map<StreamId, double> intervals;
  double interval = 0, delta = 1.0 / 30;
  bool buckets = s.flip();
  bool byInterval = !buckets || s.chance(1, 6);
  if (buckets) {
    interval = 0.125 * (double)(1 + s.draw(s.flip() ? 8 : 40));
    args.insert(args.end(), {"--bucket-interval", num(interval)});
    if (s.chance(4, 5)) {
      delta = s.chance(1, 3) ? interval / 2 : 0.0625 * (double)s.draw(24);
      args.insert(args.end(), {"--bucket-max-delta", num(delta)});
    }
  }
  if (byInterval) {
    for (size_t n = 1 + s.draw(2); n > 0; n--) {
      auto filter = genStreamFilter(s, plain);
      double v = 0.125 * (double)s.draw(24);
      args.insert(args.end(), {"--decimate", filter.first, num(v)});
      for (auto id : filter.second) {
        intervals[id] = v;
      }
    }
  }
  std::unique_ptr<DefaultDecimator::Params> decimation;
  vector<char*> argv;
  for (auto& a : args) {
    what << a << " ";
    argv.push_back(const_cast<char*>(a.c_str()));
  }
  c.note(what.str());
  for (int k = 0; k < (int)argv.size(); k++) {
    int status = 0;
    REQUIRE(parseDecimationOptions("test", argv[k], k, (int)argv.size(), argv.data(), status, decimation));
    REQUIRE_EQ(status, 0);
  }
  REQUIRE(decimation != nullptr);
  decimation->decimate(f);
  // model
  vector<Info> selected = m.range(), expected;
  size_t dropped = 0, kept = 0;
  size_t bucketCount = 0;
  if (!intervals.empty()) {
    map<StreamId, double> lastKept;
    for (auto& r : selected) {
      auto i = intervals.find(r.streamId);
      if (r.recordType == Record::Type::DATA && i != intervals.end()) {
        auto l = lastKept.find(r.streamId);
        if (l != lastKept.end() && r.timestamp - l->second < i->second) {
          dropped++;
          continue;
        }
        lastKept[r.streamId] = r.timestamp;
        kept++;
      }
      expected.push_back(r);
    }
  } else if (buckets) {
    std::optional<double> origin;
    // candidates, per bucket & stream
    map<std::pair<int64_t, StreamId>, Info> best;
    set<int64_t> used;
    for (auto& r : selected) {
      if (r.recordType != Record::Type::DATA) {
        expected.push_back(r);
        continue;
      }
      if (!origin) {
        origin = r.timestamp;
      }
      // the first bucket that isn't over at that time
      auto n = (int64_t)std::max(0., std::ceil((r.timestamp - *origin - delta) / interval));
      double off = std::abs(r.timestamp - *origin - (double)n * interval);
      if (off > delta) {
        dropped++;
        continue;
      }
      auto it = best.find({n, r.streamId});
      if (it == best.end()) {
        best[{n, r.streamId}] = r;
      } else {
        dropped++;
        if (off < std::abs(it->second.timestamp - *origin - (double)n * interval)) {
          it->second = r;
        }
      }
      used.insert(n);
    }
    for (auto& b : best) {
      expected.push_back(b.second);
      kept++;
    }
    bucketCount = used.size();
  } else {
    expected = selected;
  }
  for (int twice = 0; twice < 2; twice++) {
    vector<Info> seen;
    f.iterateAdvanced([&](RecordFileReader&, const Info& i) {
      seen.push_back(i);
      return true;
    });
    // the records of a bucket are only known when it ends
    vector<Info> a = expected, b = seen;
    if (intervals.empty()) {
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
    }
    requireSame(a, b, "decimated");
  }
  c.label(intervals.empty() ? buckets ? "buckets" : "no stream" : "intervals");
  if (kept > 0 && dropped > 0 && (!intervals.empty() || bucketCount > 1)) {
    c.nontrivial(pbt::hashBytes(what.str().data(), what.str().size(), m.index.size() * 7919 + kept));
  }
}
