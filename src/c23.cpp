// C23: verification and comparison tools see every difference.
#include <cmath>

#include <fmt/format.h>
#include <xxhash.h>

#include <vrs/FileSpec.h>
#include <vrs/utils/Validation.h>
#include <vrs/utils/xxhash/xxhash.h>

#include "copyoptions.h"
#include "damaged.h"

using namespace copies;

namespace {

struct StreamC {
  RecordableTypeId type = RecordableTypeId::UnitTest1;
  string flavor;
  map<string, string> vrs, user;
  vector<Rec> recs;
};
struct Content {
  map<string, string> tags;
  vector<StreamC> streams;
};

string tagText(pbt::Src& s) {
  static const char* kPieces[] = {"a", "b", "=", "/", "c=d", "/e", "", " "};
  string r;
  for (size_t n = s.below(4); n > 0; n--) {
    r += s.pick(kPieces);
  }
  return r;
}
string tagName(pbt::Src& s) {
  static const char* kNames[] = {"a", "b", "c", "a=b", "d/"};
  return s.pick(kNames);
}

Rec genRec(pbt::Src& s, size_t big) {
  Rec r;
  r.type = s.pick<Record::Type, 3>({Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE});
  r.ts = 0.5 * (double)s.draw(10);
  r.version = (uint32_t)s.draw(2);
  r.data = s.bytes(s.chance(1, 6) ? s.size(big) : s.draw(12));
  return r;
}

Content genContent(pbt::Src& s, size_t big) {
  Content c;
  for (size_t n = s.draw(2); n > 0; n--) {
    c.tags[tagName(s)] = tagText(s);
  }
  for (size_t n = s.draw(3); n > 0; n--) {
    StreamC st;
    st.type = s.flip() ? RecordableTypeId::UnitTest1 : RecordableTypeId::UnitTest2;
    if (s.flip()) {
      st.flavor = "fl" + s.ident(3);
    }
    st.vrs["VRS_Serial_Number"] = std::to_string(s.draw(1000));
    for (size_t k = s.draw(1); k > 0; k--) {
      st.vrs["x" + tagName(s)] = tagText(s);
    }
    for (size_t k = s.draw(2); k > 0; k--) {
      st.user[tagName(s)] = tagText(s);
    }
    for (size_t k = s.size(12); k > 0; k--) {
      st.recs.push_back(genRec(s, big));
    }
    c.streams.push_back(st);
  }
  return c;
}

void editTags(pbt::Src& s, map<string, string>& tags) {
  if (s.chance(1, 3)) {
    // one tag looking like two, and the reverse
    for (auto& t : tags) {
      size_t slash = t.second.find('/'), equal = t.second.find('=', slash);
      if (slash != string::npos && equal != string::npos) {
        string name = t.second.substr(slash + 1, equal - slash - 1), value = t.second.substr(equal + 1);
        tags[t.first] = t.second.substr(0, slash);
        tags[name] = value;
        return;
      }
    }
  }
  if (tags.empty() || s.chance(1, 3)) {
    tags[tagName(s)] = tagText(s);
  } else {
    auto it = tags.begin();
    std::advance(it, s.below(tags.size()));
    if (s.flip()) {
      it->second += s.flip() ? "x" : "=";
    } else {
      tags.erase(it);
    }
  }
}

/// Returns a description of the difference introduced
string mutate(pbt::Src& s, Content& c) {
  size_t k = s.below(12);
  if (k == 0) {
    editTags(s, c.tags);
    return "file tags";
  }
  if (k == 1 || c.streams.empty()) {
    StreamC st;
    st.type = s.flip() ? RecordableTypeId::UnitTest1 : RecordableTypeId::UnitTest2;
    st.vrs["VRS_Serial_Number"] = "1";
    size_t pos = s.below(c.streams.size() + 1);
    c.streams.insert(c.streams.begin() + (std::ptrdiff_t)pos, st);
    return "stream added";
  }
  StreamC& st = c.streams[s.below(c.streams.size())];
  if (k == 2) {
    editTags(s, s.flip() ? st.user : st.vrs);
    return "stream tags";
  }
  if (k == 3) {
    if (s.flip()) {
      c.streams.erase(c.streams.begin() + (&st - c.streams.data()));
      return "stream removed";
    }
    st.type = st.type == RecordableTypeId::UnitTest1 ? RecordableTypeId::UnitTest2 : RecordableTypeId::UnitTest1;
    return "stream type";
  }
  if (k == 4 || st.recs.empty()) {
    Rec r = st.recs.empty() || s.flip() ? genRec(s, 50) : s.pick(st.recs);
    st.recs.insert(st.recs.begin() + (std::ptrdiff_t)s.below(st.recs.size() + 1), r);
    return "record added";
  }
  Rec& r = st.recs[s.below(st.recs.size())];
  switch (k) {
    case 5:
      st.recs.erase(st.recs.begin() + (&r - st.recs.data()));
      return "record removed";
    case 6:
      r.ts += s.flip() ? 0.5 : 1e-9;
      return "time";
    case 7:
      r.type = r.type == Record::Type::DATA ? Record::Type::STATE : Record::Type::DATA;
      return "type";
    case 8:
      r.version += 1;
      return "version";
    case 9: {
      Rec& o = st.recs[s.below(st.recs.size())];
      std::swap(r.data, o.data);
      return "contents swapped";
    }
    case 10: {
      StreamC& to = c.streams[s.below(c.streams.size())];
      Rec copy = r;
      st.recs.erase(st.recs.begin() + (&r - st.recs.data()));
      to.recs.push_back(copy);
      return "record moved to the end of another stream";
    }
    default:
      break;
  }
  if (r.data.empty() || s.chance(1, 4)) {
    r.data.push_back((uint8_t)s.draw(255));
    return "byte added";
  }
  if (s.chance(1, 4)) {
    r.data.pop_back();
    return "byte removed";
  }
  size_t at = s.chance(1, 3) ? r.data.size() - 1 : s.below(r.data.size());
  r.data[at] ^= (uint8_t)(1 << s.draw(7));
  return "bit changed";
}

bool write(pbt::Src& s, const Content& content, const string& path) {
  RecordFileWriter writer;
  std::vector<std::unique_ptr<GenStream>> streams, others;
  for (auto& t : content.tags) {
    writer.setTag(t.first, t.second);
  }
  for (auto& st : content.streams) {
    if (s.chance(1, 4)) {
      others.push_back(std::make_unique<GenStream>(st.type, "", nullptr)); // not recorded: a gap in instance ids
    }
    streams.push_back(std::make_unique<GenStream>(st.type, st.flavor, nullptr));
    GenStream& g = *streams.back();
    g.withConfig = g.withState = false;
    StreamTags tags;
    tags.vrs = st.vrs;
    tags.user = st.user;
    g.addTags(tags);
    g.setCompression(genPreset(s));
    writer.addRecordable(&g);
  }
  bool chunked = s.chance(1, 3);
  size_t mode = s.below(2);
  if (chunked) {
    writer.setMaxChunkSizeMB(1);
  }
  if (s.chance(1, 3)) {
    writer.setCompressionThreadPoolSize(2);
  }
  if (mode == 1) {
    REQUIRE_EQ(writer.createFileAsync(path), 0);
  }
  for (size_t k = 0; k < content.streams.size(); k++) {
    for (auto& r : content.streams[k].recs) {
      streams[k]->make(r.ts, r.type, r.version, r.data, (Feed)s.draw((uint64_t)Feed::COUNT - 1), s.draw(50), s.draw(50));
    }
  }
  if (mode == 1) {
    REQUIRE_EQ(writer.closeFileAsync(), 0);
    REQUIRE_EQ(writer.waitForFileClosed(), 0);
  } else {
    REQUIRE_EQ(writer.writeToFile(path), 0);
  }
  return chunked;
}

/// What's selected in a file
struct Selected {
  map<string, string> tags;
  struct Stream {
    StreamId id;
    StreamTags tags;
    vector<Rec> recs; // pre-roll included
  };
  vector<Stream> streams;
  vector<std::pair<RecordableTypeId, size_t>> ids;
  size_t count = 0; // without pre-roll
  bool readable = true;
  size_t readBefore = 0; // records read until an error
};

struct Filter {
  set<Record::Type> types = {Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA};
  bool lessStreams = false;
  RecordableTypeId lessType = RecordableTypeId::UnitTest1;
  double minTime = std::numeric_limits<double>::lowest(), maxTime = std::numeric_limits<double>::max();
};

Filter genFilter(pbt::Src& s, std::ostringstream& what) {
  Filter f;
  if (s.chance(1, 3)) {
    f.types.erase(s.pick<Record::Type, 3>({Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE}));
    what << "types ";
  }
  if (s.chance(1, 4)) {
    f.lessStreams = true;
    f.lessType = s.flip() ? RecordableTypeId::UnitTest1 : RecordableTypeId::UnitTest2;
    what << "streams ";
  }
  if (s.chance(1, 3)) {
    f.minTime = 0.5 * (double)s.draw(8);
    what << ">" << f.minTime << " ";
  }
  if (s.chance(1, 4)) {
    f.maxTime = std::max(f.minTime, 0.5 * (double)s.draw(10));
    what << "<=" << f.maxTime << " ";
  }
  return f;
}

Selected select(const string& path, const Filter& filter) {
  Selected res;
  RecordFileReader r;
  REQUIRE_EQ(r.openFile(path), 0);
  res.tags = r.getTags();
  Model m;
  m.index = r.getIndex();
  m.types = filter.types;
  m.minTime = filter.minTime;
  m.maxTime = filter.maxTime;
  map<RecordableTypeId, size_t> last;
  Collector collector;
  map<StreamId, size_t> pos;
  for (auto id : r.getStreams()) {
    if (!filter.lessStreams || id.getTypeId() != filter.lessType) {
      m.streams.insert(id);
      pos[id] = res.streams.size();
      Selected::Stream st;
      st.id = id;
      st.tags = r.getTags(id);
      res.streams.push_back(st);
      res.ids.emplace_back(id.getTypeId(), ++last[id.getTypeId()]);
      r.setStreamPlayer(id, &collector);
    }
  }
  vector<Info> infos = m.minTime > std::numeric_limits<double>::lowest() && m.anyAfterMin() ? m.preroll() : vector<Info>();
  for (auto& i : infos) {
    r.readRecord(i);
  }
  infos = m.range();
  res.count = infos.size();
  for (auto& i : infos) {
    if (res.readable) {
      res.readBefore++;
      res.readable = r.readRecord(i) == 0;
    }
  }
  for (auto& rec : collector.records) {
    res.streams[pos[rec.id]].recs.push_back(rec);
  }
  return res;
}

void apply(FilteredFileReader& f, const string& path, const Filter& filter) {
  REQUIRE_EQ(f.setSource(path), 0);
  RecordFilterParams params;
  for (auto t : {Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA}) {
    if (filter.types.count(t) == 0) {
      params.excludeType(t == Record::Type::CONFIGURATION ? "configuration" : t == Record::Type::STATE ? "state" : "data");
    }
  }
  if (filter.lessStreams) {
    params.excludeStream(std::to_string((int)filter.lessType));
  }
  if (filter.minTime > std::numeric_limits<double>::lowest()) {
    f.setMinTime(filter.minTime, false);
  }
  if (filter.maxTime < std::numeric_limits<double>::max()) {
    f.setMaxTime(filter.maxTime, false);
  }
  REQUIRE_EQ(f.openFile(params), 0);
}

bool sameHeader(const Rec& a, const Rec& b) {
  return a.ts == b.ts && a.type == b.type && a.version == b.version && a.data.size() == b.data.size();
}
bool sameHeaders(const vector<Rec>& a, const vector<Rec>& b) {
  if (a.size() != b.size()) {
    return false;
  }
  for (size_t k = 0; k < a.size(); k++) {
    if (!sameHeader(a[k], b[k])) {
      return false;
    }
  }
  return true;
}
Bytes payload(const vector<Rec>& v) {
  Bytes b;
  for (auto& r : v) {
    b.insert(b.end(), r.data.begin(), r.data.end());
  }
  return b;
}
vector<Rec> byType(vector<Rec> v) {
  std::stable_sort(v.begin(), v.end(), [](const Rec& a, const Rec& b) { return a.ts != b.ts ? a.ts < b.ts : a.type < b.type; });
  return v;
}
bool equivalent(const Selected& a, const Selected& b) {
  if (a.tags != b.tags || a.ids != b.ids) {
    return false;
  }
  for (size_t k = 0; k < a.streams.size(); k++) {
    auto &x = a.streams[k], &y = b.streams[k];
    // the order of records of different types at the same time is irrelevant
    auto rx = byType(x.recs), ry = byType(y.recs);
    if (x.tags.vrs != y.tags.vrs || x.tags.user != y.tags.user || !sameHeaders(rx, ry) || payload(rx) != payload(ry)) {
      return false;
    }
  }
  return true;
}

string digestOf(const string& json, const string& key) {
  string k = "\"" + key + "\":\"";
  size_t p = json.find(k);
  REQUIRE_MSG(p != string::npos, "no " << key << " in " << json);
  string r = json.substr(p + k.size(), 17);
  REQUIRE_MSG(r.size() == 17 && r[16] == '"' && r.find_first_not_of("0123456789abcdef") == 16, key << " in " << json);
  r.pop_back();
  return r;
}

string concat(const map<string, string>& tags) {
  string r;
  for (auto& t : tags) {
    r += t.first + '=' + t.second + '/';
  }
  return r;
}

} // namespace

PBT_TEST(
    compareContent,
    20000,
    200000,
    "two recordings of 0-3 streams written with different compressions, chunks and threads, the second with 0-2 differences (records, tags, streams), "
    "maybe filtered: comparison both ways, and every checksum, against those of the generated contents; non-trivial: 4 records or more; distinct by "
    "contents") {
  std::ostringstream what;
  bool big = s.chance(1, 60);
  Content a = genContent(s, big ? 600000 : 2000), b = a;
  size_t differences = s.weighted({2, 5, 1});
  for (size_t k = 0; k < differences; k++) {
    what << mutate(s, b) << ", ";
  }
  bool chunkedA = write(s, a, c.dir() + "/a.vrs"), chunkedB = write(s, b, c.dir() + "/b.vrs");
  Filter fa, fb;
  if (s.chance(1, 3)) {
    fa = genFilter(s, what);
    what << "| ";
    fb = s.chance(1, 4) ? genFilter(s, what) : fa;
  }
  c.note(what.str());
  Selected sa = select(c.dir() + "/a.vrs", fa), sb = select(c.dir() + "/b.vrs", fb);
  REQUIRE(sa.readable && sb.readable);
  bool same = equivalent(sa, sb);
  FilteredFileReader ra, rb;
  apply(ra, c.dir() + "/a.vrs", fa);
  apply(rb, c.dir() + "/b.vrs", fb);
  CopyOptions options(false);
  REQUIRE_EQ_MSG(compareVRSfiles(ra, rb, options), same, "comparing: " << what.str());
  REQUIRE_EQ_MSG(compareVRSfiles(rb, ra, options), same, "comparing the other way: " << what.str());
  // nothing left behind by the comparison
  REQUIRE_EQ((size_t)rb.iterateSafe(), sb.count);

  // checksums
  CopyOptions json(false);
  json.jsonOutput = true;
  string ja = checkRecords(ra, json, CheckType::Checksums), jb = checkRecords(rb, json, CheckType::Checksums);
  string sumA = checkRecords(ra, options, CheckType::Checksum), sumB = checkRecords(rb, options, CheckType::Checksum);
  bool allSame = true;
  auto compare = [&](const string& keyA, const string& keyB, bool expected, const string& name) {
    bool equal = digestOf(ja, keyA) == digestOf(jb, keyB);
    REQUIRE_MSG(equal == expected, name << " checksums are " << (equal ? "equal" : "different") << ": " << what.str());
    allSame = allSame && expected;
  };
  auto compareTags = [&](const string& keyA, const string& keyB, const map<string, string>& ta, const map<string, string>& tb, const string& name) {
    bool equal = ta == tb;
    if (!equal && concat(ta) == concat(tb) && c.known("tags-checksum-ambiguous")) {
      equal = true;
    }
    compare(keyA, keyB, equal, name);
  };
  compareTags("filetags", "filetags", sa.tags, sb.tags, "file tags");
  for (size_t k = 0; k < std::min(sa.streams.size(), sb.streams.size()); k++) {
    auto &x = sa.streams[k], &y = sb.streams[k];
    string p = x.id.getNumericName(), q = y.id.getNumericName();
    compareTags(p + "_vrstags", q + "_vrstags", x.tags.vrs, y.tags.vrs, "vrs tags");
    compareTags(p + "_usertags", q + "_usertags", x.tags.user, y.tags.user, "user tags");
    // headers name the stream
    compare(p + "_headers", q + "_headers", sameHeaders(x.recs, y.recs) && (sa.ids[k] == sb.ids[k] || (x.recs.empty() && y.recs.empty())), "headers");
    compare(p + "_payload", q + "_payload", payload(x.recs) == payload(y.recs), "payload");
  }
  allSame = allSame && sa.ids == sb.ids;
  REQUIRE_EQ_MSG(sumA == sumB, allSame, "checksum: " << what.str());
  REQUIRE_EQ(digestOf(ja, "checksum"), sumA);
  REQUIRE_EQ((size_t)std::count(ja.begin(), ja.end(), ':'), 2 + 4 * sa.streams.size());
  string text = checkRecords(rb, options, CheckType::Checksums);
  REQUIRE(text.size() > 16 && text.substr(text.size() - 16) == sumB);
  REQUIRE_EQ((size_t)std::count(text.begin(), text.end(), '\n'), 1 + 4 * sb.streams.size());
  REQUIRE(checkRecords(rb, options, CheckType::Check).find("Checked " + std::to_string(sb.count) + " records in ") == 0);
  if (fa.types.size() == 3 && !fa.lessStreams && fa.minTime < 0 && fa.maxTime > 1e9) {
    REQUIRE_EQ(recordsChecksum(c.dir() + "/a.vrs", false), sumA);
  }
  c.label("equal", same);
  c.label("chunked", chunkedA && chunkedB);
  if (sa.count >= 4) {
    c.nontrivial(digestOf(ja, "checksum") + sumB);
  }
}

PBT_TEST(
    checkDamaged,
    15000,
    150000,
    "a recording of any kind with bytes overwritten, checked with filters: the check fails exactly when a selected record can't be read; non-trivial: "
    "damage in the middle of 3 records or more; distinct by damage") {
  std::ostringstream what;
  Content a = genContent(s, 2000);
  string path = c.dir() + "/a.vrs";
  write(s, a, path);
  auto chunks = damaged::chunkPathsOf(c.dir(), "a.vrs");
  Bytes b = damaged::slurp(chunks.back());
  size_t edits = s.draw(2);
  for (size_t k = 0; k < edits; k++) {
    size_t at = s.below(b.size());
    b[at] = (uint8_t)s.draw(255);
    what << at << ":" << (int)b[at] << " ";
  }
  damaged::spit(chunks.back(), b, b.size() - (s.chance(1, 6) ? s.below(std::min<size_t>(b.size(), 200)) : 0));
  Filter filter = s.chance(1, 4) ? genFilter(s, what) : Filter();
  c.note(what.str());
  {
    RecordFileReader r;
    if (r.openFile(path) != 0) {
      REQUIRE(recordsChecksum(path, false).find("Error ") == 0);
      throw pbt::Discard{};
    }
    for (auto& i : r.getIndex()) {
      if (std::isnan(i.timestamp)) {
        throw pbt::Discard{}; // not a time: never equal, nor in a range
      }
    }
  }
  Selected sel = select(path, filter);
  FilteredFileReader f;
  apply(f, path, filter);
  CopyOptions text(false), json(false);
  json.jsonOutput = true;
  string ok = "Checked " + std::to_string(sel.count) + " records in ", failed = "Failure! Checked " + std::to_string(sel.readBefore) + " records out of ";
  string t = checkRecords(f, text, CheckType::Check), j = checkRecords(f, json, CheckType::Check), sum = checkRecords(f, text, CheckType::Checksum);
  REQUIRE_MSG(t.find(sel.readable ? ok : failed) == 0, t);
  REQUIRE_MSG((t.find("no errors") != string::npos) == sel.readable, t);
  REQUIRE_MSG(j.find(sel.readable ? "\"good_file\":true" : "\"good_file\":false") != string::npos, j);
  REQUIRE_MSG((sum.size() == 16) == sel.readable, sum);
  FilteredFileReader again;
  apply(again, path, filter);
  bool self = compareVRSfiles(f, again, text);
  REQUIRE(sel.readable || !self);
  c.label("unreadable", !sel.readable);
  if (edits > 0 && sel.count >= 3) {
    c.nontrivial(what.str());
  }
}

PBT_TEST(
    compareBytes,
    9000,
    90000,
    "two files of random bytes, each in 1-4 chunks, differing by nothing, some bytes anywhere, or their sizes: byte comparisons, checksums, and pieces given "
    "to the digester, against the bytes; non-trivial: 100 bytes or more; distinct by content") {
  size_t n = s.chance(1, 60) ? (4 << 20) + s.below(5 << 20) - 1000 : s.chance(1, 4) ? s.below(3000) : s.size(40000);
  Bytes a = s.bytes(n), b = a;
  std::ostringstream what;
  what << n << " bytes ";
  switch (s.weighted({2, 3, 1, 1})) {
    case 1:
      for (size_t k = 1 + s.draw(3); k > 0 && n > 0; k--) {
        size_t at = s.chance(1, 3) ? n - 1 - s.below(std::min<size_t>(n, 20)) : s.below(n);
        b[at] ^= (uint8_t)(1 + s.draw(254));
        what << at << " ";
      }
      break;
    case 2:
      if (s.flip()) {
        b.push_back(0);
      } else if (n > 0) {
        b.pop_back();
      }
      break;
    case 3:
      for (size_t at = s.below(n + 1), k = s.below(700); at < n && k > 0; at++, k--) {
        b[at] ^= 0x55;
      }
      break;
    default:
      break;
  }
  c.note(what.str());
  auto save = [&](const Bytes& bytes, const string& name) {
    FileSpec spec;
    spec.fileHandlerName = "diskfile";
    size_t pieces = 1 + s.draw(3), done = 0;
    for (size_t k = 0; k < pieces; k++) {
      size_t end = k + 1 == pieces ? bytes.size() : done + s.below(bytes.size() - done + 1);
      string p = c.dir() + "/" + name + std::to_string(k);
      Bytes part(bytes.begin() + (std::ptrdiff_t)done, bytes.begin() + (std::ptrdiff_t)end);
      damaged::spit(p, part, part.size());
      if (!part.empty() || k == 0) {
        spec.chunks.push_back(p);
      }
      done = end;
    }
    return spec;
  };
  FileSpec sa = save(a, "a"), sb = save(b, "b");
  REQUIRE_EQ_MSG(compareVerbatim(sa, sb, false), a == b, what.str());
  REQUIRE_EQ_MSG(compareVerbatim(sb, sa, false), a == b, what.str());
  string da = verbatimChecksum(sa.toJson(), false), db = verbatimChecksum(sb.toJson(), false);
  REQUIRE_EQ(da.size(), (size_t)16);
  REQUIRE_EQ_MSG(da == db, a == b, what.str());
  XXH64Digester digester;
  size_t done = 0;
  while (done < n) {
    size_t piece = std::min<size_t>(n - done, 1 + s.size(n));
    digester.ingest(a.data() + done, piece);
    done += piece;
  }
  REQUIRE_EQ(digester.digestToString(), da); // a digester is used once
  REQUIRE_EQ(da, fmt::format("{:016x}", (uint64_t)XXH64(a.data(), a.size(), 0)));
  c.label("same", a == b);
  if (n >= 100) {
    c.nontrivial(pbt::hashBytes(a.data(), a.size(), pbt::hashBytes(b.data(), b.size(), 1)));
  }
}
