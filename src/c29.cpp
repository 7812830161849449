// C29: reports about files agree with the files.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cmath>
#include <cstdlib>
#include <ctime>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>

#include <vrs/ErrorCode.h>
#include <vrs/RecordFileReader.h>
#include <vrs/RecordFormat.h>
#include <vrs/TagConventions.h>
#include <vrs/helpers/Rapidjson.hpp>
#include <vrs/helpers/Strings.h>
#include <vrs/os/System.h>
#include <vrs/utils/FrameRateEstimator.h>
#include <vrs/utils/RecordFileInfo.h>
#include <vrs/utils/cli/ListRecords.h>
#include <vrs/utils/cli/PrintRecordFormatRecords.h>
#include <vrs/utils/cli/PrintRecordFormats.h>

#include "contentgen.h"
#include "damaged.h"
#include "filtermodel.h"

using namespace gen;
using namespace vrs;
using namespace vrs::utils;
using std::map;
using std::set;
using std::string;
using std::vector;
using vrs::RecordFileInfo::Details;
using Info = IndexRecord::RecordInfo;

namespace {

constexpr Details kFlags[] = {Details::Basics, Details::ChunkList, Details::ListFileTags, Details::MainCounters, Details::StreamNames,
    Details::StreamTags, Details::StreamRecordCounts, Details::StreamRecordSizes, Details::JsonPretty, Details::UsePublicNames,
    Details::CompleteTags};

bool has(Details d, Details f) {
  return ((uint32_t)d & (uint32_t)f) != 0;
}

string counted(size_t n, const string& name, bool capital = false) {
  return n == 0 ? string(capital ? "No " : "no ") + name + "s" : std::to_string(n) + " " + name + (n == 1 ? "" : "s");
}

/// what the file has for the streams selected
struct Content {
  map<StreamId, vector<Info>> records;
  vector<Info> all;
};

string timeText(const vector<Info>& v, bool fps) {
  if (v.empty()) {
    return "";
  }
  double first = v.front().timestamp, last = v.back().timestamp;
  if (v.size() == 1) {
    return "at " + helpers::humanReadableTimestamp(first);
  }
  string t = "from " + helpers::humanReadableTimestamp(first) + " to " + helpers::humanReadableTimestamp(last) + " (" + helpers::humanReadableDuration(last - first);
  if (fps && first < last) {
    char text[64];
    snprintf(text, sizeof(text), ", %.4grps", ((double)v.size() - 1) / (last - first));
    t += text;
  }
  return t + ")";
}

vector<Info> ofType(const vector<Info>& v, Record::Type type) {
  vector<Info> res;
  for (auto& r : v) {
    if (r.recordType == type) {
      res.push_back(r);
    }
  }
  return res;
}

/// the text of a tag: escaped, and cut at the width of the terminal
string tagLine(const string& prefix, const string& name, const string& value, Details details, size_t width) {
  string line = prefix + name + " = " + value;
  if (name == tag_conventions::kCaptureTimeEpoch) {
    time_t t = (time_t)strtoull(value.c_str(), nullptr, 10);
    struct tm date{};
    if (t > 1000000 && localtime_r(&t, &date) != nullptr) {
      char text[200];
      strftime(text, sizeof(text), " -- %c %Z", &date);
      line += text;
    }
  }
  string printable = helpers::make_printable(line);
  if (!has(details, Details::CompleteTags) && printable.size() > width - 3) {
    printable = printable.substr(0, width - 3) + "...";
  }
  return printable + "\n";
}

string overviewText(RecordFileReader& r, const set<StreamId>& streams, const vector<std::pair<string, int64_t>>& chunks, const Content& content, Details details, size_t width) {
  string t;
  int64_t total = 0;
  for (auto& c : chunks) {
    total += c.second;
  }
  if (chunks.size() == 1) {
    t += "VRS file: '" + chunks[0].first + "', " + helpers::humanReadableFileSize(total) + ".\n";
  } else {
    t += "VRS file with " + std::to_string(chunks.size()) + " chunks, " + helpers::humanReadableFileSize(total) + " total";
    if (has(details, Details::ChunkList)) {
      t += ":\n";
      for (size_t k = 0; k < chunks.size(); k++) {
        t += "  Chunk #" + std::to_string(k) + ": '" + chunks[k].first + "', " + helpers::humanReadableFileSize(chunks[k].second) + ".\n";
      }
    } else {
      t += ", starting with " + chunks[0].first + ".\n";
    }
  }
  if (has(details, Details::MainCounters)) {
    t += "Found " + counted(streams.size(), "stream") + ", " + counted(content.all.size(), "record") + ", ";
    vector<Info> data = ofType(content.all, Record::Type::DATA);
    t += data.empty() ? string("no data records") : std::to_string(data.size()) + (data.size() == 1 ? " data record " : " data records ") + timeText(data, true);
    t += ".\n";
  }
  if (has(details, Details::ListFileTags)) {
    for (auto& tag : r.getTags()) {
      t += tagLine("  Tag: ", tag.first, tag.second, details, width);
    }
  }
  if (has(details, Details::StreamNames) || has(details, Details::StreamTags) || has(details, Details::StreamRecordCounts)) {
    for (auto id : streams) {
      const vector<Info>& records = content.records.at(id);
      string original = r.getOriginalRecordableTypeName(id), current = id.getTypeName();
      string name = original + " #" + std::to_string(id.getInstanceId());
      string flavor = r.getFlavor(id);
      name += (flavor.empty() ? "" : " - " + flavor) + " [" + id.getNumericName() + "] record";
      t += counted(records.size(), name, true);
      if (original != current && StreamId::isKnownTypeId(id.getTypeId())) {
        t += " (device now known as \"" + current + "\")";
      }
      if (has(details, Details::StreamRecordSizes)) {
        size_t size = 0;
        for (uint32_t k = 0; k < r.getIndex().size(); k++) {
          size += r.getIndex()[k].streamId == id ? r.getRecordSize(k) : 0;
        }
        t += ", " + helpers::humanReadableFileSize(size);
      }
      t += ".\n";
      if (has(details, Details::StreamTags)) {
        for (auto& tag : r.getTags(id).vrs) {
          t += tagLine("  VRS Tag: ", tag.first, tag.second, details, width);
        }
        for (auto& tag : r.getTags(id).user) {
          t += tagLine("  Tag: ", tag.first, tag.second, details, width);
        }
      }
      if (has(details, Details::StreamRecordCounts)) {
        for (auto [type, what] : {std::pair{Record::Type::CONFIGURATION, "configuration"}, {Record::Type::STATE, "state"}, {Record::Type::DATA, "data"}}) {
          vector<Info> v = ofType(records, type);
          if (v.empty()) {
            t += string("  No ") + what + " records.\n";
          } else {
            t += "  " + counted(v.size(), string(what) + " record") + ", " + timeText(v, type == Record::Type::DATA) + ".\n";
          }
        }
      }
    }
  }
  return t;
}

// json, read without VRS's own helpers
using Json = vrs_rapidjson::GenericDocument<vrs_rapidjson::UTF8<>, vrs_rapidjson::CrtAllocator>;
using JsonValue = Json::ValueType;

/// an object's members, each to be looked at once, and none left
struct Members {
  const JsonValue& v;
  string what;
  set<string> seen;
  Members(const JsonValue& value, const string& w) : v{value}, what{w} {
    REQUIRE_MSG(v.IsObject(), what);
    set<string> names;
    for (auto it = v.MemberBegin(); it != v.MemberEnd(); ++it) {
      string name(it->name.GetString(), it->name.GetStringLength());
      REQUIRE_MSG(names.insert(name).second, what << "." << name << " is there twice");
    }
  }
  const JsonValue& get(const string& name) {
    seen.insert(name);
    for (auto it = v.MemberBegin(); it != v.MemberEnd(); ++it) {
      if (name == string(it->name.GetString(), it->name.GetStringLength())) {
        return it->value;
      }
    }
    REQUIRE_MSG(false, what << " has no member " << pbt::show(name));
    return v;
  }
  void text(const string& name, const string& value) {
    const JsonValue& m = get(name);
    REQUIRE_MSG(m.IsString(), what << "." << name);
    REQUIRE_EQ_MSG(string(m.GetString(), m.GetStringLength()), value, what << "." << name);
  }
  void number(const string& name, int64_t value) {
    const JsonValue& m = get(name);
    REQUIRE_MSG(m.IsInt64(), what << "." << name);
    REQUIRE_EQ_MSG(m.GetInt64(), value, what << "." << name);
  }
  void real(const string& name, double value) {
    const JsonValue& m = get(name);
    REQUIRE_MSG(m.IsNumber(), what << "." << name);
    double d = m.GetDouble();
    REQUIRE_MSG(std::fabs(d - value) <= std::fabs(value) * 1e-15, what << "." << name << ": " << d << " rather than " << value);
  }
  void texts(const string& name, const map<string, string>& tags) {
    Members m(get(name), what + "." + name);
    for (auto& tag : tags) {
      m.text(tag.first, helpers::make_printable(tag.second));
    }
    m.done();
  }
  void done() {
    REQUIRE_EQ_MSG((size_t)v.MemberCount(), seen.size(), what);
  }
};

void requireJson(const string& text, RecordFileReader& r, const set<StreamId>& streams, const vector<std::pair<string, int64_t>>& chunks, const Content& content, Details details) {
  Json doc;
  doc.Parse<vrs_rapidjson::kParseFullPrecisionFlag>(text.data(), text.size());
  REQUIRE_MSG(!doc.HasParseError(), "not json: " << text);
  REQUIRE_EQ(text.find('\n') != string::npos, has(details, Details::JsonPretty) && doc.MemberCount() > 0);
  Members m(doc, "json");
  int64_t total = 0;
  for (auto& c : chunks) {
    total += c.second;
  }
  if (has(details, Details::Basics)) {
    m.text("file_name", chunks[0].first);
    m.text("file_size_short", helpers::humanReadableFileSize(total));
    m.number("file_size", total);
  }
  if (has(details, Details::ChunkList)) {
    const JsonValue& list = m.get("file_chunks");
    REQUIRE(list.IsArray());
    REQUIRE_EQ((size_t)list.Size(), chunks.size());
    for (size_t k = 0; k < chunks.size(); k++) {
      REQUIRE_EQ(string(list[(unsigned)k].GetString()), chunks[k].first);
    }
  }
  if (has(details, Details::ListFileTags)) {
    m.texts("tags", {r.getTags().begin(), r.getTags().end()});
  }
  if (has(details, Details::MainCounters)) {
    m.number("number_of_devices", (int64_t)streams.size());
    m.number("number_of_records", (int64_t)content.all.size());
    if (!content.all.empty()) {
      m.real("start_time", content.all.front().timestamp);
      m.real("end_time", content.all.back().timestamp);
    }
  }
  if (has(details, Details::StreamNames) || has(details, Details::StreamTags) || has(details, Details::StreamRecordCounts)) {
    const JsonValue& list = m.get("devices");
    REQUIRE(list.IsArray());
    REQUIRE_EQ((size_t)list.Size(), streams.size());
    unsigned n = 0;
    for (auto id : streams) {
      const vector<Info>& records = content.records.at(id);
      Members d(list[n++], id.getNumericName());
      if (has(details, Details::StreamNames)) {
        bool pub = has(details, Details::UsePublicNames);
        string pre = pub ? "device_" : "recordable_";
        d.text(pre + "name", id.getTypeName());
        d.number(pub ? "device_type_id" : "recordable_id", (int64_t)id.getTypeId());
        d.number(pub ? "device_instance_id" : "instance_id", id.getInstanceId());
        if (!r.getFlavor(id).empty()) {
          d.text(pre + "flavor", r.getFlavor(id));
        }
        if (r.getOriginalRecordableTypeName(id) != id.getTypeName()) {
          d.text(pre + "original_name", r.getOriginalRecordableTypeName(id));
        }
      }
      if (has(details, Details::StreamTags)) {
        d.texts("tags", {r.getTags(id).user.begin(), r.getTags(id).user.end()});
        d.texts("vrs_tag", {r.getTags(id).vrs.begin(), r.getTags(id).vrs.end()});
      }
      if (has(details, Details::StreamRecordCounts)) {
        for (auto [type, what] : {std::pair{Record::Type::CONFIGURATION, "configuration"}, {Record::Type::STATE, "state"}, {Record::Type::DATA, "data"}}) {
          vector<Info> v = ofType(records, type);
          Members t(d.get(what), d.what + "." + what);
          t.number("number_of_records", (int64_t)v.size());
          if (!v.empty()) {
            t.real("start_time", v.front().timestamp);
            t.real("end_time", v.back().timestamp);
          }
          t.done();
        }
      }
      if (has(details, Details::StreamRecordSizes)) {
        int64_t size = 0;
        for (uint32_t k = 0; k < r.getIndex().size(); k++) {
          size += r.getIndex()[k].streamId == id ? r.getRecordSize(k) : 0;
        }
        d.number("stream_size", size);
      }
      d.done();
    }
  }
  m.done();
}

/// what's written on the standard output
template <class F>
string printed(pbt::Ctx& c, F f) {
  string path = c.dir() + "/stdout";
  fflush(stdout);
  std::cout.flush();
  int saved = dup(1);
  int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  REQUIRE(saved >= 0 && fd >= 0);
  dup2(fd, 1);
  close(fd);
  f();
  fflush(stdout);
  std::cout.flush();
  dup2(saved, 1);
  close(saved);
  auto bytes = damaged::slurp(path);
  return {bytes.begin(), bytes.end()};
}

vector<string> lines(const string& t) {
  vector<string> v;
  std::istringstream in(t);
  string line;
  while (std::getline(in, line)) {
    v.push_back(line);
  }
  return v;
}

} // namespace

PBT_TEST(overviews, 6000, 150000, "several streams were described, with several kinds of details") {
  Recording rec;
  RecordingOptions opt;
  opt.maxOps = 30;
  opt.idGaps = s.flip();
  opt.quietExtremes = s.flip();
  opt.bigPayload = 3000;
  if (s.chance(1, 3)) { // capture times of all kinds
    rec.fileTags[tag_conventions::kCaptureTimeEpoch] = s.pick(vector<string>{"1520364293", "", "abc", "-1", "0", " 12 ", "99999999999999999999999", "9223372036854775807", "1000001", "17e9", "67768036191676799", "67768036191676800"});
  }
  record(s, c, rec, opt);
  if (rec.status != 0) {
    throw pbt::Discard{};
  }
  RecordFileReader r;
  REQUIRE_EQ(r.openFile(rec.path), 0);
  for (auto& i : r.getIndex()) {
    if (!std::isfinite(i.timestamp)) {
      throw pbt::Discard{};
    }
  }
  Details details = Details::None;
  size_t bits = 0;
  for (Details f : kFlags) {
    if (s.chance(3, 5)) {
      details = details + f;
      bits++;
    }
  }
  if (s.chance(1, 6)) {
    details = details + Details::Everything;
  }
  size_t width = s.flip() ? 160 : 20 + s.below(200);
  os::getTerminalWidth((uint32_t)width);
  bool all = s.flip();
  set<StreamId> streams = r.getStreams();
  if (!all) {
    for (auto it = streams.begin(); it != streams.end();) {
      it = s.flip() ? streams.erase(it) : std::next(it);
    }
  }
  vector<std::pair<string, int64_t>> chunks;
  for (auto& path : damaged::chunkPathsOf(c.dir(), "f.vrs")) {
    struct stat st{};
    REQUIRE_EQ(stat(path.c_str(), &st), 0);
    chunks.emplace_back(path, (int64_t)st.st_size);
  }
  // contents, as recorded
  Content content;
  vector<Rec> log = rec.log;
  std::stable_sort(log.begin(), log.end(), [](const Rec& a, const Rec& b) { return a.ts < b.ts; });
  REQUIRE_EQ(r.getIndex().size(), log.size());
  for (auto id : streams) {
    content.records[id];
  }
  for (auto& l : log) {
    if (streams.count(l.id) != 0) {
      Info info(l.ts, 0, l.id, l.type);
      content.records[l.id].push_back(info);
      content.all.push_back(info);
    }
  }
  std::ostringstream note;
  note << " details " << std::hex << (uint32_t)details << std::dec << " width " << width << " " << streams.size() << " of " << r.getStreams().size() << " streams";
  c.note(note.str());
  string want = overviewText(r, streams, chunks, content, details, width);
  std::ostringstream out;
  if (all && s.flip()) {
    if (s.flip()) {
      REQUIRE_EQ(RecordFileInfo::printOverview(out, rec.path, details), 0);
    } else {
      RecordFileInfo::printOverview(out, r, details);
    }
  } else {
    RecordFileInfo::printOverview(out, r, streams, details);
  }
  REQUIRE_EQ(out.str(), want);
  string json = !all ? RecordFileInfo::jsonOverview(r, streams, details) : s.flip() ? RecordFileInfo::jsonOverview(r, details) : RecordFileInfo::jsonOverview(rec.path, details);
  requireJson(json, r, streams, chunks, content, details);
  if (streams.size() > 1 && bits > 2) {
    c.nontrivial(out.str());
  }
  c.label(all ? "all streams" : "some streams");
  // files which can't be opened
  string none = c.dir() + "/" + s.ident(8) + ".none";
  if (s.flip()) {
    auto junk = s.bytes(s.below(300));
    damaged::spit(none, junk, junk.size());
  }
  std::ostringstream nothing;
  RecordFileReader other;
  int status = other.openFile(none);
  REQUIRE(status != 0);
  REQUIRE_EQ(RecordFileInfo::printOverview(nothing, none, details), status);
  REQUIRE_EQ(nothing.str(), string());
  Json doc;
  string text = RecordFileInfo::jsonOverview(none, details);
  doc.Parse(text.c_str());
  REQUIRE_MSG(!doc.HasParseError(), text);
  Members m(doc, "json");
  m.text("file_name", none);
  m.number("error_code", status);
  m.text("error_message", errorCodeToMessage(status));
  m.done();
  RecordFileInfo::printOverview(nothing, other, details);
  REQUIRE_EQ(nothing.str(), string("No open file.\n"));
}

PBT_TEST(frameRates, 40000, 400000, "10 intervals at least, some of them irregular") {
  StreamId id(RecordableTypeId::ForwardCameraRecordableClass, (uint16_t)(1 + s.draw(2)));
  StreamId other(RecordableTypeId::ForwardCameraRecordableClass, (uint16_t)(id.getInstanceId() + 1));
  // the middle of an interval of durations treated alike
  double period = 0;
  switch (s.below(4)) {
    case 0:
      period = 1e-3 * ((double)(1 + s.below(9)) + 0.5);
      break;
    case 1:
      period = 1e-3 * (double)(10 + 5 * s.below(198)) + 0.0025;
      break;
    case 2:
      period = (double)(1 + s.below(100)) + 0.5;
      break;
    default:
      period = 1 / (double)(1 + s.below(1200));
      break;
  }
  bool mid = std::fabs(period * 1000 - std::floor(period * 1000) - 0.5) < 0.01;
  size_t count = s.flip() ? s.below(15) : s.below(700);
  // drops: less than a fifth of the intervals are longer, and only where it can be told
  size_t drops = mid && count > 20 && s.flip() ? s.below((std::min<size_t>(count, 501) - 2) / 5) : 0;
  set<size_t> dropAt;
  for (size_t k = 0; k < drops; k++) {
    dropAt.insert(1 + s.below(std::min<size_t>(count, 501) - 1));
  }
  vector<Info> index;
  double t = s.flip() ? 0 : (double)s.below(100000), first = t, last = t;
  int64_t offset = 100;
  for (size_t k = 0; k < count; k++) {
    if (k > 0) {
      t += period * (dropAt.count(k) != 0 ? (double)(2 + s.below(5)) : 1);
    }
    size_t noise = s.below(3);
    for (size_t n = 0; n < noise; n++) { // other streams and types don't matter
      bool mine = s.flip();
      index.emplace_back(t, offset++, mine ? id : other, mine ? (s.flip() ? Record::Type::CONFIGURATION : Record::Type::STATE) : Record::Type::DATA);
    }
    index.emplace_back(t, offset++, id, Record::Type::DATA);
    last = t;
  }
  double fps = frameRateEstimationFps(index, id);
  std::ostringstream what;
  what << count << " records every " << period << " s, " << dropAt.size() << " dropped: " << fps << " fps";
  if (count < 2) {
    REQUIRE_EQ_MSG(fps, 30., what.str()); // arbitrary
    return;
  }
  if (count - 1 < 10) {
    double want = (double)(count - 1) / (last - first);
    REQUIRE_MSG(std::fabs(fps - want) <= want * 1e-6, what.str());
    return;
  }
  REQUIRE_MSG(std::fabs(fps * period - 1) <= 1e-6, what.str());
  if (!dropAt.empty()) {
    c.nontrivial(what.str());
  }
}

PBT_TEST(recordLists, 4000, 100000, "some records were left out") {
  Recording rec;
  RecordingOptions opt;
  opt.maxOps = 30;
  opt.allowChunks = false;
  opt.plainClock = s.flip();
  opt.quietExtremes = true;
  opt.bigPayload = 3000;
  record(s, c, rec, opt);
  if (rec.status != 0) {
    throw pbt::Discard{};
  }
  FilteredFileReader f;
  f.setSource(rec.path);
  REQUIRE_EQ(f.openFile(), 0);
  f.filter.types = {};
  for (auto type : {Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA}) {
    if (s.chance(3, 4)) {
      f.filter.types.insert(type);
    }
  }
  if (s.flip()) {
    for (auto it = f.filter.streams.begin(); it != f.filter.streams.end();) {
      it = s.chance(1, 3) ? f.filter.streams.erase(it) : std::next(it);
    }
  }
  filters::Model model;
  model.index = f.reader.getIndex();
  model.streams = f.filter.streams;
  model.types = f.filter.types;
  if (!model.index.empty() && s.flip()) {
    double a = s.pick(model.index).timestamp, b = s.pick(model.index).timestamp;
    f.filter.minTime = model.minTime = std::min<double>(a, b);
    f.filter.maxTime = model.maxTime = std::max<double>(a, b);
  }
  vector<Rec> log = rec.log;
  std::stable_sort(log.begin(), log.end(), [](const Rec& a, const Rec& b) { return a.ts != b.ts ? a.ts < b.ts : a.id < b.id; });
  REQUIRE_EQ(log.size(), model.index.size());
  std::multiset<string> want; // records at the same time may be in any order
  vector<double> times;
  for (auto& l : log) {
    Info info(l.ts, 0, l.id, l.type);
    if (model.selected(info) && l.ts > model.minTime && l.ts <= model.maxTime) {
      char time[400];
      snprintf(time, sizeof(time), "%.3f ", l.ts);
      want.insert(time + l.id.getName() + " [" + l.id.getNumericName() + "], " + string(Record::typeName(l.type)) + " record, " + std::to_string(l.data.size()) + " bytes total.");
    }
  }
  string out = printed(c, [&] { listRecords(f); });
  vector<string> got = lines(out);
  double previous = -INFINITY;
  for (auto& line : got) {
    auto it = want.find(line);
    REQUIRE_MSG(it != want.end(), "unexpected: " << line);
    want.erase(it);
    double t = atof(line.c_str());
    REQUIRE_MSG(t >= previous, "out of order: " << line);
    previous = t;
  }
  REQUIRE_MSG(want.empty(), "missing: " << *want.begin());
  if (got.size() < log.size() && !got.empty()) {
    c.nontrivial(out);
  }
}

PBT_TEST(recordFormats, 4000, 100000, "several formats, with layouts") {
  contentgen::FormatRecording fr;
  string path = c.dir() + "/f.vrs";
  contentgen::recordFormats(s, c, fr, path);
  FilteredFileReader f;
  f.setSource(path);
  REQUIRE_EQ(f.openFile(), 0);
  if (s.flip()) {
    for (auto it = f.filter.streams.begin(); it != f.filter.streams.end();) {
      it = s.chance(1, 3) ? f.filter.streams.erase(it) : std::next(it);
    }
    f.filter.types = {};
    for (auto type : {Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA}) {
      if (s.chance(3, 4)) {
        f.filter.types.insert(type);
      }
    }
  }
  JsonFormatProfileSpec spec;
  spec.prettyJson = true;
  spec.shortType = true;
  spec.index = spec.defaults = spec.tags = spec.properties = spec.required = false;
  map<std::tuple<StreamId, Record::Type, uint32_t>, const contentgen::RecordDef*> kinds;
  for (auto& st : fr.streams) {
    for (auto& k : st.kinds) {
      if (k.hasFormat && f.filter.streams.count(st.stream->getStreamId()) != 0 && f.filter.types.count(k.type) != 0) {
        kinds[{st.stream->getStreamId(), k.type, k.version}] = &k;
      }
    }
  }
  string want;
  size_t layouts = 0;
  for (auto& k : kinds) {
    StreamId id = std::get<0>(k.first);
    RecordFormat format;
    for (auto& b : k.second->blocks) {
      format + b.format.getContentBlock(0);
    }
    want += id.getNumericName() + " " + id.getName() + " " + toString(std::get<1>(k.first)) + " v" + std::to_string(std::get<2>(k.first)) + ": " + RecordFormat(format.asString()).asString() + "\n";
    for (size_t b = 0; b < k.second->blocks.size(); b++) {
      auto& block = k.second->blocks[b];
      if (block.type == ContentType::DATA_LAYOUT) {
        want += block.live ? "Content block " + std::to_string(b) + ": " + block.live->asJson(spec) + "\n" : string("<no DataLayout>\n");
        layouts++;
      }
    }
  }
  string got = printRecordFormats(f);
  REQUIRE_EQ(got, want);
  if (kinds.size() > 1 && layouts > 0) {
    c.nontrivial(got);
  }
}

PBT_TEST(printedRecords, 6000, 120000, "blocks of several kinds were printed") {
  contentgen::FormatRecording fr;
  string path = c.dir() + "/f.vrs";
  contentgen::recordFormats(s, c, fr, path);
  FilteredFileReader f;
  f.setSource(path);
  REQUIRE_EQ(f.openFile(), 0);
  double after = -1e300;
  if (s.flip()) {
    for (auto it = f.filter.streams.begin(); it != f.filter.streams.end();) {
      it = s.chance(1, 3) ? f.filter.streams.erase(it) : std::next(it);
    }
    if (s.flip()) {
      after = s.pick(fr.expected).ts;
      f.filter.minTime = after;
    }
  }
  PrintoutType type = (PrintoutType)s.below(5);
  bool text = type == PrintoutType::Compact || type == PrintoutType::Details;
  struct Block {
    ContentType type;
    bool unsupported;
    const contentgen::Event* event;
  };
  struct One {
    const contentgen::Expected* e;
    vector<Block> blocks;
  };
  vector<One> want;
  size_t counts[5] = {};
  set<ContentType> types;
  for (auto& e : fr.expected) {
    if (f.filter.streams.count(e.id) == 0 || e.ts <= after) {
      continue;
    }
    want.push_back({&e, {}});
    for (auto& ev : e.events) {
      want.back().blocks.push_back({ev.type, ev.unsupported, &ev});
      types.insert(ev.type);
      counts[ev.unsupported ? 4 : ev.type == ContentType::DATA_LAYOUT ? 0 : ev.type == ContentType::IMAGE ? 1 : ev.type == ContentType::AUDIO ? 2 : 3]++;
    }
  }
  string out = printed(c, [&] { printRecordFormatRecords(f, type); });
  map<std::tuple<StreamId, Record::Type, uint32_t>, string> formats;
  for (auto id : f.filter.streams) {
    RecordFormatMap m;
    f.reader.getRecordFormats(id, m);
    for (auto& i : m) {
      formats[{id, i.first.first, i.first.second}] = i.second.asString();
    }
  }
  if (type == PrintoutType::None) {
    const char* names[] = {"datalayouts", "images", "audio content blocks", "custom content blocks", "unsupported content blocks"};
    string summary = "Decoded " + std::to_string(want.size()) + " records";
    for (size_t k = 0; k < 5; k++) {
      if (counts[k] != 0) {
        summary += ", " + std::to_string(counts[k]) + " " + names[k];
      }
    }
    REQUIRE_EQ(out, summary + ".\n");
  } else if (text) {
    vector<string> got = lines(out);
    size_t pos = 0;
    bool inLayout = false;
    size_t layoutStart = 0, layoutFields = 0; // of the layout being printed
    auto next = [&](const string& start, bool skipIndented) {
      // the values of layouts may have text of several lines
      while (skipIndented && inLayout && pos < got.size() && got[pos].compare(0, start.size(), start) != 0) {
        pos++;
      }
      REQUIRE_MSG(!inLayout || pos - layoutStart >= layoutFields, "only " << pos - layoutStart << " lines for " << layoutFields << " fields");
      inLayout = false;
      REQUIRE_MSG(pos < got.size(), "missing: " << start);
      REQUIRE_MSG(got[pos].compare(0, start.size(), start) == 0, "expected " << start << "\n found " << got[pos]);
      return got[pos++];
    };
    for (auto& one : want) {
      char time[400];
      snprintf(time, sizeof(time), "%.3f ", one.e->ts);
      auto it = formats.find({one.e->id, one.e->type, one.e->version});
      string line = time + one.e->id.getName() + " [" + one.e->id.getNumericName() + "], " + string(Record::typeName(one.e->type)) + " record, ";
      string header = next(line, true);
      string tail = " = " + std::to_string(one.e->size) + " bytes total.";
      REQUIRE_MSG(header.size() >= tail.size() && header.compare(header.size() - tail.size(), tail.size(), tail) == 0, header);
      string format = header.substr(line.size(), header.size() - line.size() - tail.size());
      if (it != formats.end()) {
        REQUIRE_EQ(format, it->second);
      }
      for (auto& b : one.blocks) {
        if (b.unsupported) {
          next(" - Unsupported block, " + b.event->block.asString(), true);
        } else if (b.type == ContentType::DATA_LAYOUT) {
          next(" - DataLayout:", true);
          inLayout = true;
          layoutStart = pos;
          layoutFields = type == PrintoutType::Compact ? 0 : b.event->layout.fields.size();
        } else {
          string kind = b.type == ContentType::IMAGE ? " - Image block, " : b.type == ContentType::AUDIO ? " - Audio block, " : " - Custom block, ";
          string got1 = next(kind, true);
          string size = std::to_string(b.event->bytes.size()) + " bytes.";
          REQUIRE_MSG(got1.size() > size.size() && got1.compare(got1.size() - size.size(), size.size(), size) == 0, got1 << ": " << size);
          REQUIRE_EQ(got1, kind + b.event->block.asString() + ", " + size);
        }
      }
    }
    REQUIRE_MSG(inLayout || pos == got.size(), "unexpected: " << got[pos]);
  } else {
    // a sequence of json values
    vrs_rapidjson::StringStream in(out.c_str());
    auto next = [&]() {
      auto doc = std::make_unique<Json>();
      doc->ParseStream<vrs_rapidjson::kParseStopWhenDoneFlag | vrs_rapidjson::kParseNanAndInfFlag | vrs_rapidjson::kParseFullPrecisionFlag>(in);
      REQUIRE_MSG(!doc->HasParseError(), "not json at " << in.Tell() << " of " << out);
      return doc;
    };
    auto nextText = [&](const char* name, const string& value) {
      auto doc = next();
      Members m(*doc, name);
      m.text(name, value);
      m.done();
    };
    for (auto& one : want) {
      auto doc = next();
      Members m(*doc, "json");
      Members r(m.get("record"), "record");
      REQUIRE(std::fabs(r.get("timestamp").GetDouble() - one.e->ts) <= 0.0005);
      r.text("device", one.e->id.getNumericName());
      r.text("type", string(Record::typeName(one.e->type)));
      r.number("size", (int64_t)one.e->size);
      r.done();
      m.done();
      for (auto& b : one.blocks) {
        if (b.unsupported) {
          nextText("unsupported", b.event->block.asString());
        } else if (b.type == ContentType::DATA_LAYOUT) {
          auto layout = next();
          REQUIRE(layout->IsObject());
        } else {
          nextText(b.type == ContentType::IMAGE ? "image" : b.type == ContentType::AUDIO ? "audio" : "custom", b.event->block.asString());
        }
      }
    }
    while (in.Peek() == '\n') {
      in.Take();
    }
    REQUIRE_MSG(in.Peek() == 0, "unexpected: " << out.substr(in.Tell()));
  }
  if (types.size() > 1) {
    c.nontrivial(out);
  }
}

PBT_TEST(tagSets, 20000, 200000, "several tags, with characters that json escapes") {
  vector<string> tags(s.below(6));
  bool special = false;
  for (auto& t : tags) {
    t = s.anyText(20);
    t.erase(std::remove(t.begin(), t.end(), '\0'), t.end());
    special = special || t.find_first_of("\"\\\n\t\x01{}[]") != string::npos;
  }
  string json = tag_conventions::makeTagSet(tags);
  vector<string> back = {"previous"};
  REQUIRE(tag_conventions::parseTagSet(json, back));
  REQUIRE_MSG(back == tags, pbt::show(json));
  Json doc;
  doc.Parse(json.data(), json.size());
  REQUIRE_MSG(!doc.HasParseError() && doc.IsObject(), json);
  if (tags.size() > 1 && special) {
    c.nontrivial(json);
  }
  // arbitrary text
  string junk = json;
  for (size_t n = s.below(4); n > 0 && !junk.empty(); n--) {
    size_t at = s.below(junk.size());
    s.flip() ? (void)junk.erase(at, 1) : (void)(junk[at] = (char)s.below(256));
  }
  bool object = tag_conventions::parseTagSet(s.flip() ? junk : s.anyText(10), back);
  REQUIRE(object || back.empty());
}
