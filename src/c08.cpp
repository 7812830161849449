// C08: stream identity, tags and lookups agree with what was declared.
#include <cstring>
#include <optional>

#include <vrs/RecordFormat.h>
#include <vrs/TagConventions.h>

#include "recording.h"

using namespace gen;
using std::map;
using std::string;
using std::vector;

namespace {

/// text in memory that ends where the text ends
struct Exact {
  explicit Exact(const string& t) : size{t.size()}, data{new char[t.size()]} {
    memcpy(data.get(), t.data(), size);
  }
  std::string_view view() const {
    return {size == 0 ? nullptr : data.get(), size};
  }
  size_t size;
  std::unique_ptr<char[]> data;
};

/// the identifier for "number separator number", both fitting in 16 bits
std::optional<StreamId> parseName(const string& t, char separator) {
  size_t at = 0;
  auto number = [&](uint64_t& n) {
    size_t start = at;
    n = 0;
    while (at < t.size() && t[at] >= '0' && t[at] <= '9') {
      n = std::min<uint64_t>(n * 10 + (t[at++] - '0'), 1000000);
    }
    return at > start;
  };
  uint64_t type = 0, instance = 0;
  if (!number(type) || at >= t.size() || t[at++] != separator || !number(instance) || at != t.size() || type > 65535 ||
      instance > 65535) {
    return std::nullopt;
  }
  return StreamId((RecordableTypeId)type, (uint16_t)instance);
}

string genName(pbt::Src& s, RecordableTypeId likely) {
  auto number = [&](uint64_t typical) {
    switch (s.draw(5)) {
      case 0:
        return std::to_string(s.pick({0ull, 1ull, 65534ull, 65535ull, 65536ull, 65537ull, 131073ull, 4294967295ull, 4294967296ull, 4294967297ull}));
      case 1:
        return std::to_string(s.u64());
      case 2:
        return std::to_string(typical + 65536);
      case 3:
        return (s.flip() ? "0" : "00000000") + std::to_string(typical);
      default:
        return std::to_string(typical);
    }
  };
  string t = number((uint64_t)likely) + (s.chance(1, 8) ? s.anyText(2) : s.flip() ? "-" : "+") + number(s.draw(4));
  for (size_t k = s.chance(1, 2) ? s.draw(2) : 0; k > 0 && !t.empty(); k--) {
    size_t at = s.below(t.size());
    switch (s.draw(4)) {
      case 0:
        t.erase(at, 1);
        break;
      case 1:
        t.insert(at, 1, s.pick({'-', '+', ' ', '0', 'x', '\0'}));
        break;
      case 2:
        t.resize(at);
        break;
      case 3:
        t[at] = (char)s.draw(255);
        break;
      default:
        t += s.pick({'-', '+', ' ', '1', '\n', '\0'});
        break;
    }
  }
  return t;
}

} // namespace

PBT_TEST(
    names,
    3000000,
    100000000,
    "stream identifiers of any type and instance to text and back, and names mutated in memory ending with the name; non-trivial: a name "
    "that isn't well formed or out of range; distinct by name") {
  if (s.chance(1, 3)) {
    StreamId id((RecordableTypeId)s.draw(65535), (uint16_t)s.draw(65535));
    string name = id.getNumericName();
    c.note(name);
    REQUIRE_EQ(name, std::to_string((int)id.getTypeId()) + "-" + std::to_string(id.getInstanceId()));
    REQUIRE(StreamId::fromNumericName(Exact(name).view()) == id);
    REQUIRE(!StreamId::fromNumericNamePlus(Exact(name).view()).isValid());
    string plus = std::to_string((int)id.getTypeId()) + "+" + std::to_string(id.getInstanceId());
    REQUIRE(StreamId::fromNumericNamePlus(Exact(plus).view()) == id);
    REQUIRE(!StreamId::fromNumericName(Exact(plus).view()).isValid());
    REQUIRE_EQ(id.isValid(), id.getTypeId() != RecordableTypeId::Undefined);
    REQUIRE_EQ(id.getName(), id.getTypeName() + " #" + std::to_string(id.getInstanceId()));
    REQUIRE_EQ(id.getFullName(), name + " - " + id.getTypeName());
    StreamId other((RecordableTypeId)s.draw(65535), (uint16_t)s.draw(65535));
    if (s.flip()) {
      other = StreamId(id.getTypeId(), other.getInstanceId());
    }
    auto pair = [](StreamId i) { return std::make_pair((int)i.getTypeId(), (int)i.getInstanceId()); };
    REQUIRE_EQ(id < other, pair(id) < pair(other));
    REQUIRE_EQ(id == other, pair(id) == pair(other));
    REQUIRE_EQ(id != other, pair(id) != pair(other));
    return;
  }
  string name = s.chance(1, 20) ? s.anyText(10) : genName(s, s.pick({RecordableTypeId::UnitTest1, RecordableTypeId::ImageStream}));
  c.note(pbt::show(name));
  Exact exact(name);
  auto expected = parseName(name, '-');
  StreamId id = StreamId::fromNumericName(exact.view());
  REQUIRE_MSG(expected ? id == *expected : !id.isValid(), "fromNumericName gives " << id.getNumericName());
  expected = parseName(name, '+');
  id = StreamId::fromNumericNamePlus(exact.view());
  REQUIRE_MSG(expected ? id == *expected : !id.isValid(), "fromNumericNamePlus gives " << id.getNumericName());
  if (!expected && !parseName(name, '-')) {
    c.nontrivial(name);
  }
}

namespace {

struct Declared {
  map<string, string> user;
  string flavor, serial;
  map<Record::Type, size_t> counts;
  vrs::RecordFormatMap formats;
};

} // namespace

PBT_TEST(
    lookups,
    50000,
    1000000,
    "files with up to 12 streams of few types, with few different flavors, tags and serial numbers, and gaps in the instance ids; every "
    "search compared with a filter over the streams declared, before and after other queries; non-trivial: 3 streams of a type, some with "
    "the same flavor, tags or serial number; distinct by declarations") {
  vrs::TemporaryRecordableInstanceIdsResetter resetter;
  std::ostringstream note;
  vector<std::unique_ptr<GenStream>> streams;
  map<StreamId, Declared> declared;
  vector<RecordableTypeId> types;
  for (size_t k = 1 + s.draw(2); k > 0; k--) {
    types.push_back(s.chance(1, 8) ? (RecordableTypeId)s.draw(65534) : genTypeId(s));
  }
  vector<string> flavors{"test/a", "test/A", "test/a/b", s.anyText(6), ""}, names{"tag", "Tag", "vrs_x", "VRS_Recordable_Flavor", s.anyText(5), ""},
      values{"", "1", "1 ", s.anyText(8)}, serials{"S1", "s1", "S11", s.text(8)};
  vrs::RecordFileWriter writer;
  size_t count = s.size(12);
  double now = 0;
  Bytes payload(8);
  auto flavor = [&](RecordableTypeId type) {
    string f = s.pick(flavors);
    return vrs::isARecordableClass(type) && f.empty() ? string("test/a") : f;
  };
  for (size_t k = 0; k < count; k++) {
    RecordableTypeId type = s.pick(types);
    if (s.chance(1, 5)) {
      GenStream unused(type, "unused", nullptr); // takes an instance id
    }
    string f = flavor(type);
    auto st = std::make_unique<GenStream>(type, f, nullptr);
    Declared d;
    d.flavor = f;
    REQUIRE_EQ(st->getStreamFlavor(), f);
    REQUIRE(!st->getSerialNumber().empty());
    for (size_t n = s.draw(4); n > 0; n--) {
      const string& name = s.pick(names);
      d.user[name] = s.pick(values);
      if (s.flip()) {
        st->setTag(name, d.user[name]);
      } else {
        st->addTags(map<string, string>{{name, d.user[name]}});
      }
    }
    d.serial = st->getSerialNumber();
    if (s.chance(1, 2)) {
      vrs::StreamTags t;
      d.serial = s.pick(serials);
      if (d.serial.empty()) {
        d.serial = "S";
      }
      t.vrs[vrs::Recordable::getSerialNumberTagName()] = d.serial;
      if (s.chance(1, 4)) {
        t.user["more"] = d.user["more"] = "x";
      }
      st->addTags(t);
    }
    for (size_t n = s.chance(1, 3) ? 1 + s.draw(2) : 0; n > 0; n--) {
      Record::Type rt = s.chance(1, 4) ? genType(s) : Record::Type::DATA;
      uint32_t version = 1 + (uint32_t)s.draw(2);
      vrs::RecordFormat format(s.pick(
          {"image/jpg", "audio/pcm", "custom", "data_layout+image/raw", "custom/size=4+audio/pcm/int16le", "empty"}));
      // formats of an existing version are kept: don't add it twice
      auto key = std::make_pair(rt, version);
      if (d.formats.find(key) == d.formats.end()) {
        d.formats[key] = format;
        st->addRecordFormat(rt, version, format);
      }
    }
    st->withConfig = s.chance(2, 3);
    st->withState = s.chance(2, 3);
    REQUIRE_EQ(st->getTags(), d.user);
    note << st->getStreamId().getNumericName() << " flavor " << pbt::show(f) << " serial " << pbt::show(d.serial) << " tags";
    for (auto& t : d.user) {
      note << " " << pbt::show(t.first) << "=" << pbt::show(t.second);
    }
    note << "; ";
    declared[st->getStreamId()] = d;
    streams.push_back(std::move(st));
  }
  c.note(note.str());
  bool async = s.flip();
  string path = c.dir() + "/f.vrs";
  auto makeRecords = [&](GenStream* st) {
    Declared& d = declared[st->getStreamId()];
    for (size_t n = s.draw(3); n > 0; n--) {
      Record::Type type = genType(s);
      st->make(now += 1, type, 1, payload, Feed::OneChunk);
      d.counts[type]++;
    }
  };
  // streams may be attached in any order, some late
  vector<size_t> order(count);
  for (size_t k = 0; k < count; k++) {
    order[k] = k;
  }
  for (size_t k = count; k > 1; k--) {
    std::swap(order[k - 1], order[s.below(k)]);
  }
  size_t late = async && count > 0 && s.chance(1, 2) ? s.below(count) : count;
  vector<vrs::Recordable*> attached;
  for (size_t k = 0; k < count; k++) {
    GenStream* st = streams[order[k]].get();
    if (k == late) {
      REQUIRE_EQ(s.flip() ? writer.createFileAsync(path) : writer.createChunkedFile(path, 0, nullptr), 0);
    }
    writer.addRecordable(st);
    attached.push_back(st);
    if (async) {
      auto& counts = declared[st->getStreamId()].counts;
      counts[Record::Type::CONFIGURATION] += st->withConfig;
      counts[Record::Type::STATE] += st->withState;
    }
    makeRecords(st);
  }
  auto recordables = writer.getRecordables();
  std::sort(recordables.begin(), recordables.end());
  std::sort(attached.begin(), attached.end());
  REQUIRE(recordables == attached);
  if (async) {
    if (late == count) {
      REQUIRE_EQ(writer.createFileAsync(path), 0);
    }
    REQUIRE_EQ(writer.waitForFileClosed(), 0);
  } else {
    REQUIRE_EQ(writer.writeToFile(path), 0);
  }
  vrs::RecordFileReader reader;
  if (s.chance(1, 8)) {
    // another file was opened before
    vrs::RecordFileWriter other;
    GenStream st(RecordableTypeId::UnitTest2, "other", nullptr);
    other.addRecordable(&st);
    REQUIRE_EQ(other.writeToFile(c.dir() + "/other.vrs"), 0);
    REQUIRE_EQ(reader.openFile(c.dir() + "/other.vrs"), 0);
    REQUIRE(reader.getStreamForFlavor(RecordableTypeId::UnitTest2, "other").isValid());
  }
  REQUIRE_EQ(reader.openFile(path), 0);

  vector<StreamId> all;
  for (auto& d : declared) {
    all.push_back(d.first);
  }
  REQUIRE_MSG(vector<StreamId>(reader.getStreams().begin(), reader.getStreams().end()) == all, "streams of the file");
  REQUIRE_EQ(reader.getStreamTags().size(), all.size());
  types.push_back(RecordableTypeId::Undefined);
  types.push_back(RecordableTypeId::SampleDevice);
  auto nth = [](const vector<StreamId>& ids, size_t n) { return n < ids.size() ? ids[n] : StreamId(); };
  auto same = [](StreamId found, StreamId expected) { return expected.isValid() ? found == expected : !found.isValid(); };
  auto user = [](const Declared& d, const string& name) {
    auto t = d.user.find(name);
    return t == d.user.end() ? string() : t->second;
  };
  auto filter = [&](RecordableTypeId type, const std::function<bool(const Declared&)>& f) {
    vector<StreamId> ids;
    for (auto& d : declared) {
      if ((type == RecordableTypeId::Undefined || d.first.getTypeId() == type) && f(d.second)) {
        ids.push_back(d.first);
      }
    }
    return ids;
  };
  auto any = [](const Declared&) { return true; };
  auto query = [&]() {
    RecordableTypeId type = s.pick(types);
    uint32_t n = s.chance(1, 10) ? s.u32() : (uint32_t)s.draw(6);
    switch (s.draw(9)) {
      case 0: {
        REQUIRE_MSG(
            same(reader.getStreamForType(type, n), type == RecordableTypeId::Undefined ? StreamId() : nth(filter(type, any), n)),
            "stream #" << n << " of type " << (int)type);
        break;
      }
      case 1: {
        string name = genName(s, type);
        StreamId expected;
        if (auto id = parseName(name, '-')) {
          expected = declared.count(*id) ? *id : StreamId();
        } else if (auto rel = parseName(name, '+')) {
          expected = rel->isValid() && rel->getInstanceId() > 0 ? nth(filter(rel->getTypeId(), any), rel->getInstanceId() - 1) : StreamId();
        }
        REQUIRE_MSG(same(reader.getStreamForName(name), expected), "stream named " << pbt::show(name));
        break;
      }
      case 2: {
        const string f = s.pick(flavors);
        auto ids = filter(type, [&](const Declared& d) { return f.empty() || d.flavor == f; });
        REQUIRE_MSG(reader.getStreams(type, f) == ids, "streams of type " << (int)type << " and flavor " << pbt::show(f));
        break;
      }
      case 3: {
        const string f = s.pick(flavors);
        StreamId expected =
            type == RecordableTypeId::Undefined ? StreamId() : nth(filter(type, [&](const Declared& d) { return d.flavor == f; }), n);
        REQUIRE_MSG(
            same(reader.getStreamForFlavor(type, f, n), expected), "stream #" << n << " of type " << (int)type << " and flavor " << pbt::show(f));
        break;
      }
      case 4: {
        const string name = s.pick(names), value = s.pick(values);
        auto ids = filter(type, [&](const Declared& d) {
          auto t = d.user.find(name);
          return t != d.user.end() && t->second == value;
        });
        if (value.empty()) { // no value is like an empty value
          ids = filter(type, [&](const Declared& d) { return user(d, name).empty(); });
        }
        REQUIRE_MSG(
            same(reader.getStreamForTag(name, value, type), nth(ids, 0)), "stream with tag " << pbt::show(name) << "=" << pbt::show(value));
        break;
      }
      case 5: {
        const string serial = s.chance(1, 2) || all.empty() ? s.pick(serials) : declared[s.pick(all)].serial;
        if (!serial.empty()) {
          auto ids = filter(RecordableTypeId::Undefined, [&](const Declared& d) { return d.serial == serial; });
          REQUIRE_MSG(same(reader.getStreamForSerialNumber(serial), nth(ids, 0)), "stream with serial number " << pbt::show(serial));
        }
        break;
      }
      case 6: { // an unknown stream has nothing
        StreamId id(type, (uint16_t)(500 + s.draw(10)));
        REQUIRE(reader.getFlavor(id).empty() && reader.getSerialNumber(id).empty() && reader.getTag(id, s.pick(names)).empty());
        REQUIRE(reader.getOriginalRecordableTypeName(id).empty() && reader.getTags(id).user.empty());
        REQUIRE_EQ(reader.getRecordCount(id), 0u);
        REQUIRE(reader.getIndex(id).empty());
        REQUIRE(reader.getRecord(id, 0) == nullptr);
        break;
      }
      default: {
        if (all.empty()) {
          break;
        }
        StreamId id = s.pick(all);
        const Declared& d = declared[id];
        REQUIRE_EQ_MSG(reader.getFlavor(id), d.flavor, id.getNumericName());
        REQUIRE_EQ_MSG(reader.getSerialNumber(id), d.serial, id.getNumericName());
        REQUIRE_EQ(reader.getOriginalRecordableTypeName(id), toString(id.getTypeId()));
        REQUIRE_MSG(reader.getTags(id).user == d.user, "user tags of " << id.getNumericName());
        const string& name = s.pick(names);
        REQUIRE_EQ(reader.getTag(id, name), user(d, name));
        size_t total = 0;
        for (auto& count : d.counts) {
          REQUIRE_EQ(reader.getRecordCount(id, count.first), (uint32_t)count.second);
          total += count.second;
        }
        REQUIRE_EQ((size_t)reader.getRecordCount(id), total);
        bool images = false, audio = false;
        auto data = d.counts.find(Record::Type::DATA);
        vrs::RecordFormatMap formats;
        reader.getRecordFormats(id, formats);
        for (auto& f : d.formats) {
          auto found = formats.find(f.first);
          REQUIRE_MSG(found != formats.end() && found->second == f.second, "format of " << id.getNumericName());
          vrs::RecordFormat one;
          REQUIRE(reader.getRecordFormat(id, f.first.first, f.first.second, one) && one == f.second);
          if (data != d.counts.end() && data->second > 0) {
            images |= f.second.getBlocksOfTypeCount(vrs::ContentType::IMAGE) > 0;
            audio |= f.second.getBlocksOfTypeCount(vrs::ContentType::AUDIO) > 0;
          }
        }
        if (!d.formats.empty()) {
          REQUIRE_EQ_MSG(reader.mightContainImages(id), images, id.getNumericName());
          REQUIRE_EQ_MSG(reader.mightContainAudio(id), audio, id.getNumericName());
        }
        break;
      }
    }
  };
  for (size_t k = 20 + s.draw(60); k > 0; k--) {
    query();
  }
  string signature;
  for (auto& d : declared) {
    auto n = [&](Record::Type type) {
      auto f = d.second.counts.find(type);
      return std::to_string(f == d.second.counts.end() ? 0 : f->second);
    };
    signature += (signature.empty() ? "" : ",") + std::to_string((int)d.first.getTypeId()) + "-" + d.second.serial + "-" +
        n(Record::Type::CONFIGURATION) + "-" + n(Record::Type::STATE) + "-" + n(Record::Type::DATA);
  }
  REQUIRE_EQ(reader.getStreamsSignature(), signature);
  map<RecordableTypeId, size_t> byType;
  size_t most = 0, sameFlavor = 0;
  map<string, size_t> byFlavor;
  for (auto& d : declared) {
    most = std::max(most, ++byType[d.first.getTypeId()]);
    sameFlavor = std::max(sameFlavor, ++byFlavor[d.second.flavor]);
  }
  if (most >= 3 && sameFlavor >= 2) {
    c.nontrivial(note.str());
  }
}

PBT_TEST(
    tagSets,
    60000,
    3000000,
    "sets of tags of up to 10 texts to the file's tag and back, and arbitrary or mutated texts as tag sets; non-trivial: text that needs "
    "escaping; distinct by content") {
  vector<string> tags(s.size(10));
  bool escaped = false;
  for (auto& t : tags) {
    t = s.text(20);
    for (char ch : t) {
      escaped |= (uint8_t)ch < ' ' || ch == '"' || ch == '\\';
    }
  }
  string json = vrs::tag_conventions::makeTagSet(tags);
  c.note(json);
  vector<string> read{"before"};
  REQUIRE(vrs::tag_conventions::parseTagSet(json, read));
  REQUIRE(read == tags);
  string bad = json;
  for (size_t k = s.draw(3); k > 0 && !bad.empty(); k--) {
    size_t at = s.below(bad.size());
    if (s.flip()) {
      bad.erase(at, 1 + s.draw(5));
    } else {
      bad.insert(at, s.pick({"\"", "{", "]", ",", ":", "null", "1", "\\u"}));
    }
  }
  if (bad.empty() || bad[0] != '{') {
    REQUIRE(!vrs::tag_conventions::parseTagSet(bad, read) || bad.find('{') != string::npos);
  } else {
    vrs::tag_conventions::parseTagSet(bad, read);
  }
  if (escaped) {
    c.nontrivial(json);
  }
}
