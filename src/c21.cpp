// C21: copying a file preserves the selected content.
#include <vrs/utils/cli/MakeZeroFilterCopier.h>

#include "contentgen.h"
#include "copyoptions.h"
#include "damaged.h"

using namespace copies;

PBT_TEST(
    copy,
    9000,
    80000,
    "a recording of any kind, maybe truncated, filtered by streams, types and times, copied with random compression, threads, chunking, index and tag "
    "options, then copied again: records, tags, flavors of the copies compared with those selected in the source, which is unchanged; non-trivial: 3 "
    "records or more copied, with a compression preset, tag override or filter; distinct by content and options") {
  std::ostringstream what;
  Recording rec;
  RecordingOptions opt;
  opt.maxStreams = 4;
  opt.maxOps = 40;
  opt.bigPayload = 3000;
  opt.allowChunks = s.chance(1, 40);
  opt.idGaps = true;
  opt.plainClock = s.flip();
  opt.quietExtremes = true;
  record(s, c, rec, opt);
  REQUIRE_EQ(rec.status, 0);
  if (s.chance(1, 10)) {
    auto chunks = damaged::chunkPathsOf(c.dir(), opt.name);
    Bytes b = damaged::slurp(chunks.back());
    size_t cut = 1 + s.below(std::min<size_t>(b.size(), 3000));
    if (b.size() > cut + 300) {
      damaged::spit(chunks.back(), b, b.size() - cut);
      what << "cut ";
    }
  }
  auto before = damaged::slurpAll(damaged::chunkPathsOf(c.dir(), opt.name));
  RecordFileReader plain;
  REQUIRE_EQ(plain.openFile(rec.path), 0);
  Tags tags = tagsOf(plain);
  Model m;
  m.index = plain.getIndex();
  m.streams = plain.getStreams();
  m.types = {Record::Type::CONFIGURATION, Record::Type::STATE, Record::Type::DATA};
  FilteredFileReader f;
  REQUIRE_EQ(f.setSource(rec.path), 0);
  RecordFilterParams params;
  bool filtered = false;
  if (s.chance(1, 3)) {
    auto filter = genStreamFilter(s, plain);
    std::optional<set<StreamId>> ids;
    bool add = s.flip();
    applyStream(add, filter.second, m.streams, ids);
    REQUIRE(add ? params.includeStream(filter.first) : params.excludeStream(filter.first));
    what << (add ? "+" : "-") << filter.first << " ";
    m.streams = *ids;
    filtered = true;
  }
  if (s.chance(1, 5)) {
    size_t k = s.below(3);
    m.types.erase(k == 0 ? Record::Type::CONFIGURATION : k == 1 ? Record::Type::STATE : Record::Type::DATA);
    params.excludeType(k == 0 ? "configuration" : k == 1 ? "state" : "data");
    what << "-" << (k == 0 ? "configuration " : k == 1 ? "state " : "data ");
    filtered = true;
  }
  auto someTime = [&]() {
    double base = m.index.empty() ? 10 : m.index[s.below(m.index.size())].timestamp;
    return std::max(0., base + (s.chance(1, 2) ? 0 : 0.0625 * (double)s.range(-20, 20)));
  };
  if (s.chance(1, 4)) {
    m.minTime = someTime();
    f.setMinTime(m.minTime, false);
    what << ">" << m.minTime << " ";
    filtered = true;
  }
  if (s.chance(1, 5)) {
    m.maxTime = someTime();
    if (m.maxTime < m.minTime) {
      m.maxTime = m.minTime;
    }
    f.setMaxTime(m.maxTime, false);
    what << "<=" << m.maxTime << " ";
    filtered = true;
  }
  // nothing is read if there is nothing after the beginning of the range
  vector<Info> selected = m.minTime > std::numeric_limits<double>::lowest() && m.anyAfterMin() ? m.preroll() : vector<Info>();
  for (auto& i : m.range()) {
    selected.push_back(i);
  }
  vector<Rec> expected;
  auto ids = mapIds(m.streams);
  {
    Collector ref;
    for (auto id : m.streams) {
      plain.setStreamPlayer(id, &ref);
    }
    for (auto& i : selected) {
      REQUIRE_EQ(plain.readRecord(i), 0);
    }
    expected = ref.records;
    for (auto& r : expected) {
      r.id = ids[r.id];
    }
  }
  Tags expectedTags;
  expectedTags.file = tags.file;
  map<StreamId, string> flavors, serials;
  for (auto& i : ids) {
    expectedTags.streams[i.second] = tags.streams[i.first];
    flavors[i.second] = plain.getFlavor(i.first);
    serials[i.second] = plain.getSerialNumber(i.first);
  }
  // options
  CopyOptions options;
  genOptions(s, options, what, opt.allowChunks || s.chance(1, 10));
  bool overridden = false;
  Tags copyTags = expectedTags;
  if (s.chance(1, 4)) {
    overridden = true;
    for (size_t n = 1 + s.draw(2); n > 0; n--) {
      string name = !tags.file.empty() && s.chance(1, 3) ? tags.file.begin()->first : "o" + s.ident(4), value = s.anyText(20);
      options.getTagOverrider().fileTags[name] = value;
      copyTags.file[name] = value;
    }
    if (!ids.empty() && s.chance(2, 3)) {
      StreamId id = copyTags.streams.begin()->first;
      auto& user = copyTags.streams[id].user;
      string name = !user.empty() && s.chance(1, 3) ? user.begin()->first : "s" + s.ident(4), value = s.anyText(20);
      options.getTagOverrider().streamTags[id][name] = value;
      user[name] = value;
    }
    options.getTagOverrider().streamTags[StreamId(RecordableTypeId::UnitTest1, 9)]["none"] = "nothing";
    what << "overrides ";
  }
  c.note(what.str());
  REQUIRE_EQ(f.openFile(params), 0);
  string copyPath = c.dir() + "/copy.vrs";
  if (s.chance(1, 25)) {
    // a copy that can't be written fails
    CopyOptions o2;
    o2.showProgress = false;
    o2.compressionPoolSize = 0;
    FilteredFileReader f2(rec.path);
    REQUIRE_EQ(f2.openFile(params), 0);
    REQUIRE(filterCopy(f2, c.dir() + "/missing/copy.vrs", o2) != 0);
  }
  int status = s.chance(1, 4) ? filterCopy(f, copyPath, options, makeCopier, std::make_unique<Delegate>(s.flip())) : filterCopy(f, copyPath, options);
  REQUIRE_EQ(status, 0);
  REQUIRE_EQ((size_t)options.outRecordCopiedCount, expected.size());
  auto check = [&](const string& path, const Tags& t) {
    RecordFileReader r;
    REQUIRE_EQ(r.openFile(path), 0);
    REQUIRE(r.hasIndex() || expected.empty());
    int rs = 0;
    vector<Rec> actual = readAll(r, rs);
    REQUIRE_EQ(rs, 0);
    requireSameRecords(expected, actual, path.substr(c.dir().size()));
    requireTags(r, t);
    for (auto& i : flavors) {
      REQUIRE((i.second.empty() && serials[i.first].empty()) || r.getFlavor(i.first) == i.second);
      REQUIRE(serials[i.first].empty() || r.getSerialNumber(i.first) == serials[i.first]);
    }
    if (options.maxChunkSizeMB == 0) {
      REQUIRE_EQ(r.getFileChunks().size(), (size_t)1);
    }
    return r.getFileChunks().size();
  };
  size_t chunkCount = check(copyPath, copyTags);
  // options can be reused
  CopyOptions again(options), assigned;
  assigned = options;
  for (auto* o : {&again, &assigned}) {
    REQUIRE_EQ((int)o->getCompression(), (int)options.getCompression());
    REQUIRE_EQ(o->preallocateIndex, options.preallocateIndex);
    REQUIRE_EQ(o->maxChunkSizeMB, options.maxChunkSizeMB);
    REQUIRE_EQ(o->graceWindow, options.graceWindow);
    REQUIRE_EQ(o->compressionPoolSize, options.compressionPoolSize);
    REQUIRE_EQ(o->tagOverrider != nullptr, options.tagOverrider != nullptr);
  }
  // copying again, with other options
  if (s.flip()) {
    FilteredFileReader f2(copyPath);
    REQUIRE_EQ(f2.openFile(), 0);
    CopyOptions o2;
    genOptions(s, o2, what, false);
    REQUIRE_EQ(filterCopy(f2, c.dir() + "/second.vrs", o2), 0);
    check(c.dir() + "/second.vrs", copyTags);
    REQUIRE_EQ((size_t)o2.outRecordCopiedCount, expected.size());
  }
  REQUIRE(before == damaged::slurpAll(damaged::chunkPathsOf(c.dir(), opt.name)));
  c.label("chunked copy", chunkCount > 1);
  c.label("filtered", filtered);
  c.label("tags overridden", overridden);
  if (expected.size() >= 3) {
    string w = what.str();
    c.nontrivial(pbt::hashBytes(w.data(), w.size(), expected.size() * 7919 + rec.log.size()));
  }
}

namespace {

/// Rewrites records: those chosen block by block, with images and audio inverted
class Editor : public RecordFilterCopier {
 public:
  struct Plan {
    uint64_t salt = 0;
    bool invertImages = false, invertAudio = false, skip = false;
    double shift = 0;
    set<std::tuple<StreamId, Record::Type, uint32_t>> noFormat;
    bool verbatim(StreamId id, double ts, Record::Type type, uint32_t version) const {
      // what follows can't be interpreted when a configuration isn't
      return noFormat.count({id, type, version}) != 0 || (type != Record::Type::CONFIGURATION && (pick(id, ts, type) & 3) == 0);
    }
    bool skipped(StreamId id, double ts, Record::Type type) const {
      return skip && type == Record::Type::DATA && (pick(id, ts, type) & 28) == 0;
    }
    uint64_t pick(StreamId id, double ts, Record::Type type) const {
      return pbt::mix64(salt ^ (uint64_t)(ts * 16) ^ ((uint64_t)id.getTypeId() << 32) ^ ((uint64_t)type << 50));
    }
  };
  Editor(RecordFileReader& r, RecordFileWriter& w, StreamId id, const CopyOptions& o, const Plan& plan) : RecordFilterCopier(r, w, id, o), plan_{plan} {}
  bool shouldCopyVerbatim(const CurrentRecord& r) override {
    return plan_.verbatim(r.streamId, r.timestamp, r.recordType, r.formatVersion);
  }
  void doHeaderEdits(CurrentRecord& r) override {
    r.timestamp += plan_.shift;
  }
  void doDataLayoutEdits(const CurrentRecord& r, size_t, DataLayout&) override {
    maySkip(r);
  }
  void filterImage(const CurrentRecord& r, size_t, const vrs::ContentBlock& cb, vector<uint8_t>& b) override {
    REQUIRE_EQ(cb.getBlockSize(), b.size());
    if (plan_.invertImages) {
      invert(b);
    }
    maySkip(r);
  }
  void filterAudio(const CurrentRecord& r, size_t, const vrs::ContentBlock& cb, vector<uint8_t>& b) override {
    REQUIRE_EQ(cb.getBlockSize(), b.size());
    if (plan_.invertAudio) {
      invert(b);
    }
    maySkip(r);
  }

 private:
  void maySkip(const CurrentRecord& r) {
    if (plan_.skipped(r.streamId, r.timestamp, r.recordType)) {
      skipRecord();
    }
  }
  static void invert(vector<uint8_t>& b) {
    for (auto& x : b) {
      x = ~x;
    }
  }
  const Plan& plan_;
};

} // namespace

PBT_TEST(
    rewrite,
    12000,
    120000,
    "streams of images, audio, layouts and custom blocks, copied by filters that change nothing, invert or blank the images and audio, skip records, shift "
    "times, or remove images and audio with their definition: every byte of each record compared; after a removal, formats and layouts can be read; "
    "non-trivial: an image or audio block was changed and another block of that record kept; distinct by formats") {
  using namespace contentgen;
  FormatRecording fr;
  string path = c.dir() + "/f.vrs";
  {
    vrs::TemporaryRecordableInstanceIdsResetter resetter;
    recordFormats(s, c, fr, path);
  }
  enum { Edit, Zero, Remove };
  size_t mode = s.weighted({3, 2, 2});
  Editor::Plan plan;
  plan.salt = s.u64();
  plan.invertImages = s.flip();
  plan.invertAudio = s.flip();
  plan.skip = s.chance(1, 3);
  plan.shift = s.chance(1, 3) ? 0.5 * (double)s.draw(100) : 0;
  map<StreamId, contentgen::Stream*> streamOf;
  for (auto& st : fr.streams) {
    streamOf[st.stream->getStreamId()] = &st;
    for (auto& k : st.kinds) {
      if (!k.hasFormat) {
        plan.noFormat.insert({st.stream->getStreamId(), k.type, k.version});
      }
    }
  }
  c.note(string("mode:") + (mode == Edit ? "edit " : mode == Zero ? "zero " : "remove ") + (plan.invertImages ? "images " : "") + (plan.invertAudio ? "audio " : ""));
  // expected content
  vector<Rec> expected;
  bool mixed = false, unsupported = false;
  for (auto& e : fr.expected) {
    Rec r;
    r.id = e.id;
    r.ts = e.ts;
    r.type = e.type;
    r.version = e.version;
    r.data = e.bytes;
    bool verbatim = plan.verbatim(e.id, e.ts, e.type, e.version);
    if (mode == Edit) {
      r.ts += plan.shift;
      if (!verbatim && !e.bytes.empty() && plan.skipped(e.id, e.ts, e.type)) {
        bool any = false;
        for (auto& ev : e.events) {
          any = any || ev.type == ContentType::DATA_LAYOUT || (!ev.unsupported && (ev.type == ContentType::IMAGE || ev.type == ContentType::AUDIO));
        }
        if (any) {
          continue;
        }
      }
    }
    Bytes bytes;
    size_t at = 0;
    bool changed = false, kept = false;
    for (auto& ev : e.events) {
      bytes.insert(bytes.end(), e.bytes.begin() + at, e.bytes.begin() + ev.offset);
      at = ev.offset;
      bool media = ev.type == ContentType::IMAGE || ev.type == ContentType::AUDIO;
      if (media && ev.unsupported) {
        unsupported = true;
        continue;
      }
      kept = kept || !media;
      if (!media) {
        continue;
      }
      changed = true;
      Bytes b = ev.bytes;
      if (mode == Edit && !verbatim && (ev.type == ContentType::IMAGE ? plan.invertImages : plan.invertAudio)) {
        for (auto& x : b) {
          x = ~x;
        }
      } else if (mode == Zero) {
        b.assign(b.size(), 0);
      } else if (mode == Remove) {
        b.clear();
      } else {
        changed = mode != Edit;
      }
      at += ev.bytes.size();
      bytes.insert(bytes.end(), b.begin(), b.end());
    }
    bytes.insert(bytes.end(), e.bytes.begin() + at, e.bytes.end());
    mixed = mixed || (changed && kept);
    r.data = bytes;
    expected.push_back(r);
  }
  if (unsupported && mode == Remove) {
    throw pbt::Discard{}; // can't be removed without knowing where they end
  }
  CopyOptions options;
  std::ostringstream what;
  genOptions(s, options, what, false);
  if (mode == Remove) {
    options.miscParams[kRemoveContentBlocks] = "1";
  }
  FilteredFileReader f(path);
  REQUIRE_EQ(f.openFile(), 0);
  Tags tags = tagsOf(f.reader);
  string copyPath = c.dir() + "/copy.vrs";
  if (mode == Edit) {
    auto make = [&](RecordFileReader& r, RecordFileWriter& w, StreamId id, const CopyOptions& o) -> std::unique_ptr<StreamPlayer> {
      return std::make_unique<Editor>(r, w, id, o, plan);
    };
    REQUIRE_EQ(filterCopy(f, copyPath, options, make), 0);
  } else {
    REQUIRE_EQ(filterCopy(f, copyPath, options, makeZeroFilterCopier), 0);
  }
  RecordFileReader r;
  REQUIRE_EQ(r.openFile(copyPath), 0);
  int rs = 0;
  vector<Rec> actual = readAll(r, rs);
  REQUIRE_EQ(rs, 0);
  requireSameRecords(expected, actual, "rewritten");
  if (mode != Remove) {
    requireTags(r, tags);
  } else {
    REQUIRE_EQ(r.getTags(), tags.file);
    for (auto id : r.getStreams()) {
      auto user = tags.streams[id].user;
      user["image-and-audio-content-blocks-removed"] = "true";
      REQUIRE_EQ(r.getTags(id).user, user);
      vrs::RecordFormatMap formats;
      r.getRecordFormats(id, formats);
      for (auto& k : streamOf[id]->kinds) {
        if (!k.hasFormat) {
          continue;
        }
        RecordFormat expectedFormat;
        size_t at = 0;
        vrs::RecordFormatMap originals;
        f.reader.getRecordFormats(id, originals);
        for (size_t b = 0; b < originals[{k.type, k.version}].getUsedBlocksCount(); b++) {
          auto& block = k.blocks[b];
          if (block.type == ContentType::IMAGE || block.type == ContentType::AUDIO) {
            continue;
          }
          expectedFormat + block.format.getContentBlock(0);
          if (block.type == ContentType::DATA_LAYOUT) {
            auto layout = r.getDataLayout(id, vrs::ContentBlockId(id.getTypeId(), k.type, k.version, at));
            REQUIRE_MSG(layout != nullptr, "no layout for block " << at << " of " << expectedFormat.asString() << ", which was block " << b);
            auto original = f.reader.getDataLayout(id, vrs::ContentBlockId(id.getTypeId(), k.type, k.version, b));
            REQUIRE_MSG(original != nullptr && original->asJson() == layout->asJson(), "wrong layout for block " << at << ", which was block " << b);
          }
          at++;
        }
        // (blocks at the end that are empty change nothing)
        string a = formats[{k.type, k.version}].asString(), b = expectedFormat.asString();
        for (auto* t : {&a, &b}) {
          while (t->size() > 6 && t->substr(t->size() - 6) == "+empty") {
            t->resize(t->size() - 6);
          }
        }
        REQUIRE_EQ(a, b);
      }
    }
  }
  c.label(mode == Edit ? "edited" : mode == Zero ? "blanked" : "removed");
  c.label("unsupported", unsupported);
  if (mixed) {
    c.nontrivial(fr.formats);
  }
}
