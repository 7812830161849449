// C14: playback delivers each content block exactly as recorded.
#include "contentgen.h"

using namespace contentgen;

namespace {

class Player : public RecordFormatStreamPlayer {
 public:
  Player(pbt::Src& s, bool quiet) : s_{s}, alwaysQuiet_{quiet} {}

  void begin(const Expected* e) {
    e_ = e;
    // what a configuration describes is only known if it's been read
    quiet_ = alwaysQuiet_ || e->type == Record::Type::CONFIGURATION;
    next_ = 0;
    done_ = false;
    skipping_ = 0;
  }
  void end() {
    if (!done_ && e_ != nullptr) {
      REQUIRE_EQ_MSG(next_, e_->events.size(), "blocks delivered");
    }
    e_ = nullptr;
  }
  bool onDataLayoutRead(const vrs::CurrentRecord& r, size_t index, vrs::DataLayout& layout) override {
    const Event& ev = expect(r, index, ContentType::DATA_LAYOUT, false);
    lay::requireValues(layout, ev.layout, "block #" + std::to_string(index));
    return more();
  }
  bool onImageRead(const vrs::CurrentRecord& r, size_t index, const ContentBlock& cb) override {
    const Event& ev = expect(r, index, ContentType::IMAGE, false);
    requireBlock(cb, ev);
    return consume(r, index, cb, ev);
  }
  bool onAudioRead(const vrs::CurrentRecord& r, size_t index, const ContentBlock& cb) override {
    const Event& ev = expect(r, index, ContentType::AUDIO, false);
    requireBlock(cb, ev);
    REQUIRE_EQ_MSG((int)cb.audio().getStereoPairCount(), (int)ev.pairs, "stereo pairs of " << cb.asString());
    return consume(r, index, cb, ev);
  }
  bool onCustomBlockRead(const vrs::CurrentRecord& r, size_t index, const ContentBlock& cb) override {
    const Event& ev = expect(r, index, ContentType::CUSTOM, false);
    requireBlock(cb, ev);
    REQUIRE_EQ(cb.getCustomContentBlockFormat(), ev.block.getCustomContentBlockFormat());
    return consume(r, index, cb, ev);
  }
  bool onUnsupportedBlock(const vrs::CurrentRecord& r, size_t index, const ContentBlock& cb) override {
    if (skipping_ > 0) { // called by the default implementation of another callback
      return RecordFormatStreamPlayer::onUnsupportedBlock(r, index, cb);
    }
    const Event& ev = expect(r, index, cb.getContentType(), true);
    REQUIRE_EQ(cb.asString(), ev.block.asString());
    bool again = RecordFormatStreamPlayer::onUnsupportedBlock(r, index, cb);
    REQUIRE_EQ(again, cb.getBlockSize() != ContentBlock::kSizeUnknown);
    return again;
  }
  size_t stops = 0, skips = 0;

 private:
  const Event& expect(const vrs::CurrentRecord& r, size_t index, ContentType type, bool unsupported) {
    REQUIRE(e_ != nullptr);
    REQUIRE_MSG(!done_, "block #" << index << " delivered after reading was stopped");
    REQUIRE(r.streamId == e_->id && r.timestamp == e_->ts && r.recordType == e_->type && r.formatVersion == e_->version);
    REQUIRE_EQ(r.recordSize, e_->size);
    REQUIRE_MSG(next_ < e_->events.size(), "unexpected block #" << index);
    const Event& ev = e_->events[next_++];
    REQUIRE_EQ(index, ev.index);
    REQUIRE_EQ((int)type, (int)ev.type);
    REQUIRE_EQ_MSG(unsupported, ev.unsupported, "block #" << index << " " << ev.block.asString() << " unsupported");
    if (type != ContentType::DATA_LAYOUT) {
      REQUIRE_EQ_MSG(r.reader->getUnreadBytes(), e_->size - ev.offset, "bytes left at block #" << index);
    }
    return ev;
  }
  void requireBlock(const ContentBlock& cb, const Event& ev) {
    REQUIRE_EQ_MSG(cb.getBlockSize(), ev.bytes.size(), "size of " << cb.asString());
    if (cb.getContentType() == ContentType::IMAGE) {
      REQUIRE_MSG(cb.image() == ev.block.image(), "image described as " << cb.asString() << " rather than " << ev.block.asString());
    } else if (cb.getContentType() == ContentType::AUDIO) {
      REQUIRE_MSG(cb.audio() == ev.block.audio(), "audio described as " << cb.asString() << " rather than " << ev.block.asString());
    }
  }
  bool more() {
    if (!quiet_ && s_.chance(1, 12)) {
      done_ = true;
      stops++;
      return false;
    }
    return true;
  }
  bool consume(const vrs::CurrentRecord& r, size_t index, const ContentBlock& cb, const Event& ev) {
    size_t n = ev.bytes.size();
    size_t toRead = n;
    bool again = true;
    switch (quiet_ ? s_.draw(2) : s_.draw(6)) {
      case 0: { // all at once
        Bytes got(n);
        REQUIRE_EQ(r.reader->read(got), 0);
        REQUIRE_EQ_MSG(got, ev.bytes, "block #" << index);
        return more();
      }
      case 1: { // with a data reference
        size_t half = s_.below(n + 1);
        Bytes a(half), b(n - half);
        vrs::DataReference ref(a.data(), (uint32_t)a.size(), b.data(), (uint32_t)b.size());
        uint32_t readSize = 0;
        REQUIRE_EQ(r.reader->read(ref, readSize), 0);
        REQUIRE_EQ(readSize, n);
        a.insert(a.end(), b.begin(), b.end());
        REQUIRE_EQ_MSG(a, ev.bytes, "block #" << index);
        return more();
      }
      case 2: // pieces
        break;
      case 3: { // left to the default implementation
        skipping_++;
        skips++;
        bool a = cb.getContentType() == ContentType::IMAGE ? RecordFormatStreamPlayer::onImageRead(r, index, cb)
            : cb.getContentType() == ContentType::AUDIO    ? RecordFormatStreamPlayer::onAudioRead(r, index, cb)
                                                           : RecordFormatStreamPlayer::onCustomBlockRead(r, index, cb);
        skipping_--;
        REQUIRE_MSG(a, "block #" << index << " " << cb.asString() << " couldn't be skipped");
        return more();
      }
      case 4: // partial
        toRead = s_.below(n + 1);
        again = false;
        break;
      case 5:
        break;
      default:
        toRead = 0;
        again = false;
        break;
    }
    Bytes got(toRead);
    size_t at = 0;
    while (at < toRead) {
      size_t step = 1 + s_.below(std::min<size_t>(toRead - at, 30));
      REQUIRE_EQ(r.reader->read(got.data() + at, step), 0);
      at += step;
    }
    REQUIRE_EQ_MSG(got, Bytes(ev.bytes.begin(), ev.bytes.begin() + toRead), "block #" << index);
    if (!again) {
      done_ = true;
      stops++;
      return false;
    }
    return more();
  }

  pbt::Src& s_;
  bool alwaysQuiet_;
  bool quiet_ = false;
  const Expected* e_ = nullptr;
  size_t next_ = 0;
  bool done_ = false;
  int skipping_ = 0;
};

} // namespace

PBT_TEST(
    playback,
    30000,
    800000,
    "1 to 3 streams with configuration, state and data formats of up to 6 blocks; image & audio described by the format, by a layout before "
    "them, or by the configuration in force, sizes declared in formats, layouts, or deduced; read in order then in random order, by handlers "
    "which read, skip, or stop; non-trivial: an image or audio block described by a layout was delivered; distinct by formats") {
  FormatRecording fr;
  string path = c.dir() + "/f.vrs";
  recordFormats(s, c, fr, path, s.chance(1, 4));
  vector<Stream>& streams = fr.streams;
  vector<Expected>& expected = fr.expected;
  const string& formats = fr.formats;
  bool described = fr.described;

  vrs::RecordFileReader reader;
  REQUIRE_EQ(reader.openFile(path), 0);
  bool quiet = s.chance(1, 4);
  vector<std::unique_ptr<Player>> players;
  std::map<StreamId, Player*> of;
  bool shared = s.flip();
  for (auto id : reader.getStreams()) {
    if (players.empty() || !shared) {
      players.push_back(std::make_unique<Player>(s, quiet));
    }
    of[id] = players.back().get();
    reader.setStreamPlayer(id, players.back().get());
  }
  const auto& index = reader.getIndex();
  REQUIRE_EQ(index.size(), expected.size());
  auto read = [&](size_t k) {
    const Expected& e = expected[k];
    Player* p = of[e.id];
    p->begin(&e);
    REQUIRE_EQ_MSG(reader.readRecord(index[k]), 0, "record #" << k);
    p->end();
  };
  bool early = false, inconsistent = false;
  for (size_t k = 0; k < expected.size(); k++) {
    read(k);
    early = early || expected[k].beforeConfig;
    inconsistent = inconsistent || expected[k].inconsistent;
  }
  for (size_t n = s.size(10); n > 0; n--) {
    size_t k = s.below(expected.size());
    if (expected[k].beforeConfig) {
      continue; // it might be read with a configuration that's not its own
    }
    if (expected[k].needsConfig && expected[k].config != SIZE_MAX) {
      read(expected[k].config);
    }
    read(k);
  }
  size_t stops = 0, skips = 0;
  for (auto& p : players) {
    stops += p->stops;
    skips += p->skips;
  }
  c.label("stopped", stops > 0);
  c.label("skipped", skips > 0);
  c.label("before config", early);
  c.label("inconsistent audio sizes", inconsistent);
  if (described) {
    c.nontrivial(formats);
  }
}
