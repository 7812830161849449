// Damaged recordings: mutations of structures or bytes, hostile definitions, and what reads them.
#pragma once

#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>

#include <vrs/FileFormat.h>

#include "content.h"
#include "damaged.h"

using namespace content;

namespace {

// -- memory oracle ---------------------------------------------------------------------------
std::atomic<size_t> sLimit{~(size_t)0};
void mallocHook(const volatile void*, size_t size) {
  if (size > sLimit.load(std::memory_order_relaxed)) {
    size_t limit = sLimit.exchange(~(size_t)0);
    fprintf(stderr, "ERROR: allocation of %zu bytes, out of proportion with the file (limit: %zu)\n", size, limit);
    __sanitizer_print_stack_trace();
    abort();
  }
}
void freeHook(const volatile void*) {}
/// while alive, allocations have a maximum
struct MemoryWatch {
  explicit MemoryWatch(size_t fileSize) {
    static int installed = __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
    (void)installed;
    // the limits the library sets itself: 1 GB for the fixed size data of a layout, 100000 times the size of a compressed index
    sLimit = (1u << 30) + (64u << 20) + 200 * fileSize + std::min<size_t>(100000 * fileSize, 1u << 30);
  }
  ~MemoryWatch() {
    sLimit = ~(size_t)0;
  }
};
constexpr uint32_t kMaxExpand = 8u << 20;

// -- readers ---------------------------------------------------------------------------------

/// reads everything, whatever is declared
class Explorer : public vrs::RecordFormatStreamPlayer {
 public:
  explicit Explorer(uint64_t mode) : mode_{mode} {}
  bool onDataLayoutRead(const vrs::CurrentRecord& record, size_t blockIndex, vrs::DataLayout& layout) override {
    layouts++;
    std::ostringstream out;
    switch (mode_ % 3) {
      case 0:
        layout.printLayout(out, "  ");
        break;
      case 1:
        layout.printLayoutCompact(out, "  ");
        break;
      default:
        layout.asJson();
        break;
    }
    (void)layout.isVarDataIndexValid();
    auto& image = getExpectedLayout<vrs::datalayout_conventions::ImageSpec>(layout, blockIndex);
    (void)image.getImageContentBlock(vrs::ImageContentBlockSpec(vrs::ImageFormat::RAW));
    std::string codec;
    image.codecName.get(codec);
    layout.stageCurrentValues();
    lay::bytesOf(layout);
    return true;
  }
  bool take(const vrs::CurrentRecord& record, const ContentBlock& cb) {
    (void)cb.asString();
    size_t size = cb.getBlockSize();
    size_t avail = record.reader->getUnreadBytes();
    if (size == ContentBlock::kSizeUnknown || size > avail) {
      size = avail;
    }
    size = std::min<size_t>(size, 1 << 20);
    Bytes b(size);
    return record.reader->read(b) == 0;
  }
  bool onImageRead(const vrs::CurrentRecord& record, size_t idx, const ContentBlock& cb) override {
    images++;
    const auto& im = cb.image();
    (void)im.asString();
    (void)im.getRawImageSize();
    (void)im.getStride();
    (void)im.getBytesPerPixel();
    (void)im.getPlaneCount();
    for (uint32_t k = 0; k < im.getPlaneCount() && k < 8; k++) {
      (void)im.getPlaneHeight(k);
      (void)im.getPlaneStride(k);
    }
    return mode_ % 5 == 4 ? RecordFormatStreamPlayer::onImageRead(record, idx, cb) : take(record, cb);
  }
  bool onAudioRead(const vrs::CurrentRecord& record, size_t idx, const ContentBlock& cb) override {
    audios++;
    const auto& a = cb.audio();
    (void)a.asString();
    (void)a.getPcmBlockSize();
    (void)a.getSampleFrameStride();
    return mode_ % 5 == 4 ? RecordFormatStreamPlayer::onAudioRead(record, idx, cb) : take(record, cb);
  }
  bool onCustomBlockRead(const vrs::CurrentRecord& record, size_t idx, const ContentBlock& cb) override {
    customs++;
    return mode_ % 5 == 4 ? RecordFormatStreamPlayer::onCustomBlockRead(record, idx, cb) : take(record, cb);
  }
  size_t layouts = 0, images = 0, audios = 0, customs = 0;

 private:
  uint64_t mode_;
};

class CappedCollector : public gen::Collector {
 public:
  bool processRecordHeader(const vrs::CurrentRecord& record, vrs::DataReference& out) override {
    size_t n = std::min<size_t>(record.recordSize, kMaxExpand);
    buffer.assign(n, 0xA5);
    out.useVector(buffer);
    return true;
  }
};

/// true if the header of the record tells a size we don't want to expand
bool expandsTooMuch(const Bytes& all, const vrs::IndexRecord::RecordInfo& info) {
  vrs::FileFormat::RecordHeader h;
  if (!physical::getStruct(all, info.fileOffset, h)) {
    return false;
  }
  return h.compressionType != 0 && h.uncompressedSize > kMaxExpand;
}

struct Outcome {
  int open = 0;
  size_t records = 0, readOk = 0, readFailed = 0, layouts = 0, images = 0, audios = 0, customs = 0;
};

Outcome explore(const std::vector<std::string>& paths, const Bytes& all, uint64_t mode, bool fix) {
  Outcome o;
  vrs::RecordFileReader reader;
  if (paths.size() > 1) {
    vrs::FileSpec spec;
    spec.chunks = paths;
    o.open = reader.openFile(spec, fix);
  } else {
    o.open = reader.openFile(paths[0], fix);
  }
  if (o.open != 0) {
    return o;
  }
  (void)reader.hasIndex();
  (void)reader.getTags();
  (void)reader.getFileChunks();
  (void)reader.getTotalSourceSize();
  (void)reader.getStreamsSignature();
  Explorer explorer(mode);
  CappedCollector collector;
  for (auto id : reader.getStreams()) {
    (void)reader.getTags(id);
    (void)reader.getOriginalRecordableTypeName(id);
    (void)reader.getFlavor(id);
    (void)reader.getSerialNumber(id);
    (void)reader.mightContainImages(id);
    (void)reader.mightContainAudio(id);
    vrs::RecordFormatMap formats;
    reader.getRecordFormats(id, formats);
    for (auto& f : formats) {
      (void)f.second.asString();
      (void)f.second.getRecordSize();
      for (size_t k = 0; k < f.second.getUsedBlocksCount(); k++) {
        (void)f.second.getRemainingBlocksSize(k);
        auto layout = reader.getDataLayout(id, vrs::ContentBlockId(id.getTypeId(), f.first.first, f.first.second, k));
        if (layout) {
          std::ostringstream out;
          layout->printLayout(out);
        }
      }
    }
    (void)reader.getIndex(id);
    (void)reader.getLastRecord(id, Record::Type::DATA);
    (void)reader.getRecord(id, Record::Type::DATA, 1);
  }
  const auto& index = reader.getIndex();
  o.records = index.size();
  for (size_t k = 0; k < index.size(); k++) {
    (void)reader.getRecordSize((uint32_t)k, k % 2 == 0);
    if (k < 3) {
      (void)reader.getRecordByTime(index[k].streamId, index[k].timestamp);
      (void)reader.getRecordStreamIndex(&index[k]);
      (void)reader.getNearestRecordByTime(index[k].timestamp, 1.);
    }
  }
  (void)reader.getRecordSize((uint32_t)index.size());
  // a hostile index may refer to the same large area many times
  size_t limit = std::min<size_t>(index.size(), 300);
  for (size_t k = 0; k < limit; k++) {
    int status = reader.readRecord(index[k], &collector);
    (status == 0 ? o.readOk : o.readFailed)++;
    collector.records.clear();
  }
  explorer.onAttachedToFileReader(reader, {});
  for (auto id : reader.getStreams()) {
    reader.setStreamPlayer(id, &explorer);
  }
  for (size_t k = 0; k < limit; k++) {
    if (!expandsTooMuch(all, index[k])) {
      reader.readRecord(index[k]);
    }
  }
  o.layouts = explorer.layouts;
  o.images = explorer.images;
  o.audios = explorer.audios;
  o.customs = explorer.customs;
  reader.closeFile();
  return o;
}

// -- a recording with content blocks -----------------------------------------------------------

std::string genFormatText(pbt::Src& s, const std::string& valid) {
  // mutate a format string
  std::string f = valid;
  static const char* kTokens[] = {
      "image/raw/640x480/pixel=rgb8", "image/raw/4294967295x4294967295/pixel=rgba32F", "/stride=1", "/stride=4294967295", "image/jpg",
      "image/png", "image/custom_codec", "image/video/codec=H.264", "/codec=", "/codec_quality=300", "/keyframe_timestamp=nan",
      "/keyframe_index=99999999999999999999", "audio/pcm/int16le/rate=48000/channels=2", "/samples=4294967295", "/channels=255",
      "audio/opus", "/stride=255", "custom", "custom/format=%zz%", "data_layout", "data_layout/size=4", "empty", "+", "++", "/",
      "/size=18446744073709551615", "/size=18446744073709551614", "/size=-1", "/size=0", "/size=9223372036854775808", "0x0", "x",
      "/pixel=yuv_i420_split", "/pixel=raw10_bayer_rggb", "/pixel=", "=", "/rate=0", "audio/pcm/uint8/channels=0", "\xff",
      "/stride_2=9", "image/raw/1x4294967295/pixel=grey8/stride=4294967295", "unknown_block"};
  for (size_t n = 1 + s.draw(3); n > 0; n--) {
    size_t at = f.empty() ? 0 : s.below(f.size() + 1);
    switch (s.draw(4)) {
      case 0:
        f.insert(at, s.pick(kTokens));
        break;
      case 1:
        f = s.pick(kTokens) + std::string(s.flip() ? "+" : "") + f;
        break;
      case 2:
        f += (s.flip() ? "+" : "") + std::string(s.pick(kTokens));
        break;
      case 3:
        if (at < f.size()) {
          f.erase(at, 1 + s.draw(10));
        }
        break;
      default:
        if (at < f.size()) {
          f[at] = (char)s.draw(255);
        }
        break;
    }
  }
  return f;
}

std::string genJsonText(pbt::Src& s, const std::string& valid) {
  std::string j = valid;
  static const char* kTokens[] = {
      "4294967295", "-1", "1e999", "null", "[]", "{}", "[[[[", "\"\"", "\"size\":4294967295", "\"size\":1000000000", "\"size\":0", "\"size\":-5",
      "{\"name\":\"x\",\"type\":\"DataPieceArray<Matrix4Dd>\",\"size\":4294967295},", "{\"name\":\"x\",\"type\":\"DataPieceArray<uint8_t>\",\"size\":0},",
      "3,", "\"text\",", "null,", "{\"type\":\"DataPieceString\"},", "{\"name\":\"y\"},", "{\"name\":\"y\",\"type\":\"DataPieceWhat\"},",
      "{\"name\":3,\"type\":\"DataPieceString\"},", "{\"name\":\"z\",\"type\":\"DataPieceString\",\"default\":4},",
      "{\"name\":\"z\",\"type\":\"DataPieceVector<int32_t>\",\"default\":[\"a\",{}]},",
      "{\"name\":\"z\",\"type\":\"DataPieceArray<Point3Df>\",\"size\":3,\"default\":[[1,2],3]},",
      "{\"name\":\"z\",\"type\":\"DataPieceValue<Matrix3Dd>\",\"default\":[1,[2],\"3\"]},",
      "{\"name\":\"z\",\"type\":\"DataPieceStringMap<int8_t>\",\"default\":[1]},", "\"tags\":[1]", "\"tags\":{\"a\":1}", "\"required\":\"yes\"",
      "\"properties\":3,", "\"properties\":{\"min\":\"a\"},", "DataPieceVector<", "uint64_t", "string", "Matrix4Dd", "\\u0000", "\\ud800"};
  for (size_t n = 1 + s.draw(3); n > 0; n--) {
    size_t at = j.empty() ? 0 : s.below(j.size() + 1);
    switch (s.draw(5)) {
      case 0: // at the start of the array
        at = j.find('[');
        at = at == std::string::npos ? 0 : at + 1;
        j.insert(at, s.pick(kTokens));
        break;
      case 1: { // after a comma, a colon, or an opening brace
        size_t p = j.find_first_of(",:{", at);
        j.insert(p == std::string::npos ? at : p + 1, s.pick(kTokens));
        break;
      }
      case 2:
        if (at < j.size()) {
          j.erase(at, 1 + s.draw(20));
        }
        break;
      case 3:
        j.resize(at);
        break;
      case 4: { // replace a type
        size_t p = j.find("DataPiece", at);
        size_t e = p == std::string::npos ? p : j.find('"', p);
        if (e != std::string::npos) {
          static const char* kTypes[] = {"DataPieceArray<double>", "DataPieceVector<string>", "DataPieceStringMap<string>", "DataPieceValue<Bool>",
                                         "DataPieceStringMap<Point4Di>", "DataPieceString", "DataPieceVector<Matrix4Df>", "DataPieceArray<string>"};
          j.replace(p, e - p, s.pick(kTypes));
        }
        break;
      }
      default:
        if (at < j.size()) {
          j[at] = (char)s.draw(255);
        }
        break;
    }
  }
  return j;
}

Bytes randomPayload(pbt::Src& s) {
  Bytes b = s.bytes(s.size(400));
  // sizes & offsets are 32 bit values: make a few of them extreme, or small
  for (size_t n = s.draw(4); n > 0 && b.size() >= 4; n--) {
    uint32_t v = s.flip() ? (uint32_t)s.interesting(32) : (uint32_t)s.draw(64);
    memcpy(b.data() + s.below(b.size() / 4) * 4, &v, 4);
  }
  return b;
}

struct TypedRecording {
  std::string path;
  std::vector<gen::Rec> log;
  std::vector<std::unique_ptr<FormatStream>> streams;
};

/// streams with formats; with hostile set, formats, layouts or payloads may be nonsense
void makeTyped(pbt::Src& s, pbt::Ctx& c, TypedRecording& rec, bool hostile) {
  vrs::TemporaryRecordableInstanceIdsResetter resetter;
  rec.path = c.dir() + "/typed.vrs";
  vrs::RecordFileWriter writer;
  std::ostringstream note;
  size_t count = 1 + s.draw(1);
  lay::ValueStyle style;
  for (size_t k = 0; k < count; k++) {
    auto st = std::make_unique<FormatStream>(gen::genTypeId(s), "test/c05", &rec.log);
    st->setCompression(s.chance(2, 3) ? vrs::CompressionPreset::None : gen::genPreset(s));
    struct Kind {
      Record::Type type;
      uint32_t version;
      std::vector<std::unique_ptr<lay::Live>> layouts;
      std::vector<lay::Layout> defs;
      std::string format;
    };
    std::vector<Kind> kinds;
    static const Record::Type kTypes[] = {Record::Type::CONFIGURATION, Record::Type::DATA, Record::Type::STATE};
    for (Record::Type t : kTypes) {
      if (s.chance(1, 3) && t != Record::Type::DATA) {
        continue;
      }
      Kind kind;
      kind.type = t;
      kind.version = 1;
      size_t blocks = 1 + s.draw(2);
      vrs::RecordFormat format;
      std::vector<const vrs::DataLayout*> layouts;
      for (size_t b = 0; b < blocks; b++) {
        static const char* kBlocks[] = {"image/raw/7x5/pixel=grey8", "image/raw", "image/jpg", "image/png/size=77", "image/video", "image/custom_codec/codec=mine",
                                        "audio/pcm/int16le/channels=2/rate=8000/samples=10", "audio", "audio/opus", "audio/pcm", "custom/size=12", "custom", "empty",
                                        "image/raw/6x6/pixel=yuv_i420_split", "image/raw/9x4/pixel=yuy2"};
        if (b == 0 || s.flip()) {
          lay::Layout def = lay::genLayout(s, style, 5);
          // conventions
          if (s.chance(1, 2)) {
            namespace dc = vrs::datalayout_conventions;
            auto maybe = [&](std::unique_ptr<lay::Field> f) {
              if (s.chance(2, 3)) {
                def.fields.push_back(std::move(f));
              }
            };
            uint32_t w = s.flip() ? 4 : (uint32_t)s.interesting(32), h = s.flip() ? 3 : (uint32_t)s.interesting(32);
            if (s.flip()) {
              maybe(lay::fieldU32(dc::kImageWidth, w));
              maybe(lay::fieldU32(dc::kImageHeight, h));
              maybe(lay::fieldU32(dc::kImageStride, s.flip() ? 0 : (uint32_t)s.interesting(32)));
              maybe(lay::fieldU32(dc::kImagePixelFormat, (uint32_t)s.interesting(s.flip() ? 4 : 32)));
              maybe(lay::fieldStr(dc::kImageCodecName, s.anyText(10)));
              maybe(lay::fieldU32(dc::kImageCodecQuality, (uint32_t)s.interesting(32)));
              maybe(lay::fieldF64(dc::kImageKeyFrameTimeStamp, s.real()));
              maybe(lay::fieldU32(dc::kImageKeyFrameIndex, (uint32_t)s.interesting(32)));
            } else {
              maybe(lay::fieldU8(dc::kAudioFormat, (uint8_t)s.interesting(s.flip() ? 2 : 8)));
              maybe(lay::fieldU8(dc::kAudioSampleFormat, (uint8_t)s.interesting(s.flip() ? 4 : 8)));
              maybe(lay::fieldU8(dc::kAudioSampleFrameStride, (uint8_t)s.interesting(8)));
              maybe(lay::fieldU8(dc::kAudioChannelCount, (uint8_t)s.interesting(8)));
              maybe(lay::fieldU32(dc::kAudioSampleRate, (uint32_t)s.interesting(32)));
              maybe(lay::fieldU32(dc::kAudioSampleCount, (uint32_t)s.interesting(32)));
            }
            maybe(lay::fieldU32(dc::kNextContentBlockSize, (uint32_t)s.interesting(s.flip() ? 6 : 32)));
            std::set<std::string> labels;
            for (size_t f = 0; f < def.fields.size();) {
              if (!labels.insert(def.fields[f]->label).second) {
                def.fields.erase(def.fields.begin() + f);
              } else {
                f++;
              }
            }
          }
          kind.layouts.push_back(std::make_unique<lay::Live>(def));
          kind.defs.push_back(std::move(def));
          format = b == 0 ? vrs::RecordFormat(kind.layouts.back()->getContentBlock()) : format + kind.layouts.back()->getContentBlock();
          layouts.push_back(kind.layouts.back().get());
        } else {
          ContentBlock cb{std::string(s.pick(kBlocks))};
          format = format + cb;
          layouts.push_back(nullptr);
        }
      }
      kind.format = format.asString();
      note << Record::typeName(t) << ":" << kind.format << " ";
      st->addRecordFormat(t, kind.version, format, layouts);
      kinds.push_back(std::move(kind));
    }
    if (hostile) {
      for (auto& tag : st->vrsTags()) {
        if (s.chance(1, 2)) {
          if (tag.first.compare(0, 3, "RF:") == 0) {
            tag.second = genFormatText(s, tag.second);
            note << tag.first << "=" << pbt::show(tag.second) << " ";
          } else if (tag.first.compare(0, 3, "DL:") == 0) {
            tag.second = genJsonText(s, tag.second);
            note << tag.first << "=" << pbt::show(tag.second.substr(0, 600)) << " ";
          }
        } else if (s.chance(1, 8)) {
          tag.second = s.anyText(40);
        }
      }
      if (s.chance(1, 4)) {
        static const char* kNames[] = {"RF:Data:1", "RF:", "RF:Data:", "RF:What:1", "RF:Data:99999999999", "DL:Data:1:0", "DL:Data:1:", "DL::", "RF:Data:1:1", "DL:State:1:99999999999999999999"};
        st->vrsTags()[s.pick(kNames)] = s.anyText(30);
      }
    }
    st->withConfig = st->withState = false;
    writer.addRecordable(st.get());
    size_t records = 1 + s.size(5);
    double now = 0;
    for (size_t r = 0; r < records; r++) {
      Kind& kind = kinds[r < kinds.size() ? r : s.below(kinds.size())];
      Bytes data;
      for (size_t b = 0; b < kind.layouts.size(); b++) {
        kind.defs[b].newValues(s, style);
        kind.layouts[b]->store(kind.defs[b]);
        Bytes part = lay::bytesOf(*kind.layouts[b]);
        if (hostile && s.chance(1, 2)) { // damage the index of variable size fields, or anything
          for (size_t n = 1 + s.draw(2); n > 0 && part.size() >= 4; n--) {
            uint32_t v = s.flip() ? (uint32_t)s.interesting(32) : (uint32_t)s.draw(200);
            size_t at = s.flip() ? s.below(part.size() - 3) : (part.size() - 4) - 4 * s.below(std::min<size_t>(part.size() / 4, 8));
            memcpy(part.data() + at, &v, 4);
          }
        }
        data.insert(data.end(), part.begin(), part.end());
      }
      Bytes tail = randomPayload(s);
      data.insert(data.end(), tail.begin(), tail.end());
      if (hostile && s.chance(1, 6)) {
        data = s.chance(1, 2) ? randomPayload(s) : Bytes(data.begin(), data.begin() + s.below(data.size() + 1));
      }
      st->make(now += 1, kind.type, kind.version, data, gen::Feed::OneChunk);
    }
    rec.streams.push_back(std::move(st));
  }
  c.note(note.str());
  REQUIRE_EQ(writer.writeToFile(rec.path), 0);
}

// -- mutations -----------------------------------------------------------------------------------

void mutate(pbt::Src& s, Bytes& b, const physical::Scan& scan, std::ostringstream& note) {
  if (b.empty()) {
    return;
  }
  vrs::FileFormat::FileHeader fh;
  memcpy((void*)&fh, b.data(), std::min(sizeof(fh), b.size()));
  auto put = [&](int64_t at, uint64_t v, size_t bytes) {
    if (at >= 0 && at + (int64_t)bytes <= (int64_t)b.size()) {
      memcpy(b.data() + at, &v, bytes);
      note << " @" << at << "=" << v << "/" << bytes;
    }
  };
  auto header = [&](int64_t at) {
    using H = vrs::FileFormat::RecordHeader;
    switch (s.draw(8)) {
      case 0:
        put(at + offsetof(H, recordSize), s.flip() ? s.draw(200) : s.interesting(32), 4);
        break;
      case 1:
        put(at + offsetof(H, previousRecordSize), s.interesting(32), 4);
        break;
      case 2:
        put(at + offsetof(H, recordableTypeId), s.flip() ? s.draw(400) : s.interesting(32), 4);
        break;
      case 3:
        put(at + offsetof(H, formatVersion), s.flip() ? s.draw(4) : s.interesting(32), 4);
        break;
      case 4:
        put(at + offsetof(H, timestamp), s.u64(), 8);
        break;
      case 5:
        put(at + offsetof(H, recordableInstanceId), s.interesting(16), 2);
        break;
      case 6:
        put(at + offsetof(H, recordType), s.flip() ? s.draw(6) : s.interesting(8), 1);
        break;
      case 7:
        put(at + offsetof(H, compressionType), s.flip() ? s.draw(3) : s.interesting(8), 1);
        break;
      default:
        put(at + offsetof(H, uncompressedSize), s.flip() ? s.draw(2000) : s.interesting(32), 4);
        break;
    }
  };
  size_t n = 1 + s.draw(4);
  for (size_t k = 0; k < n && !b.empty(); k++) {
    switch (s.draw(13)) {
      case 0: { // bit flips
        for (size_t m = 1 + s.draw(3); m > 0; m--) {
          size_t at = s.below(b.size());
          b[at] ^= (uint8_t)(1u << s.draw(7));
          note << " flip@" << at;
        }
        break;
      }
      case 1: { // a value, anywhere
        static const size_t kSizes[] = {1, 2, 4, 8};
        size_t bytes = s.pick(kSizes);
        put((int64_t)s.below(b.size()), s.interesting((int)bytes * 8), bytes);
        break;
      }
      case 2: { // file header fields
        using F = vrs::FileFormat::FileHeader;
        switch (s.draw(7)) {
          case 0:
            put(offsetof(F, indexRecordOffset), s.flip() ? s.draw(b.size() + 40) : s.u64(), 8);
            break;
          case 1:
            put(offsetof(F, descriptionRecordOffset), s.flip() ? s.draw(b.size() + 40) : s.u64(), 8);
            break;
          case 2:
            put(offsetof(F, firstUserRecordOffset), s.flip() ? s.draw(b.size() + 40) : s.u64(), 8);
            break;
          case 3:
            put(offsetof(F, fileHeaderSize), s.interesting(32), 4);
            break;
          case 4:
            put(offsetof(F, recordHeaderSize), s.flip() ? s.draw(100) : s.interesting(32), 4);
            break;
          case 5:
            put(offsetof(F, indexRecordOffset), 0, 8);
            break;
          default:
            put((int64_t)s.below(sizeof(F)), s.interesting(8), 1);
            break;
        }
        break;
      }
      case 3:
        header(fh.descriptionRecordOffset);
        break;
      case 4:
        header(fh.indexRecordOffset);
        break;
      case 5:
      case 6:
        if (!scan.user.empty()) {
          header(s.pick(scan.user).offset);
        }
        break;
      case 7: // in the description
        if (fh.descriptionRecordOffset > 0 && scan.headEnd > fh.descriptionRecordOffset) {
          int64_t size = scan.headEnd - fh.descriptionRecordOffset;
          put(fh.descriptionRecordOffset + 32 + (int64_t)s.below(size), s.flip() ? s.draw(100) : s.interesting(32), 4);
        }
        break;
      case 8: // in the index
        if (fh.indexRecordOffset > 0 && fh.indexRecordOffset < (int64_t)b.size()) {
          put(fh.indexRecordOffset + 32 + (int64_t)s.below(b.size() - fh.indexRecordOffset), s.flip() ? s.draw(100) : s.interesting(32), 4);
        }
        break;
      case 9: // in a record
        if (!scan.user.empty()) {
          auto& r = s.pick(scan.user);
          put(r.offset + 32 + (int64_t)s.below(r.size), s.interesting(32), 4);
        }
        break;
      case 10: {
        size_t at = s.below(b.size() + 1);
        b.resize(at);
        note << " cut@" << at;
        break;
      }
      case 11: {
        size_t at = s.below(b.size()), len = 1 + s.size(b.size() - at - 1);
        b.erase(b.begin() + at, b.begin() + at + len);
        note << " del@" << at << "+" << len;
        break;
      }
      case 12: { // insert, or duplicate a range
        size_t at = s.below(b.size() + 1);
        Bytes ins;
        if (s.flip()) {
          ins = s.bytes(1 + s.draw(60));
        } else {
          size_t from = s.below(b.size()), len = 1 + s.size(std::min<size_t>(b.size() - from, 2000) - 1);
          ins.assign(b.begin() + from, b.begin() + from + len);
        }
        b.insert(b.begin() + at, ins.begin(), ins.end());
        note << " ins@" << at << "+" << ins.size();
        break;
      }
      default: { // swap, or overwrite a range by another
        size_t from = s.below(b.size()), to = s.below(b.size());
        size_t len = std::min<size_t>(b.size() - std::max(from, to), 1 + s.draw(200));
        Bytes part(b.begin() + from, b.begin() + from + len);
        std::copy(part.begin(), part.end(), b.begin() + to);
        note << " copy" << from << ">" << to << "+" << len;
        break;
      }
    }
  }
}

void label(pbt::Ctx& c, const Outcome& o) {
  c.label(o.open == 0 ? "opened" : "refused");
  c.label("records read", o.readOk);
  c.label("reads failed", o.readFailed);
  c.label("layouts", o.layouts);
  c.label("images", o.images);
  c.label("audio", o.audios);
  c.label("custom", o.customs);
}

} // namespace
