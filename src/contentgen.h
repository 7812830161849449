// Recordings whose streams have generated record formats: images, audio, layouts, custom blocks,
// described by the formats, by layouts before them, or by configuration records.
#pragma once

#include <optional>
#include <set>

#include <vrs/RecordFileReader.h>
#include <vrs/RecordFileWriter.h>

#include "content.h"

namespace contentgen {

using namespace content;
using std::optional;
namespace dc = vrs::datalayout_conventions;
using vrs::AudioContentBlockSpec;
using vrs::AudioFormat;
using vrs::AudioSampleFormat;
using vrs::ImageContentBlockSpec;
using vrs::ImageFormat;
using vrs::PixelFormat;
using vrs::RecordFormat;
using vrs::RecordFormatStreamPlayer;
using vrs::StreamId;


enum class Source { None, Own, Config };
enum class SizeFrom { Spec, Format, Next, Remaining };

struct ImageConv {
  PixelFormat pf = PixelFormat::GREY8;
  uint32_t w = 1, h = 1, stride = 0, stride2 = 0, quality = 255;
  string codec;
  double keyTime = 0;
  uint32_t keyIndex = 0;
};
struct AudioConv {
  AudioFormat format = AudioFormat::PCM;
  AudioSampleFormat sample = AudioSampleFormat::S16_LE;
  uint8_t stride = 0, channels = 1, pairs = 0;
  uint32_t rate = 8000, count = 0;
};

/// the convention fields of a layout
struct Fields {
  bool needCodec = false; // the format has none
  bool image = false, imageStrides = false, imageCodec = false, imageQuality = false, keyFrames = false, legacyPixels = false;
  bool legacy8 = false;
  bool audio = false, audioFormat = false, audioStride = false, audioCount = false, audioPairs = false;
  bool nextSize = false, nextCount = false;
  ImageConv img;
  AudioConv aud;
  uint32_t size = 0, count = 0;
};

struct BlockDef {
  ContentType type = ContentType::EMPTY;
  RecordFormat format; // one block
  Source spec = Source::None;
  SizeFrom sizeFrom = SizeFrom::Spec;
  bool countFromNext = false;
  // layouts
  lay::Layout layout;
  std::unique_ptr<lay::Live> live;
  Fields f;
};

struct RecordDef {
  Record::Type type = Record::Type::DATA;
  uint32_t version = 1;
  bool hasFormat = true;
  vector<BlockDef> blocks;
};

struct Event {
  size_t index = 0;
  ContentType type = ContentType::EMPTY;
  bool unsupported = false;
  ContentBlock block;
  uint8_t pairs = 0;
  Bytes bytes;
  size_t offset = 0; // in the record
  lay::Layout layout; // values
};

struct Expected {
  StreamId id;
  double ts = 0;
  Record::Type type = Record::Type::DATA;
  uint32_t version = 0;
  size_t size = 0;
  Bytes bytes; // all of it
  vector<Event> events;
  bool inconsistent = false; // the sizes of a block don't match
  bool stops = false; // an unsupported block of unknown size: reading stops there
  bool needsConfig = false;
  bool beforeConfig = false;
  size_t config = 0; // index of the configuration record in force
};

struct Stream {
  std::unique_ptr<FormatStream> stream;
  vector<RecordDef> kinds;
  bool configImage = false, configAudio = false; // the configuration describes images, audio
  bool configSeen = false;
  Fields config; // in force
};

inline ImageConv genImage(pbt::Src& s) {
  ImageConv i;
  do {
    i.pf = (PixelFormat)(1 + s.below((size_t)PixelFormat::COUNT - 1));
  } while (i.pf == PixelFormat::UNDEFINED);
  i.w = 1 + s.size(12);
  i.h = 1 + s.size(8);
  ImageContentBlockSpec def(i.pf, i.w, i.h);
  if (s.chance(1, 3)) {
    i.stride = def.getDefaultStride() + s.size(7);
    i.stride2 = def.getDefaultStride2() > 0 && s.flip() ? def.getDefaultStride2() + s.size(5) : 0;
  }
  i.codec = s.ident(5);
  i.quality = s.draw(100);
  i.keyTime = s.real();
  i.keyIndex = s.size(50);
  return i;
}

inline AudioConv genAudio(pbt::Src& s) {
  AudioConv a;
  a.format = s.chance(3, 4) ? AudioFormat::PCM : AudioFormat::OPUS;
  a.sample = (AudioSampleFormat)(1 + s.below((size_t)AudioSampleFormat::COUNT - 1));
  a.channels = 1 + s.size(5);
  a.pairs = s.draw(a.channels / 2);
  uint32_t frame = AudioContentBlockSpec::getBytesPerSample(a.sample) * a.channels;
  a.stride = s.flip() ? 0 : frame + s.below(a.channels * 3 + 1);
  a.rate = 1 + s.size(96000);
  a.count = 1 + s.size(20);
  return a;
}
inline uint32_t frameSize(const AudioConv& a) {
  return a.stride ? a.stride : AudioContentBlockSpec::getBytesPerSample(a.sample) * a.channels;
}

inline lay::ValueStyle style() {
  lay::ValueStyle st;
  st.maxText = 20;
  st.maxCount = 5;
  return st;
}

/// sets the convention fields of the layout, creating them the first time
inline void setFields(pbt::Src* s, lay::Layout& def, const Fields& f) {
  auto set = [&](std::unique_ptr<lay::Field> field) {
    for (auto& d : def.fields) {
      if (d->label == field->label && d->typeName == field->typeName) {
        d = std::move(field);
        return;
      }
    }
    size_t at = s != nullptr ? s->below(def.fields.size() + 1) : def.fields.size();
    def.fields.insert(def.fields.begin() + at, std::move(field));
  };
  if (f.image) {
    set(lay::fieldU32(dc::kImageWidth, f.img.w));
    set(lay::fieldU32(dc::kImageHeight, f.img.h));
    if (f.legacyPixels) {
      uint32_t bpp = ImageContentBlockSpec::getBytesPerPixel(f.img.pf);
      set(f.legacy8 ? lay::fieldU8(dc::kImageBytesPerPixel, bpp) : lay::fieldU32(dc::kImageBytesPerPixel, bpp));
    } else {
      set(lay::fieldU32(dc::kImagePixelFormat, (uint32_t)f.img.pf));
    }
    if (f.imageStrides) {
      set(lay::fieldU32(dc::kImageStride, f.img.stride));
      set(lay::fieldU32(dc::kImageStride2, f.img.stride2));
    }
    if (f.imageCodec) {
      set(lay::fieldStr(dc::kImageCodecName, f.img.codec));
    }
    if (f.imageQuality) {
      set(lay::fieldU32(dc::kImageCodecQuality, f.img.quality));
    }
  }
  if (f.keyFrames) {
    set(lay::fieldF64(dc::kImageKeyFrameTimeStamp, f.img.keyTime));
    set(lay::fieldU32(dc::kImageKeyFrameIndex, f.img.keyIndex));
  }
  if (f.audio) {
    if (f.audioFormat) {
      set(lay::fieldU8(dc::kAudioFormat, (uint8_t)f.aud.format));
    }
    set(lay::fieldU8(dc::kAudioSampleFormat, (uint8_t)f.aud.sample));
    set(lay::fieldU8(dc::kAudioChannelCount, f.aud.channels));
    set(lay::fieldU32(dc::kAudioSampleRate, f.aud.rate));
    if (f.audioStride) {
      set(lay::fieldU8(dc::kAudioSampleFrameStride, f.aud.stride));
    }
    if (f.audioPairs) {
      set(lay::fieldU8(dc::kAudioStereoPairCount, f.aud.pairs));
    }
    if (f.audioCount) {
      set(lay::fieldU32(dc::kAudioSampleCount, f.aud.count));
    }
  }
  if (f.nextSize) {
    set(lay::fieldU32(dc::kNextContentBlockSize, f.size));
  }
  if (f.nextCount) {
    set(lay::fieldU32(dc::kAudioSampleCount, f.count));
  }
}

inline void genImageFields(pbt::Src& s, Fields& f) {
  f.image = true;
  f.imageStrides = s.flip();
  f.imageCodec = s.flip();
  f.imageQuality = s.flip();
  f.legacyPixels = s.chance(1, 6);
  f.legacy8 = s.flip();
}
inline void genAudioFields(pbt::Src& s, Fields& f) {
  f.audio = true;
  f.audioFormat = s.flip();
  f.audioStride = s.flip();
  f.audioPairs = s.flip();
}
/// new values
inline void newValues(pbt::Src& s, Fields& f) {
  if (f.image || f.keyFrames) {
    f.img = genImage(s);
    if (f.legacyPixels) {
      f.img.pf = s.pick({PixelFormat::GREY8, PixelFormat::RGB8, PixelFormat::DEPTH32F, PixelFormat::SCALAR64F});
      f.img.stride = f.img.stride2 = 0;
    }
    if (!f.imageStrides) {
      f.img.stride = f.img.stride2 = 0;
    }
    if (!f.needCodec && s.chance(1, 5)) {
      f.img.codec.clear();
    }
  }
  if (f.audio) {
    f.aud = genAudio(s);
    if (f.audioCount && s.chance(1, 6)) {
      f.aud.count = 0; // same as no count
    }
    if (!f.audioFormat) {
      f.aud.format = AudioFormat::PCM;
    }
    if (!f.audioStride) {
      f.aud.stride = 0;
    }
    if (!f.audioPairs) {
      f.aud.pairs = 0;
    }
  }
}

inline BlockDef makeLayout(pbt::Src& s, Fields f, bool plain) {
  BlockDef b;
  b.type = ContentType::DATA_LAYOUT;
  b.f = f;
  if (!plain || (!f.image && !f.audio && !f.keyFrames)) {
    b.layout = lay::genLayout(s, style(), 4, true);
    if (plain) {
      for (size_t k = 0; k < b.layout.fields.size();) {
        if (b.layout.fields[k]->isVariable()) {
          b.layout.fields.erase(b.layout.fields.begin() + k);
        } else {
          k++;
        }
      }
    }
  }
  setFields(&s, b.layout, f);
  b.live = std::make_unique<lay::Live>(b.layout);
  b.format = RecordFormat(b.live->getContentBlock());
  return b;
}

inline RecordDef genKind(pbt::Src& s, Stream& st, Record::Type type, uint32_t version) {
  RecordDef r;
  r.type = type;
  r.version = version;
  bool config = type == Record::Type::CONFIGURATION;
  if (config) {
    Fields f;
    if (st.configImage) {
      genImageFields(s, f);
    }
    if (st.configAudio) {
      genAudioFields(s, f);
      f.audioCount = s.flip();
    }
    st.config = f;
    if (s.chance(1, 4)) {
      r.blocks.push_back(makeLayout(s, Fields(), false));
    }
    r.blocks.push_back(makeLayout(s, f, false));
    if (s.chance(1, 4)) {
      r.blocks.push_back(makeLayout(s, Fields(), false));
    }
  }
  bool remainingUsed = false; // all the blocks that follow must have a known size
  bool ownImage = config && st.configImage; // a layout of this record describes images
  for (size_t n = config ? s.size(2) : 1 + s.size(4); n > 0; n--) {
    BlockDef b;
    bool fixed = remainingUsed;
    // how the size of a block of unknown size is found
    auto sizing = [&](Fields& f) {
      switch (fixed ? 0 : s.draw(2)) {
        case 0:
          b.sizeFrom = SizeFrom::Format;
          break;
        case 1:
          b.sizeFrom = SizeFrom::Next;
          f.nextSize = true;
          break;
        default:
          b.sizeFrom = SizeFrom::Remaining;
          remainingUsed = true;
          break;
      }
    };
    auto sized = [&](string text, size_t pos) {
      if (b.sizeFrom == SizeFrom::Format) {
        text.insert(pos, "/size=" + std::to_string(s.size(60)));
      }
      return RecordFormat(text);
    };
    Fields f;
    switch (s.draw(9)) {
      case 0: // layout
        r.blocks.push_back(makeLayout(s, Fields(), fixed));
        continue;
      case 1: { // raw image fully described
        ImageConv i = genImage(s);
        b.type = ContentType::IMAGE;
        b.format = RecordFormat(ContentBlock(i.pf, i.w, i.h, i.stride, i.stride2));
        break;
      }
      case 2: // raw image described elsewhere
        if (fixed) {
          continue;
        }
        if (config && st.configImage) { // the last one of the configuration would count for others
          continue;
        }
        b.type = ContentType::IMAGE;
        b.format = RecordFormat("image/raw");
        if (st.configImage && !ownImage && s.flip()) {
          b.spec = Source::Config;
        } else {
          b.spec = Source::Own;
          genImageFields(s, f);
          ownImage = true;
        }
        break;
      case 3: // encoded image
        b.type = ContentType::IMAGE;
        sizing(f);
        b.format = sized(s.pick({"image/jpg", "image/png", "image/jxl", "image/jpg/20x30", "image/png/7x7/pixel=rgb8", "image/raw"}), 5);
        if (b.format.getContentBlock(0).image().getImageFormat() == ImageFormat::RAW && b.sizeFrom != SizeFrom::Format) {
          b.format = RecordFormat("image/jpg");
        }
        break;
      case 4: // video, custom codecs
        if (fixed || (config && st.configImage)) {
          continue;
        }
        b.type = ContentType::IMAGE;
        sizing(f);
        b.format = sized(s.pick({"image/video", "image/video/codec=H.264", "image/video/codec=x/codec_quality=77", "image/custom_codec/codec=mine", "image/custom_codec/codec=a/codec_quality=0"}), 5);
        if (st.configImage && !ownImage && s.flip()) {
          b.spec = Source::Config;
        } else {
          b.spec = Source::Own;
          genImageFields(s, f);
          ownImage = true;
        }
        if (b.format.getContentBlock(0).image().getCodecName().empty()) {
          if (b.spec == Source::Config) {
            b.format = sized("image/video/codec=H.265", 5);
          } else { // or another layout might be used instead
            f.imageCodec = f.needCodec = true;
          }
        }
        f.keyFrames = s.flip();
        break;
      case 5: { // pcm audio fully described
        AudioConv a = genAudio(s);
        b.type = ContentType::AUDIO;
        b.format = RecordFormat(ContentBlock(AudioFormat::PCM, a.sample, a.channels, a.stride, a.rate, a.count, 0));
        break;
      }
      case 6: { // pcm audio without a count
        AudioConv a = genAudio(s);
        b.type = ContentType::AUDIO;
        sizing(f);
        string text = ContentBlock(AudioFormat::PCM, a.sample, a.channels, a.stride, a.rate, 0, 0).asString();
        if (b.sizeFrom == SizeFrom::Format) {
          text.insert(5, "/size=" + std::to_string(frameSize(a) * s.size(10)));
        }
        b.format = RecordFormat(text);
        break;
      }
      case 7: // audio described elsewhere
        if (fixed || (config && st.configAudio)) { // the last one of the configuration would count for others
          continue;
        }
        b.type = ContentType::AUDIO;
        b.format = RecordFormat("audio");
        sizing(f);
        if (b.sizeFrom == SizeFrom::Format) {
          b.sizeFrom = SizeFrom::Next;
          f.nextSize = true;
        }
        if (st.configAudio && !config && s.flip()) {
          b.spec = Source::Config;
          b.countFromNext = f.nextCount = s.flip();
        } else {
          b.spec = Source::Own;
          genAudioFields(s, f);
          f.audioCount = s.flip();
        }
        break;
      case 8:
        b.type = ContentType::CUSTOM;
        sizing(f);
        b.format = sized(s.pick({"custom", "custom/format=mine"}), 6);
        break;
      default:
        b.type = ContentType::EMPTY;
        b.format = RecordFormat("empty");
        break;
    }
    bool needs = f.image || f.audio || f.keyFrames || f.nextSize || f.nextCount;
    if (needs) {
      r.blocks.push_back(makeLayout(s, f, false));
    }
    r.blocks.push_back(std::move(b));
  }
  return r;
}

/// The bytes of a record, and what the player should tell
inline Bytes makeRecord(pbt::Src& s, Stream& st, RecordDef& kind, Expected& e, bool mismatched = false) {
  Bytes all;
  vector<RecordDef*> dummy;
  // values of the layouts: first choose what's described, as sizes depend on it
  for (auto& b : kind.blocks) {
    if (b.type == ContentType::DATA_LAYOUT) {
      newValues(s, b.f);
      if (kind.type == Record::Type::CONFIGURATION && (b.f.image || b.f.audio) && &b - kind.blocks.data() < 2) {
        // what follows is described by this one
        if ((b.f.image && st.configImage) || (b.f.audio && st.configAudio)) {
          if (b.f.image == st.configImage && b.f.audio == st.configAudio) {
            st.config = b.f;
            st.configSeen = true;
          }
        }
      }
    }
  }
  bool stopped = false;
  for (size_t k = 0; k < kind.blocks.size(); k++) {
    BlockDef& b = kind.blocks[k];
    const ContentBlock& cb = b.format.getContentBlock(0);
    BlockDef* prev = k > 0 && kind.blocks[k - 1].type == ContentType::DATA_LAYOUT ? &kind.blocks[k - 1] : nullptr;
    Event ev;
    ev.index = k;
    ev.type = b.type;
    ev.block = cb;
    ev.offset = all.size();
    size_t size = 0;
    const Fields* f = b.spec == Source::Own ? &prev->f : &st.config;
    bool missing = b.spec == Source::Config && !st.configSeen;
    bool wrong = false;
    if (b.spec == Source::Config) {
      e.needsConfig = true;
      e.beforeConfig = e.beforeConfig || missing;
    }
    if (b.type == ContentType::DATA_LAYOUT) {
      // the size of the next block must be known to set this layout's values
      if (k + 1 < kind.blocks.size() && kind.blocks[k + 1].type != ContentType::DATA_LAYOUT) {
        BlockDef& next = kind.blocks[k + 1];
        const Fields* nf = next.spec == Source::Own ? &b.f : &st.config;
        b.f.count = 1 + s.size(20);
        if (next.type == ContentType::AUDIO) {
          AudioConv a = nf->aud;
          if (next.spec == Source::None) {
            const auto& as = next.format.getContentBlock(0).audio();
            a.sample = as.getSampleFormat();
            a.channels = as.getChannelCount();
            a.stride = as.getSampleFrameStride();
            a.format = AudioFormat::PCM;
            a.count = 0;
          } else if (!nf->audioCount || a.count == 0) {
            a.count = next.countFromNext ? b.f.count : 0;
          }
          b.f.size = a.format != AudioFormat::PCM ? s.size(60) : frameSize(a) * (a.count ? a.count : s.size(20));
          if (mismatched && a.format == AudioFormat::PCM && s.chance(1, 8)) { // not what's announced
            b.f.size += 1 + s.below(2 * frameSize(a));
          }
        } else {
          b.f.size = s.size(80);
        }
      }
      b.layout.newValues(s, style());
      setFields(nullptr, b.layout, b.f);
      b.live->store(b.layout);
      Bytes bytes = lay::bytesOf(*b.live);
      all.insert(all.end(), bytes.begin(), bytes.end());
      ev.layout = b.layout;
    } else if (b.type != ContentType::EMPTY) {
      if (b.sizeFrom == SizeFrom::Format) {
        size = cb.getBlockSize();
      } else if (b.sizeFrom == SizeFrom::Next) {
        size = prev->f.size;
      } else if (b.sizeFrom == SizeFrom::Remaining) {
        size = s.size(80);
      }
      if (b.type == ContentType::IMAGE) {
        const auto& base = cb.image();
        ImageFormat format = base.getImageFormat();
        if (format == ImageFormat::RAW) {
          if (b.spec != Source::None) {
            ev.block = ContentBlock(f->img.pf, f->img.w, f->img.h, f->img.stride, f->img.stride2);
            size = ev.block.getBlockSize();
          } else {
            size = cb.getBlockSize();
          }
        } else if (b.spec != Source::None) {
          string codec = f->imageCodec && !f->img.codec.empty() ? f->img.codec : base.getCodecName();
          uint8_t quality = f->imageQuality ? f->img.quality : base.getCodecQuality();
          missing = missing || codec.empty();
          ImageContentBlockSpec spec(format, f->img.pf, f->img.w, f->img.h, f->img.stride, f->img.stride2, codec, quality);
          if (format == ImageFormat::VIDEO && prev != nullptr && prev->f.keyFrames) {
            spec = ImageContentBlockSpec(spec, prev->f.img.keyTime, prev->f.img.keyIndex);
          }
          ev.block = ContentBlock(spec, size);
        } else {
          ev.block = ContentBlock(base, size);
        }
      } else if (b.type == ContentType::AUDIO) {
        AudioConv a = f->aud;
        if (b.spec == Source::None) {
          const auto& as = cb.audio();
          a = AudioConv();
          a.sample = as.getSampleFormat();
          a.channels = as.getChannelCount();
          a.stride = as.getSampleFrameStride();
          a.rate = as.getSampleRate();
          a.count = as.getSampleCount();
        } else if (!f->audioCount || a.count == 0) {
          a.count = b.countFromNext ? prev->f.count : 0;
        }
        size_t count = a.count;
        size_t declared = SIZE_MAX;
        if (a.format == AudioFormat::PCM) {
          if (a.count == 0) {
            if (b.sizeFrom == SizeFrom::Remaining) {
              size = frameSize(a) * s.size(20);
              if (mismatched && s.chance(1, 8)) {
                size += 1 + s.below(2 * frameSize(a));
              }
            }
            declared = size;
            a.count = size / frameSize(a);
          } else {
            size = frameSize(a) * a.count;
            declared = b.sizeFrom == SizeFrom::Next ? prev->f.size : size;
            if (mismatched && b.spec != Source::None && b.sizeFrom == SizeFrom::Remaining && k + 1 == kind.blocks.size() && s.chance(1, 8)) {
              declared = size += 1 + s.below(2 * frameSize(a));
            }
          }
        }
        ev.block = ContentBlock(AudioContentBlockSpec(a.format, a.sample, a.channels, a.stride, a.rate, a.count, a.pairs), size);
        if (declared != SIZE_MAX && declared != (size_t)frameSize(a) * a.count) {
          // inconsistent: not audio that can be delivered
          wrong = true;
          ev.block = b.spec == Source::None ? cb : ContentBlock(a.format, a.sample, a.channels, a.stride, a.rate, count, a.pairs);
        }
        ev.pairs = a.pairs;
      } else {
        ev.block = ContentBlock(cb, size);
      }
      ev.bytes = s.bytes(size);
      all.insert(all.end(), ev.bytes.begin(), ev.bytes.end());
    }
    if (missing) {
      ev.unsupported = true;
      ev.block = cb;
      wrong = false;
    }
    bool unknownSize = (missing && cb.getBlockSize() == ContentBlock::kSizeUnknown) ||
        (wrong && ev.block.getBlockSize() == ContentBlock::kSizeUnknown);
    ev.unsupported = ev.unsupported || wrong;
    e.inconsistent = e.inconsistent || wrong;
    if (b.type != ContentType::EMPTY && !stopped) {
      e.events.push_back(std::move(ev));
    }
    if (unknownSize) {
      stopped = true;
    }
  }
  e.stops = stopped;
  e.size = all.size();
  return all;
}

/// A recording of streams with generated formats
struct FormatRecording {
  vector<Stream> streams;
  vector<Expected> expected;
  string formats;
  bool described = false; // by a layout
};

inline void recordFormats(pbt::Src& s, pbt::Ctx& c, FormatRecording& fr, const string& path, bool mismatched = false) {
  vrs::RecordFileWriter writer;
  fr.streams.resize(1 + s.size(2));
  vector<Stream>& streams = fr.streams;
  vector<Expected>& expected = fr.expected;
  double now = 1;
  std::ostringstream note;
  for (auto& st : streams) {
    st.stream = std::make_unique<FormatStream>(gen::genTypeId(s), "flavor", nullptr);
    st.stream->setCompression(gen::genPreset(s));
    st.stream->withConfig = st.stream->withState = false;
    st.configImage = s.flip();
    st.configAudio = s.flip();
    uint32_t version = 1 + s.draw(2);
    if (st.configImage || st.configAudio || s.flip()) {
      st.kinds.push_back(genKind(s, st, Record::Type::CONFIGURATION, version));
    }
    for (size_t n = 1 + s.size(2); n > 0; n--) {
      st.kinds.push_back(genKind(s, st, Record::Type::DATA, n));
    }
    if (s.chance(1, 3)) {
      st.kinds.push_back(genKind(s, st, Record::Type::STATE, version));
    }
    if (s.chance(1, 6)) {
      st.kinds.push_back(RecordDef());
      st.kinds.back().hasFormat = false;
      st.kinds.back().version = 77;
    }
    for (auto& k : st.kinds) {
      if (!k.hasFormat) {
        continue;
      }
      RecordFormat format;
      vector<const vrs::DataLayout*> layouts;
      for (auto& b : k.blocks) {
        format + b.format.getContentBlock(0);
        layouts.push_back(b.live.get());
      }
      note << Record::typeName(k.type) << k.version << "=" << format.asString() << " ";
      REQUIRE(st.stream->addRecordFormat(k.type, k.version, format, layouts));
    }
    writer.addRecordable(st.stream.get());
    note << "; ";
  }
  fr.formats = note.str();
  c.note(fr.formats);
  // records
  size_t count = 1 + s.size(12);
  std::map<StreamId, size_t> lastConfig;
  for (size_t n = 0; n < count; n++) {
    Stream& st = streams[s.below(streams.size())];
    size_t k = s.below(st.kinds.size());
    if (!st.configSeen && (st.configImage || st.configAudio) && s.chance(5, 6)) {
      k = 0;
    }
    RecordDef& kind = st.kinds[k];
    Expected e;
    e.id = st.stream->getStreamId();
    e.type = kind.type;
    e.version = kind.version;
    now += s.chance(1, 6) ? 0 : 1;
    e.ts = now;
    Bytes data;
    if (kind.hasFormat) {
      data = makeRecord(s, st, kind, e, mismatched);
      for (auto& ev : e.events) {
        fr.described = fr.described || (kind.blocks[ev.index].spec != Source::None && !ev.unsupported);
      }
    } else {
      data = s.bytes(s.size(30));
      e.size = data.size();
    }
    // order in the file: by time, then stream, so avoid equal times of different streams
    if (!expected.empty() && expected.back().ts == e.ts && !(expected.back().id == e.id)) {
      e.ts = now += 1;
    }
    e.config = lastConfig.count(e.id) ? lastConfig[e.id] : SIZE_MAX;
    if (e.type == Record::Type::CONFIGURATION) {
      lastConfig[e.id] = expected.size();
    }
    e.bytes = data;
    st.stream->make(e.ts, e.type, e.version, data, (gen::Feed)s.below((size_t)gen::Feed::COUNT), s.draw(1000), s.draw(1000));
    expected.push_back(std::move(e));
  }
  for (auto& e : expected) {
    note << e.id.getNumericName() << "@" << e.ts << ":" << Record::typeName(e.type) << e.version << " ";
  }
  c.note(note.str());
  REQUIRE_EQ(writer.writeToFile(path), 0);
}

} // namespace contentgen
