// C13: record format descriptions round-trip, and size blocks correctly.
#include <cmath>
#include <optional>
#include <set>

#include <vrs/RecordFormat.h>

#include "layoutgen.h"
#include "pbt.h"

using namespace vrs;
using std::optional;
using std::string;
using std::vector;

namespace {

// -- the formats, written independently --------------------------------------------------------
struct PixelDef {
  PixelFormat format;
  const char* name;
  int channels;
  int bits; // bits per pixel of the first plane, 0 if packed in groups
  int groupPixels, groupBytes; // packed formats
  char planes; // 0: one plane, 'p': I420, 'n': NV12/NV21
};
const PixelDef kPixels[] = {
    {PixelFormat::GREY8, "grey8", 1, 8, 0, 0, 0},
    {PixelFormat::BGR8, "bgr8", 3, 24, 0, 0, 0},
    {PixelFormat::DEPTH32F, "depth32f", 1, 32, 0, 0, 0},
    {PixelFormat::RGB8, "rgb8", 3, 24, 0, 0, 0},
    {PixelFormat::YUV_I420_SPLIT, "yuv_i420_split", 3, 0, 1, 1, 'p'},
    {PixelFormat::RGBA8, "rgba8", 4, 32, 0, 0, 0},
    {PixelFormat::RGB10, "rgb10", 3, 48, 0, 0, 0},
    {PixelFormat::RGB12, "rgb12", 3, 48, 0, 0, 0},
    {PixelFormat::GREY10, "grey10", 1, 16, 0, 0, 0},
    {PixelFormat::GREY12, "grey12", 1, 16, 0, 0, 0},
    {PixelFormat::GREY16, "grey16", 1, 16, 0, 0, 0},
    {PixelFormat::RGB32F, "rgb32F", 3, 96, 0, 0, 0},
    {PixelFormat::SCALAR64F, "scalar64F", 1, 64, 0, 0, 0},
    {PixelFormat::YUY2, "yuy2", 3, 0, 2, 4, 0},
    {PixelFormat::RGB_IR_RAW_4X4, "rgb_ir_4x4", 3, 8, 0, 0, 0},
    {PixelFormat::RGBA32F, "rgba32F", 4, 128, 0, 0, 0},
    {PixelFormat::BAYER8_RGGB, "bayer8_rggb", 1, 8, 0, 0, 0},
    {PixelFormat::RAW10, "raw10", 1, 0, 4, 5, 0},
    {PixelFormat::RAW10_BAYER_RGGB, "raw10_bayer_rggb", 1, 0, 4, 5, 0},
    {PixelFormat::RAW10_BAYER_BGGR, "raw10_bayer_bggr", 1, 0, 4, 5, 0},
    {PixelFormat::YUV_420_NV21, "yuv_420_nv21", 3, 0, 1, 1, 'n'},
    {PixelFormat::YUV_420_NV12, "yuv_420_nv12", 3, 0, 1, 1, 'n'},
    {PixelFormat::GREY10PACKED, "grey10packed", 1, 0, 4, 5, 0},
    {PixelFormat::BAYER8_BGGR, "bayer8_bggr", 1, 8, 0, 0, 0},
    {PixelFormat::BAYER10_GBRG, "bayer10_gbrg", 1, 16, 0, 0, 0},
    {PixelFormat::BAYER8_GBRG, "bayer8_gbrg", 1, 8, 0, 0, 0},
};
uint64_t stride1(const PixelDef& p, uint64_t w) {
  return p.bits ? w * p.bits / 8 : (w + p.groupPixels - 1) / p.groupPixels * p.groupBytes;
}
uint64_t stride2(const PixelDef& p, uint64_t w) {
  return p.planes == 'p' ? (w + 1) / 2 : p.planes == 'n' ? (w + 1) / 2 * 2 : 0;
}
int planes(const PixelDef& p) {
  return p.planes == 'p' ? 3 : p.planes == 'n' ? 2 : 1;
}
struct SampleDef {
  AudioSampleFormat format;
  const char* name;
  int bits;
  bool little, ieee;
};
const SampleDef kSamples[] = {
    {AudioSampleFormat::S8, "int8", 8, true, false},        {AudioSampleFormat::U8, "uint8", 8, true, false},
    {AudioSampleFormat::A_LAW, "uint8alaw", 8, true, false}, {AudioSampleFormat::MU_LAW, "uint8mulaw", 8, true, false},
    {AudioSampleFormat::S16_LE, "int16le", 16, true, false}, {AudioSampleFormat::U16_LE, "uint16le", 16, true, false},
    {AudioSampleFormat::S16_BE, "int16be", 16, false, false}, {AudioSampleFormat::U16_BE, "uint16be", 16, false, false},
    {AudioSampleFormat::S24_LE, "int24le", 24, true, false}, {AudioSampleFormat::U24_LE, "uint24le", 24, true, false},
    {AudioSampleFormat::S24_BE, "int24be", 24, false, false}, {AudioSampleFormat::U24_BE, "uint24be", 24, false, false},
    {AudioSampleFormat::S32_LE, "int32le", 32, true, false}, {AudioSampleFormat::U32_LE, "uint32le", 32, true, false},
    {AudioSampleFormat::S32_BE, "int32be", 32, false, false}, {AudioSampleFormat::U32_BE, "uint32be", 32, false, false},
    {AudioSampleFormat::F32_LE, "float32le", 32, true, true}, {AudioSampleFormat::F32_BE, "float32be", 32, false, true},
    {AudioSampleFormat::F64_LE, "float64le", 64, true, true}, {AudioSampleFormat::F64_BE, "float64be", 64, false, true},
};
const char* kImageNames[] = {"undefined", "raw", "jpg", "png", "video", "jxl", "custom_codec"};

struct Model {
  ContentType type = ContentType::EMPTY;
  optional<uint32_t> size;
  // image
  ImageFormat image = ImageFormat::UNDEFINED;
  const PixelDef* pixel = nullptr;
  uint32_t w = 0, h = 0, stride = 0, stride2 = 0;
  string codec;
  uint8_t quality = 255;
  optional<double> keyTime;
  uint32_t keyIndex = 0;
  // audio
  AudioFormat audio = AudioFormat::UNDEFINED;
  const SampleDef* sample = nullptr;
  uint8_t channels = 0, frameStride = 0, stereoPairs = 0;
  uint32_t rate = 0, samples = 0;
  // custom
  string custom;

  string str() const {
    std::ostringstream o;
    switch (type) {
      case ContentType::EMPTY:
        o << "empty";
        break;
      case ContentType::CUSTOM:
        o << "custom";
        break;
      case ContentType::DATA_LAYOUT:
        o << "data_layout";
        break;
      case ContentType::IMAGE:
        o << "image";
        break;
      default:
        o << "audio";
        break;
    }
    if (size) {
      o << "/size=" << *size;
    }
    if (type == ContentType::CUSTOM && !custom.empty()) {
      o << "/format=" << custom;
    } else if (type == ContentType::IMAGE && image != ImageFormat::UNDEFINED) {
      o << "/" << kImageNames[(int)image];
      if (w > 0) {
        o << "/" << w << "x" << h;
      }
      if (pixel) {
        o << "/pixel=" << pixel->name;
      }
      if (stride) {
        o << "/stride=" << stride;
      }
      if (stride2) {
        o << "/stride_2=" << stride2;
      }
      if (!codec.empty()) {
        o << "/codec=";
        for (unsigned char c : codec) {
          if (c < 32 || c >= 127 || string("+/\\% \"'").find((char)c) != string::npos) {
            char b[4];
            snprintf(b, sizeof(b), "%%%02X", c);
            o << b;
          } else {
            o << c;
          }
        }
      }
      if (quality <= 100) {
        o << "/codec_quality=" << (int)quality;
      }
      if (keyTime) {
        char b[400];
        snprintf(b, sizeof(b), "%.9f", *keyTime);
        o << "/keyframe_timestamp=" << b << "/keyframe_index=" << keyIndex;
      }
    } else if (type == ContentType::AUDIO && audio != AudioFormat::UNDEFINED) {
      o << (audio == AudioFormat::PCM ? "/pcm" : "/opus");
      if (sample) {
        o << "/" << sample->name;
      }
      if (channels) {
        o << "/channels=" << (int)channels;
      }
      if (rate) {
        o << "/rate=" << rate;
      }
      if (samples) {
        o << "/samples=" << samples;
      }
      if (frameStride && frameStride != defaultFrame()) {
        o << "/stride=" << (int)frameStride;
      }
    }
    return o.str();
  }
  uint32_t defaultFrame() const {
    return sample ? sample->bits / 8 * channels : 0;
  }
  optional<uint64_t> rawSize() const {
    if (!pixel || w == 0 || h == 0) {
      return {};
    }
    uint64_t n = (uint64_t)(stride ? stride : ::stride1(*pixel, w)) * h;
    n += (uint64_t)(planes(*pixel) - 1) * (stride2 ? stride2 : ::stride2(*pixel, w)) * ((h + 1ull) / 2);
    return n;
  }
  optional<uint64_t> blockSize() const {
    if (type == ContentType::EMPTY) {
      return 0;
    }
    if (size) {
      return *size;
    }
    if (type == ContentType::IMAGE && image == ImageFormat::RAW) {
      return rawSize();
    }
    uint64_t frame = frameStride ? frameStride : defaultFrame();
    if (type == ContentType::AUDIO && audio == AudioFormat::PCM && frame > 0 && samples > 0) {
      return frame * samples;
    }
    return {};
  }

  ImageContentBlockSpec imageSpec(pbt::Src& s) const {
    PixelFormat pf = pixel ? pixel->format : PixelFormat::UNDEFINED;
    if (keyTime) {
      if (s.flip()) {
        return ImageContentBlockSpec(ImageContentBlockSpec(image, codec, quality, pf, w, h, stride, stride2), *keyTime, keyIndex);
      }
      return ImageContentBlockSpec(image, pf, w, h, stride, stride2, codec, quality, *keyTime, keyIndex);
    }
    switch (s.draw(3)) {
      case 0:
        if (image == ImageFormat::RAW && codec.empty() && quality == 255) {
          if (s.flip()) {
            return ImageContentBlockSpec(pf, w, h, stride, stride2);
          }
          ImageContentBlockSpec i(ImageFormat::VIDEO, "x", 3, PixelFormat::RGB8, 5, 6);
          i.init(pf, w, h, stride, stride2);
          return i;
        }
        return ImageContentBlockSpec(image, pf, w, h, stride, stride2, codec, quality);
      case 1:
        if (image == ImageFormat::VIDEO) {
          return ImageContentBlockSpec(codec, quality, pf, w, h, stride, stride2);
        }
        return ImageContentBlockSpec(image, codec, quality, pf, w, h, stride, stride2);
      case 2:
        if (!pixel && stride == 0 && stride2 == 0 && codec.empty() && quality == 255) {
          return ImageContentBlockSpec(image, w, h);
        }
        return ImageContentBlockSpec(image, codec, quality, pf, w, h, stride, stride2);
      default:
        return ImageContentBlockSpec(image, pf, w, h, stride, stride2, codec, quality);
    }
  }
  AudioContentBlockSpec audioSpec(pbt::Src& s) const {
    if (!sample && !frameStride && !rate && !samples && s.flip()) {
      return AudioContentBlockSpec(audio, channels);
    }
    AudioContentBlockSpec a(audio, sample ? sample->format : AudioSampleFormat::UNDEFINED, channels, frameStride, rate, 0, stereoPairs);
    a.setSampleCount(samples);
    return a;
  }
  ContentBlock block(pbt::Src& s) const {
    size_t sz = size ? *size : ContentBlock::kSizeUnknown;
    PixelFormat pf = pixel ? pixel->format : PixelFormat::UNDEFINED;
    switch (type) {
      case ContentType::IMAGE:
        if (image == ImageFormat::UNDEFINED) {
          return ContentBlock(ContentType::IMAGE, sz);
        }
        if (!size && image == ImageFormat::RAW && s.flip()) {
          return ContentBlock(pf, w, h, stride, stride2);
        }
        if (!size && image == ImageFormat::VIDEO && !keyTime && s.flip()) {
          return ContentBlock(codec, quality, pf, w, h, stride, stride2);
        }
        if (s.flip()) {
          return ContentBlock(ContentBlock(imageSpec(s), s.flip() ? 17 : ContentBlock::kSizeUnknown), sz);
        }
        return ContentBlock(imageSpec(s), sz);
      case ContentType::AUDIO:
        if (audio == AudioFormat::UNDEFINED) {
          return ContentBlock(ContentType::AUDIO, sz);
        }
        if (!size && s.flip()) {
          return ContentBlock(audio, sample ? sample->format : AudioSampleFormat::UNDEFINED, channels, frameStride, rate, samples, stereoPairs);
        }
        return ContentBlock(audioSpec(s), sz);
      case ContentType::CUSTOM:
        if (custom.empty()) {
          return s.flip() ? CustomContentBlock(sz) : ContentBlock(ContentType::CUSTOM, sz);
        }
        return CustomContentBlock(custom, sz);
      default:
        return ContentBlock(type, sz);
    }
  }
  void check(const ContentBlock& b) const {
    REQUIRE_EQ((int)b.getContentType(), (int)type);
    REQUIRE_EQ_MSG(b.asString(), str(), "text");
    auto bs = blockSize();
    REQUIRE_EQ_MSG(b.getBlockSize(), bs ? *bs : ContentBlock::kSizeUnknown, "size of " << str());
    if (type == ContentType::IMAGE) {
      const auto& i = b.image();
      REQUIRE_EQ((int)i.getImageFormat(), (int)image);
      REQUIRE_EQ((int)i.getPixelFormat(), pixel ? (int)pixel->format : 0);
      REQUIRE_EQ(i.getWidth(), w);
      REQUIRE_EQ(i.getHeight(), h);
      REQUIRE_EQ(i.getRawStride(), stride);
      REQUIRE_EQ(i.getRawStride2(), stride2);
      REQUIRE_EQ(i.getCodecName(), codec);
      REQUIRE_EQ((int)i.getCodecQuality(), (int)quality);
      REQUIRE_EQ(i.getImageFormatAsString(), string(kImageNames[(int)image]));
      REQUIRE_EQ(i.getPixelFormatAsString(), string(pixel ? pixel->name : "undefined"));
      if (keyTime) {
        REQUIRE_EQ(i.getKeyFrameTimestamp(), *keyTime);
        REQUIRE_EQ(i.getKeyFrameIndex(), keyIndex);
      } else {
        REQUIRE_EQ(i.getKeyFrameTimestamp(), ImageContentBlockSpec::kInvalidTimestamp);
      }
      auto raw = rawSize();
      REQUIRE_EQ_MSG(i.getRawImageSize(), raw ? *raw : ContentBlock::kSizeUnknown, "raw size of " << str());
      if (pixel) {
        uint64_t def1 = ::stride1(*pixel, w), def2 = ::stride2(*pixel, w);
        REQUIRE_EQ_MSG(i.getDefaultStride(), def1, str());
        REQUIRE_EQ_MSG(i.getDefaultStride2(), def2, str());
        REQUIRE_EQ_MSG(i.getStride(), stride ? stride : def1, str());
        REQUIRE_EQ_MSG((int)i.getPlaneCount(), planes(*pixel), str());
        REQUIRE_EQ_MSG((int)i.getChannelCountPerPixel(), pixel->channels, str());
        REQUIRE_EQ_MSG(i.getBytesPerPixel(), pixel->bits ? (size_t)pixel->bits / 8 : ContentBlock::kSizeUnknown, str());
        for (uint32_t p = 0; p < 5; p++) {
          bool has = (int)p < planes(*pixel);
          REQUIRE_EQ_MSG(i.getPlaneStride(p), !has ? 0 : p == 0 ? (stride ? stride : def1) : (stride2 ? stride2 : def2), "plane " << p << " of " << str());
          REQUIRE_EQ_MSG(i.getPlaneHeight(p), !has ? 0 : p == 0 ? h : (uint32_t)((h + 1ull) / 2), "plane " << p << " of " << str());
        }
        REQUIRE_EQ_MSG(i.sanityCheckStrides(), (stride == 0 || stride >= def1) && (stride2 == 0 || stride2 >= def2), str());
      }
      // core: what describes the pixels, without quality, key frame, or redundant strides
      Model m = *this;
      m.type = ContentType::IMAGE;
      m.size.reset();
      m.quality = 255;
      m.keyTime.reset();
      if (pixel) {
        m.stride = stride == ::stride1(*pixel, w) ? 0 : stride;
        m.stride2 = stride2 == ::stride2(*pixel, w) ? 0 : stride2;
      }
      REQUIRE_EQ(ContentBlock(i.core()).asString(), m.str());
    } else if (type == ContentType::AUDIO) {
      const auto& a = b.audio();
      REQUIRE_EQ((int)a.getAudioFormat(), (int)audio);
      REQUIRE_EQ((int)a.getSampleFormat(), sample ? (int)sample->format : 0);
      REQUIRE_EQ((int)a.getChannelCount(), (int)channels);
      REQUIRE_EQ(a.getSampleRate(), rate);
      REQUIRE_EQ(a.getSampleCount(), samples);
      REQUIRE_EQ((uint32_t)a.getSampleFrameStride(), frameStride ? frameStride : defaultFrame());
      REQUIRE_EQ(a.getSampleFormatAsString(), string(sample ? sample->name : "undefined"));
      REQUIRE_EQ(a.isSampleBlockFormatDefined(), audio == AudioFormat::PCM && sample && channels > 0);
      uint64_t frame = frameStride ? frameStride : defaultFrame();
      REQUIRE_EQ(a.getPcmBlockSize(), frame > 0 && samples > 0 ? frame * samples : ContentBlock::kSizeUnknown);
      if (sample) {
        REQUIRE_EQ((int)a.getBitsPerSample(), sample->bits);
        REQUIRE_EQ((int)a.getBytesPerSample(), sample->bits / 8);
        REQUIRE_EQ(a.isLittleEndian(), sample->little);
        REQUIRE_EQ(a.isIEEEFloat(), sample->ieee);
      }
    } else if (type == ContentType::CUSTOM) {
      REQUIRE_EQ(b.getCustomContentBlockFormat(), custom);
    }
  }
};

Model genModel(pbt::Src& s, bool small) {
  Model m;
  m.type = (ContentType)s.pick({2, 3, 4, 0, 1});
  if (s.chance(1, 3)) {
    m.size = small ? (uint32_t)s.size(300) : (uint32_t)s.interesting(32);
  }
  if (m.type == ContentType::IMAGE && s.chance(9, 10)) {
    m.image = (ImageFormat)s.pick({1, 1, 1, 2, 3, 4, 4, 5, 6});
    m.pixel = s.chance(5, 6) ? &s.pick(kPixels) : nullptr;
    if (s.chance(5, 6)) {
      uint32_t maxW = (1ull << 32) / 16 - 8;
      m.w = 1 + (small ? s.size(20) : s.chance(1, 4) ? s.draw(maxW - 1) : s.size(5000));
      m.h = 1 + (small ? s.size(20) : s.chance(1, 4) ? s.draw(maxW - 1) : s.size(5000));
    }
    bool more = m.image == ImageFormat::RAW || m.image == ImageFormat::VIDEO || m.image == ImageFormat::CUSTOM_CODEC;
    if (more && m.w > 0 && m.pixel && s.chance(1, 2)) {
      if (s.flip()) {
        m.stride = stride1(*m.pixel, m.w) + (small ? s.size(10) : s.size(1000));
      }
      if (s.flip() && stride2(*m.pixel, m.w) > 0) {
        m.stride2 = stride2(*m.pixel, m.w) + (small ? s.size(10) : s.size(1000));
      }
    }
    if (m.image == ImageFormat::VIDEO || m.image == ImageFormat::CUSTOM_CODEC) {
      if (s.flip()) {
        m.codec = s.chance(1, 2) ? s.ident(12) : s.anyText(60);
      }
      if (s.flip()) {
        m.quality = (uint8_t)s.draw(100);
      }
      if (m.image == ImageFormat::VIDEO && s.chance(1, 3)) {
        m.keyTime = s.range(-(1ll << 40), 1ll << 40) / 512.;
        m.keyIndex = s.flip() ? s.size(100) : (uint32_t)s.interesting(32);
      }
    }
  } else if (m.type == ContentType::AUDIO && s.chance(9, 10)) {
    m.audio = (AudioFormat)(1 + s.draw(1));
    m.sample = s.chance(5, 6) ? &s.pick(kSamples) : nullptr;
    m.channels = s.chance(1, 6) ? 0 : 1 + s.size(255 / (m.sample ? m.sample->bits / 8 : 1) - 1);
    m.frameStride = s.chance(1, 3) ? s.range(m.defaultFrame(), 255) : 0;
    m.rate = s.flip() ? (uint32_t)s.interesting(32) : 0;
    m.samples = s.flip() ? (small ? s.size(20) : (uint32_t)s.interesting(32)) : 0;
    m.stereoPairs = s.size(m.channels / 2);
  } else if (m.type == ContentType::CUSTOM && s.flip()) {
    m.custom = s.ident(20);
    for (char& ch : m.custom) {
      if (s.chance(1, 10)) {
        ch = s.pick({'_', '-', '*', '.', ',', ';', ':', '!', '@', '~', '#', '&', '|', '[', ']', '{', '}', '\''});
      }
    }
  }
  return m;
}

string modelText(const vector<Model>& v) {
  string r;
  for (auto& m : v) {
    r += (r.empty() ? "" : "+") + m.str();
  }
  return r.empty() ? "empty" : r;
}

const char* kTokens[] = {
    "image", "audio", "custom", "data_layout", "empty", "/", "/", "/", "/", "+", "+", "size=", "raw", "jpg", "png", "video", "jxl",
    "custom_codec", "undefined", "640x480", "x", "pixel=", "pixel=rgb8", "pixel=grey10packed", "pixel=yuv_420_nv21", "stride=",
    "stride_2=", "codec=", "codec=H.264", "codec=%41%", "codec=%4", "codec=%zz", "codec_quality=", "keyframe_timestamp=",
    "keyframe_index=", "pcm", "opus", "int16le", "uint8", "float64be", "channels=", "rate=", "samples=", "format=", "0", "1", "-1",
    "255", "256", "300", "4294967295", "4294967296", "99999999999999999999", "nan", "-inf", "1e300", "0.5", " ", "%", "%20", "\t", "\n"};

} // namespace

PBT_TEST(
    formats,
    600000,
    8000000,
    "up to 6 blocks of any type with any combination of specs, built with any constructor: text compared with one written "
    "independently, parsed back, every getter and every size compared; non-trivial: at least one block with a spec; distinct by text") {
  vector<Model> models;
  RecordFormat f;
  for (size_t n = s.size(6); n > 0; n--) {
    models.push_back(genModel(s, false));
    ContentBlock b = models.back().block(s);
    if (models.size() == 1 && s.flip()) {
      f = RecordFormat(b);
    } else if (s.flip()) {
      f + b;
    } else {
      f = f + ContentBlock(b);
    }
  }
  string text = modelText(models);
  c.note(text);
  REQUIRE_EQ(f.asString(), text);
  RecordFormat p = s.flip() ? RecordFormat(text) : RecordFormat(text.c_str());
  if (s.chance(1, 4)) {
    p.set("image/raw/5x5/pixel=rgb8+custom");
    p.set(text);
  }
  REQUIRE_EQ(p.asString(), text);
  REQUIRE(p == f && f == p && !(p != f));
  size_t used = models.size();
  while (used > 0 && models[used - 1].type == ContentType::EMPTY) {
    used--;
  }
  std::map<ContentType, size_t> counts;
  for (auto& m : models) {
    counts[m.type]++;
  }
  for (const RecordFormat* r : {&f, &p}) {
    REQUIRE_EQ(r->getUsedBlocksCount(), used);
    for (size_t k = 0; k < models.size(); k++) {
      models[k].check(r->getContentBlock(k));
    }
    if (!models.empty()) {
      models[0].check(r->getFirstContentBlock());
      for (auto t : {ContentType::CUSTOM, ContentType::EMPTY, ContentType::DATA_LAYOUT, ContentType::IMAGE, ContentType::AUDIO}) {
        REQUIRE_EQ(r->getBlocksOfTypeCount(t), counts[t]);
      }
    }
    REQUIRE(r->getContentBlock(models.size() + s.below(3)).getContentType() == ContentType::EMPTY);
    for (size_t from = 0; from <= models.size(); from++) {
      optional<uint64_t> sum = 0;
      for (size_t k = from; k < models.size(); k++) {
        auto b = models[k].blockSize();
        sum = sum && b ? optional<uint64_t>(*sum + *b) : std::nullopt;
      }
      REQUIRE_EQ(r->getRemainingBlocksSize(from), sum ? *sum : ContentBlock::kSizeUnknown);
      if (from == 0) {
        REQUIRE_EQ(r->getRecordSize(), sum ? *sum : ContentBlock::kSizeUnknown);
      }
    }
  }
  // another format isn't equal
  if (used > 0) {
    vector<Model> others = models;
    Model& o = others[s.below(used)];
    string was = o.str();
    switch (s.draw(2)) {
      case 0:
        o.size = o.size ? *o.size ^ (1 + (uint32_t)s.draw(1000)) : (uint32_t)s.draw(1000);
        break;
      case 1: {
        auto size = o.size;
        auto custom = o.custom; // the name of a custom format isn't compared
        o = genModel(s, false);
        o.size = size;
        if (o.type == ContentType::CUSTOM) {
          o.custom = custom;
        }
        break;
      }
      default:
        if (o.image != ImageFormat::UNDEFINED) {
          o.w += 1;
          o.h += o.h == 0;
        } else if (o.audio != AudioFormat::UNDEFINED) {
          o.rate++;
        } else {
          others.resize(used + 1);
          others.back().type = ContentType::DATA_LAYOUT;
        }
        break;
    }
    RecordFormat q(modelText(others));
    bool custom = false; // the names of custom formats aren't compared
    for (size_t k = 0; k < std::min(models.size(), others.size()); k++) {
      custom = custom || models[k].custom != others[k].custom;
    }
    while (!others.empty() && others.back().type == ContentType::EMPTY) {
      others.pop_back();
    }
    vector<Model> usedModels(models.begin(), models.begin() + used);
    bool same = modelText(others) == modelText(usedModels);
    if (!custom) {
      REQUIRE_EQ_MSG(q == f, same, "== with " << modelText(others));
    }
  }
  bool spec = false;
  for (auto& m : models) {
    spec = spec || m.image != ImageFormat::UNDEFINED || m.audio != AudioFormat::UNDEFINED;
  }
  c.label("large image", [&] {
    for (auto& m : models) {
      auto r = m.rawSize();
      if (r && *r > 0xffffffff) {
        return 1;
      }
    }
    return 0;
  }());
  if (spec) {
    c.nontrivial(text);
  }
}

PBT_TEST(
    sizes,
    300000,
    3000000,
    "records made of up to 6 blocks with sizes known or not: for each block, given what's left of the record, the size computed must "
    "be the actual one, or unknown if 2 or more unknown sizes follow; non-trivial: 2 blocks or more, one of unknown size; distinct by text") {
  vector<Model> models;
  RecordFormat f;
  vector<uint64_t> actual;
  size_t unknown = 0;
  for (size_t n = 1 + s.size(5); n > 0; n--) {
    models.push_back(genModel(s, true));
    auto b = models.back().blockSize();
    actual.push_back(b ? *b : s.size(1000));
    unknown += !b;
    f + models.back().block(s);
  }
  c.note(modelText(models));
  uint64_t total = 0;
  for (auto a : actual) {
    total += a;
  }
  uint64_t left = total;
  for (size_t k = 0; k < models.size(); k++) {
    size_t unknownNow = 0, unknownAfter = 0;
    for (size_t j = k; j < models.size(); j++) {
      (j == k ? unknownNow : unknownAfter) += !models[j].blockSize();
    }
    uint64_t expected = unknownNow == 0 || unknownAfter == 0 ? actual[k] : ContentBlock::kSizeUnknown;
    REQUIRE_EQ_MSG(f.getBlockSize(k, left), expected, "block #" << k << " of " << modelText(models) << " with " << left << " bytes left");
    // what can't fit is unknown
    uint64_t less = s.below(left + 1);
    uint64_t got = f.getBlockSize(k, less);
    REQUIRE_MSG(got == ContentBlock::kSizeUnknown || got <= less, "block #" << k << " has " << got << " bytes of " << less);
    if (unknownNow == 0) {
      REQUIRE_EQ(got, actual[k] <= less ? actual[k] : ContentBlock::kSizeUnknown);
    }
    left -= actual[k];
  }
  if (models.size() > 1 && unknown > 0) {
    c.nontrivial(modelText(models) + pbt::show(actual));
  }
}

PBT_TEST(
    anyText,
    600000,
    8000000,
    "text made of the tokens of the format language, numbers, and noise: parsing never crashes, and what was understood has a stable "
    "text; non-trivial: at least two blocks or a spec were understood; distinct by text") {
  string text;
  for (size_t n = s.size(20); n > 0; n--) {
    text += s.chance(1, 8) ? s.anyText(6) : s.pick(kTokens);
  }
  if (s.chance(1, 3)) { // a valid one, damaged
    text = genModel(s, false).str() + "+" + genModel(s, false).str();
    for (size_t n = s.size(3); n > 0 && !text.empty(); n--) {
      size_t at = s.below(text.size());
      switch (s.draw(2)) {
        case 0:
          text.erase(at, 1 + s.draw(2));
          break;
        case 1:
          text[at] = (char)s.draw(255);
          break;
        default:
          text.insert(at, s.pick(kTokens));
          break;
      }
    }
  }
  c.note(pbt::show(text));
  RecordFormat f(text);
  string t1 = f.asString();
  bool longCodec = false; // codec names of 194 characters or more once escaped aren't supported
  for (size_t k = 0; k < f.getUsedBlocksCount(); k++) {
    const ContentBlock& b = f.getContentBlock(k);
    longCodec = longCodec || (b.getContentType() == ContentType::IMAGE && b.image().getCodecName().size() > 60);
    size_t size = b.getBlockSize();
    REQUIRE(f.getBlockSize(k, 1000) <= 1000 || f.getBlockSize(k, 1000) == ContentBlock::kSizeUnknown);
    if (b.getContentType() == ContentType::IMAGE) {
      REQUIRE_EQ(ImageContentBlockSpec(b.image().asString()).asString(), longCodec ? ImageContentBlockSpec(b.image().asString()).asString() : b.image().asString());
      b.image().sanityCheckStrides();
      b.image().core();
      (void)size;
    } else if (b.getContentType() == ContentType::AUDIO) {
      REQUIRE_EQ(AudioContentBlockSpec(b.audio().asString()).asString(), b.audio().asString());
    }
  }
  f.getRecordSize();
  if (!longCodec) {
    RecordFormat g(t1);
    REQUIRE_EQ_MSG(g.asString(), t1, "text read again");
    REQUIRE_EQ(g.getUsedBlocksCount(), f.getUsedBlocksCount());
    if (f.getUsedBlocksCount() > 1 || t1.find('/') != string::npos) {
      c.nontrivial(text);
    }
  }
}

PBT_TEST(
    registry,
    100000,
    1000000,
    "sets of formats & layouts for any record type and version, registered as tags and found back, among unrelated and malformed tags; "
    "non-trivial: 2 formats or more; distinct by tags") {
  const Record::Type kTypes[] = {Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE};
  const char* kTypeNames[] = {"Data", "Configuration", "State"};
  std::map<string, string> tags;
  std::map<std::pair<size_t, uint32_t>, string> model;
  std::map<string, string> layouts; // expected layouts
  lay::ValueStyle st;
  st.finite = true;
  st.asciiText = true;
  for (size_t n = s.size(6); n > 0; n--) {
    size_t t = s.below(3);
    uint32_t version = s.flip() ? s.draw(3) : (uint32_t)s.interesting(32);
    vector<Model> blocks;
    RecordFormat f;
    vector<std::unique_ptr<lay::Live>> live;
    vector<const DataLayout*> pointers;
    for (size_t k = s.size(4); k > 0; k--) {
      blocks.push_back(genModel(s, false));
      f + blocks.back().block(s);
    }
    size_t used = blocks.size();
    while (used > 0 && blocks[used - 1].type == ContentType::EMPTY) {
      used--;
    }
    size_t count = s.chance(1, 2) ? used : s.size(5);
    for (size_t k = 0; k < count; k++) {
      bool isLayout = k < used && blocks[k].type == ContentType::DATA_LAYOUT;
      if (s.chance(1, 10) ? !isLayout : isLayout) {
        live.push_back(std::make_unique<lay::Live>(lay::genLayout(s, st, 3)));
        pointers.push_back(live.back().get());
        layouts[string("DL:") + kTypeNames[t] + ":" + std::to_string(version) + ":" + std::to_string(k)] = live.back()->asJson();
      } else {
        pointers.push_back(nullptr);
      }
    }
    bool good = true;
    for (size_t k = 0; k < std::max(used, count); k++) {
      bool isLayout = k < used && blocks[k].type == ContentType::DATA_LAYOUT;
      good = good && isLayout == (k < count && pointers[k] != nullptr);
    }
    REQUIRE_EQ(RecordFormat::addRecordFormat(tags, kTypes[t], version, f, pointers), good);
    model[{t, version}] = modelText(blocks);
  }
  std::map<string, string> expected = layouts;
  for (auto& m : model) {
    string name = string("RF:") + kTypeNames[m.first.first] + ":" + std::to_string(m.first.second);
    REQUIRE_EQ(RecordFormat::getRecordFormatTagName(kTypes[m.first.first], m.first.second), name);
    expected[name] = m.second;
    Record::Type type{};
    uint32_t v = 0;
    REQUIRE(RecordFormat::parseRecordFormatTagName(name, type, v) && type == kTypes[m.first.first] && v == m.first.second);
  }
  REQUIRE_EQ(tags, expected);
  // unrelated and malformed tags are ignored
  for (size_t n = s.size(6); n > 0; n--) {
    string name = s.pick({"RF:", "DL:", "RF", "VRS_", "rf:", ""}) + string(s.pick({"Data", "Configuration", "State", "Tags", "data", ""})) +
        s.pick({":", "", "::", ": ", "-"}) + s.pick({"", "-1", "4294967296", "99999999999", "x", "1x", "1 ", "+1", "0x1"}) + s.text(s.flip() ? 0 : 3);
    Record::Type type{};
    uint32_t v = 0;
    bool ok = RecordFormat::parseRecordFormatTagName(name, type, v);
    // accepted means that it's made of a prefix, a type, and a number
    if (ok) {
      bool found = false;
      for (size_t t = 0; t < 3; t++) {
        string prefix = string("RF:") + kTypeNames[t] + ":";
        if (name.compare(0, prefix.size(), prefix) == 0 && name.size() > prefix.size()) {
          string digits = name.substr(prefix.size());
          size_t z = digits.find_first_not_of("0");
          string plain = z == string::npos ? "0" : digits.substr(z);
          found = plain == std::to_string(v) && type == kTypes[t];
        }
      }
      REQUIRE_MSG(found, "parsed " << pbt::show(name) << " as version " << v);
    } else {
      tags[name] = s.text(10);
    }
  }
  RecordFormatMap formats;
  RecordFormat::getRecordFormats(tags, formats);
  REQUIRE_EQ(formats.size(), model.size());
  for (auto& m : model) {
    auto it = formats.find({kTypes[m.first.first], m.first.second});
    REQUIRE(it != formats.end());
    REQUIRE_EQ(it->second.asString(), m.second);
  }
  for (size_t t = 0; t < 3; t++) {
    for (auto& m : model) {
      for (size_t k = 0; k < 6; k++) {
        auto it = layouts.find(string("DL:") + kTypeNames[t] + ":" + std::to_string(m.first.second) + ":" + std::to_string(k));
        auto l = RecordFormat::getDataLayout(tags, ContentBlockId(RecordableTypeId::UnitTest1, kTypes[t], m.first.second, k));
        REQUIRE_EQ(l != nullptr, it != layouts.end());
        if (l) {
          REQUIRE_EQ(l->asJson(), it->second);
        }
      }
    }
  }
  if (model.size() > 1) {
    c.nontrivial(pbt::show(tags));
  }
}

PBT_TEST(
    enums,
    20000,
    200000,
    "names of content types, image, pixel, audio and sample formats to text and back, and unknown names; non-trivial: known name; distinct by name") {
  string name;
  size_t kind = s.below(5);
  const char* kContent[] = {"custom", "empty", "data_layout", "image", "audio"};
  const char* kAudio[] = {"undefined", "pcm", "opus"};
  long known = -1; // expected value
  switch (kind) {
    case 0: {
      size_t k = s.below(5);
      name = kContent[k];
      REQUIRE_EQ(toString((ContentType)k), name);
      known = k;
      break;
    }
    case 1: {
      size_t k = s.below(7);
      name = kImageNames[k];
      REQUIRE_EQ(toString((ImageFormat)k), name);
      known = k;
      break;
    }
    case 2: {
      auto& p = s.pick(kPixels);
      name = p.name;
      REQUIRE_EQ(toString(p.format), name);
      known = (long)p.format;
      break;
    }
    case 3: {
      size_t k = s.below(3);
      name = kAudio[k];
      REQUIRE_EQ(toString((AudioFormat)k), name);
      known = k;
      break;
    }
    default: {
      auto& p = s.pick(kSamples);
      name = p.name;
      REQUIRE_EQ(toString(p.format), name);
      known = (long)p.format;
      break;
    }
  }
  bool change = s.flip();
  if (change) {
    name += s.pick({"x", " ", "_", "9"});
    known = 0;
  }
  c.note(name);
  long got = kind == 0 ? (long)toEnum<ContentType>(name)
      : kind == 1      ? (long)toEnum<ImageFormat>(name)
      : kind == 2      ? (long)toEnum<PixelFormat>(name)
      : kind == 3      ? (long)toEnum<AudioFormat>(name)
                       : (long)toEnum<AudioSampleFormat>(name);
  REQUIRE_EQ(got, known);
  if (!change) {
    c.nontrivial(name);
  }
}
