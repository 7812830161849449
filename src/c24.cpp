// C24: pixel conversions follow each format's definition.
#include <array>
#include <cmath>
#include <cstring>

#include <vrs/RecordReaders.h>
#include <vrs/utils/BufferRecordReader.hpp>
#include <vrs/utils/PixelConversions.h>
#include <vrs/utils/PixelFrame.h>
#include <vrs/utils/converters/Grey10PackedConverters.h>
#include <vrs/utils/converters/Raw10ToGrey10Converter.h>

#include "pbt.h"

// the vectorized variant, which isn't part of the default build
#if defined(__x86_64__) && defined(__clang__)
#include <smmintrin.h>
#define DEFAULT_LOG_CHANNEL "c24"
#include <logging/Checks.h>
#include <logging/Log.h>
#include <logging/Verify.h>
#undef DEFAULT_LOG_CHANNEL
#include <vrs/os/CompilerAttributes.h>
#define HAS_SIMD 1
#define convertRaw10ToGrey10 convertRaw10ToGrey10Simd
#define convertPixelGroup convertPixelGroupSimd
#define convertVectorized convertVectorizedSimd
#pragma clang attribute push(__attribute__((target("sse4.2"))), apply_to = function)
#ifndef __SSE4_2__
#define __SSE4_2__ 1
#define UNDEF_SSE
#endif
#include <vrs/utils/converters/Raw10ToGrey10Converter.cpp>
#ifdef UNDEF_SSE
#undef __SSE4_2__
#endif
#pragma clang attribute pop
#undef convertRaw10ToGrey10
#undef convertPixelGroup
#undef convertVectorized
#else
#define HAS_SIMD 0
#endif

using namespace vrs;
using namespace vrs::utils;
namespace pc = vrs::utils::pixel_conversions;
using std::shared_ptr;
using std::string;
using std::vector;
using Bytes = vector<uint8_t>;

namespace {

uint16_t le16(const uint8_t* p) {
  return (uint16_t)(p[0] | (p[1] << 8));
}
float leFloat(const uint8_t* p) {
  float f;
  memcpy(&f, p, sizeof(f));
  return f;
}
double leDouble(const uint8_t* p) {
  double f;
  memcpy(&f, p, sizeof(f));
  return f;
}
uint8_t clip(int v) {
  return (uint8_t)(v < 0 ? 0 : v > 255 ? 255 : v);
}

/// one pixel, by the definition of the formats
uint16_t raw10(const uint8_t* line, uint32_t x) {
  const uint8_t* g = line + (size_t)x / 4 * 5;
  return (uint16_t)((g[x % 4] << 2) | ((g[4] >> (2 * (x % 4))) & 3));
}
uint16_t packed10(const uint8_t* line, uint32_t x) {
  size_t bit = (size_t)x * 10;
  uint16_t v = 0;
  for (int k = 0; k < 10; k++, bit++) {
    v |= (uint16_t)(((line[bit / 8] >> (bit % 8)) & 1) << k);
  }
  return v;
}
std::array<uint8_t, 3> yuy2(const uint8_t* line, uint32_t x) {
  const uint8_t* g = line + (size_t)x / 2 * 4;
  int c = g[(x % 2) * 2] - 16, d = g[1] - 128, e = g[3] - 128;
  return {clip((298 * c + 409 * e + 128) >> 8), clip((298 * c - 100 * d - 208 * e + 128) >> 8), clip((298 * c + 516 * d + 128) >> 8)};
}

struct Image {
  PixelFormat pf = PixelFormat::GREY8;
  uint32_t w = 1, h = 1, stride = 0, stride2 = 0;
  ImageContentBlockSpec spec() const {
    return ImageContentBlockSpec(pf, w, h, stride, stride2);
  }
  string str() const {
    return spec().asString();
  }
};

const PixelFormat kFormats[] = {
    PixelFormat::GREY8,        PixelFormat::BGR8,           PixelFormat::DEPTH32F,     PixelFormat::RGB8,         PixelFormat::YUV_I420_SPLIT, PixelFormat::RGBA8,
    PixelFormat::RGB10,        PixelFormat::RGB12,          PixelFormat::GREY10,       PixelFormat::GREY12,       PixelFormat::GREY16,         PixelFormat::RGB32F,
    PixelFormat::SCALAR64F,    PixelFormat::YUY2,           PixelFormat::RGB_IR_RAW_4X4, PixelFormat::RGBA32F,    PixelFormat::BAYER8_RGGB,    PixelFormat::RAW10,
    PixelFormat::RAW10_BAYER_RGGB, PixelFormat::RAW10_BAYER_BGGR, PixelFormat::YUV_420_NV21, PixelFormat::YUV_420_NV12, PixelFormat::GREY10PACKED, PixelFormat::BAYER8_BGGR,
    PixelFormat::BAYER10_GBRG, PixelFormat::BAYER8_GBRG};

Image genImage(pbt::Src& s) {
  Image i;
  i.pf = s.pick(kFormats);
  i.w = 1 + (uint32_t)s.size(s.chance(1, 20) ? 300 : 40);
  i.h = 1 + (uint32_t)s.size(s.chance(1, 20) ? 100 : 10);
  uint32_t least = ImageContentBlockSpec(i.pf, i.w, i.h).getDefaultStride();
  if (s.chance(1, 3)) {
    i.stride = least + (uint32_t)s.draw(17);
  }
  if (s.chance(1, 4) && ImageContentBlockSpec(i.pf, i.w, i.h).getPlaneCount() > 1) {
    i.stride2 = ImageContentBlockSpec(i.pf, i.w, i.h).getDefaultStride2() + (uint32_t)s.draw(9);
  }
  return i;
}

template <class F>
void putFloat(uint8_t* p, F v) {
  memcpy(p, &v, sizeof(v));
}

/// pixels valid for the format
Bytes genPixels(pbt::Src& s, const Image& i) {
  auto spec = i.spec();
  Bytes b = s.bytes(spec.getRawImageSize());
  pbt::Prng noise{s.u64()};
  uint32_t stride = spec.getStride();
  auto mask16 = [&](uint16_t mask, uint32_t count) {
    for (uint32_t y = 0; y < i.h; y++) {
      for (uint32_t x = 0; x < i.w * count; x++) {
        b[y * stride + 2 * x + 1] &= (uint8_t)(mask >> 8);
      }
    }
  };
  auto floats = [&](uint32_t count, size_t size) {
    size_t style = s.below(4);
    double base = s.flip() ? 0 : (double)s.range(-1000, 1000);
    double scale = s.pick<double, 4>({1, 0.001, 100, 1e6});
    bool nans = s.flip();
    for (uint32_t y = 0; y < i.h; y++) {
      for (uint32_t x = 0; x < i.w * count; x++) {
        double v = style == 0 ? base : base + scale * (double)(noise.next() % 4096) / 256;
        if (style == 2 && noise.next() % 4 != 0) {
          v = -v;
        } else if (style == 3 && noise.next() % 3 == 0) {
          v = 0;
        }
        if (nans && noise.next() % 9 == 0) {
          v = std::numeric_limits<double>::quiet_NaN();
        }
        uint8_t* p = b.data() + (size_t)y * stride + x * size;
        size == 4 ? putFloat(p, (float)v) : putFloat(p, v);
      }
    }
  };
  switch (i.pf) {
    case PixelFormat::GREY10:
    case PixelFormat::BAYER10_GBRG:
      mask16(0x3ff, 1);
      break;
    case PixelFormat::GREY12:
      mask16(0xfff, 1);
      break;
    case PixelFormat::RGB10:
      mask16(0x3ff, 3);
      break;
    case PixelFormat::RGB12:
      mask16(0xfff, 3);
      break;
    case PixelFormat::DEPTH32F:
      floats(1, 4);
      break;
    case PixelFormat::SCALAR64F:
      floats(1, 8);
      break;
    case PixelFormat::RGB32F:
      floats(3, 4);
      break;
    case PixelFormat::RGBA32F:
      floats(4, 4);
      break;
    default:
      break;
  }
  return b;
}

/// Expected grey8 pixels of floats, by percentiles
template <class F>
bool percentiles(const vector<F>& pixels, uint32_t w, uint32_t h, Bytes& out) {
  out.assign(pixels.size(), 0);
  vector<F> samples;
  for (uint32_t idx : pc::R2Sampler2D(w, h, 5000)) {
    F v = pixels.at(idx);
    if (std::isfinite(v) && v > 0) {
      samples.push_back(v);
    }
  }
  if (samples.size() < 10) {
    return true;
  }
  std::sort(samples.begin(), samples.end());
  F lo = samples[samples.size() * 5 / 100], hi = samples[samples.size() * 95 / 100];
  if (!(lo < hi)) {
    return true;
  }
  F factor = 255 / (hi - lo);
  for (size_t k = 0; k < pixels.size(); k++) {
    F v = pixels[k];
    out[k] = (uint8_t)(std::isnan(v) || v <= lo ? 0 : v >= hi ? 255 : (v - lo) * factor);
  }
  return true;
}

/// What normalizing gives; false if the format isn't converted
bool reference(const Image& i, const Bytes& src, bool grey16, const NormalizeOptions& o, PixelFormat& pf, Bytes& out) {
  auto spec = i.spec();
  const uint32_t stride = spec.getStride();
  out.clear();
  auto line = [&](uint32_t y) { return src.data() + (size_t)y * stride; };
  auto put16 = [&](uint16_t v) {
    out.push_back((uint8_t)v);
    out.push_back((uint8_t)(v >> 8));
  };
  auto eachPixel = [&](auto f) {
    for (uint32_t y = 0; y < i.h; y++) {
      for (uint32_t x = 0; x < i.w; x++) {
        f(line(y), x);
      }
    }
  };
  auto grey = [&](auto value, int bits) {
    pf = grey16 ? PixelFormat::GREY16 : PixelFormat::GREY8;
    eachPixel([&](const uint8_t* l, uint32_t x) {
      uint16_t v = value(l, x);
      if (grey16) {
        put16((uint16_t)(v << (16 - bits)));
      } else {
        out.push_back((uint8_t)(v >> (bits - 8)));
      }
    });
  };
  switch (i.pf) {
    case PixelFormat::GREY10:
    case PixelFormat::BAYER10_GBRG:
      grey([](const uint8_t* l, uint32_t x) { return le16(l + 2 * x); }, 10);
      return true;
    case PixelFormat::GREY12:
      grey([](const uint8_t* l, uint32_t x) { return le16(l + 2 * x); }, 12);
      return true;
    case PixelFormat::RAW10:
    case PixelFormat::RAW10_BAYER_RGGB:
    case PixelFormat::RAW10_BAYER_BGGR:
      if (grey16 && i.w % 4 != 0) {
        return false; // not supported
      }
      grey(raw10, 10);
      return true;
    case PixelFormat::GREY10PACKED:
      grey(packed10, 10);
      return true;
    case PixelFormat::GREY16:
      if (o.semantic == ImageSemantic::ObjectClassSegmentation || o.semantic == ImageSemantic::ObjectIdSegmentation) {
        pf = PixelFormat::RGB8;
        auto& colors = PixelFrame::getGetObjectIdSegmentationColors();
        eachPixel([&](const uint8_t* l, uint32_t x) {
          auto c = colors.at(le16(l + 2 * x));
          out.insert(out.end(), {c.r, c.g, c.b});
        });
        return true;
      }
      if (grey16) {
        return false;
      }
      pf = PixelFormat::GREY8;
      eachPixel([&](const uint8_t* l, uint32_t x) { out.push_back(l[2 * x + 1]); });
      return true;
    case PixelFormat::RGB10:
    case PixelFormat::RGB12:
      pf = PixelFormat::RGB8;
      eachPixel([&](const uint8_t* l, uint32_t x) {
        for (int k = 0; k < 3; k++) {
          out.push_back((uint8_t)(le16(l + 6 * x + 2 * k) >> (i.pf == PixelFormat::RGB10 ? 2 : 4)));
        }
      });
      return true;
    case PixelFormat::BGR8:
      pf = PixelFormat::RGB8;
      eachPixel([&](const uint8_t* l, uint32_t x) { out.insert(out.end(), {l[3 * x + 2], l[3 * x + 1], l[3 * x]}); });
      return true;
    case PixelFormat::RGB_IR_RAW_4X4:
      pf = PixelFormat::RGB8;
      eachPixel([&](const uint8_t* l, uint32_t x) { out.insert(out.end(), {l[x], l[x], l[x]}); });
      return true;
    case PixelFormat::YUY2:
      pf = PixelFormat::RGB8;
      eachPixel([&](const uint8_t* l, uint32_t x) {
        auto c = yuy2(l, x);
        out.insert(out.end(), c.begin(), c.end());
      });
      return true;
    case PixelFormat::BAYER8_RGGB:
    case PixelFormat::BAYER8_BGGR:
    case PixelFormat::BAYER8_GBRG:
    case PixelFormat::YUV_I420_SPLIT:
    case PixelFormat::YUV_420_NV12:
    case PixelFormat::YUV_420_NV21:
      pf = PixelFormat::GREY8;
      eachPixel([&](const uint8_t* l, uint32_t x) { out.push_back(l[x]); });
      return true;
    case PixelFormat::DEPTH32F: {
      pf = PixelFormat::GREY8;
      vector<float> v;
      eachPixel([&](const uint8_t* l, uint32_t x) { v.push_back(leFloat(l + 4 * x)); });
      if (o.semantic == ImageSemantic::Depth && o.min < o.max) {
        float factor = 255 / (o.max - o.min);
        for (float f : v) {
          out.push_back((uint8_t)(std::isnan(f) || f <= o.min ? 0 : f >= o.max ? 255 : (f - o.min) * factor));
        }
        return true;
      }
      return percentiles(v, i.w, i.h, out);
    }
    case PixelFormat::SCALAR64F: {
      pf = PixelFormat::GREY8;
      vector<double> v;
      eachPixel([&](const uint8_t* l, uint32_t x) { v.push_back(leDouble(l + 8 * x)); });
      return percentiles(v, i.w, i.h, out);
    }
    case PixelFormat::RGB32F:
    case PixelFormat::RGBA32F: {
      pf = PixelFormat::RGB8;
      size_t size = i.pf == PixelFormat::RGB32F ? 12 : 16;
      float lo[3], hi[3];
      bool any[3] = {false, false, false};
      eachPixel([&](const uint8_t* l, uint32_t x) {
        for (int k = 0; k < 3; k++) {
          float f = leFloat(l + x * size + 4 * k);
          if (!std::isnan(f)) {
            lo[k] = any[k] ? std::min(lo[k], f) : f;
            hi[k] = any[k] ? std::max(hi[k], f) : f;
            any[k] = true;
          }
        }
      });
      eachPixel([&](const uint8_t* l, uint32_t x) {
        for (int k = 0; k < 3; k++) {
          float f = leFloat(l + x * size + 4 * k);
          float factor = any[k] && hi[k] > lo[k] ? 255 / (hi[k] - lo[k]) : 0;
          out.push_back(std::isnan(f) ? 0 : (uint8_t)((f - lo[k]) * factor));
        }
      });
      return true;
    }
    default:
      return false; // GREY8, RGB8 are normalized; no conversion for RGBA8
  }
}

void requirePixels(const PixelFrame& f, PixelFormat pf, const Image& i, const Bytes& expected, const string& what) {
  REQUIRE_EQ_MSG(toString(f.getPixelFormat()), toString(pf), what);
  REQUIRE_EQ_MSG(f.getWidth(), i.w, what);
  REQUIRE_EQ_MSG(f.getHeight(), i.h, what);
  REQUIRE_EQ_MSG(f.getStride(), f.getDefaultStride(), what);
  REQUIRE_EQ_MSG(f.size(), expected.size(), what);
  REQUIRE_MSG(f.getImageFormat() == ImageFormat::RAW, what);
  for (size_t k = 0; k < expected.size(); k++) {
    REQUIRE_MSG(
        f.rdata()[k] == expected[k],
        what << ": byte " << k << " of " << expected.size() << " expected " << (int)expected[k] << " found " << (int)f.rdata()[k]);
  }
}

} // namespace

PBT_TEST(
    normalize,
    1200000,
    12000000,
    "an image of every pixel format, size, stride and content normalized with every option, into new and reused frames: pixels compared with the formats' "
    "definitions; the source is unchanged; non-trivial: 10 pixels or more; distinct by content") {
  Image i = genImage(s);
  Bytes src = genPixels(s, i);
  NormalizeOptions o;
  o.semantic = (ImageSemantic)s.draw(4);
  if (s.flip()) {
    o.min = (float)s.range(-3, 3);
    o.max = o.min + (float)s.draw(8);
  }
  bool grey16 = s.flip();
  std::ostringstream what;
  what << i.str() << " stride " << i.spec().getStride() << " semantic " << (int)o.semantic << " " << o.min << "-" << o.max << (grey16 ? " grey16" : "");
  c.note(what.str());
  auto frame = std::make_shared<PixelFrame>(i.spec(), Bytes(src));
  PixelFormat pf = i.pf;
  Bytes expected;
  bool converted = reference(i, src, grey16, o, pf, expected);
  shared_ptr<PixelFrame> out;
  if (s.flip()) {
    // reuse a frame
    Image other = genImage(s);
    out = s.chance(1, 5) ? frame : std::make_shared<PixelFrame>(other.spec(), genPixels(s, other));
  }
  switch (s.below(3)) {
    case 0:
      PixelFrame::normalizeFrame(frame, out, grey16, o);
      if (!converted) {
        REQUIRE(out == frame);
      }
      break;
    case 1:
      REQUIRE_EQ_MSG(frame->normalizeFrame(out, grey16, o), converted, what.str());
      break;
    default:
      if (!out || out == frame) {
        out = std::make_shared<PixelFrame>();
      }
      REQUIRE_EQ_MSG(frame->normalizeFrame(*out, grey16, o), converted, what.str());
      break;
  }
  if (converted) {
    REQUIRE(out && out != frame);
    requirePixels(*out, pf, i, expected, what.str());
    // the announced format, when it can be produced
    PixelFormat announced = PixelFrame::getNormalizedPixelFormat(i.pf, grey16, o);
    REQUIRE(
        announced == pf || i.spec().getPlaneCount() > 1 || i.pf == PixelFormat::RAW10_BAYER_RGGB || i.pf == PixelFormat::RAW10_BAYER_BGGR);
    // normalizing again changes nothing
    shared_ptr<PixelFrame> again;
    REQUIRE(!out->normalizeFrame(again, grey16));
  }
  REQUIRE(frame->getBuffer() == src && frame->getSpec() == i.spec());
  c.label(toString(i.pf));
  c.label("stride", i.spec().getStride() > i.spec().getDefaultStride());
  if (i.w * i.h >= 10) {
    c.nontrivial(pbt::hashBytes(src.data(), src.size(), pbt::hashStr(what.str())));
  }
}

PBT_TEST(
    rows,
    700000,
    7000000,
    "the row conversions on buffers of any alignment, size and stride: pixels against the definitions, bytes between rows untouched, none outside accessed; "
    "packed formats converted back; non-trivial: 10 pixels or more; distinct by content") {
  uint32_t w = 1 + (uint32_t)s.size(60), h = 1 + (uint32_t)s.size(8);
  size_t kind = s.below(9);
  if ((kind == 7 || kind == 8) && s.chance(4, 5)) {
    w = (w + 3) / 4 * 4;
  }
  struct Kind {
    size_t srcNum, srcDen, srcGroup, dst;
    const char* name;
  };
  // bytes of a row: groups of srcDen pixels of srcGroup bytes
  static const Kind kinds[] = {
      {1, 1, 4, 3, "rgba-rgb"}, {1, 1, 3, 3, "bgr-rgb"}, {1, 4, 5, 1, "raw10-grey8"}, {1, 1, 1, 3, "grey-rgb"}, {1, 2, 4, 3, "yuy2-rgb"},
      {1, 4, 5, 2, "packed-16"}, {1, 4, 5, 1, "packed-8"}, {1, 4, 5, 2, "raw10-grey10"}, {1, 4, 5, 2, "raw10-grey10-simd"}};
  const Kind& k = kinds[kind];
  size_t srcRow = (w + k.srcDen - 1) / k.srcDen * k.srcGroup, dstRow = w * k.dst;
  size_t srcStride = srcRow + (s.flip() ? 0 : s.draw(9)), dstStride = dstRow + (s.flip() ? 0 : s.draw(9));
  if (kind == 1) {
    srcStride = srcRow;
    dstStride = dstRow;
  }
  if (kind >= 7) {
    dstStride = dstRow;
  }
  size_t srcOffset = s.flip() ? 0 : s.draw(8), dstOffset = s.flip() ? 0 : s.draw(8);
  if (kind == 8) {
    dstOffset = 0; // aligned stores
  }
  // nothing beyond the last pixel of the last row
  bool exact = s.flip();
  bool checkedSizes = kind == 5 || kind == 6;
  size_t srcSize = srcOffset + srcStride * (h - 1) + (exact && !checkedSizes ? srcRow : srcStride), dstSize = dstOffset + dstStride * (h - 1) + (exact && !checkedSizes ? dstRow : dstStride);
  Bytes content = s.bytes(srcSize);
  std::unique_ptr<uint8_t[]> src(new uint8_t[srcSize]), dst(new uint8_t[dstSize]);
  memcpy(src.get(), content.data(), srcSize);
  const uint8_t fill = 0xC3;
  memset(dst.get(), fill, dstSize);
  uint8_t *sp = src.get() + srcOffset, *dp = dst.get() + dstOffset;
  std::ostringstream what;
  what << k.name << " " << w << "x" << h << " strides " << srcStride << " " << dstStride << " offsets " << srcOffset << " " << dstOffset;
  c.note(what.str());
  bool ok = true, expectOk = true;
  switch (kind) {
    case 0:
      pc::convertRgbaToRgb(sp, srcStride, dp, dstStride, w, h);
      break;
    case 1:
      pc::convertBgr8ToRgb8(sp, dp, w * h);
      break;
    case 2:
      pc::convertRaw10ToGrey8(sp, srcStride, dp, dstStride, w, h);
      break;
    case 3:
      pc::convertGreyToRgb8(sp, srcStride, dp, dstStride, w, h);
      break;
    case 4:
      pc::convertYuy2ToRgb8(sp, srcStride, dp, dstStride, w, h);
      break;
    case 5:
      ok = convertGrey10PackedToGrey16(dp, dstSize - dstOffset, dstStride, sp, srcSize - srcOffset, w, h, srcStride);
      break;
    case 6:
      ok = convertGrey10PackedToGrey8(dp, dstSize - dstOffset, dstStride, sp, srcSize - srcOffset, w, h, srcStride);
      break;
    case 7:
      ok = convertRaw10ToGrey10(dp, sp, w, h, srcStride);
      expectOk = w % 4 == 0;
      break;
    default:
#if HAS_SIMD
      ok = convertRaw10ToGrey10Simd(dp, sp, w, h, srcStride);
#else
      ok = convertRaw10ToGrey10(dp, sp, w, h, srcStride);
#endif
      expectOk = w % 4 == 0;
      break;
  }
  REQUIRE_EQ_MSG(ok, expectOk, what.str());
  if (!ok) {
    throw pbt::Discard{};
  }
  for (uint32_t y = 0; y < h; y++) {
    const uint8_t *l = sp + y * srcStride, *d = dp + y * dstStride;
    for (uint32_t x = 0; x < w; x++) {
      uint8_t e[3] = {0, 0, 0};
      uint16_t v = 0;
      switch (kind) {
        case 0:
          memcpy(e, l + 4 * x, 3);
          break;
        case 1:
          e[0] = l[3 * x + 2], e[1] = l[3 * x + 1], e[2] = l[3 * x];
          break;
        case 2:
          e[0] = (uint8_t)(raw10(l, x) >> 2);
          break;
        case 3:
          e[0] = e[1] = e[2] = l[x];
          break;
        case 4: {
          auto p = yuy2(l, x);
          memcpy(e, p.data(), 3);
        } break;
        case 5:
          v = (uint16_t)(packed10(l, x) << 6);
          e[0] = (uint8_t)v, e[1] = (uint8_t)(v >> 8);
          break;
        case 6:
          e[0] = (uint8_t)(packed10(l, x) >> 2);
          break;
        default:
          v = raw10(l, x);
          e[0] = (uint8_t)v, e[1] = (uint8_t)(v >> 8);
          break;
      }
      REQUIRE_MSG(memcmp(d + x * k.dst, e, k.dst) == 0, what.str() << ": pixel " << x << "," << y);
    }
    for (size_t gap = dstRow; gap < dstStride && d + gap < dst.get() + dstSize; gap++) {
      REQUIRE_MSG(d[gap] == fill, what.str() << ": row " << y << " written beyond its end");
    }
  }
  REQUIRE(memcmp(src.get(), content.data(), srcSize) == 0);
  for (size_t b = 0; b < dstOffset; b++) {
    REQUIRE(dst[b] == fill);
  }
  // round trip of 10 bit pixels
  if (kind == 5) {
    size_t greyStride = w * 2 + s.draw(3) * 2, packedStride = (w + 3) / 4 * 5 + s.draw(4);
    Bytes grey(greyStride * h), packed(packedStride * h, fill);
    for (uint32_t y = 0; y < h; y++) {
      for (uint32_t x = 0; x < w; x++) {
        uint16_t v = packed10(sp + y * srcStride, x);
        memcpy(grey.data() + y * greyStride + 2 * x, &v, 2);
      }
    }
    REQUIRE(convertGrey10ToGrey10Packed(packed.data(), packed.size(), packedStride, grey.data(), grey.size(), w, h, greyStride));
    for (uint32_t y = 0; y < h; y++) {
      for (uint32_t x = 0; x < w; x++) {
        REQUIRE_MSG(
            packed10(packed.data() + y * packedStride, x) == packed10(sp + y * srcStride, x), what.str() << ": packed pixel " << x << "," << y);
      }
      for (size_t g = (w + 3) / 4 * 5; g < packedStride; g++) {
        REQUIRE(packed[y * packedStride + g] == fill);
      }
    }
    // buffers too small are refused
    size_t less = 1 + s.below(packed.size());
    REQUIRE(!convertGrey10ToGrey10Packed(packed.data(), packed.size() - less, packedStride, grey.data(), grey.size(), w, h, greyStride));
    REQUIRE(!convertGrey10ToGrey10Packed(packed.data(), packed.size(), packedStride, grey.data(), grey.size() - 1 - s.below(grey.size()), w, h, greyStride));
    REQUIRE(!convertGrey10PackedToGrey16(dp, dstSize - dstOffset, dstStride, sp, srcSize - srcOffset - 1, w, h, srcStride));
    REQUIRE(!convertGrey10PackedToGrey8(dp, w * h - 1, w, sp, srcSize - srcOffset, w, h, srcStride));
  }
  c.label(k.name);
  if (w * h >= 10) {
    c.nontrivial(pbt::hashBytes(content.data(), content.size(), pbt::hashStr(what.str())));
  }
}

PBT_TEST(
    frames,
    400000,
    4000000,
    "frames of every format: raw images read from records with strides, swapped, blanked, converted from RGBA, compared (PSNR), invalid or undersized "
    "images, sampling; against models; non-trivial: 10 pixels or more; distinct by content") {
  Image i = genImage(s);
  std::ostringstream what;
  what << i.str() << " stride " << i.spec().getStride();
  size_t op = s.below(6);
  what << " op " << op;
  c.note(what.str());
  Bytes src = genPixels(s, i);
  auto spec = i.spec();
  switch (op) {
    case 0: {
      // reading from a record: the stride of single plane images is removed
      bool keep = s.flip();
      Bytes record = src;
      size_t after = s.draw(3);
      record.resize(record.size() + after, 7);
      BufferReader reader;
      PixelFrame f;
      if (s.flip()) {
        Image other = genImage(s);
        f.init(other.spec(), genPixels(s, other));
      }
      RecordReader* r = reader.init(record);
      bool ok = keep ? f.readRawFrame(r, spec, true) : f.readFrame(r, ContentBlock(spec, src.size()));
      REQUIRE(ok);
      REQUIRE_EQ((size_t)r->getUnreadBytes(), after);
      if (keep || spec.getPlaneCount() > 1) {
        REQUIRE_MSG(f.getBuffer() == src, what.str());
        REQUIRE_EQ(f.getStride(), spec.getStride());
      } else {
        uint32_t least = spec.getDefaultStride();
        REQUIRE_EQ_MSG(f.getStride(), least, what.str());
        REQUIRE_EQ(f.size(), (size_t)least * i.h);
        for (uint32_t y = 0; y < i.h; y++) {
          REQUIRE_MSG(memcmp(f.getLine(y), src.data() + (size_t)y * spec.getStride(), least) == 0, what.str() << " line " << y);
        }
      }
      REQUIRE(f.getPixelFormat() == i.pf && f.getWidth() == i.w && f.getHeight() == i.h);
      // missing pixels
      Bytes less(src.begin(), src.end() - 1 - (std::ptrdiff_t)s.below(src.size()));
      REQUIRE(!f.readRawFrame(reader.init(less), spec));
      break;
    }
    case 1: {
      Image j = s.flip() ? i : genImage(s);
      Bytes other = genPixels(s, j);
      ImageContentBlockSpec a = i.spec(), b = j.spec();
      if (s.flip()) {
        b = ImageContentBlockSpec(ImageFormat::JPG, j.w, j.h);
        if (s.flip()) {
          b = ImageContentBlockSpec(ImageFormat::CUSTOM_CODEC, "codec", 10, j.pf, j.w, j.h, j.stride, j.stride2);
        }
      }
      PixelFrame f(a, Bytes(src)), g(b, Bytes(other));
      f.swap(g);
      REQUIRE_MSG(f.getSpec() == b && g.getSpec() == a, what.str() << " swapped with " << b.asString());
      REQUIRE(f.getBuffer() == other && g.getBuffer() == src);
      break;
    }
    case 2: {
      i.pf = PixelFormat::RGBA8;
      i.stride = s.flip() ? 0 : i.w * 4 + (uint32_t)s.draw(13);
      src = genPixels(s, i);
      PixelFrame f(i.spec(), Bytes(src)), g(f);
      shared_ptr<PixelFrame> out;
      if (s.flip()) {
        Image other = genImage(s);
        out = std::make_shared<PixelFrame>(other.spec(), genPixels(s, other));
      }
      REQUIRE(f.convertRgbaToRgb(out));
      REQUIRE(f.getBuffer() == src);
      REQUIRE(g.inplaceRgbaToRgb());
      Bytes expected;
      for (uint32_t y = 0; y < i.h; y++) {
        for (uint32_t x = 0; x < i.w; x++) {
          const uint8_t* p = src.data() + (size_t)y * f.getStride() + 4 * x;
          expected.insert(expected.end(), {p[0], p[1], p[2]});
        }
      }
      requirePixels(*out, PixelFormat::RGB8, i, expected, what.str() + " converted");
      requirePixels(g, PixelFormat::RGB8, i, expected, what.str() + " converted in place");
      REQUIRE(!g.inplaceRgbaToRgb() && !g.convertRgbaToRgb(out));
      break;
    }
    case 3: {
      PixelFrame f(i.spec(), Bytes(src));
      f.blankFrame();
      REQUIRE_EQ(f.size(), src.size());
      for (uint32_t y = 0; y < i.h; y++) {
        for (uint32_t x = 0; x < i.w; x++) {
          if (i.pf == PixelFormat::RGBA8) {
            const uint8_t* p = f.getLine(y) + 4 * x;
            REQUIRE(p[0] == 0 && p[1] == 0 && p[2] == 0 && p[3] == 255);
          } else {
            REQUIRE(*(f.getLine(y) + x) == 0);
          }
        }
      }
      // similarity
      Image a = i, b = i;
      a.pf = b.pf = s.flip() ? PixelFormat::GREY8 : PixelFormat::RGB8;
      uint32_t row = a.w * (a.pf == PixelFormat::GREY8 ? 1 : 3);
      a.stride = s.flip() ? 0 : row + (uint32_t)s.draw(5);
      b.stride = s.flip() ? 0 : row + (uint32_t)s.draw(5);
      a.stride2 = b.stride2 = 0;
      Bytes pa = genPixels(s, a), pb = genPixels(s, b);
      double err = 0;
      for (uint32_t y = 0; y < i.h; y++) {
        for (uint32_t x = 0; x < row; x++) {
          size_t pos = (size_t)y * b.spec().getStride() + x;
          if (s.mode != pbt::Src::kReplay || true) {
            pb[pos] = (uint8_t)(pa[(size_t)y * a.spec().getStride() + x] + (pb[pos] & 3));
          }
          double d = (double)pa[(size_t)y * a.spec().getStride() + x] - pb[pos];
          err += d * d;
        }
      }
      PixelFrame fa(a.spec(), std::move(pa)), fb(b.spec(), std::move(pb));
      double psnr = -1;
      REQUIRE(fa.psnrCompare(fb, psnr));
      double expected = err == 0 ? 100 : 10 * std::log10(255. * 255. / (err / ((double)row * i.h)));
      REQUIRE_MSG(std::abs(psnr - expected) < 1e-9, what.str() << " psnr " << psnr << " expected " << expected);
      break;
    }
    case 4: {
      // images which can't be valid are never read out of bounds
      Image j = i;
      if (s.flip()) {
        j.w = s.flip() ? (uint32_t)s.u32() : 0x40000000u + (uint32_t)s.draw(2000);
      }
      if (s.flip()) {
        j.stride = (uint32_t)s.draw(20);
        j.stride2 = (uint32_t)s.draw(20);
      }
      ImageContentBlockSpec bad = j.spec();
      Bytes less = s.bytes(s.below(src.size() + 1));
      NormalizeOptions o((ImageSemantic)s.draw(4), 0, 5);
      bool grey16 = s.flip();
      BufferReader reader;
      PixelFrame f;
      if (bad.getRawImageSize() < (1 << 22) && bad.getDefaultStride() < (1 << 20) && f.readRawFrame(reader.init(src), bad)) {
        PixelFrame out;
        f.normalizeFrame(out, grey16, o);
        c.label("bad spec read");
      }
      PixelFrame g(bad, std::move(less));
      if (g.size() < g.getSpec().getRawImageSize() || g.getStride() < g.getDefaultStride()) {
        shared_ptr<PixelFrame> out;
        g.normalizeFrame(out, grey16, o);
        g.convertRgbaToRgb(out);
        g.inplaceRgbaToRgb();
        c.label("undersized");
      }
      throw pbt::Discard{};
    }
    default: {
      uint32_t stride = s.flip() ? 0 : i.w + (uint32_t)s.draw(20), most = (uint32_t)s.size(6000), count = 0;
      pc::R2Sampler2D sampler(i.w, i.h, most, stride);
      for (uint32_t idx : sampler) {
        uint32_t st = stride == 0 ? i.w : stride;
        REQUIRE_MSG(idx / st < i.h && idx % st < i.w, what.str() << " sample " << idx);
        count++;
      }
      const uint32_t expected = std::min(most, i.w * i.h);
      REQUIRE_EQ(count, expected);
      // pixels of any value, including infinite ones, only need to be converted safely
      Bytes any = s.bytes(spec.getRawImageSize());
      PixelFrame f(spec, std::move(any)), out;
      f.normalizeFrame(out, s.flip(), NormalizeOptions((ImageSemantic)s.draw(4), 0, 5));
      // segmentation colors: 0 is black, the last one white, the first ones all different
      auto& colors = PixelFrame::getGetObjectIdSegmentationColors();
      REQUIRE_EQ(colors.size(), (size_t)65536);
      auto rgb = [&](size_t k) { return colors[k].r << 16 | colors[k].g << 8 | colors[k].b; };
      REQUIRE(rgb(0) == 0 && rgb(65535) == 0xffffff);
      size_t x = s.below(35936), y = s.below(35936);
      REQUIRE_MSG(x == y || rgb(x) != rgb(y), "colors " << x << " and " << y);
      break;
    }
  }
  if (i.w * i.h >= 10) {
    c.nontrivial(pbt::hashBytes(src.data(), src.size(), pbt::hashStr(what.str())));
  }
}
