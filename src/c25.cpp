// C25: encoded images and audio blocks survive storage and reload.
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>

#include <png.h>
#include <zlib.h>

#include <cmath>
#include <csetjmp>
#include <map>
#include <optional>

#include <opus.h>
#include <opus_multistream.h>

#include <vrs/DiskFile.h>
#include <vrs/RecordFileReader.h>
#include <vrs/RecordFileWriter.h>
#include <vrs/RecordReaders.h>
#include <vrs/utils/AudioBlock.h>
#include <vrs/utils/BufferRecordReader.hpp>
#include <vrs/utils/ImageIndexer.h>
#include <vrs/utils/ImageLoader.h>
#include <vrs/utils/PixelFrame.h>

#include "content.h"
#include "damaged.h"

using namespace vrs;
using namespace vrs::utils;
using gen::Bytes;
using std::shared_ptr;
using std::string;
using std::vector;

namespace {

// -- memory oracle ---------------------------------------------------------------------------
std::atomic<size_t> sLimit{~(size_t)0};
void mallocHook(const volatile void*, size_t size) {
  if (size > sLimit.load(std::memory_order_relaxed)) {
    size_t limit = sLimit.exchange(~(size_t)0);
    fprintf(stderr, "ERROR: allocation of %zu bytes, out of proportion with the data (limit: %zu)\n", size, limit);
    __sanitizer_print_stack_trace();
    abort();
  }
}
void freeHook(const volatile void*) {}
struct MemoryWatch {
  explicit MemoryWatch(size_t limit) {
    static int installed = __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
    (void)installed;
    sLimit = limit;
  }
  ~MemoryWatch() {
    sLimit = ~(size_t)0;
  }
};

// -- images ----------------------------------------------------------------------------------
struct Size {
  uint32_t w, h;
};
Size genSize(pbt::Src& s) {
  uint32_t w = 1 + s.size(s.chance(1, 20) ? 700 : 40);
  uint32_t h = 1 + s.size(s.chance(1, 20) ? 150 : 20);
  return {w, h};
}
/// contents: noise, flat, gradients, sparse
Bytes genPixels(pbt::Src& s, size_t n) {
  Bytes b(n);
  switch (s.draw(3)) {
    case 0: {
      pbt::Prng r(s.u64());
      for (auto& x : b) {
        x = (uint8_t)r.next();
      }
      break;
    }
    case 1:
      memset(b.data(), (int)s.draw(255), n);
      break;
    case 2: {
      uint32_t step = 1 + s.size(9);
      for (size_t k = 0; k < n; k++) {
        b[k] = (uint8_t)(k / step);
      }
      break;
    }
    default:
      for (size_t k = s.size(12); k > 0 && n > 0; k--) {
        b[s.below(n)] = (uint8_t)s.draw(255);
      }
      break;
  }
  return b;
}
void genFrame(pbt::Src& s, PixelFrame& f, PixelFormat pf) {
  Size z = genSize(s);
  uint32_t stride = 0;
  if (s.chance(1, 3)) {
    stride = ImageContentBlockSpec(pf, z.w, z.h).getDefaultStride() + s.size(19);
  }
  f.init(pf, z.w, z.h, stride);
  f.getBuffer() = genPixels(s, f.size());
}
size_t lineBytes(const PixelFrame& f) {
  return ImageContentBlockSpec(f.getPixelFormat(), f.getWidth(), f.getHeight()).getDefaultStride();
}
/// same format, geometry and pixels, whatever the strides
void requireSamePixels(const PixelFrame& got, const PixelFrame& want, const string& what) {
  REQUIRE_MSG(got.getImageFormat() == ImageFormat::RAW, what << ": format of the image");
  REQUIRE_MSG(
      got.getPixelFormat() == want.getPixelFormat() && got.getWidth() == want.getWidth() && got.getHeight() == want.getHeight(),
      what << ": " << got.getSpec().asString() << " rather than " << want.getSpec().asString());
  REQUIRE_MSG(got.size() >= got.getSpec().getRawImageSize(), what << ": " << got.size() << " bytes");
  size_t n = lineBytes(want);
  for (uint32_t y = 0; y < want.getHeight(); y++) {
    const uint8_t* a = got.rdata() + (size_t)y * got.getStride();
    const uint8_t* b = want.rdata() + (size_t)y * want.getStride();
    for (size_t x = 0; x < n; x++) {
      REQUIRE_MSG(a[x] == b[x], what << ": byte " << x << " of line " << y << " is " << (int)a[x] << " rather than " << (int)b[x]);
    }
  }
}
/// a frame with some history
std::unique_ptr<PixelFrame> usedFrame(pbt::Src& s) {
  auto f = std::make_unique<PixelFrame>();
  switch (s.draw(3)) {
    case 0:
      break;
    case 1:
      f->init(s.pick({PixelFormat::GREY8, PixelFormat::RGB8, PixelFormat::DEPTH32F}), 1 + s.size(50), 1 + s.size(50), 0);
      memset(f->wdata(), 0xEE, f->size());
      break;
    case 2:
      f->init(PixelFormat::RGBA8, 1 + s.size(9), 1 + s.size(9), 64);
      break;
    default:
      f->init(ImageContentBlockSpec("jpg"), Bytes(7, 3));
      break;
  }
  return f;
}
const PixelFormat kPngFormats[] = {PixelFormat::GREY8, PixelFormat::GREY16, PixelFormat::RGB8, PixelFormat::RGBA8};

/// reads encoded data every possible way
bool decode(pbt::Src& s, PixelFrame& f, ImageFormat format, const Bytes& data, const string& dir, int way = -1) {
  auto exact = std::make_unique<uint8_t[]>(data.size() + 1);
  bool png = format == ImageFormat::PNG;
  switch (way >= 0 ? way : (int)s.draw(5)) {
    case 0: {
      Bytes copy(data);
      copy.shrink_to_fit();
      return png ? f.readPngFrame(copy) : f.readJpegFrame(copy);
    }
    case 1:
      return f.readCompressedFrame(data, format);
    case 2:
      f.init(ImageContentBlockSpec(format), Bytes(data));
      return f.decompressImage();
    case 3: { // from a content block, data following it
      Bytes more(data);
      size_t extra = s.size(5);
      more.insert(more.end(), extra, 0x55);
      BufferReader reader;
      RecordReader* r = reader.init(more);
      bool ok = f.readFrame(r, ContentBlock(ImageContentBlockSpec(format), data.size()));
      if (ok) {
        REQUIRE_EQ_MSG(r->getUnreadBytes(), (uint32_t)extra, "bytes left after the image");
      }
      return ok;
    }
    case 4: { // in two steps
      BufferReader reader;
      RecordReader* r = reader.init(data);
      if (!f.readDiskImageData(r, ContentBlock(ImageContentBlockSpec(format), data.size()))) {
        REQUIRE_MSG(data.empty(), "reading the data of an image");
        return false;
      }
      REQUIRE_EQ(r->getUnreadBytes(), 0u);
      REQUIRE_MSG(f.getImageFormat() == format, "format of the data");
      REQUIRE_EQ_MSG(f.getBuffer(), data, "data of the image");
      return f.decompressImage();
    }
    default: {
      if (png) {
        BufferReader reader;
        return f.readPngFrame(reader.init(data), (uint32_t)data.size());
      }
      string path = dir + "/x.jpg";
      damaged::spit(path, data, data.size());
      return f.readJpegFrameFromFile(path);
    }
  }
}

// -- PNG made by libpng itself ---------------------------------------------------------------
void pngWrite(png_structp p, png_bytep data, png_size_t n) {
  auto* out = (Bytes*)png_get_io_ptr(p);
  out->insert(out->end(), data, data + n);
}
void pngFlush(png_structp) {}
struct Kind {
  int color = 0, depth = 8;
  bool interlaced = false, trns = false, extra = false;
  uint32_t w = 1, h = 1;
  vector<png_color> palette;
  Bytes rows; // as stored
  size_t rowBytes = 0;
  uint32_t sample(uint32_t x, uint32_t y, int channel, int channels) const {
    const uint8_t* row = rows.data() + y * rowBytes;
    size_t bit = ((size_t)x * channels + channel) * depth;
    if (depth == 16) {
      return (row[bit / 8] << 8) | row[bit / 8 + 1];
    }
    return (row[bit / 8] >> (8 - depth - bit % 8)) & ((1 << depth) - 1);
  }
};
Bytes encode(const Kind& k) {
  Bytes out;
  png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
  png_infop i = png_create_info_struct(p);
  vector<png_bytep> rows(k.h);
  for (uint32_t y = 0; y < k.h; y++) {
    rows[y] = (png_bytep)k.rows.data() + y * k.rowBytes;
  }
  if (setjmp(png_jmpbuf(p))) {
    png_destroy_write_struct(&p, &i);
    return Bytes();
  }
  png_set_write_fn(p, &out, pngWrite, pngFlush);
  png_set_IHDR(p, i, k.w, k.h, k.depth, k.color, k.interlaced ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
  if (k.color == PNG_COLOR_TYPE_PALETTE) {
    png_set_PLTE(p, i, k.palette.data(), (int)k.palette.size());
  }
  png_byte alpha[2] = {0, 128};
  png_color_16 key{};
  if (k.trns) {
    png_set_tRNS(p, i, alpha, k.color == PNG_COLOR_TYPE_PALETTE ? (int)std::min<size_t>(2, k.palette.size()) : 1, &key);
  }
  if (k.extra) {
    png_set_gAMA(p, i, 0.45);
    png_set_pHYs(p, i, 100, 100, PNG_RESOLUTION_METER);
  }
  png_write_info(p, i);
  png_write_image(p, rows.data());
  png_write_end(p, i);
  png_destroy_write_struct(&p, &i);
  return out;
}

} // namespace

PBT_TEST(pngRoundTrip, 12000, 200000, "images of at least 2 pixels with any stride, different contents") {
  PixelFormat pf = s.pick(kPngFormats);
  PixelFrame f;
  genFrame(s, f, pf);
  Bytes before = f.getBuffer();
  c.note(f.getSpec().asString());
  Bytes png = s.bytes(s.size(20));
  bool toFile = s.chance(1, 4);
  string path = c.dir() + "/f.png";
  if (toFile) {
    if (s.flip()) {
      damaged::spit(path, Bytes(50000, 7), 50000); // something's there already
    }
    REQUIRE_EQ_MSG(f.writeAsPng(path), 0, "writing a png file");
    png = damaged::slurp(path);
  } else {
    REQUIRE_EQ_MSG(f.writeAsPng("", &png), 0, "writing a png");
  }
  REQUIRE_MSG(f.getBuffer() == before, "writing the image changed it");
  auto g = usedFrame(s);
  REQUIRE_MSG(decode(s, *g, ImageFormat::PNG, png, c.dir()), "can't read the image back");
  requireSamePixels(*g, f, "image read back");
  auto h = usedFrame(s);
  REQUIRE_MSG(h->readPngFrame(png, false), "can't read the geometry");
  REQUIRE(h->getPixelFormat() == pf && h->getWidth() == f.getWidth() && h->getHeight() == f.getHeight());
  // again
  Bytes again;
  REQUIRE_EQ(g->writeAsPng("", &again), 0);
  REQUIRE_MSG(again == png, "the same pixels encoded differently");
  if (f.getWidth() * f.getHeight() > 1) {
    c.nontrivial(pbt::hashBytes(png.data(), png.size()));
  }
}

PBT_TEST(pngUnsupported, 600, 6000, "formats which can't be written, files which can't be created") {
  PixelFormat pf = (PixelFormat)(1 + s.below((size_t)PixelFormat::COUNT - 1));
  PixelFrame f;
  genFrame(s, f, pf);
  bool supported = false;
  for (PixelFormat k : kPngFormats) {
    supported = supported || k == pf;
  }
  c.note(f.getSpec().asString());
  string path = c.dir() + "/f.png";
  if (!supported) {
    Bytes out{1, 2, 3};
    REQUIRE_MSG(f.writeAsPng(path, s.flip() ? &out : nullptr) != 0, "unsupported format accepted");
    REQUIRE(out == Bytes({1, 2, 3}));
    FILE* there = fopen(path.c_str(), "rb");
    REQUIRE_MSG(there == nullptr, "a file was created");
    c.nontrivial((uint64_t)pf);
  } else {
    REQUIRE_MSG(f.writeAsPng(c.dir() + "/nowhere/f.png") != 0, "writing in a missing folder succeeded");
    REQUIRE_MSG(f.writeAsPng(c.dir()) != 0, "writing over a folder succeeded");
    c.nontrivial(1000 + (uint64_t)pf);
  }
}

PBT_TEST(pngWriteFaults, 300, 3000, "png files on a full device") {
  PixelFrame f;
  f.init(s.pick(kPngFormats), 1 + s.size(400), 1 + s.size(200), 0);
  pbt::Prng r(s.u64());
  for (auto& x : f.getBuffer()) {
    x = (uint8_t)r.next();
  }
  REQUIRE_MSG(f.writeAsPng("/dev/full") != 0, "writing on a full device succeeded: " << f.getSpec().asString());
  c.nontrivial(pbt::hashStr(f.getSpec().asString()));
}

PBT_TEST(pngKinds, 12000, 200000, "kinds of png (colors, depth, interlacing, transparency) with at least 2 pixels") {
  Kind k;
  k.color = s.pick({PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_PALETTE, PNG_COLOR_TYPE_RGB_ALPHA, PNG_COLOR_TYPE_GRAY_ALPHA});
  k.depth = k.color == PNG_COLOR_TYPE_GRAY ? s.pick({8, 1, 2, 4, 16}) : k.color == PNG_COLOR_TYPE_PALETTE ? s.pick({8, 1, 2, 4}) : s.pick({8, 16});
  k.interlaced = s.chance(1, 3);
  k.trns = !(k.color & PNG_COLOR_MASK_ALPHA) && s.chance(1, 4);
  k.extra = s.chance(1, 4);
  Size z = genSize(s);
  k.w = z.w;
  k.h = z.h;
  int channels = k.color == PNG_COLOR_TYPE_RGB ? 3 : k.color == PNG_COLOR_TYPE_RGB_ALPHA ? 4 : k.color == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : 1;
  k.rowBytes = ((size_t)k.w * channels * k.depth + 7) / 8;
  k.rows = genPixels(s, k.rowBytes * k.h);
  if (k.color == PNG_COLOR_TYPE_PALETTE) {
    k.palette.resize((size_t)1 << k.depth); // every index is valid
    for (auto& p : k.palette) {
      p = {(png_byte)s.draw(255), (png_byte)s.draw(255), (png_byte)s.draw(255)};
    }
  }
  std::ostringstream note;
  note << k.w << "x" << k.h << " color type " << k.color << " depth " << k.depth << (k.interlaced ? " interlaced" : "") << (k.trns ? " transparency" : "");
  c.note(note.str());
  Bytes png = encode(k);
  REQUIRE(!png.empty());
  auto f = usedFrame(s);
  bool ok = decode(s, *f, ImageFormat::PNG, png, c.dir());
  if (!ok) { // gray with alpha isn't supported
    REQUIRE_MSG(k.color == PNG_COLOR_TYPE_GRAY_ALPHA, "refused");
    return;
  }
  int outChannels = k.color == PNG_COLOR_TYPE_GRAY ? 1 : k.color == PNG_COLOR_TYPE_RGB_ALPHA ? 4 : 3;
  PixelFormat pf = outChannels == 1 ? (k.depth == 16 ? PixelFormat::GREY16 : PixelFormat::GREY8) : outChannels == 4 ? PixelFormat::RGBA8 : PixelFormat::RGB8;
  REQUIRE_MSG(f->getPixelFormat() == pf, "read as " << f->getSpec().asString());
  REQUIRE(f->getWidth() == k.w && f->getHeight() == k.h && f->size() == f->getSpec().getRawImageSize());
  for (uint32_t y = 0; y < k.h; y++) {
    const uint8_t* line = f->rdata() + (size_t)y * f->getStride();
    for (uint32_t x = 0; x < k.w; x++) {
      for (int ch = 0; ch < outChannels; ch++) {
        uint32_t want = 0, got = 0, slack = 0;
        if (k.color == PNG_COLOR_TYPE_PALETTE) {
          const png_color& p = k.palette[k.sample(x, y, 0, 1)];
          want = ch == 0 ? p.red : ch == 1 ? p.green : p.blue;
        } else {
          want = k.sample(x, y, ch, channels);
        }
        if (pf == PixelFormat::GREY16) {
          got = (uint32_t)(line[2 * x] | (line[2 * x + 1] << 8));
        } else {
          got = line[x * outChannels + ch];
          if (k.depth == 16) {
            want >>= 8;
            slack = 1;
          } else if (k.depth < 8 && k.color == PNG_COLOR_TYPE_GRAY) {
            want = want * 255 / ((1u << k.depth) - 1);
          }
        }
        REQUIRE_MSG(got >= want && got <= want + slack, "pixel " << x << ", " << y << " channel " << ch << " is " << got << " rather than " << want);
      }
    }
  }
  c.label(std::to_string(k.color) + "/" + std::to_string(k.depth));
  if (k.w * k.h > 1) {
    c.nontrivial(pbt::hashBytes(png.data(), png.size()));
  }
}

namespace {

/// a smooth image: encoding can't change it much
void genSmooth(pbt::Src& s, PixelFrame& f) {
  PixelFormat pf = s.pick({PixelFormat::GREY8, PixelFormat::RGB8});
  Size z = genSize(s);
  uint32_t stride = s.chance(1, 3) ? ImageContentBlockSpec(pf, z.w, z.h).getDefaultStride() + s.size(19) : 0;
  f.init(pf, z.w, z.h, stride);
  pbt::Prng r(s.u64());
  for (auto& x : f.getBuffer()) {
    x = (uint8_t)r.next(); // what's between the lines is noise
  }
  int channels = pf == PixelFormat::RGB8 ? 3 : 1;
  double base[3], dx[3], dy[3];
  for (int ch = 0; ch < 3; ch++) {
    base[ch] = s.draw(255);
    dx[ch] = ((double)s.draw(200) - 100) / std::max<uint32_t>(z.w, 20);
    dy[ch] = ((double)s.draw(200) - 100) / std::max<uint32_t>(z.h, 20);
  }
  for (uint32_t y = 0; y < z.h; y++) {
    for (uint32_t x = 0; x < z.w; x++) {
      for (int ch = 0; ch < channels; ch++) {
        double v = base[ch] + dx[ch] * x + dy[ch] * y;
        f.wdata()[(size_t)y * f.getStride() + x * channels + ch] = (uint8_t)std::min(235., std::max(20., v));
      }
    }
  }
}
double meanDifference(const PixelFrame& a, const PixelFrame& b) {
  double total = 0;
  size_t n = lineBytes(a);
  for (uint32_t y = 0; y < a.getHeight(); y++) {
    for (size_t x = 0; x < n; x++) {
      total += std::abs((int)a.rdata()[(size_t)y * a.getStride() + x] - (int)b.rdata()[(size_t)y * b.getStride() + x]);
    }
  }
  return total / ((double)n * a.getHeight());
}

} // namespace

PBT_TEST(jpeg, 9000, 150000, "smooth images of at least 2 pixels, any stride and quality") {
  PixelFrame f;
  genSmooth(s, f);
  uint32_t quality = s.chance(1, 2) ? 90 + (uint32_t)s.draw(10) : 1 + (uint32_t)s.draw(99);
  std::ostringstream note;
  note << f.getSpec().asString() << " quality " << quality;
  c.note(note.str());
  Bytes jpg = s.bytes(s.size(20));
  Bytes before = f.getBuffer();
  REQUIRE_MSG(s.flip() ? f.jpgCompress(jpg, quality) : PixelFrame::jpgCompress(f.getSpec(), f.getBuffer(), jpg, quality), "encoding");
  REQUIRE(f.getBuffer() == before);
  auto g = usedFrame(s);
  REQUIRE_MSG(decode(s, *g, ImageFormat::JPG, jpg, c.dir()), "can't read the image back");
  REQUIRE(g->getImageFormat() == ImageFormat::RAW);
  REQUIRE_MSG(
      g->getPixelFormat() == f.getPixelFormat() && g->getWidth() == f.getWidth() && g->getHeight() == f.getHeight(),
      "read as " << g->getSpec().asString());
  REQUIRE_EQ(g->size(), g->getSpec().getRawImageSize());
  double diff = meanDifference(f, *g);
  double limit = quality >= 90 ? 4 : quality >= 50 ? 8 : quality >= 20 ? 16 : 50;
  REQUIRE_MSG(diff <= limit, "the pixels differ by " << diff << " on average");
  // the geometry alone
  auto h = usedFrame(s);
  REQUIRE(h->readJpegFrame(jpg, false));
  REQUIRE(h->getPixelFormat() == f.getPixelFormat() && h->getWidth() == f.getWidth() && h->getHeight() == f.getHeight());
  // every way to read gives the same image
  auto i = usedFrame(s);
  REQUIRE(decode(s, *i, ImageFormat::JPG, jpg, c.dir()));
  requireSamePixels(*i, *g, "image read again");
  // the stride doesn't matter
  PixelFrame packed(f.getPixelFormat(), f.getWidth(), f.getHeight());
  for (uint32_t y = 0; y < f.getHeight(); y++) {
    memcpy(packed.getLine(y), f.getLine(y), lineBytes(f));
  }
  Bytes again;
  REQUIRE(packed.jpgCompress(again, quality));
  REQUIRE_MSG(again == jpg, "the stride of the image changed what's encoded");
  if (f.getWidth() * f.getHeight() > 1) {
    c.nontrivial(pbt::hashBytes(jpg.data(), jpg.size()));
  }
}

PBT_TEST(jpegUnsupported, 600, 6000, "formats which can't be encoded") {
  PixelFormat pf = (PixelFormat)(1 + s.below((size_t)PixelFormat::COUNT - 1));
  PixelFrame f;
  genFrame(s, f, pf);
  Bytes out{1};
  bool supported = pf == PixelFormat::RGB8 || pf == PixelFormat::GREY8;
  c.note(f.getSpec().asString());
  REQUIRE_EQ(f.jpgCompress(out, 80), supported);
  if (!supported) {
    REQUIRE(out == Bytes{1});
  }
  c.nontrivial((uint64_t)pf);
}

PBT_TEST(damagedImages, 30000, 500000, "damaged encoded images longer than a signature") {
  bool png = s.flip();
  PixelFrame f;
  Bytes data;
  bool foreign = false;
  if (png) {
    if (s.chance(1, 4)) {
      foreign = true;
      Kind k;
      k.color = s.pick({PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_PALETTE});
      k.depth = k.color == PNG_COLOR_TYPE_RGB ? s.pick({8, 16}) : s.pick({1, 2, 4, 8});
      k.interlaced = s.flip();
      k.w = 1 + s.size(20);
      k.h = 1 + s.size(20);
      k.rowBytes = ((size_t)k.w * (k.color == PNG_COLOR_TYPE_RGB ? 3 : 1) * k.depth + 7) / 8;
      k.rows = genPixels(s, k.rowBytes * k.h);
      k.palette.resize(1 + s.size((1 << k.depth) - 1)); // some indexes might not be valid
      data = encode(k);
      if (data.empty()) {
        throw pbt::Discard{};
      }
    } else {
      genFrame(s, f, s.pick(kPngFormats));
      REQUIRE_EQ(f.writeAsPng("", &data), 0);
    }
  } else {
    genSmooth(s, f);
    REQUIRE(f.jpgCompress(data, 1 + (uint32_t)s.draw(99)));
  }
  std::ostringstream note;
  note << (png ? "png" : "jpg") << " of " << data.size() << " bytes";
  bool mustFail = false;
  switch (s.draw(5)) {
    case 0: { // truncated
      size_t n = s.chance(1, 3) ? s.draw(std::min<size_t>(40, data.size() - 1)) : s.below(data.size());
      data.resize(n);
      mustFail = png && !foreign;
      note << ", truncated to " << n;
      break;
    }
    case 1: { // one byte changed
      size_t at = s.chance(1, 2) ? s.below(std::min<size_t>(data.size(), 40)) : s.below(data.size());
      uint8_t x = (uint8_t)(1 + s.draw(254));
      data[at] ^= x;
      mustFail = png && !foreign;
      note << ", byte " << at << " changed to " << (int)data[at];
      break;
    }
    case 2: { // several
      for (size_t n = 1 + s.size(8); n > 0; n--) {
        data[s.below(data.size())] = (uint8_t)s.draw(255);
      }
      note << ", some bytes changed";
      break;
    }
    case 3: { // a part missing, or moved
      size_t at = s.below(data.size()), n = 1 + s.below(data.size() - at);
      data.erase(data.begin() + at, data.begin() + at + n);
      mustFail = png && !foreign && n > 0;
      note << ", bytes " << at << "-" << at + n << " missing";
      break;
    }
    case 4: { // valid header, absurd dimensions
      if (png) {
        for (size_t at = 16; at < 24; at += 4) {
          uint32_t v = s.chance(1, 3) ? 0 : s.chance(1, 2) ? (uint32_t)s.u32() : 1000000 - (uint32_t)s.size(100);
          if (v == 0 && s.chance(3, 4)) {
            continue;
          }
          for (int b = 0; b < 4; b++) {
            data[at + b] = (uint8_t)(v >> (24 - 8 * b));
          }
        }
        uint32_t crc = (uint32_t)crc32(0, data.data() + 12, 17);
        for (int b = 0; b < 4; b++) {
          data[29 + b] = (uint8_t)(crc >> (24 - 8 * b));
        }
        note << ", dimensions changed";
      }
      break;
    }
    default: // anything
      data = s.bytes(s.size(60));
      note << ", replaced by " << pbt::show(data);
      break;
  }
  c.note(note.str());
  if (!png && data.size() > 4) { // the time to decode truly large images isn't of interest
    for (size_t k = 0; k + 8 < data.size(); k++) {
      if (data[k] == 0xFF && (data[k + 1] & 0xF0) == 0xC0 && ((data[k + 5] << 8 | data[k + 6]) > 2000 || (data[k + 7] << 8 | data[k + 8]) > 2000)) {
        throw pbt::Discard{};
      }
    }
  }
  auto g = usedFrame(s);
  bool ok = false;
  {
    MemoryWatch watch((64u << 20) + 2000 * 8 * data.size());
    ok = decode(s, *g, png ? ImageFormat::PNG : ImageFormat::JPG, data, c.dir());
  }
  REQUIRE_MSG(!ok || !mustFail, "damaged data accepted");
  if (ok) {
    REQUIRE(g->getImageFormat() == ImageFormat::RAW && g->size() == g->getSpec().getRawImageSize());
    c.label("accepted");
  } else {
    c.label("refused");
  }
  // the frame can be used again
  PixelFrame other;
  genFrame(s, other, s.pick(kPngFormats));
  Bytes fine;
  REQUIRE_EQ(other.writeAsPng("", &fine), 0);
  REQUIRE(g->readPngFrame(fine));
  requireSamePixels(*g, other, "image read after a damaged one");
  if (data.size() > 8) {
    c.nontrivial(pbt::hashBytes(data.data(), data.size()));
  }
}

// -- images in recordings --------------------------------------------------------------------
namespace {

struct Image {
  ImageContentBlockSpec spec;
  Bytes data; // as recorded
  Bytes raw; // as read, without the padding of the lines
  shared_ptr<PixelFrame> pixels; // when decoded
};

Image genImage(pbt::Src& s) {
  Image i;
  switch (s.weighted({4, 3, 3, 1, 1})) {
    case 0: {
      PixelFormat pf = (PixelFormat)(1 + s.below((size_t)PixelFormat::COUNT - 1));
      Size z = genSize(s);
      ImageContentBlockSpec def(pf, z.w, z.h);
      uint32_t stride = 0, stride2 = 0;
      if (s.chance(1, 3)) {
        stride = def.getDefaultStride() + s.size(9);
        stride2 = def.getPlaneCount() > 1 && s.flip() ? def.getDefaultStride2() + s.size(5) : 0;
      }
      i.spec = ImageContentBlockSpec(pf, z.w, z.h, stride, stride2);
      size_t n = i.spec.getRawImageSize();
      if (n == ContentBlock::kSizeUnknown) {
        throw pbt::Discard{};
      }
      i.data = genPixels(s, n);
      if (i.spec.getPlaneCount() == 1 && i.spec.getStride() != def.getStride()) {
        size_t line = def.getStride();
        for (uint32_t y = 0; y < i.spec.getHeight(); y++) {
          const uint8_t* p = i.data.data() + (size_t)y * i.spec.getStride();
          i.raw.insert(i.raw.end(), p, p + line);
        }
        i.pixels = std::make_shared<PixelFrame>(pf, z.w, z.h);
      } else {
        i.raw = i.data;
        i.pixels = std::make_shared<PixelFrame>(i.spec);
      }
      i.pixels->getBuffer() = i.raw;
      break;
    }
    case 1: {
      i.spec = ImageContentBlockSpec(ImageFormat::PNG);
      i.pixels = std::make_shared<PixelFrame>();
      PixelFormat pf = s.pick(kPngFormats);
      Size z = genSize(s);
      i.pixels->init(pf, z.w, z.h, 0);
      i.pixels->getBuffer() = genPixels(s, i.pixels->size());
      REQUIRE_EQ(i.pixels->writeAsPng("", &i.data), 0);
      i.raw = i.data;
      break;
    }
    case 2: {
      i.spec = ImageContentBlockSpec(ImageFormat::JPG);
      PixelFrame f;
      genSmooth(s, f);
      REQUIRE(f.jpgCompress(i.data, 50 + (uint32_t)s.draw(50)));
      i.pixels = std::make_shared<PixelFrame>();
      REQUIRE(i.pixels->readJpegFrame(i.data));
      i.raw = i.data;
      break;
    }
    case 3: // not an image
      i.spec = ImageContentBlockSpec(s.flip() ? ImageFormat::JPG : ImageFormat::PNG);
      i.data = s.bytes(1 + s.size(400));
      i.raw = i.data;
      break;
    default: { // nothing decodes these
      i.spec = ImageContentBlockSpec(ImageFormat::JXL);
      i.data = s.bytes(1 + s.size(400));
      i.raw = i.data;
      break;
    }
  }
  return i;
}

struct Placed {
  uint32_t record = 0;
  Image image;
};
struct ImageStream {
  std::unique_ptr<content::FormatStream> stream;
  StreamId id;
  std::map<string, uint32_t> versions;
  vector<Placed> images;
  uint32_t records = 0;
};

struct ImageFile {
  vector<ImageStream> streams;
  string path;
  size_t chunks = 1;
};

/// a record with images, and other things
void addRecord(pbt::Src& s, ImageStream& st, double ts, Record::Type type, Bytes& payload) {
  payload.clear();
  string format;
  auto add = [&](const string& block, const Bytes& data) {
    format += (format.empty() ? "" : "+") + block;
    payload.insert(payload.end(), data.begin(), data.end());
  };
  bool data = type == Record::Type::DATA;
  size_t n = s.weighted({6, 2, 1, 1});
  n = n == 3 ? 0 : n + 1;
  for (size_t k = 0; k < n || (n == 0 && k == 0); k++) {
    if (s.chance(1, 3) || n == 0) {
      Bytes other = genPixels(s, s.size(s.chance(1, 4) ? 3000 : 100));
      add("custom/size=" + std::to_string(other.size()), other);
      if (n == 0) {
        break;
      }
    }
    Image i = genImage(s);
    bool last = k + 1 == n;
    bool trailer = last && s.chance(1, 4);
    bool sized = i.spec.getRawImageSize() == ContentBlock::kSizeUnknown && (!last || trailer || s.chance(1, 3));
    string text = ContentBlock(i.spec, sized ? i.data.size() : ContentBlock::kSizeUnknown).asString();
    add(text, i.data);
    if (trailer) {
      Bytes other = genPixels(s, s.size(50));
      add("custom/size=" + std::to_string(other.size()), other);
    }
    if (data) {
      st.images.push_back({st.records, std::move(i)});
    }
  }
  uint32_t version = 1;
  string key = (data ? "d" : "c") + format;
  auto it = st.versions.find(key);
  if (it == st.versions.end()) {
    version = (uint32_t)st.versions.size() + 1;
    st.versions[key] = version;
    REQUIRE(st.stream->addRecordFormat(type, version, RecordFormat(format)));
  } else {
    version = it->second;
  }
  st.stream->make(ts, type, version, payload, (gen::Feed)s.draw(3), s.size(1000), s.size(1000));
  if (data) {
    st.records++;
  }
}

void record(pbt::Src& s, pbt::Ctx& c, ImageFile& f) {
  RecordFileWriter writer;
  f.path = c.dir() + "/i.vrs";
  size_t n = 1 + s.size(2);
  for (size_t k = 0; k < n; k++) {
    ImageStream st;
    st.stream = std::make_unique<content::FormatStream>(
        s.pick({RecordableTypeId::UnitTest1, RecordableTypeId::UnitTest2, RecordableTypeId::ForwardCameraRecordableClass}), "test/images", nullptr);
    st.stream->setCompression(gen::genPreset(s));
    st.stream->withConfig = false;
    st.stream->withState = false;
    st.id = st.stream->getStreamId();
    writer.addRecordable(st.stream.get());
    f.streams.push_back(std::move(st));
  }
  bool chunked = s.chance(1, 8);
  gen::GenStream filler(RecordableTypeId::UnitTestRecordableClass, "test/filler", nullptr);
  filler.withConfig = filler.withState = false;
  Bytes big;
  if (chunked) {
    filler.setCompression(CompressionPreset::None);
    writer.addRecordable(&filler);
    big.resize(400000);
    writer.setMaxChunkSizeMB(1);
  }
  if (s.chance(1, 4)) {
    writer.setCompressionThreadPoolSize(1 + s.draw(3));
  }
  Bytes payload;
  double t = 1;
  vector<std::function<void()>> ops;
  auto fill = [&](size_t k) {
    ImageStream& st = f.streams[k];
    addRecord(s, st, t, Record::Type::DATA, payload);
    t += 1;
  };
  for (auto& st : f.streams) {
    if (s.chance(1, 3)) {
      addRecord(s, st, 0, Record::Type::CONFIGURATION, payload);
    }
  }
  for (size_t k = s.size(10) + 1; k > 0; k--) {
    fill(s.below(f.streams.size()));
    if (chunked && s.chance(1, 2)) {
      filler.make(t, Record::Type::DATA, 1, big, gen::Feed::OneChunk);
    }
  }
  if (s.flip()) {
    REQUIRE_EQ(writer.writeToFile(f.path), 0);
  } else {
    REQUIRE_EQ(writer.createFileAsync(f.path), 0);
    if (s.flip()) {
      writer.writeRecordsAsync(t / 2);
    }
    REQUIRE_EQ(writer.waitForFileClosed(), 0);
  }
}

void requireRef(const DirectImageReferencePlus& r, const Placed& p, const string& what) {
  REQUIRE_EQ_MSG(r.dataRecordIndex, p.record, what << ": record");
  ImageContentBlockSpec spec(r.imageFormat);
  REQUIRE_MSG(spec == p.image.spec, what << ": described as " << r.imageFormat << " rather than " << p.image.spec.asString());
}

bool load(pbt::Src& s, FileHandler& file, PixelFrame& out, const DirectImageReference& ref, ImageLoadType type) {
  if (s.chance(1, 3)) { // data read by somebody else
    Bytes data(ref.dataSize);
    REQUIRE_EQ(file.setPos(ref.dataOffset), 0);
    REQUIRE_EQ(file.read(data), 0);
    return loadImage(data, out, ref, type);
  }
  return loadImage(file, out, ref, type);
}

void requireLoads(pbt::Src& s, FileHandler& file, const DirectImageReference& ref, const Image& image, PixelFrame& out, const string& what) {
  ImageLoadType type = (ImageLoadType)s.draw(3);
  bool ok = load(s, file, out, ref, type);
  std::ostringstream where;
  where << what << " at " << ref.dataOffset << "+" << ref.dataSize << " (" << (int)ref.compressionType << " " << ref.compressedOffset << "+" << ref.compressedLength << ")";
  string how = where.str() + (type == ImageLoadType::Raw ? " raw" : type == ImageLoadType::Decode ? " decoded" : " normalized");
  if (type == ImageLoadType::Raw) {
    REQUIRE_MSG(ok, how << ": not loaded");
    REQUIRE_MSG(out.getBuffer() == image.raw, how << ": different data: " << pbt::show(out.getBuffer()) << " rather than " << pbt::show(image.raw) << " " << out.getSpec().asString());
    if (image.spec.getImageFormat() != ImageFormat::RAW) {
      REQUIRE_MSG(out.getSpec() == image.spec, how << ": described as " << out.getSpec().asString());
    } else {
      REQUIRE_MSG(out.getImageFormat() == ImageFormat::RAW && out.hasSamePixels(image.pixels->getSpec()), how << ": described as " << out.getSpec().asString() << " rather than " << image.pixels->getSpec().asString());
    }
    return;
  }
  if (!image.pixels) {
    REQUIRE_MSG(!ok, how << ": decoded garbage");
    return;
  }
  REQUIRE_MSG(ok, how << ": not loaded");
  shared_ptr<PixelFrame> want = image.pixels;
  if (type != ImageLoadType::Decode) {
    shared_ptr<PixelFrame> normal;
    PixelFrame::normalizeFrame(want, normal, type == ImageLoadType::Normalize16);
    want = normal;
  }
  REQUIRE_MSG(out.getImageFormat() == ImageFormat::RAW && out.hasSamePixels(want->getSpec()), how << ": described as " << out.getSpec().asString() << " rather than " << want->getSpec().asString());
  REQUIRE_MSG(out.getBuffer() == want->getBuffer(), how << ": different pixels");
}

} // namespace

PBT_TEST(imageIndex, 3500, 60000, "recordings with at least 2 images, one of them in a compressed record or after other data") {
  ImageFile f;
  record(s, c, f);
  std::ostringstream note;
  size_t total = 0;
  for (auto& st : f.streams) {
    note << st.id.getNumericName() << ":" << st.images.size() << " ";
    for (auto& i : st.images) {
      note << i.image.spec.asString() << " ";
    }
    total += st.images.size();
  }
  c.note(note.str());
  vector<DirectImageReferencePlus> refs;
  std::set<StreamId> selected;
  if (s.chance(2, 3)) {
    REQUIRE_EQ(indexImages(f.path, refs), 0);
    for (auto& st : f.streams) {
      selected.insert(st.id);
    }
  } else { // some streams
    FilteredFileReader reader;
    REQUIRE_EQ(reader.setSource(f.path), 0);
    REQUIRE_EQ(reader.openFile(), 0);
    for (auto& st : f.streams) {
      if (s.chance(1, 3)) {
        reader.filter.streams.erase(st.id);
      } else {
        selected.insert(st.id);
      }
    }
    REQUIRE_EQ(indexImages(reader, refs), 0);
  }
  // the references of each stream, in order
  std::map<StreamId, vector<const DirectImageReferencePlus*>> byStream;
  for (auto& r : refs) {
    byStream[r.streamId].push_back(&r);
  }
  size_t expected = 0;
  for (auto& st : f.streams) {
    if (selected.count(st.id) == 0) {
      REQUIRE_MSG(byStream.count(st.id) == 0, "images of a stream which isn't selected");
      continue;
    }
    auto& list = byStream[st.id];
    REQUIRE_EQ_MSG(list.size(), st.images.size(), "images found in " << st.id.getNumericName());
    for (size_t k = 0; k < list.size(); k++) {
      requireRef(*list[k], st.images[k], "image #" + std::to_string(k) + " of " + st.id.getNumericName());
    }
    expected += list.size();
  }
  REQUIRE_EQ(refs.size(), expected);
  // later, with nothing but the references
  FileSpec spec;
  REQUIRE_EQ(RecordFileReader::vrsFilePathToFileSpec(f.path, spec), 0);
  DiskFile file;
  REQUIRE_EQ(file.openSpec(spec), 0);
  auto out = usedFrame(s);
  bool compressed = false, after = false;
  for (auto& st : f.streams) {
    if (selected.count(st.id) == 0) {
      continue;
    }
    auto& list = byStream[st.id];
    for (size_t n = list.size() * 2; n > 0; n--) {
      size_t k = n <= list.size() ? n - 1 : s.below(list.size());
      DirectImageReference ref = *list[k];
      compressed = compressed || ref.compressionType != CompressionType::None;
      after = after || ref.compressedOffset > 0;
      requireLoads(s, file, ref, st.images[k].image, *out, "image #" + std::to_string(k) + " of " + st.id.getNumericName());
    }
  }
  if (compressed) {
    c.label("compressed");
  }
  if (spec.chunks.size() > 1) {
    c.label("chunks");
  }
  if (expected > 1 && (compressed || after)) {
    c.nontrivial(pbt::hashStr(note.str()));
  }
}

PBT_TEST(damagedReferences, 3000, 60000, "references with changed offsets, sizes, compression, formats") {
  ImageFile f;
  record(s, c, f);
  vector<DirectImageReferencePlus> refs;
  REQUIRE_EQ(indexImages(f.path, refs), 0);
  if (refs.empty()) {
    throw pbt::Discard{};
  }
  FileSpec spec;
  REQUIRE_EQ(RecordFileReader::vrsFilePathToFileSpec(f.path, spec), 0);
  DiskFile file;
  REQUIRE_EQ(file.openSpec(spec), 0);
  int64_t size = file.getTotalSize();
  auto out = usedFrame(s);
  for (size_t n = 4; n > 0; n--) {
    DirectImageReference ref = refs[s.below(refs.size())];
    for (size_t k = 1 + s.draw(1); k > 0; k--) {
      auto number = [&](uint32_t v) {
        return s.flip() ? (uint32_t)(v + s.draw(20) - 10) : s.flip() ? (uint32_t)s.interesting(32) : (uint32_t)s.size(2000);
      };
      switch (s.draw(5)) {
        case 0:
          ref.dataOffset = s.flip() ? (int64_t)s.u64() : s.flip() ? size - (int64_t)s.draw(20) + 10 : ref.dataOffset + (int64_t)s.draw(40) - 20;
          break;
        case 1:
          ref.dataSize = number(ref.dataSize);
          break;
        case 2:
          ref.compressionType = s.pick({CompressionType::None, CompressionType::Lz4, CompressionType::Zstd, (CompressionType)s.draw(255)});
          break;
        case 3:
          ref.compressedOffset = number(ref.compressedOffset);
          break;
        case 4:
          ref.compressedLength = number(ref.compressedLength);
          break;
        default:
          ref.imageFormat = s.pick({string("png"), string("jpg"), string("raw/100x100/pixel=rgb8"), string("raw/4294967295x4294967295/pixel=rgb8"), string("raw"), string(""), s.text(10), string("video/codec=x"), string("raw/10x4294967295/pixel=yuv_i420_split")});
          break;
      }
    }
    std::ostringstream note;
    note << ref.dataOffset << "+" << ref.dataSize << " " << pbt::show(ref.imageFormat) << " compression " << (int)ref.compressionType << " " << ref.compressedOffset << "+"
         << ref.compressedLength << " (file size " << size << ")";
    c.note(note.str());
    bool ok = false;
    {
      // the data may legitimately expand
      MemoryWatch watch((1u << 20) * 8 + 2 * (size_t)ref.compressedLength + 2000 * (size_t)std::min<int64_t>(ref.dataSize, size));
      if (ref.compressedLength > (64u << 20)) {
        continue; // a claim for that much data can't be told from a legitimate one
      }
      ok = loadImage(file, *out, ref, (ImageLoadType)s.draw(3));
    }
    if (ref.dataOffset < 0 || ref.dataOffset >= size || (int64_t)ref.dataSize > size - ref.dataOffset) {
      REQUIRE_MSG(!ok, "data outside of the file accepted");
    }
    c.label(ok ? "accepted" : "refused");
    c.nontrivial(pbt::hashStr(note.str()));
  }
  // what's valid still is
  const auto& r = refs[s.below(refs.size())];
  REQUIRE(loadImage(file, *out, r, ImageLoadType::Raw));
}

PBT_TEST(blockBounds, 4000, 200000, "blocks larger than what's left of their record") {
  // what a damaged or truncated record declares can't be believed
  Bytes data = s.bytes(s.size(300));
  size_t claim = s.chance(1, 2) ? data.size() + 1 + s.size(100) : (size_t)s.interesting(32);
  bool unknown = s.chance(1, 6);
  if (unknown) {
    claim = ContentBlock::kSizeUnknown;
  }
  bool audio = s.flip();
  bool fits = claim <= data.size();
  BufferReader reader;
  RecordReader* r = reader.init(data);
  std::ostringstream note;
  note << (audio ? "audio" : "image") << " of " << claim << " bytes in " << data.size();
  c.note(note.str());
  MemoryWatch watch(8u << 20);
  if (audio) {
    AudioBlock block;
    ContentBlock cb(AudioContentBlockSpec(AudioFormat::OPUS, AudioSampleFormat::S16_LE, 1, 0, 48000, 0), claim);
    bool ok = block.readBlock(r, cb);
    REQUIRE_MSG(ok == fits, "readBlock returned " << ok);
    if (ok) {
      REQUIRE_EQ(block.size(), claim);
      REQUIRE(memcmp(block.rdata(), data.data(), claim) == 0);
    }
  } else {
    auto f = usedFrame(s);
    ImageFormat format = s.pick({ImageFormat::PNG, ImageFormat::JPG, ImageFormat::CUSTOM_CODEC});
    ContentBlock cb(ImageContentBlockSpec(format), claim);
    if (s.flip()) {
      bool ok = f->readDiskImageData(r, cb);
      REQUIRE_MSG(ok == fits, "readDiskImageData returned " << ok);
    } else {
      bool ok = f->readFrame(r, cb);
      REQUIRE_MSG(!ok, "random data decoded");
    }
  }
  c.nontrivial(pbt::mix64(claim * 1000 + data.size()) + audio);
}

// -- audio -----------------------------------------------------------------------------------
PBT_TEST(audioBlocks, 4000, 60000, "recorded audio blocks of at least 2 samples") {
  RecordFileWriter writer;
  content::FormatStream stream(RecordableTypeId::AudioStream, "test/audio", nullptr);
  stream.withConfig = stream.withState = false;
  stream.setCompression(gen::genPreset(s));
  writer.addRecordable(&stream);
  struct Audio {
    AudioContentBlockSpec spec;
    Bytes data;
  };
  vector<Audio> expected;
  double t = 1;
  std::map<string, uint32_t> versions;
  size_t samples = 0;
  for (size_t n = 1 + s.size(5); n > 0; n--) {
    bool opus = false; // only described by layouts
    auto format = (AudioSampleFormat)(1 + s.below((size_t)AudioSampleFormat::COUNT - 1));
    uint8_t channels = 1 + (uint8_t)s.size(7);
    uint32_t frame = AudioContentBlockSpec::getBytesPerSample(format) * channels;
    if (frame > 255) {
      throw pbt::Discard{};
    }
    uint8_t stride = s.flip() ? 0 : (uint8_t)std::min<uint32_t>(255, frame + (uint32_t)s.draw(9));
    uint32_t count = s.size(400);
    Audio a;
    a.spec = AudioContentBlockSpec(opus ? AudioFormat::OPUS : AudioFormat::PCM, format, channels, stride, 1 + s.size(96000), count);
    a.data = genPixels(s, opus ? s.size(500) : (size_t)(stride ? stride : frame) * count);
    if (a.data.empty()) {
      continue;
    }
    samples += count;
    string text = RecordFormat(ContentBlock(a.spec, opus && s.flip() ? a.data.size() : ContentBlock::kSizeUnknown)).asString();
    auto it = versions.find(text);
    uint32_t version = it == versions.end() ? (uint32_t)versions.size() + 1 : it->second;
    versions[text] = version;
    if (it == versions.end()) {
      REQUIRE(stream.addRecordFormat(Record::Type::DATA, version, RecordFormat(text)));
    }
    c.note(text);
    stream.make(t++, Record::Type::DATA, version, a.data, (gen::Feed)s.draw(2), s.size(500), s.size(500));
    expected.push_back(std::move(a));
  }
  string path = c.dir() + "/a.vrs";
  REQUIRE_EQ(writer.writeToFile(path), 0);
  class Player : public RecordFormatStreamPlayer {
   public:
    vector<Audio>& expected;
    AudioBlock block;
    size_t next = 0;
    explicit Player(vector<Audio>& e) : expected{e} {}
    bool onAudioRead(const CurrentRecord& r, size_t, const ContentBlock& cb) override {
      REQUIRE_MSG(next < expected.size(), "too many blocks");
      Audio& a = expected[next++];
      REQUIRE_MSG(block.readBlock(r.reader, cb), "can't read " << cb.asString());
      REQUIRE_MSG(block.getSpec() == a.spec, "described as " << block.getSpec().asString() << " rather than " << a.spec.asString());
      REQUIRE_MSG(block.getBuffer() == a.data, "different samples: " << block.size() << " bytes, " << a.data.size() << " expected");
      if (a.spec.getAudioFormat() == AudioFormat::PCM) {
        AudioDecompressionHandler handler;
        REQUIRE(block.decompressAudio(handler));
        REQUIRE(block.getBuffer() == a.data);
      }
      return true;
    }
  } player(expected);
  RecordFileReader reader;
  REQUIRE_EQ(reader.openFile(path), 0);
  reader.setStreamPlayer(stream.getStreamId(), &player);
  REQUIRE_EQ(reader.readAllRecords(), 0);
  REQUIRE_EQ_MSG(player.next, expected.size(), "blocks read");
  if (samples > 1) {
    uint64_t key = 0;
    for (auto& a : expected) {
      key = key * 31 + pbt::hashBytes(a.data.data(), a.data.size());
    }
    c.nontrivial(key);
  }
}

namespace {
struct OpusSetup {
  uint32_t rate = 48000;
  uint8_t channels = 1, pairs = 0;
  AudioContentBlockSpec spec(AudioFormat f, uint32_t count, uint8_t stride = 0) const {
    return AudioContentBlockSpec(f, AudioSampleFormat::S16_LE, channels, stride, rate, count, pairs);
  }
  bool operator==(const OpusSetup& o) const {
    return rate == o.rate && channels == o.channels && pairs == o.pairs;
  }
};
OpusSetup genSetup(pbt::Src& s) {
  OpusSetup o;
  o.rate = s.pick({48000u, 8000u, 12000u, 16000u, 24000u});
  o.channels = 1 + (uint8_t)s.size(5);
  o.pairs = (uint8_t)s.draw(o.channels / 2);
  return o;
}
struct Decoder { // the library itself
  OpusMSDecoder* d = nullptr;
  explicit Decoder(const OpusSetup& o) {
    Bytes mapping(o.channels);
    for (size_t k = 0; k < mapping.size(); k++) {
      mapping[k] = (uint8_t)k;
    }
    int error = 0;
    d = opus_multistream_decoder_create(o.rate, o.channels, o.channels - o.pairs, o.pairs, mapping.data(), &error);
  }
  ~Decoder() {
    opus_multistream_decoder_destroy(d);
  }
};
} // namespace

PBT_TEST(opus, 1500, 12000, "streams of at least 2 encoded blocks, the setup changing or not") {
  AudioCompressionHandler encoder;
  AudioDecompressionHandler handler;
  std::unique_ptr<Decoder> reference;
  OpusSetup setup;
  bool first = true;
  std::ostringstream note;
  size_t blocks = 0;
  double phase = 0;
  for (size_t n = 2 + s.size(6); n > 0; n--) {
    if (first || s.chance(1, 5)) {
      OpusSetup next = first || s.chance(1, 2) ? genSetup(s) : setup;
      if (!first && s.flip() && setup.channels >= 2) { // same channels, differently coupled
        next = setup;
        next.pairs = (uint8_t)s.draw(next.channels / 2);
      }
      // a setup which isn't different continues the same stream
      bool same = !first && next == setup;
      setup = next;
      if (!same) {
        reference = std::make_unique<Decoder>(setup);
      }
      REQUIRE_MSG(encoder.create(setup.spec(AudioFormat::PCM, 0)), "can't create an encoder");
      note << setup.rate << "Hz/" << (int)setup.channels << "ch/" << (int)setup.pairs << "p ";
      first = false;
    }
    uint32_t count = setup.rate / 1000 * s.pick({20u, 10u, 5u, 40u, 60u});
    vector<int16_t> pcm((size_t)count * setup.channels);
    for (uint32_t k = 0; k < count; k++, phase += 0.05) {
      for (int ch = 0; ch < setup.channels; ch++) {
        pcm[(size_t)k * setup.channels + ch] = (int16_t)(8000 * std::sin(phase * (ch + 1)));
      }
    }
    Bytes packet(4000 * setup.channels);
    int size = encoder.compress(pcm.data(), count, packet.data(), packet.size());
    REQUIRE_MSG(size > 0, "encoding " << count << " samples: " << size);
    packet.resize((size_t)size);
    bool known = s.flip();
    ContentBlock cb(setup.spec(AudioFormat::OPUS, known ? count : 0), packet.size());
    BufferReader reader;
    AudioBlock block;
    REQUIRE(block.readBlock(reader.init(packet), cb));
    AudioBlock decoded(AudioFormat::PCM, AudioSampleFormat::F32_LE, 2, 0, 44100, 7);
    bool ok = s.flip() ? block.opusDecompress(handler, decoded) : block.decompressAudio(handler) && (decoded = block, true);
    c.note(note.str());
    REQUIRE_MSG(ok, "can't decode " << cb.asString());
    REQUIRE_EQ_MSG(decoded.getSampleCount(), count, "samples decoded");
    REQUIRE(decoded.getAudioFormat() == AudioFormat::PCM && decoded.getSampleFormat() == AudioSampleFormat::S16_LE);
    REQUIRE_EQ((int)decoded.getChannelCount(), (int)setup.channels);
    REQUIRE_EQ(decoded.getSampleRate(), setup.rate);
    REQUIRE_EQ(decoded.size(), pcm.size() * 2);
    vector<int16_t> want((size_t)setup.rate / 1000 * 120 * setup.channels);
    int got = opus_multistream_decode(reference->d, packet.data(), (int)packet.size(), want.data(), (int)(setup.rate / 1000 * 120), 0);
    REQUIRE_EQ(got, (int)count);
    REQUIRE_MSG(memcmp(want.data(), decoded.rdata(), decoded.size()) == 0, "the samples decoded differ from the library's");
    blocks++;
  }
  if (blocks > 1) {
    c.nontrivial(pbt::hashStr(note.str()) + blocks);
  }
}

PBT_TEST(damagedOpus, 1500, 60000, "damaged packets, specs which can't be decoded") {
  OpusSetup setup = genSetup(s);
  AudioCompressionHandler encoder;
  REQUIRE(encoder.create(setup.spec(AudioFormat::PCM, 0)));
  uint32_t count = setup.rate / 50;
  vector<int16_t> pcm((size_t)count * setup.channels);
  for (size_t k = 0; k < pcm.size(); k++) {
    pcm[k] = (int16_t)(k * 37);
  }
  AudioDecompressionHandler handler;
  std::ostringstream note;
  for (size_t n = 1 + s.size(4); n > 0; n--) {
    Bytes packet(4000 * setup.channels);
    int size = encoder.compress(pcm.data(), count, packet.data(), packet.size());
    REQUIRE(size > 0);
    packet.resize((size_t)size);
    switch (s.draw(3)) {
      case 0:
        packet.resize(s.below(packet.size()));
        break;
      case 1:
        for (size_t k = 1 + s.size(5); k > 0; k--) {
          packet[s.below(packet.size())] = (uint8_t)s.draw(255);
        }
        break;
      case 2:
        packet = s.bytes(s.size(60));
        break;
      default:
        break;
    }
    OpusSetup o = setup;
    auto sample = AudioSampleFormat::S16_LE;
    bool bad = false;
    switch (s.draw(6)) {
      case 0:
        o.rate = (uint32_t)s.interesting(32);
        bad = o.rate != 8000 && o.rate != 12000 && o.rate != 16000 && o.rate != 24000 && o.rate != 48000;
        break;
      case 1:
        o.channels = (uint8_t)s.draw(255);
        bad = o.channels == 0;
        break;
      case 2:
        o.pairs = (uint8_t)s.draw(255);
        bad = o.pairs * 2 > o.channels;
        break;
      case 3:
        sample = s.pick({AudioSampleFormat::F32_LE, AudioSampleFormat::S16_BE, AudioSampleFormat::UNDEFINED});
        bad = true;
        break;
      default:
        break;
    }
    uint32_t claim = s.flip() ? 0 : s.flip() ? count : s.flip() ? s.size(7000) : (uint32_t)s.interesting(32);
    AudioContentBlockSpec spec(AudioFormat::OPUS, sample, o.channels, 0, o.rate, claim, o.pairs);
    note << spec.asString() << " " << packet.size() << "; ";
    c.note(note.str());
    AudioBlock block(spec, Bytes(packet));
    block.getBuffer().shrink_to_fit();
    AudioBlock out;
    MemoryWatch watch(64u << 20);
    bool ok = block.opusDecompress(handler, out);
    REQUIRE_MSG(!ok || !bad, "decoded with an impossible setup");
    if (ok) {
      REQUIRE(out.getSampleCount() > 0);
      REQUIRE_EQ(out.size(), (size_t)out.getSampleCount() * o.channels * 2);
      REQUIRE(out.getSampleCount() <= (claim != 0 ? claim : o.rate * 120 / 1000));
    }
    c.label(ok ? "decoded" : "refused");
  }
  c.nontrivial(pbt::hashStr(note.str()));
}
