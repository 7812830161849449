// C27: compression helpers round-trip and honor their limits.
#include <cstring>
#include <list>
#include <map>
#include <memory>
#include <sstream>

#include <lz4frame.h>
#include <zstd.h>

#include <vrs/Compressor.h>
#include <vrs/Decompressor.h>
#include <vrs/DiskFile.h>
#include <vrs/ErrorCode.h>
#include <vrs/Record.h>

#include "pbt.h"

using namespace vrs;
using std::string;
using std::vector;
using Bytes = vector<uint8_t>;

namespace {

/// data of every kind of redundancy
Bytes genData(pbt::Src& s, size_t most) {
  size_t n = s.weighted({1, 2, 6, 4}) == 0 ? s.below(4) : s.flip() ? s.size(most) : s.size(std::min<size_t>(most, 2000));
  if (s.chance(1, 6)) {
    n = 245 + s.below(12);
  }
  size_t kind = s.below(4);
  pbt::Prng p{s.u64()};
  Bytes b(n);
  if (kind == 0) {
    for (auto& x : b) {
      x = (uint8_t)p.next();
    }
  } else if (kind == 1) {
    uint8_t v = (uint8_t)p.next();
    for (auto& x : b) {
      x = v;
    }
  } else {
    // copies of earlier data and new bytes of a small alphabet
    size_t alphabet = 1 + p.next() % (kind == 2 ? 4 : 256);
    size_t k = 0;
    while (k < n) {
      size_t len = 1 + p.next() % 90;
      if (k > 0 && p.next() % 3 != 0) {
        size_t from = p.next() % k;
        for (; len > 0 && k < n; len--) {
          b[k++] = b[from++];
        }
      } else {
        for (; len > 0 && k < n; len--) {
          b[k++] = (uint8_t)(p.next() % alphabet);
        }
      }
    }
  }
  if (n > 140000 && p.next() % 2 == 0) { // blocks compressed to a few bytes, before others
    memset(b.data(), 7, n - n / 16);
  }
  return b;
}

CompressionPreset genPreset(pbt::Src& s, bool zstd) {
  size_t cheap = s.below(10);
  if (zstd) {
    return (CompressionPreset)((int)CompressionPreset::FirstZstdPreset + (cheap < 8 ? s.below(3) : s.below(8)));
  }
  return (CompressionPreset)(cheap < 8 ? (int)s.below(6) : (int)s.below((size_t)CompressionPreset::COUNT));
}

bool isZstd(CompressionPreset p) {
  return p >= CompressionPreset::FirstZstdPreset && p <= CompressionPreset::LastZstdPreset;
}

/// Feed compressed data to a decompressor in parts, reading parts; returns the status, or -1 when more data than possible is given
int feed(pbt::Src& s, Decompressor& d, const Bytes& data, size_t expected, Bytes& out, std::ostringstream& log) {
  out.clear();
  size_t pos = 0;
  int idle = 0;
  bool eager = s.chance(1, 3);
  size_t style = s.below(4);
  size_t room = expected + 100;
  while (out.size() < expected || style == 3) {
    if (pos < data.size() && (d.getRemainingCompressedDataBufferSize() == 0 || (eager && s.chance(1, 3)))) {
      size_t part = eager && s.chance(1, 4) ? s.below(3) : style; // a larger request while there's still data to use
      size_t n = part == 0 ? data.size() - pos : part == 1 ? std::min<size_t>(d.getRecommendedInputBufferSize(), data.size() - pos) : 1 + s.draw(std::min<size_t>(data.size() - pos - 1, 500));
      size_t had = d.getRemainingCompressedDataBufferSize();
      // exactly what's needed, so that any overrun is caught
      void* p = d.allocateCompressedDataBuffer(n);
      memcpy(p, data.data() + pos, n);
      pos += n;
      REQUIRE_EQ_MSG(d.getRemainingCompressedDataBufferSize(), had + n, log.str());
    }
    size_t want = s.flip() ? room - out.size() : std::min<size_t>(room - out.size(), 1 + s.size(300));
    std::unique_ptr<uint8_t[]> exact(new uint8_t[want]);
    uint32_t got = 0xdeadbeef;
    size_t before = d.getRemainingCompressedDataBufferSize();
    int st = d.decompress(exact.get(), (uint32_t)want, got);
    if (st != 0) {
      return st;
    }
    REQUIRE_MSG(got <= want, log.str() << ": " << got << " bytes read instead of " << want << " at most");
    out.insert(out.end(), exact.get(), exact.get() + got);
    if (got == 0 && d.getRemainingCompressedDataBufferSize() == before && pos == data.size()) {
      if (++idle > 3) {
        return out.size() == expected ? 0 : -2;
      }
    } else {
      idle = 0;
    }
    if (out.size() >= room) {
      return -1;
    }
    if (out.size() >= expected && pos == data.size() && d.getRemainingCompressedDataBufferSize() == 0) {
      break;
    }
  }
  return 0;
}

/// a file with can fail
struct File : DiskFile {
  int64_t failAfter = -1; // bytes
  int64_t written = 0;
  int write(const void* data, size_t n) override {
    if (failAfter >= 0 && written + (int64_t)n > failAfter) {
      return DISKFILE_NOT_ENOUGH_DATA;
    }
    written += (int64_t)n;
    return DiskFile::write(data, n);
  }
};

/// Adds the data of a frame in pieces
int addData(pbt::Src& s, Compressor& comp, WriteFileHandler& f, const Bytes& data, uint32_t& size, size_t max) {
  size_t pos = 0;
  size_t style = s.below(4);
  do {
    size_t n = style == 0 ? data.size() - pos : std::min<size_t>(data.size() - pos, style == 1 ? s.draw(3000) : style == 2 ? 1 + s.below(200000) : s.draw(30));
    if (n == 0 && s.flip()) {
      n = data.size() - pos;
    }
    std::unique_ptr<uint8_t[]> exact(new uint8_t[n]);
    memcpy(exact.get(), data.data() + pos, n);
    int st = comp.addFrameData(f, exact.get(), n, size, max);
    if (st != 0) {
      return st;
    }
    pos += n;
  } while (pos < data.size());
  return 0;
}

} // namespace

PBT_TEST(
    buffers,
    100000,
    1500000,
    "histories of a compressor which compresses buffers with any preset and header space, decoded by the compression libraries, and by one decompressor in any split "
    "of input and output, with frames in between; a reused compressor gives what a new one does; non-trivial: 2 buffers compressed or more; distinct by content") {
  Compressor comp;
  Decompressor d;
  size_t count = 1 + s.below(5), compressed = 0;
  uint64_t h = 1;
  std::ostringstream log;
  for (size_t k = 0; k < count; k++) {
    Bytes data = genData(s, s.chance(1, 20) ? 400000 : 20000);
    CompressionPreset preset = genPreset(s, false);
    if (s.chance(1, 30)) {
      preset = CompressionPreset::Undefined;
    }
    size_t header = s.flip() ? 0 : s.below(100);
    log << " | " << data.size() << " bytes " << toPrettyName(preset) << " header " << header;
    c.note(log.str());
    h = pbt::hashBytes(data.data(), data.size(), h ^ (uint64_t)preset);
    if (s.chance(1, 6)) {
      comp.clear();
    }
    if (s.chance(1, 6)) {
      // an incomplete frame
      File f;
      uint32_t size = 1;
      string path = c.dir() + "/frame";
      REQUIRE_EQ(f.create(path), 0);
      REQUIRE_EQ_MSG(comp.startFrame(data.size() + 10, genPreset(s, true), size), 0, log.str());
      REQUIRE_EQ(size, 0u);
      comp.addFrameData(f, data.data(), data.size(), size);
      f.close();
      c.label("incomplete frame before");
    }
    uint32_t r = comp.compress(data.data(), data.size(), preset, header);
    bool attempted = preset != CompressionPreset::None && preset != CompressionPreset::Undefined && data.size() >= Compressor::kMinByteCountForCompression;
    REQUIRE_MSG(attempted || r == 0, log.str());
    Compressor other;
    uint32_t r2 = other.compress(data.data(), data.size(), preset, 0);
    REQUIRE_EQ_MSG(r, r2, log.str());
    if (r == 0) {
      if (attempted) {
        REQUIRE_MSG(comp.getCompressionType() == CompressionType::None, log.str());
        // because it doesn't compress
        size_t best = isZstd(preset) ? ZSTD_compressBound(data.size()) : LZ4F_compressFrameBound(data.size(), nullptr);
        Bytes out(best);
        size_t z = isZstd(preset) ? ZSTD_compress(out.data(), out.size(), data.data(), data.size(), -1) : LZ4F_compressFrame(out.data(), out.size(), data.data(), data.size(), nullptr);
        REQUIRE_MSG(z * 3 > data.size(), log.str() << ": not compressed, though " << z << " bytes are enough");
        c.label("not smaller");
      }
      continue;
    }
    compressed++;
    REQUIRE_MSG(r < data.size(), log.str());
    REQUIRE_MSG(comp.getCompressionType() == (isZstd(preset) ? CompressionType::Zstd : CompressionType::Lz4), log.str());
    const uint8_t* p = (const uint8_t*)comp.getData() + header;
    REQUIRE_MSG(memcmp(p, other.getData(), r) == 0, log.str() << ": the result depends on what was compressed before");
    if (header > 0) {
      REQUIRE((void*)comp.getHeader<uint8_t>() == comp.getData());
      memset(comp.getHeader<uint8_t>(), 0xfe, header);
    }
    Bytes packed(p, p + r), back(data.size() + 1);
    if (isZstd(preset)) {
      size_t z = ZSTD_decompress(back.data(), back.size(), packed.data(), packed.size());
      REQUIRE_EQ_MSG(z, data.size(), log.str());
    } else {
      LZ4F_dctx* ctx{};
      LZ4F_createDecompressionContext(&ctx, LZ4F_VERSION);
      size_t in = packed.size(), out = back.size();
      size_t z = LZ4F_decompress(ctx, back.data(), &out, packed.data(), &in, nullptr);
      LZ4F_freeDecompressionContext(ctx);
      REQUIRE_MSG(z == 0 && out == data.size() && in == packed.size(), log.str());
    }
    back.resize(data.size());
    REQUIRE_MSG(back == data, log.str());
    // in any split, stopping anywhere
    size_t times = 1 + s.below(2);
    for (size_t t = 0; t < times; t++) {
      d.reset();
      d.setCompressionType(comp.getCompressionType());
      REQUIRE(d.getCompressionType() == comp.getCompressionType());
      REQUIRE_EQ(d.getRemainingCompressedDataBufferSize(), (size_t)0);
      size_t rec = d.getRecommendedInputBufferSize();
      REQUIRE_MSG(rec > 0 && rec <= (4 << 20), log.str());
      bool partial = s.chance(1, 3);
      Bytes out;
      size_t expected = partial ? s.below(data.size()) : data.size();
      int st = feed(s, d, packed, expected, out, log);
      if (partial) {
        REQUIRE_MSG(st <= 0 && out.size() >= expected && out.size() <= data.size() && memcmp(out.data(), data.data(), out.size()) == 0, log.str());
      } else {
        REQUIRE_EQ_MSG(st, 0, log.str());
        REQUIRE_MSG(out == data, log.str() << ": " << out.size() << " bytes");
      }
    }
    c.label(toString(comp.getCompressionType()));
  }
  // names
  auto preset = genPreset(s, false);
  REQUIRE(toEnum<CompressionPreset>(toString(preset)) == preset);
  auto preset2 = genPreset(s, false);
  REQUIRE((toPrettyName(preset) == toPrettyName(preset2)) == (preset == preset2));
  if (compressed > 1) {
    c.nontrivial(h);
  }
}

PBT_TEST(
    frames,
    36000,
    500000,
    "frames written in pieces one after the other, some of them too large for a given limit, of the wrong size, abandoned, or after a write error, then read back "
    "in sequence, directly and by the compression library, followed by other data; non-trivial: 2 frames or more; distinct by content") {
  Compressor comp;
  string path = c.dir() + "/frames";
  File f;
  REQUIRE_EQ(f.create(path), 0);
  vector<Bytes> frames;
  Bytes all;
  std::ostringstream log;
  size_t count = 1 + s.below(4);
  uint64_t h = 1;
  int64_t total = 0;
  for (size_t k = 0; k < count; k++) {
    Bytes data = genData(s, s.chance(1, 8) ? 600000 : 20000);
    CompressionPreset preset = genPreset(s, true);
    log << " | " << data.size() << " bytes " << toPrettyName(preset);
    h = pbt::hashBytes(data.data(), data.size(), h ^ (uint64_t)preset);
    // the size of the frame
    uint32_t size = 12345;
    size_t full = 0;
    {
      Compressor other;
      File g;
      string ref = c.dir() + "/ref";
      REQUIRE_EQ(g.create(ref), 0);
      REQUIRE_EQ_MSG(other.startFrame(data.size(), preset, size), 0, log.str());
      REQUIRE_EQ(size, 0u);
      REQUIRE_EQ_MSG(other.addFrameData(g, data.data(), data.size(), size), 0, log.str());
      REQUIRE_EQ_MSG(other.endFrame(g, size), 0, log.str());
      full = size;
      REQUIRE_EQ_MSG(g.getPos(), (int64_t)full, log.str());
      g.close();
    }
    size_t how = s.weighted({6, 3, 2, 2, 2, 2});
    if (how != 0) {
      // a failed frame, in a file of its own
      Compressor& cc = comp;
      File g;
      string bad = c.dir() + "/bad";
      REQUIRE_EQ(g.create(bad), 0);
      uint32_t bsize = 777;
      if (how == 1) {
        size_t max = full > 1 && s.flip() ? 1 + s.below(full - 1) : std::max<size_t>(1, full - 1);
        log << " max " << max << "/" << full;
        REQUIRE_EQ_MSG(cc.startFrame(data.size(), preset, bsize), 0, log.str());
        int st = addData(s, cc, g, data, bsize, max);
        if (st == 0) {
          st = cc.endFrame(g, bsize, max);
        }
        // the frame can be split in blocks differently when added in pieces: a size a bit smaller could be reached
        REQUIRE_MSG(bsize <= max && g.getPos() <= (int64_t)max, log.str() << ": " << bsize << " bytes, " << g.getPos() << " bytes written");
        REQUIRE_EQ_MSG(g.getPos(), (int64_t)bsize, log.str());
        REQUIRE_MSG(st == TOO_MUCH_DATA || (st == 0 && bsize <= max && max + 10 + full / 4 > full), log.str() << ": status " << st);
        c.label("too large");
      } else if (how == 2) {
        size_t declared = data.size() + 1 + s.draw(100);
        log << " declared " << declared;
        REQUIRE_EQ_MSG(cc.startFrame(declared, preset, bsize), 0, log.str());
        int st = addData(s, cc, g, data, bsize, 0);
        if (st == 0) {
          st = cc.endFrame(g, bsize);
        }
        REQUIRE_MSG(st != 0, log.str() << ": incomplete frame accepted");
        c.label("too small");
      } else if (how == 3 && data.size() > 0) {
        // (an empty size means that it's not known)
        size_t declared = s.below(data.size());
        if (declared == 0) {
          declared = data.size();
        }
        log << " declared " << declared;
        REQUIRE_EQ_MSG(cc.startFrame(declared, preset, bsize), 0, log.str());
        int st = addData(s, cc, g, data, bsize, 0);
        if (st == 0) {
          st = cc.endFrame(g, bsize);
        }
        REQUIRE_MSG((st != 0) == (declared != data.size()), log.str() << ": frame of the wrong size accepted");
        c.label("over");
      } else if (how == 4) {
        log << " write error";
        g.failAfter = (int64_t)s.below(full);
        REQUIRE_EQ_MSG(cc.startFrame(data.size(), preset, bsize), 0, log.str());
        int st = addData(s, cc, g, data, bsize, 0);
        if (st == 0) {
          st = cc.endFrame(g, bsize);
        }
        REQUIRE_MSG(st == DISKFILE_NOT_ENOUGH_DATA || (st == 0 && g.written <= g.failAfter), log.str() << ": status " << st);
        REQUIRE_EQ_MSG(g.written, (int64_t)bsize, log.str());
        c.label("write error");
      } else {
        log << " abandoned";
        REQUIRE_EQ_MSG(cc.startFrame(data.size() + s.below(3), preset, bsize), 0, log.str());
        addData(s, cc, g, data, bsize, 0);
        c.label("abandoned");
      }
      g.close();
    }
    c.note(log.str());
    size_t max = s.flip() ? 0 : full + full / 4 + 1000 + s.below(10000);
    if (s.chance(1, 5)) {
      comp.compress(data.data(), data.size(), genPreset(s, false));
    }
    int64_t before = f.getPos();
    REQUIRE_EQ_MSG(comp.startFrame(data.size(), preset, size), 0, log.str());
    REQUIRE_EQ(size, 0u);
    REQUIRE_EQ_MSG(addData(s, comp, f, data, size, max), 0, log.str());
    REQUIRE_EQ_MSG(comp.endFrame(f, size, max), 0, log.str());
    REQUIRE_EQ_MSG(f.getPos(), before + size, log.str());
    total += size;
    frames.push_back(data);
    all.insert(all.end(), data.begin(), data.end());
  }
  Bytes after = s.bytes(s.draw(400));
  if (!after.empty()) {
    REQUIRE_EQ(f.write(after.data(), after.size()), 0);
  }
  REQUIRE_EQ(f.close(), 0);
  // the library's view
  DiskFile in;
  REQUIRE_EQ(in.open(path), 0);
  Bytes raw((size_t)total);
  REQUIRE_EQ(in.read(raw.data(), raw.size()), 0);
  Bytes back(all.size() + 1);
  size_t z = ZSTD_decompress(back.data(), back.size(), raw.data(), raw.size());
  REQUIRE_EQ_MSG(z, all.size(), log.str());
  back.resize(all.size());
  REQUIRE_MSG(back == all, log.str());
  // the frames in sequence
  Decompressor d;
  size_t times = 1 + s.below(2);
  for (size_t t = 0; t < times; t++) {
    REQUIRE_EQ(in.setPos(0), 0);
    d.reset();
    // what follows the frames might be read, or not
    size_t left = (size_t)total + (s.flip() ? 0 : after.size());
    size_t start = left, stop = s.flip() ? frames.size() : s.below(frames.size() + 1);
    for (size_t k = 0; k < stop; k++) {
      size_t n = 0;
      REQUIRE_EQ_MSG(d.initFrame(in, n, left), 0, log.str() << " frame " << k);
      REQUIRE_EQ_MSG(n, frames[k].size(), log.str());
      REQUIRE_EQ_MSG(in.getPos(), (int64_t)(start - left), log.str());
      std::unique_ptr<uint8_t[]> exact(new uint8_t[n]);
      REQUIRE_EQ_MSG(d.readFrame(in, exact.get(), n, left), 0, log.str() << " frame " << k);
      REQUIRE_EQ_MSG(in.getPos(), (int64_t)(start - left), log.str());
      REQUIRE_MSG(memcmp(exact.get(), frames[k].data(), n) == 0, log.str() << " frame " << k);
    }
    if (stop == frames.size() && start == (size_t)total) {
      REQUIRE_EQ_MSG(left, (size_t)0, log.str());
      REQUIRE_EQ_MSG(d.getRemainingCompressedDataBufferSize(), (size_t)0, log.str());
      size_t n = 0;
      REQUIRE_MSG(d.initFrame(in, n, left) != 0, log.str() << ": a frame was found after the last one");
    }
  }
  // without the end of the last frame
  {
    size_t cut = 1 + s.below((size_t)total);
    size_t left = (size_t)total - cut, k = 0;
    REQUIRE_EQ(in.setPos(0), 0);
    d.reset();
    int st = 0;
    for (; k < frames.size() && st == 0; k++) {
      size_t n = 0;
      st = d.initFrame(in, n, left);
      if (st == 0) {
        REQUIRE_EQ_MSG(n, frames[k].size(), log.str());
        std::unique_ptr<uint8_t[]> exact(new uint8_t[n]);
        st = d.readFrame(in, exact.get(), n, left);
        REQUIRE_MSG(st != 0 || memcmp(exact.get(), frames[k].data(), n) == 0, log.str() << " frame " << k << " cut " << cut);
      }
    }
    REQUIRE_MSG(st != 0, log.str() << ": a frame was read beyond the limit");
  }
  in.close();
  if (frames.size() > 1) {
    c.nontrivial(h);
  }
}

PBT_TEST(
    damaged,
    180000,
    3000000,
    "damaged compressed buffers and frames decoded in any split in exact memory: an error, or no more than asked; then the same decompressor decodes good data; "
    "non-trivial: the header is good; distinct by damaged content") {
  Bytes data = genData(s, 20000);
  data.resize(data.size() + 300, 3);
  CompressionPreset preset = genPreset(s, false);
  if (preset == CompressionPreset::None) {
    preset = CompressionPreset::Lz4Fast;
  }
  Compressor comp;
  uint32_t r = comp.compress(data.data(), data.size(), preset);
  if (r == 0) {
    throw pbt::Discard{};
  }
  Bytes good((const uint8_t*)comp.getData(), (const uint8_t*)comp.getData() + r), bad = good;
  std::ostringstream log;
  log << data.size() << " bytes " << toPrettyName(preset) << " compressed to " << r;
  bool header = s.chance(1, 4);
  size_t edits = 1 + s.below(3);
  for (size_t k = 0; k < edits && !bad.empty(); k++) {
    size_t at = header ? s.below(std::min<size_t>(bad.size(), 20)) : s.below(bad.size());
    switch (s.below(5)) {
      case 0:
        bad[at] ^= (uint8_t)(1 << s.below(8));
        break;
      case 1:
        bad[at] = (uint8_t)s.below(256);
        break;
      case 2:
        bad.resize(at);
        break;
      case 3:
        bad.insert(bad.begin() + (std::ptrdiff_t)at, (uint8_t)s.below(256));
        break;
      default: {
        size_t n = std::min<size_t>(bad.size() - at, 1 + s.below(20));
        bad.erase(bad.begin() + (std::ptrdiff_t)at, bad.begin() + (std::ptrdiff_t)(at + n));
        break;
      }
    }
  }
  Decompressor d;
  auto type = isZstd(preset) ? CompressionType::Zstd : CompressionType::Lz4;
  bool frames = s.flip();
  if (!frames) {
    d.setCompressionType(type);
    Bytes out;
    int st = feed(s, d, bad, data.size(), out, log);
    if (bad == good) {
      REQUIRE_EQ_MSG(st, 0, log.str());
      REQUIRE_MSG(out == data, log.str());
    }
    c.label(st == 0 ? "decoded" : st < 0 ? "different size" : "error");
  } else if (type == CompressionType::Zstd) {
    string path = c.dir() + "/bad";
    DiskFile f;
    REQUIRE_EQ(f.create(path), 0);
    size_t times = 1 + s.below(2);
    for (size_t k = 0; k < times && !bad.empty(); k++) {
      REQUIRE_EQ(f.write(bad.data(), bad.size()), 0);
    }
    REQUIRE_EQ(f.close(), 0);
    REQUIRE_EQ(f.open(path), 0);
    // the limit might be larger than the file
    size_t left = bad.size() * times + (s.chance(1, 4) ? 1 + s.draw(500) : 0), fileSize = bad.size() * times;
    for (size_t k = 0; k < times + 1; k++) {
      size_t n = 0;
      int st = d.initFrame(f, n, left);
      if (st != 0) {
        c.label("frame refused");
        break;
      }
      // the size of the frame is claimed by damaged data
      bool lie = n > (1 << 20) || s.chance(1, 5);
      if (lie) {
        n = s.below(data.size());
      }
      std::unique_ptr<uint8_t[]> exact(new uint8_t[n]);
      st = d.readFrame(f, exact.get(), n, left);
      REQUIRE_MSG(left <= fileSize + 600, log.str());
      if (bad == good && !lie && left + fileSize + 1 > 0 && st == 0) {
        REQUIRE_MSG(n == data.size() && memcmp(exact.get(), data.data(), n) == 0, log.str());
      }
      c.label(st == 0 ? "frame decoded" : "frame error");
      if (st != 0) {
        break;
      }
    }
    f.close();
  }
  c.note(log.str());
  // then again with good data, the same way
  d.reset();
  if (frames) {
    string path = c.dir() + "/good";
    REQUIRE_EQ(DiskFile::writeZstdFile(path, data.data(), data.size()), 0);
    DiskFile f;
    REQUIRE_EQ(f.open(path), 0);
    size_t left = (size_t)f.getTotalSize(), n = 0;
    REQUIRE_EQ_MSG(d.initFrame(f, n, left), 0, log.str());
    REQUIRE_EQ_MSG(n, data.size(), log.str());
    Bytes back(n);
    REQUIRE_EQ_MSG(d.readFrame(f, back.data(), n, left), 0, log.str());
    REQUIRE_MSG(back == data, log.str() << " after damaged frames");
    if (bad.size() > 10 && memcmp(bad.data(), good.data(), 6) == 0) {
      c.nontrivial(pbt::hashBytes(bad.data(), bad.size(), 1));
    }
    return;
  }
  d.setCompressionType(type);
  Bytes out;
  int st = feed(s, d, good, data.size(), out, log);
  REQUIRE_EQ_MSG(st, 0, log.str() << " after damaged data");
  REQUIRE_MSG(out == data, log.str() << " after damaged data");
  if (bad.size() > 10 && memcmp(bad.data(), good.data(), 6) == 0) {
    c.nontrivial(pbt::hashBytes(bad.data(), bad.size()));
  }
}
