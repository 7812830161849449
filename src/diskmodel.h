// Histories of operations on a disk file (synchronous or not) against a model: a list of chunks in memory.
#pragma once

#include <vrs/DiskFile.h>
#include <vrs/ErrorCode.h>
#include <vrs/os/Utils.h>

#include <algorithm>
#include <map>
#include <memory>
#include <sstream>

#include "damaged.h"
#include "pbt.h"

namespace diskmodel {

using std::string;
using std::vector;
using Bytes = vector<uint8_t>;

struct Model {
  vector<Bytes> chunks;
  int64_t pos = 0;
  size_t current = 0; // the chunk written to, when creating

  int64_t offsetOf(size_t chunk) const {
    int64_t offset = 0;
    for (size_t k = 0; k < chunk; k++) {
      offset += chunks[k].size();
    }
    return offset;
  }
  int64_t total() const {
    return offsetOf(chunks.size());
  }
  Bytes all() const {
    Bytes b;
    for (auto& c : chunks) {
      b.insert(b.end(), c.begin(), c.end());
    }
    return b;
  }
  /// write at pos, only ever extending the last chunk
  void overwrite(const Bytes& data) {
    size_t done = 0;
    int64_t offset = 0;
    for (size_t k = 0; k < chunks.size() && done < data.size(); k++) {
      bool last = k + 1 == chunks.size();
      if (pos < offset + (int64_t)chunks[k].size() || last) {
        size_t at = (size_t)(pos - offset);
        size_t n = last ? data.size() - done : std::min(data.size() - done, chunks[k].size() - at);
        if (at + n > chunks[k].size()) {
          chunks[k].resize(at + n);
        }
        std::copy(data.begin() + done, data.begin() + done + n, chunks[k].begin() + at);
        done += n;
        pos += n;
      }
      offset += chunks[k].size();
    }
  }
};

inline string chunkName(const string& first, size_t k) {
  if (k == 0) {
    return first;
  }
  if (first.size() > 2 && first.substr(first.size() - 2) == "_1") {
    return first.substr(0, first.size() - 1) + std::to_string(k + 1);
  }
  return first + "_" + std::to_string(k);
}

inline string hex(const Bytes& b, size_t from) {
  std::ostringstream os;
  for (size_t k = from; k < b.size() && k < from + 8; k++) {
    os << (int)b[k] << " ";
  }
  return os.str();
}
inline void sameBytes(const Bytes& got, const Bytes& expected, const string& what) {
  size_t n = std::min(got.size(), expected.size()), k = 0;
  while (k < n && got[k] == expected[k]) {
    k++;
  }
  REQUIRE_MSG(
      got.size() == expected.size() && k == n,
      what << ": " << got.size() << " bytes rather than " << expected.size() << ", same up to " << k << ": " << hex(got, k)
           << "rather than " << hex(expected, k));
}

inline void sameOnDisk(const Model& m, const string& path, const string& when) {
  for (size_t k = 0; k < m.chunks.size(); k++) {
    string p = chunkName(path, k);
    REQUIRE_MSG(vrs::os::isFile(p), when << ": no chunk " << p);
    sameBytes(damaged::slurp(p), m.chunks[k], when + ": chunk " + std::to_string(k) + " of " + std::to_string(m.chunks.size()));
  }
}

/// Sizes around buffer sizes and alignments
inline size_t genSize(pbt::Src& s, size_t unit) {
  switch (s.weighted({6, 3, 2, 1})) {
    case 0:
      return s.size(300);
    case 1:
      return s.size(9000);
    case 2:
      return unit * s.draw(3) + s.draw(2) - (s.flip() ? 1 : 0) + 1;
    default:
      return s.size(70000);
  }
}

struct Stats {
  size_t ops = 0, crossing = 0, chunks = 0;
};

template <class DF>
Stats history(pbt::Src& s, pbt::Ctx& c, const vrs::FileSpec::Extras& createOptions, const vrs::FileSpec::Extras& openOptions, size_t unit, std::ostringstream& note) {
  Stats stats;
  Model m;
  string path = c.dir() + "/" + (s.chance(1, 5) ? "file_1" : s.chance(1, 5) ? "file_0" : "file");
  DF file;
  string handler = DF::staticName();
  auto op = [&](const std::ostringstream& os) {
    note << os.str() << "; ";
    c.note(note.str());
    stats.ops++;
  };
#define OP(...) op(std::ostringstream() << __VA_ARGS__)
  auto checkPos = [&]() { REQUIRE_EQ_MSG(file.getPos(), m.pos, "position"); };

  // 1. create
  m.chunks.emplace_back();
  OP("create");
  REQUIRE_EQ(file.create(path, createOptions), 0);
  REQUIRE(file.isOpened() && !file.isReadOnly());
  size_t count = s.draw(s.chance(1, 3) ? 40 : 10);
  for (size_t k = 0; k < count; k++) {
    size_t lastIndex = m.chunks.size() - 1;
    bool inLast = m.current == lastIndex;
    switch (s.weighted({10, 4, 4, 4, 1})) {
      case 0: {
        Bytes data = s.bytes(genSize(s, unit));
        bool plain = inLast && s.chance(2, 3);
        OP((plain ? "write " : "overwrite ") << data.size() << " at " << m.pos);
        int64_t before = m.pos;
        REQUIRE_EQ(plain ? file.write(data.data(), data.size()) : file.overwrite(data.data(), data.size()), 0);
        REQUIRE_EQ(file.getLastRWSize(), data.size());
        m.overwrite(data);
        if (!plain) {
          stats.crossing += before < m.offsetOf(lastIndex) && m.pos > m.offsetOf(lastIndex);
          while (!data.empty() && m.current < lastIndex && m.pos > m.offsetOf(m.current + 1)) {
            m.current++;
          }
        }
        break;
      }
      case 1: {
        // the end of the last chunk is the end of the file
        m.pos = m.total();
        OP("end " << m.pos);
        REQUIRE_EQ(file.setPos(m.pos), 0);
        m.current = lastIndex;
        if (s.flip()) {
          OP("add chunk");
          REQUIRE_EQ(file.addChunk(), 0);
          m.chunks.emplace_back();
          m.current = lastIndex + 1;
          string chunkPath;
          size_t index = 99;
          REQUIRE(file.getCurrentChunk(chunkPath, index));
          REQUIRE_EQ(chunkPath, chunkName(path, m.current));
          REQUIRE_EQ(index, m.current);
        }
        break;
      }
      case 2: {
        int64_t start = m.offsetOf(lastIndex);
        m.pos = s.chance(1, 3) ? (int64_t)s.draw(m.total()) : start + (int64_t)s.draw(m.chunks.back().size());
        // beyond the end of the last chunk
        if (s.chance(1, 8)) {
          m.pos = m.total() + (int64_t)s.draw(5000);
        }
        OP("pos " << m.pos);
        REQUIRE_EQ(file.setPos(m.pos), 0);
        size_t chunk = 0;
        while (chunk < lastIndex && m.pos >= m.offsetOf(chunk + 1)) {
          chunk++;
        }
        m.current = chunk;
        break;
      }
      case 3: {
        // truncate the current chunk
        size_t at = (size_t)(m.pos - m.offsetOf(m.current));
        OP("truncate chunk " << m.current << " at " << at);
        REQUIRE_EQ(file.truncate(), 0);
        m.chunks[m.current].resize(at);
        if (!inLast) { // a position at the end of a chunk
          m.pos = m.total();
          REQUIRE_EQ(file.setPos(m.pos), 0);
          m.current = lastIndex;
        }
        break;
      }
      default: {
        if (!inLast && m.pos < m.offsetOf(m.current + 1)) {
          OP("bad add chunk");
          REQUIRE_EQ(file.addChunk(), vrs::DISKFILE_INVALID_STATE);
        } else {
          OP("nothing");
          REQUIRE_EQ(file.write(nullptr, 0), 0);
        }
        break;
      }
    }
    checkPos();
    REQUIRE_EQ(file.getFileChunks().size(), m.chunks.size());
  }
  // the model may be ahead when the position is past the end
  OP("close");
  REQUIRE_EQ(file.close(), 0);
  REQUIRE(!file.isOpened());
  sameOnDisk(m, path, "created");
  REQUIRE(!vrs::os::pathExists(chunkName(path, m.chunks.size())));

  // 2. read, then update
  vrs::FileSpec spec;
  spec.fileHandlerName = handler;
  for (size_t k = 0; k < m.chunks.size(); k++) {
    spec.chunks.push_back(chunkName(path, k));
  }
  // chunks may come from anywhere: add some, maybe empty
  size_t extra = s.chance(1, 3) ? s.draw(4) : 0;
  for (size_t k = 0; k < extra; k++) {
    m.chunks.push_back(s.chance(1, 4) ? Bytes() : s.bytes(s.size(3000)));
    spec.chunks.push_back(chunkName(path, m.chunks.size() - 1));
    damaged::spit(spec.chunks.back(), m.chunks.back(), m.chunks.back().size());
  }
  spec.extras = openOptions;
  stats.chunks = m.chunks.size();
  Model onDisk = m;
  DF reader;
  OP("open " << m.chunks.size() << " chunks, " << m.total() << " bytes");
  REQUIRE_EQ(reader.openSpec(spec), 0);
  REQUIRE(reader.isOpened() && reader.isReadOnly());
  m.pos = 0;
  bool writable = false, sizeKnown = true, fresh = true, reading = true;
  size_t minChunks = 1;
  Bytes content = m.all();
  auto checkState = [&](size_t line) {
    REQUIRE_EQ_MSG(reader.getPos(), m.pos, "line " << line);
    string chunkPath;
    size_t index = 99;
    REQUIRE(reader.getCurrentChunk(chunkPath, index));
    REQUIRE(index < m.chunks.size());
    REQUIRE_EQ(chunkPath, spec.chunks[index]);
    int64_t start = m.offsetOf(index);
    REQUIRE_EQ_MSG(reader.getChunkPos(), m.pos - start, "position in chunk " << index);
    minChunks = index + 1;
    if (sizeKnown) {
      REQUIRE_EQ(reader.getTotalSize(), m.total());
      auto chunks = reader.getFileChunks();
      REQUIRE_EQ(chunks.size(), m.chunks.size());
      for (size_t k = 0; k < chunks.size(); k++) {
        REQUIRE_EQ(chunks[k].first, spec.chunks[k]);
        REQUIRE_EQ(chunks[k].second, (int64_t)m.chunks[k].size());
      }
      int64_t rangeStart = -1, rangeSize = -1;
      REQUIRE_EQ(reader.getChunkRange(rangeStart, rangeSize), 0);
      bool found = false;
      for (size_t k = index; k < m.chunks.size() && k <= index + 1; k++) {
        found |= rangeStart == m.offsetOf(k) && rangeSize == (int64_t)m.chunks[k].size() && m.pos >= rangeStart &&
            (m.pos < rangeStart + rangeSize || k + 1 == m.chunks.size() || m.chunks[k].empty() || m.pos == m.total());
      }
      REQUIRE_MSG(found, "range " << rangeStart << "+" << rangeSize << " at " << m.pos << " of chunk " << index);
    }
  };
  count = s.draw(s.chance(1, 3) ? 80 : 15);
  for (size_t k = 0; k < count; k++) {
    size_t kind = s.weighted({10, 5, 3, 1, 2, 6, 2, 1, 1});
    switch (kind) {
      case 0: {
        if (!reading && m.pos <= m.total()) {
          REQUIRE_EQ(reader.setPos(m.pos), 0); // between writing and reading
        }
        reading = true;
        size_t n = s.chance(1, 6) ? (size_t)std::max<int64_t>(m.total() - m.pos, 0) + s.draw(3) : genSize(s, unit);
        Bytes got(n + 1, 0xEE);
        OP("read " << n << " at " << m.pos);
        int status = reader.read(got.data(), n);
        size_t expected = (size_t)std::min<int64_t>(n, std::max<int64_t>(m.total() - m.pos, 0));
        REQUIRE_EQ_MSG(reader.getLastRWSize(), expected, "bytes read");
        REQUIRE_MSG((status == 0) == (expected == n), "status " << status << " reading " << expected << " of " << n);
        REQUIRE_EQ(reader.getLastError(), status);
        REQUIRE_EQ((int)got[n], 0xEE);
        got.resize(expected);
        Bytes all = m.all();
        sameBytes(got, Bytes(all.begin() + std::min<int64_t>(m.pos, all.size()), all.begin() + std::min<int64_t>(m.pos, all.size()) + expected), "read");
        for (size_t b = 1; b < m.chunks.size(); b++) {
          stats.crossing += expected > 0 && m.pos < m.offsetOf(b) && m.pos + (int64_t)expected > m.offsetOf(b);
        }
        m.pos += expected;
        if (expected < n && sizeKnown) {
          REQUIRE_MSG(reader.isEof(), "end of file not reported");
        } else if (m.pos < m.total() && sizeKnown) {
          REQUIRE_MSG(!reader.isEof(), "end of file reported at " << m.pos << " of " << m.total());
        }
        break;
      }
      case 1: {
        int64_t total = m.total();
        int64_t target = s.chance(1, 4) && !m.chunks.empty() ? m.offsetOf(s.draw(m.chunks.size())) + (int64_t)s.draw(2) - 1 : (int64_t)s.draw(total);
        bool bad = s.chance(1, 12);
        if (bad) {
          target = s.flip() ? -1 - (int64_t)s.draw(300) : total + 1 + (int64_t)s.draw(5000);
        }
        OP("set pos " << target);
        bool valid = target >= 0 && (writable || target <= total);
        int status = reader.setPos(target);
        REQUIRE_MSG((status == 0) == valid, "setPos(" << target << ") of " << total << ": " << status);
        if (!valid || target > total) {
          target = (int64_t)s.draw(total);
          REQUIRE_EQ(reader.setPos(target), 0);
        }
        m.pos = target;
        reading = true;
        if (m.pos < total && sizeKnown) {
          REQUIRE(!reader.isEof());
        }
        break;
      }
      case 2: {
        int64_t left = m.total() - m.pos;
        int64_t skip = s.chance(1, 4) ? left : (int64_t)s.draw((uint64_t)std::max<int64_t>(left, 0));
        bool bad = !writable && s.chance(1, 10);
        if (bad) {
          skip = left + 1 + (int64_t)s.draw(1000);
        }
        OP("skip " << skip);
        int status = reader.skipForward(skip);
        REQUIRE_MSG((status == 0) == !bad, "skipForward(" << skip << "), " << left << " left: " << status);
        m.pos = bad ? 0 : m.pos + skip;
        if (bad) {
          REQUIRE_EQ(reader.setPos(0), 0);
        }
        reading = true;
        break;
      }
      case 3: {
        // forget chunks
        int64_t size = (int64_t)s.draw(m.total() + 10);
        OP("forget further than " << size);
        reader.forgetFurtherChunks(size);
        while (m.chunks.size() > minChunks && m.offsetOf(m.chunks.size() - 1) >= size) {
          onDisk.chunks[m.chunks.size() - 1] = m.chunks.back();
          m.chunks.pop_back();
          spec.chunks.pop_back();
        }
        break;
      }
      case 4: {
        if (writable) {
          break;
        }
        if (s.chance(1, 3)) {
          OP("refused writes");
          REQUIRE(reader.write("abc", 3) != 0);
          REQUIRE(reader.overwrite("abc", 3) != 0);
          REQUIRE(reader.truncate() != 0);
          break;
        }
        OP("reopen for updates");
        REQUIRE_EQ(reader.reopenForUpdates(), 0);
        REQUIRE(!reader.isReadOnly());
        writable = true;
        m.pos = (int64_t)s.draw(m.total());
        REQUIRE_EQ(reader.setPos(m.pos), 0);
        reading = true;
        break;
      }
      case 5: {
        if (!writable) {
          break;
        }
        if (reading) {
          REQUIRE_EQ(reader.setPos(m.pos), 0);
        }
        reading = false;
        Bytes data = s.bytes(genSize(s, unit));
        OP("overwrite " << data.size() << " at " << m.pos << " of " << m.total());
        for (size_t b = 1; b < m.chunks.size(); b++) {
          stats.crossing += m.pos < m.offsetOf(b) && m.pos + (int64_t)data.size() > m.offsetOf(b);
        }
        int64_t before = m.total();
        REQUIRE_EQ(reader.overwrite(data.data(), data.size()), 0);
        REQUIRE_EQ(reader.getLastRWSize(), data.size());
        m.overwrite(data);
        sizeKnown &= m.total() == before;
        break;
      }
      case 6: {
        if (!writable) {
          break;
        }
        string chunkPath;
        size_t index = 0;
        REQUIRE(reader.getCurrentChunk(chunkPath, index));
        int64_t at = m.pos - m.offsetOf(index);
        OP("truncate chunk " << index << " at " << at);
        bool last = index + 1 == m.chunks.size();
        REQUIRE_EQ(reader.truncate(), 0);
        m.chunks[index].resize((size_t)at);
        sizeKnown |= last;
        if (s.flip()) {
          m.pos = (int64_t)s.draw(m.total());
          OP("set pos " << m.pos);
          REQUIRE_EQ(reader.setPos(m.pos), 0);
          reading = true;
        }
        break;
      }
      case 7: {
        if (!writable || m.chunks.size() != onDisk.chunks.size() || extra > 0) {
          break; // a chunk that exists would be replaced
        }
        m.pos = m.total();
        REQUIRE_EQ(reader.setPos(m.pos), 0);
        OP("add chunk at " << m.pos);
        REQUIRE_EQ(reader.addChunk(), 0);
        m.chunks.emplace_back();
        onDisk.chunks.emplace_back();
        spec.chunks.push_back(chunkName(path, m.chunks.size() - 1));
        Bytes data = s.bytes(genSize(s, unit));
        REQUIRE_EQ(reader.write(data.data(), data.size()), 0);
        m.overwrite(data);
        OP("close and reopen");
        REQUIRE_EQ(reader.close(), 0);
        sameOnDisk(m, path, "after adding a chunk");
        REQUIRE_EQ(reader.openSpec(spec), 0);
        m.pos = 0;
        writable = false;
        sizeKnown = true;
        reading = true;
        break;
      }
      default: {
        OP("close and reopen");
        REQUIRE_EQ(reader.close(), 0);
        REQUIRE(!reader.isOpened());
        sameOnDisk(m, path, "closed");
        REQUIRE_EQ(reader.openSpec(spec), 0);
        m.pos = 0;
        writable = false;
        sizeKnown = true;
        reading = true;
        break;
      }
    }
    fresh = false;
    checkState(kind);
  }
  (void)fresh;
  OP("close");
  REQUIRE_EQ(reader.close(), 0);
  // forgotten chunks didn't change
  for (size_t k = m.chunks.size(); k < onDisk.chunks.size(); k++) {
    m.chunks.push_back(onDisk.chunks[k]);
  }
  sameOnDisk(m, path, "at the end");
  return stats;
#undef OP
}

} // namespace diskmodel
