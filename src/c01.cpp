// C01: a closed recording reads back exactly what was written
#include "readback.h"

using namespace gen;
using namespace vrs;

PBT_TEST(
    readBack,
    12000,
    150000,
    "random recordings: 0-4 streams plus late ones, 0-60 operations, every creation mode, preset and thread count; "
    "non-trivial: at least 3 records; distinct by mode and record contents") {
  Recording rec;
  RecordingOptions opt;
  opt.allowChunks = false;
  record(s, c, rec, opt);
  REQUIRE_MSG(rec.status == 0, "recording failed: " << errorCodeToMessage(rec.status));
  checkReadBack(s, c, rec, rec.path);
  count(c, rec);
}

PBT_TEST(
    readBackChunks,
    320,
    6000,
    "as readBack, with size limited chunks (1 MB) and records up to 800 KB, with or without split head; chunk notifications "
    "and sizes are checked") {
  Recording rec;
  RecordingOptions opt;
  opt.forceMode = s.flip() ? Mode::SplitHeadChunked : Mode::AsyncChunked;
  record(s, c, rec, opt);
  REQUIRE_MSG(rec.status == 0, "recording failed: " << errorCodeToMessage(rec.status));
  checkReadBack(s, c, rec, rec.path);
  count(c, rec);
  // a record isn't split over chunks, and chunks (but single record ones) respect the limit
  RecordFileReader reader;
  REQUIRE_EQ(reader.openFile(rec.path), 0);
  auto chunks = reader.getFileChunks();
  std::vector<int64_t> starts;
  int64_t at = 0;
  for (auto& ch : chunks) {
    starts.push_back(at);
    at += ch.second;
  }
  starts.push_back(at);
  std::map<size_t, size_t> perChunk;
  for (auto& info : reader.getIndex()) {
    size_t ch = std::upper_bound(starts.begin(), starts.end(), info.fileOffset) - starts.begin() - 1;
    perChunk[ch]++;
  }
  for (size_t k = 0; k < chunks.size(); k++) {
    bool indexChunk = rec.mode == Mode::AsyncChunked && k + 1 == chunks.size(); // classic index at the end
    if (perChunk[k] > 1 && !indexChunk) {
      REQUIRE_MSG(chunks[k].second < 1024 * 1024 + 200000, "chunk " << k << " of " << chunks[k].second << " bytes");
    }
  }
  if (rec.mode == Mode::SplitHeadChunked) {
    // Every data chunk is announced exactly once, in order, complete; the head comes when it's final
    std::map<std::string, int64_t> sizes(chunks.begin(), chunks.end());
    std::set<std::string> announced;
    size_t lasts = 0;
    for (auto& e : rec.chunkLog.entries) {
      REQUIRE_MSG(sizes.count(e.path) == 1, "unknown chunk announced " << e.path);
      REQUIRE_MSG(announced.insert(e.path).second, "chunk announced twice " << e.path);
      REQUIRE_EQ_MSG(e.sizeAtNotification, sizes[e.path], "chunk not complete when announced " << e.path);
      REQUIRE_EQ_MSG(chunks[e.index].first, e.path, "index of chunk");
      lasts += e.last;
    }
    REQUIRE_EQ(announced.size(), chunks.size());
    REQUIRE_EQ(lasts, (size_t)1);
    REQUIRE(rec.chunkLog.entries.back().last || rec.chunkLog.entries.size() == 0);
  }
}
