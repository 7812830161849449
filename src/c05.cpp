// C05: corrupted files are handled without crashing
#include "hostile.h"

PBT_TEST(
    mutations,
    24000,
    600000,
    "recordings in all modes, or with record formats, damaged by 1-5 mutations of structures or bytes, then opened, fixed in place "
    "or not, and all their records and tags read with 2 kinds of player; non-trivial: the file opens, and shows at least a record; "
    "distinct by mutations & outcome") {
  std::string path;
  Recording rec;
  TypedRecording typed;
  if (s.chance(1, 2)) {
    RecordingOptions opt;
    opt.maxOps = 25;
    opt.bigPayload = 2000;
    opt.allowChunks = false;
    opt.name = "orig.vrs";
    record(s, c, rec, opt);
    REQUIRE_EQ(rec.status, 0);
    path = rec.path;
  } else {
    makeTyped(s, c, typed, s.chance(1, 3));
    path = typed.path;
  }
  auto paths = chunkPathsOf(c.dir(), path.substr(path.rfind('/') + 1));
  auto chunks = slurpAll(paths);
  Scan scan = physical::scan(chunks);
  Bytes all;
  bool join = chunks.size() > 1 && s.flip(); // mutate the head and the data as one file, or the head alone, or the data alone
  std::ostringstream note;
  uint64_t mode = s.draw(14);
  bool fix = s.chance(1, 3);
  size_t target = 0;
  if (join) {
    for (auto& b : chunks) {
      all.insert(all.end(), b.begin(), b.end());
    }
    chunks.assign(1, all);
  } else {
    target = s.below(chunks.size());
  }
  if (target == 0) {
    mutate(s, chunks[0], scan, note);
  } else {
    Scan shifted = scan; // offsets in the data chunk
    for (auto& r : shifted.user) {
      r.offset -= chunks[0].size();
    }
    mutate(s, chunks[target], shifted, note);
  }
  all.clear();
  std::vector<std::string> outPaths;
  for (size_t k = 0; k < chunks.size(); k++) {
    std::string p = c.dir() + "/bad.vrs" + (k == 0 ? "" : "_" + std::to_string(k));
    spit(p, chunks[k], chunks[k].size());
    outPaths.push_back(p);
    all.insert(all.end(), chunks[k].begin(), chunks[k].end());
  }
  c.note(note.str());
  MemoryWatch watch(all.size());
  Outcome o = explore(outPaths, all, mode, fix);
  if (fix && o.open == 0) { // once more, after an in-place fix
    Outcome o2 = explore(outPaths, all, mode + 1, false);
      c.label("fixed", o2.open == 0);
  }
  label(c, o);
  if (o.open == 0 && o.records > 0) {
    c.nontrivial(note.str() + pbt::show(o.records) + "/" + pbt::show(o.readOk));
  }
}

PBT_TEST(
    hostileFormats,
    24000,
    500000,
    "recordings whose record formats, data layout definitions, or payloads are damaged, though the container is sound: all records "
    "and tags are read; non-trivial: at least one content block callback made; distinct by case") {
  TypedRecording typed;
  makeTyped(s, c, typed, true);
  auto paths = chunkPathsOf(c.dir(), "typed.vrs");
  Bytes all = slurp(paths[0]);
  uint64_t mode = s.draw(14);
  MemoryWatch watch(all.size());
  Outcome o = explore(paths, all, mode, false);
  REQUIRE_EQ(o.open, 0);
  REQUIRE_EQ_MSG(o.records, typed.log.size(), "records");
  REQUIRE_EQ_MSG(o.readFailed, 0u, "raw payloads are always readable");
  label(c, o);
  if (o.layouts + o.images + o.audios + o.customs > 0) {
    c.nontrivial(pbt::hashBytes(all.data(), all.size(), mode));
  }
}

PBT_TEST(
    oneBadRecord,
    6000,
    100000,
    "one record of a recording is overwritten with garbage, its header included or not: all other records must read exactly as "
    "written; non-trivial: at least 2 other records; distinct by place") {
  Recording rec;
  RecordingOptions opt;
  opt.maxOps = 25;
  opt.bigPayload = 2000;
  opt.allowChunks = false;
  opt.name = "orig.vrs";
  record(s, c, rec, opt);
  REQUIRE_EQ(rec.status, 0);
  auto paths = chunkPathsOf(c.dir(), "orig.vrs");
  auto chunks = slurpAll(paths);
  Scan scan = physical::scan(chunks);
  if (scan.user.empty()) {
    throw pbt::Discard{};
  }
  size_t victim = s.below(scan.user.size());
  const auto& r = scan.user[victim];
  bool withHeader = s.flip();
  int64_t from = r.offset + (withHeader ? 0 : 32), to = r.offset + r.size;
  std::ostringstream note;
  note << " victim " << from << "-" << to;
  for (int64_t at = from; at < to; at++) {
    int64_t place = at;
    for (auto& b : chunks) {
      if (place < (int64_t)b.size()) {
        b[place] = s.chance(1, 8) ? (uint8_t)s.draw(255) : b[place];
        break;
      }
      place -= b.size();
    }
  }
  if (withHeader && s.flip()) {
    using H = vrs::FileFormat::RecordHeader;
    int64_t place = r.offset;
    Bytes* b = &chunks[0];
    while (place >= (int64_t)b->size()) {
      place -= b->size();
      b++;
    }
    uint32_t v = (uint32_t)s.interesting(32);
    memcpy(b->data() + place + (s.flip() ? offsetof(H, recordSize) : offsetof(H, uncompressedSize)), &v, 4);
  }
  for (size_t k = 0; k < paths.size(); k++) {
    spit(paths[k], chunks[k], chunks[k].size());
  }
  c.note(note.str());
  size_t total = 0;
  for (auto& b : chunks) {
    total += b.size();
  }
  MemoryWatch watch(total);
  vrs::RecordFileReader reader;
  int status = reader.openFile(paths[0]);
  REQUIRE_EQ_MSG(status, 0, "open");
  auto expected = gen::sorted(rec.log);
  REQUIRE_EQ(reader.getIndex().size(), expected.size());
  // read in index order, or in reverse, so that what follows a bad record varies
  bool reverse = s.flip();
  size_t good = 0, bad = 0;
  std::vector<int64_t> offsets;
  for (size_t k = 0; k < expected.size(); k++) {
    size_t i = reverse ? expected.size() - 1 - k : k;
    const auto& info = reader.getIndex()[i];
    CappedCollector collector;
    int st = reader.readRecord(info, &collector);
    if (info.fileOffset == r.offset) {
      bad++;
      continue;
    }
    REQUIRE_MSG(st == 0, "reading an intact record: " << vrs::errorCodeToMessage(st) << " " << expected[i].str());
    REQUIRE_EQ(collector.records.size(), 1u);
    REQUIRE_MSG(
        collector.records[0].sameContent(expected[i]), "intact record: expected " << expected[i].str() << " got " << collector.records[0].str());
    good++;
  }
  REQUIRE_EQ_MSG(bad, 1u, "the damaged record is still in the index");
  if (good >= 2) {
    c.nontrivial(pbt::show(rec.log.size()) + note.str());
  }
  c.label(withHeader ? "with header" : "payload only");
}
