// A closed recording reads back exactly what was recorded
#pragma once

#include <sys/stat.h>

#include "recording.h"

namespace gen {

using namespace vrs;


inline void checkReadBack(pbt::Src& s, pbt::Ctx& c, Recording& rec, const std::string& openPath) {
  std::vector<Rec> expected = sorted(rec.log);
  RecordFileReader reader;
  int status = reader.openFile(openPath);
  REQUIRE_MSG(status == 0, "open failed: " << errorCodeToMessage(status));
  // (the index of a split file without any record is not recognized as complete)
  REQUIRE(reader.hasIndex() || expected.empty());
  // records
  REQUIRE_EQ(reader.getIndex().size(), expected.size());
  REQUIRE_EQ((size_t)reader.getRecordCount(), expected.size());
  std::vector<Rec> actual = readAll(reader, status);
  REQUIRE_MSG(status == 0, "read failed: " << errorCodeToMessage(status));
  requireSameRecords(expected, actual, "read by index");
  // streams, tags
  std::set<StreamId> ids;
  for (auto& st : rec.streams) {
    ids.insert(st->getStreamId());
  }
  REQUIRE_MSG(ids == reader.getStreams(), "streams: " << ids.size() << " expected, " << reader.getStreams().size() << " found");
  for (auto& st : rec.streams) {
    StreamId id = st->getStreamId();
    REQUIRE_EQ_MSG(reader.getTags(id).user, rec.tags[id].user, "user tags of " << id.getNumericName());
    REQUIRE_EQ_MSG(reader.getTags(id).vrs, rec.tags[id].vrs, "vrs tags of " << id.getNumericName());
    REQUIRE_EQ(reader.getFlavor(id), rec.flavors[id]);
    REQUIRE_EQ(reader.getSerialNumber(id), rec.serials[id]);
    std::map<Record::Type, uint32_t> counts;
    for (auto& r : expected) {
      counts[r.type] += r.id == id ? 1 : 0;
    }
    for (auto t : {Record::Type::DATA, Record::Type::STATE, Record::Type::CONFIGURATION}) {
      REQUIRE_EQ(reader.getRecordCount(id, t), counts[t]);
    }
  }
  REQUIRE_EQ(reader.getStreamTags().size(), ids.size());
  REQUIRE_EQ(reader.getTags(), rec.fileTags);
  // stream players, all records
  {
    Collector all;
    for (StreamId id : reader.getStreams()) {
      reader.setStreamPlayer(id, &all);
    }
    REQUIRE_EQ(reader.readAllRecords(), 0);
    requireSameRecords(expected, all.records, "readAllRecords");
  }
  // the chunks of the file are all there, and account for the whole size
  int64_t total = 0;
  for (auto& chunk : reader.getFileChunks()) {
    struct stat st{};
    REQUIRE_EQ(stat(chunk.first.c_str(), &st), 0);
    REQUIRE_EQ((int64_t)st.st_size, chunk.second);
    total += chunk.second;
  }
  REQUIRE_EQ(total, reader.getTotalSourceSize());
  c.label("chunks=" + std::to_string(std::min<size_t>(reader.getFileChunks().size(), 5)));
  REQUIRE_EQ(reader.closeFile(), 0);
}

inline void count(pbt::Ctx& c, const Recording& rec) {
  c.label(std::string("mode=") + modeName(rec.mode));
  c.label("threads=" + std::to_string(rec.poolSize));
  if (rec.lateStreams) {
    c.label("late streams");
  }
  if (rec.batches) {
    c.label("several batches");
  }
  size_t total = 0;
  for (auto& r : rec.log) {
    total += r.data.size();
  }
  if (rec.log.size() >= 3 && !rec.streams.empty()) {
    uint64_t h = (uint64_t)rec.mode;
    for (auto& r : rec.log) {
      h = pbt::mix64(h ^ pbt::hashBytes(r.data.data(), r.data.size(), (uint64_t)r.id.getTypeId() * 64 + (uint64_t)r.type));
    }
    c.nontrivial(h);
  }
}

} // namespace gen
