// An independent reader of the physical file format, from its documented structures only.
#pragma once

#include <cstddef>

#include <vrs/FileFormat.h>

#include "vrsgen.h"

namespace physical {

using Bytes = std::vector<uint8_t>;

struct PhysRecord {
  int64_t offset = 0;
  uint32_t size = 0;
  vrs::FileFormat::RecordHeader header;
};

struct Scan {
  bool headOk = false; // file header, description, and for split heads the index record header, are all there
  bool split = false;
  std::vector<PhysRecord> user; // complete user records, TAGS records excluded
  std::set<vrs::StreamId> tagsRecords; // streams with a complete TAGS record
  bool cutRecord = false; // the data ends within a record
  int64_t endOfRecords = 0; // past the last complete user record
  int64_t firstUser = 0;
  int64_t headEnd = 0; // past the description record, and the index record header of a split head
};

template <class T>
bool getStruct(const Bytes& b, int64_t offset, T& out) {
  if (offset < 0 || offset + (int64_t)sizeof(T) > (int64_t)b.size()) {
    return false;
  }
  memcpy((void*)&out, b.data() + offset, sizeof(T));
  return true;
}

/// scan the concatenation of chunks
inline Scan scan(const std::vector<Bytes>& chunks) {
  Scan s;
  Bytes all;
  for (auto& c : chunks) {
    all.insert(all.end(), c.begin(), c.end());
  }
  vrs::FileFormat::FileHeader fh;
  if (!getStruct(all, 0, fh) || !fh.looksLikeAVRSFile() || fh.descriptionRecordOffset <= 0) {
    return s;
  }
  vrs::FileFormat::RecordHeader h;
  int64_t at = fh.descriptionRecordOffset;
  if (!getStruct(all, at, h) || at + h.recordSize > (int64_t)all.size()) {
    return s;
  }
  at += h.recordSize;
  s.firstUser = at;
  s.headOk = true;
  s.headEnd = at;
  // is there an index record next?
  if (getStruct(all, at, h) && h.recordableTypeId == (int32_t)vrs::RecordableTypeId::VRSIndex) {
    if (h.formatVersion == 3) {
      s.split = true;
      s.headEnd = at + (int64_t)sizeof(h);
      s.headOk = fh.indexRecordOffset == at && at + (int64_t)sizeof(h) <= (int64_t)chunks[0].size();
      at = (int64_t)chunks[0].size();
      s.firstUser = at;
    }
  }
  s.endOfRecords = at;
  while (at < (int64_t)all.size()) {
    if (!getStruct(all, at, h)) {
      s.cutRecord = true;
      break;
    }
    if (h.recordSize < sizeof(h) || at + h.recordSize > (int64_t)all.size()) {
      s.cutRecord = true;
      break;
    }
    if (h.recordableTypeId != (int32_t)vrs::RecordableTypeId::VRSIndex) {
      if (h.getRecordType() == vrs::Record::Type::TAGS) {
        s.tagsRecords.insert(h.getStreamId());
      } else {
        s.user.push_back({at, h.recordSize, h});
      }
      s.endOfRecords = at + h.recordSize;
    } else if (at != s.firstUser) {
      break; // index at the end of the file
    }
    at += h.recordSize;
  }
  return s;
}

} // namespace physical
