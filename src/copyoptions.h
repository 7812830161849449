// Options and tags of copies.
#pragma once

#include <vrs/utils/FilterCopy.h>

#include "filtermodel.h"

namespace copies {

using namespace filters;
using namespace vrs::utils;

struct Tags {
  map<string, string> file;
  map<StreamId, StreamTags> streams;
};

inline Tags tagsOf(RecordFileReader& r) {
  Tags t;
  t.file = r.getTags();
  for (auto id : r.getStreams()) {
    t.streams[id] = r.getTags(id);
  }
  return t;
}

/// ids given by a copy: the nth stream of each type
inline map<StreamId, StreamId> mapIds(const set<StreamId>& ids) {
  map<StreamId, StreamId> res;
  map<RecordableTypeId, uint16_t> last;
  for (auto id : ids) {
    res[id] = StreamId(id.getTypeId(), ++last[id.getTypeId()]);
  }
  return res;
}

inline void genOptions(pbt::Src& s, CopyOptions& o, std::ostringstream& what, bool chunks) {
  o.showProgress = false;
  o.compressionPoolSize = s.weighted({4, 2, 1, 1});
  o.preallocateIndex = s.flip();
  if (s.chance(3, 4)) {
    o.setCompressionPreset(genPreset(s));
  }
  if (s.chance(1, 4)) {
    o.graceWindow = 0.125 * (double)s.draw(40);
  }
  if (s.chance(1, 4)) {
    o.setDefaultCompressionPreset(genPreset(s));
  }
  if (chunks) {
    o.maxChunkSizeMB = s.flip() ? 1 : 0;
  }
  what << "threads:" << o.compressionPoolSize << " preset:" << (int)o.getCompression() << (o.preallocateIndex ? " prealloc " : " ")
       << "chunks:" << o.maxChunkSizeMB << " ";
}

struct Delegate : public ThrottledFileDelegate {
  explicit Delegate(bool prealloc) : prealloc_{prealloc} {}
  bool shouldPreallocateIndex() const override {
    return prealloc_;
  }
  bool prealloc_;
};

inline void requireTags(RecordFileReader& r, const Tags& expected) {
  REQUIRE_EQ(r.getTags(), expected.file);
  set<StreamId> ids;
  for (auto& t : expected.streams) {
    ids.insert(t.first);
  }
  REQUIRE(ids == r.getStreams());
  for (auto& t : expected.streams) {
    REQUIRE_EQ_MSG(r.getTags(t.first).user, t.second.user, "user tags of " << t.first.getNumericName());
    auto vrs = r.getTags(t.first).vrs, reference = t.second.vrs;
    if (t.second.vrs.count("VRS_Serial_Number") == 0) {
      vrs.erase("VRS_Serial_Number"); // lost by a truncation: there is a new one
      vrs.erase("VRS_Original_Recordable_Name");
      reference.erase("VRS_Original_Recordable_Name");
      if (t.second.vrs.count("VRS_Recordable_Flavor") == 0) {
        vrs.erase("VRS_Recordable_Flavor");
      }
    }
    REQUIRE_EQ_MSG(vrs, reference, "vrs tags of " << t.first.getNumericName());
  }
}

} // namespace copies
