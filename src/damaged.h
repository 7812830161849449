// Helpers to examine damaged recordings: what a reader recovers against the records physically there.
#pragma once

#include <dirent.h>
#include <unistd.h>
#include <fstream>

#include "fsfault.h"
#include "physical.h"
#include "recording.h"

using namespace gen;
using namespace vrs;
using physical::Scan;

namespace damaged {

inline Bytes slurp(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  return Bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

inline void spit(const std::string& path, const Bytes& b, size_t n) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write((const char*)b.data(), (std::streamsize)n);
}

using Key = std::tuple<StreamId, Record::Type, double, uint32_t, Bytes>;
using Expected = std::map<Key, size_t>;

inline Expected index(const std::vector<Rec>& log) {
  Expected e;
  for (auto& r : log) {
    e[Key(r.id, r.type, r.ts, r.version, r.data)]++;
  }
  return e;
}

inline std::vector<std::string> chunkPathsOf(const std::string& dir, const std::string& name) {
  // f.vrs, f.vrs_1, f.vrs_2...
  std::vector<std::string> paths;
  std::string base = dir + "/" + name;
  struct stat st{};
  if (stat(base.c_str(), &st) == 0) {
    paths.push_back(base);
  }
  for (size_t k = 1; stat((base + "_" + std::to_string(k)).c_str(), &st) == 0; k++) {
    paths.push_back(base + "_" + std::to_string(k));
  }
  return paths;
}

inline std::vector<Bytes> slurpAll(const std::vector<std::string>& paths) {
  std::vector<Bytes> r;
  for (auto& p : paths) {
    r.push_back(slurp(p));
  }
  return r;
}

inline std::vector<Rec> readRecovered(RecordFileReader& reader, const Scan& scan, const Expected& all, const std::string& what) {
  int status = 0;
  std::vector<Rec> recs = readAll(reader, status);
  REQUIRE_MSG(status == 0, what << ": reading a recovered record failed: " << errorCodeToMessage(status) << " after " << recs.size());
  REQUIRE_EQ_MSG(recs.size(), scan.user.size(), what << ": number of recovered records vs. complete ones on disk");
  Expected seen;
  for (auto& r : recs) {
    Key k(r.id, r.type, r.ts, r.version, r.data);
    auto it = all.find(k);
    REQUIRE_MSG(it != all.end(), what << ": recovered a record never written: " << r.str());
    REQUIRE_MSG(++seen[k] <= it->second, what << ": record recovered more than once: " << r.str());
  }
  // and they are the records physically there, in time order
  auto phys = scan.user;
  std::stable_sort(phys.begin(), phys.end(), [](const physical::PhysRecord& a, const physical::PhysRecord& b) {
    return a.header.timestamp != b.header.timestamp ? a.header.timestamp < b.header.timestamp : a.header.getStreamId() < b.header.getStreamId();
  });
  for (size_t k = 0; k < recs.size(); k++) {
    REQUIRE_MSG(
        recs[k].ts == phys[k].header.timestamp && recs[k].id == phys[k].header.getStreamId() && recs[k].type == phys[k].header.getRecordType() &&
            recs[k].version == phys[k].header.formatVersion,
        what << ": recovered record #" << k << " is " << recs[k].str() << " instead of the one at " << phys[k].offset);
  }
  return recs;
}

/// Check a damaged file; returns the number of records recovered
inline size_t checkDamaged(
    pbt::Src& s,
    pbt::Ctx& c,
    const std::string& dir,
    const std::string& name,
    const Expected& all,
    const std::map<StreamId, StreamTags>& tags,
    const std::set<StreamId>& late,
    const std::map<std::string, std::string>& fileTags,
    bool fix,
    const std::string& what,
    int64_t minHead = 0) {
  auto paths = chunkPathsOf(dir, name);
  auto before = slurpAll(paths);
  if (paths.empty()) {
    return 0;
  }
  Scan scan = physical::scan(before);
  if (paths[0] != dir + "/" + name || (int64_t)before[0].size() < minHead) {
    scan.headOk = false;
  }
  std::vector<Rec> recs;
  {
    RecordFileReader reader;
    int status = reader.openFile(dir + "/" + name);
    if (!scan.headOk) {
      c.label(status == 0 ? "no usable head: open ok" : "no usable head: open refused");
      return 0; // cut within the file description
    }
    if (status != 0) {
      REQUIRE_MSG(scan.user.empty(), what << ": open failed: " << errorCodeToMessage(status) << ", " << scan.user.size() << " complete records lost");
      c.label("no record, open refused");
      return 0;
    }
    recs = readRecovered(reader, scan, all, what);
    for (auto& t : tags) {
      // a late stream's tags are in a record of their own
      if (reader.getStreams().count(t.first) && (!late.count(t.first) || scan.tagsRecords.count(t.first))) {
        REQUIRE_EQ_MSG(reader.getTags(t.first).user, t.second.user, what << ": tags of " << t.first.getNumericName());
        REQUIRE_EQ_MSG(reader.getTags(t.first).vrs, t.second.vrs, what << ": tags of " << t.first.getNumericName());
      }
    }
    REQUIRE_EQ_MSG(reader.getTags(), fileTags, what);
    c.label(reader.hasIndex() ? "index complete" : "index rebuilt");
  }
  // opening for reading changes nothing
  REQUIRE_MSG(slurpAll(chunkPathsOf(dir, name)) == before, what << ": opening a file for reading modified it");
  if (!fix) {
    return recs.size();
  }
  bool hadIndex = false;
  {
    RecordFileReader reader;
    int status = reader.openFile(dir + "/" + name, true);
    REQUIRE_MSG(status == 0, what << ": open with index fix failed: " << errorCodeToMessage(status));
    auto recs2 = readRecovered(reader, scan, all, what + ", while fixing");
    requireSameRecords(recs, recs2, what + ": records while fixing the index");
    hadIndex = reader.hasIndex();
  }
  auto fixed = slurpAll(chunkPathsOf(dir, name));
  {
    RecordFileReader reader;
    int status = reader.openFile(dir + "/" + name);
    REQUIRE_MSG(status == 0, what << ": open of the fixed file failed: " << errorCodeToMessage(status));
    REQUIRE_MSG(reader.hasIndex() || recs.empty(), what << ": fixed file still has no complete index");
    auto recs2 = readAll(reader, status);
    REQUIRE_EQ_MSG(status, 0, what << ": fixed file");
    requireSameRecords(recs, recs2, what + ": records after the index was fixed");
    for (auto& t : tags) {
      // a late stream's tags are in a record of their own
      if (reader.getStreams().count(t.first) && (!late.count(t.first) || scan.tagsRecords.count(t.first))) {
        REQUIRE_EQ_MSG(reader.getTags(t.first).user, t.second.user, what << ": fixed file");
        REQUIRE_EQ_MSG(reader.getTags(t.first).vrs, t.second.vrs, what << ": fixed file");
      }
    }
    REQUIRE_EQ_MSG(reader.getTags(), fileTags, what);
  }
  if (!recs.empty()) {
    RecordFileReader reader;
    REQUIRE_EQ_MSG(reader.openFile(dir + "/" + name, true), 0, what);
    REQUIRE_MSG(reader.hasIndex(), what);
    reader.closeFile();
    REQUIRE_MSG(slurpAll(chunkPathsOf(dir, name)) == fixed, what << ": fixing the index a second time changed the file");
  }
  c.label(hadIndex ? "fix: nothing to do" : "fixed");
  return recs.size();
}

inline bool isAppend(const std::vector<fsfault::Op>& log, size_t k) {
  int64_t size = 0;
  for (size_t n = 0; n < k; n++) {
    if (log[n].path == log[k].path) {
      size = log[n].kind == fsfault::Op::Create ? 0
          : log[n].kind == fsfault::Op::Write   ? std::max<int64_t>(size, log[n].offset + (int64_t)log[n].data.size())
          : log[n].kind == fsfault::Op::Truncate ? log[n].offset
                                                 : size;
    }
  }
  return log[k].offset == size;
}

inline void removeAll(const std::string& dir) {
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") {
        unlink((dir + "/" + n).c_str());
      }
    }
    closedir(d);
  }
}

} // namespace damaged

using namespace damaged;
