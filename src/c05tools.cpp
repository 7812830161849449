// C05: the command line tool handles corrupted files without crashing
#include <fcntl.h>

#include <iostream>

#include "hostile.h"

// the tool itself
#define main vrsMain
#include <tools/vrs/vrs.cpp>
#undef main

namespace {

int runTool(const std::vector<std::string>& args) {
  std::vector<std::string> all{"/usr/bin/vrs"};
  all.insert(all.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& a : all) {
    argv.push_back(a.data());
  }
  argv.push_back(nullptr);
  fflush(stdout);
  std::cout.flush();
  int saved = dup(1);
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  close(fd);
  TemporaryRecordableInstanceIdsResetter resetter; // as in a process of its own
  int status = vrsMain((int)all.size(), argv.data());
  fflush(stdout);
  std::cout.flush();
  dup2(saved, 1);
  close(saved);
  return status;
}

/// a damaged recording: its path
std::string makeDamaged(pbt::Src& s, pbt::Ctx& c, size_t& size, std::ostringstream& note) {
  std::string path;
  bool hostile = s.chance(2, 3);
  if (hostile || s.flip()) {
    TypedRecording typed;
    makeTyped(s, c, typed, hostile);
    path = typed.path;
  } else {
    Recording rec;
    RecordingOptions opt;
    opt.maxOps = 20;
    opt.bigPayload = 2000;
    opt.allowChunks = false;
    record(s, c, rec, opt);
    REQUIRE_EQ(rec.status, 0);
    path = rec.path;
  }
  auto paths = chunkPathsOf(c.dir(), path.substr(path.rfind('/') + 1));
  auto chunks = slurpAll(paths);
  if (!hostile || s.chance(1, 4)) {
    Scan scan = physical::scan(chunks);
    size_t target = s.below(chunks.size());
    if (target > 0) {
      for (auto& r : scan.user) {
        r.offset -= chunks[0].size();
      }
    }
    mutate(s, chunks[target], scan, note);
    spit(paths[target], chunks[target], chunks[target].size());
  }
  size = 0;
  for (auto& b : chunks) {
    size += b.size();
  }
  return path;
}

/// whether a record claims to expand to an absurd size, which the tools believe: whole records are read at once
bool claimsAbsurdExpansion(const std::string& path) {
  vrs::RecordFileReader reader;
  if (reader.openFile(path) != 0) {
    return false;
  }
  Bytes bytes;
  for (auto& p : reader.getFileChunks()) {
    Bytes b = slurp(p.first);
    bytes.insert(bytes.end(), b.begin(), b.end());
  }
  for (auto& r : reader.getIndex()) {
    vrs::FileFormat::RecordHeader h;
    if (r.fileOffset < 0 || (size_t)r.fileOffset + sizeof(h) > bytes.size()) {
      continue;
    }
    memcpy(&h, bytes.data() + r.fileOffset, sizeof(h));
    if (h.uncompressedSize > kMaxExpand && h.uncompressedSize > h.recordSize) {
      return true;
    }
  }
  return false;
}

} // namespace

PBT_TEST(
    tools,
    4000,
    80000,
    "damaged recordings, and recordings with hostile formats, definitions and payloads, given to the commands of the vrs tool: details, check, checksums, decode, "
    "compare, list, print, copies with filters, extractions, index repair; non-trivial: the command succeeded; distinct by command & file") {
  std::ostringstream note;
  size_t size = 0;
  std::string path = makeDamaged(s, c, size, note);
  uint64_t h = 7;
  for (auto& p : chunkPathsOf(c.dir(), path.substr(path.rfind('/') + 1))) {
    Bytes b = slurp(p);
    h = pbt::hashBytes(b.data(), b.size(), h);
  }
  if (claimsAbsurdExpansion(path)) {
    throw pbt::Discard();
  }
  bool video = false;
  for (auto& p : chunkPathsOf(c.dir(), path.substr(path.rfind('/') + 1))) {
    Bytes b = slurp(p);
    std::string_view text((const char*)b.data(), b.size());
    video = video || text.find("video") != text.npos || text.find("custom_codec") != text.npos;
  }
  size_t count = 1 + s.below(3);
  for (size_t k = 0; k < count; k++) {
    std::string out = c.dir() + "/out" + std::to_string(k);
    std::vector<std::string> args;
    static const char* kCommands[] = {"", "check", "checksum", "checksums", "decode", "record-formats", "list", "print", "print-details", "print-json", "print-json-pretty", "rage", "json-description", "json-pretty-description", "compare", "copy", "copy", "extract-images", "extract-audio", "extract-all", "checksum-verbatim", "hexdump", "debug", "fix-index", "merge"};
    std::string cmd = s.pick(kCommands);
    if (video && (cmd == "decode" || cmd.rfind("extract", 0) == 0)) {
      cmd = "check"; // the frames of videos and custom codecs are allocated from the dimensions declared alone
    }
    if (!cmd.empty()) {
      args.push_back(cmd);
    }
    args.push_back(path);
    if (cmd == "compare") {
      args.push_back(path);
    } else if (cmd == "copy" || cmd == "merge") {
      if (cmd == "merge") {
        args.push_back(path);
      }
      args.push_back("--to");
      args.push_back(out + ".vrs");
      if (s.flip()) {
        args.push_back("--zero");
      }
    } else if (cmd == "extract-images" || cmd == "extract-audio" || cmd == "extract-all") {
      args.push_back("--to");
      args.push_back(out);
      if (cmd == "extract-images" && s.chance(1, 3)) {
        args[0] = "extract-images";
        args.push_back("--raw-images");
      }
    }
    if (s.chance(1, 4)) {
      args.push_back(s.pick({"+", "-"}));
      args.push_back(s.pick({"data", "state", "configuration"}));
    }
    std::string text;
    for (auto& a : args) {
      text += " " + a;
    }
    note << text;
    c.note(note.str());
    int status = 0;
    {
      MemoryWatch watch(size);
      status = runTool(args);
    }
    c.label((cmd.empty() ? std::string("details") : cmd) + (status == 0 ? "" : " failed"));
    if (status == 0) {
      c.nontrivial(pbt::hashStr(cmd, h));
    }
  }
}
