// A file system shim between the C library calls made by the code under test and the kernel: it logs every
// disk operation under a directory (to rebuild the state of the disk at any crash point), and can make any
// of them fail. Linked with -Wl,--wrap=fopen,--wrap=fileno,--wrap=ftruncate.
#pragma once

#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace fsfault {

using Bytes = std::vector<uint8_t>;

struct Op {
  enum Kind { Create, Write, Truncate, Close } kind;
  std::string path;
  int64_t offset = 0; // of a write, new size for truncate
  Bytes data;
};

struct Plan {
  int64_t failAt = -1; // index of the operation to fail
  uint32_t count = 1; // number of consecutive operations to fail (from failAt on)
  bool onlySameKind = false; // with count > 1
  int error = 28; // ENOSPC
  bool partial = false; // a failed write still writes a part
  bool keepLog = true;
  std::string only; // if not empty, only count & fail the operations of that file
  int buffering = 0; // 0: default, 1: none, else: size of the buffer
};

void start(const std::string& prefix, const Plan& plan);
/// stop tracking new files; returns the log
std::vector<Op> stop();
/// number of operations seen since start
int64_t opCount();
/// true if the planned failure happened
bool faultHappened();
std::string describeFault();

/// State of the disk after the given number of operations, the last one possibly cut to that many bytes
std::map<std::string, Bytes> diskState(const std::vector<Op>& log, size_t opCount, int64_t lastCut = -1);
/// Write these files under another directory (same names)
void materialize(const std::map<std::string, Bytes>& files, const std::string& fromDir, const std::string& toDir);

} // namespace fsfault
