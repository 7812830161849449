#include "fsfault.h"

#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <mutex>

extern "C" FILE* __real_fopen(const char* path, const char* mode);
extern "C" int __real_fileno(FILE* f);
extern "C" int __real_ftruncate(int fd, off_t size);

namespace fsfault {
namespace {

std::mutex mtx;
bool active = false;
std::string prefix;
Plan plan;
std::vector<Op> ops;
int64_t count = 0;
bool happened = false;
std::string faultText;
std::map<FILE*, int> fds;
std::map<int, std::string> paths;
int failKind = -1;
uint32_t failedCount = 0;

struct Cookie {
  int fd;
  std::string path;
};

const char* kKinds[] = {"create", "write", "truncate", "close"};

// returns true if this operation must fail
bool onOp(Op::Kind kind, const std::string& path, int64_t offset, const void* data, size_t size, size_t& writeSize) {
  std::lock_guard<std::mutex> lock(mtx);
  writeSize = size;
  if (!active) {
    return false;
  }
  bool counted = plan.only.empty() || plan.only == path;
  int64_t n = counted ? count++ : -1;
  bool fails = false;
  if (counted && plan.failAt >= 0 && n >= plan.failAt && failedCount < plan.count) {
    if (!plan.onlySameKind || failKind < 0 || failKind == kind) {
      fails = true;
      failKind = kind;
      failedCount++;
      happened = true;
      if (faultText.empty()) {
        faultText = std::string(kKinds[kind]) + " #" + std::to_string(n) + " of " + path.substr(path.rfind('/') + 1) + " at " +
            std::to_string(offset) + ", " + std::to_string(size) + " bytes, x" + std::to_string(plan.count) + ", errno " +
            std::to_string(plan.error);
      }
      writeSize = kind == Op::Write && plan.partial ? size / 2 : 0;
    }
  }
  if (plan.keepLog && (!fails || writeSize > 0)) {
    Op op;
    op.kind = kind;
    op.path = path;
    op.offset = offset;
    if (kind == Op::Write) {
      op.data.assign((const uint8_t*)data, (const uint8_t*)data + writeSize);
    }
    ops.push_back(std::move(op));
  }
  return fails;
}

ssize_t cookieRead(void* c, char* buf, size_t size) {
  return ::read(((Cookie*)c)->fd, buf, size);
}

ssize_t cookieWrite(void* c, const char* buf, size_t size) {
  Cookie* k = (Cookie*)c;
  off_t at = ::lseek(k->fd, 0, SEEK_CUR);
  size_t writeSize = size;
  bool fails = onOp(Op::Write, k->path, at, buf, size, writeSize);
  size_t done = 0;
  while (done < writeSize) {
    ssize_t n = ::write(k->fd, buf + done, writeSize - done);
    if (n <= 0) {
      break;
    }
    done += n;
  }
  if (fails) {
    errno = plan.error;
  }
  return (ssize_t)done; // short or zero: error
}

int cookieSeek(void* c, off64_t* offset, int whence) {
  off64_t r = ::lseek64(((Cookie*)c)->fd, *offset, whence);
  if (r < 0) {
    return -1;
  }
  *offset = r;
  return 0;
}

int cookieClose(void* c) {
  Cookie* k = (Cookie*)c;
  size_t ignored = 0;
  bool fails = onOp(Op::Close, k->path, 0, nullptr, 0, ignored);
  int r = ::close(k->fd);
  {
    std::lock_guard<std::mutex> lock(mtx);
    paths.erase(k->fd);
    for (auto it = fds.begin(); it != fds.end();) {
      it = it->second == k->fd ? fds.erase(it) : std::next(it);
    }
  }
  delete k;
  if (fails) {
    errno = plan.error;
    return -1;
  }
  return r;
}

} // namespace

FILE* open(const char* path, const char* mode) {
  {
    std::lock_guard<std::mutex> lock(mtx);
    if (!active || strncmp(path, prefix.c_str(), prefix.size()) != 0) {
      return nullptr;
    }
  }
  bool write = mode[0] == 'w', update = strchr(mode, '+') != nullptr;
  if (mode[0] == 'a') {
    return nullptr;
  }
  if (write) {
    size_t ignored = 0;
    if (onOp(Op::Create, path, 0, nullptr, 0, ignored)) {
      errno = plan.error;
      return nullptr;
    }
  }
  int flags = write ? O_CREAT | O_TRUNC | (update ? O_RDWR : O_WRONLY) : update ? O_RDWR : O_RDONLY;
  int fd = ::open(path, flags, 0644);
  if (fd < 0) {
    return nullptr;
  }
  Cookie* k = new Cookie{fd, path};
  cookie_io_functions_t io{cookieRead, cookieWrite, cookieSeek, cookieClose};
  FILE* f = fopencookie(k, mode, io);
  if (f == nullptr) {
    ::close(fd);
    delete k;
    return nullptr;
  }
  if (plan.buffering == 1) {
    setvbuf(f, nullptr, _IONBF, 0);
  } else if (plan.buffering > 1) {
    setvbuf(f, nullptr, _IOFBF, plan.buffering);
  }
  std::lock_guard<std::mutex> lock(mtx);
  fds[f] = fd;
  paths[fd] = path;
  return f;
}

void start(const std::string& p, const Plan& pl) {
  std::lock_guard<std::mutex> lock(mtx);
  prefix = p;
  plan = pl;
  ops.clear();
  count = 0;
  happened = false;
  faultText.clear();
  failKind = -1;
  failedCount = 0;
  active = true;
}

std::vector<Op> stop() {
  std::lock_guard<std::mutex> lock(mtx);
  active = false;
  return std::move(ops);
}

int64_t opCount() {
  std::lock_guard<std::mutex> lock(mtx);
  return count;
}

bool faultHappened() {
  std::lock_guard<std::mutex> lock(mtx);
  return happened;
}

std::string describeFault() {
  std::lock_guard<std::mutex> lock(mtx);
  return faultText;
}

std::map<std::string, Bytes> diskState(const std::vector<Op>& log, size_t opCount, int64_t lastCut) {
  std::map<std::string, Bytes> files;
  for (size_t k = 0; k < opCount && k < log.size(); k++) {
    const Op& op = log[k];
    switch (op.kind) {
      case Op::Create:
        files[op.path].clear();
        break;
      case Op::Write: {
        Bytes& f = files[op.path];
        size_t n = op.data.size();
        if (lastCut >= 0 && k + 1 == opCount && (size_t)lastCut < n) {
          n = (size_t)lastCut;
        }
        if (n > 0) {
          if (f.size() < op.offset + n) {
            f.resize(op.offset + n);
          }
          memcpy(f.data() + op.offset, op.data.data(), n);
        }
        break;
      }
      case Op::Truncate:
        files[op.path].resize(op.offset);
        break;
      default:
        break;
    }
  }
  return files;
}

void materialize(const std::map<std::string, Bytes>& files, const std::string& fromDir, const std::string& toDir) {
  ::mkdir(toDir.c_str(), 0755);
  for (auto& f : files) {
    std::string path = toDir + f.first.substr(fromDir.size());
    FILE* out = __real_fopen(path.c_str(), "wb");
    if (out != nullptr) {
      if (!f.second.empty()) {
        fwrite(f.second.data(), 1, f.second.size(), out);
      }
      fclose(out);
    }
  }
}

} // namespace fsfault

extern "C" FILE* __wrap_fopen(const char* path, const char* mode) {
  errno = 0;
  FILE* f = fsfault::open(path, mode);
  if (f != nullptr || errno != 0) {
    return f;
  }
  return __real_fopen(path, mode);
}

extern "C" int __wrap_fileno(FILE* f) {
  {
    std::lock_guard<std::mutex> lock(fsfault::mtx);
    auto it = fsfault::fds.find(f);
    if (it != fsfault::fds.end()) {
      return it->second;
    }
  }
  return __real_fileno(f);
}

extern "C" int __wrap_ftruncate(int fd, off_t size) {
  std::string path;
  {
    std::lock_guard<std::mutex> lock(fsfault::mtx);
    auto it = fsfault::paths.find(fd);
    if (it != fsfault::paths.end()) {
      path = it->second;
    }
  }
  if (!path.empty()) {
    size_t ignored = 0;
    if (fsfault::onOp(fsfault::Op::Truncate, path, size, nullptr, 0, ignored)) {
      errno = fsfault::plan.error;
      return -1;
    }
  }
  return __real_ftruncate(fd, size);
}
