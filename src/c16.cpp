// C16: asynchronous disk files store the same bytes as synchronous ones.
#include <aio.h>
#include <errno.h>
#include <unistd.h>

#include <atomic>

#include "diskmodel.h"
#include "readback.h"

using namespace diskmodel;
using vrs::AsyncDiskFile;

// Faults: the n-th call of a kind fails
namespace {
struct Fault {
  std::atomic<int> submit{0}, complete{0}, pwriteError{0}, pwriteShort{0};
  std::atomic<int> fired{0};
} fault;
bool fires(std::atomic<int>& f) {
  int n = f.load();
  if (n <= 0) {
    return false;
  }
  if (--f == 0) {
    fault.fired++;
    return true;
  }
  return false;
}
} // namespace

extern "C" {
int __real_aio_write(struct aiocb* cb);
ssize_t __real_pwrite(int fd, const void* data, size_t size, off_t offset);
int __wrap_aio_write(struct aiocb* cb) {
  if (fires(fault.submit)) {
    errno = EAGAIN;
    return -1;
  }
  if (fires(fault.complete)) {
    cb->aio_fildes = 1000000; // the operation is queued, and fails
  }
  return __real_aio_write(cb);
}
ssize_t __wrap_pwrite(int fd, const void* data, size_t size, off_t offset) {
  if (fires(fault.pwriteError)) {
    errno = ENOSPC;
    return -1;
  }
  if (size > 1 && fires(fault.pwriteShort)) {
    return __real_pwrite(fd, data, size / 2, offset);
  }
  return __real_pwrite(fd, data, size, offset);
}
}

namespace {

string pickS(pbt::Src& s, const vector<string>& v) {
  return s.pick(v);
}
size_t pickN(pbt::Src& s, const vector<size_t>& v) {
  return s.pick(v);
}

struct Config {
  vrs::FileSpec::Extras extras;
  size_t bufferSize = 0;
  bool aio = true;
  string text() const {
    string t;
    for (auto& e : extras) {
      t += (t.empty() ? "?" : "&") + e.first + "=" + e.second;
    }
    return t;
  }
};

Config validConfig(pbt::Src& s) {
  Config config;
  string engine = pickS(s, {"aio", "psync", "sync", "AIO", "PSync", ""});
  if (!engine.empty()) {
    config.extras["ioengine"] = engine;
  }
  config.aio = engine.empty() || engine == "aio" || engine == "AIO";
  bool direct = s.flip();
  if (!direct || s.flip()) {
    config.extras[s.flip() ? "direct" : "directio"] = direct ? pickS(s, {"1", "true"}) : pickS(s, {"0", "false"});
  }
  size_t memAlign = 4096, offsetAlign = 4096;
  if (!direct) {
    if (s.flip()) {
      memAlign = pickN(s, {512, 8, 16, 4096, 64});
      config.extras["mem_align"] = std::to_string(memAlign);
    }
    if (s.flip()) {
      offsetAlign = pickN(s, {512, 1, 4, 4096, 128});
      config.extras["offset_align"] = std::to_string(offsetAlign);
    }
  }
  size_t unit = std::max(memAlign, offsetAlign);
  unit = std::max<size_t>(unit, 512);
  config.bufferSize = unit * pickN(s, {1, 2, 3, 4, 16});
  config.extras["buffer_size"] = config.bufferSize % 1024 == 0 && s.chance(1, 4) ? std::to_string(config.bufferSize / 1024) + "K" : std::to_string(config.bufferSize);
  if (s.flip()) {
    config.extras["buffer_count"] = std::to_string(pickN(s, {1, 2, 3, 8, 0}));
  }
  if (s.flip()) {
    config.extras["iodepth"] = std::to_string(pickN(s, {1, 2, 4, 20, 0}));
  }
  return config;
}

} // namespace

PBT_TEST(
    histories,
    9000,
    300000,
    "as C15's histories of operations, with an asynchronous disk file of any valid configuration (engine, direct or not, buffers, alignments), "
    "against the same model; non-trivial: more than a buffer written, or chunks crossed; distinct by configuration and history") {
  std::ostringstream note;
  fault.submit = fault.complete = fault.pwriteError = fault.pwriteShort = 0;
  Config config = validConfig(s);
  note << config.text() << ": ";
  vrs::FileSpec::Extras openOptions = s.chance(1, 4) ? validConfig(s).extras : config.extras;
  auto stats = history<AsyncDiskFile>(s, c, config.extras, openOptions, config.bufferSize, note);
  c.label("operations", stats.ops);
  c.label("chunk crossings", stats.crossing);
  c.label(config.aio ? "aio" : "psync or sync");
  if (stats.ops > 5) {
    c.nontrivial(note.str());
  }
}

PBT_TEST(
    faults,
    9000,
    250000,
    "writes, seeks and flushes of an asynchronous disk file when one or more writes can't be queued, fail, or are partial; an error must be "
    "reported before or when closing, unless every byte is right, and nothing hangs; non-trivial: a fault happened; distinct by "
    "configuration, operations and faults") {
  std::ostringstream note;
  Config config = validConfig(s);
  note << config.text() << ": ";
  fault.fired = 0;
  fault.submit = s.chance(1, 3) ? 1 + (int)s.draw(6) : 0;
  fault.complete = s.chance(1, 3) ? 1 + (int)s.draw(6) : 0;
  fault.pwriteError = s.chance(1, 4) ? 1 + (int)s.draw(6) : 0;
  fault.pwriteShort = s.chance(1, 4) ? 1 + (int)s.draw(6) : 0;
  note << "faults " << fault.submit << " " << fault.complete << " " << fault.pwriteError << " " << fault.pwriteShort << ": ";
  string path = c.dir() + "/file";
  Bytes model;
  size_t pos = 0;
  bool error = false;
  {
    AsyncDiskFile file;
    REQUIRE_EQ(file.create(path, config.extras), 0);
    size_t count = 1 + s.draw(12);
    for (size_t k = 0; k < count && !error; k++) {
      if (s.chance(1, 5)) {
        pos = s.draw(model.size());
        note << "pos " << pos << "; ";
        c.note(note.str());
        error |= file.setPos((int64_t)pos) != 0;
      } else {
        Bytes data = s.bytes(genSize(s, config.bufferSize));
        note << "write " << data.size() << "; ";
        c.note(note.str());
        error |= file.write(data.data(), data.size()) != 0;
        model.resize(std::max(model.size(), pos + data.size()));
        std::copy(data.begin(), data.end(), model.begin() + pos);
        pos += data.size();
      }
    }
    note << "close";
    c.note(note.str());
    error |= file.close() != 0;
  }
  int fired = fault.fired;
  fault.submit = fault.complete = fault.pwriteError = fault.pwriteShort = 0;
  REQUIRE_MSG(!error || fired > 0, "error without a fault");
  if (!error) {
    sameBytes(damaged::slurp(path), model, "no error reported, file");
  }
  c.label("faults", fired);
  if (fired > 0) {
    c.nontrivial(note.str());
  }
}

PBT_TEST(
    configurations,
    10000,
    300000,
    "arbitrary values for every parameter: creating or opening is refused with an error, or the bytes written are the bytes read; "
    "non-trivial: two parameters or more; distinct by configuration") {
  std::ostringstream note;
  fault.submit = fault.complete = fault.pwriteError = fault.pwriteShort = 0;
  vrs::FileSpec::Extras extras;
  auto number = [&]() {
    string n = s.chance(1, 3) ? std::to_string(s.draw(9000)) : pickS(s, {"512", "0", "1", "4096", "3", "1000", "8", "-1", "", "x", "1e3", "4K", "2KB", "0.5K"});
    return n;
  };
  if (s.flip()) {
    extras["ioengine"] = s.chance(1, 3) ? s.text(6) : pickS(s, {"aio", "sync", "psync"});
  }
  if (s.flip()) {
    extras["direct"] = s.chance(1, 3) ? s.text(4) : pickS(s, {"0", "1", "true", "false", "no"});
  }
  if (s.flip()) {
    extras["mem_align"] = number();
  }
  if (s.flip()) {
    extras["offset_align"] = number();
  }
  extras["buffer_size"] = s.chance(1, 5) ? number() : pickS(s, {"4096", "8192", "65536", "16K", "1000", "12288"});
  extras["buffer_count"] = s.chance(1, 3) ? pickS(s, {"", "-3", "2.5", "x", "1"}) : std::to_string(s.draw(6));
  if (s.flip()) {
    extras["iodepth"] = number();
  }
  for (auto& e : extras) {
    note << e.first << "=" << e.second << " ";
  }
  c.note(note.str());
  string path = c.dir() + "/file";
  AsyncDiskFile file;
  int status = file.create(path, extras);
  c.label(status == 0 ? "accepted" : "refused");
  if (status == 0) {
    Bytes data = s.bytes(s.draw(40000));
    status = file.write(data.data(), data.size());
    int closeStatus = file.close();
    if (status == 0 && closeStatus == 0) {
      sameBytes(damaged::slurp(path), data, "no error reported, file");
      vrs::FileSpec spec;
      spec.fileHandlerName = AsyncDiskFile::staticName();
      spec.chunks = {path};
      spec.extras = extras;
      AsyncDiskFile reader;
      REQUIRE_EQ(reader.openSpec(spec), 0);
      Bytes got(data.size());
      REQUIRE_EQ(reader.read(got.data(), got.size()), 0);
      sameBytes(got, data, "read");
    } else {
      c.label("failed later");
    }
  } else {
    REQUIRE(!file.isOpened());
  }
  if (extras.size() >= 4) {
    c.nontrivial(note.str());
  }
}

PBT_TEST(
    recordings,
    2500,
    60000,
    "recordings of every mode made through an asynchronous disk file, with the configuration in their URI, read back as those of C01, "
    "through either handler; non-trivial: as C01") {
  fault.submit = fault.complete = fault.pwriteError = fault.pwriteShort = 0;
  gen::Recording rec;
  gen::RecordingOptions opt;
  opt.allowChunks = s.chance(1, 25);
  Config config = validConfig(s);
  opt.uriPrefix = "asyncdiskfile:";
  opt.uriSuffix = config.text();
  gen::record(s, c, rec, opt);
  REQUIRE_MSG(rec.status == 0, "recording failed: " << vrs::errorCodeToMessage(rec.status));
  gen::checkReadBack(s, c, rec, rec.path);
  vrs::FileSpec spec;
  REQUIRE_EQ(vrs::RecordFileReader::vrsFilePathToFileSpec(rec.path, spec, true), 0);
  spec.fileHandlerName = AsyncDiskFile::staticName();
  spec.extras = validConfig(s).extras;
  gen::checkReadBack(s, c, rec, spec.toJson());
  gen::count(c, rec);
}
