// C15: disk files behave as one byte sequence whatever the chunking; atomic files; whole-file helpers.
#include <dirent.h>
#include <sys/stat.h>

#include "diskmodel.h"

using namespace diskmodel;
using vrs::AtomicDiskFile;
using vrs::DiskFile;

namespace {

std::map<string, Bytes> listDir(const string& dir) {
  std::map<string, Bytes> files;
  DIR* d = opendir(dir.c_str());
  REQUIRE(d != nullptr);
  while (dirent* e = readdir(d)) {
    string name = e->d_name;
    if (name != "." && name != "..") {
      files[name] = damaged::slurp(dir + "/" + name);
    }
  }
  closedir(d);
  return files;
}

} // namespace

PBT_TEST(
    chunkedFiles,
    110000,
    700000,
    "a file created in up to 40 operations (write, overwrite, seek, truncate, add chunk), then read and updated in up to 80 operations, with "
    "chunks added, empty or not; bytes, positions, sizes, ends of file and chunks compared with a model in memory after each; non-trivial: 2 "
    "chunks or more and a read or write crossing a chunk; distinct by history") {
  std::ostringstream note;
  vrs::FileSpec::Extras create;
  size_t unit = 4096;
  if (s.chance(1, 3)) {
    unit = s.pick({4096, 100, 1, 0, 512});
    create["io_buffer_size"] = std::to_string(unit);
  }
  auto stats = history<DiskFile>(s, c, create, {}, unit, note);
  c.label("operations", stats.ops);
  c.label("chunks", stats.chunks);
  c.label("chunk crossings", stats.crossing);
  if (stats.chunks >= 2 && stats.crossing > 0) {
    c.nontrivial(note.str());
  }
}

PBT_TEST(
    atomicFiles,
    60000,
    400000,
    "histories of one or two atomic files for few target names, created, written, closed, aborted, replaced, destroyed or reused to read; "
    "the directory compared with a model after each operation, with a temporary file per file being written; non-trivial: a target "
    "replaced or left untouched; distinct by history") {
  std::ostringstream note;
  string dir = c.dir();
  const vector<string> names{"a", "b", "a.vrs"};
  std::map<string, Bytes> model; // what must be there
  for (auto& name : names) {
    if (s.chance(1, 3)) {
      model[name] = s.bytes(s.size(100));
      damaged::spit(dir + "/" + name, model[name], model[name].size());
    }
  }
  struct Writer {
    std::unique_ptr<AtomicDiskFile> file = std::make_unique<AtomicDiskFile>();
    string target; // when writing
    Bytes data;
    int64_t pos = 0;
    bool reading = false;
    string readName;
  };
  Writer w[2];
  bool replaced = false, aborted = false;
  auto check = [&]() {
    auto files = listDir(dir);
    size_t temporary = 0;
    for (auto& f : files) {
      auto known = model.find(f.first);
      if (known == model.end()) {
        temporary++;
        bool expected = false;
        for (auto& x : w) {
          expected |= !x.target.empty() && f.first.find(x.target) == 0;
        }
        REQUIRE_MSG(expected, "unexpected file " << f.first);
      } else {
        sameBytes(f.second, known->second, "file " + f.first);
      }
    }
    for (auto& m : model) {
      REQUIRE_MSG(files.count(m.first) == 1, "no file " << m.first);
    }
    REQUIRE_EQ(temporary, (size_t)(!w[0].target.empty()) + (size_t)(!w[1].target.empty()));
  };
  auto finish = [&](Writer& x) {
    if (!x.target.empty()) {
      replaced |= model.count(x.target) > 0;
      model[x.target] = x.data;
    }
    x.target.clear();
    x.reading = false;
  };
  size_t count = 3 + s.draw(20);
  for (size_t k = 0; k < count; k++) {
    Writer& x = w[s.chance(1, 3) ? 1 : 0];
    switch (s.weighted({4, 6, 4, 2, 1, 2, 1})) {
      case 0: {
        // maybe while another file is being written: it's closed first
        finish(x);
        x.target = s.pick(names);
        note << "create " << x.target << "; ";
        c.note(note.str());
        REQUIRE_EQ(x.file->create(dir + "/" + x.target), 0);
        x.data.clear();
        x.pos = 0;
        break;
      }
      case 1: {
        if (x.target.empty()) {
          break;
        }
        if (s.chance(1, 4)) {
          x.pos = (int64_t)s.draw(x.data.size());
          REQUIRE_EQ(x.file->setPos(x.pos), 0);
        }
        Bytes data = s.bytes(s.size(8000));
        note << "write " << data.size() << " at " << x.pos << "; ";
        REQUIRE_EQ(x.file->write(data.data(), data.size()), 0);
        x.data.resize(std::max(x.data.size(), (size_t)x.pos + data.size()));
        std::copy(data.begin(), data.end(), x.data.begin() + x.pos);
        x.pos += data.size();
        break;
      }
      case 2:
        note << "close; ";
        c.note(note.str());
        REQUIRE_EQ(x.file->close(), 0);
        REQUIRE(!x.file->isOpened());
        finish(x);
        break;
      case 3:
        note << "abort; ";
        c.note(note.str());
        aborted |= !x.target.empty();
        if (x.reading) {
          break;
        }
        x.file->abort();
        REQUIRE(!x.file->isOpened());
        x.target.clear();
        break;
      case 4:
        note << "destroy; ";
        c.note(note.str());
        x.file = std::make_unique<AtomicDiskFile>();
        finish(x);
        break;
      case 5: {
        if (model.empty()) {
          break;
        }
        // the same object is used to read another file
        finish(x); // opening closes
        auto pick = model.begin();
        std::advance(pick, s.below(model.size()));
        note << "open " << pick->first << "; ";
        c.note(note.str());
        REQUIRE_EQ(x.file->open(dir + "/" + pick->first), 0);
        REQUIRE(x.file->isReadOnly());
        Bytes got(pick->second.size());
        REQUIRE_EQ(x.file->read(got.data(), got.size()), 0);
        sameBytes(got, pick->second, "read " + pick->first);
        x.reading = true;
        break;
      }
      default: {
        // a folder that doesn't exist
        if (!x.target.empty()) {
          break;
        }
        note << "bad create; ";
        c.note(note.str());
        REQUIRE(x.file->create(dir + "/nothere/a") != 0);
        REQUIRE(!x.file->isOpened());
        x.reading = false;
        break;
      }
    }
    check();
  }
  for (auto& x : w) {
    x.file.reset();
    finish(x);
  }
  c.note(note.str() + " end");
  check();
  c.label("replaced", replaced);
  c.label("aborted", aborted);
  if (replaced || aborted) {
    c.nontrivial(note.str());
  }
}

PBT_TEST(
    wholeFiles,
    30000,
    250000,
    "contents of 0 to 400 KB (and a few MB now and then) written whole, as text or compressed, read back as each type, with the wrong size, "
    "after the file was cut, extended or modified; non-trivial: 2 bytes or more; distinct by content and damage") {
  string path = c.dir() + "/" + s.ident(10);
  size_t size = s.chance(1, 60) ? s.draw(3000000) : s.chance(1, 6) ? s.draw(400000) : s.size(5000);
  Bytes data = s.bytes(size);
  string text(data.begin(), data.end());
  std::ostringstream note;
  note << size << " bytes ";
  if (s.chance(1, 3)) {
    // there's another, longer or shorter, file
    damaged::spit(path, data, s.draw(data.size()));
  }
  if (s.chance(1, 3)) {
    note << "text ";
    c.note(note.str());
    REQUIRE_EQ(DiskFile::writeTextFile(path, text), 0);
    sameBytes(damaged::slurp(path), data, "text file");
    REQUIRE(DiskFile::readTextFile(path) == text);
    REQUIRE(DiskFile::readTextFile(path + "x").empty());
    REQUIRE(DiskFile::writeTextFile(c.dir() + "/nothere/a", text) != 0);
  } else {
    bool asString = s.flip();
    c.note(note.str());
    REQUIRE_EQ(asString ? DiskFile::writeZstdFile(path, text) : DiskFile::writeZstdFile(path, data.data(), data.size()), 0);
    REQUIRE_EQ(listDir(c.dir()).size(), 1u);
    string outString = "previous";
    vector<char> outVector{1, 2};
    Bytes exact(data.size() + 10, 0xEE);
    REQUIRE_EQ(DiskFile::readZstdFile(path, outString), 0);
    REQUIRE(outString == text);
    REQUIRE_EQ(DiskFile::readZstdFile(path, outVector), 0);
    REQUIRE(outVector.size() == data.size() && std::equal(data.begin(), data.end(), (const uint8_t*)outVector.data()));
    REQUIRE_EQ(DiskFile::readZstdFile(path, exact.data(), data.size()), 0);
    REQUIRE(std::equal(data.begin(), data.end(), exact.begin()));
    REQUIRE_EQ((int)exact[data.size()], 0xEE);
    size_t wrong = s.flip() ? data.size() + 1 + s.draw(8) : data.empty() ? 1 : s.draw(data.size() - 1);
    note << "wrong size " << wrong;
    c.note(note.str());
    REQUIRE_MSG(DiskFile::readZstdFile(path, exact.data(), wrong) != 0, "reading " << wrong << " bytes of " << data.size() << " succeeded");
    REQUIRE(DiskFile::readZstdFile(path + "x", outString) != 0);
    REQUIRE(DiskFile::writeZstdFile(c.dir() + "/nothere/a", text) != 0);
    // damage
    Bytes file = damaged::slurp(path);
    if (!file.empty() && file.size() < 2000 && s.chance(2, 3)) {
      uint64_t kind = s.draw(2);
      bool mustFail = true, sameContent = true;
      if (kind == 0) {
        size_t cut = 1 + s.draw(file.size() - 1);
        note << " cut by " << cut;
        file.resize(file.size() - cut);
        mustFail = !file.empty();
      } else if (kind == 1) {
        Bytes more = s.bytes(1 + s.size(30));
        note << " extended by " << more.size();
        file.insert(file.end(), more.begin(), more.end());
        mustFail = false;
      } else {
        for (size_t n = 1 + s.draw(3); n > 0; n--) {
          size_t at = s.chance(1, 2) ? s.draw(std::min<size_t>(file.size() - 1, 20)) : s.draw(file.size() - 1);
          file[at] = (uint8_t)s.interesting(8);
          note << " [" << at << "]=" << (int)file[at];
        }
        mustFail = false;
        sameContent = false;
      }
      c.note(note.str());
      damaged::spit(path, file, file.size());
      int status = DiskFile::readZstdFile(path, outString);
      REQUIRE_MSG(!mustFail || status != 0, "reading a damaged file succeeded");
      REQUIRE(status != 0 || !sameContent || file.empty() || outString == text);
      status = DiskFile::readZstdFile(path, exact.data(), data.size());
      REQUIRE_MSG(!mustFail || status != 0, "reading a damaged file succeeded");
      REQUIRE_EQ((int)exact[data.size()], 0xEE);
    }
  }
  if (size >= 2) {
    c.nontrivial(note.str() + std::to_string(pbt::hashBytes(data.data(), data.size())));
  }
}
