// Model based recording: a random plan of streams, records and batches, executed against the writer.
#pragma once

#include <sys/stat.h>

#include <vrs/DiskFile.h>
#include <vrs/FileSpec.h>
#include <vrs/IndexRecord.h>
#include <vrs/NewChunkHandler.h>

#include "vrsgen.h"

namespace gen {

enum class Mode { WriteToFile, Async, AsyncChunked, SplitHead, SplitHeadChunked, Preallocated, COUNT };
inline const char* modeName(Mode m) {
  static const char* kNames[] = {"writeToFile", "async", "asyncChunked", "splitHead", "splitHeadChunked", "preallocated"};
  return kNames[(int)m];
}

struct ChunkLog {
  struct Entry {
    std::string path;
    size_t index;
    bool last;
    int64_t sizeAtNotification;
  };
  std::vector<Entry> entries;
};

class LoggingChunkHandler : public vrs::NewChunkHandler {
 public:
  explicit LoggingChunkHandler(ChunkLog& log) : log_{log} {}
  void newChunk(const std::string& path, size_t index, bool isLast) override {
    struct stat st{};
    log_.entries.push_back({path, index, isLast, stat(path.c_str(), &st) == 0 ? (int64_t)st.st_size : -1});
  }

 private:
  ChunkLog& log_;
};

struct Recording {
  std::vector<std::unique_ptr<GenStream>> streams;
  std::vector<Rec> log; // all records created that must be in the file
  std::map<std::string, std::string> fileTags;
  std::map<StreamId, vrs::StreamTags> tags; // as declared when the stream was attached
  std::map<StreamId, std::string> flavors, serials;
  Mode mode = Mode::WriteToFile;
  std::string path;
  ChunkLog chunkLog;
  std::set<StreamId> lateIds;
  size_t lateStreams = 0, batches = 0, ties = 0, compressedStreams = 0;
  int status = 0; // of the whole creation
  size_t poolSize = 0;
};

struct RecordingOptions {
  size_t maxStreams = 4;
  size_t maxOps = 60;
  bool allowChunks = true; // needs MBs of data
  bool allowLate = true;
  bool allowModes = true;
  bool tags = true;
  bool allowThreads = true;
  size_t bigPayload = 20000;
  std::string name = "f.vrs";
  std::string uriPrefix; // e.g. for another file handler
  std::string uriSuffix;
  std::optional<Mode> forceMode;
  bool plainClock = false;
  bool idGaps = false; // instance ids not always consecutive
  bool quietExtremes = false; // no extreme time values
  bool contentFormats = false; // streams declare content blocks
};

inline GenStream* addStream(pbt::Src& s, Recording& rec, std::ostringstream& note, const RecordingOptions& opt) {
  RecordableTypeId type = genTypeId(s);
  std::string flavor;
  if (vrs::isARecordableClass(type) || s.chance(1, 4)) {
    flavor = s.chance(1, 2) ? "test/flavor" : "test/" + s.ident(6);
  }
  if (opt.idGaps) {
    for (size_t k = s.weighted({4, 2, 1}); k > 0; k--) {
      GenStream(type, flavor, nullptr);
    }
  }
  auto stream = std::make_unique<GenStream>(type, flavor, &rec.log);
  if (opt.tags) {
    for (auto& t : genTags(s)) {
      stream->setTag(t.first, t.second);
    }
    if (s.chance(1, 6)) {
      stream->vrsTags()["vrs_extra_" + s.ident(4)] = s.anyText(40);
    }
  }
  CompressionPreset preset = genPreset(s);
  stream->setCompression(preset);
  rec.compressedStreams += preset != CompressionPreset::None;
  stream->withConfig = s.chance(3, 4);
  stream->withState = s.chance(3, 4);
  stream->configData = s.bytes(genPayloadSize(s, 2000));
  stream->stateData = s.bytes(s.draw(40));
  stream->configVersion = (uint32_t)s.interesting(32);
  if (opt.contentFormats && s.flip()) {
    static const char* kFormats[] = {"audio", "image/jpg", "custom+audio/pcm/int16le", "image+audio", "data_layout"};
    stream->addRecordFormat(s.chance(3, 4) ? vrs::Record::Type::DATA : vrs::Record::Type::STATE, (uint32_t)s.below(3), vrs::RecordFormat(s.pick(kFormats)), {});
  }
  StreamId id = stream->getStreamId();
  vrs::StreamTags tags = stream->getStreamTags();
  rec.tags[id] = tags;
  rec.flavors[id] = flavor;
  rec.serials[id] = stream->getSerialNumber();
  note << id.getNumericName() << "(" << (int)preset << ") ";
  rec.streams.push_back(std::move(stream));
  return rec.streams.back().get();
}

/// Runs a whole random recording
inline void record(pbt::Src& s, pbt::Ctx& c, Recording& rec, const RecordingOptions& opt) {
  std::ostringstream note;
  vrs::TemporaryRecordableInstanceIdsResetter resetter;
  Mode mode = opt.forceMode ? *opt.forceMode : opt.allowModes ? (Mode)s.weighted({4, 4, 1, 4, 1, 2}) : Mode::WriteToFile;
  if (!opt.allowChunks && mode == Mode::AsyncChunked) {
    mode = Mode::Async;
  }
  if (!opt.allowChunks && mode == Mode::SplitHeadChunked) {
    mode = Mode::SplitHead;
  }
  rec.mode = mode;
  rec.path = c.dir() + "/" + opt.name;
  bool bigData = mode == Mode::AsyncChunked || mode == Mode::SplitHeadChunked;
  note << modeName(mode) << " streams: ";
  size_t streamCount = s.chance(1, 20) ? 0 : 1 + s.size(opt.maxStreams - 1);
  Clock clock;
  auto nextTime = [&]() {
    double t = opt.plainClock ? (clock.now += 0.125 * (double)s.draw(8)) : clock.next(s);
    if (t >= Record::kMaxTimestamp || (opt.quietExtremes && (t > 1e9 || t < -1e9))) {
      t = clock.now;
    }
    return t;
  };
  for (size_t k = 0; k < streamCount; k++) {
    GenStream* st = addStream(s, rec, note, opt);
    st->configTime = nextTime();
    st->stateTime = nextTime();
  }
  vrs::RecordFileWriter writer;
  rec.poolSize = opt.allowThreads ? s.weighted({5, 2, 1, 1}) : 0;
  if (rec.poolSize > 0) {
    writer.setCompressionThreadPoolSize(rec.poolSize);
  }
  note << "threads:" << rec.poolSize;
  for (auto& st : rec.streams) {
    writer.addRecordable(st.get());
  }
  if (opt.tags) {
    rec.fileTags = genTags(s);
    if (s.flip()) {
      writer.addTags(rec.fileTags);
    } else {
      for (auto& t : rec.fileTags) {
        writer.setTag(t.first, t.second);
      }
    }
  }
  size_t opCount = bigData ? 6 + s.draw(10) : s.size(opt.maxOps);
  auto makeRecord = [&]() {
    if (rec.streams.empty()) {
      return;
    }
    GenStream* st = rec.streams[s.below(rec.streams.size())].get();
    double ts = nextTime();
    Record::Type type = genType(s);
    uint32_t version = s.chance(1, 5) ? (uint32_t)s.interesting(32) : 1 + (uint32_t)s.draw(2);
    Bytes data = s.bytes(bigData ? s.draw(800000) : genPayloadSize(s, opt.bigPayload));
    Feed feed = genFeed(s);
    size_t sp1 = feed == Feed::OneChunk ? 0 : s.draw(2000), sp2 = feed == Feed::OneChunk ? 0 : s.draw(2000);
    for (size_t k = rec.log.size() > 8 ? rec.log.size() - 8 : 0; k < rec.log.size(); k++) {
      rec.ties += rec.log[k].ts == ts;
    }
    const Record* r = st->make(ts, type, version, data, feed, sp1, sp2);
    REQUIRE(r != nullptr);
    if (note.tellp() < 1500) {
      note << " " << st->getStreamId().getNumericName() << "/" << Record::typeName(type)[0] << "@" << ts << "#" << data.size() << "f" << (int)feed;
    }
  };
  int status = 0;
  auto firstError = [&](int st) {
    if (status == 0) {
      status = st;
    }
  };
  std::string target = opt.uriPrefix + rec.path + opt.uriSuffix;
  if (mode == Mode::WriteToFile) {
    for (auto& st : rec.streams) {
      if (s.chance(3, 4)) {
        st->createConfigurationRecord();
        st->createStateRecord();
      }
    }
    for (size_t k = 0; k < opCount; k++) {
      makeRecord();
    }
    c.note(note.str());
    firstError(writer.writeToFile(target));
    rec.status = status;
    return;
  }
  if (mode == Mode::Preallocated) {
    // a plausible preliminary index: maybe too small, maybe too large
    auto prelim = std::make_unique<std::deque<vrs::IndexRecord::DiskRecordInfo>>();
    size_t n = s.size(200);
    note << " prealloc:" << n;
    for (size_t k = 0; k < n; k++) {
      prelim->emplace_back((double)k, (uint32_t)(100 + k * 7 % 50), StreamId(RecordableTypeId::UnitTest1, (uint16_t)(k % 3)), Record::Type::DATA);
    }
    REQUIRE_EQ(writer.preallocateIndex(std::move(prelim)), 0);
  }
  // records may exist before the file is created
  size_t before = s.size(5);
  for (size_t k = 0; k < before; k++) {
    makeRecord();
  }
  if (mode == Mode::SplitHead || mode == Mode::SplitHeadChunked) {
    firstError(writer.createChunkedFile(
        target, mode == Mode::SplitHeadChunked ? 1 : 0, std::make_unique<LoggingChunkHandler>(rec.chunkLog)));
  } else {
    if (mode == Mode::AsyncChunked) {
      writer.setMaxChunkSizeMB(1);
    }
    firstError(writer.createFileAsync(target));
  }
  for (size_t k = 0; k < opCount && status == 0; k++) {
    uint64_t op = s.draw(19);
    if (op <= 15) {
      makeRecord();
    } else if (op == 16 && opt.allowLate && rec.lateStreams < 3) {
      note << " +late ";
      GenStream* st = addStream(s, rec, note, opt);
      st->configTime = nextTime();
      st->stateTime = nextTime();
      writer.addRecordable(st);
      rec.lateIds.insert(st->getStreamId());
      rec.lateStreams++;
    } else {
      double t = op == 17 ? clock.now - 1 : op == 18 ? clock.now : Record::kMaxTimestamp;
      note << " flush" << (op == 19 ? std::string("*") : pbt::show(t));
      firstError(writer.writeRecordsAsync(t));
      rec.batches++;
    }
  }
  c.note(note.str());
  if (s.flip()) {
    firstError(writer.closeFileAsync());
  }
  firstError(writer.waitForFileClosed());
  rec.status = status;
}

/// the tags as a reader should report them
inline std::map<std::string, std::string> expectedVrsTags(std::map<std::string, std::string> tags) {
  return tags;
}

} // namespace gen
