// Shared generators, recording drivers and readers for VRS files.
#pragma once

#include <atomic>
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <vector>

#include <vrs/DataSource.h>
#include <vrs/ErrorCode.h>
#include <vrs/RecordFileReader.h>
#include <vrs/RecordFileWriter.h>
#include <vrs/Recordable.h>
#include <vrs/StreamPlayer.h>
#include <vrs/WriteFileHandler.h>

#include "pbt.h"

namespace pbt {
inline std::string show(vrs::StreamId id) {
  return id.getNumericName();
}
inline std::string show(vrs::Record::Type t) {
  return vrs::Record::typeName(t);
}
} // namespace pbt

namespace gen {

using Bytes = std::vector<uint8_t>;
using vrs::CompressionPreset;
using vrs::Record;
using vrs::RecordableTypeId;
using vrs::StreamId;

/// One record, as it should be found in a file.
struct Rec {
  StreamId id;
  Record::Type type = Record::Type::DATA;
  double ts = 0;
  uint32_t version = 0;
  Bytes data;
  uint64_t seq = 0; // creation order within the stream

  std::string str() const {
    return id.getNumericName() + "/" + Record::typeName(type) + "@" + pbt::show(ts) + "v" + std::to_string(version) + pbt::show(data);
  }
  bool sameContent(const Rec& o) const {
    return id == o.id && type == o.type && ts == o.ts && version == o.version && data == o.data;
  }
};

inline bool recordOrder(const Rec& a, const Rec& b) {
  if (a.ts != b.ts) {
    return a.ts < b.ts;
  }
  if (!(a.id == b.id)) {
    return a.id < b.id;
  }
  return a.seq < b.seq;
}

/// compares a list of records in order
inline void requireSameRecords(const std::vector<Rec>& expected, const std::vector<Rec>& actual, const std::string& what) {
  size_t n = std::min(expected.size(), actual.size());
  for (size_t k = 0; k < n; k++) {
    REQUIRE_MSG(
        expected[k].sameContent(actual[k]),
        what << ": record #" << k << " expected " << expected[k].str() << " got " << actual[k].str() << " (" << expected.size()
             << " expected, " << actual.size() << " found)");
  }
  REQUIRE_MSG(
      expected.size() == actual.size(),
      what << ": expected " << expected.size() << " records, found " << actual.size() << "; first "
           << (expected.size() > n ? "missing " + expected[n].str() : "extra " + actual[n].str()));
}

/// payload written directly to the file
class DirectPayload : public vrs::DirectWriteRecordData {
 public:
  explicit DirectPayload(Bytes data, size_t pieces = 1) : data_{std::move(data)}, pieces_{pieces} {}
  size_t getDataSize() const override {
    return data_.size();
  }
  int write(vrs::WriteFileHandler& file) const override {
    size_t done = 0;
    for (size_t k = 0; k < pieces_; k++) {
      size_t end = k + 1 == pieces_ ? data_.size() : data_.size() * (k + 1) / pieces_;
      if (end > done || k + 1 == pieces_) {
        int status = file.write(data_.data() + done, end - done);
        if (status != 0) {
          return status;
        }
      }
      done = end;
    }
    return 0;
  }

 private:
  Bytes data_;
  size_t pieces_;
};

/// How a record's payload is handed to the library
enum class Feed { OneChunk, TwoChunks, ThreeChunks, Direct, DirectWithHead, Strided, COUNT };

class GenStream : public vrs::Recordable {
 public:
  GenStream(RecordableTypeId typeId, const std::string& flavor, std::vector<Rec>* log, std::mutex* mutex = nullptr)
      : Recordable(typeId, flavor), log_{log}, mutex_{mutex} {
    configData = Bytes{1, 2, 3};
  }
  std::map<std::string, std::string>& vrsTags() {
    return getVRSTags();
  }

  const Record* createConfigurationRecord() override {
    return withConfig ? make(configTime, Record::Type::CONFIGURATION, configVersion, configData, Feed::OneChunk) : nullptr;
  }
  const Record* createStateRecord() override {
    return withState ? make(stateTime, Record::Type::STATE, stateVersion, stateData, Feed::OneChunk) : nullptr;
  }

  const Record* make(double ts, Record::Type type, uint32_t version, const Bytes& data, Feed feed, size_t split1 = 0, size_t split2 = 0) {
    std::unique_lock<std::mutex> lock;
    if (mutex_ != nullptr) {
      lock = std::unique_lock<std::mutex>(*mutex_);
    }
    const Record* r = nullptr;
    split1 = data.empty() ? 0 : split1 % (data.size() + 1);
    split2 = data.empty() ? 0 : split2 % (data.size() + 1);
    if (split1 > split2) {
      std::swap(split1, split2);
    }
    const uint8_t* p = data.data();
    switch (feed) {
      case Feed::TwoChunks:
        r = createRecord(
            ts, type, version, vrs::DataSource(vrs::DataSourceChunk(p, split1), vrs::DataSourceChunk(p + split1, data.size() - split1)));
        break;
      case Feed::ThreeChunks:
        r = createRecord(
            ts,
            type,
            version,
            vrs::DataSource(
                vrs::DataSourceChunk(p, split1),
                vrs::DataSourceChunk(p + split1, split2 - split1),
                vrs::DataSourceChunk(p + split2, data.size() - split2)));
        break;
      case Feed::Direct:
        r = createUncompressedRecord(
            ts, type, version, vrs::DataSource(), std::make_unique<DirectPayload>(data, 1 + split1 % 3));
        break;
      case Feed::DirectWithHead:
        r = createUncompressedRecord(
            ts,
            type,
            version,
            vrs::DataSource(vrs::DataSourceChunk(p, split1)),
            std::make_unique<DirectPayload>(Bytes(data.begin() + split1, data.end()), 1 + split2 % 3));
        break;
      case Feed::Strided: {
        // lay the payload out in memory with gaps between rows
        size_t block = 1 + split1 % 64;
        size_t rows = data.size() / block;
        size_t stride = block + split2 % 17;
        Bytes spread(rows * stride + 1, 0xEE);
        for (size_t k = 0; k < rows; k++) {
          memcpy(spread.data() + k * stride, p + k * block, block);
        }
        size_t tail = rows * block;
        vrs::NonContiguousChunk chunk(spread.data(), block, rows, stride);
        r = createRecord(ts, type, version, vrs::DataSource(chunk, vrs::DataSourceChunk(p + tail, data.size() - tail)));
        break;
      }
      default:
        r = createRecord(ts, type, version, vrs::DataSource(vrs::DataSourceChunk(p, data.size())));
        break;
    }
    if (log_ != nullptr) {
      Rec rec;
      rec.id = getStreamId();
      rec.type = type;
      rec.ts = ts;
      rec.version = version;
      rec.data = data;
      rec.seq = seq_++;
      log_->push_back(std::move(rec));
    }
    return r;
  }

  bool withConfig = true, withState = true;
  double configTime = 0, stateTime = 0;
  uint32_t configVersion = 1, stateVersion = 1;
  Bytes configData, stateData;

 private:
  std::vector<Rec>* log_;
  std::mutex* mutex_;
  uint64_t seq_ = 0;
};

/// A mix of device types and flavored classes, so that flavors, instances, and type searches matter
inline RecordableTypeId genTypeId(pbt::Src& s) {
  static const RecordableTypeId kTypes[] = {
      RecordableTypeId::UnitTestRecordableClass,
      RecordableTypeId::UnitTest1,
      RecordableTypeId::UnitTest2,
      RecordableTypeId::ForwardCameraRecordableClass,
      RecordableTypeId::ImuRecordableClass,
      RecordableTypeId::SampleDevice,
      RecordableTypeId::ImageStream,
      RecordableTypeId::AudioStream};
  return s.pick(kTypes);
}

inline std::map<std::string, std::string> genTags(pbt::Src& s, size_t maxTags = 4) {
  std::map<std::string, std::string> tags;
  size_t n = s.size(maxTags);
  for (size_t k = 0; k < n; k++) {
    std::string name = s.chance(1, 5) ? s.anyText(20) : s.ident(8);
    tags[name] = s.chance(1, 20) ? s.anyText(3000) : s.anyText(30);
  }
  return tags;
}

inline CompressionPreset genPreset(pbt::Src& s) {
  static const CompressionPreset kPresets[] = {
      CompressionPreset::None,
      CompressionPreset::Lz4Fast,
      CompressionPreset::ZstdFaster,
      CompressionPreset::ZstdLight,
      CompressionPreset::ZstdFast,
      CompressionPreset::ZstdMedium,
      CompressionPreset::Lz4Tight};
  return s.pick(kPresets);
}

inline size_t genPayloadSize(pbt::Src& s, size_t big = 20000) {
  switch (s.draw(7)) {
    case 0:
      return s.draw(4);
    case 1:
    case 2:
      return s.draw(120);
    case 3: // around the compression threshold
      return 240 + s.draw(30);
    case 4:
    case 5:
      return s.draw(1500);
    case 6:
      return s.size(big);
    default:
      return s.draw(64);
  }
}

inline Record::Type genType(pbt::Src& s) {
  static const Record::Type kTypes[] = {
      Record::Type::DATA, Record::Type::DATA, Record::Type::DATA, Record::Type::CONFIGURATION, Record::Type::STATE};
  return s.pick(kTypes);
}

inline Feed genFeed(pbt::Src& s) {
  return (Feed)s.weighted({6, 2, 2, 2, 2, 1});
}

/// time stamps: collisions are frequent, order is mostly increasing
struct Clock {
  double now = 0;
  double next(pbt::Src& s) {
    switch (s.draw(9)) {
      case 0:
        return now; // same time
      case 1: // out of order
        return now - (double)s.draw(40) / 8;
      case 2:
        now += s.real() > 0 ? 1e-9 : 0;
        return now;
      case 3:
        now += (double)s.draw(1000) / 7;
        return now;
      case 4:
        return s.chance(1, 6) ? s.real() : now;
      default:
        now += (double)(1 + s.draw(15)) / 8;
        return now;
    }
  }
};

// ---------------------------------------------------------------------------------------------
// Reading

/// Reads whole payloads
class Collector : public vrs::StreamPlayer {
 public:
  bool processRecordHeader(const vrs::CurrentRecord& record, vrs::DataReference& out) override {
    buffer.assign(record.recordSize, 0xA5);
    headers++;
    out.useVector(buffer);
    return true;
  }
  void processRecord(const vrs::CurrentRecord& record, uint32_t readSize) override {
    Rec r;
    r.id = record.streamId;
    r.type = record.recordType;
    r.ts = record.timestamp;
    r.version = record.formatVersion;
    r.data = buffer;
    sizesOk &= readSize == record.recordSize && record.reader->getUnreadBytes() == 0;
    records.push_back(std::move(r));
  }
  Bytes buffer;
  size_t headers = 0;
  bool sizesOk = true;
  std::vector<Rec> records;
};

/// Read all the records one by one through the index; on error, status is set.
inline std::vector<Rec> readAll(vrs::RecordFileReader& reader, int& outStatus, std::vector<int>* statuses = nullptr) {
  Collector collector;
  outStatus = 0;
  const auto index = reader.getIndex(); // copy
  for (const auto& info : reader.getIndex()) {
    size_t before = collector.records.size();
    int status = reader.readRecord(info, &collector);
    if (statuses != nullptr) {
      statuses->push_back(status);
    }
    if (status != 0) {
      outStatus = status;
      if (statuses == nullptr) {
        break;
      }
    }
    if (collector.records.size() == before + 1) {
      const Rec& r = collector.records.back();
      REQUIRE_MSG(
          r.id == info.streamId && r.type == info.recordType && r.ts == info.timestamp,
          "record header vs. index: " << r.str() << " vs. " << info.streamId.getNumericName() << "/"
                                      << Record::typeName(info.recordType) << "@" << info.timestamp);
    } else if (statuses == nullptr) {
      REQUIRE_MSG(status != 0, "record read with success, but not delivered");
    } else if (collector.records.size() == before) {
      collector.records.emplace_back(); // keep places aligned with the index
    }
  }
  REQUIRE(collector.sizesOk);
  return collector.records;
}

inline std::vector<Rec> readFileRecords(const std::string& path, const char* what) {
  vrs::RecordFileReader reader;
  int status = reader.openFile(path);
  REQUIRE_MSG(status == 0, what << ": open failed: " << status << " " << vrs::errorCodeToMessage(status));
  auto recs = readAll(reader, status);
  REQUIRE_MSG(status == 0, what << ": read failed: " << status << " " << vrs::errorCodeToMessage(status));
  return recs;
}

inline std::vector<Rec> sorted(std::vector<Rec> recs) {
  std::stable_sort(recs.begin(), recs.end(), recordOrder);
  return recs;
}

} // namespace gen
