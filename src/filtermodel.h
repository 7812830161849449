// What stream, type and time filters are meant to select.
#pragma once

#include <optional>

#include <vrs/utils/FilteredFileReader.h>

#include "recording.h"

namespace filters {

using namespace gen;
using namespace vrs;
using std::map;
using std::set;
using std::string;
using std::vector;
using Info = IndexRecord::RecordInfo;

inline string num(double v) {
  std::ostringstream o;
  o.precision(17);
  o << v;
  return o.str();
}

inline string show(const vector<Info>& v) {
  std::ostringstream o;
  for (auto& r : v) {
    o << r.timestamp << "/" << r.streamId.getNumericName() << "/" << (int)r.recordType << " ";
  }
  return o.str();
}

inline void requireSame(const vector<Info>& expected, const vector<Info>& actual, const string& what) {
  REQUIRE_MSG(
      expected == actual,
      what << ": expected " << expected.size() << " records: " << show(expected) << "\n found " << actual.size() << ": " << show(actual));
}

/// What the filter is meant to select
struct Model {
  vector<Info> index;
  set<StreamId> streams;
  set<Record::Type> types;
  double minTime = std::numeric_limits<double>::lowest(), maxTime = std::numeric_limits<double>::max();
  bool firstOnly = false;

  bool selected(const Info& r) const {
    return streams.count(r.streamId) != 0 && types.count(r.recordType) != 0;
  }
  vector<Info> range() const {
    vector<Info> res;
    set<std::pair<StreamId, Record::Type>> seen;
    for (auto& r : index) {
      if (selected(r) && r.timestamp > minTime && r.timestamp <= maxTime &&
          (!firstOnly || seen.insert({r.streamId, r.recordType}).second)) {
        res.push_back(r);
      }
    }
    return res;
  }
  vector<Info> preroll() const {
    map<std::pair<StreamId, Record::Type>, size_t> last;
    for (size_t k = 0; k < index.size(); k++) {
      auto& r = index[k];
      if (selected(r) && r.timestamp <= minTime && r.recordType != Record::Type::DATA) {
        last[{r.streamId, r.recordType}] = k;
      }
    }
    set<size_t> pos;
    for (auto& l : last) {
      pos.insert(l.second);
    }
    vector<Info> res;
    for (size_t k : pos) {
      res.push_back(index[k]);
    }
    return res;
  }
  // there is something to read
  bool anyAfterMin() const {
    for (auto& r : index) {
      if (r.timestamp > minTime) {
        return true;
      }
    }
    return false;
  }
  bool dataTimes(double& first, double& last) const {
    bool any = false;
    for (auto& r : index) {
      if (streams.count(r.streamId) != 0 && r.recordType == Record::Type::DATA) {
        first = any ? first : r.timestamp;
        last = r.timestamp;
        any = true;
      }
    }
    return any;
  }
};

/// A textual stream filter, and what it designates
inline std::pair<string, set<StreamId>> genStreamFilter(pbt::Src& s, RecordFileReader& r) {
  const set<StreamId>& all = r.getStreams();
  vector<StreamId> ids(all.begin(), all.end());
  StreamId id = ids.empty() || s.chance(1, 12) ? StreamId(genTypeId(s), (uint16_t)(1 + s.draw(5))) : s.pick(ids);
  string type = std::to_string((int)id.getTypeId());
  set<StreamId> res;
  auto ofType = [&]() {
    vector<StreamId> v;
    for (auto i : ids) {
      if (i.getTypeId() == id.getTypeId()) {
        v.push_back(i);
      }
    }
    return v;
  };
  switch (s.below(5)) {
    case 0:
      if (all.count(id) != 0) {
        res.insert(id);
      }
      return {id.getNumericName(), res};
    case 1: {
      auto v = ofType();
      size_t n = 1 + s.below(v.size() + 1);
      if (n <= v.size()) {
        res.insert(v[n - 1]);
      }
      return {type + "+" + std::to_string(n), res};
    }
    case 2: {
      string flavor = all.count(id) != 0 ? r.getFlavor(id) : "";
      if (flavor.empty() || flavor.find_first_of(" \t,") != string::npos || isdigit((unsigned char)flavor[0]) != 0) {
        break;
      }
      for (auto i : ofType()) {
        if (r.getFlavor(i) == flavor) {
          res.insert(i);
        }
      }
      return {type + "-" + flavor, res};
    }
    case 3: {
      auto v = ofType();
      return {type + "-", set<StreamId>(v.begin(), v.end())};
    }
    default:
      break;
  }
  auto v = ofType();
  return {type, set<StreamId>(v.begin(), v.end())};
}

inline void applyStream(bool add, const set<StreamId>& ids, const set<StreamId>& all, std::optional<set<StreamId>>& cur) {
  if (!cur) {
    cur = add ? set<StreamId>() : all;
  }
  for (auto id : ids) {
    if (add) {
      cur->insert(id);
    } else {
      cur->erase(id);
    }
  }
}

} // namespace filters
