// Generated DataLayouts: definitions, values, and their model.
#pragma once

#include <set>
#include <limits>
#include <sstream>

#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>

#include <vrs/DataLayout.h>
#include <vrs/DataPieces.h>

#include "pbt.h"

namespace lay {

using std::map;
using std::string;
using std::unique_ptr;
using std::vector;

enum class Kind { Value, Array, Vector, Map, String };

// -- values ----------------------------------------------------------------------------------

/// how hostile values may be
struct ValueStyle {
  bool finite = false; // no nan or infinity
  bool asciiText = false;
  bool noNul = false; // no embedded nul in texts
  size_t maxText = 40;
  size_t maxCount = 12;
};

#define LAY_POD_COUNT 30

inline string text(pbt::Src& s, const ValueStyle& st, size_t maxSize) {
  string r = st.asciiText ? s.text(maxSize) : s.anyText(maxSize);
  if (st.noNul) {
    for (auto& c : r) {
      c = c == 0 ? '0' : c;
    }
  }
  return r;
}

// -- fields ----------------------------------------------------------------------------------

/// The definition of a field, with a value
struct Field {
  virtual ~Field() = default;
  Kind kind = Kind::Value;
  string label;
  string typeName; // of the element
  bool required = false;
  bool hasDefault = false;
  map<string, string> tags;

  virtual unique_ptr<Field> clone() const = 0;
  /// a new data piece with this definition. Must be called while a layout is being constructed.
  virtual unique_ptr<vrs::DataPiece> makePiece() const = 0;
  virtual void newValue(pbt::Src& s, const ValueStyle& st) = 0;
  virtual void newProperties(pbt::Src& s, const ValueStyle& st) = 0;
  /// set or stage the value
  virtual void store(vrs::DataPiece* piece) const = 0;
  /// empty string if the piece has this field's value
  virtual string checkValue(const vrs::DataPiece* piece) const = 0;
  /// empty string if the piece, not available, reads as its default value
  virtual string checkDefault(const vrs::DataPiece* piece) const = 0;
  /// empty string if properties are as defined
  virtual string checkProperties(const vrs::DataPiece* piece) const = 0;
  /// a const view of the piece can patch the value of the piece it's mapped to
  virtual bool patch(const vrs::DataPiece* piece) const = 0;
  virtual string showIt() const = 0;
  virtual size_t arraySize() const {
    return 0;
  }
  virtual bool setArraySize(size_t) {
    return false;
  }
  /// find the piece by type & label with the template search methods
  virtual const vrs::DataPiece* find(const vrs::DataLayout& layout) const = 0;
  virtual size_t varSize() const = 0; // bytes of variable data, by the documented encoding
  virtual size_t fixedSize() const = 0;
  /// make the default value the value
  virtual void valueToDefault() = 0;
  /// the value of a piece that was never set
  virtual void valueToZero() = 0;
  bool isVariable() const {
    return kind == Kind::Vector || kind == Kind::Map || kind == Kind::String;
  }
  /// expected json, empty when there is none
  virtual string jsonValue() const = 0;
  virtual string jsonDefault() const = 0;
  virtual string jsonProperties() const = 0;
  /// how the value is printed, or an empty string when that's not specified
  virtual string printed() const = 0;
  /// same definition, except for the default value or a property
  virtual bool changeDefinition() = 0;
  /// values that json text can't represent exactly, or compare equal to themselves
  virtual bool hasNoNaN() const = 0;
  /// pieces match when type & label match
  bool matches(const Field& o) const {
    return kind == o.kind && label == o.label && typeName == o.typeName && arraySize() == o.arraySize();
  }
  string spec() const {
    static const char* kNames[] = {"Value", "Array", "Vector", "Map", "String"};
    string r = string(kNames[(int)kind]) + "<" + typeName + ">";
    if (kind == Kind::Array) {
      r += "[" + std::to_string(arraySize()) + "]";
    }
    return r + " " + pbt::show(label) + (required ? " req" : "");
  }

 protected:
  void common(vrs::DataPiece& p) const {
    p.setRequired(required);
    for (auto& t : tags) {
      p.setTag(t.first, t.second);
    }
  }
  string checkCommon(const vrs::DataPiece* piece) const {
    if (piece->getLabel() != label) {
      return "label " + piece->getLabel();
    }
    if (piece->isRequired() != required) {
      return "required";
    }
    for (auto& tag : tags) {
      string v;
      if (!piece->getTag(tag.first, v) || v != tag.second) {
        return "tag " + tag.first;
      }
    }
    string v;
    for (const char* n : {"unit", "description", "absent"}) {
      if (tags.count(n) == 0 && piece->getTag(n, v)) {
        return string("unexpected tag ") + n;
      }
    }
    return {};
  }
  void newCommon(pbt::Src& s, const ValueStyle& st) {
    required = s.chance(1, 5);
    tags.clear();
    if (s.chance(1, 5)) {
      tags["unit"] = text(s, st, 8);
    }
    if (s.chance(1, 5)) {
      tags["description"] = text(s, st, 30);
    }
    if (s.chance(1, 8)) {
      string name = text(s, st, 10);
      tags[name] = text(s, st, 10);
    }
  }
};

/// text to json
inline string jsonText(const string& s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 0x20) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      r += b;
    } else {
      r += (char)c;
    }
  }
  return r + "\"";
}
/// text with unprintable bytes escaped
inline string printableText(const string& s) {
  string r;
  for (unsigned char c : s) {
    if (c >= 0x20 && c < 0x7f) {
      r += (char)c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (c == '\r') {
      r += "\\r";
    } else if (c == '\t') {
      r += "\\t";
    } else if (c == '\b') {
      r += "\\b";
    } else if (c == 0x1b) {
      r += "\\e";
    } else {
      char b[8];
      snprintf(b, sizeof(b), "\\x%02x", c);
      r += b;
    }
  }
  return r;
}

/// favors a few common types, and reaches all of them
inline size_t genPodType(pbt::Src& s) {
  static const size_t kCommon[] = {5, 7, 9, 10, 11, 0, 2};
  return s.flip() ? s.pick(kCommon) : (size_t)s.below(LAY_POD_COUNT);
}

/// definitions & values are in the layfields_*.cpp files
unique_ptr<Field> makeValueField(size_t podType);
unique_ptr<Field> makeArrayField(size_t podType);
unique_ptr<Field> makeVectorField(size_t podType, bool ofStrings);
unique_ptr<Field> makeMapField(size_t podType, bool ofStrings);
unique_ptr<Field> makeStringField();
/// fields with a given value
unique_ptr<Field> fieldU8(const string& label, uint8_t v);
unique_ptr<Field> fieldU32(const string& label, uint32_t v);
unique_ptr<Field> fieldF64(const string& label, double v);
unique_ptr<Field> fieldStr(const string& label, const string& v);

inline unique_ptr<Field> makeField(Kind kind, size_t podType, bool ofStrings) {
  switch (kind) {
    case Kind::Value:
      return makeValueField(podType);
    case Kind::Array:
      return makeArrayField(podType);
    case Kind::Vector:
      return makeVectorField(podType, ofStrings);
    case Kind::Map:
      return makeMapField(podType, ofStrings);
    default:
      return makeStringField();
  }
}

inline unique_ptr<Field> genField(pbt::Src& s, const ValueStyle& st) {
  Kind kind = (Kind)s.weighted({5, 3, 3, 2, 3});
  size_t podType = kind == Kind::String ? 0 : genPodType(s);
  bool strings = (kind == Kind::Vector || kind == Kind::Map) && s.chance(1, 3);
  auto f = makeField(kind, podType, strings);
  f->newProperties(s, st);
  return f;
}

/// A layout definition with values
struct Layout {
  vector<unique_ptr<Field>> fields;

  Layout() = default;
  Layout(const Layout& o) {
    *this = o;
  }
  Layout(Layout&&) = default;
  Layout& operator=(Layout&&) = default;
  Layout& operator=(const Layout& o) {
    if (this != &o) {
      fields.clear();
      for (auto& f : o.fields) {
        fields.push_back(f->clone());
      }
    }
    return *this;
  }
  void newValues(pbt::Src& s, const ValueStyle& st) {
    for (auto& f : fields) {
      f->newValue(s, st);
    }
  }
  bool hasVariable() const {
    for (auto& f : fields) {
      if (f->isVariable()) {
        return true;
      }
    }
    return false;
  }
  size_t varSize() const {
    size_t n = 0;
    for (auto& f : fields) {
      n += f->varSize();
    }
    return n;
  }
  size_t fixedSize() const {
    size_t n = 0;
    for (auto& f : fields) {
      n += f->fixedSize();
    }
    return n;
  }
  string str() const {
    string r = "{";
    for (auto& f : fields) {
      r += f->spec() + "; ";
    }
    return r + "}";
  }
};

/// An actual layout made for a definition, with its pieces in the order of definition
struct Live : vrs::ManualDataLayout {
  explicit Live(const Layout& def) : vrs::ManualDataLayout() {
    for (auto& f : def.fields) {
      pieces.push_back(add(f->makePiece()));
    }
    endLayout();
  }
  void store(const Layout& def) {
    for (size_t k = 0; k < pieces.size(); k++) {
      def.fields[k]->store(pieces[k]);
    }
  }
  vector<vrs::DataPiece*> pieces;
};

/// the pieces of any layout, in order of definition: fixed size pieces come first
inline vector<vrs::DataPiece*> piecesOf(vrs::DataLayout& layout) {
  vector<vrs::DataPiece*> all;
  layout.forEachDataPiece([&](vrs::DataPiece* p) { all.push_back(p); });
  return all;
}

/// place of each field in the order used by forEachDataPiece
inline vector<size_t> orderOf(const Layout& def) {
  vector<size_t> order;
  for (int var = 0; var < 2; var++) {
    for (size_t k = 0; k < def.fields.size(); k++) {
      if (def.fields[k]->isVariable() == (var == 1)) {
        order.push_back(k);
      }
    }
  }
  return order;
}

inline void requireValues(vrs::DataLayout& layout, const Layout& def, const string& what) {
  auto pieces = piecesOf(layout);
  REQUIRE_EQ_MSG(pieces.size(), def.fields.size(), what << ": pieces");
  auto order = orderOf(def);
  for (size_t k = 0; k < order.size(); k++) {
    const Field& f = *def.fields[order[k]];
    REQUIRE_MSG(pieces[k]->getLabel() == f.label, what << ": piece #" << k << " is " << pieces[k]->getLabel() << " rather than " << f.label);
    string err = f.checkValue(pieces[k]);
    REQUIRE_MSG(err.empty(), what << ": " << f.spec() << ": " << err);
  }
}

/// the bytes of a layout, as stored in a record
inline vector<uint8_t> bytesOf(vrs::DataLayout& layout) {
  size_t n = layout.getVarDataSizeNeeded();
  vector<uint8_t> var(n + 1);
  layout.collectVariableDataAndUpdateIndex(var.data());
  const auto& fixed = layout.getFixedData();
  vector<uint8_t> all((const uint8_t*)fixed.data(), (const uint8_t*)fixed.data() + fixed.size());
  all.insert(all.end(), var.begin(), var.begin() + n);
  return all;
}

inline Layout genLayout(pbt::Src& s, const ValueStyle& st, size_t maxFields = 8, bool plainLabels = false) {
  Layout def;
  size_t n = s.chance(1, 20) ? 0 : 1 + s.size(maxFields - 1);
  std::set<string> labels;
  for (size_t k = 0; k < n; k++) {
    auto f = genField(s, st);
    f->label = !plainLabels && s.chance(1, 5) ? text(s, st, 12) : s.ident(6);
    if (labels.count(f->label)) {
      f->label += "_" + std::to_string(k);
    }
    labels.insert(f->label);
    def.fields.push_back(std::move(f));
  }
  def.newValues(s, st);
  return def;
}

} // namespace lay
