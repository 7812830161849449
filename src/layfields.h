// The fields of generated layouts: one template per kind of data piece, instantiated for all types in layfields_*.cpp
#pragma once

#include "layoutgen.h"

namespace lay {

template <class T>
struct ScalarOf {
  using type = T;
};
template <class T, size_t N>
struct ScalarOf<vrs::PointND<T, N>> {
  using type = T;
};
template <class T, size_t N>
struct ScalarOf<vrs::MatrixND<T, N>> {
  using type = T;
};

template <class T>
T scalar(pbt::Src& s, const ValueStyle& st) {
  if constexpr (std::is_same_v<T, vrs::Bool>) {
    return vrs::Bool(s.flip());
  } else if constexpr (std::is_floating_point_v<T>) {
    double d = s.real();
    if (!st.finite) {
      switch (s.draw(11)) {
        case 0:
          return std::numeric_limits<T>::quiet_NaN();
        case 1:
          return std::numeric_limits<T>::infinity();
        case 2:
          return -std::numeric_limits<T>::infinity();
        default:
          break;
      }
    }
    if (d > (double)std::numeric_limits<T>::max() || d < (double)std::numeric_limits<T>::lowest()) {
      d = 1e30;
    }
    T v = (T)d;
    return st.noNul && v == 0 ? T{} : v; // for json: a default of -0 is a default of 0, and isn't written
  } else {
    return (T)s.interesting(sizeof(T) * 8);
  }
}

template <class T>
T value(pbt::Src& s, const ValueStyle& st) {
  if constexpr (std::is_same_v<T, string>) {
    return text(s, st, st.maxText);
  } else {
    using S = typename ScalarOf<T>::type;
    T v{};
    if constexpr (std::is_same_v<S, T>) {
      v = scalar<T>(s, st);
    } else {
      S parts[sizeof(T) / sizeof(S)];
      for (auto& p : parts) {
        p = scalar<S>(s, st);
      }
      memcpy((void*)&v, parts, sizeof(T));
    }
    return v;
  }
}

/// bit exact comparison
template <class T>
bool same(const T& a, const T& b) {
  if constexpr (std::is_same_v<T, string>) {
    return a == b;
  } else {
    return memcmp((const void*)std::addressof(a), (const void*)std::addressof(b), sizeof(T)) == 0;
  }
}
template <class T>
bool same(const vector<T>& a, const vector<T>& b) {
  if (a.size() != b.size()) {
    return false;
  }
  for (size_t k = 0; k < a.size(); k++) {
    if (!same(a[k], b[k])) {
      return false;
    }
  }
  return true;
}
template <class T>
bool same(const map<string, T>& a, const map<string, T>& b) {
  if (a.size() != b.size()) {
    return false;
  }
  for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) {
    if (i->first != j->first || !same(i->second, j->second)) {
      return false;
    }
  }
  return true;
}

template <class T>
string showValue(const T& v) {
  if constexpr (std::is_same_v<T, string>) {
    return pbt::show(v);
  } else {
    std::ostringstream o;
    o << "x";
    const auto* p = (const uint8_t*)(const void*)std::addressof(v);
    for (size_t k = 0; k < sizeof(T) && k < 16; k++) {
      char b[4];
      snprintf(b, sizeof(b), "%02x", p[k]);
      o << b;
    }
    return o.str();
  }
}
template <class T>
string showValue(const vector<T>& v) {
  string r = "[" + std::to_string(v.size()) + ":";
  for (size_t k = 0; k < v.size() && k < 6; k++) {
    r += " " + showValue(v[k]);
  }
  return r + "]";
}
template <class T>
string showValue(const map<string, T>& v) {
  string r = "{" + std::to_string(v.size()) + ":";
  size_t k = 0;
  for (auto& e : v) {
    if (k++ < 6) {
      r += " " + pbt::show(e.first) + "=" + showValue(e.second);
    }
  }
  return r + "}";
}

// -- json & text
template <class T>
string jsonNumber(const T& v) {
  if constexpr (std::is_floating_point_v<T>) {
    if (v != v) {
      return "NaN";
    }
    if (v - v != 0) {
      return v > 0 ? "Infinity" : "-Infinity";
    }
    char b[40];
    snprintf(b, sizeof(b), "%.17e", (double)v);
    return b;
  } else {
    return std::to_string(v);
  }
}
template <class T>
struct ToJson {
  static string json(const T& v) {
    if constexpr (std::is_same_v<T, string>) {
      return jsonText(v);
    } else if constexpr (std::is_same_v<T, vrs::Bool>) {
      return (bool)v ? "true" : "false";
    } else {
      return jsonNumber(v);
    }
  }
};
template <class T, size_t N>
struct ToJson<vrs::PointND<T, N>> {
  static string json(const vrs::PointND<T, N>& v) {
    string r = "[";
    for (size_t k = 0; k < N; k++) {
      r += (k ? "," : "") + jsonNumber(v.dim[k]);
    }
    return r + "]";
  }
};
template <class T, size_t N>
struct ToJson<vrs::MatrixND<T, N>> {
  static string json(const vrs::MatrixND<T, N>& v) {
    string r = "[";
    for (size_t k = 0; k < N; k++) {
      r += (k ? "," : "") + ToJson<vrs::PointND<T, N>>::json(v.points[k]);
    }
    return r + "]";
  }
};
template <class T>
struct ToJson<vector<T>> {
  static string json(const vector<T>& v) {
    string r = "[";
    for (size_t k = 0; k < v.size(); k++) {
      r += (k ? "," : "") + ToJson<T>::json(v[k]);
    }
    return v.empty() ? "" : r + "]";
  }
};
template <class T>
struct ToJson<map<string, T>> {
  static string json(const map<string, T>& m) {
    string r;
    for (auto& e : m) {
      r += (r.empty() ? "{" : ",") + jsonText(e.first) + ":" + ToJson<T>::json(e.second);
    }
    return r.empty() ? r : r + "}";
  }
};
template <class T>
string json(const T& v) {
  return ToJson<T>::json(v);
}
template <class T>
bool noNaN(const T& v) {
  using S = typename ScalarOf<T>::type;
  if constexpr (std::is_floating_point_v<S>) {
    S parts[sizeof(T) / sizeof(S)];
    memcpy(parts, (const void*)std::addressof(v), sizeof(T));
    for (S s : parts) {
      if (s != s) {
        return false;
      }
    }
  }
  return true;
}
template <class T>
bool noNaN(const vector<T>& v) {
  for (size_t k = 0; k < v.size(); k++) {
    if (!noNaN<T>(v[k])) {
      return false;
    }
  }
  return true;
}
template <class T>
bool noNaN(const map<string, T>& v) {
  for (auto& e : v) {
    if (!noNaN(e.second)) {
      return false;
    }
  }
  return true;
}
template <class T>
string printedElement(const T& v, const char* quote) {
  if constexpr (std::is_same_v<T, string>) {
    return quote + printableText(v) + quote;
  } else if constexpr (std::is_integral_v<T>) {
    return std::to_string(v);
  } else {
    return {};
  }
}
/// a value that's not the same, beyond rounding errors
template <class T>
T otherValue(const T& v) {
  if constexpr (std::is_same_v<T, string>) {
    return v + "!";
  } else if constexpr (std::is_same_v<T, vrs::Bool>) {
    return vrs::Bool(!(bool)v);
  } else {
    using S = typename ScalarOf<T>::type;
    S parts[sizeof(T) / sizeof(S)];
    memcpy(parts, (const void*)std::addressof(v), sizeof(T));
    S& last = parts[sizeof(T) / sizeof(S) - 1];
    if constexpr (std::is_floating_point_v<S>) {
      last = last > 0 ? S(-1) : S(1);
    } else {
      last = last == S(1) ? S(2) : S(1);
    }
    T r{};
    memcpy((void*)std::addressof(r), parts, sizeof(T));
    return r;
  }
}

template <class T>
const char* elementName();
#define LAY_NAME(T, N)              \
  template <>                       \
  inline const char* elementName<T>() { \
    return N;                       \
  }
LAY_NAME(vrs::Bool, "Bool")
LAY_NAME(char, "char")
LAY_NAME(int8_t, "int8_t")
LAY_NAME(uint8_t, "uint8_t")
LAY_NAME(int16_t, "int16_t")
LAY_NAME(uint16_t, "uint16_t")
LAY_NAME(int32_t, "int32_t")
LAY_NAME(uint32_t, "uint32_t")
LAY_NAME(int64_t, "int64_t")
LAY_NAME(uint64_t, "uint64_t")
LAY_NAME(float, "float")
LAY_NAME(double, "double")
LAY_NAME(vrs::Point2Dd, "Point2Dd")
LAY_NAME(vrs::Point2Df, "Point2Df")
LAY_NAME(vrs::Point2Di, "Point2Di")
LAY_NAME(vrs::Point3Dd, "Point3Dd")
LAY_NAME(vrs::Point3Df, "Point3Df")
LAY_NAME(vrs::Point3Di, "Point3Di")
LAY_NAME(vrs::Point4Dd, "Point4Dd")
LAY_NAME(vrs::Point4Df, "Point4Df")
LAY_NAME(vrs::Point4Di, "Point4Di")
LAY_NAME(vrs::Matrix2Dd, "Matrix2Dd")
LAY_NAME(vrs::Matrix2Df, "Matrix2Df")
LAY_NAME(vrs::Matrix2Di, "Matrix2Di")
LAY_NAME(vrs::Matrix3Dd, "Matrix3Dd")
LAY_NAME(vrs::Matrix3Df, "Matrix3Df")
LAY_NAME(vrs::Matrix3Di, "Matrix3Di")
LAY_NAME(vrs::Matrix4Dd, "Matrix4Dd")
LAY_NAME(vrs::Matrix4Df, "Matrix4Df")
LAY_NAME(vrs::Matrix4Di, "Matrix4Di")
LAY_NAME(string, "string")
#undef LAY_NAME

#define LAY_ALL_PODS(X)                                                                              \
  X(vrs::Bool) X(char) X(int8_t) X(uint8_t) X(int16_t) X(uint16_t) X(int32_t) X(uint32_t) X(int64_t) \
  X(uint64_t) X(float) X(double) X(vrs::Point2Dd) X(vrs::Point2Df) X(vrs::Point2Di)                  \
  X(vrs::Point3Dd) X(vrs::Point3Df) X(vrs::Point3Di) X(vrs::Point4Dd) X(vrs::Point4Df)               \
  X(vrs::Point4Di) X(vrs::Matrix2Dd) X(vrs::Matrix2Df) X(vrs::Matrix2Di) X(vrs::Matrix3Dd)           \
  X(vrs::Matrix3Df) X(vrs::Matrix3Di) X(vrs::Matrix4Dd) X(vrs::Matrix4Df) X(vrs::Matrix4Di)

template <class T>
struct ValueField : Field {
  T val{}, def{};
  map<string, T> props;
  ValueField() {
    kind = Kind::Value;
    typeName = elementName<T>();
  }
  unique_ptr<Field> clone() const override {
    return std::make_unique<ValueField<T>>(*this);
  }
  unique_ptr<vrs::DataPiece> makePiece() const override {
    auto p = std::make_unique<vrs::DataPieceValue<T>>(label);
    common(*p);
    if (hasDefault) {
      p->setDefault(def);
    }
    for (auto& e : props) {
      p->setProperty(e.first, e.second);
    }
    return p;
  }
  void newValue(pbt::Src& s, const ValueStyle& st) override {
    val = value<T>(s, st);
  }
  void newProperties(pbt::Src& s, const ValueStyle& st) override {
    newCommon(s, st);
    hasDefault = s.chance(1, 3);
    if (hasDefault) {
      def = value<T>(s, st);
    }
    props.clear();
    static const char* kNames[] = {"min", "max", "min_increment", "max_increment", "other"};
    for (const char* n : kNames) {
      if (s.chance(1, 8)) {
        props[n] = value<T>(s, st);
      }
    }
  }
  void store(vrs::DataPiece* piece) const override {
    REQUIRE_MSG(static_cast<vrs::DataPieceValue<T>*>(piece)->set(val), "set " << spec());
  }
  string checkValue(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceValue<T>*>(piece);
    T v{};
    if (!p->isAvailable()) {
      return "not available";
    }
    if (!p->get(v) || !same(v, val)) {
      return "got " + showValue(v) + " expected " + showValue(val);
    }
    return same(p->get(), val) ? "" : "get() " + showValue(p->get());
  }
  string checkDefault(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceValue<T>*>(piece);
    T v{};
    if (p->isAvailable()) {
      return "available";
    }
    if (p->get(v)) {
      return "get says it has a value";
    }
    T expected = hasDefault ? def : T{};
    if (!same(v, expected) || !same(p->get(), expected)) {
      return "default: got " + showValue(v) + " expected " + showValue(expected);
    }
    return {};
  }
  string checkProperties(const vrs::DataPiece* piece) const override {
    string r = checkCommon(piece);
    auto* p = static_cast<const vrs::DataPieceValue<T>*>(piece);
    T d = hasDefault ? def : T{};
    if (r.empty() && !same(p->getDefault(), d)) {
      r = "default " + showValue(p->getDefault()) + " expected " + showValue(d);
    }
    static const char* kNames[] = {"min", "max", "min_increment", "max_increment", "other"};
    for (const char* n : kNames) {
      T v{};
      auto it = props.find(n);
      bool has = p->getProperty(n, v);
      if (has != (it != props.end()) || (has && !same(v, it->second))) {
        r += string(" property ") + n;
      }
    }
    T v{};
    if (p->getMin(v) != (props.count("min") > 0) || (props.count("min") > 0 && !same(v, props.at("min")))) {
      r += " getMin";
    }
    if (p->getMax(v) != (props.count("max") > 0) || (props.count("max") > 0 && !same(v, props.at("max")))) {
      r += " getMax";
    }
    if (p->getMinIncrement(v) != (props.count("min_increment") > 0) ||
        (props.count("min_increment") > 0 && !same(v, props.at("min_increment")))) {
      r += " getMinIncrement";
    }
    if (p->getMaxIncrement(v) != (props.count("max_increment") > 0) ||
        (props.count("max_increment") > 0 && !same(v, props.at("max_increment")))) {
      r += " getMaxIncrement";
    }
    return r;
  }
  bool patch(const vrs::DataPiece* piece) const override {
    return static_cast<const vrs::DataPieceValue<T>*>(piece)->patchValue(val);
  }
  string showIt() const override {
    return showValue(val);
  }
  const vrs::DataPiece* find(const vrs::DataLayout& layout) const override {
    return layout.findDataPieceValue<T>(label);
  }
  size_t varSize() const override {
    return 0;
  }
  string jsonValue() const override {
    return json(val);
  }
  string jsonDefault() const override {
    return !hasDefault || !(def != T{}) ? "" : json(def);
  }
  string jsonProperties() const override {
    return json(props);
  }
  string printed() const override {
    return printedElement(val, "");
  }
  bool changeDefinition() override {
    if (props.empty()) {
      def = otherValue(hasDefault ? def : T{});
      hasDefault = true;
    } else {
      props.begin()->second = otherValue(props.begin()->second);
    }
    return true;
  }
  bool hasNoNaN() const override {
    return noNaN(def) && noNaN(props);
  }
  size_t fixedSize() const override {
    return sizeof(T);
  }
  void valueToDefault() override {
    val = hasDefault ? def : T{};
  }
  void valueToZero() override {
    memset((void*)std::addressof(val), 0, sizeof(val));
  }
};

template <class T>
struct ArrayField : Field {
  size_t count = 1;
  vector<T> val, def;
  map<string, T> props;
  ArrayField() {
    kind = Kind::Array;
    typeName = elementName<T>();
  }
  unique_ptr<Field> clone() const override {
    return std::make_unique<ArrayField<T>>(*this);
  }
  unique_ptr<vrs::DataPiece> makePiece() const override {
    auto p = std::make_unique<vrs::DataPieceArray<T>>(label, count);
    common(*p);
    if (hasDefault) {
      if (!def.empty()) { // replaced below
        p->setDefault(std::vector<T>(count, def.back()));
      }
      p->setDefault(def);
    }
    for (auto& e : props) {
      p->setProperty(e.first, e.second);
    }
    return p;
  }
  void newValue(pbt::Src& s, const ValueStyle& st) override {
    val.clear();
    for (size_t k = 0; k < count; k++) {
      val.push_back(value<T>(s, st));
    }
  }
  void newProperties(pbt::Src& s, const ValueStyle& st) override {
    newCommon(s, st);
    count = 1 + s.size(st.maxCount);
    val.assign(count, T{});
    hasDefault = s.chance(1, 3);
    def.clear();
    if (hasDefault) {
      // fewer, as many, or more values than the array can hold
      for (size_t k = s.chance(2, 3) ? count : s.size(count + 3); k > 0; k--) {
        def.push_back(value<T>(s, st));
      }
    }
    props.clear();
    static const char* kNames[] = {"min", "max", "other"};
    for (const char* n : kNames) {
      if (s.chance(1, 8)) {
        props[n] = value<T>(s, st);
      }
    }
  }
  bool setArraySize(size_t n) override {
    count = n;
    val.resize(n);
    def.clear();
    hasDefault = false;
    return true;
  }
  void store(vrs::DataPiece* piece) const override {
    REQUIRE_MSG(static_cast<vrs::DataPieceArray<T>*>(piece)->set(val) || count == 0, "set " << spec());
  }
  vector<T> expectedDefault() const {
    vector<T> d;
    if (hasDefault) {
      d = def;
      d.resize(count, T{});
    }
    return d;
  }
  string checkValue(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceArray<T>*>(piece);
    if (!p->isAvailable()) {
      return "not available";
    }
    if (p->getArraySize() != count) {
      return "array size";
    }
    vector<T> v;
    if (!p->get(v) || !same(v, val)) {
      return "got " + showValue(v) + " expected " + showValue(val);
    }
    for (size_t k = 0; k < count; k++) {
      T e{};
      if (!p->get(e, k) || !same(e, val[k])) {
        return "element " + std::to_string(k);
      }
    }
    T e{};
    if (p->get(e, count)) {
      return "element past the end";
    }
    // partial reads
    size_t half = (count + 1) / 2;
    vector<T> h(half);
    if ((!p->get(h.data(), half) && half > 0) || !same(h, vector<T>(val.begin(), val.begin() + half))) {
      return "partial read";
    }
    return {};
  }
  string checkDefault(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceArray<T>*>(piece);
    if (p->isAvailable()) {
      return "available";
    }
    vector<T> v, expected = expectedDefault();
    if (p->get(v)) {
      return "get says it has a value";
    }
    if (!same(v, expected)) {
      return "default: got " + showValue(v) + " expected " + showValue(expected);
    }
    for (size_t k = 0; k < expected.size(); k++) {
      T e{};
      if (p->get(e, k) || !same(e, expected[k])) {
        return "default element " + std::to_string(k);
      }
    }
    return {};
  }
  string checkProperties(const vrs::DataPiece* piece) const override {
    string r = checkCommon(piece);
    auto* p = static_cast<const vrs::DataPieceArray<T>*>(piece);
    if (p->getArraySize() != count) {
      r += " array size";
    }
    if (!same(p->getDefault(), expectedDefault())) {
      r += " default " + showValue(p->getDefault()) + " expected " + showValue(expectedDefault());
    }
    static const char* kNames[] = {"min", "max", "other"};
    for (const char* n : kNames) {
      T v{};
      auto it = props.find(n);
      bool has = p->getProperty(n, v);
      if (has != (it != props.end()) || (has && !same(v, it->second))) {
        r += string(" property ") + n;
      }
    }
    T v{};
    if (p->getMin(v) != (props.count("min") > 0) || (props.count("min") > 0 && !same(v, props.at("min")))) {
      r += " getMin";
    }
    if (p->getMax(v) != (props.count("max") > 0) || (props.count("max") > 0 && !same(v, props.at("max")))) {
      r += " getMax";
    }
    return r;
  }
  bool patch(const vrs::DataPiece* piece) const override {
    return static_cast<const vrs::DataPieceArray<T>*>(piece)->patchValue(val.data(), val.size());
  }
  string showIt() const override {
    return showValue(val);
  }
  size_t arraySize() const override {
    return count;
  }
  const vrs::DataPiece* find(const vrs::DataLayout& layout) const override {
    return layout.findDataPieceArray<T>(label, count);
  }
  size_t varSize() const override {
    return 0;
  }
  string jsonValue() const override {
    return json(val);
  }
  string jsonDefault() const override {
    return json(expectedDefault());
  }
  string jsonProperties() const override {
    return json(props);
  }
  string printed() const override {
    string r;
    for (size_t k = 0; k < val.size(); k++) {
      string e = printedElement<T>(val[k], "");
      if (e.empty()) {
        return {};
      }
      r += (k ? ", " : "") + e;
    }
    return r;
  }
  bool changeDefinition() override {
    if (props.empty()) {
      props["min"] = T{};
    } else {
      props.begin()->second = otherValue(props.begin()->second);
    }
    return true;
  }
  bool hasNoNaN() const override {
    return noNaN(expectedDefault()) && noNaN(props);
  }
  size_t fixedSize() const override {
    return sizeof(T) * count;
  }
  void valueToDefault() override {
    val = def;
    val.resize(count, T{});
  }
  void valueToZero() override {
    val.assign(count, T{});
    memset((void*)val.data(), 0, sizeof(T) * count);
  }
};

template <class T>
size_t encodedSize(const T& v) {
  if constexpr (std::is_same_v<T, string>) {
    return sizeof(uint32_t) + v.size();
  } else {
    return sizeof(T);
  }
}

template <class T>
struct VectorField : Field {
  vector<T> val, def;
  VectorField() {
    kind = Kind::Vector;
    typeName = elementName<T>();
  }
  unique_ptr<Field> clone() const override {
    return std::make_unique<VectorField<T>>(*this);
  }
  unique_ptr<vrs::DataPiece> makePiece() const override {
    auto p = std::make_unique<vrs::DataPieceVector<T>>(label);
    common(*p);
    if (hasDefault) {
      p->setDefault(def);
    }
    return p;
  }
  void newValue(pbt::Src& s, const ValueStyle& st) override {
    val.clear();
    for (size_t k = s.chance(1, 4) ? 0 : s.size(st.maxCount); k > 0; k--) {
      val.push_back(value<T>(s, st));
    }
  }
  void newProperties(pbt::Src& s, const ValueStyle& st) override {
    newCommon(s, st);
    hasDefault = s.chance(1, 3);
    def.clear();
    for (size_t k = hasDefault ? s.size(5) : 0; k > 0; k--) {
      def.push_back(value<T>(s, st));
    }
  }
  void store(vrs::DataPiece* piece) const override {
    static_cast<vrs::DataPieceVector<T>*>(piece)->stage(val);
    REQUIRE(same(static_cast<const vrs::DataPieceVector<T>*>(piece)->stagedValues(), val));
  }
  string checkValue(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceVector<T>*>(piece);
    vector<T> v;
    if (!p->isAvailable()) {
      return "not available";
    }
    if (!p->get(v) || !same(v, val)) {
      return "got " + showValue(v) + " expected " + showValue(val);
    }
    return {};
  }
  string checkDefault(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceVector<T>*>(piece);
    vector<T> v;
    if (p->isAvailable()) {
      return "available";
    }
    if (p->get(v)) {
      return "get says it has a value";
    }
    if (!same(v, def)) {
      return "default: got " + showValue(v) + " expected " + showValue(def);
    }
    return {};
  }
  string checkProperties(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceVector<T>*>(piece);
    return checkCommon(piece) + (same(p->getDefault(), def) ? "" : " default " + showValue(p->getDefault()) + " expected " + showValue(def));
  }
  bool patch(const vrs::DataPiece* piece) const override {
    return static_cast<const vrs::DataPieceVector<T>*>(piece)->patchValue(val);
  }
  string showIt() const override {
    return showValue(val);
  }
  const vrs::DataPiece* find(const vrs::DataLayout& layout) const override {
    return layout.findDataPieceVector<T>(label);
  }
  size_t varSize() const override {
    size_t n = std::is_same_v<T, string> ? sizeof(uint32_t) : 0;
    for (auto& v : val) {
      n += encodedSize(v);
    }
    return n;
  }
  string jsonValue() const override {
    return json(val);
  }
  string jsonDefault() const override {
    return json(def);
  }
  string jsonProperties() const override {
    return {};
  }
  string printed() const override {
    string r;
    for (size_t k = 0; k < val.size(); k++) {
      string e = printedElement<T>(val[k], "\"");
      if (e.empty()) {
        return {};
      }
      r += (k ? ", " : "") + e;
    }
    return r;
  }
  bool changeDefinition() override {
    hasDefault = true;
    def.push_back(T{});
    return true;
  }
  bool hasNoNaN() const override {
    return noNaN(def);
  }
  size_t fixedSize() const override {
    return 8; // index
  }
  void valueToDefault() override {
    val = def;
  }
  void valueToZero() override {
    val.clear();
  }
};

template <class T>
struct MapField : Field {
  map<string, T> val, def;
  MapField() {
    kind = Kind::Map;
    typeName = elementName<T>();
  }
  unique_ptr<Field> clone() const override {
    return std::make_unique<MapField<T>>(*this);
  }
  unique_ptr<vrs::DataPiece> makePiece() const override {
    auto p = std::make_unique<vrs::DataPieceStringMap<T>>(label);
    common(*p);
    if (hasDefault) {
      p->setDefault(def);
    }
    return p;
  }
  void newValue(pbt::Src& s, const ValueStyle& st) override {
    val.clear();
    for (size_t k = s.chance(1, 4) ? 0 : s.size(st.maxCount); k > 0; k--) {
      string key = text(s, st, 10);
      val[key] = value<T>(s, st);
    }
  }
  void newProperties(pbt::Src& s, const ValueStyle& st) override {
    newCommon(s, st);
    hasDefault = s.chance(1, 3);
    def.clear();
    for (size_t k = hasDefault ? s.size(5) : 0; k > 0; k--) {
      string key = text(s, st, 10);
      def[key] = value<T>(s, st);
    }
  }
  void store(vrs::DataPiece* piece) const override {
    static_cast<vrs::DataPieceStringMap<T>*>(piece)->stage(val);
    REQUIRE(same(static_cast<const vrs::DataPieceStringMap<T>*>(piece)->stagedValues(), val));
  }
  string checkValue(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceStringMap<T>*>(piece);
    map<string, T> v;
    if (!p->isAvailable()) {
      return "not available";
    }
    if (!p->get(v) || !same(v, val)) {
      return "got " + showValue(v) + " expected " + showValue(val);
    }
    return {};
  }
  string checkDefault(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceStringMap<T>*>(piece);
    map<string, T> v;
    if (p->isAvailable()) {
      return "available";
    }
    if (p->get(v)) {
      return "get says it has a value";
    }
    if (!same(v, def)) {
      return "default: got " + showValue(v) + " expected " + showValue(def);
    }
    return {};
  }
  string checkProperties(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceStringMap<T>*>(piece);
    return checkCommon(piece) + (same(p->getDefault(), def) ? "" : " default " + showValue(p->getDefault()) + " expected " + showValue(def));
  }
  bool patch(const vrs::DataPiece* piece) const override {
    return static_cast<const vrs::DataPieceStringMap<T>*>(piece)->patchValue(val);
  }
  string showIt() const override {
    return showValue(val);
  }
  const vrs::DataPiece* find(const vrs::DataLayout& layout) const override {
    return layout.findDataPieceStringMap<T>(label);
  }
  size_t varSize() const override {
    size_t n = 0;
    for (auto& v : val) {
      n += sizeof(uint32_t) + v.first.size() + encodedSize(v.second);
    }
    return n;
  }
  string jsonValue() const override {
    return json(val);
  }
  string jsonDefault() const override {
    return json(def);
  }
  string jsonProperties() const override {
    return {};
  }
  string printed() const override {
    return {};
  }
  bool changeDefinition() override {
    hasDefault = true;
    def["another key"] = T{};
    return true;
  }
  bool hasNoNaN() const override {
    return noNaN(def);
  }
  size_t fixedSize() const override {
    return 8; // index
  }
  void valueToDefault() override {
    val = def;
  }
  void valueToZero() override {
    val.clear();
  }
};

struct StringField : Field {
  string val, def;
  StringField() {
    kind = Kind::String;
    typeName = "string";
  }
  unique_ptr<Field> clone() const override {
    return std::make_unique<StringField>(*this);
  }
  unique_ptr<vrs::DataPiece> makePiece() const override {
    auto p = std::make_unique<vrs::DataPieceString>(label);
    common(*p);
    if (hasDefault) {
      p->setDefault(def);
    }
    return p;
  }
  void newValue(pbt::Src& s, const ValueStyle& st) override {
    val = value<string>(s, st);
  }
  void newProperties(pbt::Src& s, const ValueStyle& st) override {
    newCommon(s, st);
    hasDefault = s.chance(1, 3);
    def = hasDefault ? text(s, st, 20) : string();
  }
  void store(vrs::DataPiece* piece) const override {
    static_cast<vrs::DataPieceString*>(piece)->stage(val);
    REQUIRE(static_cast<const vrs::DataPieceString*>(piece)->stagedValue() == val);
  }
  string checkValue(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceString*>(piece);
    string v;
    if (!p->isAvailable()) {
      return "not available";
    }
    if (!p->get(v) || v != val || p->get() != val) {
      return "got " + showValue(v) + " expected " + showValue(val);
    }
    return {};
  }
  string checkDefault(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceString*>(piece);
    string v;
    if (p->isAvailable()) {
      return "available";
    }
    if (p->get(v)) {
      return "get says it has a value";
    }
    if (v != def || p->get() != def) {
      return "default: got " + showValue(v) + " expected " + showValue(def);
    }
    return {};
  }
  string checkProperties(const vrs::DataPiece* piece) const override {
    auto* p = static_cast<const vrs::DataPieceString*>(piece);
    return checkCommon(piece) + (p->getDefault() == def ? "" : " default " + showValue(p->getDefault()) + " expected " + showValue(def));
  }
  bool patch(const vrs::DataPiece* piece) const override {
    return static_cast<const vrs::DataPieceString*>(piece)->patchValue(val);
  }
  string showIt() const override {
    return showValue(val);
  }
  const vrs::DataPiece* find(const vrs::DataLayout& layout) const override {
    return layout.findDataPieceString(label);
  }
  size_t varSize() const override {
    return val.size();
  }
  string jsonValue() const override {
    return jsonText(val);
  }
  string jsonDefault() const override {
    return def.empty() ? "" : jsonText(def);
  }
  string jsonProperties() const override {
    return {};
  }
  string printed() const override {
    return "\"" + printableText(val) + "\"";
  }
  bool changeDefinition() override {
    hasDefault = true;
    def += "!";
    return true;
  }
  bool hasNoNaN() const override {
    return true;
  }
  size_t fixedSize() const override {
    return 8; // index
  }
  void valueToDefault() override {
    val = def;
  }
  void valueToZero() override {
    val.clear();
  }
};

template <template <class> class F>
unique_ptr<Field> makePodField(size_t typeIndex) {
  size_t k = 0;
#define LAY_CASE(T)                    \
  if (k++ == typeIndex) {              \
    return std::make_unique<F<T>>();   \
  }
  LAY_ALL_PODS(LAY_CASE)
#undef LAY_CASE
  return std::make_unique<F<uint8_t>>();
}


} // namespace lay
