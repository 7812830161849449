// C12: data layout definitions and their json & text forms
#include <vrs/RecordFormat.h>
#include <vrs/os/System.h>
#include <vrs/helpers/Serialization.h>
#include <vrs/os/Utils.h>

#include "layoutgen.h"

using namespace lay;

namespace {

using Doc = vrs_rapidjson::Document;
using Json = vrs_rapidjson::Value;

bool parse(const string& text, Doc& doc) {
  doc.Parse<vrs_rapidjson::kParseFullPrecisionFlag | vrs_rapidjson::kParseNanAndInfFlag>(text.data(), text.size());
  return !doc.HasParseError();
}

string text(const Json& v) {
  if (v.IsString()) {
    return string(v.GetString(), v.GetStringLength());
  }
  vrs_rapidjson::StringBuffer b;
  vrs_rapidjson::Writer<vrs_rapidjson::StringBuffer, vrs_rapidjson::UTF8<>, vrs_rapidjson::UTF8<>, vrs_rapidjson::CrtAllocator, vrs_rapidjson::kWriteNanAndInfFlag> w(b);
  v.Accept(w);
  return b.GetString();
}

/// empty, or where these differ
string diff(const Json& a, const Json& b) {
  if (a.IsNumber() && b.IsNumber()) {
    if (a.IsDouble() != b.IsDouble()) {
      return "number type: " + text(a) + " / " + text(b);
    }
    if (a.IsDouble()) {
      double x = a.GetDouble(), y = b.GetDouble();
      return x == y || (x != x && y != y) ? "" : text(a) + " / " + text(b);
    }
    return text(a) == text(b) ? "" : text(a) + " / " + text(b);
  }
  if (a.GetType() != b.GetType()) {
    return "type: " + text(a) + " / " + text(b);
  }
  if (a.IsObject()) {
    if (a.MemberCount() != b.MemberCount()) {
      return "members: " + text(a) + " / " + text(b);
    }
    for (auto i = a.MemberBegin(); i != a.MemberEnd(); ++i) {
      bool found = false;
      for (auto j = b.MemberBegin(); j != b.MemberEnd() && !found; ++j) {
        if (text(i->name) == text(j->name)) {
          found = true;
          string d = diff(i->value, j->value);
          if (!d.empty()) {
            return text(i->name) + ": " + d;
          }
        }
      }
      if (!found) {
        return "no " + text(i->name);
      }
    }
    return {};
  }
  if (a.IsArray()) {
    if (a.Size() != b.Size()) {
      return "size: " + text(a) + " / " + text(b);
    }
    for (vrs_rapidjson::SizeType k = 0; k < a.Size(); k++) {
      string d = diff(a[k], b[k]);
      if (!d.empty()) {
        return "#" + std::to_string(k) + ": " + d;
      }
    }
    return {};
  }
  return text(a) == text(b) ? "" : pbt::show(text(a)) + " / " + pbt::show(text(b));
}

const char* kKinds[] = {"Value", "Array", "Vector", "StringMap", "String"};

string expectedJson(const Layout& def, const vrs::JsonFormatProfileSpec& p, bool values) {
  string r = string("{\"") + (p.publicNames ? "metadata" : "data_layout") + "\":[";
  size_t offset = 0, varIndex = 0;
  bool first = true;
  for (size_t k : orderOf(def)) {
    const Field& f = *def.fields[k];
    r += first ? "{" : ",{";
    first = false;
    bool comma = false;
    auto add = [&](const char* name, const string& v) {
      if (!v.empty()) {
        r += string(comma ? "," : "") + "\"" + name + "\":" + v;
        comma = true;
      }
    };
    if (p.value && values) {
      add("value", f.jsonValue());
    }
    if (p.name) {
      add("name", jsonText(f.label));
    }
    if (p.type) {
      string t = string(p.shortType ? "" : "DataPiece") + kKinds[(int)f.kind];
      add("type", jsonText(f.kind == Kind::String ? t : t + "<" + f.typeName + ">"));
    }
    if (p.index) {
      if (f.isVariable()) {
        add("index", std::to_string(varIndex++));
      } else {
        add("offset", std::to_string(offset));
        offset += f.fixedSize();
      }
      if (f.kind == Kind::Array) {
        add("size", std::to_string(f.arraySize()));
      }
    }
    if (p.tags && !f.tags.empty()) {
      string t;
      for (auto& e : f.tags) {
        t += (t.empty() ? "{" : ",") + jsonText(e.first) + ":" + jsonText(e.second);
      }
      add("tags", t + "}");
    }
    if (p.required && f.required) {
      add("required", "true");
    }
    if (p.defaults) {
      add("default", f.jsonDefault());
    }
    if (p.properties) {
      add("properties", f.jsonProperties());
    }
    r += "}";
  }
  return r + "]}";
}

void requireJson(const string& actual, const string& expected, const char* what) {
  Doc a, b;
  REQUIRE_MSG(parse(expected, b), "bad expectation: " << expected);
  REQUIRE_MSG(parse(actual, a), what << " isn't json: " << pbt::show(actual));
  string d = diff(a, b);
  REQUIRE_MSG(d.empty(), what << ": " << d);
}

string stripped(const string& s) {
  string r;
  for (char c : s) {
    if (c != ' ' && c != '\n') {
      r += c;
    }
  }
  return r;
}

ValueStyle jsonStyle(pbt::Src& s) {
  ValueStyle st;
  st.noNul = true; // strings read from json end at a nul
  st.finite = s.flip();
  st.maxText = s.chance(1, 8) ? 400 : 30;
  return st;
}

} // namespace

PBT_TEST(
    json,
    120000,
    2000000,
    "layouts of up to 10 fields of any kind and type, with defaults, properties, tags and any text: json text compared with one "
    "written independently, for any profile, and definitions read from that text; non-trivial: 2 fields or more; distinct by json") {
  ValueStyle st = jsonStyle(s);
  Layout def = genLayout(s, st, 10);
  c.note(def.str());
  Live w(def);
  w.store(def);
  w.collectVariableDataAndUpdateIndex();
  string json = w.asJson();
  requireJson(json, expectedJson(def, {}, true), "asJson()");
  auto r = vrs::DataLayout::makeFromJson(json);
  REQUIRE(r != nullptr);
  auto pieces = piecesOf(*r);
  auto order = orderOf(def);
  REQUIRE_EQ_MSG(pieces.size(), order.size(), "fields");
  bool numbers = true; // nan is never the same
  for (size_t k = 0; k < order.size(); k++) {
    const Field& f = *def.fields[order[k]];
    string err = f.checkProperties(pieces[k]);
    REQUIRE_MSG(err.empty(), "read from json: " << f.spec() << ": " << err);
    REQUIRE_MSG(f.find(*r) == pieces[k], "find " << f.spec());
    numbers = numbers && f.hasNoNaN();
  }
  REQUIRE_EQ(r->getListOfPiecesSpec(), w.getListOfPiecesSpec());
  REQUIRE_EQ(r->getFixedDataSizeNeeded(), w.getFixedDataSizeNeeded());
  REQUIRE_EQ(r->getContentBlock().asString(), w.getContentBlock().asString());
  REQUIRE_EQ(r->isSame(w), numbers);
  REQUIRE_EQ(w.isSame(*r), numbers);
  string json2 = r->asJson();
  requireJson(json2, expectedJson(def, {}, false), "asJson() of the layout read from json");

  // any profile
  vrs::JsonFormatProfileSpec p;
  if (s.flip()) {
    p = vrs::JsonFormatProfileSpec((vrs::JsonFormatProfile)s.below(4));
  } else {
    for (bool* b : {&p.publicNames, &p.prettyJson, &p.value, &p.name, &p.type, &p.shortType, &p.index, &p.defaults, &p.tags, &p.properties, &p.required}) {
      *b = s.flip();
    }
  }
  requireJson(w.asJson(p), expectedJson(def, p, true), "asJson(profile)");
  if (p.name && p.type && p.index && !p.publicNames && !p.shortType) { // enough to make a layout
    auto r2 = vrs::DataLayout::makeFromJson(w.asJson(p));
    REQUIRE(r2 != nullptr);
    REQUIRE_EQ(r2->getListOfPiecesSpec(), w.getListOfPiecesSpec());
  }

  // any change must be seen
  if (!def.fields.empty()) {
    Layout other = def;
    size_t k = s.below(def.fields.size());
    Field& f = *other.fields[k];
    string what;
    switch (s.draw(6)) {
      case 0:
        f.label += "x";
        what = "label";
        break;
      case 1:
        f.required = !f.required;
        what = "required";
        break;
      case 2:
        f.tags["tag"] = "x";
        what = "tag";
        break;
      case 3:
        other.fields.erase(other.fields.begin() + k);
        what = "one field less";
        break;
      case 4:
        if (f.setArraySize(f.arraySize() + 1)) {
          what = "array size";
          break;
        }
        [[fallthrough]];
      default:
        f.changeDefinition();
        what = "default or property";
        break;
    }
    Live o(other);
    REQUIRE_MSG(!o.isSame(w) && !w.isSame(o), "isSame() didn't see another " << what << " of " << def.fields[k]->spec());
    if (st.finite) {
      auto r3 = vrs::DataLayout::makeFromJson(o.asJson());
      REQUIRE_MSG(r3 != nullptr && r3->isSame(o) && !r3->isSame(w), "another " << what << " through json");
    }
  }
  if (def.fields.size() > 1) {
    c.nontrivial(json);
  }
  c.label("nan", !numbers);
}

PBT_TEST(
    printing,
    70000,
    600000,
    "layouts with values printed, actual, mapped or without data: nothing changes, every field is listed, and numbers and texts that "
    "fit are shown; non-trivial: 2 fields or more; distinct by text") {
  ValueStyle st;
  st.finite = s.flip();
  st.maxText = s.chance(1, 8) ? 600 : 30;
  st.maxCount = s.chance(1, 8) ? 200 : 12;
  Layout def = genLayout(s, st, 8, true);
  c.note(def.str());
  Live w(def);
  w.store(def);
  auto bytes = bytesOf(w);
  w.collectVariableDataAndUpdateIndex();
  string indent(s.below(4), ' ');
  std::ostringstream full, compact, again;
  w.printLayout(full, indent);
  w.printLayoutCompact(compact, indent);
  string f = full.str(), k = compact.str();
  string fs = stripped(f), ks = stripped(k);
  size_t pos = 0, cpos = 0;
  size_t offset = 0, varIndex = 0;
  for (size_t n : orderOf(def)) {
    const Field& d = *def.fields[n];
    std::ostringstream e;
    e << d.label;
    string value = d.printed();
    switch (d.kind) {
      case Kind::Value:
        e << "(" << d.typeName << ")@" << offset << "+" << d.fixedSize() << (d.required ? "required" : "") << ":" << stripped(value);
        break;
      case Kind::Array:
        e << "(" << d.typeName << "[" << d.arraySize() << "])@" << offset << "+" << d.fixedSize() << (d.required ? "required" : "") << ":"
          << stripped(value);
        break;
      case Kind::Vector:
        e << "(vector<" << d.typeName << ">)@" << varIndex << "x";
        break;
      case Kind::Map:
        e << "(stringMap<" << d.typeName << ">)@" << varIndex << "x";
        break;
      case Kind::String:
        e << "(string)@" << varIndex << (d.required ? "required" : "") << "=" << stripped(value);
        break;
    }
    pos = fs.find(stripped(e.str()), pos);
    REQUIRE_MSG(pos != string::npos, "printLayout() doesn't show " << pbt::show(e.str()) << " in " << pbt::show(f));
    pos += 1;
    if (d.kind == Kind::Vector && !value.empty()) {
      REQUIRE_MSG(fs.find(stripped(value), pos) != string::npos, "printLayout() doesn't show " << pbt::show(value));
    }
    (d.isVariable() ? varIndex : offset) += d.isVariable() ? 1 : d.fixedSize();

    // in compact form, what fits in half the width isn't truncated
    bool one = d.kind == Kind::Value || d.kind == Kind::String;
    string label = one ? d.label + ":" : d.label + "[";
    if (one && !value.empty() && d.label.size() + value.size() + 16 < vrs::os::getTerminalWidth()) {
      label += stripped(value);
    }
    cpos = ks.find(label, cpos);
    REQUIRE_MSG(cpos != string::npos, "printLayoutCompact() doesn't show " << pbt::show(label) << " in " << pbt::show(k));
    cpos += 1;
  }
  w.printLayout(again, indent);
  REQUIRE_MSG(again.str() == f, "printed differently the second time");
  REQUIRE_MSG(bytesOf(w) == bytes, "printing changed the data");

  // mapped to another definition, or without any data
  Layout other = def;
  if (!other.fields.empty() && s.flip()) {
    other.fields.erase(other.fields.begin() + s.below(other.fields.size()));
  }
  if (s.flip()) {
    auto extra = genField(s, st);
    extra->label = "unknown";
    other.fields.push_back(std::move(extra));
  }
  Live mapped(other);
  std::ostringstream m, e;
  mapped.getFixedData().clear();
  mapped.printLayout(e);
  mapped.printLayoutCompact(e);
  mapped.mapLayout(w);
  mapped.printLayout(m);
  mapped.printLayoutCompact(m);
  for (auto& field : other.fields) {
    REQUIRE_MSG(m.str().find(field->label) != string::npos && e.str().find(field->label) != string::npos, "no " << field->label);
  }
  if (def.fields.size() > 1) {
    c.nontrivial(f);
  }
}
