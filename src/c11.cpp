// C11: the values of data layouts survive storage and schema changes
#include <vrs/RecordFileReader.h>
#include <vrs/RecordFileWriter.h>

#include "content.h"
#include "recording.h"

using namespace lay;
using gen::Bytes;

namespace {

void load(vrs::DataLayout& layout, const Bytes& bytes) {
  size_t fixed = layout.getFixedDataSizeNeeded();
  layout.getFixedData().assign((const int8_t*)bytes.data(), (const int8_t*)bytes.data() + std::min(fixed, bytes.size()));
  size_t var = layout.getVarDataSizeFromIndex();
  REQUIRE_EQ_MSG(fixed + var, bytes.size(), "size told by the index");
  layout.getVarData().assign((const int8_t*)bytes.data() + fixed, (const int8_t*)bytes.data() + fixed + var);
}

bool hasDuplicate(const Layout& l, const Field& f, size_t except = ~(size_t)0) {
  for (size_t k = 0; k < l.fields.size(); k++) {
    if (k != except && l.fields[k]->matches(f)) {
      return true;
    }
  }
  return false;
}

const Field* matching(const Layout& l, const Field& f) {
  for (auto& g : l.fields) {
    if (g->matches(f)) {
      return g.get();
    }
  }
  return nullptr;
}

/// a different version of a layout
Layout evolve(pbt::Src& s, const Layout& from, const ValueStyle& st, std::ostringstream& note) {
  Layout to = from;
  auto& v = to.fields;
  size_t edits = s.size(6);
  for (size_t e = 0; e < edits; e++) {
    size_t k = v.empty() ? 0 : s.below(v.size());
    switch (s.weighted({3, 3, 3, 2, 2, 2, 2, 2})) {
      case 0:
        if (!v.empty()) {
          note << " -" << v[k]->label;
          v.erase(v.begin() + k);
        }
        break;
      case 1: {
        auto f = genField(s, st);
        f->label = s.flip() || v.empty() ? s.ident(6) : v[s.below(v.size())]->label; // maybe another type with the same label
        if (!hasDuplicate(to, *f)) {
          note << " +" << f->spec();
          v.insert(v.begin() + (v.empty() ? 0 : s.below(v.size() + 1)), std::move(f));
        }
        break;
      }
      case 2:
        if (v.size() > 1) { // move
          auto f = std::move(v[k]);
          v.erase(v.begin() + k);
          v.insert(v.begin() + s.below(v.size() + 1), std::move(f));
          note << " mv";
        }
        break;
      case 3: // another type
        if (!v.empty()) {
          auto f = genField(s, st);
          f->label = v[k]->label;
          if (!hasDuplicate(to, *f, k)) {
            note << " ty:" << v[k]->spec() << "->" << f->spec();
            v[k] = std::move(f);
          }
        }
        break;
      case 4: // another array size
        if (!v.empty() && v[k]->kind == Kind::Array) {
          auto f = v[k]->clone();
          f->setArraySize(f->arraySize() + 1 + s.below(3));
          if (!hasDuplicate(to, *f, k)) {
            v[k] = std::move(f);
            note << " sz:" << v[k]->label;
          }
        }
        break;
      case 5: // another name
        if (!v.empty()) {
          auto f = v[k]->clone();
          f->label += s.flip() ? "_" : s.ident(2);
          if (!hasDuplicate(to, *f, k)) {
            v[k] = std::move(f);
            note << " nm:" << v[k]->label;
          }
        }
        break;
      case 6: // other properties: these don't matter
        if (!v.empty()) {
          size_t n = v[k]->arraySize();
          auto f = v[k]->clone();
          f->newProperties(s, st);
          if (f->arraySize() != n) {
            f->setArraySize(n);
          }
          v[k] = std::move(f);
        }
        break;
      default:
        if (!v.empty()) {
          v[k]->required = !v[k]->required;
        }
        break;
    }
  }
  return to;
}

struct Expect {
  size_t fixed = 0, var = 0, defaults = 0;
  bool all = true;
};

/// check that a layout reads as the data of another one
Expect requireMapped(const vector<vrs::DataPiece*>& pieces, const Layout& want, const Layout& file, const char* what) {
  Expect x;
  for (size_t k = 0; k < want.fields.size(); k++) {
    const Field& f = *want.fields[k];
    const Field* from = matching(file, f);
    string err;
    if (from != nullptr) {
      err = from->checkValue(pieces[k]);
      (f.isVariable() ? x.var : x.fixed)++;
    } else {
      err = f.checkDefault(pieces[k]);
      x.defaults++;
      x.all = x.all && !f.required;
    }
    REQUIRE_MSG(err.empty(), what << ": " << f.spec() << (from ? " in " : " not in ") << "the file: " << err);
  }
  return x;
}

ValueStyle anyStyle(pbt::Src& s) {
  ValueStyle st;
  st.finite = s.chance(1, 3);
  st.maxText = s.chance(1, 8) ? 3000 : 40;
  st.maxCount = s.chance(1, 8) ? 300 : 12;
  return st;
}

string showSchemas(const Layout& a, const Layout& b) {
  return a.str() + " / " + b.str();
}

} // namespace

PBT_TEST(
    values,
    60000,
    1500000,
    "layouts of up to 12 fields of any kind and type: values set, collected to a buffer, and read back from copies of the layout "
    "made in several ways, staged and collected again, edited, and read with missing data; non-trivial: 2 fields or more with "
    "data; distinct by bytes") {
  ValueStyle st = anyStyle(s);
  Layout def = genLayout(s, st, 12);
  c.note(def.str());
  Live w(def);
  for (size_t k = 0; k < def.fields.size(); k++) {
    string err = def.fields[k]->checkProperties(w.pieces[k]);
    REQUIRE_MSG(err.empty(), def.fields[k]->spec() << ": " << err);
  }
  REQUIRE_EQ_MSG(w.getFixedDataSizeNeeded(), def.fixedSize(), "fixed size");
  size_t vars = 0;
  for (auto& f : def.fields) {
    vars += f->isVariable();
  }
  REQUIRE_EQ(w.getDeclaredVarDataPiecesCount(), vars);
  REQUIRE_EQ(w.getDeclaredFixedDataPiecesCount(), def.fields.size() - vars);
  if (s.flip()) {
    Layout init = def;
    for (auto& f : init.fields) {
      f->valueToDefault();
    }
    w.store(def);
    w.initDataPiecesToDefaultValue();
    w.collectVariableDataAndUpdateIndex();
    requireValues(w, init, "initDataPiecesToDefaultValue()");
  }
  w.store(def);
  REQUIRE_EQ_MSG(w.getVarDataSizeNeeded(), def.varSize(), "variable size");
  w.collectVariableDataAndUpdateIndex();
  requireValues(w, def, "as written");
  REQUIRE(w.isVarDataIndexValid());
  REQUIRE_EQ(w.getAvailableFixedDataPiecesCount(), def.fields.size() - vars);
  REQUIRE_EQ(w.getAvailableVarDataPiecesCount(), vars);
  for (size_t k = 0; k < def.fields.size(); k++) {
    REQUIRE_MSG(def.fields[k]->find(w) == w.pieces[k], "find " << def.fields[k]->spec());
  }
  Bytes bytes = bytesOf(w);
  REQUIRE_EQ_MSG(bytes.size(), def.fixedSize() + def.varSize(), "total size");
  vector<int8_t> raw;
  w.getRawData(raw);
  REQUIRE_MSG(raw.size() == bytes.size() && memcmp(raw.data(), bytes.data(), raw.size()) == 0, "getRawData()");
  if (def.varSize() > 0) { // a mutable destination doesn't change anything but the index
    REQUIRE_EQ(w.getVarData().size(), def.varSize());
  }

  std::unique_ptr<vrs::DataLayout> r;
  bool plain = true; // no nul in labels, which json text can't have
  for (auto& f : def.fields) {
    plain = plain && f->label.find('\0') == string::npos;
  }
  int how = plain ? (int)s.draw(2) : 0;
  switch (how) {
    case 1:
      r = vrs::DataLayout::makeFromJson(w.asJson());
      REQUIRE_MSG(r != nullptr, "makeFromJson");
      break;
    case 2:
      {
        auto copy = std::make_unique<vrs::ManualDataLayout>(static_cast<vrs::DataLayout&>(w));
        copy->endLayout();
        r = std::move(copy);
      }
      REQUIRE_MSG(r->isSame(w) || !st.finite, "copy of the definition");
      break;
    default:
      r = std::make_unique<Live>(def);
      break;
  }
  load(*r, bytes);
  REQUIRE(r->isVarDataIndexValid());
  requireValues(*r, def, how == 1 ? "read with a json definition" : how == 2 ? "read with a copied definition" : "read");
  r->stageCurrentValues();
  REQUIRE_MSG(bytesOf(*r) == bytes, "staged and collected again");

  // edit some fields
  if (!def.fields.empty()) {
    Layout edited = def;
    auto order = orderOf(def);
    auto pieces = piecesOf(*r);
    for (size_t n = 1 + s.size(2); n > 0; n--) {
      size_t p = s.below(order.size());
      auto& f = edited.fields[order[p]];
      f->newValue(s, st);
      f->store(pieces[p]);
    }
    Bytes b2 = bytesOf(*r);
    std::unique_ptr<vrs::DataLayout> r2 = std::make_unique<Live>(edited);
    load(*r2, b2);
    requireValues(*r2, edited, "edited");
  }

  // missing data
  {
    Live m(def);
    auto& fixed = m.getFixedData();
    size_t keep = s.below(bytes.size() + 1);
    if (keep >= def.fixedSize()) {
      fixed.assign((const int8_t*)bytes.data(), (const int8_t*)bytes.data() + def.fixedSize());
      m.getVarData().assign((const int8_t*)bytes.data() + def.fixedSize(), (const int8_t*)bytes.data() + keep);
      size_t left = keep - def.fixedSize();
      size_t end = 0;
      for (size_t k : orderOf(def)) {
        auto& f = def.fields[k];
        end += f->varSize();
        string err;
        if (end <= left || !f->isVariable()) {
          err = f->checkValue(m.pieces[k]);
        } else if (m.pieces[k]->isAvailable()) {
          err = "available";
        }
        REQUIRE_MSG(err.empty(), "with " << left << " bytes of variable data out of " << def.varSize() << ", " << f->spec() << ": " << err);
      }
      REQUIRE_EQ(m.isVarDataIndexValid(), keep == bytes.size());
    }
  }
  if (def.fields.size() > 1 && bytes.size() > 4) {
    c.nontrivial(pbt::hashBytes(bytes.data(), bytes.size(), def.fields.size()));
  }
  c.label("json", how == 1);
  c.label("variable data", def.varSize() > 0);
}

PBT_TEST(
    schemaChanges,
    80000,
    2000000,
    "data of one schema read with another one, made by adding, removing, renaming, moving, retyping or resizing fields: values of "
    "the fields which match, defaults for others, required fields, counts, copies to actual layouts, and patches; non-trivial: some "
    "fields match and some don't; distinct by schemas") {
  ValueStyle st = anyStyle(s);
  Layout a = genLayout(s, st, 10);
  std::ostringstream note;
  Layout b = evolve(s, a, st, note);
  c.note(showSchemas(a, b) + note.str());
  b.newValues(s, st); // values that must not be seen
  Live source(a);
  source.store(a);
  Bytes bytes = bytesOf(source);
  std::unique_ptr<vrs::DataLayout> file;
  bool plain = true;
  for (auto& f : a.fields) {
    plain = plain && f->label.find('\0') == string::npos;
  }
  if (plain && s.flip()) {
    file = vrs::DataLayout::makeFromJson(source.asJson());
    REQUIRE(file != nullptr);
  } else {
    file = std::make_unique<Live>(a);
  }
  Live want(b);
  REQUIRE(!want.isMapped());
  REQUIRE(want.hasAllRequiredPieces());
  bool late = s.flip(); // map before or after the data is there
  if (!late) {
    want.mapLayout(*file);
  }
  load(*file, bytes);
  if (late) {
    want.mapLayout(*file);
  }
  if (s.chance(1, 4)) { // map to something else, and back
    Live other(b);
    want.mapLayout(other);
    want.mapLayout(*file);
  }
  bool all = want.mapLayout(*file);
  Expect x = requireMapped(want.pieces, b, a, "mapped");
  REQUIRE(want.isMapped());
  REQUIRE_EQ_MSG(all, x.all, "mapLayout()");
  REQUIRE_EQ_MSG(want.hasAllRequiredPieces(), x.all, "hasAllRequiredPieces()");
  REQUIRE_EQ(want.getAvailableFixedDataPiecesCount(), x.fixed);
  REQUIRE_EQ(want.getAvailableVarDataPiecesCount(), x.var);
  REQUIRE(want.isVarDataIndexValid());
  REQUIRE_EQ(want.getVarDataSizeFromIndex(), a.varSize());
  vector<int8_t> raw;
  want.getRawData(raw);
  REQUIRE_MSG(raw.size() == bytes.size() && memcmp(raw.data(), bytes.data(), raw.size()) == 0, "raw data of a mapped layout");
  {
    Live strict(b);
    strict.requireAllPieces();
    strict.mapLayout(*file);
    REQUIRE_EQ_MSG(strict.hasAllRequiredPieces(), x.defaults == 0, "requireAllPieces()");
  }
  // copy to a real layout with the same definition
  {
    Layout merged = b;
    Live dst(b);
    dst.store(b);
    dst.collectVariableDataAndUpdateIndex();
    size_t n = dst.copyDataPieceValuesFromMappedLayout(want);
    REQUIRE_EQ_MSG(n, x.fixed + x.var, "fields copied");
    dst.collectVariableDataAndUpdateIndex();
    for (size_t k = 0; k < b.fields.size(); k++) {
      const Field* from = matching(a, *b.fields[k]);
      string err = (from ? from : b.fields[k].get())->checkValue(dst.pieces[k]);
      REQUIRE_MSG(err.empty(), "copyDataPieceValuesFromMappedLayout(): " << b.fields[k]->spec() << (from ? " copied" : " kept") << ": " << err);
    }
  }
  // a clone with more fields
  for (int mapped = 0; mapped < 2; mapped++) {
    const Layout& base = mapped ? b : a;
    Layout extra;
    Layout full = base;
    for (size_t k = s.size(3); k > 0; k--) {
      auto f = genField(s, st);
      f->label = s.ident(6);
      f->newValue(s, st);
      if (!hasDuplicate(full, *f)) {
        full.fields.push_back(f->clone());
        extra.fields.push_back(std::move(f));
      }
    }
    vrs::ManualDataLayout clone(mapped ? (vrs::DataLayout&)want : *file);
    vector<vrs::DataPiece*> extraPieces;
    for (auto& f : extra.fields) {
      extraPieces.push_back(clone.add(f->makePiece()));
    }
    clone.endLayout();
    bool before = s.flip();
    if (before) {
      clone.initDataPiecesToDefaultValue();
      for (size_t k = 0; k < extraPieces.size(); k++) {
        extra.fields[k]->store(extraPieces[k]);
      }
    }
    REQUIRE_MSG(clone.copyClonedDataPieceValues(mapped ? (vrs::DataLayout&)want : *file), "copyClonedDataPieceValues");
    if (!before) {
      for (size_t k = 0; k < extraPieces.size(); k++) {
        extra.fields[k]->store(extraPieces[k]);
      }
    }
    clone.collectVariableDataAndUpdateIndex();
    if (mapped) { // what the mapped layout reads as
      for (auto& f : full.fields) {
        const Field* from = hasDuplicate(b, *f) ? matching(a, *f) : nullptr;
        if (from) {
          f = from->clone();
        } else if (hasDuplicate(b, *f)) {
          f->valueToDefault();
        }
      }
    }
    REQUIRE(clone.isVarDataIndexValid());
    requireValues(clone, full, mapped ? "clone of a mapped layout" : "clone");
  }
  // patches of the fields found
  {
    Layout patched = a;
    file->stageCurrentValues();
    for (size_t n = s.size(3); n > 0 && !b.fields.empty(); n--) {
      size_t k = s.below(b.fields.size());
      auto f = b.fields[k]->clone();
      f->newValue(s, st);
      bool found = false;
      for (auto& g : patched.fields) {
        if (g->matches(*f)) {
          found = true;
          auto v = f->clone();
          v->required = g->required;
          g = std::move(v);
        }
      }
      REQUIRE_EQ_MSG(f->patch(want.pieces[k]), found && !(f->kind == Kind::Array && f->arraySize() == 0), "patch " << f->spec());
    }
    Bytes b2 = bytesOf(*file);
    Live r(patched);
    load(r, b2);
    requireValues(r, patched, "patched");
  }
  if (x.fixed + x.var > 0 && x.defaults > 0) {
    c.nontrivial(showSchemas(a, b));
  }
  c.label("missing required", !x.all);
}

// -- files ---------------------------------------------------------------------------------------
namespace {

const Layout* sWanted[2] = {};

template <int N>
struct Wanted : Live {
  Wanted() : Live(*sWanted[N]) {}
};

struct Version {
  Layout layout;
  size_t blocks = 1;
  vector<Layout> extra; // other blocks
};

class Writer : public content::FormatStream {
 public:
  using FormatStream::FormatStream;
  const vrs::Record* put(vrs::Record::Type type, double ts, uint32_t version, const vector<Live*>& blocks) {
    switch (blocks.size()) {
      case 1:
        return createRecord(ts, type, version, vrs::DataSource(*blocks[0]));
      case 2:
        return createRecord(ts, type, version, vrs::DataSource(*blocks[0], *blocks[1]));
      default:
        return nullptr;
    }
  }
};

struct Row {
  vrs::Record::Type type;
  double ts;
  uint32_t version;
  vector<Layout> values;
};

class Player : public vrs::RecordFormatStreamPlayer {
 public:
  Player(const vector<Row>& rows, uint64_t mode) : rows_{rows}, mode_{mode} {}
  size_t row = 0, seen = 0, matched = 0, defaulted = 0;

  bool onDataLayoutRead(const vrs::CurrentRecord& record, size_t block, vrs::DataLayout& layout) override {
    REQUIRE_MSG(block < rows_[row].values.size(), "block " << block);
    const Layout& def = rows_[row].values[block];
    requireValues(layout, def, "layout read from the file, row " + std::to_string(row));
    if (mode_ & 1) {
      check(getExpectedLayout<Wanted<0>>(layout, block), *sWanted[0], def);
    }
    if (mode_ & 2) {
      check(getLegacyLayout<Wanted<1>>(layout, block), *sWanted[1], def);
    }
    seen++;
    (void)record;
    return true;
  }

 private:
  template <class W>
  void check(W& w, const Layout& wanted, const Layout& def) {
    Expect x = requireMapped(w.pieces, wanted, def, "expected layout");
    REQUIRE_EQ(w.hasAllRequiredPieces(), x.all);
    matched += x.fixed + x.var;
    defaulted += x.defaults;
  }
  const vector<Row>& rows_;
  uint64_t mode_;
};

} // namespace

PBT_TEST(
    files,
    12000,
    300000,
    "recordings of streams with several format versions of data layouts, each a variation of one schema, one or two per record, read "
    "in any order with layouts expected by the reader; non-trivial: several versions read, with fields found and fields missing; "
    "distinct by schemas") {
  ValueStyle st;
  st.finite = s.flip();
  Layout first = genLayout(s, st, 6, true);
  std::ostringstream note;
  vector<Version> versions(1 + s.size(3));
  for (size_t k = 0; k < versions.size(); k++) {
    versions[k].layout = k == 0 ? first : evolve(s, versions[s.below(k)].layout, st, note);
    versions[k].layout.newValues(s, st);
    if (s.chance(1, 3)) {
      versions[k].extra.push_back(evolve(s, first, st, note));
    }
    note << " v" << k << versions[k].layout.str() << (versions[k].extra.empty() ? "" : versions[k].extra[0].str());
  }
  Layout wanted0 = evolve(s, first, st, note), wanted1 = evolve(s, versions.back().layout, st, note);
  sWanted[0] = &wanted0;
  sWanted[1] = &wanted1;
  c.note(note.str());

  vector<Row> rows;
  Writer stream(vrs::RecordableTypeId::UnitTest1, "x/y", nullptr);
  stream.setCompression(gen::genPreset(s));
  string path = c.dir() + "/s.vrs";
  size_t maxRows = 1 + s.size(12);
  static const vrs::Record::Type kTypes[] = {vrs::Record::Type::CONFIGURATION, vrs::Record::Type::STATE, vrs::Record::Type::DATA};
  vector<vrs::Record::Type> typeOf;
  {
    vrs::RecordFileWriter writer;
    writer.addRecordable(&stream);
    for (size_t k = 0; k < versions.size(); k++) {
      Version& v = versions[k];
      Live l(v.layout);
      vrs::Record::Type type = kTypes[s.below(3)];
      typeOf.push_back(type);
      if (v.extra.empty()) {
        stream.addRecordFormat(type, (uint32_t)k + 1, l.getContentBlock(), {&l});
      } else {
        Live l2(v.extra[0]);
        stream.addRecordFormat(type, (uint32_t)k + 1, l.getContentBlock() + l2.getContentBlock(), {&l, &l2});
      }
    }
    vector<std::unique_ptr<Live>> lives;
    for (size_t k = 0; k < maxRows; k++) {
      size_t v = s.below(versions.size());
      Row row{typeOf[v], (double)k, (uint32_t)v + 1, {}};
      row.values.push_back(versions[v].layout);
      for (auto& e : versions[v].extra) {
        row.values.push_back(e);
      }
      vector<std::unique_ptr<Live>> lives2;
      vector<Live*> ptrs;
      for (auto& l : row.values) {
        l.newValues(s, st);
        lives2.push_back(std::make_unique<Live>(l));
        lives2.back()->store(l);
        ptrs.push_back(lives2.back().get());
      }
      stream.put(row.type, row.ts, row.version, ptrs);
      rows.push_back(std::move(row));
    }
    REQUIRE_EQ(writer.writeToFile(path), 0);
  }
  vrs::RecordFileReader reader;
  REQUIRE_EQ(reader.openFile(path), 0);
  const auto& index = reader.getIndex();
  REQUIRE_EQ(index.size(), rows.size());
  Player player(rows, s.draw(3));
  reader.setStreamPlayer(*reader.getStreams().begin(), &player);
  size_t blocks = 0, reads = rows.size() + s.size(8);
  std::set<uint32_t> seen;
  for (size_t k = 0; k < reads; k++) {
    player.row = k < rows.size() ? k : s.below(rows.size());
    blocks += rows[player.row].values.size();
    seen.insert(rows[player.row].version);
    REQUIRE_EQ(reader.readRecord(index[player.row]), 0);
    REQUIRE_EQ_MSG(player.seen, blocks, "layouts read, row " << player.row << " version " << rows[player.row].version);
  }
  // definitions
  auto id = *reader.getStreams().begin();
  for (size_t k = 0; k < versions.size(); k++) {
    auto l = reader.getDataLayout(id, vrs::ContentBlockId(id.getTypeId(), typeOf[k], (uint32_t)k + 1, 0));
    REQUIRE(l != nullptr);
    Live original(versions[k].layout);
    REQUIRE_EQ(l->getListOfPiecesSpec(), original.getListOfPiecesSpec());
  }
  if (seen.size() > 1 && player.matched > 0 && player.defaulted > 0) {
    c.nontrivial(note.str());
  }
}

// -- declared layouts ----------------------------------------------------------------------------
namespace {

struct Pose : vrs::DataLayoutStruct {
  DATA_LAYOUT_STRUCT(Pose)
  vrs::DataPieceValue<double> time{"time"};
  vrs::DataPieceArray<float> xyz{"xyz", 3};
  vrs::DataPieceString name{"name"};
};
struct Rig : vrs::DataLayoutStruct {
  DATA_LAYOUT_STRUCT(Rig)
  Pose head{"head"};
  vrs::DataPieceVector<std::string> parts{"parts"};
  vrs::DataLayoutStructArray<Pose, 3> hands{"hands"};
};
struct Options {
  vrs::DataPieceValue<vrs::Bool> flag{"flag"};
  vrs::DataPieceStringMap<int32_t> counters{"counters"};
};
bool sOptions = false;
struct Declared : vrs::AutoDataLayout {
  vrs::DataPieceValue<uint32_t> before{"before"};
  Rig rig{"rig"};
  vrs::OptionalDataPieces<Options> options{sOptions};
  vrs::DataPieceVector<vrs::Point3Di> after{"after"};
  vrs::AutoDataLayoutEnd end;
};
struct PoseV {
  double time;
  float xyz[3];
  string name;
};
struct DeclaredV {
  uint32_t before;
  PoseV poses[4]; // head & hands
  vector<string> parts;
  vrs::Bool flag;
  map<string, int32_t> counters;
  vector<vrs::Point3Di> after;
};

void forEachPose(Declared& d, const std::function<void(Pose&, int)>& f) {
  f(d.rig.head, 0);
  for (int k = 0; k < 3; k++) {
    f(d.rig.hands[k], k + 1);
  }
}

} // namespace

PBT_TEST(
    declared,
    20000,
    400000,
    "a declared layout with nested structs, arrays of structs and optional fields, written and read by layouts with or without these "
    "optional fields; non-trivial: all; distinct by bytes") {
  DeclaredV v;
  v.before = (uint32_t)s.interesting(32);
  for (auto& p : v.poses) {
    p.time = s.real();
    for (auto& x : p.xyz) {
      x = (float)s.range(-1000, 1000) / 8;
    }
    p.name = s.anyText(12);
  }
  for (size_t k = s.size(4); k > 0; k--) {
    v.parts.push_back(s.anyText(9));
  }
  v.flag = s.flip();
  for (size_t k = s.size(4); k > 0; k--) {
    v.counters[s.ident(4)] = (int32_t)s.interesting(32);
  }
  for (size_t k = s.size(4); k > 0; k--) {
    v.after.emplace_back((int32_t)k, 7, -(int32_t)k);
  }
  bool writeOptions = s.flip(), readOptions = s.flip();
  sOptions = writeOptions;
  Declared w;
  w.before.set(v.before);
  forEachPose(w, [&](Pose& p, int k) {
    p.time.set(v.poses[k].time);
    p.xyz.set(v.poses[k].xyz, 3);
    p.name.stage(v.poses[k].name);
  });
  w.rig.parts.stage(v.parts);
  REQUIRE_EQ((bool)w.options, writeOptions);
  if (w.options) {
    w.options->flag.set(v.flag);
    w.options->counters.stage(v.counters);
  }
  w.after.stage(v.after);
  Bytes bytes = bytesOf(w);
  auto file = vrs::DataLayout::makeFromJson(w.asJson());
  REQUIRE(file != nullptr);
  load(*file, bytes);
  std::multiset<string> labels, expected = {"before", "rig/parts", "after"};
  for (string p : {"rig/head", "rig/hands/0", "rig/hands/1", "rig/hands/2"}) {
    expected.insert({p + "/time", p + "/xyz", p + "/name"});
  }
  if (writeOptions) {
    expected.insert({"flag", "counters"});
  }
  file->forEachDataPiece([&](vrs::DataPiece* p) { labels.insert(p->getLabel()); });
  REQUIRE_MSG(labels == expected, "labels of nested fields");
  sOptions = readOptions;
  Declared r;
  r.mapLayout(*file);
  REQUIRE_EQ(r.before.get(), v.before);
  forEachPose(r, [&](Pose& p, int k) {
    REQUIRE(p.time.get() == v.poses[k].time);
    vector<float> xyz;
    REQUIRE(p.xyz.get(xyz) && xyz == vector<float>(v.poses[k].xyz, v.poses[k].xyz + 3));
    REQUIRE_EQ(p.name.get(), v.poses[k].name);
  });
  vector<string> parts;
  REQUIRE(r.rig.parts.get(parts) && parts == v.parts);
  vector<vrs::Point3Di> after;
  REQUIRE(r.after.get(after) && after == v.after);
  if (readOptions) {
    map<string, int32_t> counters;
    REQUIRE_EQ(r.options->flag.isAvailable(), writeOptions);
    REQUIRE_EQ(r.options->counters.get(counters), writeOptions);
    REQUIRE(r.options->flag.get() == (writeOptions ? v.flag : vrs::Bool(false)));
    REQUIRE(counters == (writeOptions ? v.counters : map<string, int32_t>{}));
  }
  c.nontrivial(pbt::hashBytes(bytes.data(), bytes.size(), readOptions));
  c.label("optional fields missing", readOptions && !writeOptions);
}
