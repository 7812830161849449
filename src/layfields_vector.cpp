#include "layfields.h"

namespace lay {

unique_ptr<Field> makeVectorField(size_t podType, bool ofStrings) {
  if (ofStrings) {
    return std::make_unique<VectorField<string>>();
  }
  return makePodField<VectorField>(podType);
}
unique_ptr<Field> makeStringField() {
  return std::make_unique<StringField>();
}
unique_ptr<Field> fieldStr(const string& label, const string& v) {
  auto f = std::make_unique<StringField>();
  f->label = label;
  f->val = v;
  return f;
}

} // namespace lay
