#include "layfields.h"

namespace lay {

unique_ptr<Field> makeValueField(size_t podType) {
  return makePodField<ValueField>(podType);
}
template <class T>
static unique_ptr<Field> fixedField(const string& label, T v) {
  auto f = std::make_unique<ValueField<T>>();
  f->label = label;
  f->val = v;
  return f;
}
unique_ptr<Field> fieldU8(const string& label, uint8_t v) {
  return fixedField<uint8_t>(label, v);
}
unique_ptr<Field> fieldU32(const string& label, uint32_t v) {
  return fixedField<uint32_t>(label, v);
}
unique_ptr<Field> fieldF64(const string& label, double v) {
  return fixedField<double>(label, v);
}

} // namespace lay
