#include "layfields.h"

namespace lay {

unique_ptr<Field> makeArrayField(size_t podType) {
  return makePodField<ArrayField>(podType);
}

} // namespace lay
