#include "layfields.h"

namespace lay {

unique_ptr<Field> makeMapField(size_t podType, bool ofStrings) {
  if (ofStrings) {
    return std::make_unique<MapField<string>>();
  }
  return makePodField<MapField>(podType);
}

} // namespace lay
