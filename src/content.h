// Streams with record formats: generated content blocks, data layouts, and payloads.
#pragma once

#include <vrs/ContentBlockReader.h>
#include <vrs/DataLayoutConventions.h>
#include <vrs/RecordFormat.h>
#include <vrs/RecordFormatStreamPlayer.h>

#include "layoutgen.h"
#include "vrsgen.h"

namespace content {

using gen::Bytes;
using std::string;
using std::vector;
using vrs::ContentBlock;
using vrs::ContentType;
using vrs::Record;

/// A stream which writes records of its declared formats
class FormatStream : public gen::GenStream {
 public:
  using gen::GenStream::GenStream;
  using vrs::Recordable::addRecordFormat;
};

/// a content block of a generated record format
struct Block {
  ContentType type = ContentType::EMPTY;
  string format; // as text
  std::optional<size_t> size; // as declared in the format
  lay::Layout layout;
  Bytes payload;
};

} // namespace content
