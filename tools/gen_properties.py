#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is easy to review and edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=hook)))

prop("C01", "A closed recording reads back exactly what was written",
 "For any set of streams, records, tags and compression settings, and for every way of writing a file (one-shot, asynchronous batches, direct-to-disk payloads, split head, size-limited chunks, pre-reserved index, any compression thread count), a file whose creation reported success reads back with exactly the records written: same stream, record type, timestamp, format version and payload bytes, none lost, duplicated or altered. Stream and file tags, stream flavors and serial numbers set before creation read back unchanged, and streams attached after creation appear with their own tags and records.",
 ["inputs","configurations","histories"], "all stream sets, record histories, payload contents/sizes, compression presets, chunk limits and writer modes",
 "The unit tests write a few fixed files with a handful of presets; they never combine late streams, chunk rollover, index preallocation and compression threads over arbitrary payloads.",
 ["vrs/RecordFileWriter.cpp","vrs/Record.cpp","vrs/IndexRecord.cpp","vrs/FileFormat.cpp","vrs/DescriptionRecord.cpp","vrs/TagsRecord.cpp","vrs/Compressor.cpp","vrs/Decompressor.cpp","vrs/RecordFileReader.cpp","vrs/DiskFile.cpp"],
 [("file creation modes","RecordFileWriter::writeToFile/createFileAsync/createChunkedFile"),("record compression","Record::compressRecord/writeRecord"),("index write","IndexRecord::Writer")],
 [("written records","sequence of (stream,type,timestamp,version,payload)","RecordFileWriter record batches"),("index","records in the file","RecordFileReader::getIndex")],
 ["RecordFileReader::getIndex/readAllRecords","RecordFileReader::getTags"])

prop("C02", "Records are presented in time order, stably",
 "A file's index lists all records ordered by timestamp, and records sharing a timestamp are ordered by stream, and within one stream in the order in which they were created, whatever the order and batches in which they were produced. Each stream's own list is exactly the file's list restricted to that stream, in the same order.",
 ["histories","inputs"], "all creation orders, timestamp ties, out-of-order creation across streams and batches",
 "Tests create records in increasing time order; ties, out-of-order batches and multi-batch interleavings are not enumerated.",
 ["vrs/RecordManager.cpp","vrs/RecordFileWriter.cpp","vrs/IndexRecord.cpp","vrs/RecordFileReader.cpp"],
 [("record sort","RecordFileWriter sorted record batches"),("index sort on read","IndexRecord::Reader")],
 [("record index","ordered list of records","RecordFileReader::recordIndex_")],
 ["RecordFileReader::getIndex(...)"])

prop("C03", "A truncated or crashed recording yields its complete records",
 "If a recording is cut at any byte after its file description, or its writer dies between any two writes to disk, opening it never crashes and recovers exactly the longest run of complete records from the start, each readable with its original content. Rebuilding the index in place leaves a file that opens as a normal, complete file with the same records, and doing so again changes nothing.",
 ["crash_points","inputs","histories"], "all truncation offsets and all write boundaries of arbitrary recordings, with and without in-place index repair",
 "Tests truncate a few fixed files at a few hand-picked offsets.",
 ["vrs/IndexRecord.cpp","vrs/RecordFileReader.cpp","vrs/RecordFileWriter.cpp","vrs/DiskFile.cpp"],
 [("index rebuild","IndexRecord::Reader::rebuildIndex"),("index repair","autoWriteFixedIndex")],
 [("file length / index validity","what a crash left on disk","FileHeader.indexRecordOffset")],
 ["RecordFileReader::openFile","RecordFileReader::hasIndex"])

prop("C04", "A failed write is reported, and earlier records stay readable",
 "If the storage layer fails a create, write, overwrite or close operation while a recording is being written, in any writer mode, the writer never reports success for a file that does not read back completely, and it neither crashes nor hangs. A failure to start a new chunk is tolerated: the recording goes on in the current chunk. A chunk announced as complete to a chunk handler never changes afterwards. The records already stored completely remain recoverable from what is on disk, and the same writer can be used to make another recording after a failure.",
 ["fault_sequences","configurations"], "every position of an injected storage error in arbitrary recordings, for every writer mode",
 "No test injects a storage error; all run on a healthy disk.",
 ["vrs/RecordFileWriter.cpp","vrs/Record.cpp","vrs/IndexRecord.cpp","vrs/Compressor.cpp","vrs/DiskFile.cpp"],
 [("error propagation","RecordFileWriter::writeRecords/completeClose"),("WriteFileHandler","pluggable storage")],
 [("last file error","writer's error state","RecordFileWriter::WriterThreadData")],
 ["RecordFileWriter::writeToFile/closeFileAsync/waitForFileClosed return codes"])

prop("C05", "Corrupted files are handled without crashing",
 "Opening, indexing, and reading every record and tag of a file with arbitrary damaged, hostile or truncated bytes, by the library or by the commands of the vrs tool (print, check, checksum, copy, extract...), returns errors or data, but never crashes, reads or writes out of bounds, overflows, loops forever, or allocates unbounded memory (out of proportion with the file and with the sizes its records and images declare, when these are plausible). A damaged record does not prevent records of other intact regions from being read with their exact original content.",
 ["inputs"], "all byte strings obtained by mutating valid recordings of every kind",
 "The tests only read well-formed files and a few truncations.",
 ["vrs/IndexRecord.cpp","vrs/RecordFileReader.cpp","vrs/DescriptionRecord.cpp","vrs/Decompressor.cpp","vrs/ContentBlockReader.cpp","vrs/DataLayout.cpp","vrs/RecordFormatStreamPlayer.cpp","vrs/FileDetailsCache.cpp","vrs/utils/Validation.cpp","vrs/utils/AudioExtractor.cpp","vrs/utils/cli/PrintRecordFormatRecords.cpp"],
 [("parsers of on-disk structures","FileFormat/IndexRecord/DescriptionRecord/ContentBlockReader")],
 [("file bytes","untrusted input","disk")],
 ["RecordFileReader::openFile/readRecord under sanitizers"])

prop("C06", "Concurrent recording loses, duplicates and reorders nothing",
 "While several threads create records on several streams and the file is written and compressed in the background by any mix of manual and automatic batches, purges of old records, streams being added or (de)activated, every record created on an active stream and not purged ends up exactly once in the file, with its exact content and each stream's order preserved. No interleaving causes a data race, deadlock or crash.",
 ["schedules","histories"], "all interleavings of producers, background writer, compression threads, purges and stream additions",
 "Tests use few threads and fixed workloads, and run without a race detector.",
 ["vrs/RecordManager.cpp","vrs/Recordable.cpp","vrs/RecordFileWriter.cpp","vrs/helpers/JobQueue.h"],
 [("background writer threads","RecordFileWriter::backgroundWriterThreadActivity"),("compression threads","RecordFileWriter::backgroundRecordCompressorThreadActivity")],
 [("active records","records not yet written","RecordManager::activeRecords_")],
 ["RecordFileReader over the closed file"])

prop("C07", "Purging keeps exactly the recent records and the last known state",
 "At any moment before recording to disk starts, the records a stream holds in memory are those created and neither collected nor purged, in time order; purging by age drops exactly the older records, except that the latest older configuration and state and all tags records are retained. Collecting by age takes exactly the records strictly older than the limit, in order, leaving the rest, and recycled record buffers never alter the content of other records.",
 ["histories"], "all sequences of create / purge / collect / recycle operations",
 "Tests purge once or twice in fixed scenarios.",
 ["vrs/RecordManager.cpp","vrs/Recordable.cpp","vrs/Record.cpp","vrs/RecordFileWriter.cpp"],
 [("purge","RecordManager::purgeOldRecords"),("collect","RecordManager::collectOldRecords"),("recycling","RecordManager::recycle")],
 [("activeRecords_","in memory records","RecordManager"),("cache_","recycled records","RecordManager")],
 ["RecordManager API","file written afterwards"])

prop("C08", "Stream identity, tags and lookups agree with what was declared",
 "For any set of streams with any types, flavors, tags and serial numbers, a reader lists each stream once with the declared tags, flavor, type name and serial number, and every search (by type, flavor, tag, serial number, name or \"Nth of its type\") finds exactly the matching streams in order. Textual stream identifiers convert to the identifier and back without loss, and malformed text yields an invalid identifier rather than a wrong one.",
 ["inputs","configurations"], "all stream populations, tag maps (any bytes), and identifier strings",
 "Tests check a few well-formed names and tags.",
 ["vrs/StreamId.cpp","vrs/DescriptionRecord.cpp","vrs/TagsRecord.cpp","vrs/RecordFileReader.cpp","vrs/Recordable.cpp"],
 [("stream lookups","RecordFileReader::getStreamForTag/Flavor/SerialNumber/Name"),("names","StreamId::fromNumericName/toNumericName")],
 [("streamTags_/fileTags_","tags","RecordFileReader")],
 ["RecordFileReader getters"])

prop("C09", "Record lookups match a linear scan of the index",
 "For any file and query, each lookup (record by stream/type/position, first or last record at or around a time, nearest record within a tolerance, record position, record counts per type, record size) returns what a straightforward scan over the list of records returns, including ties, empty streams, missing types and out-of-range queries. Queries give the same answer whatever queries or reads preceded them.",
 ["inputs","histories"], "all record lists and all queries, in any order",
 "Tests query fixed regular files in a fixed order.",
 ["vrs/RecordFileReader.cpp","vrs/IndexRecord.cpp"],
 [("time lookup","RecordFileReader::getRecordByTime/getNearestRecordByTime"),("nth lookup with cache","RecordFileReader::getRecord")],
 [("lastRequest_ cache","position cache per stream and type","RecordFileReader")],
 ["RecordFileReader getters"])

prop("C10", "Reading records is independent of order, amount read and seeks",
 "Reading any records in any order, any number of times, reading a record only in part or rejecting it, gives every record's handler the correct header and the correct leading bytes, compressed or not; what one read consumed, skipped or failed never changes what another read returns. Reading past a record's payload is refused and yields no foreign bytes.",
 ["histories","inputs"], "all sequences of full, partial, skipped and over-long reads over files with all compression kinds",
 "Tests read records fully, in order.",
 ["vrs/RecordReaders.cpp","vrs/Decompressor.cpp","vrs/RecordFileReader.cpp","vrs/DataReference.cpp"],
 [("uncompressed/compressed record readers","vrs/RecordReaders.cpp"),("frame decompression","vrs/Decompressor.cpp")],
 [("decompressor state","buffers and stream position carried between reads","Decompressor")],
 ["StreamPlayer::processRecordHeader/processRecord data"])

prop("C11", "Data layouts round-trip and tolerate schema changes",
 "Any set of values staged in a data layout and written to a record reads back equal through the same layout; read through a different version of the layout, every field with the same name, type and size reads its written value, and every other field reads as absent with its default. Defaults, availability flags, clones, copies and in-place patches of values all agree with this.",
 ["inputs","programs"], "all layouts (generated field sets), values, and pairs of writer/reader layouts",
 "Tests use a few fixed layouts and version pairs.",
 ["vrs/DataLayout.cpp","vrs/DataLayout.h","vrs/DataPieceValue.h","vrs/DataPieceArray.h","vrs/DataPieceVector.h","vrs/DataPieceString.h","vrs/DataPieceStringMap.h"],
 [("layout mapping","DataLayout::mapLayout"),("staging","DataPiece*::stage/collectVariableData")],
 [("fixedData_/varData_","record content","DataLayout")],
 ["DataPiece*::get/getDefault/isAvailable"])

prop("C12", "Layout descriptions and printing are faithful and safe",
 "A layout's JSON description rebuilds a layout with identical fields, types, sizes, offsets, required flags, units, ranges, defaults and properties, in every description style that carries them, and malformed descriptions are refused without crashing. Printing any layout over any data (including damaged variable-size data, long and non-printable strings) terminates without reading outside of the data.",
 ["inputs"], "all generated layouts, JSON texts and data buffers",
 "Tests print and rebuild a handful of fixed layouts.",
 ["vrs/DataLayout.cpp","vrs/DataPieces.h","vrs/DataPieceValue.h","vrs/DataPieceArray.h","vrs/DataPieceString.h","vrs/DataPieceVector.h","vrs/DataPieceStringMap.h"],
 [("JSON","DataLayout::asJson/makeFromJson"),("printing","DataLayout::printLayout/printLayoutCompact")],
 [("layout fields","names, types, offsets","DataLayout")],
 ["DataLayout::asJson/isSame/printLayout"])

prop("C13", "Record format descriptions round-trip and size blocks correctly",
 "The textual form of any record format parses back to an equal format with equal text, and any text parses without crashing. Block sizes derived from a format are mutually consistent: for a record made of the described blocks, each block's computed size equals its actual size or is declared unknown, and image sizes, strides, plane counts and heights follow the pixel format's definition.",
 ["inputs"], "all content block sequences, image/audio specs and arbitrary strings",
 "Tests check a list of fixed strings.",
 ["vrs/RecordFormat.cpp","vrs/RecordFormat.h"],
 [("parse/print","RecordFormat::set/asString, ContentBlock::asString"),("sizes","RecordFormat::getBlockSize, ImageContentBlockSpec::getRawImageSize")],
 [("content blocks","block list","RecordFormat")],
 ["RecordFormat public API"])

prop("C14", "Playback delivers each content block exactly as recorded",
 "For any sequence of record formats, configuration changes and data, a format-aware reader receives each record's blocks in order, with the right kind, the right image or audio description (from the same record or the configuration in force) and exactly the bytes recorded for that block. A handler that leaves a block to the default implementation, or that stops in the middle of a record, does not shift or corrupt the blocks and records that follow.",
 ["inputs","histories"], "all record formats, layouts, per-record/per-stream image & audio configurations, and handler reading behaviours",
 "Tests play back a few fixed record shapes.",
 ["vrs/RecordFormatStreamPlayer.cpp","vrs/ContentBlockReader.cpp","vrs/RecordFormat.cpp"],
 [("block readers","ContentBlockReader::build"),("config lookup","last configuration record read")],
 [("current record layouts","per stream/type/version format & layout","RecordFormatStreamPlayer")],
 ["RecordFormatStreamPlayer callbacks"])

prop("C15", "Disk files behave as one byte sequence whatever the chunking",
 "Reading, writing, overwriting, seeking, skipping and truncating through a disk file made of any number of chunks gives the same bytes, positions, sizes and end-of-file conditions as on a single in-memory byte array, and the chunk files on disk concatenate to it. Atomic writes either fully replace the target or leave it untouched, leaving no temporary file, and whole-file text and compressed-file helpers return what was stored.",
 ["histories","inputs"], "all operation sequences over multi-chunk files",
 "Tests perform a few fixed operations on small files.",
 ["vrs/DiskFile.cpp","vrs/DiskFileChunk.hpp","vrs/FileHandler.cpp","vrs/WriteFileHandler.h"],
 [("multi-chunk file","DiskFile chunk list"),("atomic file","AtomicDiskFile")],
 [("chunks","path, offset, size","DiskFileT::chunks_")],
 ["DiskFile public API and files on disk"])

prop("C16", "Asynchronous disk files store the same bytes as synchronous ones",
 "For any valid asynchronous I/O configuration (engine, buffering, alignment, direct I/O) and any sequence of writes, overwrites, seeks, reads and truncations, the asynchronous file handler reports the same results and leaves the same bytes on disk as the synchronous handler. Invalid configurations are refused with an error, and recordings made through either handler are identical.",
 ["histories","configurations","schedules"], "all operation sequences and all buffer/alignment/engine configurations",
 "Tests run fixed sequences with a few configurations.",
 ["vrs/AsyncDiskFileChunk.cpp","vrs/AsyncDiskFileChunk.h","vrs/DiskFile.cpp"],
 [("aligned buffers and queued writes","AsyncDiskFileChunk")],
 [("buffers","data not yet on disk","AsyncDiskFileChunk")],
 ["WriteFileHandler API and files on disk"])

prop("C17", "File specifications and URIs round-trip",
 "Any file specification survives conversion to its JSON and textual forms and back with the same handler, chunk list, sizes, name, URI and extra options; any URI built from encoded parts parses back into those parts. Arbitrary text (paths, JSON, URIs, split files, links) is interpreted or refused consistently, without crashing.",
 ["inputs"], "all specifications and arbitrary strings",
 "Tests check a fixed list of strings.",
 ["vrs/FileSpec.cpp","vrs/FileHandler.cpp","vrs/FileHandlerFactory.cpp","vrs/RecordFileReader.cpp"],
 [("conversions","FileSpec::fromPathJsonUri/toPathJsonUri/fromJson/toJson/parseUri")],
 [("FileSpec fields","handler, chunks, sizes, uri, extras","FileSpec")],
 ["FileSpec public API"])

prop("C18", "Cached file details give the same view as the file itself",
 "Opening a file through its cached details gives exactly the same streams, tags, record list, index status and record contents as opening it directly, for any file, including incomplete ones, whatever failed or cancelled attempts to open it came before. Details which couldn't be read in full are not saved for later. A cache that is missing, truncated, incomplete or not a cache is not trusted: the file is read instead, and the cache replaced. A cache with changed bytes (caches have no checksum) never causes a crash or absurd allocations.",
 ["inputs","histories"], "all files and all damaged caches",
 "Tests cache one or two fixed files.",
 ["vrs/FileDetailsCache.cpp","vrs/FileCache.cpp","vrs/RecordFileReader.cpp","vrs/IndexRecord.cpp"],
 [("cache read/write","FileDetailsCache::read/write")],
 [("cached details","file tags, streams, index","FileDetailsCache file")],
 ["RecordFileReader::openFile with cache"])

prop("C19", "Multi-file reading is the time-ordered merge of its files",
 "Opening any group of related files presents every stream of every file once under a unique identifier and the time-ordered merge of all their records, each readable with its own content; positions, counts, lookups by stream, type, index and time agree with that merged list. Files from different recordings are refused.",
 ["inputs","configurations"], "all groups of files with overlapping stream identifiers and timestamps",
 "Tests open a few fixed groups of files.",
 ["vrs/MultiRecordFileReader.cpp","vrs/MultiRecordFileReader.h"],
 [("merged index","MultiRecordFileReader::open"),("unique ids","stream id disambiguation")],
 [("recordIndex_","merged record list","MultiRecordFileReader")],
 ["MultiRecordFileReader public API"])

prop("C20", "Filters select exactly the requested streams, types and times",
 "For any file and any combination of stream, record-type, time-range and decimation filters, the records visited are exactly those satisfying the filter's definition, once each, in file order. Time bounds given relative to the start, end or a central time mean the same as their absolute equivalents, and pre-roll adds exactly the last configuration and state of each selected stream before the range.",
 ["inputs"], "all files and all filter expressions",
 "The tests of filters need data files that are absent from the repository, so almost none run.",
 ["vrs/utils/FilteredFileReader.cpp","vrs/utils/cli/CliParsing.cpp","vrs/utils/cli/DefaultDecimator.cpp"],
 [("filter application","FilteredFileReader::applyFilters/iterate"),("decimation","DefaultDecimator")],
 [("RecordFilterParams","user filter","FilteredFileReader.h")],
 ["FilteredFileReader::iterateAdvanced/iterateSafe"])

prop("C21", "Copying a file preserves the selected content",
 "Copying any file, with any compression, chunking and filtering options, produces a file containing exactly the selected records with identical content, order, stream tags and file tags, whose content checksums equal the original's when nothing is filtered out. Copying is idempotent and rewriting content blocks (such as blanking or removing images) changes only what was asked.",
 ["inputs","configurations"], "all files and copy options",
 "Copy tests need data files absent from the repository.",
 ["vrs/utils/FilterCopy.cpp","vrs/utils/FilterCopyHelpers.cpp","vrs/utils/FilteredFileReader.cpp","vrs/utils/ThrottleHelpers.cpp","vrs/utils/cli/MakeZeroFilterCopier.cpp"],
 [("copy","filterCopy/copyRecords"),("writers","Copier, RecordFilterCopier")],
 [("CopyOptions","user options","FilterCopyHelpers.h")],
 ["output file through RecordFileReader"])

prop("C22", "Merging files keeps every record and tag",
 "Merging any set of files produces a file holding, for each source stream (or for each group of matching streams when streams are merged), all its selected records in time order with identical content, dropping only exact duplicates by stream, type and time where documented. All tags are kept: the first file's value wins, and conflicting values from others are preserved under derived names.",
 ["inputs","configurations"], "all sets of files with overlapping streams, times and tags",
 "Merge tests need data files absent from the repository.",
 ["vrs/utils/FilterCopy.cpp","vrs/utils/FilterCopyHelpers.cpp"],
 [("merge","filterMerge/NoDuplicateCopier"),("tag merge","copyMergeTags")],
 [("merged tags","tags of output","FilterCopy.cpp")],
 ["output file through RecordFileReader"])

prop("C23", "Verification and comparison tools see every difference",
 "Two files compare as equal exactly when their tags, streams and records are equal, independently of how they were stored (compression, chunking); checksums of content are equal in the same case and change when any record's content, time, type, version, or any tag changes. Byte-level comparison and checksums depend on exactly the file's bytes, whatever its chunking.",
 ["inputs"], "all pairs of files differing in zero or more records, tags or bytes",
 "Validation tests need data files absent from the repository.",
 ["vrs/utils/Validation.cpp","vrs/utils/xxhash/xxhash.cpp"],
 [("checksums","checkRecords/ContentChecksumStreamPlayer"),("compare","compareVRSfiles/compareVerbatim")],
 [("hash states","per stream checksums","Validation.cpp")],
 ["checkRecords, compareVRSfiles, compareVerbatim, verbatimChecksum"])

prop("C24", "Pixel conversions follow each format's definition",
 "For images of any size, stride and pixel content, converting or normalizing between pixel formats produces the pixels given by the formats' definitions (packed 10-bit, greyscale depths, RGB/BGR/RGBA orders, float/depth scaling), with the correct size, stride and metadata, and never reads or writes outside the image buffers. Conversions that are inverses of each other round-trip exactly.",
 ["inputs"], "all image sizes, strides, pixel formats and pixel contents",
 "Tests convert one fixed image per format.",
 ["vrs/utils/PixelFrame.cpp","vrs/utils/PixelConversions.cpp","vrs/utils/converters/Grey10PackedConverters.cpp","vrs/utils/converters/Raw10ToGrey10Converter.cpp"],
 [("conversions","PixelFrame::normalizeFrame, PixelConversions"),("row packing","converters/")],
 [("frame buffer and spec","pixels","PixelFrame")],
 ["PixelFrame and converter functions"])

prop("C25", "Encoded images and audio blocks survive storage and reload",
 "Any raw image written as PNG and read back has identical pixels, size and pixel format; JPEG data decodes to the right geometry, and images or audio blocks stored in recordings are recovered identically through the image and audio block readers and through an image index reopened later, whatever the compression and chunking of the file. Damaged encoded data is refused without crashing.",
 ["inputs"], "all image geometries and contents, audio formats, file configurations and damaged encodings",
 "Tests load one or two fixed images; the index/load test needs an absent data file.",
 ["vrs/utils/PixelFramePng.cpp","vrs/utils/PixelFrameJpeg.cpp","vrs/utils/PixelFrame.cpp","vrs/utils/ImageIndexer.cpp","vrs/utils/ImageLoader.cpp","vrs/utils/AudioBlock.cpp"],
 [("codecs","PixelFrame::writeAsPng/readPngFrame/readJpegFrame"),("direct image references","indexImages/loadImage")],
 [("image reference","file location of one image","DirectImageReference")],
 ["PixelFrame, indexImages, loadImage, AudioBlock"])

prop("C26", "Job queues and event channels deliver each item exactly once",
 "Jobs sent to a job queue by any number of threads are each received exactly once and in order per sender, waits return promptly with the right result on new job, end of queue or timeout, and cancelling or ending discards exactly what is documented. An event reaches every waiter or exactly one waiter according to its mode, with its value, pointer and missed-event count as documented, and past events within the look-back window are not lost.",
 ["schedules","histories"], "all interleavings of senders, receivers, cancels and ends",
 "Tests use fixed timing on a couple of threads and no race detector.",
 ["vrs/helpers/JobQueue.h","vrs/os/Event.cpp","vrs/os/Semaphore.cpp"],
 [("queue","JobQueue"),("event channel","EventChannel")],
 [("queue content, waiters","pending jobs/events","JobQueue/EventChannel")],
 ["JobQueue/EventChannel public API"])

prop("C27", "Compression helpers round-trip and honor their limits",
 "For any data and preset, compressed frames decompress to the original bytes, as whole or in any split of partial reads; a compression that would exceed a caller-given maximum size is refused and never overruns it, and frames written in multiple pieces decode to their concatenation. Compressing again with a reused compressor gives independent results, and damaged frames yield errors, never out-of-bounds access.",
 ["inputs","histories"], "all data, presets, frame splits, reuse histories and damaged frames",
 "Tests compress a few fixed buffers.",
 ["vrs/Compressor.cpp","vrs/Decompressor.cpp","vrs/utils/cli/CompressionBenchmark.cpp"],
 [("compressor","Compressor::compress/startFrame/addFrameData/endFrame"),("decompressor","Decompressor::decompress/decompressFrame")],
 [("compressor buffers","reused between compressions","Compressor")],
 ["Compressor/Decompressor public API"])

prop("C28", "Command-line operations match their documented effect",
 "For any recordings and any valid combination of options, each command of the vrs tool (copy, merge, fix-index, check, checksum, compare, list, print, rip, extract-images, extract-audio, extract-all...) selects and produces what its documentation says: the records, tags, reports or extracted images, sounds and metadata of the streams, record types and times selected, however the arguments are ordered. The exit status tells of a failure when arguments are invalid, when a file can't be opened, or when a copy, a merge or an extraction can't be done; the results of checks and comparisons are told by the output. Inputs are left untouched, except by fix-index; copying or merging onto one of the sources is refused. Invalid arguments are refused without side effects.",
 ["inputs","configurations"], "all argument combinations over generated files",
 "The CLI tests that exercise files need data files absent from the repository.",
 ["tools/vrs/VrsCommand.cpp","vrs/utils/cli/CliParsing.cpp","vrs/utils/cli/ListRecords.cpp","vrs/utils/FilterCopy.cpp"],
 [("parsing","VrsCommand::parse, parseFilters/parseCopyOptions"),("dispatch","VrsCommand::runCommands")],
 [("parsed command","options","VrsCommand")],
 ["VrsCommand exit codes and output files"])

prop("C29", "File information reports agree with the file",
 "For any file, the overview and details (text and JSON) are well formed and report the file's actual chunk, size, stream, record-type and record counts, time ranges, tags and flavors under any filter; frame rates estimated for regularly spaced records match their spacing. No content of tags or records makes reporting fail or crash.",
 ["inputs"], "all files, tags and filters",
 "Info tests need data files absent from the repository, or only check a fixed file.",
 ["vrs/utils/RecordFileInfo.cpp","vrs/utils/FrameRateEstimator.cpp","vrs/utils/cli/PrintRecordFormats.cpp","vrs/utils/cli/PrintRecordFormatRecords.cpp","vrs/utils/cli/ListRecords.cpp"],
 [("overviews","RecordFileInfo::printOverview/jsonOverview"),("frame rate","frameRateEstimationFps")],
 [("counts, tags","reported data","RecordFileInfo.cpp")],
 ["RecordFileInfo functions"])

prop("C30", "Helper conversions are total and consistent",
 "String helpers (trimming, splitting, case-insensitive comparison, number, duration and byte-size parsing and formatting, natural file ordering, printable escaping) agree with their documented definitions on every input: parsers accept exactly what they document, formatters give text which parses back to the value where documented, and orderings are consistent total orders. Memory buffers give back exactly what was put in them, names of enum values convert both ways, file lists have every file of a folder tree once in their documented order, sanitized file names stay in their folder, and a throttler reports the first occurrences of each message and never goes silent. No input crashes them.",
 ["inputs"], "all strings and numbers",
 "Tests check short fixed lists of inputs.",
 ["vrs/helpers/Strings.cpp","vrs/helpers/Strings.h","vrs/helpers/EnumStringConverter.h","vrs/helpers/MemBuffer.cpp","vrs/helpers/Throttler.cpp","vrs/os/Utils.cpp","vrs/os/FileList.cpp"],
 [("helpers","vrs/helpers/Strings.cpp"),("memory buffer","MemBuffer")],
 [("none","pure functions","-")],
 ["helpers functions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sch)
    print("schema ok", len(P))
except ImportError:
    print("no jsonschema", len(P))
