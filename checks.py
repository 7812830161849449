"""The checks: for each property, the programs to build and run."""
CORE = ("core",)
UTILS = ("core", "utils")
CLI = ("core", "utils", "cli")

FSFAULT = ("-Wl,--wrap=fopen", "-Wl,--wrap=fileno", "-Wl,--wrap=ftruncate")

LAY = ["layfields_value.cpp", "layfields_array.cpp", "layfields_vector.cpp", "layfields_map.cpp"]

CHECKS = {
    "C01": dict(note="random recordings in every creation mode, up to 4 streams + late ones and 60 operations, compared record by record with what was created", parts=[dict(groups=CORE, src=["c01.cpp"])]),
    "C02": dict(note="few distinct timestamps so that ties and inversions dominate; order compared with a stable sort of the creation log", parts=[dict(groups=CORE, src=["c02.cpp"])]),
    "C03": dict(note="cut points and crash points (disk states between any two disk operations) of random recordings, against an independent scan of the physical format", level="fault_enumeration", parts=[dict(groups=CORE, src=["fsfault.cpp", "c03.cpp"], ldflags=FSFAULT)]),
    "C04": dict(note="every disk operation or file handler call of random recordings can fail, once, several times or for good; success must mean a complete file, failure a recoverable one", level="fault_enumeration", parts=[dict(groups=CORE, src=["fsfault.cpp", "c04.cpp"], ldflags=FSFAULT)]),
    "C05": dict(note="recordings of every mode with structure-aware and byte mutations, and hostile record formats, layout definitions and payloads; ASAN, a bound on allocations, hang detection, and exact content of the intact records", parts=[dict(groups=CORE, src=LAY + ["c05.cpp"]), dict(groups=CLI, src=LAY + ["c05tools.cpp"])]),
    "C06": dict(note="random plans of producers and recording operations over real threads with schedule noise, under TSAN and under ASAN; every record found once with its content in the file(s)", level="exploration", parts=[dict(groups=CORE, src=["c06.cpp"], flavour="tsan"), dict(groups=CORE, src=["c06.cpp"])]),
    "C07": dict(note="histories of a record manager against a list model, and histories of a writer creating several files from the same streams", parts=[dict(groups=CORE, src=["c07.cpp"])]),
    "C08": dict(note="names of streams mutated in exact memory; files with many streams of few types, flavors, tags and serial numbers, every search compared with a filter over the declarations", parts=[dict(groups=CORE, src=["c08.cpp"])]),
    "C09": dict(note="files with ties, gaps and missing types, from every creation mode or truncated; every lookup in random order, mixed with reads, against a linear scan of the list of records and the physical records", parts=[dict(groups=CORE, src=["c09.cpp"])]),
    "C10": dict(note="sequences of whole, partial, rejected, peeked, over-long reads in any order, from one or two readers, some records damaged; every byte compared with what was recorded", parts=[dict(groups=CORE, src=["c10.cpp"])]),
    "C11": dict(note="layouts of every kind and type of field, against a model of their values and encoding; schemas evolved at random, mapped, copied, cloned, patched; actual files with several format versions", parts=[dict(groups=CORE, src=LAY + ["c11.cpp"])]),
    "C12": dict(note="layouts of every kind and type of field; json compared with text written independently, for every profile, and read back; printed text searched for every field", parts=[dict(groups=CORE, src=LAY + ["c12.cpp"])]),
    "C13": dict(note="formats of up to 6 blocks against text, getters and sizes written independently; arbitrary text; format registries", parts=[dict(groups=CORE, src=LAY + ["c13.cpp"])]),
    "C14": dict(note="streams with generated record formats, descriptions in formats, layouts or configurations; each block delivered compared with what was recorded, in order and in random order, with handlers that read, skip or stop", parts=[dict(groups=CORE, src=LAY + ["c14.cpp"])]),
    "C15": dict(note="histories of operations on files in any number of chunks against a model in memory; atomic files against a model of their directory; whole-file helpers with damaged files", parts=[dict(groups=CORE, src=["c15.cpp"])]),
    "C16": dict(note="histories of operations with any valid configuration against the model of C15; writes that fail when queued, later, or in part; arbitrary configurations; recordings", level="fault_enumeration", parts=[dict(groups=CORE, src=["c16.cpp"], ldflags=("-Wl,--wrap=aio_write", "-Wl,--wrap=pwrite"))]),
    "C17": dict(note="specifications, URIs and arbitrary text against an independent grammar; chunks and links found on disk; options; handlers and delegators against a model", parts=[dict(groups=CORE, src=["c17.cpp"])]),
    "C18": dict(note="recordings opened several times through a cache, after failed and cancelled openings and failing reads, against the file opened directly; damaged caches; details files", level="fault_enumeration", parts=[dict(groups=CORE, src=["c18.cpp"])]),
    "C19": dict(note="1 to 5 recordings read together, all lists, lookups and contents compared with a reader per file; related files by tags", parts=[dict(groups=CORE, src=["c19.cpp"])]),
    "C20": dict(note="random stream, type, time, first-record and decimation filters, by command line or API, compared with a scan of the index", parts=[dict(groups=CLI, src=['c20.cpp'])]),
    "C21": dict(note="recordings of every kind copied with random filters, compression, chunking and tags, twice; records of images, audio, layouts rewritten by filters, every byte compared", parts=[dict(groups=CLI, src=LAY + ['c21.cpp'])]),
    "C22": dict(note="1 to 5 recordings sharing types, tags and times, with a filter each, merged with random options; output compared with the sources", parts=[dict(groups=CLI, src=['c22.cpp'])]),
    "C23": dict(note="pairs of generated recordings differing by chosen edits, stored differently, filtered, damaged; comparisons and each checksum against the contents; byte comparisons against the bytes", parts=[dict(groups=CLI, src=['c23.cpp'])]),
    "C24": dict(note="images of every pixel format, size, stride and content; conversions, row functions of any alignment, vectorized variants, damaged specs; against per-pixel definitions of the formats", parts=[dict(groups=UTILS, src=['c24.cpp'])]),
    "C26": dict(note="histories of job queues and event channels against models; free running and settled plans of threads with schedule noise, under ASAN and under TSAN", parts=[dict(groups=CORE, src=['c26.cpp'], ldflags=['-Wl,--wrap=pthread_cond_clockwait,--wrap=pthread_cond_timedwait']), dict(groups=CORE, src=['c26.cpp'], flavour='tsan', ldflags=['-Wl,--wrap=pthread_cond_clockwait,--wrap=pthread_cond_timedwait'])]),
    "C27": dict(note="histories of one compressor and one decompressor, buffers in any split, frames in pieces with limits, wrong sizes and write errors, damaged data; against the libraries themselves", parts=[dict(groups=CORE, src=['c27.cpp'])]),
    "C30": dict(note="text, numbers, sizes, durations, dates, names, memory buffers, enum names, trees of files, throttling: each against a definition written independently, in exact memory", parts=[dict(groups=CORE, src=['c30.cpp'])]),
    "C29": dict(note="recordings of every kind described as text and json with any details and streams, compared with a text and members made from what was recorded; lists and contents of filtered records; frame rates of regular records; tag sets", parts=[dict(groups=CLI, src=LAY + ['c29.cpp'])]),
    "C25": dict(note="images of every kind encoded, decoded, damaged; png of every kind made by libpng; recordings with images and audio in any place, indexed and loaded later from the references alone; opus streams against the library", parts=[dict(groups=UTILS, src=['c25.cpp'])]),
    "C28": dict(note="command lines of the tool itself, with any options in any order: copies and merges compared with the same requested from the library, printed reports with the library's, fixed files, extracted images, audio and metadata with what was recorded; invalid command lines refused, inputs untouched", parts=[dict(groups=CLI, src=LAY + ['c28.cpp'])]),
}
