#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that the text is easy to review).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Reading through a seekable stream shows exactly what reading memory shows",
  "For any file content, any set of readers sharing one cached stream and any order and interleaving of their queries, every query answers exactly what it answers when the whole file is in memory, including which queries fail, as long as the stream itself reports no error. Short reads, interrupted reads and the stream's initial position never change an answer, and data handed out earlier never changes afterwards. The documented limit that a string read through the cache may be at most 4096 bytes long is the only permitted difference.",
  ["schedules", "inputs", "histories"],
  "all file contents × all orders/interleavings of byte, range and delimiter-terminated-string queries (whole file and sub-ranges) and of whole-file parsing by several readers over one cache × all splittings of the underlying reads and positions of interruptions",
  "The tests only ever read byte slices; the caching reader is not exercised by any test, and its answers depend on the history of earlier queries (what is already cached) and on how the stream splits reads.",
  ["src/read/read_cache.rs", "src/read/read_ref.rs", "src/read/util.rs"],
  [("buffer cache keyed by (offset,size), string cache keyed by (start,delimiter)", "src/read/read_cache.rs ReadCacheInternal"),
   ("reader abstraction implemented for slices, caches and cache ranges", "src/read/read_ref.rs, read_cache.rs"),
   ("length check before allocation", "src/read/read_cache.rs ensure_range")],
  [("bufs/strings maps", "memo of earlier reads; handed-out references point into them", "src/read/read_cache.rs")],
  ["answers of the byte-level reader interface", "every value of the unified and format-specific read API"])

p("C02", "A failing stream gives errors or omissions, never wrong data or lasting harm",
  "When reads or seeks of the underlying stream fail, or an allocation needed to hold the data fails, a query either reports an error, omits an item, or answers exactly what it answers without the fault; it never returns altered data, panics or aborts. Once the stream works again every query on the same cache answers exactly as if no fault had ever happened.",
  ["fault_sequences", "schedules", "inputs"],
  "all positions and combinations of I/O errors, early end-of-file, interrupted and short reads, seek failures and failed allocations within any query history over any file",
  "No test injects a failing stream; a fault must fall between partially completed internal steps (seek done, buffer allocated, half of a string read) and its effect may only show in a later query of the same cache.",
  ["src/read/read_cache.rs", "src/read/util.rs", "src/read/any.rs"],
  [("fallible reserve and error mapping", "src/read/read_cache.rs read_bytes_at"),
   ("insert into the cache only after a complete read", "src/read/read_cache.rs"),
   ("error propagation through parsers", "src/read/**")],
  [("bufs/strings maps", "must only ever hold completely read data", "src/read/read_cache.rs")],
  ["results of queries during and after faults"])

p("C03", "Every way of emitting a file produces the same bytes and announces its size",
  "Emitting the same object or builder into a growable in-memory buffer, a pre-sized buffer, a slice-backed buffer or a stream with any buffering, any splitting of writes into short writes and any retryable interruptions yields byte-identical files. The size announced to the sink before the first byte is exactly the number of bytes then delivered.",
  ["inputs", "schedules", "configurations"],
  "all objects/images that can be described to any writer (relocatable ELF/COFF/Mach-O/XCOFF, ELF and Mach-O builders, low-level PE/ELF/COFF writers) × all sinks and write splittings",
  "Tests only write to a Vec; stream sinks, slice sinks and partial writes are never exercised, and layout bugs that only shift the announced size are invisible to a Vec.",
  ["src/write/util.rs", "src/write/mod.rs", "src/write/elf/object.rs", "src/write/coff/object.rs", "src/write/macho/object.rs", "src/write/xcoff.rs", "src/write/pe.rs", "src/build/elf.rs", "src/build/macho.rs"],
  [("sink abstraction with reserve/resize/len", "src/write/util.rs WritableBuffer"),
   ("two phase layout: reserve everything, then write, with length assertions", "src/write/*/writer.rs, encoder.rs, object.rs")],
  None, ["bytes received by the sink", "argument of reserve", "len() reported by the sink"])

p("C04", "A failing sink is always reported and leaves only a clean prefix",
  "If a sink cannot take the announced size, or a stream reports an error at any write (including the delayed write of buffered data), the emission as a whole reports failure. Everything the stream accepted is a prefix of the correct file, the first stream error is the one reported and no further bytes are sent after it, and emitting the same description again to a working sink yields the correct file.",
  ["fault_sequences", "crash_points", "inputs"],
  "all writers × every position of a failing, zero-length or short write, disk-full, interruption, refused size announcement",
  "No test has a sink that fails; each failure position inside the emission is a separate case.",
  ["src/write/util.rs", "src/write/mod.rs", "src/build/elf.rs", "src/build/macho.rs", "crates/rewrite/src/rewriter.rs"],
  [("sticky first error in the streaming sink", "src/write/util.rs StreamingBuffer"),
   ("reserve failure mapped to an error", "write/*/object.rs, build/*.rs"),
   ("result collected after emission", "src/write/mod.rs write_stream, crates/rewrite/src/rewriter.rs write")],
  [("StreamingBuffer.result", "first I/O error", "src/write/util.rs")],
  ["return value of the emission", "bytes accepted by the stream"])

p("C05", "The emitted bytes depend only on what was described",
  "Describing the same content with the same sequence of calls yields the same bytes in every process and on every run, whatever the hash seeds and memory addresses, and whether or not the same description has been emitted before. Reading a file and answering queries is equally repeatable.",
  ["schedules", "inputs", "configurations"],
  "all descriptions × all hash-seed values × repeated emission of one description × separate rebuilding of the description",
  "A unit test runs under one random hash seed and never compares two runs; order dependence on a hash table is only visible when two differently seeded runs are compared.",
  ["src/write/string.rs", "src/write/mod.rs", "src/write/elf/object.rs", "src/write/coff/writer.rs", "src/write/macho/object.rs", "src/write/xcoff.rs", "src/build/elf.rs", "src/build/macho.rs"],
  [("insertion-ordered string table and deterministic suffix sort", "src/write/string.rs"),
   ("standard-section and stub lookup maps", "src/write/mod.rs"),
   ("index-ordered traversal of items", "src/build/table.rs, src/write/*")],
  None, ["emitted bytes"])

p("C06", "Sections described to the relocatable writer read back unchanged",
  "For every supported object format, architecture and byte order, any sequence of section-building calls that the writer accepts yields a file in which exactly the described sections appear, in order, with the same name, segment name, size, contents, alignment and kind (or explicitly set flags), after the file has been stored and read back through a stream. This holds for uninitialised sections, thread-local sections, per-symbol subsections, empty sections, large alignments, names of any length and very many sections; what a format cannot represent is refused with an error, never silently altered.",
  ["inputs", "histories", "configurations"],
  "all histories of add/append/reserve/set-data calls × ELF, COFF, Mach-O, XCOFF × architectures × byte order × sink/source behaviour",
  "Round-trip tests use a handful of fixed two- or three-section objects; layout, name encodings and limits depend on the whole history and on counts tests never reach.",
  ["src/write/mod.rs", "src/write/elf/object.rs", "src/write/coff/object.rs", "src/write/coff/writer.rs", "src/write/macho/object.rs", "src/write/xcoff.rs", "src/read/elf/section.rs", "src/read/coff/section.rs", "src/read/macho/section.rs", "src/read/xcoff/section.rs"],
  [("section data placement", "src/write/mod.rs Section::append_data/append_bss, add_subsection"),
   ("file layout", "src/write/*/object.rs"), ("section header decoding", "src/read/*/section.rs")],
  [("described sections", "model of the calls made", "harness model")],
  ["section list of the file read back"])

p("C07", "Symbols and groups described to the relocatable writer read back unchanged",
  "For every supported object format and architecture, every symbol in an accepted description can be found in the emitted file with the same name, value, size where the format has one, kind, section, binding, visibility scope and weakness, and every section group (COMDAT) with the same key symbol, selection and members. Common symbols, thread-local symbols, section and file symbols, absolute and undefined symbols, and very long or shared-suffix names are covered; what a format cannot represent is refused.",
  ["inputs", "histories", "configurations"],
  "all histories of symbol/common/TLS/section-symbol/COMDAT calls × formats × architectures",
  "Tests check a few hand-picked symbols; the writers reorder symbols, share string-table suffixes and renumber indices, which only goes wrong for particular combinations.",
  ["src/write/mod.rs", "src/write/string.rs", "src/write/elf/object.rs", "src/write/coff/object.rs", "src/write/macho/object.rs", "src/write/xcoff.rs", "src/read/elf/symbol.rs", "src/read/elf/comdat.rs", "src/read/coff/symbol.rs", "src/read/coff/comdat.rs", "src/read/macho/symbol.rs", "src/read/xcoff/symbol.rs"],
  [("symbol ordering and index maps", "src/write/*/object.rs"),
   ("string table with suffix sharing", "src/write/string.rs"),
   ("symbol decoding", "src/read/*/symbol.rs")],
  None, ["symbols and COMDATs of the file read back"])

p("C08", "Relocations described to the relocatable writer read back with the same meaning",
  "For every supported format and architecture, each accepted relocation appears in the emitted file at the same offset of the same section, against the same symbol (or its section), with the same kind, encoding and size, and with an effective addend - stored in the relocation or in the section bytes - equal to the described one. Relocations that cannot be expressed are refused with an error, and very many relocations in one section, which some formats encode specially, are all present.",
  ["inputs", "histories", "configurations"],
  "all relocations (kind × encoding × size × addend × target) × architectures × formats × counts up to beyond 16-bit limits",
  "The tests cover a handful of relocation types; the mapping is a large per-architecture table in both directions plus addend adjustment that depends on symbol and format.",
  ["src/write/mod.rs", "src/write/elf/object.rs", "src/write/coff/object.rs", "src/write/macho/object.rs", "src/write/xcoff.rs", "src/read/elf/relocation.rs", "src/read/coff/relocation.rs", "src/read/macho/relocation.rs", "src/read/xcoff/relocation.rs"],
  [("translation of generic relocations to format flags and addend fixup", "src/write/mod.rs add_relocation, src/write/*/object.rs"),
   ("overflow count encoding", "src/write/coff/writer.rs"),
   ("decoding tables", "src/read/*/relocation.rs")],
  None, ["relocations of the file read back", "relocated section bytes"])

p("C09", "A refused request or failed emission changes nothing",
  "When the writer refuses a request (an inexpressible relocation, an invalid name or a value out of range), the description is left such that the file emitted afterwards is exactly the one emitted had the request never been made. When an emission fails for any reason, the description can be emitted again and gives the same result as if the failed attempt had not taken place.",
  ["histories", "fault_sequences", "inputs"],
  "all histories that interleave accepted requests, refused requests, failed emissions and successful emissions",
  "Tests never continue after an error; leftovers of a refused request only show in the bytes of a later emission.",
  ["src/write/mod.rs", "src/write/coff/object.rs", "src/write/macho/object.rs", "src/write/elf/object.rs", "src/write/util.rs"],
  [("validation before mutation in add_relocation", "src/write/mod.rs, src/write/*/object.rs"),
   ("emission from a shared reference", "src/write/mod.rs write/emit")],
  None, ["bytes of later emissions"])

p("C10", "Rewriting an ELF file keeps everything that was not asked to change",
  "Reading an ELF file into the editable form and writing it out again keeps every section's name, type, flags and contents, every symbol, relocation, dynamic entry, version in use, hash-table lookup, note and program-header mapping, for relocatable files, executables and shared libraries; what the editable form cannot represent (section groups, sections of unknown type) is refused. After edits - deleting or renaming sections or symbols, adding sections, symbols, relocations, dynamic entries or library dependencies, changing the interpreter or run path - exactly the requested changes are visible and all cross references still lead to the same things.",
  ["inputs", "histories"],
  "all ELF files the builder accepts (32/64 bit, both byte orders, relocatable and linked) × all edit histories × repeated rewriting",
  "Tests rewrite a few fixed builder states; renumbering of sections, symbols, strings and versions interacts with each edit.",
  ["src/build/elf.rs", "src/build/table.rs", "src/build/bytes.rs", "src/write/elf/writer.rs", "src/write/elf/encoder.rs", "crates/rewrite/src/elf.rs", "crates/rewrite/src/rewriter.rs"],
  [("id-based cross references resolved at write time", "src/build/elf.rs"),
   ("delete propagation to orphans", "src/build/elf.rs delete_orphans"),
   ("layout into freed address space", "crates/rewrite/src/elf.rs")],
  [("sections/segments/symbols/versions tables", "editable model", "src/build/elf.rs Builder")],
  ["file read back after rewriting"])

p("C11", "PE images laid out by the image writer read back as described",
  "Any sequence of layout requests accepted by the image writer (stub, headers, 32/64-bit, sections of every kind, data directories, base relocations, overlay) produces an image whose headers, section table, section contents, directory entries, base relocation blocks and entry point read back exactly as requested, with the alignment, size-of-image and size-of-headers rules of the format met. The image checksum and sizes stay consistent for any section sizes.",
  ["inputs", "histories", "configurations"],
  "all layout request histories × 32/64 bit × alignments × section sizes including empty and uninitialised",
  "No test covers the image writer at all.",
  ["src/write/pe.rs", "src/read/pe/file.rs", "src/read/pe/section.rs", "src/read/pe/relocation.rs", "src/read/pe/data_directory.rs"],
  [("reserve/write pairs and virtual/file cursor bookkeeping", "src/write/pe.rs"), ("image header decoding", "src/read/pe/*")],
  None, ["image read back"])

p("C12", "Archive members and symbol indexes read back for every archive flavour",
  "For archives in the common, GNU, 64-bit GNU, BSD, 64-bit BSD, COFF, thin and AIX big flavours, the reader lists exactly the stored members in order with their names of any length, dates, owners, modes, sizes and contents, and every entry of the symbol index leads to the member that defines it. Members can be fetched in any order, by offset or by iteration, through memory or a stream, and damaged headers give an error rather than a wrong member.",
  ["inputs", "histories", "fault_sequences"],
  "all member lists (names, sizes, metadata, odd lengths) × flavours × access orders × stream behaviours",
  "Tests check flavour detection on a few tiny archives; long names, padding, 64-bit indexes and member lookup are not covered.",
  ["src/read/archive.rs", "src/archive.rs"],
  [("flavour detection and special-member handling", "src/read/archive.rs ArchiveFile::parse"),
   ("name decoding (inline, table, BSD prefix)", "src/read/archive.rs ArchiveMember"),
   ("symbol index decoding", "src/read/archive.rs ArchiveSymbolIterator")],
  None, ["members, symbols, member data"])

p("C13", "After a crash while writing, whatever is readable is right",
  "If a process or machine stops at any point while a file is being written, so that only a prefix or some blocks of it are durable, reading the remains reports errors or missing items, but no section, symbol, relocation, member or string that is reported with a value different from the complete file unless it was read from a lost block. Reading such remains never panics, aborts or loops.",
  ["crash_points", "inputs"],
  "every truncation point (and every set of lost blocks) of every file from every writer and of archives and images from standard toolchains",
  "Tests only read complete files; every byte position is a separate case.",
  ["src/read/read_ref.rs", "src/read/util.rs", "src/read/elf/file.rs", "src/read/elf/section.rs", "src/read/macho/file.rs", "src/read/pe/file.rs", "src/read/coff/file.rs", "src/read/xcoff/file.rs", "src/read/wasm.rs", "src/read/archive.rs"],
  [("bounds-checked access", "src/read/read_ref.rs, src/pod.rs, src/read/util.rs"),
   ("range checks for sections, strings and tables", "src/read/**")],
  None, ["observations on the remains compared with the complete file"])

p("C14", "Damaged files never crash, hang or exhaust the reader, and all sources agree",
  "For arbitrary bytes - in particular files damaged by flipped bits, overwritten fields and misplaced blocks - every query of the read interface returns normally: no panic, no abort, no unbounded iteration, no memory use out of proportion to the file and to the uncompressed size that a compressed section declares. The answers are the same through memory and through a stream and the same each time the query is repeated. Reading such a file into the editable ELF or Mach-O form also returns normally.",
  ["inputs", "fault_sequences", "histories"],
  "all byte contents near valid files of every supported format × all queries in any order × both sources",
  "Tests read only well-formed input; a panic or endless loop needs a particular inconsistent combination of fields.",
  ["src/read/util.rs", "src/read/read_ref.rs", "src/pod.rs", "src/read/elf", "src/read/macho", "src/read/pe", "src/read/coff", "src/read/xcoff", "src/read/wasm.rs", "src/read/archive.rs"],
  [("checked arithmetic and bounds-checked views", "src/read/**"), ("iterators that stop after an error", "src/read/**")],
  None, ["every query of the read interface"])

p("C15", "Compressed sections decompress to the original or report an error",
  "A section stored compressed (standard ELF compression header in 32/64 bit and both byte orders, or the older GNU format; zlib or zstandard) is reported with its format and both sizes, and decompressing yields exactly the original bytes. If stored bytes are damaged, the declared size is wrong or memory runs out, decompression reports an error or yields exactly the declared number of bytes, and it never panics, aborts or returns data of another length.",
  ["inputs", "fault_sequences"],
  "all contents × formats × header variants × damage, truncation and allocation failure",
  "No test decompresses anything.",
  ["src/read/mod.rs", "src/read/elf/compression.rs", "src/read/elf/section.rs", "src/read/gnu_compression.rs", "src/read/coff/section.rs", "src/read/pe/section.rs", "src/read/macho/section.rs"],
  [("compression header decoding", "src/read/elf/compression.rs, src/read/gnu_compression.rs"),
   ("bounded decompression into a pre-reserved buffer", "src/read/mod.rs CompressedData::decompress")],
  None, ["compressed range, uncompressed data"])

p("C16", "A shared cache split over several files is read as one address space",
  "For a dyld shared cache stored as a main file and any number of subcaches, every address translates to the file and offset that contain it, every image's path and object are found in the right file, mappings are listed in order across all files, and pointers to be rebased are listed once each, at their place in the mapping, with their correct target values (slide information of versions 2, 3 and 5; others are refused). Supplying subcaches in the wrong order, of the wrong identity, missing or truncated gives an error, never data from the wrong file.",
  ["inputs", "configurations", "fault_sequences"],
  "all splits of mappings and images over files × header generations × slide-information versions × wrong, missing or truncated companions × source behaviour",
  "No test reads a shared cache; the needed files are not part of the repository.",
  ["src/read/macho/dyld_cache.rs", "src/macho.rs"],
  [("companion identity check", "src/read/macho/dyld_cache.rs DyldCache::parse"),
   ("address to file mapping", "data_and_offset_for_address"),
   ("slide page chains", "DyldCacheRelocationIterator*")],
  None, ["images, mappings, relocations of the cache"])

p("C17", "Rewriting a Mach-O file keeps everything that was not asked to change",
  "Reading a Mach-O file into the editable form and writing it out again keeps every load command, segment, section, symbol, relocation, indirect symbol, library dependency and the content of every link-edit table, and after deleting, renaming, changing or adding sections, symbols, relocations or commands, or deleting or changing library dependencies, exactly the requested changes (and what follows from deleting the thing something refers to) are visible while all remaining cross references still lead to the same things, every byte of data is where its segment maps it and nothing overlaps. What the editable form cannot represent (scattered relocations, dSYM files and so on) or what does not fit is refused.",
  ["inputs", "histories"],
  "all Mach-O files the builder accepts (32/64 bit, both byte orders, objects and linked images) × edit histories × repeated rewriting",
  "A few round trips at most are tested; cross references after edits need models of what refers to what.",
  ["src/build/macho.rs", "src/build/table.rs", "src/write/macho/encoder.rs", "crates/rewrite/src/macho.rs"],
  [("id-based cross references resolved at write time", "src/build/macho.rs"), ("link-edit layout", "src/build/macho.rs")],
  None, ["file read back after rewriting"])

p("C18", "The rewriter does exactly what it was asked to do, or reports that it did not",
  "The rewriting library, given an ELF or Mach-O file and a set of edits (deleting or renaming sections and symbols, deleting debugging information, adding, deleting or renaming library dependencies, setting the library name, the interpreter or the run path), applies exactly the requested edits: everything else stays as it was, at the addresses it had or with all references following it, with every segment still mapping what it mapped and no two things overlapping. It gives the same output for the same request on every run, reports failure whenever the input cannot be read, an edit cannot be applied or any output write fails, and never reports success with an incomplete output.",
  ["fault_sequences", "histories", "configurations"],
  "all edit requests × input files × output failures × hash seeds",
  "The tests of the rewriter need files that are not in this checkout; which sections move, and where to, depends on every edit and layout.",
  ["crates/rewrite/src/rewriter.rs", "crates/rewrite/src/elf.rs", "crates/rewrite/src/macho.rs"],
  [("options processed in a fixed order", "crates/rewrite/src/rewriter.rs modify"),
   ("stream errors collected", "crates/rewrite/src/rewriter.rs write")],
  None, ["output file and result of the rewriter"])

p("C19", "Files from standard toolchains are reported faithfully",
  "For object files, executables, shared libraries and import libraries produced by standard compilers, assemblers and linkers for ELF, Mach-O, COFF/PE, XCOFF and WebAssembly, every reported header value, section, segment, symbol, relocation, import, export, note, version, load command, fixup, resource and debug-link item equals what the producing toolchain recorded. This holds however the file is stored, whatever source it is read through and in whatever order it is queried.",
  ["inputs", "schedules"],
  "a corpus of toolchain-produced files spanning all formats, and files listing every value of the formats' tables × structure-preserving relocations of the file (embedded at an offset, followed by other data) × query orders and sources",
  "The test corpus is an empty submodule in this checkout, so almost no reader test runs.",
  ["src/read/elf", "src/read/macho", "src/read/pe", "src/read/coff", "src/read/xcoff", "src/read/wasm.rs", "src/read/any.rs"],
  [("per-format decoders", "src/read/*"), ("unified dispatch", "src/read/any.rs")],
  None, ["all values of the read API"])

p("C20", "Lookup by index, name or address agrees with enumeration",
  "Whatever order queries are made in, looking something up - a section by index or name, a symbol by index, name or address, a data range by address, a source object by address, a dynamic symbol through a hash table, an export by name or ordinal - gives exactly the item that enumerating everything and searching would give. The unified interface and the format-specific interfaces report the same values for the same file.",
  ["inputs", "histories", "schedules"],
  "all files × all lookups (present, absent, boundary addresses) × all query orders",
  "Tests perform a few successful lookups on fixed data; agreement must hold for every key, including absent and boundary ones.",
  ["src/read/traits.rs", "src/read/any.rs", "src/read/symbol_map.rs", "src/read/elf/hash.rs", "src/read/pe/export.rs", "src/read/macho/exports_trie.rs", "src/read/util.rs"],
  [("sorted address maps with binary search", "src/read/symbol_map.rs"), ("hash table lookup", "src/read/elf/hash.rs"),
   ("dispatch macros", "src/read/any.rs")],
  None, ["lookup results"])

p("C21", "Dynamic-linking tables written for ELF lead to every symbol",
  "For any set of dynamic symbols, versions, needed libraries and notes written through the low-level ELF writer or the builder, hash-table lookup by name and version finds exactly the defined symbols, every symbol has the version given, and dynamic entries, version definitions and requirements, relative relocations, notes, attributes and group sections enumerate exactly what was written, for 32/64 bit and both byte orders.",
  ["inputs", "histories", "configurations"],
  "all symbol name sets (including colliding hashes) × bucket/bloom parameters × version graphs × classes and byte orders",
  "Two builder tests use a handful of symbols; chain and bloom-filter handling depends on the hash distribution of the whole set.",
  ["src/write/elf/writer.rs", "src/write/elf/encoder.rs", "src/build/elf.rs", "src/read/elf/hash.rs", "src/read/elf/version.rs", "src/read/elf/dynamic.rs", "src/read/elf/note.rs", "src/read/elf/attributes.rs", "src/read/elf/relocation.rs"],
  [("hash section writers", "src/write/elf/encoder.rs"), ("lookup", "src/read/elf/hash.rs"), ("version tables", "src/read/elf/version.rs")],
  None, ["lookups and enumerations on the file read back"])

p("C22", "Identification of a file by its leading bytes",
  "The kind reported for a file is determined by its leading bytes alone, matches the format whose reader accepts it, and is the same at an offset inside a container as at the start where the format allows embedding.",
  ["inputs"],
  "all leading byte sequences",
  "Only a few magic numbers occur in tests.",
  ["src/read/mod.rs"],
  [("magic table", "src/read/mod.rs FileKind::parse_at")])

p("C23", "Names and values of format constants",
  "Every named constant of the supported formats has the value its specification gives, and name lookup maps a value to the constant's name and back.",
  ["inputs"],
  "all constants",
  "There are thousands of constants.",
  ["src/elf.rs", "src/macho.rs", "src/pe.rs", "src/xcoff.rs", "src/constants.rs"],
  [("constant tables", "src/constants.rs, src/elf.rs, ...")])

p("C24", "Byte-order conversion and unaligned views are exact",
  "Reading or writing an integer in little, big or native order, aligned or not, and viewing bytes as records and back, preserves every value and never reads outside the given bytes.",
  ["inputs"],
  "all integers, byte strings, alignments",
  "A few values are tested.",
  ["src/endian.rs", "src/pod.rs"],
  [("endian conversion", "src/endian.rs"), ("checked casts", "src/pod.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
