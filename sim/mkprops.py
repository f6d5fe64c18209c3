import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=(),observe=()):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
KV="vistautils/key_value.py"; IO="vistautils/io_utils.py"; PA="vistautils/parameters.py"
p("C01","A zip store reads back exactly the mapping that was written",
 "Whatever distinct string keys and text or byte values are put through a zip-backed key-value sink, in one session or any sequence of overwriting and appending sessions (a sink object may be entered again), a zip-backed source opened afterwards gives exactly that mapping: key listing, filtered iteration, indexing and lookup with a default all agree, and an absent key gives KeyError or the default. A repeated key (including one written by an earlier session that is being appended to), a missing key or value, or a key the store cannot hold is rejected with an error and changes nothing. This holds for every supported way of naming entries or recording keys and for stores built directly or from parameters.",
 ["inputs","histories","configurations"],
 "All sequences of sessions (overwrite/append/re-entered sink), all key sets without control characters, NUL or newline and not equal to the reserved listing name, all text/bytes values including empty, multi-buffer, non-ASCII and CR/LF content, all naming and key-recording functions, under short reads/writes and interrupted system calls.",
 "Tests write two or three ASCII keys in one session plus one append; they never vary session histories, value sizes across buffer boundaries, unusual characters, sink re-use, or short/interrupted I/O.",
 [KV],[("duplicate check and key tracking in the zip sink","_ZipKeyValueSink.put/__enter__/__exit__"),("keys listing member","_read_keys_from_keys_file/_write_keys_to_keys_file"),("lookup","_ZipFileKeyValueSource._internal_get")],
 [("keys","keys put or inherited so far by a sink session","_ZipKeyValueSink._keys")],["KeyValueSink.zip_*_sink, KeyValueSource.zip_*_source, *_key_value_*_from_params"])
p("C02","A failed put never corrupts a zip store or lists a key it cannot read",
 "If a put to a zip-backed sink raises, for any reason (rejected argument, failing naming function, disk error, full disk, interrupt), the caller sees the error, the session can still be closed, and the same key may be put again. If the close of the session succeeds, a source opened afterwards lists exactly the keys whose puts succeeded, plus those inherited when appending, each with exactly the value put; if the close fails, the caller is told. The archive file is closed when the session ends, even when ending it fails.",
 ["fault_sequences","histories","inputs"],
 "All sequences of puts in which any subset fails by rejection, callback failure, I/O error, disk-full or KeyboardInterrupt at any system call, followed by more puts and a close that may itself meet errors.",
 "No test makes a put fail after the session has started writing, so the state kept across a failure is never observed.",
 [KV],[("key recorded only for a completed put","_ZipKeyValueSink.put"),("close in every outcome","_ZipKeyValueSink.__exit__")],
 [("keys","keys listed at close","_ZipKeyValueSink._keys")],["__keys listing, items(), get()"])
p("C03","A crash or damaged zip store gives an error or true values, never wrong data",
 "After a crash at any instant while a zip-backed sink is writing, or if the archive is truncated, bit-flipped, missing writes, unreadable, or still being written by another process, reading it either raises an error or returns only values that were really put under that key. A listing that is returned is one a session wrote, and iteration either gives a true value for every listed key or raises; it never silently skips, cuts short or invents entries. Once a session over that path has completed after the fault, the store reads back exactly.",
 ["crash_points","fault_sequences","schedules","histories"],
 "Crash before/after/in the middle of any write of any overwrite or append session; any bit flips, truncation, lost write or appended garbage at rest that the checksums of the zip format can reveal; any read error; any interleaving of a concurrent reader with the writer. Values that are themselves zip archives are excluded (recorded as a known limit of the container format).",
 "Tests never crash, corrupt or concurrently read a store; the space of crash points and corruptions cannot be enumerated by examples.",
 [KV],[("archive directory written on close; CRC verified on read","_ZipKeyValueSink.__exit__, _ZipFileKeyValueSource._internal_get"),("listing member","_read_keys_from_keys_file")],
 [],["KeyValueSource.zip_*_source"])
p("C04","A directory store and its file map read back exactly, with true entries only",
 "Whatever values are put in a directory-backed key-value sink, after the session the directory's index describes exactly the keys put (last value wins), and a source built from the index, directly or from parameters, returns exactly those values by listing, iteration, indexing and lookup. A put that fails, or whose key could not be told from another or from the index, surfaces an error. After a crash or I/O error at any instant, reading through the index either fails loudly, or lists only keys that were really put and mapped to their own files. A listed key whose file has since been deleted stays listed and fails when read, and is never passed over.",
 ["inputs","histories","crash_points","fault_sequences","configurations"],
 "All sets of keys that are legal relative file names (nested directories, non-ASCII, spaces inside, dots) other than the index name, all text/byte values, repeated puts, relative and absolute directories, process working directory changes between writing and reading, crash/error/disk-full at every system call, short and interrupted I/O.",
 "Tests write two small keys to a fresh absolute temporary directory and never fail, crash, repeat a put or nest a key.",
 [KV,IO],[("index written at the end of a session","_Directory*KeyValueSink.__exit__, write_doc_id_to_file_map"),("index read strictly","read_doc_id_to_file_map"),("path mapping source","_PathMapping*KeyValueSource")],
 [("index","key to absolute file","_index file")],["KeyValueSource.from_doc_id_to_file_map, *_key_value_source_from_params"])
p("C05","Sinks and sources pass text and bytes through unchanged or raise an error",
 "Text or bytes written through any sink (file, string or byte buffer, member of a zip archive, nowhere) are exactly what the matching source (file, gzipped file, zip or tar.gz member, wrapped bytes, string) reads back, whole, incrementally or by lines broken only at newline, and the emptiness test agrees with the content. Each whole-write replaces the previous content, and adding a member to a zip archive leaves other members intact. Values of the wrong type and text that cannot be encoded are refused. If any underlying read, write, flush or close fails, or compressed data is damaged, the operation raises instead of reporting success with missing or altered data.",
 ["inputs","fault_sequences","histories"],
 "All text (including CR, LF, CRLF, other Unicode line separators, BOM, astral characters) and bytes, sizes around every buffer boundary, all chunkings, all sink/source kinds, I/O errors, disk-full, short and interrupted I/O at every system call, truncation and bit flips of compressed containers (other than truncation to nothing or at the joint of a multi-part gzip file, which the format cannot reveal; damage to the newest of several versions of a zip member may bring back an older one).",
 "Tests round-trip one or two short ASCII strings per kind with every system call succeeding in full.",
 [IO],[("openers","CharSource/CharSink/ByteSource/ByteSink implementations"),("close chaining for archive members","new_close wrappers")],
 [],["open/read/read_all/readlines/is_empty/write"])
p("C06","No operation leaks open files, whatever succeeds or fails",
 "When a source, sink, store session, loader, writer or script finishes and its handle or context is closed, by success, by an exception from the caller, or by an I/O failure, every file it opened has been closed. Closing archive-member handles closes the archive they came from, and a context that fails while being entered leaves nothing open. No context or handle hides an exception raised inside it by the caller or by a callback: the operation ends with that exception, or with one that has it as its cause or context.",
 ["fault_sequences","histories","configurations"],
 "All operations of the file-facing API, with no fault or with an error injected at any system call or a failure of any callback or of the caller, and with damaged input files.",
 "Tests never count open descriptors, and never fail an operation half way, which is where handles leak.",
 [IO,KV,PA,"vistautils/scripts"],[("context managers","with-statements and close chaining throughout"),("context exits","__enter__/__exit__ of key-value sources and sinks")],
 [],["set of open descriptors under the scratch directory before and after an operation (strong references dropped only by the library's own close)"])
p("C07","A tar.gz source yields every selected entry once and intact, or raises",
 "Iterating a key-value source over a tar archive (compressed or not) yields, in archive order, exactly one pair for every regular-file entry accepted by the name filter, key function and key filter, with the mapped key and complete content, whether used again, partially consumed, or interleaved with a second iteration. If a read fails, or a compressed archive is cut short or damaged in a way its checksums reveal, iteration raises; it never ends early as though complete, and pairs yielded before a read error are true.",
 ["inputs","fault_sequences","schedules"],
 "All archives of files, directories, links and empty files in any order and format, all filters and key functions (including ones that drop entries), byte and text variants, truncation of the compressed file at every byte, read errors and short or interrupted reads at every system call, interleavings of iterators.",
 "Tests read one small fixed archive completely and successfully.",
 [KV],[("strict streaming of members","TarGzipBytesLinearKeyValueSource.items"),("value interpretation","InterpretedLinearKeyValueSource")],[],["items()"])
p("C08","Splitting and joining stores loses, duplicates and alters nothing, or fails",
 "Splitting a store into slices puts every entry into exactly one slice with its value unchanged, slice sizes differing by at most one, and records the slice list; an explicit split gives each output exactly the requested keys and fails if a requested key is missing or, when exhaustiveness is required, if any key is left out. Joining stores gives exactly the union of their entries and fails on a duplicate key. Any I/O fault or crash during either makes it fail visibly or leaves complete outputs, and inputs are never modified. An input entry which is listed but missing or damaged makes the operation that needs it fail.",
 ["inputs","configurations","fault_sequences","crash_points","schedules"],
 "All stores and slice counts (more slices than keys included), seeds, explicit splits complete or not, overlapping inputs, zip and file-map inputs, output kinds; faults at any system call; slices processed concurrently by several workers in any interleaving between split and join.",
 "Tests split and join one small store with fixed counts and no faults.",
 ["vistautils/scripts/split_key_value_store.py","vistautils/scripts/join_key_value_stores.py",KV,PA],[("round-robin over sorted keys","_split_into_even_slices"),("exhaustiveness check","_explicit_split"),("duplicate check","join main")],[],["output stores and slice list after main returns or raises"])
p("C09","Converting a directory, tar archive or sample into a store is complete or fails",
 "Copying a directory into a store gives one entry per file with that file's bytes under its derived key, failing when two files share a key; converting a tar archive to zip gives every regular file's bytes under its member name, by streaming or unpacking, except those over the requested size limit, at the documented output name; downsampling gives the requested number of entries (or all), each with its original value, the same selection for the same seed. On any read or write fault the conversion fails visibly instead of producing a store that silently misses or alters entries.",
 ["inputs","configurations","fault_sequences"],
 "All directory trees and archives, key functions, output kinds, size limits, sample sizes and seeds, any directory listing order, faults at any system call, pre-existing output.",
 "The tar conversion has no test and the downsampling test fails on this Python; the directory test copies two files with no fault.",
 ["vistautils/scripts/directory_to_key_value_store.py","vistautils/scripts/tar_gz_to_zip.py","vistautils/scripts/downsample_key_value_store.py"],[("copy loops","main of each script"),("output name","_output_name")],[],["output store contents, exit by exception"])
p("C10","Results do not depend on hash seed, clock, listing order or I/O chunking",
 "For the same inputs and parameters, every store, conversion, split, sample, loader and writer produces the same observable result whatever the interpreter's hash seed and locale, the directory listing order, the wall clock and its jumps, the split of reads and writes into short or interrupted system calls, the working directory and what ran earlier in the process.",
 ["schedules","configurations","fault_sequences","inputs"],
 "All workloads of the other properties, each executed under several environments differing in hash seed, directory order, simulated time (forward and backward jumps), short/EINTR I/O and prior use of the global random generator.",
 "Tests run once under one hash seed, with the real clock and whole reads and writes.",
 ["vistautils/scripts",KV,IO,PA],[("sorted keys and private seeds","split/downsample scripts"),("ordered immutable collections","file_lines_to_set, sub_namespaces, from_mapping")],[],["canonical dump of every observable result"])
p("C11","A recorded checkpoint is seen by everyone until an explicit reset",
 "Once recording a checkpoint has returned, every later query by any process, including after a crash and restart, says it is done, until a reset; a checkpoint never recorded (since the last reset) is never reported. Recording is idempotent, distinct legal names never affect each other, and workers may record and query concurrently in any interleaving; opening an existing directory keeps its checkpoints. If recording fails the caller sees an error; a reset that returns leaves no checkpoint and a usable store, and touches nothing outside the checkpoint directory.",
 ["schedules","crash_points","histories","fault_sequences"],
 "All legal file names, all sequences of set/query/reset/reopen by up to three processes under all interleavings at system-call granularity, crash or I/O error at any system call. Resets are not run concurrently with other workers.",
 "The tests use one process, two names and no crash, error or concurrency.",
 ["vistautils/checkpoints.py"],[("one file per checkpoint","_CheckPointDirectory.set/__contains__/reset_all")],[("directory","one empty file per checkpoint done","checkpoint directory")],["in, set, reset_all, from_directory"])
p("C12","Loading a parameter file honours every include in order, or raises",
 "Loading a parameter file gives the parameters of its includes, nested to any depth and each resolved relative to the file naming it, overridden in order by later includes and finally by the file itself, over any supplied context; references are interpolated from the file, then earlier includes and context, then the environment, which never appears in the result or overrides a parameter. If any file is missing, unreadable, malformed or fails while being read, or a reference cannot be resolved, loading raises; it never returns a partial or stale result, and repeated loads agree with the files as they are at that time.",
 ["inputs","fault_sequences","configurations","histories"],
 "All include graphs without cycles over several directories, overriding layouts, interpolation references to values of every type, environments, contexts; missing/truncated/undecodable files, read errors, short and interrupted reads at every system call, files rewritten between loads.",
 "Tests load a handful of fixed files that always exist and are read in one go.",
 [PA],[("include processing and unification","YAMLParametersLoader._inner_load_from_string"),("interpolation with back-off","YAMLParametersLoader._interpolate"),("error wrapping","IOError raised from load")],[],["YAMLParametersLoader.load"])
p("C13","Written parameters load back equal, or the write reports failure",
 "Parameters made of nested namespaces, strings, numbers, booleans, paths and lists, once written to a file or other sink, load back as equal values under the same names in the same order (paths as strings), replacing whatever the file held. If the value cannot be represented or any write, flush or close fails, the writer raises; and a parameter tree is never changed by being written.",
 ["inputs","fault_sequences","histories"],
 "All parameter trees of those types (strings that look like other types, multi-line, long, non-ASCII, percent-free), overwriting histories, all sinks, faults at any system call, short and interrupted I/O.",
 "One test writes a fixed tree once with no failure.",
 [PA],[("canonicalisation","YAMLParametersWriter._preprocess_dicts"),("dump through a sink","YAMLParametersWriter.write")],[],["YAMLParametersWriter.write then YAMLParametersLoader.load"])
p("C14","Directory and file parameters are usable on return and destroy nothing else",
 "Asking for a creatable directory or file returns an absolute location whose directory exists, with it and any missing parents created, however many processes ask concurrently; asking for an empty directory returns an existing empty one, and contents are deleted only when deletion was requested and only inside that directory, otherwise a non-empty directory is refused and left untouched. Asking for an existing file or directory succeeds exactly when it is one. If a system call fails, the caller gets an error rather than an unusable or non-empty location.",
 ["schedules","fault_sequences","configurations","histories"],
 "All directory layouts (missing, empty, nested, files, symlinks, relative paths), delete on or off, optional variants present or absent, up to three concurrent callers under all interleavings, I/O errors at any system call.",
 "Tests check each accessor once in one process with no failure or race.",
 [PA],[("mkdir with exist_ok","Parameters.creatable_directory/creatable_file"),("refusal or deletion","Parameters.creatable_empty_directory"),("existence checks","Parameters.existing_file/existing_directory")],[],["returned path, directory tree before and after"])
p("C15","Line lists and key-to-file maps are read completely and exactly, or raise",
 "Reading a list of lines, a list of paths, a map of identifiers to files (and writing one) or a stored object from a file gives exactly the entries in the file, in order, blank lines and comments as documented, relative entries resolved against the requested directory; a malformed line or undecodable text raises, and a map the format cannot hold is not written as another one. Short or interrupted reads change nothing, and if any read fails the call raises rather than returning part of the file.",
 ["inputs","fault_sequences"],
 "All files of lines (long lines, many lines, CRLF, other Unicode separators, non-ASCII, missing final newline, blank lines), map round trips, read errors and short/interrupted reads at every system call.",
 "Tests read a few short ASCII lines in one read.",
 [IO,PA],[("line readers","file_lines_to_set, read/write_doc_id_to_file_map"),("path lists and maps","Parameters.path_list_from_file/path_map_from_file/pickled_object_from_file")],[],["returned collections"])
p("C16","An entry point runs its program exactly once with the right parameters",
 "A parameters-only entry point calls the program exactly once, with logging configured as the parameters say and with the file's parameters overridden by the command-line overrides (dotted names reaching into namespaces), or with the explicitly supplied parameters in place of a file; the program's own exception reaches the caller unchanged and is never retried. If the parameter file cannot be read completely, logging cannot be configured, or the arguments are wrong, the program is not called at all and the caller sees an error.",
 ["inputs","fault_sequences","configurations"],
 "All parameter trees, override lists, explicit parameters, logging settings, read errors and interrupts at every system call before and during the program, programs that raise.",
 "Tests cover one file with one override and no failure.",
 ["vistautils/parameters_only_entrypoint.py","vistautils/logging_utils.py",PA],[("load, override, run","_real_parameters_only_entry_point"),("logging setup","configure_logging_from")],[],["calls received by the program, exception seen by the caller"])
p("C17","Stream adapters deliver every element in order, lazily, and pass on failures",
 "Skipping, windowing, taking the only element and dropping missing values deliver, over any stream, exactly the elements or windows their definitions give, in order, never reading further ahead of what was asked for than needed, whether the input is re-iterable or one-shot. A failure raised by the producer at any element reaches the consumer after the elements before it were delivered, with nothing lost, repeated or swallowed, and independent consumers of a re-iterable adapter do not disturb each other in any interleaving.",
 ["schedules","fault_sequences","inputs"],
 "All streams (infinite, one-shot, re-iterable, holding None and falsy or oddly comparing elements), window sizes and skip counts, producer failures at every element, interleavings of up to three consumers and a producer that grows the stream.",
 "Tests consume short finite lists completely; none has a producer that stalls or fails or counts how far ahead it was read.",
 ["vistautils/iter_utils.py"],[("lazy generators","drop, windowed, only, non_none")],[],["elements received and elements requested, in order"])
p("C18","Simultaneous readers of the same data never disturb each other",
 "Several sources, iterators and open handles over the same store or file, used in any interleaving in one process or in several, each behave as if they were alone: partially consumed iterations, lookups in between, repeated listings, filtered items and value-interpreting views all give exactly what a single reader gets. Closing one leaves the others usable, a closed source refuses use with an error rather than stale data, and a source may be opened again; reading never changes the data on disk.",
 ["schedules","histories","inputs"],
 "All interleavings of up to three readers (iterators, lookups, incremental reads) over zip, directory, tar, gzip, zip-member and plain sources and interpreted views, within a process at operation granularity and across processes at system-call granularity.",
 "Tests use one reader from start to end.",
 [KV,IO],[("independent handles","zip/path-mapping/tar sources and archive-member sources"),("interpretation wrappers","_InterpretedKeyValueSource, InterpretedLinearKeyValueSource")],[],["results per reader against a single-reader model, file hashes"])
p("C19","Text shown at offsets is exactly the requested characters, or it fails",
 "Asked for the text of a file between two character offsets, the offset tool prints exactly those characters of the UTF-8 file, counted as Unicode code points with line ends as they are in the file, whatever the locale and however the reads are split; offsets outside the text are reported, and if the file is missing, cannot be read completely or is not text, the tool fails instead of printing something else.",
 ["inputs","fault_sequences","configurations"],
 "All files (carriage returns, other separators, characters beyond the basic plane, byte order marks, buffer-sized lengths), all offsets, locales, read errors and short or interrupted reads at every system call.",
 "No test runs this script.",
 ["vistautils/scripts/text_at_offsets.py"],[("read whole, slice","text_at_offsets.main")],[],["what the tool prints"])
# --- not applicable
p("N01","Range and range-set algebra follows the mathematics of intervals",
 "For all ranges over any ordered type, containment, enclosure, intersection, spanning, and the union, complement and query operations of mutable and immutable range sets agree with sets of points.",
 ["inputs","histories"],"All ranges and all sequences of additions and removals.","Tests sample fixed ranges.",["vistautils/range.py"],[("range sets over sorted dictionaries","RangeSet, MutableRangeSet")])
p("N02","A range map looks up the value of the range holding a key",
 "For all maps from disjoint ranges to values, lookup of a point or of enclosing or nearest ranges returns the mapped value of the right range, and overlapping ranges are rejected.",
 ["inputs"],"All disjoint range collections and query points.","Tests sample fixed maps.",["vistautils/range.py"],[("lookup over a range set","ImmutableRangeMap")])
p("N03","Spans and span indices compare, contain and look up correctly",
 "For all spans, containment, overlap, shifting, clipping and ordering agree with sets of offsets, and an index of spanned items returns exactly the items that satisfy each query.",
 ["inputs"],"All spans and item collections.","Tests sample fixed spans.",["vistautils/span.py"],[("span index","Span, HasSpanIndex")])
p("N04","Annotated text renders every region's markup around its exact text",
 "For all texts and nested labelled regions, rendering keeps every character of the text once and in order, encloses each region in its markup, and rejects crossing regions.",
 ["inputs"],"All texts and nested annotation sets.","Tests render fixed texts.",["vistautils/annotated_text_utils.py"],[("sorted region traversal","text_to_html / region formatting")])
p("N05","Typed parameter access validates, converts and defaults as declared",
 "For all parameter trees, typed accessors return the stored value when it satisfies the declared type and constraints, the default when absent, and raise naming the parameter otherwise; unification of two trees takes conflicting leaves from the second and rejects leaf/namespace conflicts.",
 ["inputs"],"All parameter trees and accessors.","Tests sample fixed trees.",["vistautils/parameters.py"],[("typed accessors","Parameters")])
p("N06","Interpolation order respects every acyclic reference graph",
 "For all acyclic reference graphs among the values of one in-memory parameter tree, interpolation replaces every reference by the fully interpolated value of its target, and a cyclic graph is rejected.",
 ["inputs"],"All reference graphs.","Tests sample small graphs.",["vistautils/_graph.py","vistautils/parameters.py"],[("topological sort","Digraph.topological_sort")])
p("N07","Objects built from parameters come from the named factory with its arguments",
 "For all expressions and factory names, evaluation in the given context returns the named object, and construction calls the resolved factory once with the remaining parameters and rejects a result of another type.",
 ["inputs","configurations"],"All contexts, factories and expected types.","Tests sample fixed factories.",["vistautils/parameters.py","vistautils/misc_utils.py","vistautils/class_utils.py"],[("factory resolution","Parameters.evaluate/object_from_parameters")])
p("N08","Argument checks, memory amounts and small helpers satisfy their definitions",
 "For all arguments, precondition helpers raise exactly when their condition fails, memory-amount strings parse to the stated number of bytes, and string and collection helpers return what their documentation defines.",
 ["inputs"],"All arguments.","Tests sample a few values.",["vistautils/preconditions.py","vistautils/memory_amount.py","vistautils/misc_utils.py","vistautils/collection_utils.py","vistautils/attrutils.py"],[("pure helpers","preconditions, MemoryAmount, misc_utils")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
