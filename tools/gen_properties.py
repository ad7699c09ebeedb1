#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or ["load_msh", "save_msh"], hook_needed=None)))

SAVE = ["src/save_msh.cpp", "src/save_msh_format.cpp", "src/save_msh_nodes.cpp", "src/save_msh_elements.cpp",
        "src/save_msh_entities.cpp", "src/save_msh_physical_groups.cpp", "src/save_msh_data.cpp"]
LOAD = ["src/load_msh.cpp", "src/load_msh_format.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp",
        "src/load_msh_entities.cpp", "src/load_msh_physical_groups.cpp", "src/load_msh_data.cpp",
        "src/load_msh_post_process.cpp", "src/io_utils.cpp"]

prop("C01", "MSH 4.1 binary save/load is lossless",
 "For every consistent mesh specification, saving it as MSH 4.1 binary and loading the result gives back the same specification: "
 "every node block, element block, entity, physical group and post-processing section, in the same order. "
 "Every count, tag, string and double (including NaN, infinities, signed zero and subnormals) is bit-for-bit what was saved; only the real tags of post-processing headers, which the format stores as text in every encoding, are exact for finite values only, like all doubles in ASCII.",
 ["inputs", "configurations"],
 "all consistent specifications (any number/size of blocks, all 31 element types, parametric nodes, entities of all dimensions, any names, "
 "any number of post-processing sections whose entry tags fit the format's 32 bits), with and without the nanospline extension",
 "The tests round-trip eight hand-made specs with at most 8 nodes, tags 1..15, coordinates 0/1/2, one data section and no comparison of entities "
 "or physical groups; they cannot speak for other sizes, tags, values, types or combinations of sections.",
 SAVE + LOAD, [("binary section writers and readers in lock step", "v41::save_*_binary / v41::load_*_binary"),
               ("exactly one separator byte skipped before a binary payload", "src/io_utils.cpp eat_white_space")])

prop("C02", "MSH 4.1 ASCII save/load is lossless for finite values",
 "For every consistent mesh specification with finite values, saving it as MSH 4.1 ASCII and loading the result gives back the same specification, "
 "every finite double recovered exactly and every tag, count and string unchanged and in order. "
 "A specification holding a NaN or infinity where the file stores text is either restored exactly or the file is refused with an exception; it is never silently altered.",
 ["inputs", "configurations"],
 "all consistent specifications (as C01), doubles over the whole finite range including subnormals and extremes; both build configurations",
 "The tests only use coordinates such as 0, 1 and 2, which survive any decimal formatting, and never compare entities, groups or names.",
 SAVE + LOAD, [("ASCII writers/readers", "v41::save_*_ascii / v41::load_*_ascii"), ("quoted strings", "std::quoted in physical groups and data headers"),
               ("decimal precision of the output stream", "src/save_msh.cpp")])

prop("C03", "MSH 2.2 save/load keeps every node, element, name and field",
 "For every consistent specification, saving as MSH 2.2 (ASCII or binary) and loading gives the same ordered sequence of nodes (tag, x, y, z) and of elements "
 "(tag, type, dimension, entity tag, node tags), the same physical groups and the same post-processing sections, with exact doubles (finite ones where the file stores text). "
 "Totals and minimum/maximum tags of the loaded specification describe exactly that content. "
 "Only what the 2.2 format cannot carry (block boundaries, parametric coordinates, the entity section) may differ.",
 ["inputs", "configurations"],
 "all consistent specifications whose tags fit the 32-bit integers of format 2.2, both encodings, both build configurations, including blocks without members",
 "The tests' 2.2 round trips use at most two blocks whose layout happens to survive; sparse or unordered tags, empty blocks, many blocks, interleaved types and shared nodes are never tried.",
 ["src/save_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_post_process.cpp", "src/save_msh_data.cpp", "src/load_msh_data.cpp"],
 [("per-element records, regrouped after loading", "src/load_msh_post_process.cpp"), ("32-bit records in binary", "v22::save_*_binary / v22::load_*_binary")])

prop("C04", "Physical-group membership survives MSH 2.2",
 "When the entity of an element belongs to one physical group (or to none), saving the specification as MSH 2.2 and loading it again leaves that element's physical-group membership, "
 "looked up through the loaded entities by the element's dimension and entity tag, unchanged. "
 "Hence a 2.2 file that is loaded and saved as 2.2 again keeps its boundary and material tags.",
 ["inputs", "histories"],
 "all consistent specifications in which each entity has at most one physical group, both 2.2 encodings, and any number of 2.2 re-saves",
 "No test looks at entities or physical groups after a round trip; the one test with a physical group uses entity tag 1 and group tag 1, which cannot be told apart.",
 ["src/save_msh_elements.cpp", "src/load_msh_elements.cpp", "src/load_msh_post_process.cpp"],
 [("first element tag is the physical group, second the elementary entity", "v22::load_elements_*, v22::save_elements_*"), ("entities synthesised from element tags", "create_entities")])

prop("C05", "Files saved as MSH 4.1 conform to the format",
 "Whatever consistent specification is saved as MSH 4.1, an independent strict reader of the published format finds in the output exactly its content: "
 "header first, each section delimited by its $Name/$EndName pair, fields in the documented order, binary fields with the documented widths, and counts that match. "
 "Nothing is missing, duplicated or added.",
 ["inputs", "configurations"],
 "all consistent specifications, ASCII and binary, both build configurations",
 "Tests read files back only with the library itself, so an error made consistently in writer and reader is invisible to them.",
 SAVE, [("section writers", "src/save_msh*.cpp"), ("section order and omission of empty sections", "src/save_msh.cpp")], ["save_msh output bytes"])

prop("C06", "Files saved as MSH 2.2 conform to the format",
 "Whatever consistent specification is saved as MSH 2.2, an independent strict reader of the published format finds in the output exactly its nodes, elements, physical names and post-processing fields: "
 "node and element records in order with the documented layout and widths, element headers whose counts add up to the declared total, and no section that 2.2 does not have.",
 ["inputs", "configurations"],
 "all consistent specifications with 32-bit tags, ASCII and binary",
 "Tests read 2.2 files back only with the library itself.",
 SAVE, [("2.2 writers", "v22::save_*"), ("no $Entities in 2.2", "src/save_msh_entities.cpp")], ["save_msh output bytes"])

prop("C07", "Every conforming MSH 4.1 file loads to exactly what it says",
 "Loading any conforming MSH 4.1 file, ASCII or binary, produced by an independent writer yields exactly the content written, accepted by the validator, "
 "whatever the layout freedoms taken: spacing and line ends in ASCII, equivalent number spellings, section order after the header, optional newline after a binary payload, missing optional sections.",
 ["inputs"],
 "all conforming 4.1 files over the supported sections (contents as in C01), all layouts the format leaves open",
 "The tests load one 4.1 ASCII and one 4.1 binary file and look only at two totals.",
 LOAD, [("token-wise ASCII reading", "v41::load_*_ascii"), ("raw binary reading", "v41::load_*_binary"), ("section dispatch", "src/load_msh.cpp")], ["load_msh", "validate_spec"])

prop("C08", "Every conforming MSH 2.2 file loads to exactly what it says",
 "Loading any conforming MSH 2.2 file yields its nodes and elements in file order, with consecutive elements of equal dimension, entity and type in one block, consecutive nodes of equal entity in one block, "
 "each node assigned to the entity of an element that uses it, true totals and tag ranges, and a result the validator accepts. "
 "With two or more tags on an element the first is its physical group and the second its entity, and the loaded entities record exactly the set of groups seen for each entity; with one tag that is the entity.",
 ["inputs"],
 "all conforming 2.2 files: both encodings, any number of tags per element, any grouping of binary element headers, any layout, empty sections, unordered and sparse tags",
 "The tests load one 2.2 ASCII and one 2.2 binary file and look only at two totals.",
 ["src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_post_process.cpp", "src/load_msh_data.cpp", "src/load_msh_physical_groups.cpp", "src/load_msh.cpp"],
 [("per-element blocks then regrouping", "src/load_msh_post_process.cpp"), ("tag semantics", "src/load_msh_elements.cpp v22")], ["load_msh", "validate_spec"])

prop("C09", "Conversion chains between formats do not drift",
 "Along any chain of save-and-load conversions among 4.1 ASCII, 4.1 binary, 2.2 ASCII and 2.2 binary, a 4.1 step changes nothing but the format header, and a 2.2 step changes only what format 2.2 cannot carry. "
 "After the first 2.2 step, no further step in any format changes the content at all, and ASCII and binary steps are interchangeable.",
 ["histories", "inputs"],
 "all sequences of conversions (length 1 to about 10) starting from any consistent finite specification with 32-bit tags",
 "Tests perform a single save and load per format; nothing is saved twice or converted between formats.",
 SAVE + LOAD, [("format chosen from the specification's header", "src/save_msh.cpp, src/load_msh.cpp")])

prop("C10", "Loading arbitrary bytes is safe and terminates",
 "For every byte sequence, loading either returns a specification or throws a standard exception: it never reads or writes out of bounds, invokes undefined behaviour, aborts or runs without end. "
 "This holds in builds with and without assertions and with and without the extension.",
 ["inputs", "configurations"],
 "all byte sequences: random, token soups, conforming files with mutations (flipped bytes, altered counts, cut, spliced, duplicated or reordered parts), in every build configuration",
 "Tests load only well-formed files.",
 LOAD + ["src/load_msh_curves.cpp", "src/load_msh_patches.cpp", "src/element_utils.cpp"],
 [("stream state checks", "src/load_msh*.cpp"), ("element type check", "src/element_utils.cpp"), ("node classification", "src/load_msh_post_process.cpp")], ["load_msh"])

prop("C11", "A truncated file is never taken for a complete one",
 "Loading any proper prefix of a conforming file that ends inside a section, up to and including its end marker, throws an exception; "
 "a prefix that ends between sections loads exactly the sections it contains. "
 "The same holds when the input stream fails (I/O error) at that position, in which case loading always throws.",
 ["fault_sequences", "inputs", "crash_points"],
 "every cut or read-error position of every conforming file, all four formats",
 "Tests never present an incomplete file; the code's stream checks are debug assertions that the tested build compiles out.",
 LOAD, [("end markers", "src/load_msh.cpp forward_to"), ("stream state after each read", "src/load_msh*.cpp")], ["load_msh"])

prop("C12", "Unsupported or invalid variants are refused by name",
 "A file or specification that asks for something unsupported is refused with the documented exception: versions other than 2.2 and 4.1 (loading and saving, whatever else the specification holds), a 4.1 data size other than 8, "
 "a file type other than 0 and 1, a foreign byte order and element types outside the supported table raise UnsupportedFeature; an entity section in a 2.2 file, post-processing data with fewer than three integer tags and element headers of a 2.2 binary file exceeding the declared count raise InvalidFormat. "
 "A missing input file or unwritable output path raises an exception too.",
 ["inputs"],
 "all version strings, data sizes, byte-order marks, element types and tag counts, in all formats, embedded in otherwise conforming files",
 "No test expects an exception.",
 ["src/load_msh_format.cpp", "src/save_msh_format.cpp", "src/element_utils.cpp", "src/load_msh_entities.cpp", "src/load_msh_data.cpp", "src/load_msh_elements.cpp", "src/load_msh.cpp", "src/save_msh.cpp"],
 [("header checks", "load_mesh_format"), ("element type check", "assert_element_is_supported")])

prop("C13", "The validator accepts exactly the consistent specifications",
 "The validator returns normally for every consistent specification and throws (CorruptData, or UnsupportedFeature for an unknown element type) for every one in which a declared count, an array length or a tag range contradicts the content: "
 "block counts, node/element totals, per-block counts against array lengths for the node kind and element type, tags outside the declared ranges, post-processing headers against their entries. "
 "It never crashes, whatever it is given.",
 ["inputs"],
 "all consistent specifications and all single- or multi-field corruptions of them, including empty blocks and zero counts",
 "Tests call the validator only on specifications that are valid and non-empty.",
 ["src/validate_spec.cpp"], [("consistency checks", "validate_spec")], ["validate_spec"])

prop("C14", "A specification the validator accepts is safe to save",
 "For any specification whatsoever, if the validator accepts it then saving it in any supported format reads only inside its arrays, and the file loads back to the same content (up to what the format carries), unless a tag does not fit the format, which may be refused. "
 "Validation and saving never modify the specification.",
 ["inputs"],
 "arbitrary specifications built field by field without regard to consistency, filtered only by the validator itself",
 "Tests only build consistent specifications.",
 ["src/validate_spec.cpp"] + SAVE, [("validator checks versus writer assumptions", "validate_spec / save_*")], ["validate_spec", "save_msh"])

prop("C15", "Sections that are not understood have no effect",
 "Inserting any number of sections the library does not know, with any content other than their own end marker (even text that looks like known sections, or binary bytes), anywhere between the sections of a conforming file, does not change what is loaded. "
 "The same holds for the extension's curve and patch sections in a build without the extension, and the relative order of distinct kinds of sections after the header does not matter.",
 ["inputs", "configurations"],
 "all conforming files, insertion positions, section names and contents; both build configurations",
 "No test file contains an unknown section or an unusual order.",
 ["src/load_msh.cpp", "src/load_msh_curves.cpp", "src/load_msh_patches.cpp"], [("skip to the matching end marker", "load_msh / forward_to")], ["load_msh"])

prop("C16", "File calls equal stream calls and report every I/O failure",
 "Saving to a file name writes byte for byte what saving to a stream writes (replacing any previous content), and loading from a file name equals loading from a stream with its bytes. "
 "If the file cannot be opened, or any part of the output cannot be written, saving to a file name throws; it returns normally only when the complete file is on disk. "
 "When an output stream fails part-way, what it accepted is a prefix of the complete output and the stream is left in a failed state.",
 ["fault_sequences", "inputs"],
 "all consistent specifications, every write-failure position (file size limit, full device, failing stream buffers that return short counts or throw)",
 "The test only saves to in-memory streams that never fail.",
 ["src/save_msh.cpp", "src/load_msh.cpp"], [("file overloads", "load_msh(filename), save_msh(filename, spec)")], ["file contents", "exceptions", "stream state"])

prop("C17", "Results do not depend on stream or locale state",
 "What is saved or loaded depends only on the specification or the bytes: not on the stream's formatting flags, precision, width, fill, locale or exception mask, the global C++ locale, "
 "how the stream buffer delivers its bytes, whether it can seek, or the position at which reading or writing starts. "
 "The caller's formatting flags, precision, locale and exception mask are the same after the call as before.",
 ["inputs", "configurations"],
 "all consistent specifications and conforming files combined with all stream formatting states, digit-grouping/decimal-comma locales, chunk sizes and non-seekable buffers",
 "Tests use fresh string streams in the default state only.",
 ["src/save_msh.cpp", "src/load_msh.cpp", "src/io_utils.cpp"], [("formatted I/O", "operator<< / operator>> throughout src/")])

prop("C18", "Calls are pure, deterministic and independent",
 "Saving is a function of the specification's value alone: it leaves the specification unmodified and gives the same bytes every time, for every equal specification. "
 "No call is influenced by earlier calls, successful or failed, nor by concurrent calls on other streams from other threads, which are free of data races; several threads may save the same specification at once.",
 ["histories", "schedules", "inputs"],
 "all interleavings of load/save/validate calls in a history including failing ones, and concurrent executions with several threads (under the thread sanitizer)",
 "Each test makes one save and one load in a fresh process on one thread.",
 SAVE + LOAD + ["src/validate_spec.cpp", "src/element_utils.cpp"], [("absence of global state", "src/")])

prop("C19", "Element type tables are exact and total",
 "For each of the supported element types 1 to 31 the reported number of nodes and dimension are those of the documented table, consistently in the lookup functions and in every file reader and writer. "
 "For every other integer the lookup functions throw UnsupportedFeature.",
 ["inputs"],
 "all 32-bit integers as element type (the table exhaustively, the rest sampled including extremes), and files with elements of each type in each format",
 "Tests use element types 1, 2, 3 and 15 only.",
 ["src/element_utils.cpp", "src/load_msh_elements.cpp", "src/save_msh_elements.cpp"], [("lookup tables", "nodes_per_element, get_element_dim")], ["nodes_per_element", "get_element_dim", "load_msh"])

prop("C20", "The nanospline extension round-trips curves and patches",
 "With the extension enabled, every set of curves and patches (any degree, control points, knots, with or without weights) and the extension version survive saving and loading in every format and encoding exactly (finite values in ASCII), together with the rest of the specification. "
 "The output is laid out as declared: counts, per-item header, control points, then knots. "
 "With the extension disabled, nothing of it is written and its curve and patch sections in a file are skipped.",
 ["inputs", "configurations"],
 "all curve/patch sets, four formats, both build configurations, files exchanged between the two configurations",
 "One test with fixed cubic curves and one patch, no knots, never compares patches.",
 ["src/save_msh_curves.cpp", "src/load_msh_curves.cpp", "src/save_msh_patches.cpp", "src/load_msh_patches.cpp", "src/save_msh_nanospline_format.h", "src/load_msh_nanospline_format.h", "src/save_msh.cpp"],
 [("extension sections", "save_curves/load_curves, save_patches/load_patches")])

prop("C21", "The inspection tool reports a file faithfully",
 "For every conforming file, the inspection example exits successfully without memory errors, prints every entity, physical group, node (with all of its coordinates), element and node/element data entry that the file contains, in order, and writes a copy that loads to the same content.",
 ["inputs"],
 "all conforming files in all formats, including parametric nodes of every dimension and data with any number of fields",
 "The example is built but never run by the tests.",
 ["examples/msh_inspect.cpp"], [("printing loops", "examples/msh_inspect.cpp")], ["stdout", "exit status", "tmp.msh"])

prop("C22", "The Python binding exposes every field faithfully",
 "Every documented structure is exposed to Python under its name with read/write attributes named like its C++ fields; reading an attribute gives that field's value and assigning one changes that field and nothing else. "
 "The module's load, save, validate and lookup functions behave exactly as the C++ ones.",
 ["inputs"],
 "all bound classes and attributes with generated values and interleaved assignments, and generated specifications through the bound functions",
 "The binding is not built or tested at all in this environment.",
 ["python/pymshio.cpp"], [("attribute table", "python/pymshio.cpp")], ["bound attributes and functions"])

prop("C23", "Tags may be sparse and unordered at bounded cost",
 "Positive tags need not be consecutive, ordered or small: any conforming file or consistent specification is handled correctly in every format whatever its tags (within the integers the format provides), "
 "and the memory needed for loading is bounded by a fixed multiple of the file size, independent of tag values.",
 ["inputs"],
 "all conforming files/specifications with arbitrary distinct positive tags, including ranges of billions with a handful of members, all four formats",
 "All test meshes have tags 1..N.",
 ["src/load_msh_post_process.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp"], [("node tag to entity association", "v22::regroup_nodes_into_blocks")], ["load_msh", "peak allocation"])

prop("C24", "Whatever is loaded can be saved and loaded again unchanged",
 "If any input, conforming or not, is loaded and accepted by the validator, then saving it in its own format and loading it again gives the same content (up to regrouping in 2.2 and what the encodings can represent), and from the second save on the bytes no longer change.",
 ["inputs", "histories"],
 "all byte sequences accepted by loader and validator: conforming files, mutated files, fuzzed files",
 "Tests re-save four small files once and compare nodes, elements and data only.",
 LOAD + SAVE, [("loader/saver agreement on the accepted language", "src/")], ["load_msh", "validate_spec", "save_msh"])

prop("C25", "Loaded specifications are structurally sound",
 "Every specification returned by loading, whatever the input bytes, has arrays that match its counts: block counts equal the number of blocks, each node block holds the declared number of tags and 3 (or 3 plus its dimension, if parametric) values per node, "
 "each element block one tag plus the type's number of node tags per element, and each data section the declared number of entries with the declared number of values. "
 "So a client that indexes it as documented stays inside the arrays.",
 ["inputs", "configurations"],
 "all byte sequences accepted by the loader (random, mutated, spliced), all build configurations",
 "Tests load only well-formed files.",
 LOAD + ["src/load_msh_curves.cpp", "src/load_msh_patches.cpp"], [("array sizing from declared counts", "src/load_msh*.cpp")], ["load_msh"])

prop("C26", "Running out of memory is reported and leaves nothing behind",
 "When an allocation fails at any point while loading, saving or validating, the caller learns of it (an exception or, when saving to a stream, a failed stream): a call never returns normally with content lost or changed. "
 "However a call ends, it leaks no memory and leaves no file open, saving and validating leave the specification unmodified, and later calls give the same result as if it had not happened.",
 ["inputs", "crash_points", "histories"],
 "all files and specifications, good and bad, in all formats, by stream and by file name, with every allocation of the call failing alone or together with all later ones",
 "Tests never run out of memory, and they check the result of successful calls only.",
 LOAD + SAVE, [("error reporting on every path", "src/"), ("ownership of everything allocated or opened", "src/load_msh.cpp, src/save_msh.cpp")], ["load_msh", "save_msh", "validate_spec", "memory and files in use"])

prop("C27", "Work grows in proportion to the content",
 "Saving, loading and validating take work that grows in proportion to the size of the content (up to logarithmic factors), whatever it consists of: many blocks or long blocks, many entities, physical groups, data sections or entries, long names, tags in any order, repeated or sparse. So meshes of millions of nodes stay practical and no small file keeps a program busy.",
 ["inputs"],
 "all kinds of content multiplied in all ways (longer blocks or more blocks, same or other entities and groups, tags ascending, descending, interleaved or sparse), all formats",
 "Tests use meshes of a handful of nodes, where any growth goes unnoticed.",
 LOAD + SAVE + ["src/validate_spec.cpp"], [("node tag to entity association, regrouping, tables of entities", "src/load_msh_post_process.cpp, src/load_msh_elements.cpp, src/save_msh_elements.cpp")], ["load_msh", "save_msh", "validate_spec"])

prop("C28", "A section that holds less than it announces is refused",
 "If the content of any section of a conforming file ends too early, by any amount, with its end marker and the rest of the file in place, loading throws: no value, entry, name or record that was announced is left out or made up. (Excepted are sections followed by another one of the same name, in binary files and within lists of names, whose bytes are indistinguishable from content.)",
 ["inputs"],
 "all conforming files in all formats, every section, every place at which its content can end early",
 "The tests load four well-formed files.",
 LOAD + ["src/load_msh_curves.cpp", "src/load_msh_patches.cpp"], [("error checks of every read, search for the end marker", "src/load_msh.cpp")], ["load_msh"])

prop("C29", "Tags that the format cannot hold are refused, never altered",
 "For every specification, if saving returns normally and loading the output returns normally, the tags of nodes, elements, element nodes and data entries are those that were saved. "
 "A tag that the integers of the format cannot hold (32 bits in format 2.2 and in binary data entries) is refused with an exception, never wrapped, truncated, or turned into another one; tags that fit are accepted.",
 ["inputs"],
 "all tags from 1 to 2^64 - 1 in all places where a specification holds tags, all formats",
 "Tests use tags below a hundred.",
 SAVE + LOAD, [("conversions to the integers of the format", "src/save_msh_nodes.cpp, src/save_msh_elements.cpp, src/save_msh_data.cpp"), ("conversions back", "src/load_msh_nodes.cpp, src/load_msh_elements.cpp, src/load_msh_data.cpp")], ["save_msh", "load_msh"])

prop("C30", "Calls change nothing but their stream or file and their result",
 "Loading, saving, validating and the lookups by element type change nothing but the stream or file they are given and the result they return, whether they succeed or throw: no other file, no working directory, environment, standard input or output, C or C++ locale, floating-point mode, signal handling, process limit or random number sequence is different afterwards, no descriptor, thread or child process is left, and a file that is loaded stays as it is. At most, warnings go to standard error.",
 ["inputs", "configurations"],
 "all calls with good, damaged and refused arguments, in all formats, by stream and by file name, in surroundings (locales, rounding modes, other files) that are not the usual ones",
 "Tests look at the returned values only.",
 SAVE + LOAD + ["src/validate_spec.cpp", "src/element_utils.cpp"], [("all public functions", "src/")], ["load_msh", "save_msh", "validate_spec", "nodes_per_element", "get_element_dim"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
