#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/gen_docs.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, level_note, technique, claimed=True, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, level_note=level_note, technique=technique, claimed=claimed, state=state))

def M(name, where):
    return dict(name=name, where=where)

SAMPLE = "the two stable conversion tests sample a few fixed documents (p4-users and two small files)"

prop("C01", "XML structure survives conversion to binary form",
     "Converting any well-formed XML document without namespaces to a .xb file and reading it back (by the reader API or by printing it) yields the same root, the same elements in the same nesting and sibling order, and on every element the same attribute names in the same order. This holds for the plain converter and for the packing converter, for any size of document, fan-out, number and length of names, up to 240 levels of nesting, and wherever comments, processing instructions or blank text stand between elements. (Elements named et-tecera and names starting with xml are reserved.)",
     ["inputs"], "all well-formed XML documents within the README limits (one data value per node, <32K names per table, <2GB)",
     "Existing tests convert 2 fixed documents; buffer sizing, recursion and symbol lookup depend on document shape.",
     [S+"bin_xml_creator.cpp", S+"bin_xml_packer.cpp", S+"bin_xml_plugin.cpp", S+"bin_xml.cpp"],
     [M("two-pass symbol table + node writer", "bin_xml_creator.cpp Make_xb/FillData/WriteNode"), M("node packing", "bin_xml_packer.cpp"), M("tree accessors", "bin_xml.cpp XML_Item")],
     ["XB_reader::getRoot tree walk", "operator<<(ostream, XB_reader)"],
     "Random well-formed documents against an independent expat parse of the same text; no absence claim.", "property-based round trip (Hypothesis) vs expat reference")

prop("C02", "XML values survive conversion to binary form",
     "For every XML document where each element has at most one uninterrupted text, each attribute value and each element text (leading and trailing white space of element text aside) reads back from the converted .xb file as exactly the same string, whatever binary type the converter chose to store it as. No value is dropped, truncated, renormalised or attached to another node, including values that merely look like numbers, dates, hashes, addresses or hexadecimal data, empty attributes, and values written with predefined entities, character references or CDATA. Texts split in pieces by comments or child elements and entities declared in a DTD are outside of this promise.",
     ["inputs"], "all attribute and text values (any UTF-8 text, in particular strings close to the recognisers' accepted syntaxes)",
     "Type detection is driven by the shape of each value; tests contain a handful of values per type.",
     [S+"bin_xml_creator.cpp", S+"bin_xml_types.cpp", S+"bin_xml_plugin.cpp", S+"bin_xml.cpp"],
     [M("type detection and per-type text/binary codecs", "bin_xml_types.cpp XBT_Detect/XBT_FromString/XBT_ToStringChunk"), M("attribute and text writer", "bin_xml_creator.cpp WriteNode/XStoreParamsEvent")],
     ["text of nodes and attributes read through XB_reader", "printed XML"],
     "Values drawn from grammars near every recogniser plus arbitrary unicode, compared to expat; exploration only.", "property-based round trip (Hypothesis) vs expat reference")

prop("C03", "Printed XML is well-formed and means what is stored",
     "Printing any .xb or .xbw file as XML produces a well-formed document whose parse has exactly the stored names, attribute values and texts: markup characters are escaped in attributes and in text, for every stored type and every position in the tree. Printing again the file converted from that output gives the same text (white space at the ends of element text aside).",
     ["inputs"], "all stored trees with names that are XML names and values without characters XML forbids",
     "Tests print documents that contain no markup characters.",
     [S+"bin_xml.cpp", S+"bin_xml_types.cpp", S+"bin_xml_creator.cpp"],
     [M("XML printers", "bin_xml.cpp XML_Item::write; bin_xml_creator.cpp operator<<(Bin_src_plugin); bin_xml_types.cpp XBT_ToXMLStream")],
     ["stdout of xb2xml / operator<<"],
     "Outputs are re-parsed by expat and compared to the model that produced the file.", "property-based parse-back and idempotence (Hypothesis)")

prop("C04", "Sharing repeated nodes is invisible to readers",
     "A file made by the packing converter, where repeated subtrees are stored once and referenced, reads exactly like the file made by the plain converter from the same source: same tree, same attributes, same types and values. This holds for any pattern of repeated, nearly repeated and nested repeated subtrees, for XML sources and for documents built through the write API, and packing never makes the file larger.",
     ["inputs"], "documents with arbitrary repetition patterns, differing in one attribute, type, text, order or name",
     "No test compares packed with unpacked output; the stable tests use only the plain converter.",
     [S+"bin_xml_packer.cpp"],
     [M("hash, sort, reference and shift passes", "bin_xml_packer.cpp Pack/MakeReferences/PackNode/RepairPtr")],
     ["differential read of plain vs packed file"],
     "Differential against the plain converter and against the model; generator biased to repeats.", "differential property-based testing (Hypothesis)")

prop("C05", "Conversion is deterministic",
     "Converting the same source twice gives byte-identical files: the output depends only on the source's bytes, its name and its modification time, never on memory contents, on previous conversions in the process, or on what was at the destination before. This holds for .xb files by the plain and packing converters.",
     ["inputs", "histories"], "all XML and JSON documents, converted under different heap contents, after other conversions and over existing longer or shorter destination files",
     "Tests convert each file once and never compare bytes.",
     [S+"bin_xml_creator.cpp", S+"bin_xml_packer.cpp"],
     [M("buffer handling in conversion", "bin_xml_creator.cpp Make_xb/FillData")],
     ["bytes of the produced file"],
     "Metamorphic: same source under two malloc fill patterns and different process histories.", "metamorphic property-based testing (Hypothesis)")

prop("C06", "Damaged binary files never make the reader misbehave",
     "Opening any sequence of bytes as a .xb file either fails cleanly (open returns failure) or succeeds; when it succeeds, every walk over the tree, lookup and printing stays inside the file, terminates, and does not crash. No assertion failure, hang, or access outside the file happens for any truncation, extension, bit flip or crafted header, size, count or reference field.",
     ["inputs", "fault_sequences"], "arbitrary bytes; valid files with bytes flipped, fields overwritten with boundary values, truncated or extended",
     "Tests only open files just produced by the converter.",
     [S+"bin_xml.cpp"],
     [M("reference check on load", "bin_xml.cpp XB_reader::Initialize, XML_Item::Check, _XB_symbol_table::Load")],
     ["result of opening; AddressSanitizer-visible accesses while walking"],
     "Mutation fuzzing of valid files with the file image placed in a guarded buffer; memory errors visible through AddressSanitizer / page faults.", "structure-aware mutation fuzzing with sanitizer oracle")

prop("C07", "JSON documents convert faithfully",
     "Converting any valid JSON document whose root is an object gives a tree rooted at an element named NULL in which every object member is a child named by its key, in document order; a member whose value is an array has one child per array element, in order, named by the documented item rule (users gives user, xxxList gives xxx, any other name has Item appended, elements of an array nested directly in an array are named __ARRAY_ITEM_NAME__); every number, boolean, null and string scalar reads back with the text it had in the document (string escapes as written). No member or element is dropped, duplicated or moved, for any white space between tokens, up to 1000 levels of nesting and any number of members. Empty keys and the reserved name et-tecera are outside of this promise.",
     ["inputs"], "all JSON objects with keys usable as names: nesting, arrays of arrays, empty containers, long strings",
     "No stable test covers JSON at all.",
     [S+"bin_json_plugin.cpp", S+"jsmn/jsmn.c"],
     [M("token navigation", "bin_json_plugin.cpp"), M("tokenizer", "jsmn/jsmn.c")],
     ["tree of the converted file"],
     "Model computed from Python's json parse; numbers compared as source text.", "model-based property testing (Hypothesis) vs Python json")

prop("C08", "Malformed or missing sources are rejected cleanly",
     "Converting a source that is missing, empty, of an unknown kind, not well-formed XML, or broken JSON (unbalanced or truncated document, member without name or value, more than one root, nesting beyond the supported depth) reports failure without crashing, hanging or corrupting memory, and leaves an already existing destination file exactly as it was and creates none otherwise. For arbitrary bytes as input the conversion either succeeds or reports failure. (JSON is read leniently: sloppy scalars such as unquoted words need not be refused.)",
     ["inputs", "fault_sequences"], "arbitrary bytes, truncations and mutations of valid XML and JSON; missing and empty files",
     "No test feeds a malformed document.",
     [S+"bin_xml_creator.cpp", S+"bin_json_plugin.cpp", S+"bin_xml_plugin.cpp", S+"bin_xml.cpp"],
     [M("source initialisation and error returns", "bin_xml_plugin.cpp Initialize; bin_json_plugin.cpp Initialize; bin_xml_creator.cpp Make_xb")],
     ["return value, process survival, destination bytes"],
     "Mutation fuzzing; rejection required exactly where expat / Python json say the text is broken in documented ways.", "mutation fuzzing with differential accept/reject oracle")

prop("C09", "Symbol tables of a .xb file are complete and consistent",
     "In every produced .xb file each element and attribute name used in the source appears exactly once in the respective name table, name-to-id and id-to-name lookups are inverse to each other, a name that was never used is reported as absent, and an id outside the table gives no name from it (NULL, or the marks __out_of_range__ and __reserved__). This holds for up to thousands of names, names that are prefixes of one another or differ in one character or in case, and non-ASCII names.",
     ["inputs"], "all sets of element and attribute names within the table limit",
     "Tests use a handful of names.",
     [S+"bin_xml.cpp", S+"bin_xml_creator.cpp"],
     [M("sorted symbol table with binary search", "bin_xml_creator.cpp FindOrAdd; bin_xml.cpp _XB_symbol_table")],
     ["getNodeID/getNodeName/getParamID/getParamName, table counts"],
     "Random name sets vs a Python set/dict model.", "model-based property testing (Hypothesis)")

prop("C10", "Typed and text accessors agree on stored values",
     "For every node and attribute of a .xb file the typed accessors (integer, 64-bit, string, chunked string, binary) return the value that is stored, agree with each other, and reading by index, by name and by sequential iteration yields the same items; chunked reading gives the whole text for any buffer of 257 bytes or more. Asking for an absent child, attribute or index reports absence instead of another item. (Integer accessors applied to a text that is not a number in range are unspecified.)",
     ["inputs"], "all trees with values of each type, read through every accessor in any order",
     "No test calls the reader accessors; only printing is exercised.",
     [S+"bin_xml.cpp", S+"bin_xml_types.cpp"],
     [M("accessors", "bin_xml.cpp XML_Item::getXxx, XML_Param_Description::getXxx")],
     ["returned values"],
     "Typed trees are written through the write plugin, then read with every accessor and compared with the model.", "model-based property testing (Hypothesis)")

prop("C11", "In-memory tree edits behave like an ordered tree",
     "Any sequence of building and editing operations on a .xbw document (create, add children and attributes, join siblings, remove, replace, set values, convert by column type, find-or-create by name, find by attribute) leaves exactly the tree an ordered-tree model predicts: order, values, types, links in both directions, and lookups. Elements not named by an operation never change.",
     ["histories"], "all operation sequences over a document with any mix of value types",
     "No stable test uses the write plugin beyond printing one stored file.",
     [S+"bin_write_plugin.cpp"],
     [M("circular sibling lists with relative offsets", "bin_write_plugin.cpp BW_element::join/add/remove/replace")],
     ["tree walk with NextChild/PrevChild, find functions, printed XML"],
     "Stateful generation with a Python tree model compared after every step.", "stateful model-based testing (Hypothesis)")

prop("C12", "A .xbw document persists across close and reopen",
     "After a .xbw document is closed and opened again, even at a different address or through many reopen cycles with further edits in between, its dictionary, tree, values and types are the same as before closing, and edits continue as if it had never been closed; a process that ends without closing loses none of its completed edits. Files with a damaged header (identification, version, sizes, allocation mark, root or table positions) and foreign files of 92 bytes or more are refused and left unmodified; a damaged lookup index of the dictionary is rebuilt. Registering a name under an id that belongs to another name is reported as failure and changes nothing. (Damage inside the element tree is not looked for when opening.)",
     ["histories", "crash_points"], "all edit histories with close/reopen at any point",
     "One test prints one stored file; nothing is reopened and edited.",
     [S+"bin_write_plugin.cpp"],
     [M("position-independent memory-mapped pool", "bin_write_plugin.cpp BW_plugin::Initialize, BW_pool::Open, mapping")],
     ["tree and dictionary after reopen"],
     "Same model as C11 with reopen steps interleaved.", "stateful model-based testing (Hypothesis)")

prop("C13", "Writing a built document to .xb keeps every typed value",
     "Converting a document built through the write API into a .xb file (by the plain or packing converter) keeps every element, attribute, order, value type and value bit for bit (integers, floats, times, hashes, GUIDs, binary blobs and strings of any length), independent of how large the document grew, whether it is converted from memory or from its closed .xbw file. The result reads the same as the source document printed directly.",
     ["inputs", "histories"], "all documents that the write API can build",
     "Only one example program does this, with two value types, and it is not a stable test.",
     [S+"bin_xml_creator.cpp", S+"bin_write_plugin.cpp", S+"bin_xml_types.cpp"],
     [M("binary parameter and value copying", "bin_xml_creator.cpp XStoreBinParamsEvent/WriteNode; bin_xml_types.cpp XBT_Copy")],
     ["typed read of the .xb file", "printed forms of both"],
     "Random typed trees, values compared bit for bit with the model.", "property-based round trip (Hypothesis)")

prop("C14", "Appended batches are all visible, in order",
     "After a .xb file with an open-ended last element is created and batches are appended to it, a reader sees the original children followed by every appended element in the order of appending, each with its full content and types, whatever the size and number of batches and whatever was cleared between them. Reopening the file at any moment between appends shows exactly the batches appended so far, and a file cut at any byte of the appended part shows exactly the elements that are still whole. Appending elements whose names are not in the dictionary stored in the file is refused and leaves the file unchanged.",
     ["histories"], "all sequences of append and clear with arbitrary batches",
     "One example appends identical batches and nothing checks the result.",
     [S+"bin_xml_creator.cpp", S+"bin_write_plugin.cpp", S+"bin_xml.cpp"],
     [M("append with preserved alignment", "bin_xml_creator.cpp Append; bin_write_plugin.cpp Write/Clear"), M("iteration past et-tecera", "bin_xml.cpp getNextChild")],
     ["children iterated by the reader"],
     "Random batches, model is the concatenation of batches.", "stateful model-based testing (Hypothesis)")

prop("C15", "Documents grow without disturbing existing content",
     "While a .xbw document grows to any size within its configured limit, every element allocated earlier keeps its value and position, and no two allocations overlap, whatever mix of value sizes and alignments is used. When the limit is reached the operation fails and reports it while everything stored so far remains readable; an allocation is never refused while more than 16 kB beyond it are still free.",
     ["histories"], "all allocation sequences crossing page boundaries and the configured limit",
     "No test grows a document past its first page.",
     [S+"bin_write_plugin.cpp"],
     [M("pool growth", "bin_write_plugin.cpp makeSpace/allocate/new_element")],
     ["values after growth, element address ranges"],
     "Allocation sequences of random sizes biased to page boundaries; values recorded in the model and re-read.", "stateful model-based testing (Hypothesis)")

prop("C16", "The dictionary maps names and ids one to one",
     "Names registered for tags and attributes of a .xbw document keep their ids, names and declared types: registering a known name again returns its id and widens its type to the join of both, distinct names get distinct ids, lookups by name and by id agree, importing another file's names keeps existing ones, and clearing the document keeps the dictionary. This holds for any number and order of registrations by name, for explicit ids given in ascending order from 0, and across closing and reopening. An id outside the dictionary gives no name.",
     ["histories"], "all registration sequences, by explicit id and by name, with reopen and clear",
     "No stable test registers names.",
     [S+"bin_write_plugin.cpp"],
     [M("symbol list and index table", "bin_write_plugin.cpp BW_symbol_table_*/registerTag/registerParam/allRegistered")],
     ["getTagName/getTagType/getByName results"],
     "Stateful against a Python dict model.", "stateful model-based testing (Hypothesis)")

prop("C17", "Copying and comparing subtrees is exact",
     "Copying an element with its content, or a path from root to an element, or its keys into another document that has the same dictionary gives a structurally equal tree with equal values (a text that is exact in the column's type may take that type) and leaves the source untouched; key comparison and searching by key find an element exactly when tag and all key attributes are equal. Keys without a value and several attributes of one name on one element are outside of this promise.",
     ["histories", "inputs"], "all source trees and target states",
     "No test copies trees.",
     [S+"bin_write_plugin.cpp"],
     [M("copy and key functions", "bin_write_plugin.cpp CopyAll/CopyPath/CopyKeys/EqualKeys/findChildByParam")],
     ["target tree"],
     "Random typed trees and paths vs model.", "model-based property testing (Hypothesis)")

prop("C18", "XML converts to the editable .xbw form without loss",
     "Converting any XML document (at most one text per element) to a .xbw file keeps element order and nesting, attribute names and order, and every value as the same text, exactly as the .xb conversion does. Printing the .xbw file and printing the .xb file made from the same source give the same document.",
     ["inputs"], "all documents as for structure and value survival",
     "The .xbw converter has no stable test.",
     [S+"bin_xml_creator.cpp", S+"bin_write_plugin.cpp"],
     [M("direct .xbw writer", "bin_xml_creator.cpp Make_xbw/XStore2XBWEvent")],
     ["printed .xbw"],
     "Differential with expat model and .xb conversion.", "differential property-based testing (Hypothesis)")

prop("C19", "Value codecs are mutually inverse for every type",
     "For every value type, text produced from a binary value decodes back to the same binary value, the declared size equals the bytes written, decoding never writes beyond the given limit, and printing whole or in chunks of any allowed buffer size gives the same text. This holds over the whole range of each type, including extremes, negatives and empty values.",
     ["inputs"], "all binary values of each type; all chunk buffer sizes",
     "Unit tests check one or two constants per type.",
     [S+"bin_xml_types.cpp"],
     [M("codecs", "bin_xml_types.cpp XBT_FromString/XBT_ToString/XBT_ToStringChunk/XBT_Size2/XBT_Copy/XBT_SizeFromString")],
     ["codec results"],
     "Random binary images per type with boundary bias; reference formatting in Python.", "property-based round trip (Hypothesis)")

prop("C20", "Type detection and joining are sound",
     "Every text in the canonical form of a detectable type (integers, floats, dates and times, GUIDs, SHA-1, IPv4 addresses, hexadecimal data, plain strings) is detected as exactly that type, with the smallest type chosen among integers. Joining the types seen for a name is commutative, associative and idempotent on the detectable types, with empty values neutral; the column type resulting from a set of values does not depend on their order, and every value reads back unchanged from a column of the joined type.",
     ["inputs"], "all texts and all sequences of types",
     "Unit tests detect one or two constants per type and never join.",
     [S+"bin_xml_types.cpp"],
     [M("detection and lattice", "bin_xml_types.cpp XBT_Detect/XBT_Detect2/XBT_JoinTypes")],
     ["detected and joined types"],
     "All pairs/triples of types enumerated; random texts; recogniser grammars written independently in Python.", "property-based testing plus exhaustive enumeration of type triples")

prop("C21", "Comparison of values is a consistent order",
     "Comparison of typed values is antisymmetric, transitive and agrees with the natural order of the values they represent, for equal and for mixed types that are comparable; equality of values holds exactly for equal content, and a text equals a typed value exactly when the whole text is a notation of that value. Incomparable pairs are reported as such in both directions.",
     ["inputs"], "all pairs and triples of typed values",
     "No test compares values.",
     [S+"bin_xml_types.cpp"],
     [M("comparison", "bin_xml_types.cpp XBT_Compare/XBT_Equal")],
     ["comparison results"],
     "Random values incl. boundary values against Python's order.", "property-based testing (Hypothesis)")

prop("C22", "Date and time conversions are exact",
     "Conversions between text and day counts, seconds and milliseconds since 1970 agree with the proleptic Gregorian calendar for every supported date, in both directions, including leap years, century years, dates before 1970 and the ends of the range (years -365749 to 369689 for day counts and 64-bit milliseconds, 1970 to 2106-02-07 06:28:15 for 32-bit seconds); text that is not a date in the documented form (wrong month, day, hour, minute or second included) is rejected.",
     ["inputs"], "all dates and times in range; near-miss texts",
     "Unit tests check six constants.",
     [S+"utils.cpp", S+"bin_xml_types.cpp"],
     [M("calendar arithmetic", "utils.cpp ScanUnixDate/UnixDate2Str/ScanUnixTime/UnixTime642Str")],
     ["scanner and printer results"],
     "All days of long ranges enumerated in thorough; random elsewhere; reference is an independent civil-date algorithm.", "differential property-based testing vs reference calendar")

prop("C23", "SHA-1 is correct for any data and chunking",
     "The hash computed for any data, fed in any split into chunks, from memory or from a file, equals the standard SHA-1 of that data.",
     ["inputs"], "all byte strings and chunkings, lengths around block boundaries",
     "One textual sha1 constant is parsed by tests; the hash function is never run.",
     [S+"missings.cpp"],
     [M("SHA-1", "missings.cpp blk_SHA1_Init/Update/Final, SHA1, file_getsha1")],
     ["digest"],
     "Reference: Python hashlib.", "differential property-based testing vs hashlib")

prop("C24", "Sorting helpers order without losing elements",
     "The sorting helpers return a permutation of their input ordered by the given comparison, for any element size, count, duplicates and comparison argument; the merge variant keeps equal elements in their original order.",
     ["inputs"], "all arrays, element sizes and comparison functions",
     "No test calls them.",
     [S+"missings.cpp"],
     [M("qsort_r2/mergesort_r2", "missings.cpp")],
     ["array after the call"],
     "Reference: Python sorted (stable).", "differential property-based testing vs reference sort")

prop("C25", "Base64 and hexadecimal codecs are exact",
     "Base64 encoding matches the standard alphabet and padding and decodes back to the same bytes for every length, decoding stops at the first character outside the alphabet; hexadecimal scanning and printing are inverse and scanning reports how many bytes it read; a single dash or space may separate the pairs of digits; neither direction reads or writes outside the given buffer, and a buffer too small receives as much as fits.",
     ["inputs"], "all byte strings, buffer sizes, malformed texts",
     "No test calls them.",
     [S+"utils.cpp"],
     [M("base64/hex", "utils.cpp base64_encode/base64_decode/ScanHex/Hex2Str")],
     ["codec output"],
     "Reference: Python base64/binascii.", "differential property-based testing vs Python codecs")

prop("C26", "The JSON tokenizer describes the document exactly",
     "For every valid JSON text the tokenizer yields one token per value and key, in order, with exact boundaries, sizes and parents; counting without storage gives the same number; a too small array, a truncated or an invalid text is reported as such and the tokenizer never reads or writes outside its buffers.",
     ["inputs"], "all JSON texts, truncations, token array sizes",
     "No stable test covers the tokenizer.",
     [S+"jsmn/jsmn.c"],
     [M("jsmn", "jsmn/jsmn.c jsmn_parse")],
     ["token array"],
     "Reference token list computed in Python from a generated document with random white space.", "model-based property testing (Hypothesis)")

prop("C27", "Text scanners accept exactly their syntax",
     "The scanners for integers (32, 64 bit, signed, unsigned, hexadecimal), IPv4 addresses, quoted strings and versions, the wildcard matcher and identifier helpers accept exactly the texts of their documented form, return the right value, refuse values out of range, advance the cursor exactly past what they consumed, and when they fail leave it where it was (skipped leading white space aside).",
     ["inputs"], "all texts near the accepted syntaxes, all values in range",
     "No test calls the scanners directly.",
     [S+"utils.cpp"],
     [M("scanners", "utils.cpp Scan*/AdvEqual/MakeIdent/GetVersion")],
     ["value, result and cursor"],
     "Reference scanners in Python (regular expressions, fnmatch-like matcher).", "differential property-based testing vs reference scanners")

prop("C28", "File name and file helpers do what they say",
     "Changing an extension changes only the extension of the last path component (or adds one) and moving to a target directory keeps the base name; whole-file read, write, size and time helpers agree with the file system; directory creation for a file name creates every missing parent (everything before the last slash) and reports failure when it cannot; directory scan visits every entry once. Names starting with a dot, paths with .. components and overlong paths are outside of this promise.",
     ["inputs"], "all path shapes and file contents inside a scratch directory",
     "No test calls them directly.",
     [S+"utils.cpp", S+"files.cpp"],
     [M("path and file helpers", "utils.cpp AllocFilenameChangeExt/ReadFile/WriteToFile; files.cpp")],
     ["returned names, file system state"],
     "Reference: Python os.path and file system state in a scratch directory.", "model-based property testing (Hypothesis)")

prop("C29", "Failures of the file system are reported, never taken for success",
     "When the operating system refuses a file operation (open, create, read, write, resize, mapping, query, no space left, file size limit), does only a part of it, or interrupts it, every library call either gives the same content it gives without the fault or reports failure: conversion, opening, appending, creating and growing of documents and the file helpers never abort or crash, never report success for an incomplete result, and work again once the fault is gone. A failed append leaves the file as it was, a failed allocation or registration leaves the document and its names as they were, a failed opening changes nothing, and what a failed conversion leaves behind is never read as a different document.",
     ["fault_sequences", "inputs", "histories"], "every call number and kind of system call the library makes during an operation, failing once or lastingly, partly done or interrupted, and every limit of file size, over generated documents and histories",
     "Tests run with a working disk only; a fault has to come at one particular call.",
     [S+"bin_xml_creator.cpp", S+"bin_write_plugin.cpp", S+"bin_xml.cpp", S+"bin_json_plugin.cpp", S+"bin_xml_plugin.cpp", S+"utils.cpp", S+"files.cpp", S+"missings.cpp"],
     [M("writing of results", "bin_xml_creator.cpp Make_xb/Make_xbw/Append"), M("opening and growing of documents", "bin_write_plugin.cpp OpenFile/InitEmptyFile/makeSpace"), M("opening for reading", "bin_xml.cpp XB_reader::Initialize"), M("file helpers", "utils.cpp ReadFile/WriteToFile/ShareFile; files.cpp")],
     ["result of the call, content of files, later calls"],
     "The same operation without faults is the reference; system calls are wrapped at link time and fail at a chosen place.", "fault injection at every system call, differential against the run without faults (Hypothesis)")

prop("C30", "Any source plugin is converted and streamed faithfully",
     "Whatever a source delivers through the plugin interface (element values as text or as typed binary values, attributes as text or typed, own name tables or none, elements without value, an unnamed root) is exactly what the produced .xb file contains, for the plain and the packing converter, for a named or default destination, for a repeated conversion and for elements appended later through the same creator: names, order, nesting, types and bytes of typed values, and text of textual values. Without own tables the type of an attribute name is the join of the types it was given; with own tables they are taken over as they are. A conversion to .xbw either holds the same content or is refused, and an element with a name that is not in the tables of the file is refused by Append, never stored without it. Streaming a source (operator<<) gives well-formed XML with the same content, for XML and JSON files too.",
     ["inputs", "configurations"], "all trees, value types, mixtures of text and binary delivery, name tables and kinds of conversion",
     "The tests only convert through the built-in XML plugin; the interface has three built-in users with different subsets of its functions and is meant for others.",
     [S+"bin_xml_creator.cpp", S+"bin_xml_packer.cpp", "include/binary_xml/bin_xml_creator.h"],
     [M("interface with defaults", "bin_xml_creator.cpp Bin_src_plugin"), M("binary and textual paths of storing", "bin_xml_creator.cpp WriteNode/XStoreBinParamsEvent/XStoreParamsEvent/XStore2XBWEvent"), M("name tables of source", "bin_xml_creator.cpp CopySymbolTable/MakeSymbolTable/FindOrAddTyped"), M("streaming", "bin_xml_creator.cpp s_On2Stream")],
     ["XB_reader tree walk with raw data and tables", "operator<<(ostream, Bin_src_plugin)"],
     "A plugin of the harness delivers a generated tree, the tree itself is the reference.", "model-based property testing with a generated source plugin (Hypothesis)")

prop("C31", "A converted file says what it was made from",
     "The head of every .xb file made from an XML or JSON file holds the format version, the name of the source exactly as it was given (without a leading ./) and the time of its last change at the moment of conversion, next to both name tables with their counts and the content; each part is found by its code and parts that are not there are not found. A later change, removal or conversion of the source, a move of the result or conversions of other files never change what a result says, and a repeated conversion says the new state. Pointers into the open file translate to offsets and back, anything outside of the file does not.",
     ["inputs", "histories"], "all names and times of sources, kinds of conversion and histories of changes, conversions and moves",
     "Tests compare printed content, the head is never printed.",
     [S+"bin_xml_creator.cpp", S+"bin_xml_packer.cpp", S+"bin_xml.cpp", "include/binary_xml/bin_xml.h"],
     [M("writing of the head", "bin_xml_creator.cpp FillData"), M("lookup by code", "bin_xml.cpp getParamByName/getChildByName"), M("offsets of strings", "include/binary_xml/bin_xml.h getRelPtr/getString")],
     ["XB_reader::doc: getParamByName, getChildByName, getData, getString, getInt", "XB_reader::getRelPtr/getString"],
     "A model of source files (name, time, number of element names) and of results made from them.", "model-based property testing over histories (Hypothesis)")

prop("C32", "Everything taken from the system is given back",
     "A process can convert, open, read, print, build, append and close any number of times: after objects are closed (or destroyed), and after any failed conversion or opening without any further call, the library holds no file, no mapping and no memory it did not hold before, whatever the content was, whether the operation succeeded, was refused or met a failure of the file system. Only tables made once for the whole process can stay.",
     ["inputs", "histories", "fault_sequences"], "all documents, operations and their histories repeated in one process, with valid, malformed, damaged and missing files and failing system calls",
     "Every test is a short process of its own; a leak is invisible in it.",
     [S+"bin_xml_creator.cpp", S+"bin_xml_packer.cpp", S+"bin_xml.cpp", S+"bin_xml_plugin.cpp", S+"bin_json_plugin.cpp", S+"bin_write_plugin.cpp", S+"utils.cpp", S+"files.cpp", S+"missings.cpp"],
     [M("closing of a reader", "bin_xml.cpp XB_reader::Finalize"), M("closing of a document", "bin_write_plugin.cpp BW_plugin::Finalize"), M("end of conversion", "bin_xml_creator.cpp ~Bin_xml_creator, Make_xb; bin_xml_packer.cpp Make; ~Bin_json_plugin; ~Bin_xml_plugin")],
     ["open descriptors of the process", "mappings of files in /proc/self/maps", "live blocks and bytes of the heap"],
     "Nothing held grows from round to round when the same generated operations are repeated in one process.", "metamorphic property testing (Hypothesis): repetition of a generated history must not change what the process holds")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=p["mech"], observe_at=p["observe"], hook_needed=None))
            if p["state"]:
                d["anchors"]["state"] = p["state"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        have = os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))
        if p["claimed"] and have:
            checks.append(dict(property=p["id"], quick_cmd="python3-vt run.py " + p["id"], thorough_cmd="python3-vt run.py " + p["id"],
                               evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["level_note"]))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="python3-vt run.py --setup", checks=checks, not_applicable=na,
             notes="Checks are Hypothesis generators driving sanitized C++ drivers compiled from /repo's working tree; see DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
main()
