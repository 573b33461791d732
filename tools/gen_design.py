#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: hand-written notes below + tables from checks/, known-findings.txt and seeded/ (run: python3-vt tools/gen_design.py)."""
import glob, importlib, json, os, sys, warnings
warnings.simplefilter("ignore")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

HEAD = """# How the properties of binary_xml are decided

(Generated by tools/gen_design.py from the notes in it; edit there.)

## What is verified

binary_xml is a library of three cooperating parts: conversion of XML/JSON text to a read-only memory image
(`.xb`: `bin_xml_creator`, `bin_xml_packer`, the XML and JSON source plugins, jsmn), a reader of that image
(`bin_xml.cpp`), and a writable memory-mapped document (`.xbw`: `bin_write_plugin.cpp`), all over the value codecs of
`bin_xml_types.cpp` and the helpers of `utils.cpp`, `files.cpp`, `missings.cpp`. The properties (properties.jsonl,
C01-C32) go from the broad promises (C01-C08 conversion, printing, damaged input; C11-C18 the writable document, its
persistence, growth and appending) down to the codecs and helpers the others stand on (C19-C28) to faults of the file system under all of them (C29) and to
the interface all sources go through (C30) the head of results (C31) and giving back of what was taken (C32). The command line tools
2xb, 2xbw, xb2xml are thin wrappers that live in src/tests; what they do is covered through the library calls they make.

## Technique

Property-based testing and fuzzing for every property (no property is not_applicable). Python (Hypothesis) generates
documents, values, operation histories, damages and texts, and computes the oracle with code that shares nothing with
/repo: expat for XML, json for JSON, hashlib, base64, a civil calendar algorithm, `struct`, and tree / dictionary models
(`vlib/bwmodel.py`). The code under test runs in C++ drivers (`harness/drv_*.cpp`) compiled from `/repo/src` of the
current working tree (g++ -O1, AddressSanitizer, assertions live), so a change of the source is always seen; objects are
cached in `build/` by the hash of all sources and headers. `vlib/xbfile.py` parses and assembles `.xb` images for the
structure-aware damages.

* Every case runs in a forked child of the driver: crash, failed assertion, sanitizer report, exit or CPU-limit overrun
  is an observed result and can not leak into the next case. A CPU limit (RLIMIT_CPU, 20 s for a case that takes
  milliseconds) detects hangs independently of the load of the machine.
* The driver poisons fresh heap memory (malloc fill pattern, two different patterns in C05), so that uninitialised
  memory is deterministic and visible.
* Files live in a scratch directory under /dev/shm made and removed by the run (`/dev/shm/bxv-*`), nothing else is written
  except `evidence/`, `replay/` and `build/` of /verif. The path helpers of C28, which create directories and files, get
  relative paths inside of that directory only.
* A failing case is shrunk by Hypothesis (at most 60 s), replayed three times outside of the library, and only if it
  failed each time it becomes the replay file of the VIOLATION line. `run.py ID --replay FILE` runs it again.
* A case which dies unexpectedly is a violation with the sanitizer output as message; an error of the check itself is
  exit code 2, never a VIOLATION.
* Everything is determined by VERIF_SEED; `quick` (default) and `thorough` (VERIF_TIER=thorough, by default 12 times more
  cases, at most 3000 s) differ in the number of cases only. `--sub NAME`, `--scale F` help when working on a check.
* A small number of spaces is enumerated completely instead of sampled (sub-checks marked "all").

Level claimed everywhere: exploration (generated-input search; no proof of absence).

Cost: a quick check takes 10-100 s on 8 cores (limit inside of run.py 640 s), the build of the drivers 30 s once.

## Why this reaches what the tests can not

The 11 stable tests convert and print a handful of fixed documents and sample a few helpers. Every property here is
quantified over all documents, histories, damages or values; the defects fixed (52 commits, list below) were all found
by the generators and none by the tests, which passed on all of them.

## Properties one by one

"Non-trivial" is the stated rule by which a generated case counts in the evidence as `distinct_nontrivial`.
"""

N = {}
N["C01"] = """Generator: document texts assembled by `vlib/xmlgen.py` (names from pools of prefixes, unicode, case variants, very long
names and names near the reserved ones; comments, processing instructions, CDATA, blank text, entities at every place;
up to 60 nodes), and regular big documents (wide, 240 deep, thousands of names or attributes). The text is converted by
the plain and by the packing converter, in one run also by XB_creator from memory-mapped file names; `byname` opens the source by its own
name (.xml, .xsd, .wsdl) so that the library converts it itself, with old .xb files in the way. Oracle: tree of expat for the same
text compared with the walk of the reader and with the parse of the printed output. Bounds: 240 levels, some thousands of nodes."""
N["C02"] = """Generator: values from grammars near every recogniser of the type detection (integers with signs, leading zeros and limits of
each width; decimals; floats; hexadecimal; dates and times valid, nearly valid and out of range; addresses; GUID; SHA-1;
base64) and free unicode text, with references and CDATA; `columns` puts 1-9 values of one or two classes under one name, because the
type is decided by the join over a name; `long` has values up to 250 kB around multiples of the 4096 byte chunks. Oracle: the text given by
expat (element text stripped). Excluded by the statement: split texts, DTD entities."""
N["C03"] = """As C02, with emphasis on markup characters; base files are converted documents, printed through operator<< of the reader;
the output must be parsed by expat to the original tree (with values), and converting the output and printing it again must give the same text.
Printing of write documents is covered in C11-C13 and C18, where every comparison also parses the printed document."""
N["C04"] = """Documents built from a few subtrees cloned many times, with single-detail mutations (one attribute, value, type, text, order, name),
nested repeats, big repeated subtrees (over 4 kB), 8 byte values at all alignments. Oracle: dump with types by the same reader of plain against
packed file, expat tree, and size packed <= plain."""
N["C05"] = """One source converted six times: twice in new processes, after other conversions in the same process, under two heap fill patterns, over
an existing longer and shorter destination. Bytes must be identical (plain and packed, XML and JSON)."""
N["C06"] = """Structure-aware fuzzing: valid files (documents of C01/C04 generators, packed too) with mutations on parsed fields: every header
field, counts, symbol offsets, element sizes, child pointers (cycles, shared, behind the end), type bytes, parameter ids, replaced by boundary values;
truncation, extension, bit flips, splices; `raw` assembles files from random tables. The image is given at the end of a page followed by an
unmapped one (and beginning right after one), so that any access outside the file faults, and opened also from a file. The walk covers all accessors,
lookups, iteration, chunked reading and printing with a bounded output. Any crash, assertion, sanitizer report or CPU overrun is a violation."""
N["C07"] = """JSON values by Hypothesis rendered with random white space, escapes, number spellings; expected tree from the document itself by the item naming
rule. Converted by the plain and packing converters, to .xbw, and `self`: opened by its own name. Names with any characters, columns of one name with many
values, nesting to 900, thousands of members. Outside: keys empty or et-tecera."""
N["C08"] = """Valid XML/JSON damaged in a named way (unclosed, crossed, truncated, attribute without quotes, second root, NUL, broken UTF-8, unbalanced
brackets, missing value, too deep ...), where expat / a JSON reference decide if the text still is a document; random byte mutations; missing, empty, foreign
sources and directories enumerated with every tool and state of the destination (absent, empty, old .xb, junk, directory, read only). Oracle: failure reported,
destination bytes and existence unchanged, no temporary file left, no crash."""
N["C09"] = """Name sets with common prefixes to 64+ characters, case variants, one character differences, non-ASCII, thousands of names. Oracle: Python dictionary;
all ids from -1 to count+50 asked, absent names made from present ones by small edits. Sub `again` keeps one reader object and opens it again while the file
is replaced, removed or damaged: tree and tables must be those of the current file (found: tables of the previous file stayed when the new one has no attributes)."""
N["C10"] = """Typed trees built through the write API and converted, then every accessor is compared with the model: by index, by name, sequential, unaligned
offsets of 8 byte values, chunk sizes from 257 up, absent names and indexes."""
N["C11"] = """Stateful: `vlib/bwmachine.py` executes histories of 1-40 operations against the driver and `vlib/bwmodel.py`; after the history (and at
check points) the complete tree in both directions, values, types and the finds are compared, and the printed document is parsed."""
N["C12"] = """Histories of C11 cut in open periods: close and reopen (other address: the mapping is moved by an intervening mapping), abandoned process without
closing (`killed`: _exit in the middle), damaged headers with every field changed (refused and unmodified, or, for the lookup index, rebuilt), foreign files."""
N["C13"] = """Documents with values of all types (all limits, NaN, infinities, blobs and strings of any length), attributes of all types, converted from memory and
from the closed .xbw, plain and packed, several times by one creator; compared with the model and with the printed source document."""
N["C14"] = """Files with an open end (TECERA): histories of batches from several writers, sessions closed and reopened, elements written again after a change, appended
between conversions; after every batch the file is read by a new reader and by one which was opened before; `cut` leaves the file cut in the middle of the last
batch: everything before must be readable."""
N["C15"] = """Histories of allocations with exact sizes around page and mapping limits, interleaved documents, values growing in place, configured maximum reached: all
values and dictionary are compared after each growth, failures must be reported as such and must leave the document usable."""
N["C16"] = """Dictionary model: registration by id and by name, widening by join, altering, import from .xbw / .xb files, Clear, reopening, more than 128 names, hash index."""
N["C17"] = """Copies of elements and of paths into documents with another dictionary (ids and types differ), from XML readers and from write documents; key comparison and
search by key for every type with the model's notion of equality; `big` crosses pages while copying."""
N["C18"] = """XML (and JSON) to .xbw compared in the same way as C02; thousands of small elements, conversion over existing .xbw / junk files, long values."""
N["C19"] = """For every type: values from the whole range with limits -> text -> value -> text; text -> value compared with Python's reference formatting; every limit
of the destination buffer; chunked printing compared with the whole for all buffer sizes; canaries around the buffers; declared sizes against written ones."""
N["C20"] = """All triples of types for the laws of the join (idempotent, commutative, associative, unit) enumerated; canonical texts of each type must be detected as that type
or a wider one whose text is the same; any text: detected type round-trips exactly; columns and dictionaries of documents do not depend on the order of rows."""
N["C21"] = """Pairs and triples of values of one type, near each other and at limits: antisymmetry, transitivity, equality with Python's order; text against typed value."""
N["C22"] = """All days of the 32-bit range (and outside), every second boundary class, enumerated in blocks against a civil calendar; texts that are no dates must be refused."""
N["C23"] = """hashlib: all lengths around block boundaries, in pieces, files, descriptors delivering short reads (pipe), 2^29+ bytes."""
N["C24"] = """Sorting of arrays with keys in random, sorted, reverse, organ-pipe, saw, almost sorted and constant order, all element sizes, directions; the merge sort must be stable; sizes to 20000; canaries around the data."""
N["C25"] = """base64/hex codecs of every length to 129 and random ones against base64/binascii, decoding of damaged texts, canaries, exact buffer sizes."""
N["C26"] = """Documents rendered by a generator which knows the position, type, size and parent of every token; parsing by parts (resumed), token counting, too few tokens; each
invalid variant (strict) must be refused with the right error; random garbage may not read outside of the text (the text ends at a guarded page)."""
N["C27"] = """Reference scanners in Python (regular expressions, independent matcher) for numbers, strings, addresses, wildcards, identifiers; value, result, cursor and bytes
around the buffers are compared."""
N["C28"] = """os.path and the real file system in a scratch directory: names with dots and directories, histories of file operations, mapping of files. Sub source: the name of a source plugin after a history of setFilename (also with its own current name) and setFilenameFmt."""
N["C29"] = """System calls of the library are wrapped at link time (harness/fault.h: read, write, open, creat, mmap, munmap, ftruncate, stat, fstat, close, mkdir, opendir). Between arm and disarm they are counted and the one with the chosen number fails, fails from then on, is done half, half and then fails, or is interrupted. The reference is the same operation without the fault in the same process. `convert`, `reading`: every call number of a conversion (all tools, XML and JSON, over a missing or old destination) and of an opening; success must give the reference bytes (.xb) or content (.xbw, and .xb when stat failed: the stored time and the limit of size depend on it), what is left after a failure must not open as another document, and an unfaulted run afterwards must give the reference; destination limited by RLIMIT_FSIZE to a part of its size. `appending`: histories of C14 with a fault or a full disk under any Append: success adds the element, failure leaves the bytes as they were, the repeated Append and all later ones are seen. `growing`: allocation histories of C15 where chosen operations cannot extend the file: they may be refused, but the document, its names and its accounting stay exact. `reopen`: .xbw opened under faults. `helpers`: ReadFile, WriteToFile, file_get_contents, file_getsha1, size, time, existence, directories. Calls made inside of libc (stdio) and libxml2 meet real limits only."""

N["C30"] = """`harness/treesrc.h` is a source plugin over a described tree; every element says for itself whether its value and its attributes come as typed bytes or as text, and the source may have own name tables (in any order, with names that are not used). `convert`: the tree is converted by Make_xb, DoAll, the packer or its static form, to a named or default destination over old content, perhaps twice, then elements are appended (also with unknown names, which has to be refused); the read tree (types, raw bytes, texts) and both name tables are compared with the described tree. For .xbw the printed document is compared, or the conversion was refused (typed values are not supported there). `stream`: operator<< of the source, parsed by expat. `files`: XML and JSON files streamed without conversion, against expat and against the printed .xb.
Sub `limits`: one element with 1 to 140000 attributes; what the format cannot count (over 32767) must be refused (found: overflow of the 16-bit count)."""
N["C31"] = """Histories over one to three sources (nested and long names, .xml/.xsd/.wsdl/.json, times over the whole range of 32 bits): conversions of all kinds (six, including opening by the name of the source), changes of time and content, removal of sources, moves of results. After every step on a result and at the end the head is read through the reader and compared with what the model recorded at its conversion. The hash field is a placeholder in the code (constant bytes, marked TODO there), so only its type and length are checked."""
N["C32"] = """The same generated operations are done five times in one process (`rep` in harness/res.h) and after each round the process is measured: open descriptors, mappings of files of the scratch directory (/proc/self/maps), live blocks and bytes of the heap (malloc and free hooks of the sanitizer run time). From the second round on files and mappings must not grow, and memory must not grow in every round (it may be taken once more, for a longer result). What is repeated: own histories over good, truncated, damaged and missing sources and results, destinations that cannot be written and system calls that fail once, lastingly, partly or are interrupted (*files*, *helpers*), and the first request of every check of this framework with its own generator (*conversions*, *documents*, *tools*, *large*), so all builders, edits, copies, appends, plugins, codecs and sorts are covered without a second generator. The first run found that a failed opening of a reader keeps the file and its mapping (no destructor releases them) and that Finalize stops at the first failure; both repaired."""

FALSE = """
* C08: a zero byte behind the root element is taken as the end of the text by libxml2, so the document is accepted; expat refuses it. The generator places the zero
  byte inside of a tag now, where both agree.
* C08: JSON is read leniently by documented design (unquoted scalars); only structural damage is required to be refused, the statement says so.
* C17: elements with a NULL-valued key are never equal (documented behaviour), keys over 16 are refused: the model follows that.
* C18: for documents where the same name gets an attribute and an element text of different type, the printed comment with names is not part of the comparison.
* C12: damage inside of the element tree is not looked for when opening (no promise in code or documentation); only the header, tables and positions are damaged.
* C10: integer accessors applied to text which is no number are unspecified; the oracle ignores them.
* C30: a source with attributes and without any named element cannot become .xbw (the dictionary of elements has to be first), it is refused;
  built-in attribute names (id, name, ...) may be appended although the table does not have them. The oracle knows both.
* C01: elements named by the reserved names (et-tecera) are outside of the statement.
* C14/C16: ids registered by number must follow the highest one (interface contract); the generator does that, other ids must be refused.
"""

def main():
    o = [HEAD]
    props = {}
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        j = json.loads(l)
        props[j["id"]] = j
    for pid, p in sorted(props.items()):
        m = importlib.import_module("checks." + pid.lower())
        o.append("### %s %s\n" % (pid, p["title"]))
        o.append(N[pid] + "\n")
        o.append("| sub-check | driver | quick cases | thorough cases | counts as non-trivial |\n|---|---|---|---|---|")
        for s in m.SUBS:
            o.append("| %s | %s | %s | %s | %s |" % (s.name, s.driver, s.quick or "all", s.thorough if s.quick else "all", s.rule or "every case"))
        o.append("")
    o.append("## Genuine defects found and repaired\n\nEach is one `fix:` commit in /repo; no defect is left as an open finding (known-findings.txt has `fixed:` lines only).\n")
    for l in open(os.path.join(ROOT, "known-findings.txt")):
        if l.startswith("fixed: "):
            w = l.split(" ", 3)
            o.append("* %s `%s` %s" % (w[1][9:], w[2], w[3].strip()))
    o.append("\n## False alarms of earlier versions of the checks, corrected\n" + FALSE)
    o.append("## Planted bugs\n\nEach in seeded/<id>/ (patch.diff, demo.sh, meta.json); all pass the stable tests, all are confirmed by their demo.\n"
             "Result of the quick check of the property:\n")
    res = {}
    rp = os.path.join(ROOT, "tools", "seeded-results.txt")
    if os.path.exists(rp):
        for l in open(rp):
            w = l.rstrip("\n").split(" ", 1)
            res[w[0]] = w[1]
    o.append("| bug | property | what it breaks | needs | quick check |\n|---|---|---|---|---|")
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        j = json.load(open(f))
        i = f.split("/")[-2]
        o.append("| %s | %s | %s | %s | %s |" % (i, j["property"], j["what_it_breaks"], j["needs"], res.get(i, "caught")))
    o.append(TAIL)
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(o) + "\n")

TAIL = """
## Search for gaps of the checks

Besides planted bugs, random mutants of original source lines (relational operators, constants, dropped statements, negated conditions, shifted operands) were built,
filtered by the stable tests, and given to the mapped checks at 12 % of the quick number of cases; survivors were examined one by one. The gaps found that way (and by bugs missed at
first) led to: escapes with every hexadecimal digit (C26, b19), names near reserved ones (C01, b31), long values (C02, C03, C18; b33), conversion over existing .xbw (C18, b34),
root strings cut at every place (C26), sources opened by their own name (C01, C07; found the defect fixed by 6cfda09).

## Limits

* All is exploration: no absence claim. Sizes over some MB, files near 2 GB and table limits of 32K names are not reached in quick runs.
* Concurrency is not a promise of the library (no locks); only interleaving of several documents and of a writer with readers of an appended file is generated.
* Crash points: the process is ended between operations (the mapping keeps what was written); loss of power with partly written pages is not modelled.
* TMPDIR and CLI argument handling of the tools in src/tests are not covered.
"""
main()
