#!/usr/bin/env python3
# Writes properties.jsonl and props.json (id -> workload of the simulator) from one table.
import json, os
H = os.path.dirname(os.path.abspath(__file__))
ALL = []
def P(id, sim, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    ALL.append((d, sim))
I = "include/pigo/impl/"
COO, CSR, GR, DI, MAT, TEN, IO = I+"coo.impl.hpp", I+"csr.impl.hpp", I+"graph.impl.hpp", "include/pigo/graph.hpp", "include/pigo/matrix.hpp", I+"tensor.impl.hpp", I+"pigo.impl.hpp"

P("C01", "edge-list-load", "Edge-list loading yields exactly the file's entries in file order",
  "Loading a text edge list into a coordinate list (COO, plain or weighted) yields one stored entry per data line, with that line's row label, column label and weight, in file order, and reports m as the number of lines, nrows and ncols as one more than the largest row and column label, and n as the larger of the two. Comment lines (# or %), blank lines, repeated separators, a missing final newline and Windows line ends change nothing, and neither do the number of threads and their interleaving.",
  ["schedules", "inputs", "configurations"], "every edge-list text, label/ordinal/weight type and storage kind, thread count and thread schedule",
  "The tests load a handful of tiny files with whatever schedule the machine gives; how the file is cut between threads, and what happens at each cut, depends on thread count, file size and interleaving.",
  [COO, IO], [("two-pass parallel read: count per thread, prefix sum, fill", COO+" COO::read_el_"), ("each thread starts at the first line that begins in its part", IO+" FileReader::smaller_end / move_to_eol"), ("shared maxima of the labels", COO+" read_coord_entry_i_")],
  ["COO(fn, EDGE_LIST)", "COO::x/y/w/m/n/nrows/ncols"])
P("C02", "matrix-market-load", "MatrixMarket loading yields the entries and the header's dimensions",
  "Loading a MatrixMarket coordinate file into a COO yields exactly the entries of its data lines in file order (labels as written) and dimensions one more than the rows and columns of the size line, for every thread count and interleaving. Comments before the size line and anywhere among the entries are ignored; a file whose size line contradicts its number of entries, or whose labels exceed the stated size, or without the coordinate banner, is rejected with pigo::Error.",
  ["schedules", "inputs", "configurations"], "every MatrixMarket coordinate text (loaded plain or with the reading options), types, thread count and schedule",
  "Tests use two or three fixed files; header disagreement and thread cuts inside the comments or the size line are not sampled.",
  [COO, IO], [("header parsed before the parallel read, checked after it", COO+" COO::read_mm_"), ("banner check", COO+" mm_file_header"), ("parallel edge-list read of the remainder", COO+" COO::read_el_")])
P("C03", "read-options", "Symmetrize, upper-triangle and self-loop options filter exactly",
  "A COO declared symmetric stores each read entry and its mirrored entry with the same weight (a self loop once); one that keeps only the upper triangle stores only entries whose row label does not exceed the column label (for a symmetric upper-triangle COO each entry once, turned around when needed); one that removes self loops stores none. Weights stay with their entry and the counts and dimensions describe the stored entries only. This holds for every combination of options, every input order, thread count and schedule.",
  ["schedules", "inputs", "configurations"], "every combination of the three options with every edge list or MatrixMarket text, thread count and schedule",
  "The option combinations multiply with weights, thread cuts and input order; tests try a few combinations on one small file.",
  [COO], [("per-entry filter used in both passes", COO+" read_coord_entry_i_ specialisations"), ("counted entries bound the second pass", COO+" COO::read_el_")])
P("C04", "coo-to-csr", "COO to CSR conversion keeps every entry in its row",
  "Converting a COO to a compressed form (CSR, Graph, DiGraph, Matrix), directly or while loading a coordinate file, keeps the multiset of (row, column, weight) entries: row v of the result lists exactly the columns and weights of the entries with row label v, empty rows included. Offsets start at 0, never decrease and end at m, and n, m, nrows and ncols carry over. Only the order within a row may depend on thread count or interleaving.",
  ["schedules", "inputs", "configurations"], "every COO whose labels lie inside its dimensions, all type and storage combinations, thread count and schedule",
  "Threads claim positions within a row with atomics; a lost or doubled slot needs a particular interleaving on a shared row, which tests do not control.",
  [CSR, I+"coo.impl.hpp"], [("degree count with atomic increments", CSR+" CSR::convert_coo_"), ("per-thread prefix sums over the degrees", CSR+" CSR::convert_coo_"), ("slots claimed by atomic capture", CSR+" CSR::convert_coo_")],
  state=[("offsets", "start of each row, n+1 values", CSR), ("label_degs", "slots of each row not yet claimed", CSR)])
P("C05", "csr-to-coo", "CSR to COO conversion reproduces every entry in row order",
  "Building a COO from a CSR, or loading a CSR binary or .graph file into a COO, yields exactly the CSR's entries with their weights, in row order (the symmetric COO additionally stores each entry's mirror image); n, m, nrows and ncols agree and the CSR is unchanged. This holds for empty rows, trailing empty rows, every thread count and every interleaving.",
  ["schedules", "inputs", "configurations"], "every CSR, all type and storage combinations, COO options that support it, thread count and schedule",
  "Work is split by rows and threads find their start by offsets; wrong splits only show for particular row-size distributions and thread counts.",
  [COO, CSR], [("rows are shared out between threads and written at their offsets", COO+" COO::convert_csr_")])
P("C06", "row-sort", "Sorting a CSR sorts every row and keeps every entry",
  "After sorting, each row of a CSR, Graph, DiGraph or Matrix part is in ascending order of label (equal labels by weight), each row holds the same multiset of (label, weight) pairs as before, and offsets and counts are unchanged. This holds for every content, thread count and interleaving.",
  ["schedules", "inputs", "configurations"], "every CSR, weighted or not, thread count and schedule",
  "Weighted rows are sorted through per-thread scratch space shared across dynamically scheduled rows; which rows a thread sorts one after the other depends on the schedule.",
  [CSR], [("rows sorted independently under a dynamic schedule", CSR+" CSR::sort"), ("weights sorted together with labels", CSR+" sort_i_")])
P("C07", "duplicate-removal", "Removing duplicates keeps exactly one entry per row and label",
  "Removing duplicates from a CSR returns a new CSR whose rows are the source's rows without repeated labels, in ascending order, each label with the smallest of its weights, and with matching offsets and counts, converted to the requested types. The source's rows end up sorted and otherwise unchanged. This holds for every content, thread count and interleaving.",
  ["schedules", "inputs", "configurations"], "every CSR, weighted or not, source and result types, thread count and schedule",
  "Rows are partitioned between threads by their position; errors appear only at partition borders for particular row sizes and thread counts.",
  [CSR], [("two-pass count and copy with per-thread prefix sums", CSR+" CSR::new_csr_without_dups")])
P("C08", "adjacency-load", "Loading a .graph adjacency file keeps each row's neighbours in order",
  "Loading an adjacency (.graph) file into a CSR or Graph yields, for the i-th vertex line, exactly the labels written on that line in the written order, blank lines being vertices without neighbours and comment lines being skipped; labels and rows are taken as zero-based if a 0 label occurs and one-based otherwise. The entry count of the header may be the number of labels or half of it; a file with fewer rows than the header says, or another entry count, is rejected with pigo::Error, and the result does not depend on thread count or interleaving.",
  ["schedules", "inputs", "configurations"], "every unweighted .graph text, thread count and schedule",
  "Threads start in the middle of the file and must find out which vertex they are at; empty rows, comments and cuts inside long rows multiply with thread count.",
  [CSR, IO], [("two-pass read counting lines and labels per thread", CSR+" CSR::read_graph_")])
P("C09", "tensor-load", "Tensor text loading yields exactly the file's entries in file order",
  "Loading a tensor text file into a Tensor yields one entry per data line with all its coordinates in order (and its weight if the tensor is weighted), an order equal to the number of coordinates per line and m equal to the number of lines; comments, blank lines, repeated spaces, Windows line ends and a missing final newline change nothing. The maximum labels reported are the largest coordinate in each position, and nothing depends on thread count or interleaving.",
  ["schedules", "inputs", "configurations"], "every tensor text of any order, types, thread count and schedule",
  "As for edge lists, with entries whose length varies with the order; max_labels reduces over threads.",
  [TEN, IO], [("order taken from the first entry line", TEN+" Tensor::read_el_"), ("two-pass parallel read", TEN+" Tensor::read_el_"), ("per-thread maxima merged", TEN+" Tensor::max_labels")])
P("C10", "ascii-write", "ASCII output lists exactly the entries, in order, one per line",
  "Writing a COO or Tensor as text creates a file with one line per entry in storage order: the labels in decimal separated by single spaces, then the weight if there is one (integers in decimal, reals with six decimals), ended by a newline, and nothing else: no gaps, no stale bytes of an older file of that name. Loading that text again gives the same entries in the same order (with reals rounded to those decimals) when no label is negative. The file's bytes do not depend on thread count or interleaving and the object is unchanged.",
  ["schedules", "inputs", "configurations"], "every non-empty COO or Tensor (including extreme label and weight values), thread count, schedule and earlier content of the file",
  "Each thread computes the size of its part before any byte is written; a disagreement between the size pass and the write pass needs particular values at particular thread borders.",
  [COO, TEN, IO], [("size pass, prefix sum, write pass into a mapped file", COO+" COO::write"), ("number rendering", IO+" write_size / write_ascii")])
P("C11", "binary-roundtrip", "Saving to binary and loading gives back the identical object",
  "Saving a COO, CSR, Graph, DiGraph or Tensor writes exactly the documented layout (header text, widths, counts, arrays; the in part before the out part for a DiGraph), the announced size is the number of bytes, and loading the file with the same types, by stated or detected type, gives back identical counts and arrays. A file of another kind, or with another label or ordinal width, is rejected with pigo::Error. (The formats do not record whether there are weights, so a weighted file read as unweighted, or the other way round, is outside this claim.) None of this depends on thread count or interleaving of either side.",
  ["schedules", "inputs", "configurations"], "every object of every kind, type and storage combination, including empty ones, thread count and schedule",
  "The arrays are copied by all threads at once; tests round-trip a few small graphs, never every width, and never look at the bytes.",
  [COO, CSR, DI, TEN, IO], [("parallel copy into and out of the mapped file", IO+" parallel_write / parallel_read"), ("widths checked on load", CSR+" CSR::read_bin_"), ("type detection by header and name", IO+" File::guess_file_type")])
P("C12", "in-out-duality", "Both sides of a DiGraph or Matrix hold the same edges",
  "For every DiGraph, the out part holds exactly the edges given and the in part exactly the same edges reversed, with the same weights; for every Matrix, the CSR and CSC parts likewise; whichever source they were built from (COO, edge list, MatrixMarket, adjacency or binary file). Degrees and neighbour iteration of Graph and DiGraph parts list exactly the stored row, also after sorting one side. This holds for every thread count and interleaving, and the source COO is unchanged.",
  ["schedules", "inputs", "configurations"], "every source kind and content, weighted or not, thread count and schedule",
  "Two conversions and a transposed copy per object run in parallel; tests only check a few edges of one graph.",
  [DI, MAT, GR], [("transposed copy converted for the other side", "include/pigo/graph.hpp DiGraph::from_coo_"), ("CSC from the transposed COO", "include/pigo/matrix.hpp"), ("neighbor iteration over the row", "include/pigo/graph.hpp BaseGraph")])
P("C13", "find-offsets", "Searching a file for a character finds every position once, in order",
  "Searching an open file for a character returns the offsets, relative to the current position, of every byte equal to the given character between the current position and the end of the file, ascending and without repetition; a character that does not occur gives an empty result. The file position is unchanged and the result does not depend on thread count or interleaving.",
  ["schedules", "inputs", "configurations"], "every file content, start position, character, thread count and schedule",
  "A character exactly at the border between two threads' parts can be lost or found twice depending on the thread count; tests try one file.",
  [IO], [("each thread counts then fills its own part", IO+" FileReader::find_offsets")])
P("C14", "cursor-io", "File reads and writes move exactly the requested bytes and the cursor",
  "On an open File, typed, string and parallel reads return exactly the bytes at the cursor and writes store exactly the given bytes there, each advancing the cursor by exactly their length, whatever bytes they are, zero bytes included (a read beyond the end of the file, a string read that does not match and a seek to or beyond the end are rejected with pigo::Error); bytes outside the written ranges are untouched and the file keeps its size. Parallel transfers of any length, zero included, move every byte exactly once for every thread count and interleaving.",
  ["schedules", "inputs", "histories", "configurations"], "every history of seeks, reads and writes on one file, sizes, alignments, thread count and schedule",
  "Tests do a few reads in sequence; the parallel transfers split lengths that need not divide by the number of threads.",
  [IO], [("parallel transfers split between threads, the last takes the rest", IO+" parallel_read / parallel_write"), ("cursor bounds", IO+" File::seek / read / write")])
P("C15", "race-freedom", "No data race in any library operation",
  "While the library runs one operation on several threads, and while independent callers use independent objects and files, any two accesses to the same memory by different threads of which one is a write are ordered by synchronisation or are both atomic. No thread reads or writes memory outside live allocations, mapped files or its stack.",
  ["schedules", "inputs", "programs"], "every operation of the library (loading, converting, sorting, deduplicating, writing, binary I/O, searching, copying), input, thread count and schedule",
  "Tests only see a race when it corrupts a result on the schedule they happen to get.",
  [COO, CSR, TEN, IO], [("barriers and single sections between the passes", COO+", "+CSR+", "+TEN), ("atomic updates of shared counters", CSR+" CSR::convert_coo_")])
P("C16", "failure-reporting", "A failing call or full disk is reported and can be retried",
  "If a system call or memory allocation fails during a library operation, or the disk is full, the operation ends with pigo::Error or std::bad_alloc (or succeeds with the complete result); it never terminates the process, crashes, hangs or silently gives an incomplete object or file. Objects, handles and files not being written by the operation stay intact, and repeating the operation once the failure is gone succeeds.",
  ["fault_sequences", "schedules", "inputs"], "every operation, every single failing call among those it makes (open, map, extend, close, allocate, ...), every disk size, thread count and schedule",
  "Tests never make a system call fail; failures inside parallel sections end the process unless handled on each thread.",
  [IO, COO, CSR, TEN, "include/pigo.hpp"], [("errors of the file layer raise pigo::Error", IO+" File::open / ROFile / WFile"), ("exceptions carried out of parallel sections", COO+", "+CSR+", "+TEN)])
P("C17", "damaged-binary", "A damaged or truncated binary file never corrupts memory",
  "Loading a PIGO binary file (COO, CSR, DiGraph, Tensor) that was cut short or in which bytes of the header, counts, offsets or data were changed ends with pigo::Error or std::bad_alloc, or gives an object whose counts, offsets and arrays are consistent with each other; it never reads or writes outside the file or the object's storage, and never crashes or hangs. A file that holds fewer bytes than its counts need, or whose format name or type widths (of a DiGraph also those of its parts) are not the target's, is always rejected when read as a binary. An undamaged file still loads exactly.",
  ["fault_sequences", "inputs", "schedules"], "every cut position and changed bytes of every kind of binary file, requested types, thread count and schedule",
  "Tests only load files the library has just written.",
  [COO, CSR, DI, TEN, IO], [("counts checked against the bytes left in the file", CSR+" CSR::read_bin_, "+COO+" COO::read_bin_, "+TEN+" Tensor::read_bin_"), ("offsets checked to be monotone", CSR+" CSR::read_bin_"), ("reads bounded by the file", IO+" File::read / parallel_read")])
P("C18", "file-ownership", "Every open file is owned by one handle and released exactly once",
  "Through any history of opening, moving, move-assigning, reading, writing and closing File objects, each handle keeps denoting the file, position and bytes it was opened on (or took over), a moved-from handle owns nothing, and every mapping and descriptor is released exactly once, when its owner closes or is assigned over. Type detection of an open file agrees with its header and name, and an unknown PIGO header is reported as pigo::Error.",
  ["histories", "fault_sequences", "schedules"], "every history of handle operations over several files and handles, with address reuse by the system",
  "A double or early release only shows when the system has reused the address range in between; tests hold one file at a time.",
  [IO, "include/pigo.hpp"], [("move transfers ownership and empties the source", "include/pigo.hpp File(File&&), operator=(File&&)"), ("destructor unmaps", IO+" File::~File"), ("header table", IO+" File::guess_file_type")])
P("C19", "independent-callers", "Callers using separate objects at once do not affect each other",
  "When several caller threads (plain threads or members of one OpenMP team) use the library at the same time, each on its own objects and output files and possibly reading the same input files, every caller gets exactly the results it would get alone. No interleaving loses, mixes or corrupts anything or blocks a caller forever, and a call that fails in one caller's operation is reported to that caller alone.",
  ["schedules", "programs", "configurations", "fault_sequences"], "every set of concurrent caller programs, nesting setting, thread count and schedule",
  "No test calls the library from more than one thread.",
  [COO, CSR, TEN, IO], [("no shared mutable state besides the objects", "include/"), ("teams sized by the actual number of threads", COO+", "+CSR+", "+TEN)])
P("C20", "deep-copies", "Copies of COOs and Tensors are complete and independent",
  "A copy-constructed or copy-assigned COO or Tensor equals its source in every count, entry and weight, and afterwards changing, transposing, freeing or reassigning either one never changes the other; self-assignment changes nothing; transposing swaps exactly the row and column labels of every entry. This holds for every storage kind, thread count and interleaving and for every history of such operations.",
  ["histories", "inputs", "schedules"], "every history of copy, assign, transpose, set and free over several objects and storage kinds",
  "The entries are copied in parallel and storage kinds differ in what a plain copy would share; tests copy one object once.",
  ["include/pigo/coo.hpp", "include/pigo/tensor.hpp"], [("parallel element copy into fresh storage", "include/pigo/coo.hpp COO::copy_, include/pigo/tensor.hpp Tensor::copy_")])
P("C21", "text-boundaries", "Text loading never depends on or reads beyond the file's end",
  "Loading any text file (edge list, MatrixMarket, adjacency, tensor) reads no byte beyond the file's last byte and gives the same result whether or not the file ends in a newline, ends exactly at a memory-page border, ends in a comment, blanks or a partial last line, and whatever bytes follow it in memory. This holds for every thread count, also when there are more threads than bytes or lines.",
  ["inputs", "schedules", "configurations"], "every text format and file length, in particular lengths that are multiples of the page size, endings, thread count and schedule",
  "Reading past the end is invisible unless the file fills its last page; tests' files never do.",
  [IO, COO, CSR, TEN], [("every reader step checks the end", IO+" FileReader"), ("a thread's part ends at a line border", IO+" FileReader::smaller_end")])
P("C22", "pipelines", "Any sequence of operations behaves like the reference model",
  "Through any sequence of building, loading, converting, sorting, deduplicating, copying, transposing, saving, writing and freeing over several objects and files, with the number of threads changing in between, every operation gives exactly the result a simple sequential model gives, and changes no object or file other than its target.",
  ["histories", "schedules", "inputs"], "every program over several objects and files, thread count and schedule",
  "Tests run fixed sequences of two or three operations.",
  [COO, CSR, TEN, GR, DI, MAT, IO], [("each operation depends on its operands only", "include/pigo/")])
P("C23", "crash-safety", "A crash while storing harms nothing but the file being stored",
  "If the process is killed, or the machine loses power, at any moment while an object is saved or written, every other file keeps its contents, a load of the interrupted file in the next process ends with pigo::Error, std::bad_alloc or a consistent object and never crashes, and storing again to the same name succeeds and loads back identically whatever was left there.",
  ["crash_points", "fault_sequences", "schedules"], "every crash point of every store operation, process kill or power loss with any subset of unsynced pages surviving, thread count and schedule",
  "Tests never crash; what a torn file looks like depends on the crash point and on which pages reached the disk.",
  [IO, COO, CSR, DI, TEN], [("file created at its full size, then filled through a mapping", IO+" WFile / File::open"), ("loads validate what they find", CSR+" CSR::read_bin_")])
P("C24", "progress", "Every operation finishes under every schedule and team size",
  "Every library operation finishes within a bounded number of its own steps for every thread count (more threads than lines or bytes, up to well above the number of cores), with fewer threads delivered than asked for, with nested or dynamic teams, and when some threads stall for a long time; no thread waits for something that cannot happen any more, and the result is the right one.",
  ["schedules", "configurations", "inputs"], "every operation, team size up to 128, schedule with stalled threads",
  "A barrier that not every thread reaches only hangs for particular team sizes or inputs.",
  [COO, CSR, TEN, IO], [("every thread passes the same barriers", COO+", "+CSR+", "+TEN), ("empty parts are handled", IO+" FileReader")])
P("C25", "resource-release", "Operations release every mapping, descriptor and scratch block",
  "After every library operation, successful or rejected, no file mapping, descriptor or stream opened by it remains, and no mapping it did not own was released; after freeing (or destroying, for owning storage) every object that holds entries, no heap memory of successful operations remains allocated.",
  ["histories", "schedules", "inputs"], "every program of library operations, storage kinds, thread count and schedule",
  "A leak never fails a test.",
  [COO, CSR, TEN, IO, "include/pigo.hpp"], [("scratch arrays freed after the parallel passes", CSR+" CSR::convert_coo_"), ("file handles are scoped to the operation", IO+" File"), ("free() releases raw storage", "include/pigo.hpp free_mem_")])

P("C26", "shared-positions", "Threads reading and writing parts of one open file do not disturb each other",
  "When several threads use one open file at the same time, each through its own FileReader or FilePos on a part of it, every parsing step (reading integers and floating point values, skipping comments, moving to the next number, sign, character or line end, counting, looking ahead) returns what the text of its own part prescribes, leaves the reader where the text prescribes and never beyond its own end; every typed, text, string or bulk transfer at a position moves exactly its own bytes and advances that position by exactly as many, write_size announcing that number for text. Neither the File's cursor nor another thread's position or bytes change, whatever the text, the split into parts, the thread count and the interleaving.",
  ["schedules", "inputs", "programs"], "every text and byte content, split into overlapping or adjacent parts, program of reader and position steps per thread, thread count and schedule",
  "All parallel loaders and writers, and callers with formats of their own, rest on many threads stepping through one mapping at once; no test uses a FileReader or FilePos from more than one thread, or compares where a step leaves it.",
  [IO, "include/pigo.hpp"], [("each reader owns its position and its smaller end", "include/pigo.hpp FileReader"), ("parsing steps bounded by the end", IO+" FileReader"), ("typed and text writes at a position, and their announced size", IO+" read / write / write_ascii / write_size")])

P("C27", "shared-objects", "Several callers can read one object at the same time",
  "While several callers (plain threads or members of one OpenMP team) at the same time use one and the same object only as a source - convert it to another kind or type, build graphs and matrices from it, copy it, save it, write it, or look at its degrees, neighbours and greatest labels - each caller gets exactly the result it would get alone, the object is unchanged afterwards, and there is no data race; each caller may go on to change or release what it built without any effect on the object or the others. This holds for every kind of object, storage, thread count and interleaving.",
  ["schedules", "programs", "configurations", "inputs"], "every kind and storage of shared source objects, set of concurrent caller programs over them, nesting setting, thread count and schedule",
  "No test uses an object from more than one thread; operations that keep scratch data in their source, or share storage with their result, only fail when two callers meet.",
  [COO, CSR, DI, MAT, TEN, GR], [("conversions only read their source", CSR+" CSR::convert_coo_, "+COO+" COO::convert_csr_"), ("transposed work happens on a copy", "include/pigo/graph.hpp DiGraph::from_coo_, include/pigo/matrix.hpp Matrix::from_coo_"), ("writers size and fill the file from the object alone", COO+" COO::write / save, "+TEN+" Tensor::write / save")])

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for d, s in ALL: f.write(json.dumps(d) + "\n")
json.dump({d["id"]: dict(sim=s, title=d["title"]) for d, s in ALL}, open(os.path.join(H, "props.json"), "w"), indent=1)
checks = []
for d, s in ALL:
    checks.append(dict(property=d["id"], quick_cmd="python3 check.py %s quick" % d["id"], thorough_cmd="python3 check.py %s thorough" % d["id"],
        technique="deterministic simulation: seeded search over thread schedules%s, reference-model oracle, minimised replay" % (
            {"C16": ", failing calls and full disks", "C17": " and stored-byte damage", "C23": " and crash points with lost pages", "C18": " and handle histories with address reuse"}.get(d["id"], " and inputs")),
        level="exploration",
        level_note="Whole library under a simulated OpenMP runtime, heap, file system and memory mappings; every schedule, fault and input is drawn from VERIF_SEED. A clean run is evidence on the sampled executions, not proof; interleavings are sequentially consistent at single-access granularity."))
NA = []
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=NA,
    notes="No hooks in /repo: the seams are the compiler's memory-access instrumentation, the OpenMP runtime entry points, the allocator and the C library's file calls, all replaced at link time. /repo carries only fix: commits (see known-findings.txt)."),
    open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
