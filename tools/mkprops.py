#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CMD = "internal/cmd/subcommands.go"
PARSER = "internal/dump/parser.go"
ACC = "internal/dump/parsed_accessor.go"
IDX = "internal/storage/index.go"
BIG = "internal/storage/big.go"
SMALL = "internal/storage/small.go"
META = "internal/storage/meta.go"
BASE = "internal/core/base_parsers.go"
PRIM = "internal/core/primitive_parsers.go"
SIZES = "internal/core/sizes.go"
HEAP = "internal/java/heap.go"
THR = "internal/threads/threads.go"
OBJ = "internal/objects/objects.go"
SUM = "internal/summary/summary.go"
OT, OO, OS = "internal/output/threads.go", "internal/output/objects.go", "internal/output/summary.go"
IP = "internal/cmd/interactive_print.go"
MAIN = "cmd/neojhat/main.go"

p("C01", "The thread report is the thread dump stored in the heap dump",
  "For every well-formed HotSpot heap dump made of the record kinds neojhat supports, `threads` (with or without local variables) prints every thread of the dump exactly once, ordered by thread id, with the name, id, priority, daemon flag and status its java.lang.Thread object holds, its stack frames in order with the right class, method, signature, file and line, and with every GC-root local under the frame it belongs to, named by the type of the object it refers to. Nothing is lost, invented or attributed to another thread or frame, for 4- and 8-byte identifiers, any class hierarchy and any order and split of heap segments, and however the file system cuts, delays or interrupts its reads and writes.",
  ["inputs", "schedules", "fault_sequences"], "all well-formed dumps (both identifier sizes, subclassed threads, shadowed fields, JNI and Java locals, empty stacks, Latin-1 and UTF-16 strings) x all benign I/O behaviours (short reads and writes, EINTR, arbitrary latency)",
  "Unit tests parse one hand-written byte array with one record of each kind from an in-memory reader; they never index a dump and query it through files, never see a short read, and reach a handful of inputs.",
  [THR, HEAP, BASE, PRIM, PARSER, ACC, SMALL, OT], [("two-pass design: index the dump, then resolve ids through the index", THR), ("field lookup through the class hierarchy", HEAP)],
  ["stdout of `neojhat threads`"])
p("C02", "The object histogram accounts for every object of the dump",
  "For every well-formed heap dump made of the record kinds neojhat supports, `objects` prints one row per class, object-array class and primitive-array type that has instances, and no other row, with the exact number of instances and the size and integer percentages that follow from the dump; the printed totals are the exact totals of the heap. Rows are in descending order of the chosen sort column with ties ordered by name, and the totals agree with those `summary` prints for the same dump, however the file system cuts, delays or interrupts reads and writes.",
  ["inputs", "schedules", "fault_sequences"], "all well-formed dumps (empty heaps, zero-length arrays, same-named classes of different loaders, interleaved and split segments) x both sort orders x all benign I/O behaviours",
  "Unit tests feed the printer one literal list; no test counts the objects of a parsed dump, and conservation is a statement over all dumps.",
  [OBJ, META, PARSER, SIZES, OO], [("counters incremented per parsed record", META), ("sorting and percentages", OO)], ["stdout of `neojhat objects`", "stdout of `neojhat summary`"])
p("C03", "The summary reports the JVM state stored in the dump",
  "For every well-formed heap dump made of the record kinds neojhat supports, in which the JVM's system properties (all of them strings) and its management runtime bean exist, `summary` prints the operating system, architecture, Java home, version, VM name and vendor that the dumped java.lang.System properties hold, the exact number of classes, GC roots and instances, the exact heap size and the JVM uptime at the moment of the dump. With --all-props it prints every system property of the dump exactly once with its full value, sorted by key, wherever the property sits in the JVM's hash table and whatever characters it contains, and however the file system cuts, delays or interrupts reads and writes.",
  ["inputs", "schedules", "fault_sequences"], "all well-formed dumps (any placement of properties in hash buckets including collisions and tree bins, both string encodings, both identifier sizes) x all benign I/O behaviours",
  "The only summary test prints one literal structure; nothing tests extraction from a dump, and bucket collisions, encodings and 4-byte identifiers are never reached.",
  [SUM, HEAP, OS, META, SMALL], [("walk of the ConcurrentHashMap behind System.props", SUM), ("java.lang.String decoding", HEAP)], ["stdout of `neojhat summary`"])
p("C04", "Every indexed object can be found again by its identifier",
  "After a dump has been indexed, every instance, object array and primitive array in it can be looked up by its identifier and the lookup yields that very object, whatever the number of objects of each kind and wherever index batches begin and end; an identifier that is in none of the three indexes is never resolved to some other object. This holds for every way the file system may split the index writes and reads.",
  ["inputs", "fault_sequences", "histories"], "all object populations (none, one, many, more than the index batch of one million, of each kind independently), all identifiers in them x all splits of index I/O",
  "Index tests store a few keys with a batch of a few records in RAM; the production batch is one million records and goes through a file, and no test looks up every object.",
  [IDX, BIG, PARSER, ACC], [("sorted fixed-size records and binary search", IDX), ("batching of index writes", IDX)], ["stdout of `neojhat threads --local-vars` for dumps whose locals refer to every object"])
p("C05", "Reports do not depend on history, hash order or who built the index",
  "Any sequence of commands on the same dump, in any order and any number of times, prints for each command byte for byte the same report as that command prints on a fresh copy of the dump, whichever command built the index and whatever order in-memory hash tables are iterated in. Running a command never changes the dump, and a command that finds a complete index leaves the index files as they are and needs no permission to write.",
  ["histories", "schedules", "inputs"], "all command histories x all hash iteration orders x all dumps",
  "No test runs a command twice or compares two runs; Go randomises map iteration, so order bugs show in a fraction of runs and only for particular dumps.",
  [MAIN, CMD, OBJ, OO, SUM, OS, OT], [("index kept in <dump>.db", CMD), ("explicit sorting before printing", OO)], ["stdout", "bytes of <dump>.db/*", "bytes of the dump"])
p("C06", "A truncated dump is never reported on as if it were whole",
  "If the dump file ends at any byte before its end-of-dump record, every command on it fails with a message and a non-zero exit status within a bounded number of steps, and prints no report. It keeps failing on every later invocation until the file is complete, and once the complete dump has been put in its place the commands print the correct report without any manual cleanup.",
  ["crash_points", "inputs", "histories"], "every cut point of every dump x every command history around it",
  "Tests parse complete records; a cut inside a nested record, exactly at a record boundary, or inside a bulk payload that is only skipped is never tried, nor is what a later run does.",
  [PARSER, PRIM, CMD], [("every read is io.ReadFull or Discard and EOF is an error", PRIM), ("index directory published only by a completed run", CMD)], ["exit status", "stdout", "later runs"])
p("C07", "An interrupted run never breaks or falsifies later runs",
  "If neojhat is killed at any instant (between or in the middle of any file-system operation), any later command on the same dump completes normally and prints the correct report, without manual cleanup. This holds for any number of successive interrupted runs, for the first run that builds the index as well as for later ones.",
  ["crash_points", "histories"], "every kill point of every command x any number of kills in a row",
  "No test kills a process; the failing states exist only between two system calls of the index build.",
  [CMD, IDX, SMALL, META], [("publication of the index directory", CMD)], ["exit status and stdout of the next runs"],
  [("<dump>.db", "exists if and only if a complete index is in it", CMD)])
p("C08", "Power loss never leaves an index that yields a wrong report",
  "If the machine loses power at any instant during or after a run, so that only data that reached stable storage survives (unsynced file contents may be lost, cut or zero-filled page by page, unsynced changes of every directory undone from the newest), then after restart every command on the same dump prints the correct report without manual cleanup.",
  ["crash_points", "fault_sequences", "histories"], "every power-loss point x every subset of unsynced pages and every suffix of unsynced directory operations lost",
  "Durability cannot be observed by a test on a machine that stays up.",
  [CMD, IDX, SMALL, META], [("syncing and publication of the index directory", CMD)], ["exit status and stdout after restart"])
p("C09", "A disk that fails while the index is saved is reported, and recovered from",
  "If any file-system operation that creates or writes the index fails (no space, I/O error, quota, permission; at directory creation, file creation, write, sync, close or rename; transiently or for the rest of the run), the command either still prints the correct report or exits with a message and non-zero status; it never prints a wrong or partial report as success. Once the disk works again the next command prints the correct report without manual cleanup.",
  ["fault_sequences", "crash_points", "histories"], "every failing operation and error kind during index construction, including short writes before the failure and errors surfacing only at close or sync",
  "Tests write to RAM volumes that never fail.",
  [CMD, IDX, BIG, SMALL, META, PARSER], [("error propagation from index writers to the exit status", PARSER)], ["exit status", "stdout", "stderr", "later runs"])
p("C10", "A read error never turns into a wrong report",
  "If opening, inspecting, reading or seeking the dump or any index file fails at any moment, the command exits with a message and non-zero status and prints no report, rather than treating the error as the end of the data or as a missing object. The error does no lasting harm: once the device works again every command prints the correct report without manual cleanup.",
  ["fault_sequences", "histories"], "every read-side operation of every command failing once, several times or permanently, with EIO and the other errors such operations return",
  "Tests read from in-memory buffers that never fail; only EOF is ever seen.",
  [CMD, ACC, IDX, PRIM, THR, SMALL, META], [("errors wrapped and returned", ACC), ("fallback from instance to array to class lookup when resolving a local", THR)], ["exit status", "stdout", "later runs"])
p("C11", "A report that could not be written completely is not a success",
  "If standard output fails, fills up or is closed while a report is being written, the command exits with a non-zero status (or is terminated by the signal), in every output format, and whatever reached standard output is a prefix of the correct report, followed at most by a message. A short or interrupted write that the system lets continue does not change the report.",
  ["fault_sequences", "inputs"], "every write of every report failing with no space, I/O error or broken pipe, after any number of bytes; and short or interrupted writes",
  "Tests print into memory buffers that accept everything.",
  [OT, OO, OS, MAIN, CMD], [("writer errors returned up to main", CMD)], ["exit status", "stdout"])
p("C12", "The progress display is harmless and ends with the work",
  "Interactive mode changes neither the report nor the exit status nor the index: for every dump, including malformed, truncated, empty and growing ones, and every timing of the parser, the progress display and a slow or failing terminal, the command never crashes, blocks or outlives its work by more than a few display periods. Every percentage shown lies between 0 and 100, with a bar of matching length, never decreases and, for a whole dump, tells how much of it has been read, give or take a record; the last progress line is erased when the work ends, whether it succeeds or fails.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings of the parser with the display's timer x all dump sizes and malformations x failing or slow stderr",
  "Nothing tests the progress display; its failures need a long parse, a particular instant of cancellation, or a position past the end of the file.",
  [IP, CMD, PARSER], [("progress goroutine and its cancellation", IP), ("position bookkeeping", PARSER)], ["stderr", "exit status", "simulated time"])
p("C13", "Concurrent runs on the same dump do not disturb each other",
  "Any number of neojhat commands started on the same dump at arbitrary times, with no index, a complete index, or an index being built by one of them, all finish with the correct report and exit status zero under every interleaving, and leave an index with which later commands work.",
  ["schedules", "histories"], "all interleavings of the file operations of several processes (any mix of commands, first runs and later runs), with any of them slow or killed",
  "Tests run in one process and never start a second one.",
  [CMD], [("publication of the index directory", CMD)], ["exit status and stdout of every process"])
p("C14", "A corrupted dump gives an error or a report, never a crash or a hang",
  "For any bytes in the dump file, every command terminates within a number of steps bounded by the file size, without a panic, stack overflow or memory use out of proportion to the file, and ends either with a report or with a message and non-zero exit status. Afterwards a correct dump put in its place is reported on correctly.",
  ["inputs", "fault_sequences"], "all corruptions (flipped, zeroed, duplicated, swapped or lost bytes, sectors and length fields) of all dumps x all commands and output formats",
  "Tests feed well-formed bytes, plus a few short ones to single parsers.",
  [PARSER, BASE, PRIM, SIZES, HEAP, OO, CMD], [("error returns instead of panics", BASE)], ["exit status", "stderr", "number of steps", "memory allocated"])
p("C15", "The dump is never touched and nothing is written outside its index",
  "No command ever writes, truncates, renames, removes or changes the mode or times of the dump file, and everything a command creates or changes in the file system lies in entries whose names start with the dump's own name followed by `.db`, whatever the path of the dump looks like and whatever fails or crashes. A command that exits by itself, successfully or with an error, while the disk obeys its clean-up, leaves behind nothing but at most the one index directory `<dump>.db`, and that directory does not fill up: after a successful command it holds at most what it held after the last kill, concurrent run or replacement of the dump plus one index, and a command on a dump that cannot be read, repeated, leaves no more than the first time; a file of the user that lies inside that directory stays as it is.",
  ["inputs", "fault_sequences", "crash_points", "histories"], "all dump paths (relative, nested, spaces, dots, symlinks), all commands, all failures and kills",
  "No test looks at what else a command did to the file system, least of all after a failure.",
  [CMD], [("index paths derived from the dump path", CMD)], ["the set of mutating file-system operations", "directory contents after each run"])
p("C16", "Dumps neojhat cannot represent are refused, never misreported",
  "If a dump contains something neojhat does not support - another profile version, another identifier size, an unknown record tag, an unknown heap sub-record or primitive type, or objects of one kind not in ascending order of identifier - every command on it either prints the correct report or fails with a message and non-zero status; it never skips over the unsupported part and reports something else. Later invocations on the same dump do the same.",
  ["inputs", "histories"], "all well-formed dumps with one or more unsupported elements at any position x all command histories",
  "Tests contain no unsupported element inside a heap segment and no second invocation on a refused dump.",
  [PARSER, IDX, BASE, "internal/core/file_header_parser.go"], [("tag dispatch", PARSER), ("order tracking while indexing", IDX)], ["exit status", "stdout"])
p("C17", "Reports describe the dump that is there now",
  "If the dump file is replaced by another dump under the same name, every later command prints the report of the new dump as if no earlier dump had existed, also while commands started on the earlier dump are still running, provided size or modification time differ from those of the indexed one, regardless of whether the new modification time is later or earlier, of clock jumps, and of kills, power loss and disk errors during the runs before and after the replacement.",
  ["histories", "crash_points", "inputs"], "all sequences and interleavings of commands, replacements (larger, smaller, same size, older or newer time stamp), kills and disk failures",
  "No test runs a command on a file that changes.",
  [CMD, META], [("identity of the indexed dump kept with the index", CMD)], ["stdout after replacement"])
p("C18", "Output options change the presentation, never the facts",
  "For every dump, the colour, plain and HTML outputs of the same command carry exactly the same facts in the same order; colour output differs from plain output only in terminal colour codes and layout white space. In HTML every piece of text from the dump appears as text, never as markup, so that no name or property value in a dump can add, remove or break elements; and the facts do not depend on the interactive option or on how the output accepts the bytes.",
  ["inputs", "configurations", "fault_sequences"], "all dumps (names and values with markup, quotes, control characters, non-ASCII) x all option combinations x benign output behaviours",
  "Tests compare a few literal structures with stored files; the combinations with real dumps, hostile strings and colour output are not covered.",
  [OT, OO, OS, "internal/output/html.go", "internal/output/colors.go", CMD], [("html/template contextual escaping", OT)], ["stdout in the three formats"])
p("C19", "Dumps larger than memory and beyond 4 GiB are handled",
  "For dumps whose size and offsets exceed 2^31 and 2^32 bytes, indexing, object lookup, all three reports and the progress display are as correct as for small dumps. The memory used grows neither with the payload of objects and arrays that no report needs nor with the number of objects.",
  ["inputs", "configurations"], "all dumps with multi-gigabyte payloads placed anywhere among the records that reports need",
  "A unit test cannot hold a dump of several gigabytes; all test dumps are below one kilobyte.",
  [PARSER, ACC, IDX, SIZES, IP], [("64-bit positions", PARSER), ("payloads skipped, not read", PARSER)], ["stdout", "bytes allocated", "stderr"])
p("C20", "JVM descriptors and sizes are rendered in Java notation",
  "Method descriptors and class names from the dump are printed in Java source notation (argument list, array brackets, return type) and byte counts in B, K, M or G with truncating division.",
  ["inputs"], "all descriptors and all byte counts",
  "A pure function over all strings and integers; the tests sample a table of examples.",
  ["internal/format/format.go"], [("descriptor scanner", "internal/format/format.go")], ["stdout"])
p("C21", "A command does no more I/O than its dump and report make necessary",
  "Building the index reads the dump once, front to back, in large pieces (its reads and bytes are linear in the size of the dump), and writes index data linear in the number of objects and the size of the other records, in large pieces too. A command that finds a complete index never reads the dump through again and writes no index: it reads only what its report needs, at a cost in index reads per looked-up object that is logarithmic in the number of objects, however large the payloads are and however the file system cuts or interrupts the calls.",
  ["inputs", "fault_sequences", "histories"], "all dumps (object counts from none to hundreds of thousands of each kind, payloads of hundreds of megabytes, few or many locals and properties) x all command histories x all benign I/O behaviours",
  "Unit tests measure no effort; with their dumps of a few hundred bytes a scan and a search cost the same.",
  [PARSER, IDX, ACC, SMALL, CMD], [("single buffered pass over the dump", PARSER), ("binary search", IDX), ("index found by its name and used without a rebuild", CMD)], ["bytes and calls on the dump and on the index files"])
p("C22", "The command line decides what is done, and nothing else",
  "Options may come in any order, with one dash or two, with = or as the next argument; of a repeated option the last one counts, and nothing behind the first argument that is no option; every truth value of Go's flag package means what it says. The report depends on the command and the meaning of its options only: not on their spelling, the environment variables, what standard output is connected to, or the commands run before. An unknown or missing command, an unknown option or value, a request for help or a missing path shows the options, and a path where there is no dump is an error with a message; neither prints a report or changes anything in the file system, and mistakes in options and missing dumps end with a non-zero exit status.",
  ["inputs", "configurations", "histories"], "all command lines (every order, spelling, repetition and mistake) x dump present, absent, a directory or a dangling link x index absent or complete x environments",
  "Tests parse no command line; the commands are functions of the process that end it, with package-level option variables.",
  ["cmd/neojhat/main.go", "internal/cmd/flags.go", CMD, "internal/objects/models.go"], [("flag sets per command", "internal/cmd/flags.go"), ("usage before any work", "cmd/neojhat/main.go")], ["stdout", "exit status", "file system"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
