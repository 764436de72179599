package zzverifsim

// ruleText says, for the evidence file, how the cases of a property are made.
var ruleText = map[string]string{
	"C01": "A run builds a random heap dump (classes, threads, frames, locals, layout) and executes one to three commands on it under random short reads and writes, interruptions and latencies; every run is a case.",
	"C02": "A run builds a random heap dump and executes one to three commands on it under random short reads and writes, interruptions and latencies; every run is a case.",
	"C03": "A run builds a random heap dump (hash tables of system properties in every shape) and executes one to three commands on it under random short reads and writes, interruptions and latencies; every run is a case.",
	"C04": "A run indexes a dump whose locals refer to objects of each kind (every object, or those around the boundaries of the index batches of one million) or to none, and looks all of them up; every run is a case.",
	"C05": "A run executes two to seven commands in a row on one dump, with another seed for every hash table; every run is a case.",
	"C06": "A run executes commands on a dump cut at a random byte or at a field boundary and then on the whole dump; every run is a case.",
	"C07": "Kill points are enumerated over the calls of a traced run (all calls that touch the index, and samples of the rest; before, after and in the middle); a case is a history with at least one kill that was delivered.",
	"C08": "Power losses after a kill point or after a complete run, with a random subset of unsynced pages and directory operations lost; a case is a history with at least one power loss.",
	"C09": "Every call of a traced run that creates or writes the index fails in turn (several errors, partial writes, once or lasting), and disks become full after a random number of bytes; a case is a history with at least one injected error.",
	"C10": "Calls of a traced run that open, inspect or read fail in turn (several errors, after part of the data, once or lasting), and dumps get bad sectors; a case is a history with at least one injected error.",
	"C11": "Writes of a report fail in turn (several errors, after part of the data, once or lasting) or are cut short; a case is a history with at least one such event.",
	"C12": "Interactive runs with random latencies, stalls, slow and failing terminals, on whole, cut, empty, corrupted and growing dumps; a case is a run with a fault, or with an interleaving of its own.",
	"C13": "Two to four processes run on one dump with random start times, latencies, stalls and kills; a case is a distinct interleaving of their calls.",
	"C14": "A dump is corrupted at random bytes or in chosen fields and every command runs on it; every run is a case.",
	"C15": "Histories of commands with kills, errors, full disks, cut and corrupted dumps on thirteen kinds of paths; a case is a history with a fault or a concurrent run.",
	"C16": "A dump contains one unsupported element at a random position; every run is a case.",
	"C17": "Dumps replace each other between commands (sizes and times in every relation) with kills, power losses, clock jumps and errors in between; a case is a history with a fault or clock jump, or a distinct course.",
	"C18": "One dump whose texts contain markup is printed in several formats; every run is a case.",
	"C19": "Sparse dumps of 2.5 to 17 GiB are indexed and reported on; every run is a case.",
	"C21": "Dumps with up to 450,000 objects, several hundred megabytes of payload or many properties, threads and classes are indexed and reported on, and every byte and call on dump and index is counted; every run is a case.",
	"C22": "Commands are spelled in random ways (order, dashes, =, repetition, truth values), with mistakes, without a dump and in varying environments, in histories with and without an index; every run is a case.",
}

// quickBatches is the number of seeds of a quick check (about 40 s of work
// for eight cores).
var quickBatches = map[string]int{
	"C01": 3500, "C02": 8000, "C03": 1900, "C04": 1300, "C05": 3600, "C06": 2000, "C07": 1300,
	"C08": 1800, "C09": 1100, "C10": 1500, "C11": 5000, "C12": 2900, "C13": 740, "C14": 2600,
	"C15": 1450, "C16": 14000, "C17": 640, "C18": 3000, "C19": 20,
	"C21": 600, "C22": 6000,
}
