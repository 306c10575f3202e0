// Package plan lists, per property, the generators ("parts") that decide it: which
// build of the code under test they run on and how many cases each tier generates.
package plan

// Part is one generator with its oracle.
type Part struct {
	Name     string
	Build    string // see Builds
	Quick    int    // cases per run
	Thorough int
	Rule     string
	Real     bool // real goroutines: the schedule is not part of the case
	Procs    int  // worker processes (0: one per core)
}

// Build describes how the code under test is compiled.
type Build struct {
	Instr, Race, I386, Regen bool
}

// Builds by name.
var Builds = map[string]Build{
	"plain":      {},
	"instr":      {Instr: true},
	"race":       {Instr: true, Race: true},
	"plainrace":  {Race: true},
	"i386":       {I386: true},
	"i386instr":  {I386: true, Instr: true},
	"regen":      {Regen: true, Instr: true},
	"regenrace":  {Regen: true, Instr: true, Race: true},
	"regenplain": {Regen: true},
}

const (
	ruleSeq  = "seeded random call histories (phases of growth and shrinkage; universes of 1..160 values with extremes, clusters and equal-but-distinguishable values; generated tower heights) on every constructor and element type, compared call by call with a reference model; "
	ruleConc = "seeded random programs of 2-4 goroutines on a small set, run under a generated schedule (switches at generated synchronisation points or statements, generated tower heights) on the instrumented code; "
	ruleBusy = "larger programs (2-8 goroutines, up to 240 calls, 2-48 values) under dense generated schedules (20-400 switches), and programs that add, remove or replace runs of up to 120 neighbouring values one after the other while others read; "
	ruleReal = "the same kind of programs on real goroutines, each repeated, without control over the schedule; "
	ruleGuid = "programs and schedules made by small changes from ones that reached something new (a statement executed more often within one call than before, a switch between two new places; every worker keeps its own collection), one in five drawn afresh as in the other parts; "
	ntUpd    = "non-trivial: a successful Add, a successful Remove, and a duplicate or repeated Add"
	ntIter   = "non-trivial: at least two successful Adds and one successful Remove"
	ntConc   = "non-trivial: two calls of different goroutines overlap, one of them a successful update, on the same value or with the other one an iteration or Len"
)

// Props lists the parts of each property, in the order in which they run.
var Props = map[string][]Part{
	"C01": {
		{Name: "seq", Build: "instr", Quick: 600000, Thorough: 20000000, Rule: ruleSeq + ntUpd},
		{Name: "large", Build: "instr", Quick: 800, Thorough: 30000, Rule: "as above with 750..3000 values; " + ntUpd},
		{Name: "native", Build: "plain", Quick: 300000, Thorough: 10000000, Rule: "as above on the uninstrumented build with its own random draws; " + ntUpd},
		{Name: "long", Build: "plain", Quick: 144, Thorough: 6000, Rule: "150000 calls on 1..5000 values (random, sweeps up and down, a moving window), uninstrumented; every case is non-trivial"},
		{Name: "big", Build: "plain", Quick: 36, Thorough: 1400, Rule: "sets of up to 140000 elements, four calls per value, uninstrumented; every case is non-trivial"},
		{Name: "huge", Build: "plain", Quick: 36, Thorough: 72, Rule: "sets of 600000 (thorough 3000000) elements, filled and emptied in generated orders, every call checked, uninstrumented; every case is non-trivial"},
	},
	"C02": {
		{Name: "seq", Build: "instr", Quick: 400000, Thorough: 12000000, Rule: ruleSeq + "every iteration is compared with the model, with stops at every position; " + ntIter},
		{Name: "large", Build: "instr", Quick: 800, Thorough: 30000, Rule: "as above with 750..3000 values; " + ntIter},
		{Name: "native", Build: "plain", Quick: 300000, Thorough: 10000000, Rule: "as above on the uninstrumented build; " + ntIter},
		{Name: "long", Build: "plain", Quick: 144, Thorough: 6000, Rule: "150000 calls on 1..5000 values (random, sweeps up and down, a moving window), uninstrumented; every case is non-trivial"},
		{Name: "big", Build: "plain", Quick: 36, Thorough: 1400, Rule: "sets of up to 140000 elements, four calls per value, uninstrumented; every case is non-trivial"},
		{Name: "sizes", Build: "plain", Quick: 360, Thorough: 20000, Rule: "sets grown to 270..70000 elements and emptied again in generated orders; at every size up to 40 and at round sizes (powers of two and their neighbours, multiples of 4, 10, 32, 100, 256, 1000, 4096, 10000) they are iterated in full, from starts that leave a round number of elements, and stopped after a round number of visits; every case is non-trivial"},
		{Name: "huge", Build: "plain", Quick: 36, Thorough: 72, Rule: "sets of 600000 (thorough 3000000) elements, filled and emptied in generated orders, every call checked, uninstrumented; every case is non-trivial"},
	},
	"C03": {
		{Name: "seq", Build: "instr", Quick: 400000, Thorough: 12000000, Rule: ruleSeq + "every iteration is compared with the model, from every kind of start; " + ntIter},
		{Name: "large", Build: "instr", Quick: 800, Thorough: 30000, Rule: "as above with 750..3000 values; " + ntIter},
		{Name: "native", Build: "plain", Quick: 300000, Thorough: 10000000, Rule: "as above on the uninstrumented build; " + ntIter},
		{Name: "long", Build: "plain", Quick: 144, Thorough: 6000, Rule: "150000 calls on 1..5000 values (random, sweeps up and down, a moving window), uninstrumented; every case is non-trivial"},
		{Name: "big", Build: "plain", Quick: 36, Thorough: 1400, Rule: "sets of up to 140000 elements, four calls per value, uninstrumented; every case is non-trivial"},
		{Name: "sizes", Build: "plain", Quick: 360, Thorough: 20000, Rule: "sets grown to 270..70000 elements and emptied again in generated orders; at every size up to 40 and at round sizes (powers of two and their neighbours, multiples of 4, 10, 32, 100, 256, 1000, 4096, 10000) they are iterated in full, from starts that leave a round number of elements, and stopped after a round number of visits; every case is non-trivial"},
		{Name: "huge", Build: "plain", Quick: 36, Thorough: 72, Rule: "sets of 600000 (thorough 3000000) elements, filled and emptied in generated orders, every call checked, uninstrumented; every case is non-trivial"},
	},
	"C04": {
		{Name: "values", Build: "instr", Quick: 1500000, Thorough: 50000000, Rule: "histories over 2..60 values chosen for their order relations (equal-but-distinguishable values, NaN payloads, signed zeros, neighbouring floats, extreme integers, byte strings, coarse orders) on every constructor; the oracle order is written independently; non-trivial: a duplicate Add on a universe with equal but distinguishable values, or two Adds and a lookup"},
		{Name: "native", Build: "plain", Quick: 600000, Thorough: 20000000, Rule: "as above on the uninstrumented build"},
	},
	"C05": {
		{Name: "schedules", Build: "instr", Quick: 2200000, Thorough: 80000000, Rule: ruleConc + "each value's history is searched for a linearization; " + ntConc},
		{Name: "busy", Build: "instr", Quick: 60000, Thorough: 3000000, Rule: ruleBusy + ntConc},
		{Name: "guided", Build: "instr", Quick: 200000, Thorough: 6000000, Rule: ruleGuid + ntConc},
		{Name: "parallel", Build: "plain", Quick: 12000, Thorough: 600000, Real: true, Procs: 3, Rule: ruleReal + ntConc},
	},
	"C06": {
		{Name: "schedules", Build: "instr", Quick: 2200000, Thorough: 80000000, Rule: ruleConc + "iterations are observations of every value in their scope and must fit into its history; " + ntConc},
		{Name: "busy", Build: "instr", Quick: 60000, Thorough: 3000000, Rule: ruleBusy + ntConc},
		{Name: "guided", Build: "instr", Quick: 200000, Thorough: 6000000, Rule: ruleGuid + ntConc},
		{Name: "parallel", Build: "plain", Quick: 12000, Thorough: 600000, Real: true, Procs: 3, Rule: ruleReal + ntConc},
	},
	"C07": {
		{Name: "schedules", Build: "instr", Quick: 2200000, Thorough: 80000000, Rule: ruleConc + "every Len is bounded by the completed and pending updates; " + ntConc},
		{Name: "busy", Build: "instr", Quick: 60000, Thorough: 3000000, Rule: ruleBusy + ntConc},
		{Name: "guided", Build: "instr", Quick: 200000, Thorough: 6000000, Rule: ruleGuid + ntConc},
		{Name: "parallel", Build: "plain", Quick: 12000, Thorough: 600000, Real: true, Procs: 3, Rule: ruleReal + ntConc},
	},
	"C08": {
		{Name: "schedules", Build: "instr", Quick: 1800000, Thorough: 70000000, Rule: ruleConc + "successes per value are balanced against all final observers, then the set is driven through every operation; " + ntConc},
		{Name: "busy", Build: "instr", Quick: 40000, Thorough: 2000000, Rule: ruleBusy + ntConc},
		{Name: "guided", Build: "instr", Quick: 200000, Thorough: 6000000, Rule: ruleGuid + ntConc},
		{Name: "contention", Build: "plain", Quick: 5000, Thorough: 20000, Real: true, Procs: 2, Rule: "2-6 real goroutines do 600 random Adds and Removes each on 1-64 values; non-trivial: at least two goroutines succeeded on the same value"},
	},
	"C09": {
		{Name: "schedules", Build: "instr", Quick: 2200000, Thorough: 80000000, Rule: ruleConc + "locks are modelled, so deadlock is exact and endless retry is a step bound under a fair scheduler; afterwards every value is added, removed and visited; " + ntConc},
		{Name: "busy", Build: "instr", Quick: 60000, Thorough: 3000000, Rule: ruleBusy + ntConc},
		{Name: "guided", Build: "instr", Quick: 200000, Thorough: 6000000, Rule: ruleGuid + ntConc},
	},
	"C10": {
		{Name: "stopped", Build: "instr", Quick: 2200000, Thorough: 80000000, Rule: ruleConc + "all other goroutines are stopped for good from a generated step of the read on; its own steps are bounded; " + ntConc},
		{Name: "busy", Build: "instr", Quick: 60000, Thorough: 3000000, Rule: ruleBusy + ntConc},
		{Name: "guided", Build: "instr", Quick: 200000, Thorough: 6000000, Rule: ruleGuid + ntConc},
	},
	"C11": {
		{Name: "schedules", Build: "race", Quick: 300000, Thorough: 9000000, Rule: ruleConc + "under the race detector, from which the scheduler's own synchronisation is hidden; " + ntConc},
		{Name: "busy", Build: "race", Quick: 20000, Thorough: 600000, Rule: ruleBusy + ntConc},
		{Name: "guided", Build: "race", Quick: 30000, Thorough: 1000000, Rule: ruleGuid + ntConc},
		{Name: "publication", Build: "race", Quick: 100000, Thorough: 3000000, Rule: "as above with values written right before their Add and read by whoever meets them; " + ntConc},
		{Name: "parallel", Build: "plainrace", Quick: 6000, Thorough: 300000, Real: true, Procs: 3, Rule: ruleReal + "under the race detector; " + ntConc},
	},
	"C12": {
		{Name: "heights", Build: "instr", Quick: 80000, Thorough: 2500000, Rule: "seeded random histories, each run under 13 assignments of the random draws (all-minimal, all-maximal, beyond the maximum, monotone, mixed, random) and compared call by call with the model; non-trivial: at least three successful Adds"},
		{Name: "schedules", Build: "instr", Quick: 600000, Thorough: 20000000, Rule: ruleConc + "with extreme tower heights; " + ntConc},
		{Name: "busy", Build: "instr", Quick: 30000, Thorough: 1000000, Rule: ruleBusy + ntConc},
		{Name: "guided", Build: "instr", Quick: 120000, Thorough: 5000000, Rule: ruleGuid + ntConc},
	},
	"C13": {
		{Name: "cost", Build: "instr", Quick: 720, Thorough: 2400, Rule: "sets of 2^6 and 2^15 (thorough 2^18) elements filled in generated orders, with generated churn; 300 probes per operation; the oracle compares executed statements (and, for NewFunc, comparisons); every case is non-trivial"},
		{Name: "deep", Build: "instr", Quick: 36, Thorough: 288, Rule: "as above with up to 2^20 elements, without churn; every case is non-trivial"},
	},
	"C14": {
		{Name: "seq", Build: "instr", Quick: 400000, Thorough: 12000000, Rule: "interleaved histories on 2-4 sets of the same and different types, each compared with its own model; a deviation that a set shows alone, too, is not counted; non-trivial: several successful Adds and a successful Remove"},
		{Name: "schedules", Build: "instr", Quick: 1200000, Thorough: 40000000, Rule: "goroutines with a set of their own each, under a generated schedule; non-trivial: the schedule switches between them in mid-course"},
		{Name: "parallel", Build: "plain", Quick: 12000, Thorough: 600000, Real: true, Procs: 2, Rule: "2-8 real goroutines make 200-1000 random calls each on sets of their own (mostly of one type, with the same values), compared call by call with a model; every case that the sets pass one at a time is non-trivial"},
	},
	"C15": {
		{Name: "seq", Build: "instr", Quick: 600000, Thorough: 20000000, Rule: "iterations whose callbacks add, remove and look up the visited value, its neighbours or others, and iterate again (two levels); non-trivial: a callback made a call"},
		{Name: "schedules", Build: "instr", Quick: 800000, Thorough: 25000000, Rule: ruleConc + "most iterations update the set from their callbacks; " + ntConc},
		{Name: "busy", Build: "instr", Quick: 30000, Thorough: 1500000, Rule: ruleBusy + "most iterations update the set from their callbacks; " + ntConc},
		{Name: "guided", Build: "instr", Quick: 120000, Thorough: 5000000, Rule: ruleGuid + ntConc},
	},
	"C16": {
		{Name: "seq", Build: "instr", Quick: 700000, Thorough: 20000000, Rule: "histories in which callbacks panic or call Goexit and the less function panics at a generated comparison; non-trivial: a fault was injected"},
		{Name: "schedules", Build: "instr", Quick: 700000, Thorough: 20000000, Rule: ruleConc + "half of the iterations panic in a callback; " + ntConc},
		{Name: "busy", Build: "instr", Quick: 30000, Thorough: 1500000, Rule: ruleBusy + "half of the iterations panic in a callback; " + ntConc},
		{Name: "guided", Build: "instr", Quick: 120000, Thorough: 5000000, Rule: ruleGuid + ntConc},
		{Name: "storm", Build: "plain", Quick: 1440, Thorough: 60000, Rule: "20..3000 panicking or exiting callbacks and panicking comparisons on one set, then every operation, uninstrumented; non-trivial: a fault was injected"},
	},
	"C17": {
		{Name: "release", Build: "instr", Quick: 40000, Thorough: 1200000, Rule: "histories with heap values made afresh for every Add; garbage collections in between and at the end; weak pointers tell what is reachable; non-trivial: at least two removals"},
		{Name: "schedules", Build: "instr", Quick: 60000, Thorough: 2000000, Rule: ruleConc + "afterwards exactly the present values are reachable, and none after removing everything; non-trivial: the schedule switches in mid-course"},
		{Name: "growth", Build: "plain", Quick: 900, Thorough: 7200, Rule: "60000 Adds and Removes of 1-300 random or ever new values on every set type, or 3000 sets made, filled and dropped; every case is non-trivial"},
	},
	"C18": {
		{Name: "seq", Build: "regen", Quick: 300000, Thorough: 10000000, Rule: "on the package built from freshly generated files: " + ruleSeq + ntIter},
		{Name: "schedules", Build: "regen", Quick: 700000, Thorough: 30000000, Rule: "on the package built from freshly generated files: " + ruleConc + ntConc},
		{Name: "busy", Build: "regen", Quick: 30000, Thorough: 1500000, Rule: ruleBusy + ntConc},
		{Name: "guided", Build: "regen", Quick: 120000, Thorough: 4000000, Rule: ruleGuid + ntConc},
		{Name: "race", Build: "regenrace", Quick: 60000, Thorough: 3000000, Rule: "on the package built from freshly generated files, under the race detector: " + ruleConc + ntConc},
		{Name: "values", Build: "regen", Quick: 150000, Thorough: 5000000, Rule: "on the package built from freshly generated files: as C04; non-trivial: a duplicate Add on a universe with equal but distinguishable values, or two Adds and a lookup"},
		{Name: "heights", Build: "regen", Quick: 12000, Thorough: 500000, Rule: "on the package built from freshly generated files: as C12; non-trivial: at least three successful Adds"},
		{Name: "faults", Build: "regen", Quick: 60000, Thorough: 2000000, Rule: "on the package built from freshly generated files: as C16; non-trivial: a fault was injected"},
		{Name: "long", Build: "regenplain", Quick: 72, Thorough: 3000, Rule: "on the package built from freshly generated files: 150000 calls on 1..5000 values; every case is non-trivial"},
		{Name: "sizes", Build: "regenplain", Quick: 180, Thorough: 10000, Rule: "on the package built from freshly generated files: as C02; every case is non-trivial"},
		{Name: "huge", Build: "regenplain", Quick: 36, Thorough: 36, Rule: "on the package built from freshly generated files: sets of 600000 (thorough 3000000) elements; every case is non-trivial"},
	},
	"C19": {
		{Name: "seq", Build: "i386", Quick: 300000, Thorough: 10000000, Rule: "on the 386 build: " + ruleSeq + ntIter},
		{Name: "large", Build: "i386", Quick: 600, Thorough: 20000, Rule: "as above with 750..3000 values; " + ntIter},
		{Name: "schedules", Build: "i386instr", Quick: 600000, Thorough: 25000000, Rule: "on the 386 build: " + ruleConc + ntConc},
		{Name: "busy", Build: "i386instr", Quick: 30000, Thorough: 1500000, Rule: ruleBusy + ntConc},
		{Name: "guided", Build: "i386instr", Quick: 80000, Thorough: 3000000, Rule: ruleGuid + ntConc},
		{Name: "heights", Build: "i386instr", Quick: 12000, Thorough: 500000, Rule: "on the 386 build: as C12; non-trivial: at least three successful Adds"},
		{Name: "values", Build: "i386", Quick: 150000, Thorough: 5000000, Rule: "on the 386 build: as C04; non-trivial: a duplicate Add on a universe with equal but distinguishable values, or two Adds and a lookup"},
		{Name: "parallel", Build: "i386", Quick: 6000, Thorough: 300000, Real: true, Procs: 3, Rule: "on the 386 build: " + ruleReal + ntConc},
		{Name: "long", Build: "i386", Quick: 72, Thorough: 3000, Rule: "on the 386 build: 150000 calls on 1..5000 values; every case is non-trivial"},
		{Name: "big", Build: "i386", Quick: 36, Thorough: 700, Rule: "on the 386 build: sets of up to 140000 elements, four calls per value; every case is non-trivial"},
		{Name: "sizes", Build: "i386", Quick: 360, Thorough: 20000, Rule: "sets grown to 270..70000 elements and emptied again in generated orders; at every size up to 40 and at round sizes (powers of two and their neighbours, multiples of 4, 10, 32, 100, 256, 1000, 4096, 10000) they are iterated in full, from starts that leave a round number of elements, and stopped after a round number of visits; every case is non-trivial"},
		{Name: "huge", Build: "i386", Quick: 36, Thorough: 36, Rule: "on the 386 build: sets of 600000 (thorough 3000000) elements, filled and emptied in generated orders, every call checked, uninstrumented; every case is non-trivial"},
	},
	"C20": {
		{Name: "variants", Build: "instr", Quick: 200000, Thorough: 6000000, Rule: "the same history on all constructors of one element type, ascending and descending; results and iterations are compared with each other; non-trivial: at least two successful Adds and an iteration"},
	},
	"C21": {
		{Name: "apart", Build: "instr", Quick: 1200000, Thorough: 40000000, Rule: "programs in which goroutines update one group of values (or only read) and are stopped for good wherever they are while another goroutine updates a group of values further on (any values, if the others only read); between the groups lie 10-24 elements, one of them with a tower as high as any of those updated; non-trivial: an update of the second group while another operation is under way"},
		{Name: "guided", Build: "instr", Quick: 150000, Thorough: 5000000, Rule: "as above, with schedules made by small changes from ones that reached something new; non-trivial: an update of the second group while another operation is under way"},
	},
}
