#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
GEN = ["gen_func.go","gen_ordered.go","gen_ordereddesc.go","gen_int.go","gen_intdesc.go","gen_int32.go","gen_int32desc.go","gen_int64.go","gen_int64desc.go","gen_uint.go","gen_uintdesc.go","gen_uint32.go","gen_uint32desc.go","gen_uint64.go","gen_uint64desc.go","gen_string.go","gen_stringdesc.go"]
ALL = ["skipset.go"] + GEN + ["skipset.tpl"]
def m(name, where): return {"name": name, "where": where}
def st(name, meaning, where): return {"name": name, "meaning": meaning, "where": where}
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": mech, "observe_at": observe, "hook_needed": hook}})

prop("C01", "Add, Remove, Contains and Len agree with a mathematical set",
 "For every constructor and every sequence of calls made by one goroutine, Add returns true exactly when the value was absent, Remove returns true exactly when it was present, Contains tells whether it is present, and Len is the number of distinct values present. A call that returns false leaves the set unchanged, Contains and Len never change it, and every call returns without panicking.",
 ["inputs","histories","configurations"], "every constructor, every value of the element type (zero value, extremes, any string), every finite call sequence and every set size",
 "The tests run a few fixed sequences on int and string sets only; the int32, uint, uint32, uint64 and stringdesc sets are compiled but never called, and the number of sequences and values is unbounded.",
 ALL, [m("search down the levels, then locate at level 0", "skipset.tpl findNodeAdd/findNodeRemove/Contains"), m("length counter updated by successful updates only", "skipset.tpl Add/Remove")],
 ["return values of Add, Remove, Contains, Len"], [st("present","abstract set of values","the level-0 list reachable from the header"), st("length","element count","field length of each set type")])

prop("C02", "Range visits exactly the elements, once each, in the set's order",
 "With no concurrent updates, Range calls the function once for each element of the set and for nothing else, in the order of the constructor (ascending, descending, or as given by the less function). It stops right after the first call that returns false, visits nothing on an empty set, and leaves the set unchanged.",
 ["inputs","histories","configurations"], "every constructor, every reachable set content and every stopping position",
 "Tests iterate a handful of fixed contents of int/string/float sets and never check an early stop or the descending typed sets' full content after removals.",
 ALL, [m("sorted level-0 linked list", "skipset.tpl Range"), m("skip of elements not fully inserted or already removed", "skipset.tpl Range")], ["sequence of values passed to the callback"])

prop("C03", "RangeFrom visits exactly the elements at or after the start value",
 "With no concurrent updates, RangeFrom(start, f) visits exactly the suffix of the Range sequence that does not come before start in the set's order, whether or not start is itself an element, and whatever start is. It stops right after the first call of f that returns false and leaves the set unchanged.",
 ["inputs","histories","configurations"], "every constructor, every reachable set content, every start value (present, absent, removed, below all, above all, between) and every stopping position",
 "TestRangeFrom samples only int64 sets, without removals or early stops.",
 ALL, [m("top-down search for the first element not before start, then level-0 walk", "skipset.tpl RangeFrom")], ["sequence of values passed to the callback"])

prop("C04", "Equality and order of elements are those of the constructor, at every value",
 "Two values are the same element exactly when neither orders before the other: NewFunc uses only its less function, integer sets compare the whole range of their type, string sets compare bytewise, and the Float32/Float64 sets treat all NaNs as one value that comes first in both the ascending and the descending set, and -0 and +0 as one value. Adding an equal value returns false and keeps the value that was stored first; iteration yields that stored value unaltered, and removing through any equal value removes it.",
 ["inputs","configurations"], "every pair of values of each element type and every strict weak ordering, including orderings with large equivalence classes and non-comparable element types",
 "Tests use one NaN pattern, small positive numbers and total orders over distinguishable values; equivalence classes, signed zeros, extreme integers, adjacent floats and byte-level string differences are not tried.",
 ["skipset.go","util.go"] + GEN + ["skipset.tpl"], [m("float constructors' less functions", "skipset.go NewFloat32..NewFloat64Desc"), m("equality as absence of order", "gen_func.go"), m("Less/Equal template functions", "gen.go")], ["results of Add/Remove/Contains and the exact values given to iteration callbacks"])

prop("C05", "Add, Remove and Contains are linearizable",
 "In every concurrent execution, the results of Add, Remove and Contains are those of some sequential order of the calls on a mathematical set, in which a call that returned before another was invoked comes first. This holds for every constructor, and calls made after all others returned see that order's final content.",
 ["schedules","histories","configurations"], "all interleavings of any number of goroutines calling the three operations on any values",
 "The tests run whatever interleavings the Go scheduler happens to produce, check only aggregate counts afterwards, and never record a history; windows of a few instructions are not hit.",
 ALL + ["flag.go","oparray.go"], [m("lock predecessors, validate, link bottom-up, then publish as fully linked", "skipset.tpl Add"), m("mark under the element's lock, then unlink top-down", "skipset.tpl Remove"), m("membership decided by fully linked and not marked", "skipset.tpl Contains")],
 ["invocation/response history with results"], [st("flags","inserted completely / logically removed","flag.go"), st("next","per-level successor pointers","oparray.go")])

prop("C06", "Iteration during concurrent updates is ordered, without ghosts or misses",
 "While other goroutines add and remove, Range and RangeFrom still visit strictly ordered values without duplicates and never outside the requested range. Every visited value was in the set at some moment of the iteration, and every value in scope that was in the set throughout the iteration (and does not lie beyond an early stop) is visited.",
 ["schedules","histories","configurations"], "all interleavings of iterations with updates, including updates of the element being visited",
 "The tests check only that concurrent iteration output increases, on random interleavings; ghosts and misses are never checked.",
 ALL, [m("removed elements keep their successor pointers frozen", "skipset.tpl Remove"), m("per-element state test before the callback", "skipset.tpl Range/RangeFrom")], ["values passed to callbacks against the recorded update history"])

prop("C07", "Len stays consistent under concurrency and is never negative",
 "In every concurrent execution, the result of each Len call is not negative and is, at some moment during the call, the number of elements in the set, give or take the successful Add and Remove calls in progress at that moment (each counted or not yet counted; calls that change nothing count for nothing). Whenever no Add or Remove is in progress, Len is exactly the number of elements.",
 ["schedules","histories","configurations"], "all interleavings of Add, Remove and Len calls",
 "The tests read Len only after all goroutines finished; intermediate readings and rare interleavings of the counter updates are not examined.",
 ALL, [m("atomic counter updates by the successful updater", "skipset.tpl Add/Remove")], ["value of every Len call against the recorded history"], [st("length","element count","field length of each set type")])

prop("C08", "Competing updates have exactly one winner and the balance adds up",
 "When several goroutines race to add the same absent value, or to remove the same present value, exactly one of them is told true. Over any concurrent execution, the number of successful Adds of a value minus the number of successful Removes of it is 1 if the value is finally present and 0 otherwise, and afterwards Contains, Range, RangeFrom and Len all report that same final content and the set is fully usable.",
 ["schedules","histories","configurations"], "all interleavings, any number of goroutines and values, long runs under heavy contention",
 "TestTypes checks only one aggregate count of one random mix; it does not account per value nor compare all observers of the final content.",
 ALL, [m("lock + re-validation before linking", "skipset.tpl Add"), m("re-check of the mark under the element lock", "skipset.tpl Remove")], ["per-value tallies of true results; final Contains, Range, RangeFrom, Len"])

prop("C09", "Every operation completes: no deadlock, livelock or leaked lock",
 "Under every fair schedule, every call of every operation returns, without deadlock, endless retry or panic, whatever the other goroutines are doing. After all calls have returned no lock is left held: any later operation on any value also completes.",
 ["schedules","histories","configurations"], "all fair interleavings of any mix of operations on any values",
 "A test run that happens not to hang says nothing about other interleavings; lock-order cycles and leaked locks on retry paths need specific schedules.",
 ALL, [m("locks taken in decreasing element order", "skipset.tpl Add/Remove"), m("unlock of exactly the locked predecessors on retry", "skipset.tpl unlock*")], ["completion of every call within a step bound under a fair controlled scheduler"])

prop("C10", "Contains, Range and RangeFrom are wait-free",
 "Contains, Len, Range and RangeFrom finish in a number of their own steps bounded by the number of distinct values they can meet, whatever other goroutines do. In particular they never wait for a lock or for another goroutine's progress, even when other goroutines are stopped forever in the middle of an Add or Remove.",
 ["schedules","fault_sequences","configurations"], "every point at which every other goroutine may be stopped, and every interleaving before it",
 "Tests cannot stop a goroutine inside an operation, so a reader that waits for an updater always appears to succeed.",
 ALL, [m("lock-free traversal with a single state test per element", "skipset.tpl Contains/Range/RangeFrom")], ["number of the reader's own steps; lock waits of the reader"])

prop("C11", "No data races, and added elements are safely published",
 "No use of the public operations from any number of goroutines contains a data race in the sense of the Go memory model. Whatever a goroutine wrote into a value before adding it is visible to every goroutine that meets the value through the set.",
 ["schedules","histories","configurations"], "all interleavings of all operations; race judged by the happens-before order, not by timing",
 "Running the tests with -race only sees the accesses that collide in the sampled interleavings, mostly on int and string sets.",
 ALL + ["flag.go","oparray.go"], [m("atomic pointer and flag accesses; plain accesses only under the lock or before publication", "oparray.go, flag.go, skipset.tpl")], ["happens-before race detector on generated schedules"])

prop("C12", "Results do not depend on the set's internal randomness",
 "The observable results of any sequence of calls (return values, iteration order, Len) are the same whatever random numbers are drawn internally, including the most improbable ones. No possible random draw makes an operation panic, hang or lose an element.",
 ["inputs","histories","configurations"], "every outcome of the random draws made by Adds, including tallest possible towers and all-equal towers",
 "Random heights above about 8 are practically never drawn in tests (probability 4^-8 and below), and tests never compare runs with different draws.",
 ["util.go","oparray.go"] + ALL, [m("clamped geometric tower height", "util.go randomLevel"), m("raise of the list's current height before the search", "skipset.tpl randomlevel"), m("two-part successor array", "oparray.go")], ["results of the same call sequence under different random streams"])

prop("C13", "Search cost grows logarithmically with the number of elements",
 "The average number of elements that Add, Remove, Contains and the start of RangeFrom inspect grows logarithmically with the size of the set, for every constructor and every order of insertion (ascending, descending, random), also after many removals. In particular, no insertion pattern degenerates the set into a linear scan.",
 ["inputs","histories","configurations"], "all sizes and insertion/removal patterns, averaged over probes and random draws",
 "The tests have no cost oracle: a set that degenerates to a linear list passes all of them.",
 ["util.go"] + ALL, [m("geometric tower heights with p=1/4", "util.go"), m("current height follows the tallest tower", "skipset.tpl randomlevel"), m("linking at every level of the tower", "skipset.tpl Add")], ["number of comparisons or search steps per call"])

prop("C14", "Sets are independent of each other",
 "Every constructor call returns a new empty set, and an operation on one set never changes the content, order or results of any other set, of the same or another element type. This also holds when sets are used from different goroutines at the same time.",
 ["inputs","histories","schedules","configurations"], "all interleavings of call sequences on several sets",
 "Tests use one set at a time, or two that never interact observably.",
 ALL, [m("per-set header, counter and height", "skipset.go constructors")], ["results and content of each set compared with running alone"])

prop("C15", "Iteration callbacks may use the set they iterate",
 "A callback of Range or RangeFrom may call any operation on the same set, including adding, removing the visited or any other value, and nested iteration, without deadlock or corruption; each nested call has its normal result. The enclosing iteration continues in strict order, visits every value present throughout, and visits no value that was never in the set during the iteration.",
 ["inputs","histories","schedules"], "all nestings of operations inside callbacks at every position",
 "One test removes the visited element in a callback; adding, removing neighbours, and nested iteration are not tried.",
 ALL, [m("iteration holds no lock while calling back", "skipset.tpl Range/RangeFrom")], ["results of nested calls and the enclosing iteration's values"])

prop("C16", "A callback that panics or exits leaves the set intact",
 "If a callback of Range or RangeFrom panics or ends its goroutine, the set keeps its content and all later operations work normally. If, with no other update in progress, the user's less function panics during an operation, that operation has no effect on the content and all later operations work normally.",
 ["fault_sequences","inputs","histories"], "every call position at which a callback or comparison may panic, in every reachable state",
 "No test injects a panic.",
 ALL, [m("no lock held during callbacks; comparisons happen before locking", "skipset.tpl")], ["results and content after the recovered panic"])

prop("C17", "Removed values are released, present values are kept alive",
 "Once a value has been removed and no operation is in progress, the set no longer keeps it reachable, so it can be garbage collected, and repeated adding and removing does not make a set grow. Every value that is present stays reachable and unaltered through any number of garbage collections. A set that is itself no longer used is collected with everything in it.",
 ["histories","schedules","configurations"], "all histories of additions and removals, sequential or concurrent, with collections at any point",
 "No test looks at reachability or memory after removals, nor forces collections between operations.",
 ALL + ["oparray.go"], [m("removal unlinks at every level", "skipset.tpl Remove"), m("successors held as typed-by-runtime pointers", "oparray.go")], ["weak references to removed values, heap objects, content after collections"])

prop("C18", "Regenerating the code yields a package with the same guarantees",
 "Running the project's code generator succeeds, produces every generated set type for every constructor, and the package built from its output behaves exactly as specified: same sequential results, order and iteration, and the same behaviour under concurrency.",
 ["programs","inputs","schedules"], "every generated variant, all inputs and interleavings",
 "Neither the build nor the tests run the generator: an error in the template or in the generator surfaces only at the next regeneration.",
 ["gen.go","skipset.tpl"], [m("template instantiation per variant", "gen.go main/generate")], ["behaviour of the package rebuilt from the generator's output"])

prop("C19", "Behaviour is the same on 32-bit platforms",
 "Built for a 32-bit platform, all operations work without crashing and give the same results as specified for 64-bit, sequentially and concurrently, over the whole value range of each element type.",
 ["configurations","inputs","schedules"], "32-bit word size and alignment, all inputs and operations",
 "The project's CI and tests run on 64-bit only; alignment faults of 64-bit atomics and int truncation appear only on 32-bit.",
 ALL + ["oparray.go","flag.go","util.go"], [m("64-bit atomic counters placed first in the set structs", "skipset.tpl")], ["results of a 386 build"])

prop("C20", "All variants of a set are interchangeable, and Desc mirrors ascending",
 "For the same element type and call sequence, the typed set, the generic set and the set built from an equivalent less function give identical results and iteration sequences. A descending set gives the same Add/Remove/Contains/Len results as the ascending one, iterates in exactly the reverse order (except that NaN comes first in both float sets), and its RangeFrom visits the elements at or below the start from high to low.",
 ["inputs","histories","configurations"], "all call sequences over all values, all pairs of variants of one element type",
 "Variants are separate copies of generated code; tests call few of them and never compare two on the same history.",
 ALL + ["gen.go"], [m("one template instantiated for 17 types", "gen.go, skipset.tpl"), m("constructors", "skipset.go")], ["call-by-call comparison of variants"])

prop("C21", "A stalled operation holds up nothing but updates next to it",
 "While some goroutines are stopped for any length of time in the middle of an Add or Remove, an Add or Remove of a value elsewhere in the set completes by its own steps and waits for no lock, provided that elements that stay in the set lie between its value and the values of the stalled calls, one of them with a tower at least as tall as those of the nodes that the calls insert or remove. A stalled Contains, Range, RangeFrom (also one whose callback does not return) or Len holds up no operation at all.",
 ["schedules","histories","inputs"], "every point at which the other goroutines may be stopped, every set content, tower heights and values, for every constructor",
 "Tests never stop a goroutine in the middle of an operation; a set-wide or shared lock changes no result and passes all of them.",
 ALL, [m("locks per node, taken on the predecessors only", "skipset.tpl Add/Remove"), m("readers take no locks", "skipset.tpl Contains/Range/RangeFrom")], ["whether an update returns while the other goroutines are stopped"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
