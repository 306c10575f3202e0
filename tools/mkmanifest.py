#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "model-based property testing: generated call histories against a reference model, with shrinking"
CONC = "property-based schedule fuzzing: generated programs under generated schedules on a controlled scheduler"
GUID = "; coverage-guided mutation of programs and schedules"
tech = {
 "C01": SEQ, "C02": SEQ, "C03": SEQ,
 "C04": "property testing over order-sensitive values of every set type against an independently written order",
 "C05": CONC + "; per-value linearizability oracle; plus runs on real goroutines",
 "C06": CONC + "; iterations checked as observations against each value's history; plus runs on real goroutines",
 "C07": CONC + "; moment-by-moment oracle for Len; plus runs on real goroutines",
 "C08": CONC + "; conservation oracle per value; plus contention runs on real goroutines",
 "C09": CONC + "; exact deadlock and bounded-progress oracle on modelled locks",
 "C10": CONC + "; all other goroutines stopped for good, own steps of the read bounded",
 "C11": CONC + " under the race detector; plus runs on real goroutines",
 "C12": "property testing with generated random draws (tower heights) against a reference model",
 "C13": "property testing of executed statements over generated contents (metamorphic: size against cost)",
 "C14": "model-based property testing of several sets at once against separate models",
 "C15": "model-based property testing with generated calls inside of callbacks; schedule fuzzing of the same",
 "C16": "property testing with injected panics and Goexit; schedule fuzzing of the same",
 "C17": "property testing of reachability (weak pointers) over generated histories and schedules",
 "C18": "model-based property testing and schedule fuzzing of the regenerated package",
 "C19": "model-based property testing and schedule fuzzing of the 386 build",
 "C20": "differential property testing across the constructors of each element type",
 "C21": CONC + "; the other goroutines stopped for good, own steps of the update bounded",
}
for p in ("C05","C06","C07","C08","C09","C10","C11","C12","C15","C16","C18","C19","C21"):
    tech[p] += GUID
seqnote = "A sample of generated histories over every constructor; finds a deviation that some generated history shows. Trusts the reference model, the Go toolchain and, for instrumented parts, the statement-level instrumentation (an uninstrumented part runs too)."
concnote = "A sample of generated programs and schedules (2-4 goroutines, larger ones with up to 8); executions under the scheduler are sequentially consistent, with switches at every statement and synchronisation operation. Trusts the oracle, the instrumentation and the modelled locks; absence of failures is evidence, not proof."
note = {p: concnote for p in ("C05","C06","C07","C08","C09","C10","C12","C14","C15","C16","C18","C19","C21")}
note["C11"] = concnote + " Races are those the race detector sees in the explored schedules, with the scheduler's own synchronisation hidden from it."
note["C13"] = "Counts executed statements of the real code (no wall clock); the threshold separates logarithmic from linear cost at the generated sizes. Trusts the statement counters."
note["C17"] = "Reachability as the Go garbage collector reports it through weak pointers after forced collections, on generated histories."
checks = []
for i in range(1, 22):
    p = f"C{i:02d}"
    checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                   "technique": tech[p], "level": "exploration", "level_note": note.get(p, seqnote)})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the checks instrument a copy of the current sources and build it with 'go build -overlay'. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
