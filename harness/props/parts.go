package props

import (
	"fmt"
	"math/bits"
	"runtime"
	"strings"

	"skipverif/pbt"
	"skipverif/vsched"
)

type genFn = func(r *pbt.Rng, i int) *pbt.Case
type runFn = func(c *pbt.Case, st *pbt.Stats) *pbt.Fail

// only reports failures of the given kinds ("x:" matches every kind starting with x:).
// Other deviations belong to other properties, whose checks report them.
func only(run runFn, kinds ...string) runFn {
	return func(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
		f := run(c, st)
		if f == nil {
			return nil
		}
		for _, k := range kinds {
			if f.Kind == k || strings.HasSuffix(k, ":") && strings.HasPrefix(f.Kind, k) {
				return f
			}
		}
		st.Label("ended by a deviation outside of this property: " + f.Kind)
		return nil
	}
}

// seqRunner runs a sequential case; nt decides whether it was non-trivial.
func seqRunner(opt seqOpt, nt func(r *seqRun) bool) runFn {
	return func(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
		r := newSeqRun(c, st, opt)
		var f *pbt.Fail
		res := vsched.Solo(1<<40, c.Seed, func() { f = r.run() })
		if f == nil {
			f = r.soloFail(res)
		}
		r.labels()
		if nt(r) {
			st.NT()
		}
		return f
	}
}

func concRunner(o concOpt) runFn {
	return func(c *pbt.Case, st *pbt.Stats) *pbt.Fail { return runConc(c, st, o) }
}

// reps repeats a case on real goroutines.
func repeat(run runFn) runFn {
	return func(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
		n := c.X["reps"]
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			if f := run(c, st); f != nil {
				return f
			}
		}
		return nil
	}
}

// real turns a concurrent generator into one for real goroutines: more tasks and
// operations, no plan.
func realGen(prop, name string, f concFocus, reps int, core bool) genFn {
	return func(r *pbt.Rng, i int) *pbt.Case {
		v := pickAll(i)
		if core {
			v = pickCore(i)
		}
		c := genConc(prop, name, r, v, f)
		n := reps
		if r.P(1, 4) {
			c, n = genBusy(prop, name, r, v, f), 1+reps/6
		} else if r.P(1, 12) {
			c, n = genSweep(prop, name, r, v, f), 1+reps/6
		}
		c.Plan = vsched.Plan{}
		c.X = map[string]int{"reps": n}
		return c
	}
}

func concGen(prop, name string, f concFocus) genFn {
	return func(r *pbt.Rng, i int) *pbt.Case { return genConc(prop, name, r, pickCore(i), f) }
}

// busyGen draws larger programs (see genBusy).
func busyGen(prop string, f concFocus) genFn {
	return func(r *pbt.Rng, i int) *pbt.Case {
		switch r.W(8, 12, 4) {
		case 0:
			return genSweep(prop, "busy", r, pickCore(i), f)
		case 2:
			return genHostile(prop, "busy", r, pickCore(i), f)
		}
		return genBusy(prop, "busy", r, pickCore(i), f)
	}
}

func seqGen(prop, name string, m mix) genFn {
	return func(r *pbt.Rng, i int) *pbt.Case { return genSeqCase(prop, name, r, pickAll(i), m) }
}

func largeGen(prop, name string, maxN int, m mix) genFn {
	return func(r *pbt.Rng, i int) *pbt.Case { return genLarge(prop, name, r, pickCore(i), maxN, m) }
}

// Init registers the parts.
func Init() {
	// C01: results of the four basic operations.
	setKinds := []string{"result:", "final:", "panic", "hang", "deadlock"}
	basic := mix{add: 5, rem: 4, has: 3, length: 1}
	updNT := func(r *seqRun) bool { return r.cnt.addT > 0 && r.cnt.remT > 0 && r.cnt.addF+r.cnt.readd > 0 }
	o1 := seqOpt{lenEach: true, obs: obsLen | obsHas, sweep: 16}
	part("C01", "seq", seqGen("C01", "seq", basic), only(seqRunner(o1, updNT), setKinds...))
	part("C01", "large", largeGen("C01", "large", 3000, basic), only(seqRunner(seqOpt{lenEach: true, obs: obsLen | obsHas}, updNT), setKinds...))
	part("C01", "native", seqGen("C01", "native", basic), only(seqRunner(seqOpt{lenEach: true, obs: obsLen | obsHas, sweep: 64}, updNT), setKinds...))

	part("C01", "long", genLong(false), only(runLong, setKinds...))
	part("C01", "huge", genHuge, only(runHuge, setKinds...))
	part("C01", "big", genLong(true), only(runLong, setKinds...))

	// C02, C03: iteration.
	iterMix := mix{add: 6, rem: 4, rng: 4}
	k2 := []string{"iteration:rng", "final:rng", "stop:rng"}
	itNT := func(r *seqRun) bool { return r.cnt.addT > 1 && r.cnt.remT > 0 }
	part("C02", "seq", seqGen("C02", "seq", iterMix), only(seqRunner(seqOpt{obs: obsRange, sweep: 32, around: true}, itNT), k2...))
	part("C02", "large", largeGen("C02", "large", 3000, iterMix), only(seqRunner(seqOpt{obs: obsRange}, itNT), k2...))
	part("C02", "native", seqGen("C02", "native", iterMix), only(seqRunner(seqOpt{obs: obsRange, sweep: 64}, itNT), k2...))
	part("C02", "long", genLong(false), only(runLong, k2...))
	part("C02", "big", genLong(true), only(runLong, k2...))
	part("C02", "sizes", genSizes("C02"), only(runSizes, k2...))
	part("C02", "huge", genHuge, only(runHuge, k2...))
	fromMix := mix{add: 6, rem: 4, rfr: 5}
	k3 := []string{"iteration:rfr", "final:rfr", "stop:rfr"}
	part("C03", "seq", seqGen("C03", "seq", fromMix), only(seqRunner(seqOpt{obs: obsFrom, sweep: 48, around: true}, itNT), k3...))
	part("C03", "large", largeGen("C03", "large", 3000, fromMix), only(seqRunner(seqOpt{obs: obsFrom}, itNT), k3...))
	part("C03", "native", seqGen("C03", "native", fromMix), only(seqRunner(seqOpt{obs: obsFrom, sweep: 64}, itNT), k3...))

	part("C03", "long", genLong(false), only(runLong, k3...))
	part("C03", "big", genLong(true), only(runLong, k3...))
	part("C03", "sizes", genSizes("C03"), only(runSizes, k3...))
	part("C03", "huge", genHuge, only(runHuge, k3...))

	// C04: equality and order.
	k4 := []string{"result:add", "result:rem", "result:has", "iteration:", "final:", "panic"}
	c4gen := func(name string) genFn {
		return func(r *pbt.Rng, i int) *pbt.Case {
			v := pickAll(i)
			n := r.In(2, 10)
			if r.P(1, 5) {
				n = r.In(10, 60)
			}
			c := &pbt.Case{Prop: "C04", Part: name, Seed: r.U64(), Slots: []pbt.Slot{genSlot(r, v, n)}}
			c.Setup = genOps(r, r.In(4, 50), len(c.Slots[0].Vals), 1, mix{add: 6, rem: 2, has: 5, rng: 2, rfr: 2})
			return c
		}
	}
	c4nt := func(r *seqRun) bool {
		u := r.us[0]
		return u.NC() < u.N() && r.cnt.addF > 0 || r.cnt.addT >= 2 && r.cnt.hasF+r.cnt.hasT > 0
	}
	part("C04", "values", c4gen("values"), only(seqRunner(seqOpt{}, c4nt), k4...))
	part("C04", "native", c4gen("native"), only(seqRunner(seqOpt{}, c4nt), k4...))

	// C05: linearizability.
	w5 := mix{add: 5, rem: 5, has: 4}
	k5 := []string{"linearizability", "result", "panic", "usable", "final:has"}
	o5 := concOpt{lin: true, sweep: true, obs: obsHas}
	part("C05", "schedules", concGen("C05", "schedules", concFocus{w: w5}), only(concRunner(o5), k5...))
	o5r := o5
	o5r.real = true
	part("C05", "parallel", realGen("C05", "parallel", concFocus{w: w5, maxTasks: 4, maxOps: 8}, 20, true), only(repeat(concRunner(o5r)), k5...))

	part("C05", "busy", busyGen("C05", concFocus{w: w5}), only(concRunner(o5), k5...))
	guided("C05", concFocus{w: w5}, only(concRunner(o5), k5...))
	// C06: iteration under updates.
	w6 := mix{add: 5, rem: 5, rng: 4, rfr: 3}
	k6 := []string{"order", "ghost", "iteration", "stop"}
	part("C06", "schedules", concGen("C06", "schedules", concFocus{w: w6}), only(concRunner(concOpt{iter: true}), k6...))
	part("C06", "parallel", realGen("C06", "parallel", concFocus{w: w6, maxTasks: 4, maxOps: 8}, 20, true), only(repeat(concRunner(concOpt{iter: true, real: true})), k6...))

	part("C06", "busy", busyGen("C06", concFocus{w: w6}), only(concRunner(concOpt{iter: true}), k6...))
	guided("C06", concFocus{w: w6}, only(concRunner(concOpt{iter: true}), k6...))
	// C07: Len.
	w7 := mix{add: 5, rem: 5, length: 5}
	part("C07", "schedules", concGen("C07", "schedules", concFocus{w: w7}), only(concRunner(concOpt{length: true}), "len"))
	part("C07", "parallel", realGen("C07", "parallel", concFocus{w: w7, maxTasks: 4, maxOps: 8}, 20, true), only(repeat(concRunner(concOpt{length: true, real: true})), "len"))

	part("C07", "busy", busyGen("C07", concFocus{w: w7}), only(concRunner(concOpt{length: true}), "len"))
	guided("C07", concFocus{w: w7}, only(concRunner(concOpt{length: true}), "len"))
	// C08: winners and balance.
	w8 := mix{add: 5, rem: 5, has: 1}
	k8 := []string{"winners", "final", "final:", "usable", "deadlock", "livelock", "panic", "hang"}
	part("C08", "schedules", concGen("C08", "schedules", concFocus{w: w8}), only(concRunner(concOpt{tally: true, sweep: true}), k8...))
	part("C08", "contention", genContend, runContend)

	part("C08", "busy", busyGen("C08", concFocus{w: w8}), only(concRunner(concOpt{tally: true, sweep: true}), k8...))
	guided("C08", concFocus{w: w8}, only(concRunner(concOpt{tally: true, sweep: true}), k8...))
	// C09: completion.
	w9 := mix{add: 5, rem: 5, has: 1, length: 1, rng: 1, rfr: 1}
	part("C09", "schedules", concGen("C09", "schedules", concFocus{w: w9, maxTasks: 4}), only(concRunner(concOpt{sweep: true}), "deadlock", "livelock", "panic", "hang"))

	part("C09", "busy", busyGen("C09", concFocus{w: w9, maxTasks: 4}), only(concRunner(concOpt{sweep: true}), "deadlock", "livelock", "panic", "hang"))
	guided("C09", concFocus{w: w9}, only(concRunner(concOpt{sweep: true}), "deadlock", "livelock", "panic", "hang"))
	// C10: wait-free reads.
	w10 := mix{add: 4, rem: 4, has: 5, length: 1, rng: 2, rfr: 3}
	part("C10", "stopped", concGen("C10", "stopped", concFocus{w: w10, excl: true}), only(concRunner(concOpt{wf: true}), "blocked", "steps"))

	part("C10", "busy", busyGen("C10", concFocus{w: w10, excl: true}), only(concRunner(concOpt{wf: true}), "blocked", "steps"))
	guided("C10", concFocus{w: w10, excl: true}, only(concRunner(concOpt{wf: true}), "blocked", "steps"))
	// C21: stalled operations.
	part("C21", "apart", genApart, runApart(only(concRunner(concOpt{apart: true}), "blocked", "steps")))
	guidedPlans("C21", genApart, runApart(only(concRunner(concOpt{apart: true}), "blocked", "steps")))
	// C11: races and publication.
	w11 := mix{add: 5, rem: 5, has: 4, length: 2, rng: 3, rfr: 2}
	k11 := []string{"race", "publication"}
	part("C11", "schedules", concGen("C11", "schedules", concFocus{w: w11}), only(concRunner(concOpt{race: true}), k11...))
	ptr := ByName("NewFunc[*item]")
	part("C11", "publication", func(r *pbt.Rng, i int) *pbt.Case {
		return genConc("C11", "publication", r, ptr, concFocus{w: w11, freshPtr: true})
	}, only(concRunner(concOpt{race: true, publish: true}), k11...))
	part("C11", "parallel", realGen("C11", "parallel", concFocus{w: w11, maxTasks: 4, maxOps: 8}, 3, true), only(repeat(concRunner(concOpt{race: true, real: true})), k11...))

	part("C11", "busy", busyGen("C11", concFocus{w: w11}), only(concRunner(concOpt{race: true}), k11...))
	guided("C11", concFocus{w: w11}, only(concRunner(concOpt{race: true}), k11...))
	// C12: heights.
	part("C12", "heights", genHeights, runHeights)
	w12 := mix{add: 6, rem: 5, has: 3}
	part("C12", "schedules", concGen("C12", "schedules", concFocus{w: w12}), only(concRunner(concOpt{tally: true, sweep: true}), "winners", "final", "final:", "usable", "panic", "hang", "deadlock", "livelock"))

	part("C12", "busy", busyGen("C12", concFocus{w: w12}), only(concRunner(concOpt{tally: true, sweep: true}), "winners", "final", "final:", "usable", "panic", "hang", "deadlock", "livelock"))
	guided("C12", concFocus{w: w12}, only(concRunner(concOpt{tally: true, sweep: true}), "winners", "final", "final:", "usable", "panic", "hang", "deadlock", "livelock"))
	// C13: cost.
	part("C13", "cost", genCost, runCost)
	part("C13", "deep", genCostDeep, runCost)

	// C14: isolation.
	part("C14", "seq", genIsoSeq, runIsoSeq)
	part("C14", "schedules", genIsoConc, runIsoConc)
	part("C14", "parallel", genIsoPar, repeat(runIsoPar))

	// C15: callbacks that use the set.
	part("C15", "seq", genNested, only(seqRunner(seqOpt{}, func(r *seqRun) bool { return r.cnt.subs > 0 }), "result:", "iteration:", "stop:", "final:", "panic", "hang", "deadlock"))
	w15 := mix{add: 3, rem: 3, has: 1, rng: 4, rfr: 4}
	part("C15", "schedules", concGen("C15", "schedules", concFocus{w: w15, nested: 70}), only(concRunner(concOpt{iter: true, lin: true, sweep: true}),
		"order", "ghost", "iteration", "stop", "linearizability", "deadlock", "livelock", "panic", "hang", "usable", "final", "final:"))

	part("C15", "busy", busyGen("C15", concFocus{w: w15, nested: 70}), only(concRunner(concOpt{iter: true, lin: true, sweep: true}),
		"order", "ghost", "iteration", "stop", "linearizability", "deadlock", "livelock", "panic", "hang", "usable", "final", "final:"))
	guided("C15", concFocus{w: w15, nested: 70}, only(concRunner(concOpt{iter: true, lin: true, sweep: true}),
		"order", "ghost", "iteration", "stop", "linearizability", "deadlock", "livelock", "panic", "hang", "usable", "final", "final:"))
	// C16: panics.
	part("C16", "seq", genFaults, runFaults)
	part("C16", "storm", genStorm, runStorm)
	w16 := mix{add: 4, rem: 4, has: 1, rng: 3, rfr: 3}
	part("C16", "schedules", concGen("C16", "schedules", concFocus{w: w16, faults: true}), runFaultConc)

	part("C16", "busy", busyGen("C16", concFocus{w: w16, faults: true}), runFaultConc)
	guided("C16", concFocus{w: w16, faults: true}, runFaultConc)
	// C17: memory.
	part("C17", "release", genRelease, runRelease)
	part("C17", "schedules", genReleaseConc, runReleaseConc)
	part("C17", "growth", genGrowth, runGrowth)

	// C18: regenerated code.
	all := mix{add: 6, rem: 4, has: 2, length: 1, rng: 2, rfr: 2}
	anyKinds := []string{"result", "result:", "final", "final:", "iteration", "iteration:", "stop", "stop:", "panic", "hang", "deadlock", "livelock",
		"linearizability", "order", "ghost", "len", "winners", "usable", "blocked", "steps"}
	part("C18", "seq", seqGen("C18", "seq", all), only(seqRunner(seqOpt{sweep: 64}, itNT), anyKinds...))
	w18 := mix{add: 6, rem: 5, has: 3, length: 1, rng: 2, rfr: 2}
	o18 := concOpt{lin: true, iter: true, length: true, tally: true, sweep: true, wf: true}
	part("C18", "schedules", concGen("C18", "schedules", concFocus{w: w18, excl: true}), only(concRunner(o18), anyKinds...))

	part("C18", "busy", busyGen("C18", concFocus{w: w18, excl: true}), only(concRunner(o18), anyKinds...))
	guided("C18", concFocus{w: w18, excl: true}, only(concRunner(o18), anyKinds...))
	part("C18", "race", concGen("C18", "race", concFocus{w: w11}), only(concRunner(concOpt{race: true}), k11...))
	part("C18", "values", c4gen("values"), only(seqRunner(seqOpt{}, c4nt), k4...))
	part("C18", "heights", genHeights, runHeights)
	part("C18", "faults", genFaults, runFaults)
	part("C18", "long", genLong(false), runLong)
	part("C18", "sizes", genSizes("C18"), runSizes)
	part("C18", "huge", genHuge, runHuge)
	// C19: 32 bit.
	part("C19", "seq", seqGen("C19", "seq", all), only(seqRunner(seqOpt{sweep: 64}, itNT), anyKinds...))
	part("C19", "long", genLong(false), runLong)
	part("C19", "big", genLong(true), runLong)
	part("C19", "sizes", genSizes("C19"), runSizes)
	part("C19", "huge", genHuge, runHuge)
	part("C19", "large", largeGen("C19", "large", 3000, all), only(seqRunner(seqOpt{}, itNT), anyKinds...))
	part("C19", "schedules", concGen("C19", "schedules", concFocus{w: w18}), only(concRunner(o18), anyKinds...))
	o19 := o18
	o19.wf, o19.real = false, true
	part("C19", "parallel", realGen("C19", "parallel", concFocus{w: w18, maxTasks: 4, maxOps: 8}, 10, true), only(repeat(concRunner(o19)), anyKinds...))

	part("C19", "busy", busyGen("C19", concFocus{w: w18}), only(concRunner(o18), anyKinds...))
	guided("C19", concFocus{w: w18}, only(concRunner(o18), anyKinds...))
	part("C19", "heights", genHeights, runHeights)
	part("C19", "values", c4gen("values"), only(seqRunner(seqOpt{}, c4nt), k4...))
	// C20: variants against each other.
	part("C20", "variants", genDiff, runDiff)
}

// --- C08: real contention, tallies only ---

func genContend(r *pbt.Rng, i int) *pbt.Case {
	v := pickCore(i)
	n := []int{1, 2, 3, 4, 8, 16, 64}[r.N(7)]
	c := &pbt.Case{Prop: "C08", Part: "contention", Seed: r.U64(), Slots: []pbt.Slot{genSlot(r, v, n)}}
	c.X = map[string]int{"g": []int{2, 3, 4, 4, 6}[r.N(5)], "ops": 600, "add": []int{1, 2, 3}[r.N(3)], "rem": []int{1, 2, 3}[r.N(3)]}
	return c
}

func runContend(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	u := ByName(c.Slots[0].Variant).Universe(c.Slots[0].Vals)
	g, ops := c.X["g"], c.X["ops"]
	set := u.New()
	type tally struct {
		add, rem []int
		_        [64]byte
	}
	ts := make([]tally, g)
	cr := &concRun{c: c, u: u, set: set, o: concOpt{real: true}, bad: make([]*pbt.Fail, g), setM: newModel(u)}
	fns := make([]func(), g)
	for t := range fns {
		ts[t].add, ts[t].rem = make([]int, u.NC()), make([]int, u.NC())
		fns[t] = func() {
			r := pbt.NewRng(c.Seed, uint64(t))
			for i := 0; i < ops; i++ {
				k := r.N(u.N())
				switch r.W(c.X["add"], c.X["rem"]) {
				case 0:
					if set.Add(k) {
						ts[t].add[u.Class(k)]++
					}
				case 1:
					if set.Remove(k) {
						ts[t].rem[u.Class(k)]++
					}
				}
			}
		}
	}
	cr.parallel(fns)
	st.Label("variant:" + c.Slots[0].Variant)
	st.Label(fmt.Sprintf("goroutines:%d", g))
	for _, f := range cr.bad {
		if f != nil {
			return f
		}
	}
	bal := make([]int, u.NC())
	n := 0
	shared := false
	for cl := range bal {
		winners := 0
		for t := range ts {
			bal[cl] += ts[t].add[cl] - ts[t].rem[cl]
			if ts[t].add[cl]+ts[t].rem[cl] > 0 {
				winners++
			}
		}
		if winners > 1 {
			shared = true
		}
		if bal[cl] != 0 && bal[cl] != 1 {
			return fail("winners", "%d goroutines: value %s: successful Adds minus successful Removes is %d", g, u.Str(u.First(cl)), bal[cl])
		}
		n += bal[cl]
	}
	if shared {
		st.NT()
	}
	for cl := range bal {
		if got := set.Contains(u.First(cl)); got != (bal[cl] == 1) {
			return fail("winners", "%d goroutines: value %s: balance %d, but afterwards Contains says %v", g, u.Str(u.First(cl)), bal[cl], got)
		}
	}
	var want, got []int
	for cl, b := range bal {
		if b == 1 {
			want = append(want, cl)
		}
	}
	badv := false
	set.Range(func(k int) bool {
		if k < 0 {
			badv = true
			return false
		}
		got = append(got, u.Class(k))
		return len(got) <= u.NC()+2
	})
	if badv || !equalInts(got, want) {
		return fail("final", "%d goroutines: afterwards Range visits %s, which is not the balance of the successful updates", g, strs(u, got))
	}
	if set.Len() != n {
		return fail("final", "%d goroutines: afterwards Len() = %d, want %d", g, set.Len(), n)
	}
	return sweepCheck(u, set, 0, c.Seed, obsAll)
}

// --- C12: tower heights ---

func genHeights(r *pbt.Rng, i int) *pbt.Case {
	c := genSeqCase("C12", "heights", r, pickAll(i), mix{add: 6, rem: 4, has: 3, length: 1, rng: 1, rfr: 2})
	if len(c.Setup) > 150 {
		c.Setup = c.Setup[:150]
	}
	return c
}

func runHeights(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	type as struct {
		name string
		h    func(i int, op *pbt.Op) int
	}
	all := []as{
		{"as generated", func(i int, op *pbt.Op) int { return op.H }},
		{"all draws say 1", func(int, *pbt.Op) int { return 1 }},
		{"all draws say 16", func(int, *pbt.Op) int { return 16 }},
		{"all draws say 17", func(int, *pbt.Op) int { return 17 }},
		{"all draws say 40", func(int, *pbt.Op) int { return 40 }},
		{"ascending 1..20", func(i int, _ *pbt.Op) int { return 1 + i%20 }},
		{"descending 20..1", func(i int, _ *pbt.Op) int { return 20 - i%20 }},
		{"by value", func(_ int, op *pbt.Op) int { return 1 + bits.TrailingZeros(uint(op.A+1)) }},
		{"1 and 16", func(_ int, op *pbt.Op) int { return 1 + 15*(op.A&1) }},
		{"levels 4 and 5", func(i int, _ *pbt.Op) int { return 4 + i&1 }},
		{"every draw is maximal", func(int, *pbt.Op) int { return vsched.Ones + 1 }},
		{"forty maximal draws in a row", func(int, *pbt.Op) int { return vsched.Ones + 40 }},
		{"random", func(int, *pbt.Op) int { return 0 }},
	}
	var first *pbt.Fail
	adds := 0
	for _, a := range all {
		r := newSeqRun(c, nil, seqOpt{heights: a.h, lenEach: true})
		var f *pbt.Fail
		res := vsched.Solo(1<<40, c.Seed, func() { f = r.run() })
		if f == nil {
			f = r.soloFail(res)
		}
		adds = r.cnt.addT
		if f != nil {
			f.Msg = "with tower heights \"" + a.name + "\": " + f.Msg
			first = f
			break
		}
	}
	st.Label("variant:" + c.Slots[0].Variant)
	if adds >= 3 {
		st.NT()
	}
	return first
}

// --- C13: cost ---

func genCost(r *pbt.Rng, i int) *pbt.Case {
	v := pickCore(i)
	c := &pbt.Case{Prop: "C13", Part: "cost", Seed: r.U64(), Slots: []pbt.Slot{{Variant: v.Name()}}}
	c.X = map[string]int{"lg": 0, "order": r.N(6), "churn": r.N(7), "tmp": []int{1, 1, 2, 3, 3, 7, 15}[r.N(7)],
		"stride": []int{1, 1, 1, 2, 3, 4, 16, 64, 255}[r.N(9)], "offset": []int{0, 0, 1, 3, 7, 64, 255}[r.N(7)]}
	return c
}

// genCostDeep draws filling orders for sets of a million elements.
func genCostDeep(r *pbt.Rng, i int) *pbt.Case {
	v := pickCore(i)
	c := &pbt.Case{Prop: "C13", Part: "deep", Seed: r.U64(), Slots: []pbt.Slot{{Variant: v.Name()}}}
	c.X = map[string]int{"lg": 20, "order": []int{0, 1, 3, 5}[r.N(4)], "churn": 0, "tmp": 0, "stride": 1 + r.N(4), "offset": r.N(16)}
	return c
}

// --- C14: isolation ---

func genIsoSlots(r *pbt.Rng, i int) []pbt.Slot {
	var out []pbt.Slot
	n := r.In(2, 4)
	v := pickCore(i)
	for k := 0; k < n; k++ {
		if k > 0 && r.P(1, 2) {
			v = pickAll(r.N(len(All)))
		}
		s := genSlot(r, v, r.In(1, 10))
		if k > 0 && out[k-1].Variant == v.Name() && r.P(1, 2) {
			s.Vals = append([]string{}, out[k-1].Vals...)
		}
		out = append(out, s)
	}
	return out
}

func genIsoSeq(r *pbt.Rng, i int) *pbt.Case {
	c := &pbt.Case{Prop: "C14", Part: "seq", Seed: r.U64(), Slots: genIsoSlots(r, i)}
	c.Setup = genOps(r, r.In(10, 120), 10, r.In(1, 5), mix{add: 6, rem: 4, has: 2, length: 1, rng: 1, rfr: 1})
	for k := range c.Setup {
		c.Setup[k].S = r.N(len(c.Slots))
		if r.P(1, 40) {
			c.Setup[k].K = pbt.OpNew
		}
	}
	return c
}

// alone extracts the calls on one set.
func alone(c *pbt.Case, s int) *pbt.Case {
	d := &pbt.Case{Prop: c.Prop, Part: c.Part, Seed: c.Seed, Slots: []pbt.Slot{c.Slots[s]}}
	for _, op := range c.Setup {
		if op.S%len(c.Slots) == s {
			op.S = 0
			d.Setup = append(d.Setup, op)
		}
	}
	if s < len(c.Tasks) {
		for _, op := range c.Tasks[s] {
			op.S = 0
			d.Setup = append(d.Setup, op)
		}
	}
	return d
}

// ownFault tells whether some set misbehaves without the others, too: then the
// deviation is not a lack of isolation.
func ownFault(c *pbt.Case) bool {
	for s := range c.Slots {
		d := alone(c, s)
		r := newSeqRun(d, nil, seqOpt{})
		var f *pbt.Fail
		res := vsched.Solo(1<<40, d.Seed, func() { f = r.run() })
		if f != nil || res.Outcome != vsched.OK {
			return true
		}
	}
	return false
}

func runIsoSeq(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	f := seqRunner(seqOpt{sweep: 40}, func(r *seqRun) bool { return r.cnt.addT > 2 && r.cnt.remT > 0 })(c, st)
	if f != nil && ownFault(c) {
		st.Label("ended by a deviation outside of this property: " + f.Kind)
		return nil
	}
	return f
}

func genIsoConc(r *pbt.Rng, i int) *pbt.Case {
	c := &pbt.Case{Prop: "C14", Part: "schedules", Seed: r.U64(), Slots: genIsoSlots(r, i)}
	if len(c.Slots) > 3 {
		c.Slots = c.Slots[:3]
	}
	if r.P(3, 4) { // the same few values in sets of one type
		s := genSlot(r, ByName(c.Slots[0].Variant), r.In(1, 4))
		for k := range c.Slots {
			c.Slots[k] = pbt.Slot{Variant: s.Variant, Vals: append([]string{}, s.Vals...)}
		}
	}
	for range c.Slots {
		c.Tasks = append(c.Tasks, genOps(r, r.In(2, 12), 10, r.In(1, 5), mix{add: 6, rem: r.In(3, 6), has: 2, length: 1, rng: 1, rfr: 1}))
	}
	c.Plan = genPlan(r, c)
	if r.P(1, 3) { // switches between any two statements
		m := []int{3, 6, 12, 25, 50, 100}[r.N(6)]
		c.Plan.Mask, c.Plan.Sw = vsched.MaskAll, nil
		for k := r.In(6, 60); k > 0; k-- {
			c.Plan.Sw = append(c.Plan.Sw, vsched.Switch{Gap: 1 + r.N(m), Pick: r.N(4)})
		}
	}
	return c
}

// runIsoConc gives every goroutine a set of its own: each must see exactly the results
// of its own calls.
func runIsoConc(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	n := len(c.Tasks)
	rs := make([]*seqRun, n)
	fs := make([]*pbt.Fail, n)
	fns := make([]func(), n)
	for t := 0; t < n; t++ {
		d := alone(c, t)
		rs[t] = newSeqRun(d, nil, seqOpt{})
		fns[t] = func() { fs[t] = rs[t].run() }
	}
	res := vsched.Run(c.Plan, 1<<40, c.Seed^0x77, fns)
	st.Label(fmt.Sprintf("goroutines:%d", n))
	if res.Switches > n {
		st.NT()
	}
	var f *pbt.Fail
	for t, x := range fs {
		if x != nil {
			f = fail("isolation", "goroutine %d works on a set of its own (%s), but: %s", t, c.Slots[t].Variant, x.Msg)
			break
		}
	}
	if f == nil && res.Outcome != vsched.OK {
		f = fail("isolation", "goroutines with a set of their own each: %s %s", res.Outcome, res.Msg)
	}
	if f != nil && ownFault(c) {
		st.Label("ended by a deviation outside of this property: " + f.Kind)
		return nil
	}
	return f
}

// genIsoPar: real goroutines, each with sets of its own.
func genIsoPar(r *pbt.Rng, i int) *pbt.Case {
	v := pickAll(i)
	c := &pbt.Case{Prop: "C14", Part: "parallel", Seed: r.U64()}
	s := genSlot(r, v, r.In(1, 6))
	n := []int{2, 2, 3, 4, 6, 8}[r.N(6)]
	for t := 0; t < n; t++ {
		if t > 0 && r.P(1, 8) {
			s = genSlot(r, pickAll(r.N(len(All))), r.In(1, 6))
		}
		c.Slots = append(c.Slots, pbt.Slot{Variant: s.Variant, Vals: append([]string{}, s.Vals...)})
	}
	c.X = map[string]int{"reps": 1, "ops": []int{200, 500, 1000}[r.N(3)], "renew": []int{0, 0, 8, 60}[r.N(4)], "add": r.In(2, 5), "rem": r.In(2, 5)}
	return c
}

// ownSet makes random calls on sets of its own and compares each with the model.
func ownSet(c *pbt.Case, t int) *pbt.Fail {
	u := ByName(c.Slots[t].Variant).Universe(c.Slots[t].Vals)
	set, m := u.New(), newModel(u)
	r := pbt.NewRng(c.Seed, uint64(t))
	for i := 0; i < c.X["ops"]; i++ {
		k := r.N(u.N())
		if n := c.X["renew"]; n > 0 && r.N(n) == 0 {
			set, m = u.New(), newModel(u)
		}
		switch r.W(c.X["add"], c.X["rem"], 2, 1, 1, 1) {
		case 0:
			if got, want := set.Add(k), m.add(k); got != want {
				return fail("isolation", "Add(%s) = %v, want %v (call %d)", u.Str(k), got, want, i)
			}
		case 1:
			if got, want := set.Remove(k), m.rem(k); got != want {
				return fail("isolation", "Remove(%s) = %v, want %v (call %d)", u.Str(k), got, want, i)
			}
		case 2:
			if got, want := set.Contains(k), m.has(k); got != want {
				return fail("isolation", "Contains(%s) = %v, want %v (call %d)", u.Str(k), got, want, i)
			}
		case 3:
			if got, want := set.Len(), m.n; got != want {
				return fail("isolation", "Len() = %v, want %v (call %d)", got, want, i)
			}
		default:
			var got []int
			visit := func(k int) bool {
				got = append(got, k)
				return k >= 0 && len(got) <= u.NC()+2
			}
			want := m.list(0)
			name := "Range"
			if i&1 == 0 {
				set.Range(visit)
			} else {
				name, want = "RangeFrom", m.list(u.Class(k))
				set.RangeFrom(k, visit)
			}
			if !equalInts(got, want) {
				return fail("isolation", "%s visits %s, want %s (call %d)", name, strs(u, got), strs(u, want), i)
			}
		}
	}
	return nil
}

func runIsoPar(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	st.Label(fmt.Sprintf("goroutines:%d", len(c.Slots)))
	for t := range c.Slots {
		var f *pbt.Fail
		if res := vsched.Solo(1<<40, c.Seed, func() { f = ownSet(c, t) }); f != nil || res.Outcome != vsched.OK {
			st.Label("ended by a deviation outside of this property: a set alone")
			return nil
		}
	}
	cr := &concRun{c: c, o: concOpt{real: true}, bad: make([]*pbt.Fail, len(c.Slots))}
	var fns []func()
	for t := range c.Slots {
		fns = append(fns, func() { cr.bad[t] = ownSet(c, t) })
	}
	cr.parallel(fns)
	st.NT()
	for t, f := range cr.bad {
		if f != nil {
			f.Kind, f.Msg = "isolation", fmt.Sprintf("%d goroutines with sets of their own; goroutine %d (%s): %s", len(fns), t, c.Slots[t].Variant, f.Msg)
			return f
		}
	}
	return nil
}

// --- C15: nested calls ---

func genNested(r *pbt.Rng, i int) *pbt.Case {
	v := pickAll(i)
	n := r.In(2, 12)
	if r.P(1, 10) {
		n = r.In(12, 50)
	}
	c := &pbt.Case{Prop: "C15", Part: "seq", Seed: r.U64(), Slots: []pbt.Slot{genSlot(r, v, n)}}
	nv := len(c.Slots[0].Vals)
	style := r.In(0, 5)
	c.Setup = genOps(r, r.In(nv, 3*nv+4), nv, style, mix{add: 8, rem: 2, rng: 2, rfr: 2})
	for k := range c.Setup {
		o := &c.Setup[k]
		if o.K == pbt.OpRange || o.K == pbt.OpRangeFrom {
			o.Sub = genSubs(r, nv, style, 2)
			if r.P(2, 3) {
				o.N = 0
			}
		}
	}
	return c
}

func genSubs(r *pbt.Rng, nv, style, depth int) []pbt.Op {
	var out []pbt.Op
	if r.P(1, 5) {
		out = genSweepSubs(r, nv, style)
	}
	every := r.P(1, 6)
	for k := r.In(1, 6); k > 0; k-- {
		s := pbt.Op{K: []string{pbt.OpAdd, pbt.OpRemove, pbt.OpRemove, pbt.OpContains, pbt.OpLen, pbt.OpRange, pbt.OpRangeFrom}[r.N(7)], At: r.In(1, nv+2)}
		s.Rel = r.P(2, 3)
		if s.Rel {
			s.A = r.In(-2, 2)
		} else {
			s.A = r.N(nv)
		}
		if s.K == pbt.OpAdd {
			s.H = genHeight(r, style)
		}
		if (s.K == pbt.OpRange || s.K == pbt.OpRangeFrom) && depth > 1 && r.P(1, 2) {
			s.Sub = genSubs(r, nv, style, depth-1)
		}
		out = append(out, s)
		if every {
			for at := 1; at <= nv && at < 12; at++ {
				s2 := s
				s2.At = at
				out = append(out, s2)
			}
			break
		}
	}
	return out
}

// --- C16: faults ---

func genFaults(r *pbt.Rng, i int) *pbt.Case {
	v := pickAll(i)
	if r.P(1, 2) {
		for k := i; ; k++ {
			if v = pickAll(k); v.HasFault() {
				break
			}
		}
	}
	n := r.In(2, 14)
	c := &pbt.Case{Prop: "C16", Part: "seq", Seed: r.U64(), Slots: []pbt.Slot{genSlot(r, v, n)}}
	nv := len(c.Slots[0].Vals)
	c.Setup = genOps(r, r.In(nv, 5*nv+10), nv, r.In(0, 5), mix{add: 8, rem: 5, has: 3, rng: 2, rfr: 2})
	for k := range c.Setup {
		o := &c.Setup[k]
		it := o.K == pbt.OpRange || o.K == pbt.OpRangeFrom
		if it && r.P(2, 3) {
			o.F = r.In(1, nv)
			o.G = r.N(2)
			o.N = 0
		} else if !it && v.HasFault() && r.P(1, 3) {
			o.F = 1 + r.Geo(3, 4, 20)
		}
	}
	return c
}

func runFaults(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	var run *seqRun
	f := seqRunner(seqOpt{sweep: 20}, func(r *seqRun) bool { run = r; return r.cnt.faults > 0 })(c, st)
	if f != nil && run.cnt.faults == 0 {
		st.Label("ended by a deviation outside of this property: " + f.Kind)
		return nil
	}
	return f
}

func runFaultConc(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	o := concOpt{lin: true, iter: true, tally: true, length: true, sweep: true}
	f := runConc(c, st, o)
	if f == nil {
		return nil
	}
	// The same case without the panics must pass, or the panics are not the cause.
	d := c.Clone()
	faults := false
	for t := range d.Tasks {
		for k := range d.Tasks[t] {
			if op := &d.Tasks[t][k]; op.F > 0 {
				faults = true
				op.N, op.F = op.F, 0 // stop at the same callback instead
			}
		}
	}
	if !faults || runConc(d, nil, o) != nil {
		st.Label("ended by a deviation outside of this property: " + f.Kind)
		return nil
	}
	return f
}

// --- C20: differential ---

func genDiff(r *pbt.Rng, i int) *pbt.Case {
	fm := Families[mod(i, len(Families))]
	v := fm.Asc[0]
	n := genSize(r)
	c := &pbt.Case{Prop: "C20", Part: "variants", Seed: r.U64(), Slots: []pbt.Slot{genSlot(r, v, n)}, X: map[string]int{"family": mod(i, len(Families))}}
	c.Setup = genOps(r, genLen(r), len(c.Slots[0].Vals), r.In(0, 6), mix{add: 6, rem: 4, has: 3, length: 1, rng: 2, rfr: 3})
	return c
}

type diffSet struct {
	v   Variant
	u   Univ
	s   Set
	idx map[string]int
}

func runDiff(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	fm := Families[c.X["family"]]
	var asc, desc []*diffSet
	mk := func(v Variant) *diffSet {
		d := &diffSet{v: v, u: v.Universe(c.Slots[0].Vals), idx: map[string]int{}}
		for k := 0; k < d.u.N(); k++ {
			d.idx[d.u.Str(k)] = k
		}
		d.s = d.u.New()
		return d
	}
	var f *pbt.Fail
	i := 0
	addT, iters := 0, 0
	res := vsched.Solo(1<<40, c.Seed, func() {
		vsched.Budget(100000)
		for _, v := range fm.Asc {
			asc = append(asc, mk(v))
		}
		for _, v := range fm.Desc {
			desc = append(desc, mk(v))
		}
		ref := asc[0]
		nan := 0 // classes of the ascending set that are NaN (come first in both)
		if fm.NaN && isNaNStr(ref.u.Str(0)) {
			nan = 1
		}
		strOf := func(d *diffSet, ks []int) string {
			var b strings.Builder
			for _, k := range ks {
				if k < 0 {
					b.WriteString("? ")
				} else {
					b.WriteString(d.u.Str(k) + " ")
				}
			}
			return b.String()
		}
		iter := func(d *diffSet, from string, stop int) []int {
			var out []int
			vsched.Budget(20000 + 400*int64(d.u.N()))
			g := func(k int) bool { out = append(out, k); return len(out) != stop && len(out) <= d.u.N()+2 }
			if from == "" {
				d.s.Range(g)
			} else {
				d.s.RangeFrom(d.idx[from], g)
			}
			return out
		}
		for i = range c.Setup {
			op := &c.Setup[i]
			k := mod(op.A, ref.u.N())
			val := ref.u.Str(k)
			switch op.K {
			case pbt.OpRange, pbt.OpRangeFrom:
				iters++
				from := ""
				if op.K == pbt.OpRangeFrom {
					from = val
				}
				want := strOf(ref, iter(ref, from, op.N))
				for _, d := range asc[1:] {
					if got := strOf(d, iter(d, from, op.N)); got != want {
						f = fail("variants", "%s(%s, stop=%d): %s visits [%s], %s visits [%s]", op.K, from, op.N, ref.v.Name(), want, d.v.Name(), got)
						return
					}
				}
				// The mirror image, from the ascending set's full content.
				full := iter(ref, "", 0)
				var mir []int
				bad := false
				for _, x := range full {
					if x < 0 {
						bad = true
					}
				}
				if bad {
					return
				}
				for _, x := range full {
					if ref.u.Class(x) < nan && (from == "" || ref.u.Class(k) < nan) {
						mir = append(mir, x)
					}
				}
				for j := len(full) - 1; j >= 0; j-- {
					x := full[j]
					if ref.u.Class(x) >= nan && (from == "" || ref.u.Class(k) < nan || ref.u.Class(x) <= ref.u.Class(k)) {
						mir = append(mir, x)
					}
				}
				if op.N > 0 && len(mir) > op.N {
					mir = mir[:op.N]
				}
				wantD := strOf(ref, mir)
				for _, d := range desc {
					if got := strOf(d, iter(d, from, op.N)); got != wantD {
						f = fail("variants", "%s(%s, stop=%d): %s visits [%s]; the mirror image of %s is [%s]", op.K, from, op.N, d.v.Name(), got, ref.v.Name(), wantD)
						return
					}
				}
			default:
				var want string
				for n, d := range append(append([]*diffSet{}, asc...), desc...) {
					vsched.Budget(20000 + 400*int64(d.u.N()))
					var got string
					switch op.K {
					case pbt.OpAdd:
						vsched.Height(op.H)
						ok := d.s.Add(d.idx[val])
						vsched.Height(0)
						got = fmt.Sprint(ok)
						if ok && n == 0 {
							addT++
						}
					case pbt.OpRemove:
						got = fmt.Sprint(d.s.Remove(d.idx[val]))
					case pbt.OpContains:
						got = fmt.Sprint(d.s.Contains(d.idx[val]))
					case pbt.OpLen:
						got = fmt.Sprint(d.s.Len())
					}
					if n == 0 {
						want = got
					} else if got != want {
						f = fail("variants", "%s(%s): %s answers %s, %s answers %s", op.K, val, asc[0].v.Name(), want, d.v.Name(), got)
						return
					}
				}
			}
		}
		// Final contents.
		want := strOf(ref, iter(ref, "", 0))
		for _, d := range asc[1:] {
			if got := strOf(d, iter(d, "", 0)); got != want {
				f = fail("variants", "at the end %s holds [%s], %s holds [%s]", ref.v.Name(), want, d.v.Name(), got)
				return
			}
		}
	})
	st.Label("family:" + fm.Name)
	if addT > 1 && iters > 0 {
		st.NT()
	}
	if f == nil && res.Outcome != vsched.OK {
		st.Label("ended by a deviation outside of this property: " + res.Outcome)
		return nil
	}
	if f != nil {
		f.Msg += fmt.Sprintf(" (call %d)", i)
	}
	return f
}

func isNaNStr(s string) bool {
	b := parseHex(s)
	if len(s) <= 10 {
		x := f32from(b)
		return x != x
	}
	x := f64from(b)
	return x != x
}

// --- C17: memory ---

func collect() {
	vsched.ForgetPools()
	for i := 0; i < 2; i++ {
		runtime.GC()
	}
}
