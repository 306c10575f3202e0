package props

import (
	"fmt"
	"runtime"
	"strings"

	"skipverif/pbt"
	"skipverif/vsched"
)

// model is the reference: per class the representative index stored, or -1.
type model struct {
	u    Univ
	pres []int
	n    int
}

func newModel(u Univ) *model {
	m := &model{u: u, pres: make([]int, u.NC())}
	for i := range m.pres {
		m.pres[i] = -1
	}
	return m
}

func (m *model) add(k int) bool {
	c := m.u.Class(k)
	if m.pres[c] >= 0 {
		return false
	}
	m.pres[c] = k
	m.n++
	return true
}

func (m *model) rem(k int) bool {
	c := m.u.Class(k)
	if m.pres[c] < 0 {
		return false
	}
	m.pres[c] = -1
	m.n--
	return true
}

func (m *model) has(k int) bool { return m.pres[m.u.Class(k)] >= 0 }

// list returns the stored representatives from class c on.
func (m *model) list(c int) []int {
	var out []int
	for ; c < len(m.pres); c++ {
		if m.pres[c] >= 0 {
			out = append(out, m.pres[c])
		}
	}
	return out
}

func (m *model) clone() *model {
	return &model{u: m.u, pres: append([]int{}, m.pres...), n: m.n}
}

func fail(kind, format string, a ...any) *pbt.Fail {
	return &pbt.Fail{Kind: kind, Msg: fmt.Sprintf(format, a...)}
}

// seqOpt selects what a sequential run checks beyond the results of the calls.
type seqOpt struct {
	heights func(i int, op *pbt.Op) int // tower height of the i-th call's add
	lenEach bool                        // Len after every call
	sweep   int                         // full comparison after every sweep-th call (0: only at the end)
	noEnd   bool
	onOp    func(i int, op *pbt.Op, ok bool)
	light   bool // no per-element RangeFrom sweep at the end (large universes)
	obs     int  // observers used in full comparisons (0: all)
	around  bool // iterations must not change what the other observers report
}

// Observers of a full comparison.
const (
	obsLen = 1 << iota
	obsHas
	obsRange
	obsFrom
	obsAll = obsLen | obsHas | obsRange | obsFrom
)

type seqRun struct {
	c    *pbt.Case
	st   *pbt.Stats
	us   []Univ
	sets []Set
	ms   []*model
	opt  seqOpt
	i    int
	cnt  struct{ addT, addF, remT, remF, hasT, hasF, readd, stop, subs, faults, removedEver int }
	ever [][]bool // per slot and class: was removed before
	// iterating: active iterations over each slot, for nested updates
	iters []*iterState
}

// iterState tracks which classes were present during the whole iteration, or at some moment of it.
type iterState struct {
	slot    int
	always  []bool
	ever    []bool
	everRep map[int]bool
	visited []bool
	last    int // last visited class
}

func newSeqRun(c *pbt.Case, st *pbt.Stats, opt seqOpt) *seqRun {
	r := &seqRun{c: c, st: st, opt: opt}
	for _, s := range c.Slots {
		u := ByName(s.Variant).Universe(s.Vals)
		r.us = append(r.us, u)
		r.sets = append(r.sets, nil)
		r.ms = append(r.ms, newModel(u))
		r.ever = append(r.ever, make([]bool, u.NC()))
	}
	return r
}

func (r *seqRun) perOp(s int) int64 { return 20000 + 400*int64(r.us[s].N()) }

// runSeq executes the case's Setup as one sequential history and checks it.
func runSeq(c *pbt.Case, st *pbt.Stats, opt seqOpt) *pbt.Fail {
	r := newSeqRun(c, st, opt)
	var f *pbt.Fail
	res := vsched.Solo(1<<40, c.Seed, func() { f = r.run() })
	if f == nil {
		f = r.soloFail(res)
	}
	r.labels()
	return f
}

func (r *seqRun) soloFail(res vsched.Result) *pbt.Fail {
	where := ""
	if r.i < len(r.c.Setup) {
		where = fmt.Sprintf("call %d (%s): ", r.i, r.opStr(&r.c.Setup[r.i]))
	} else {
		where = "final checks: "
	}
	switch res.Outcome {
	case vsched.OK:
		return nil
	case vsched.Panic:
		return fail("panic", "%spanic: %s", where, res.Msg)
	case vsched.Livelock:
		return fail("hang", "%sdoes not terminate within its step bound", where)
	case vsched.Deadlock:
		return fail("deadlock", "%swaits for a lock that is never released (%s)", where, res.Msg)
	}
	return fail(res.Outcome, "%s%s", where, res.Msg)
}

func (r *seqRun) opStr(op *pbt.Op) string {
	u := r.us[op.S%len(r.us)]
	a := u.Str(op.A % u.N())
	s := ""
	if len(r.us) > 1 {
		s = fmt.Sprintf("set%d.", op.S%len(r.us))
	}
	switch op.K {
	case pbt.OpAdd:
		return s + "Add(" + a + ")"
	case pbt.OpRemove:
		return s + "Remove(" + a + ")"
	case pbt.OpContains:
		return s + "Contains(" + a + ")"
	case pbt.OpLen:
		return s + "Len()"
	case pbt.OpRange:
		return s + fmt.Sprintf("Range(stop=%d)", op.N)
	case pbt.OpRangeFrom:
		return s + fmt.Sprintf("RangeFrom(%s, stop=%d)", a, op.N)
	}
	return op.K
}

func (r *seqRun) trace() string {
	var b strings.Builder
	for i := range r.c.Setup {
		if i > r.i || i > 60 {
			break
		}
		b.WriteString(" " + r.opStr(&r.c.Setup[i]) + ";")
	}
	return b.String()
}

func (r *seqRun) newSets() {
	for i := range r.sets {
		if r.sets[i] == nil {
			vsched.Budget(50000)
			r.sets[i] = r.us[i].New()
		}
	}
}

func (r *seqRun) run() *pbt.Fail {
	r.newSets()
	for i := range r.sets {
		if f := r.checkAll(i, "new set", true); f != nil {
			return f
		}
	}
	for r.i = 0; r.i < len(r.c.Setup); r.i++ {
		op := &r.c.Setup[r.i]
		if f := r.do(op); f != nil {
			f.Msg = fmt.Sprintf("%s (call %d of:%s)", f.Msg, r.i, r.trace())
			return f
		}
		if r.opt.sweep > 0 && (r.i+1)%r.opt.sweep == 0 {
			if f := r.checkAll(op.S%len(r.us), "after call", true); f != nil {
				f.Msg = fmt.Sprintf("%s (call %d of:%s)", f.Msg, r.i, r.trace())
				return f
			}
		}
	}
	if r.opt.noEnd {
		return nil
	}
	for i := range r.sets {
		if f := r.checkAll(i, "at the end", r.opt.light); f != nil {
			f.Msg += " of:" + r.trace()
			return f
		}
	}
	return nil
}

func (r *seqRun) height(op *pbt.Op) int {
	if r.opt.heights != nil {
		return r.opt.heights(r.i, op)
	}
	return op.H
}

// do performs one call and compares it with the model.
func (r *seqRun) do(op *pbt.Op) *pbt.Fail {
	s := op.S % len(r.us)
	u, set, m := r.us[s], r.sets[s], r.ms[s]
	k := op.A % u.N()
	if k < 0 {
		k += u.N()
	}
	vsched.Budget(r.perOp(s))
	ok := false
	if op.F > 0 && op.K != pbt.OpRange && op.K != pbt.OpRangeFrom && op.K != pbt.OpLen {
		return r.doFault(op, s, k)
	}
	switch op.K {
	case pbt.OpAdd:
		vsched.Height(r.height(op))
		ok = set.Add(k)
		vsched.Height(0)
		before := m.clone2(r)
		want := m.add(k)
		if ok != want {
			return fail("result:add", "Add(%s) = %v, want %v; content %s", u.Str(k), ok, want, r.content(s, before))
		}
		if ok {
			r.cnt.addT++
			if r.ever[s][u.Class(k)] {
				r.cnt.readd++
			}
			for _, it := range r.iters {
				if it.slot == s {
					it.ever[u.Class(k)] = true
					it.everRep[k] = true
				}
			}
		} else {
			r.cnt.addF++
		}
	case pbt.OpRemove:
		ok = set.Remove(k)
		want := m.rem(k)
		if ok != want {
			return fail("result:rem", "Remove(%s) = %v, want %v", u.Str(k), ok, want)
		}
		if ok {
			r.cnt.remT++
			r.ever[s][u.Class(k)] = true
			for _, it := range r.iters {
				if it.slot == s {
					it.always[u.Class(k)] = false
				}
			}
		} else {
			r.cnt.remF++
		}
	case pbt.OpContains:
		ok = set.Contains(k)
		if want := m.has(k); ok != want {
			return fail("result:has", "Contains(%s) = %v, want %v", u.Str(k), ok, want)
		}
		if ok {
			r.cnt.hasT++
		} else {
			r.cnt.hasF++
		}
	case pbt.OpLen:
		if got := set.Len(); got != m.n {
			return fail("result:len", "Len() = %d, want %d", got, m.n)
		}
	case pbt.OpRange, pbt.OpRangeFrom:
		if f := r.iterate(op, s, k); f != nil {
			return f
		}
	case pbt.OpGC:
		runtime.GC()
	case pbt.OpNew:
		r.sets[s] = u.New()
		r.ms[s] = newModel(u)
	default:
		panic("bad op " + op.K)
	}
	if r.opt.lenEach && len(r.iters) == 0 {
		if got := r.sets[s].Len(); got != r.ms[s].n {
			return fail("result:len", "Len() = %d after the call, want %d", got, r.ms[s].n)
		}
	}
	if r.opt.onOp != nil {
		r.opt.onOp(r.i, op, ok)
	}
	return nil
}

// clone2 avoids copying models of large universes on every Add.
func (m *model) clone2(r *seqRun) *model {
	if m.u.NC() > 64 {
		return m
	}
	return m.clone()
}

func (r *seqRun) content(s int, m *model) string {
	var b strings.Builder
	l := m.list(0)
	for i, k := range l {
		if i > 30 {
			fmt.Fprintf(&b, "... %d in all", len(l))
			break
		}
		b.WriteString(r.us[s].Str(k) + " ")
	}
	return "{" + strings.TrimSpace(b.String()) + "}"
}

func (r *seqRun) strs(s int, ks []int) string {
	var b strings.Builder
	for i, k := range ks {
		if i > 30 {
			fmt.Fprintf(&b, "... %d in all", len(ks))
			break
		}
		if k < 0 {
			b.WriteString("<value never used> ")
		} else {
			b.WriteString(r.us[s].Str(k) + " ")
		}
	}
	return "[" + strings.TrimSpace(b.String()) + "]"
}

// iterate performs Range or RangeFrom, possibly with nested calls and faults.
func (r *seqRun) iterate(op *pbt.Op, s, k int) *pbt.Fail {
	u, set, m := r.us[s], r.sets[s], r.ms[s]
	from := 0
	name := "Range"
	if op.K == pbt.OpRangeFrom {
		from = u.Class(k)
		name = "RangeFrom(" + u.Str(k) + ")"
	}
	if len(op.Sub) > 0 {
		return r.iterateNested(op, s, k, from, name)
	}
	want := m.list(from)
	if op.N > 0 && op.N < len(want) {
		want = want[:op.N]
		r.cnt.stop++
	}
	limit := len(want) + 2
	var got []int
	stopped := false
	again := 0
	f := func(x int) bool {
		if stopped {
			again++
			return false
		}
		got = append(got, x)
		if op.F > 0 && len(got) == op.F {
			r.cnt.faults++
			if op.G == 1 {
				runtime.Goexit()
			}
			panic(injected{})
		}
		if len(got) >= limit || op.N > 0 && len(got) >= op.N {
			stopped = true
			return false
		}
		return true
	}
	call := func() {
		if op.K == pbt.OpRange {
			set.Range(f)
		} else {
			set.RangeFrom(k, f)
		}
	}
	var before []bool
	beforeLen := 0
	if r.opt.around && u.NC() <= 64 {
		before, beforeLen = r.snapshot(s)
	}
	if op.F > 0 {
		if f := r.guarded(call, op.G == 1); f != nil {
			return f
		}
		if op.F <= len(want) {
			want = want[:op.F]
		}
	} else {
		call()
	}
	if again > 0 {
		return fail("stop:"+op.K, "%s called the function %d more times after it returned false", name, again)
	}
	if !equalInts(got, want) {
		return fail("iteration:"+op.K, "%s visited %s, want %s", name, r.strs(s, got), r.strs(s, want))
	}
	if before != nil {
		after, afterLen := r.snapshot(s)
		for c := range before {
			if before[c] != after[c] {
				return fail("iteration:"+op.K, "%s changed the set: Contains(%s) was %v before and is %v after it", name, u.Str(u.First(c)), before[c], after[c])
			}
		}
		if beforeLen != afterLen {
			return fail("iteration:"+op.K, "%s changed the set: Len() was %d before and is %d after it", name, beforeLen, afterLen)
		}
	}
	return nil
}

// snapshot is what Contains and Len report.
func (r *seqRun) snapshot(s int) ([]bool, int) {
	u := r.us[s]
	out := make([]bool, u.NC())
	for c := range out {
		vsched.Budget(r.perOp(s))
		out[c] = r.sets[s].Contains(u.First(c))
	}
	return out, r.sets[s].Len()
}

// guarded runs f, absorbing an injected panic, or in a goroutine of its own if it may exit.
func (r *seqRun) guarded(f func(), goexit bool) (fl *pbt.Fail) {
	wrapped := func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(injected); !ok {
					panic(e)
				}
			}
		}()
		f()
	}
	if !goexit {
		wrapped()
		return nil
	}
	done := make(chan any, 1)
	go func() {
		var e any
		defer func() { done <- e }()
		func() {
			defer func() {
				e = recover()
			}()
			wrapped()
		}()
	}()
	if e := <-done; e != nil {
		panic(e)
	}
	return nil
}

// doFault runs an update or lookup in which the F-th comparison panics.
func (r *seqRun) doFault(op *pbt.Op, s, k int) *pbt.Fail {
	u, set, m := r.us[s], r.sets[s], r.ms[s]
	u.Fault(op.F)
	completed, ok := false, false
	_ = r.guarded(func() {
		switch op.K {
		case pbt.OpAdd:
			vsched.Height(r.height(op))
			ok = set.Add(k)
		case pbt.OpRemove:
			ok = set.Remove(k)
		case pbt.OpContains:
			ok = set.Contains(k)
		}
		completed = true
	}, false)
	vsched.Height(0)
	hit := u.Faulted()
	u.Fault(0)
	if hit {
		r.cnt.faults++
	}
	if hit && !completed {
		// No effect: the model stays as it is.
		vsched.Budget(r.perOp(s))
		return r.quickState(s, k)
	}
	want := false
	switch op.K {
	case pbt.OpAdd:
		want = m.add(k)
	case pbt.OpRemove:
		want = m.rem(k)
	case pbt.OpContains:
		want = m.has(k)
	}
	if ok != want {
		return fail("result:"+op.K, "%s(%s) = %v, want %v (after earlier injected panics)", op.K, u.Str(k), ok, want)
	}
	return nil
}

func (r *seqRun) quickState(s, k int) *pbt.Fail {
	u, set, m := r.us[s], r.sets[s], r.ms[s]
	if got := set.Contains(k); got != m.has(k) {
		return fail("fault", "after a panic in less, Contains(%s) = %v, want %v", u.Str(k), got, m.has(k))
	}
	if got := set.Len(); got != m.n {
		return fail("fault", "after a panic in less, Len() = %d, want %d", got, m.n)
	}
	return nil
}

// iterateNested runs an iteration whose callbacks use the same set.
func (r *seqRun) iterateNested(op *pbt.Op, s, k, from int, name string) *pbt.Fail {
	u, set, m := r.us[s], r.sets[s], r.ms[s]
	it := &iterState{slot: s, always: make([]bool, u.NC()), ever: make([]bool, u.NC()), everRep: map[int]bool{}, visited: make([]bool, u.NC()), last: -1}
	for c, p := range m.pres {
		if p >= 0 {
			it.always[c], it.ever[c] = true, true
			it.everRep[p] = true
		}
	}
	r.iters = append(r.iters, it)
	defer func() { r.iters = r.iters[:len(r.iters)-1] }()
	var ff *pbt.Fail
	n := 0
	stopped := false
	maxCalls := 4*u.NC() + 8
	f := func(x int) bool {
		if stopped {
			if ff == nil {
				ff = fail("stop:"+op.K, "%s called the function again after it returned false", name)
			}
			return false
		}
		n++
		bad := func(format string, a ...any) bool {
			ff = fail("iteration:"+op.K, format, a...)
			stopped = true
			return false
		}
		if x < 0 {
			return bad("%s visited a value that was never used", name)
		}
		c := u.Class(x)
		if c < from {
			return bad("%s visited %s, which is before the start", name, u.Str(x))
		}
		if c <= it.last {
			return bad("%s visited %s after %s", name, u.Str(x), u.Str(u.First(it.last)))
		}
		if !it.everRep[x] {
			return bad("%s visited %s, which was not in the set at any moment of the iteration", name, u.Str(x))
		}
		it.last = c
		it.visited[c] = true
		for i := range op.Sub {
			sub := op.Sub[i]
			if sub.At != n {
				continue
			}
			r.cnt.subs++
			if sub.Rel {
				sub.A = u.First(((c+sub.A)%u.NC() + u.NC()) % u.NC())
			}
			sub.S = s
			if sub.F != 0 {
				sub.F = 0
			}
			if f := r.do(&sub); f != nil {
				f.Msg = "nested in " + name + " at " + u.Str(x) + ": " + f.Msg
				ff = f
				stopped = true
				return false
			}
		}
		vsched.Budget(r.perOp(s))
		if op.N > 0 && n >= op.N || n > maxCalls {
			stopped = true
			return false
		}
		return true
	}
	if op.K == pbt.OpRange {
		set.Range(f)
	} else {
		set.RangeFrom(k, f)
	}
	if ff != nil {
		return ff
	}
	for c := from; c < u.NC(); c++ {
		if stopped && c > it.last {
			break
		}
		if it.always[c] && !it.visited[c] {
			return fail("iteration:"+op.K, "%s did not visit %s, which was in the set throughout", name, u.Str(u.First(c)))
		}
	}
	return nil
}

// checkAll compares every observer of set i with its model.
func (r *seqRun) checkAll(i int, when string, light bool) *pbt.Fail {
	u, set, m := r.us[i], r.sets[i], r.ms[i]
	obs := r.opt.obs
	if obs == 0 {
		obs = obsAll
	}
	return checkContent(u, set, m, when, light, obs, func(ks []int) string { return r.strs(i, ks) }, r.perOp(i))
}

// checkContent compares the chosen observers of a set with the model.
func checkContent(u Univ, set Set, m *model, when string, light bool, obs int, strs func([]int) string, perOp int64) *pbt.Fail {
	vsched.Budget(perOp)
	if obs&obsLen != 0 {
		if got := set.Len(); got != m.n {
			return fail("final:len", "%s: Len() = %d, want %d", when, got, m.n)
		}
	}
	if obs&obsRange != 0 {
		want := m.list(0)
		var got []int
		set.Range(func(k int) bool { got = append(got, k); return len(got) < len(want)+3 })
		if !equalInts(got, want) {
			return fail("final:rng", "%s: Range visits %s, want %s", when, strs(got), strs(want))
		}
	}
	if obs&obsHas != 0 && (u.NC() <= 600 || !light) {
		for k := 0; k < u.N(); k++ {
			vsched.Budget(perOp)
			if got := set.Contains(k); got != m.has(k) {
				return fail("final:has", "%s: Contains(%s) = %v, want %v", when, u.Str(k), got, m.has(k))
			}
		}
	}
	if light || obs&obsFrom == 0 {
		return nil
	}
	stepC := 1 + u.NC()/40
	for c := 0; c < u.NC(); c += stepC {
		want := m.list(c)
		var got []int
		vsched.Budget(perOp)
		set.RangeFrom(u.First(c), func(k int) bool { got = append(got, k); return len(got) < len(want)+3 })
		if !equalInts(got, want) {
			return fail("final:rfr", "%s: RangeFrom(%s) visits %s, want %s", when, u.Str(u.First(c)), strs(got), strs(want))
		}
	}
	return nil
}

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (r *seqRun) labels() {
	st := r.st
	if st == nil {
		return
	}
	for _, s := range r.c.Slots {
		st.Label("variant:" + s.Variant)
	}
	c := r.cnt
	lab := func(b bool, l string) {
		if b {
			st.Label(l)
		}
	}
	lab(c.addT > 0, "add:true")
	lab(c.addF > 0, "add:false(duplicate)")
	lab(c.remT > 0, "remove:true")
	lab(c.remF > 0, "remove:false(absent)")
	lab(c.hasT > 0, "contains:true")
	lab(c.hasF > 0, "contains:false")
	lab(c.readd > 0, "re-add after remove")
	lab(c.stop > 0, "early stop")
	lab(c.subs > 0, "nested calls")
	lab(c.faults > 0, "faults injected")
	n := len(r.c.Setup)
	lab(n >= 500, "long history(>=500 calls)")
	for _, u := range r.us {
		lab(u.NC() < u.N(), "equal but distinguishable values")
		lab(u.NC() >= 500, "universe>=500 values")
		lab(u.NC() == 1, "universe of one value")
	}
	tall, ext := false, false
	for i := range r.c.Setup {
		if h := r.c.Setup[i].H; h > 4 {
			tall = true
			if h >= 15 {
				ext = true
			}
		}
	}
	lab(tall, "tower>4")
	lab(ext, "tower>=15")
}
