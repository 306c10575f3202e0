package props

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"skipverif/pbt"
	"skipverif/vsched"
)

// event is one completed call of a concurrent run.
type event struct {
	inv, ret int64
	op       pbt.Op
	k        int // resolved value index
	ok       bool
	n        int   // Len
	keys     []int // visited
	stopped  bool
	task     int
	nested   bool
}

// payloader is implemented by universes whose values carry a mutable payload.
type payloader interface {
	WritePayload(k int)
	ReadPayload(k int) bool
}

func (u *univ[T]) payload(k int) *item {
	if p, ok := any(u.vals[k]).(*item); ok {
		return p
	}
	return nil
}

// WritePayload prepares a value before it is added.
func (u *univ[T]) WritePayload(k int) {
	if p := u.payload(k); p != nil {
		p.Pay[0] = p.K * 3
		p.Pay[1] = p.Tag * 5
	}
}

// ReadPayload checks the payload of a value met through the set.
func (u *univ[T]) ReadPayload(k int) bool {
	if p := u.payload(k); p != nil {
		return p.Pay[0] == p.K*3 && p.Pay[1] == p.Tag*5
	}
	return true
}

type concOpt struct {
	lin     bool // per-value linearizability of Add/Remove/Contains
	iter    bool // iteration order, ghosts, misses
	length  bool // bounds of Len
	tally   bool // winners and final observers
	sweep   bool // the set stays fully usable afterwards
	wf      bool // readers are wait-free
	apart   bool // updates with E set are wait-free while the others are stopped
	race    bool // race detector
	publish bool // payloads
	obs     int  // observers used by the sweep (0: all)
	real    bool // real goroutines instead of the scheduler
}

// budget is the number of steps in which all calls must return.
func (r *concRun) budget() int64 { return budget(r.c) }

func budget(c *pbt.Case) int64 {
	return 600000 + 10000*int64(c.NumOps()) + 50000*int64(max(0, len(c.Tasks)-8)) + 2*int64(c.Plan.Quantum)*int64(len(c.Plan.Sw)+10*len(c.Tasks))
}

type concRun struct {
	c    *pbt.Case
	o    concOpt
	u    Univ
	set  Set
	logs [][]event
	bad  []*pbt.Fail // per task
	setM *model
	clk  atomic.Int64
	gate atomic.Int32
}

// runConc executes the case under its plan and applies the selected oracles.
func runConc(c *pbt.Case, st *pbt.Stats, o concOpt) *pbt.Fail {
	r := &concRun{c: c, o: o, u: ByName(c.Slots[0].Variant).Universe(c.Slots[0].Vals)}
	races0 := 0
	if o.race {
		races0 = vsched.RaceErrors()
	}
	r.setM = newModel(r.u)
	var sf *pbt.Fail
	res := vsched.Solo(1<<40, c.Seed, func() { sf = r.setup() })
	if sf == nil {
		sf = soloFail2("setup", res)
	}
	if sf != nil {
		return sf
	}
	fns := make([]func(), len(c.Tasks))
	r.logs = make([][]event, len(c.Tasks))
	r.bad = make([]*pbt.Fail, len(c.Tasks))
	for t := range c.Tasks {
		n := 0
		for _, op := range c.Tasks[t] {
			n += 1 + len(op.Sub)
		}
		r.logs[t] = make([]event, 0, n)
		fns[t] = func() { r.task(t) }
	}
	if o.real {
		r.parallel(fns)
	} else {
		res = vsched.Run(c.Plan, r.budget(), c.Seed^0x5555, fns)
	}
	if st != nil {
		r.label(st, res)
	}
	if o.race {
		if n := vsched.RaceErrors(); n > races0 {
			return fail("race", "the race detector reports %d data race(s) on this schedule\n%s", n-races0, r.program())
		}
	}
	for t, f := range r.bad {
		if f != nil {
			f.Msg = fmt.Sprintf("goroutine %d: %s\n%s", t, f.Msg, r.history())
			return f
		}
	}
	switch res.Outcome {
	case vsched.OK:
	case vsched.Deadlock:
		return fail("deadlock", "%s\n%s", res.Msg, r.history())
	case vsched.Livelock:
		return fail("livelock", "not all calls return within %d steps of a fair schedule (last running goroutine: %d)\n%s", r.budget(), res.Task, r.history()+"\n"+res.Msg)
	case vsched.Panic:
		return fail("panic", "goroutine %d panics: %s\n%s", res.Task, res.Msg, r.history())
	case vsched.Blocked:
		return fail("blocked", "goroutine %d: the operation waits for a lock\n%s", res.Task, r.history())
	case vsched.Steps:
		return fail("steps", "goroutine %d: the operation does not finish within its bound of own steps (the other goroutines are stopped or slow)\n%s", res.Task, r.history())
	default:
		panic(res.Outcome)
	}
	if o.race && !o.lin && !o.tally && !o.length && !o.iter && !o.sweep {
		return nil
	}
	return r.judge()
}

// parallel runs the tasks as ordinary goroutines. If they all block, the Go runtime ends
// the process with its deadlock report, which the driver attributes to this case.
func (r *concRun) parallel(fns []func()) {
	var wg sync.WaitGroup
	n := int32(len(fns))
	for t, fn := range fns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil && r.bad[t] == nil {
					r.bad[t] = fail("panic", "panic: %v\n%s", p, debug.Stack())
				}
			}()
			r.gate.Add(1)
			for i := 0; r.gate.Load() < n; i++ {
				if i > 200 {
					runtime.Gosched()
				}
			}
			fn()
		}()
	}
	wg.Wait()
}

// now is the next tick of the clock of the history.
func (r *concRun) now() int64 {
	if r.o.real {
		return r.clk.Add(1)
	}
	return vsched.Now()
}

func soloFail2(where string, res vsched.Result) *pbt.Fail {
	switch res.Outcome {
	case vsched.OK:
		return nil
	case vsched.Panic:
		return fail("panic", "%s: panic: %s", where, res.Msg)
	case vsched.Livelock:
		return fail("hang", "%s: does not terminate within its step bound", where)
	}
	return fail(res.Outcome, "%s: %s", where, res.Msg)
}

func (r *concRun) perOp() int64 { return 30000 + 400*int64(r.u.N()) }

func (r *concRun) setup() *pbt.Fail {
	vsched.Budget(50000)
	r.set = r.u.New()
	for i := range r.c.Setup {
		op := &r.c.Setup[i]
		k := mod(op.A, r.u.N())
		vsched.Budget(r.perOp())
		switch op.K {
		case pbt.OpAdd:
			vsched.Height(op.H)
			if r.o.publish {
				r.u.(payloader).WritePayload(k)
			}
			got := r.set.Add(k)
			vsched.Height(0)
			if want := r.setM.add(k); got != want {
				return fail("result", "setup: Add(%s) = %v, want %v", r.u.Str(k), got, want)
			}
		case pbt.OpRemove:
			got := r.set.Remove(k)
			if want := r.setM.rem(k); got != want {
				return fail("result", "setup: Remove(%s) = %v, want %v", r.u.Str(k), got, want)
			}
		}
	}
	return nil
}

func (r *concRun) task(t int) {
	for i := range r.c.Tasks[t] {
		r.op(t, &r.c.Tasks[t][i], false)
		if r.bad[t] != nil {
			return
		}
	}
}

// wfBound is the allowed number of own steps of a read: a generous multiple of the
// number of values it can meet plus the number of levels.
func (r *concRun) wfBound() int64 {
	if r.o.apart {
		return 600 * int64(r.u.N()+30)
	}
	return 150 * int64(r.u.N()+30)
}

func (r *concRun) op(t int, op *pbt.Op, nested bool) {
	e := event{op: *op, task: t, nested: nested}
	u := r.u
	k := mod(op.A, u.N())
	e.k = k
	read := op.K == pbt.OpContains || op.K == pbt.OpRange || op.K == pbt.OpRangeFrom || op.K == pbt.OpLen
	wf := r.o.wf && read && len(op.Sub) == 0 && !nested || r.o.apart && !read && op.E > 0
	if !nested {
		vsched.CallStart()
	}
	e.inv = r.now()
	if wf {
		vsched.BeginWaitFree(r.wfBound(), int64(op.E)-1)
	}
	switch op.K {
	case pbt.OpAdd:
		if r.o.publish {
			u.(payloader).WritePayload(k)
		}
		vsched.Height(op.H)
		e.ok = r.set.Add(k)
		vsched.Height(0)
	case pbt.OpRemove:
		e.ok = r.set.Remove(k)
	case pbt.OpContains:
		e.ok = r.set.Contains(k)
	case pbt.OpLen:
		e.n = r.set.Len()
	case pbt.OpRange, pbt.OpRangeFrom:
		r.iterate(t, op, k, &e)
	}
	if wf {
		vsched.EndWaitFree()
	}
	e.ret = r.now()
	r.logs[t] = append(r.logs[t], e)
	if !nested {
		vsched.CallEnd()
	}
}

func (r *concRun) iterate(t int, op *pbt.Op, k int, e *event) {
	u := r.u
	limit := 4*u.N() + 8
	f := func(x int) bool {
		if e.stopped {
			if r.bad[t] == nil {
				r.bad[t] = fail("stop", "the iteration continues after the function returned false")
			}
			return false
		}
		e.keys = append(e.keys, x)
		if x < 0 {
			r.bad[t] = fail("ghost", "the iteration visits a value that was never used")
			e.stopped = true
			return false
		}
		if r.o.publish && !u.(payloader).ReadPayload(x) {
			r.bad[t] = fail("publication", "the payload written before Add(%s) is not visible to the iteration", u.Str(x))
		}
		n := len(e.keys)
		if op.F > 0 && n == op.F {
			e.stopped = true
			panic(injected{})
		}
		for i := range op.Sub {
			sub := op.Sub[i]
			if sub.At != n {
				continue
			}
			if sub.Rel {
				sub.A = u.First(mod(u.Class(x)+sub.A, u.NC()))
			}
			r.op(t, &sub, true)
		}
		if op.N > 0 && n >= op.N || n > limit {
			e.stopped = true
			return false
		}
		return true
	}
	if op.F > 0 {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(injected); !ok {
					panic(p)
				}
			}
		}()
	}
	if op.K == pbt.OpRange {
		r.set.Range(f)
	} else {
		r.set.RangeFrom(k, f)
	}
}

func (r *concRun) events() []event {
	var all []event
	for _, l := range r.logs {
		all = append(all, l...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].inv < all[j].inv })
	return all
}

func (r *concRun) evStr(e *event) string {
	u := r.u
	s := fmt.Sprintf("[%d,%d] g%d: ", e.inv, e.ret, e.task)
	if e.nested {
		s += "(in callback) "
	}
	switch e.op.K {
	case pbt.OpAdd:
		return s + fmt.Sprintf("Add(%s) -> %v (height %d)", u.Str(e.k), e.ok, e.op.H)
	case pbt.OpRemove:
		return s + fmt.Sprintf("Remove(%s) -> %v", u.Str(e.k), e.ok)
	case pbt.OpContains:
		return s + fmt.Sprintf("Contains(%s) -> %v", u.Str(e.k), e.ok)
	case pbt.OpLen:
		return s + fmt.Sprintf("Len() -> %d", e.n)
	case pbt.OpRange:
		return s + fmt.Sprintf("Range -> %s", strs(u, e.keys))
	}
	return s + fmt.Sprintf("RangeFrom(%s) -> %s", u.Str(e.k), strs(u, e.keys))
}

func strs(u Univ, ks []int) string {
	var out []string
	for _, k := range ks {
		if k < 0 {
			out = append(out, "<value never used>")
		} else {
			out = append(out, u.Str(k))
		}
	}
	return "[" + strings.Join(out, " ") + "]"
}

func (r *concRun) program() string {
	var b strings.Builder
	fmt.Fprintf(&b, "  set: %s, content before: %s\n", r.c.Slots[0].Variant, strs(r.u, r.setM.list(0)))
	for t, ops := range r.c.Tasks {
		fmt.Fprintf(&b, "  g%d:", t)
		for i := range ops {
			k := mod(ops[i].A, r.u.N())
			fmt.Fprintf(&b, " %s(%s)", ops[i].K, r.u.Str(k))
		}
		b.WriteString("\n")
	}
	return b.String()
}

func (r *concRun) history() string {
	var b strings.Builder
	b.WriteString(r.program())
	b.WriteString("  completed calls:\n")
	for _, e := range r.events() {
		b.WriteString("    " + r.evStr(&e) + "\n")
	}
	return b.String()
}

// judge applies the oracles to a completed run.
func (r *concRun) judge() *pbt.Fail {
	var f *pbt.Fail
	res := vsched.Solo(1<<40, 7, func() { f = r.judge1() })
	if f == nil {
		f = soloFail2("after all goroutines finished", res)
	}
	if f != nil {
		f.Msg += "\n" + r.history()
	}
	return f
}

func (r *concRun) judge1() *pbt.Fail {
	u := r.u
	evs := r.events()
	// Final observers, called by one goroutine after all others returned.
	final := make([]bool, u.NC())
	var rng []int
	finalLen := 0
	if r.o.lin || r.o.tally || r.o.iter || r.o.length {
		for c := range final {
			vsched.Budget(r.perOp())
			final[c] = r.set.Contains(u.First(c))
		}
		vsched.Budget(r.perOp())
		inv := r.now()
		r.set.Range(func(k int) bool { rng = append(rng, k); return len(rng) <= 4*u.N()+8 })
		finalLen = r.set.Len()
		if r.o.iter {
			for _, k := range rng {
				if k < 0 {
					return fail("ghost", "afterwards Range visits a value that was never used")
				}
			}
			evs = append(evs, event{inv: inv, ret: r.now(), op: pbt.Op{K: pbt.OpRange}, keys: rng, task: len(r.c.Tasks)})
		}
	}
	end := r.now()
	if r.o.lin || r.o.iter {
		if f := linCheck(u, r.setM, evs, final, end, r.o.iter, r.evStr); f != nil {
			if r.o.iter && f.Kind == "linearizability" && linCheck(u, r.setM, evs, final, end, false, r.evStr) == nil {
				f.Kind = "iteration" // the updates and lookups alone are fine
			}
			return f
		}
	}
	if r.o.length {
		if f := lenCheck(u, r.setM, evs, finalLen, final); f != nil {
			return f
		}
	}
	if r.o.tally {
		if f := tallyCheck(u, r.setM, evs, final, rng, finalLen); f != nil {
			return f
		}
	}
	if r.o.tally {
		for c := range final {
			var got, want []int
			for _, k := range rng {
				if k >= 0 && u.Class(k) >= c {
					want = append(want, k)
				}
			}
			vsched.Budget(r.perOp())
			r.set.RangeFrom(u.First(c), func(k int) bool { got = append(got, k); return len(got) <= 4*u.N()+8 })
			if !equalInts(got, want) {
				return fail("final", "afterwards RangeFrom(%s) visits %s, but Range visits %s", u.Str(u.First(c)), strs(u, got), strs(u, rng))
			}
		}
	}
	if r.o.sweep {
		obs := r.o.obs
		if obs == 0 {
			obs = obsAll
		}
		return sweepCheck(u, r.set, r.perOp(), r.c.Seed, obs)
	}
	return nil
}

// linCheck checks each value's history. Iterations count as observations of every
// value in their scope over the iteration's interval.
func linCheck(u Univ, m *model, evs []event, final []bool, end int64, iter bool, str func(*event) string) *pbt.Fail {
	per := make([][]pbt.HOp, u.NC())
	for i := range evs {
		e := &evs[i]
		who := fmt.Sprintf("g%d", e.task)
		c := u.Class(e.k)
		switch e.op.K {
		case pbt.OpAdd, pbt.OpRemove, pbt.OpContains:
			per[c] = append(per[c], pbt.HOp{Inv: e.inv, Ret: e.ret, K: e.op.K, Ok: e.ok, Rep: e.k, Who: who})
		case pbt.OpRange, pbt.OpRangeFrom:
			if !iter {
				continue
			}
			from := 0
			if e.op.K == pbt.OpRangeFrom {
				from = c
			}
			last := -1
			vis := make([]int, u.NC())
			for i := range vis {
				vis[i] = -1
			}
			for _, k := range e.keys {
				kc := u.Class(k)
				if kc < from {
					return fail("order", "an iteration visits %s, which is before its start: %s", u.Str(k), str(e))
				}
				if kc <= last {
					return fail("order", "an iteration visits %s out of order or twice: %s", u.Str(k), str(e))
				}
				last = kc
				vis[kc] = k
			}
			for kc := from; kc < u.NC(); kc++ {
				if e.stopped && kc > last {
					break
				}
				per[kc] = append(per[kc], pbt.HOp{Inv: e.inv, Ret: e.ret, K: pbt.OpRange, Ok: vis[kc] >= 0, Rep: vis[kc], Who: who})
			}
		}
	}
	for c := range per {
		if final != nil {
			per[c] = append(per[c], pbt.HOp{Inv: end + int64(2*c), Ret: end + int64(2*c) + 1, K: pbt.OpContains, Ok: final[c], Who: "afterwards"})
		}
		if ok, _ := pbt.Linearizable(m.pres[c], per[c]); !ok {
			what := "not linearizable"
			return fail("linearizability", "the history of value %s is %s (initially %s):\n%s", u.Str(u.First(c)), what,
				map[bool]string{true: "present", false: "absent"}[m.pres[c] >= 0], pbt.HistString(per[c]))
		}
	}
	return nil
}

// lenCheck bounds every Len by the history.
func lenCheck(u Univ, m *model, evs []event, finalLen int, final []bool) *pbt.Fail {
	count := m.n
	for i := range evs {
		e := &evs[i]
		if e.ok && e.op.K == pbt.OpAdd {
			count++
		}
		if e.ok && e.op.K == pbt.OpRemove {
			count--
		}
		if e.op.K != pbt.OpLen {
			continue
		}
		if f := lenAt(m, evs, e); f != nil {
			return f
		}
	}
	n := 0
	for _, p := range final {
		if p {
			n++
		}
	}
	if finalLen != count || finalLen != n {
		return fail("len", "afterwards Len() = %d, but %d values are present (successful Adds minus Removes: %d)", finalLen, n, count)
	}
	return nil
}

// lenAt checks one Len: at some moment of the call, its result differs from the number
// of elements at most by the updates in progress at that moment.
func lenAt(m *model, evs []event, e *event) *pbt.Fail {
	if e.n < 0 {
		return fail("len", "g%d: Len() = %d is negative", e.task, e.n)
	}
	// The clock ticks at every begin and end of a call, so the moments between the
	// ticks at which an update begins or ends within this call are all there are.
	at := []int64{e.inv}
	for i := range evs {
		x := &evs[i]
		if x.ok && (x.op.K == pbt.OpAdd || x.op.K == pbt.OpRemove) {
			if x.inv > e.inv && x.inv < e.ret {
				at = append(at, x.inv)
			}
			if x.ret > e.inv && x.ret < e.ret {
				at = append(at, x.ret)
			}
		}
	}
	min, max := 1<<30, -1
	for _, t := range at { // just after tick t
		lo, hi := m.n, m.n
		for i := range evs {
			x := &evs[i]
			if !x.ok || x.inv > t {
				continue
			}
			switch x.op.K {
			case pbt.OpAdd:
				hi++
				if x.ret <= t {
					lo++
				}
			case pbt.OpRemove:
				lo--
				if x.ret <= t {
					hi--
				}
			}
		}
		if e.n >= lo && e.n <= hi {
			return nil
		}
		if lo < min {
			min = lo
		}
		if hi > max {
			max = hi
		}
	}
	return fail("len", "g%d: Len() = %d at [%d,%d], but at no moment of the call do the calls completed and in progress allow that (within it, the bounds are %d..%d)", e.task, e.n, e.inv, e.ret, min, max)
}

// tallyCheck balances successful updates per value against all final observers.
func tallyCheck(u Univ, m *model, evs []event, final []bool, rng []int, finalLen int) *pbt.Fail {
	bal := make([]int, u.NC())
	for c := range bal {
		if m.pres[c] >= 0 {
			bal[c] = 1
		}
	}
	for i := range evs {
		e := &evs[i]
		if e.ok && e.op.K == pbt.OpAdd {
			bal[u.Class(e.k)]++
		}
		if e.ok && e.op.K == pbt.OpRemove {
			bal[u.Class(e.k)]--
		}
	}
	sum := 0
	var want []int
	for c, b := range bal {
		if b != 0 && b != 1 {
			return fail("winners", "value %s: successful Adds minus successful Removes (with the initial content) is %d", u.Str(u.First(c)), b)
		}
		if final[c] != (b == 1) {
			return fail("winners", "value %s: successful Adds minus Removes is %d, but afterwards Contains says %v", u.Str(u.First(c)), b, final[c])
		}
		sum += b
		if b == 1 {
			want = append(want, c)
		}
	}
	var got []int
	for _, k := range rng {
		if k < 0 {
			return fail("final", "afterwards Range visits a value that was never used")
		}
		got = append(got, u.Class(k))
	}
	if !equalInts(got, want) {
		return fail("final", "afterwards Range visits %s, which is not the balance of the successful updates", strs(u, rng))
	}
	if finalLen != sum {
		return fail("final", "afterwards Len() = %d, want %d", finalLen, sum)
	}
	return nil
}

// sweepCheck verifies that the set is fully usable: it is driven through removal,
// re-insertion and iteration of every value against the model.
func sweepCheck(u Univ, set Set, perOp int64, seed uint64, obs int) *pbt.Fail {
	m := newModel(u)
	var fl *pbt.Fail
	vsched.Budget(perOp)
	if obs&obsRange != 0 {
		set.Range(func(k int) bool {
			if k < 0 || m.pres[u.Class(k)] >= 0 {
				fl = fail("final", "afterwards Range visits an unknown or repeated value")
				return false
			}
			m.add(k)
			return true
		})
		if fl != nil {
			return fl
		}
	} else {
		for c := 0; c < u.NC(); c++ {
			vsched.Budget(perOp)
			if set.Contains(u.First(c)) {
				m.add(u.First(c))
			}
		}
	}
	s := func(ks []int) string { return strs(u, ks) }
	h := seed
	next := func(n int) int { h = pbt.Mix(h); return int(h % uint64(n)) }
	if f := checkContent(u, set, m, "afterwards", false, obs, s, perOp); f != nil {
		return f
	}
	for round := 0; round < 2; round++ {
		for c := 0; c < u.NC(); c++ {
			k := u.First(c)
			vsched.Budget(perOp)
			switch (round + next(3)) % 3 {
			case 0:
				if got, want := set.Remove(k), m.rem(k); got != want {
					return fail("usable", "afterwards Remove(%s) = %v, want %v", u.Str(k), got, want)
				}
			default:
				vsched.Height(1 + next(6))
				got := set.Add(k)
				vsched.Height(0)
				if want := m.add(k); got != want {
					return fail("usable", "afterwards Add(%s) = %v, want %v", u.Str(k), got, want)
				}
			}
		}
		if f := checkContent(u, set, m, "afterwards", true, obs, s, perOp); f != nil {
			return f
		}
	}
	for c := 0; c < u.NC(); c++ {
		vsched.Budget(perOp)
		if got, want := set.Remove(u.First(c)), m.rem(u.First(c)); got != want {
			return fail("usable", "afterwards Remove(%s) = %v, want %v", u.Str(u.First(c)), got, want)
		}
	}
	return checkContent(u, set, m, "after removing everything", false, obs, s, perOp)
}

func (r *concRun) label(st *pbt.Stats, res vsched.Result) {
	st.Label("variant:" + r.c.Slots[0].Variant)
	st.Label(fmt.Sprintf("goroutines:%d", len(r.c.Tasks)))
	if res.Switches > 2*len(r.c.Tasks) {
		st.Label("many switches")
	}
	// Non-trivial: two overlapping calls of different goroutines, at least one a
	// successful update, on the same value (or one of them an iteration or Len).
	evs := r.events()
	for i := range evs {
		a := &evs[i]
		for j := i + 1; j < len(evs); j++ {
			b := &evs[j]
			if b.inv > a.ret {
				break
			}
			if a.task == b.task {
				continue
			}
			st.Label("overlapping calls")
			if r.o.apart {
				if a.op.E > 0 || b.op.E > 0 {
					st.NT()
					st.Label("while stopped:" + a.op.K + "/" + b.op.K)
				}
				continue
			}
			ua := a.ok && (a.op.K == pbt.OpAdd || a.op.K == pbt.OpRemove)
			ub := b.ok && (b.op.K == pbt.OpAdd || b.op.K == pbt.OpRemove)
			wide := func(e *event) bool {
				return e.op.K == pbt.OpRange || e.op.K == pbt.OpRangeFrom || e.op.K == pbt.OpLen
			}
			if (ua || ub) && (r.u.Class(a.k) == r.u.Class(b.k) || wide(a) || wide(b)) {
				st.NT()
				st.Label("conflict:" + a.op.K + "/" + b.op.K)
			}
		}
	}
	for i := range r.c.Setup {
		if r.c.Setup[i].H > 4 {
			st.Label("tower>4")
		}
	}
}
