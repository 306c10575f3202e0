package props

import (
	"strings"

	"skipverif/pbt"
	"skipverif/vsched"
)

// Part is the executable side of a plan.Part.
type Part struct {
	Gen func(r *pbt.Rng, i int) *pbt.Case
	Run func(c *pbt.Case, st *pbt.Stats) *pbt.Fail
}

// Parts maps "property/part" to its generator and oracle.
var Parts = map[string]Part{}

func part(prop, name string, gen func(r *pbt.Rng, i int) *pbt.Case, run func(c *pbt.Case, st *pbt.Stats) *pbt.Fail) {
	Parts[prop+"/"+name] = Part{gen, run}
}

func mod(i, n int) int { return ((i % n) + n) % n }

// genHeight draws a tower height in one of several styles.
func genHeight(r *pbt.Rng, style int) int {
	switch style {
	case 0:
		return 1
	case 1:
		return 1 + r.Geo(1, 4, 30)
	case 2:
		return 1 + r.Geo(1, 2, 30)
	case 3:
		return r.In(1, 7)
	case 4:
		return []int{1, 2, 3, 4, 5, 6, 15, 16, 17, 20, 40}[r.N(11)]
	case 5:
		return []int{1, 4, 5, 16}[r.N(4)]
	default:
		return 16
	}
}

// size of a value universe, skewed to small ones.
func genSize(r *pbt.Rng) int {
	switch r.N(10) {
	case 0, 1, 2:
		return r.In(1, 4)
	case 3, 4, 5, 6:
		return r.In(3, 12)
	case 7, 8:
		return r.In(8, 40)
	default:
		return r.In(40, 160)
	}
}

func genSlot(r *pbt.Rng, v Variant, n int) pbt.Slot {
	return pbt.Slot{Variant: v.Name(), Vals: v.Gen(r, n)}
}

type mix struct{ add, rem, has, length, rng, rfr int }

// genOps draws a sequential history.
func genOps(r *pbt.Rng, n, nvals, hstyle int, m mix) []pbt.Op {
	ops := make([]pbt.Op, 0, n)
	// Phases change the balance between adding and removing.
	bias := 0
	for i := 0; i < n; i++ {
		if i%(1+n/4) == 0 {
			bias = r.N(4)
		}
		add, rem := m.add, m.rem
		switch bias {
		case 1:
			add *= 3
		case 2:
			rem *= 3
		}
		o := pbt.Op{A: r.N(nvals)}
		switch r.W(add, rem, m.has, m.length, m.rng, m.rfr) {
		case 0:
			o.K = pbt.OpAdd
			o.H = genHeight(r, hstyle)
		case 1:
			o.K = pbt.OpRemove
		case 2:
			o.K = pbt.OpContains
		case 3:
			o.K = pbt.OpLen
		case 4:
			o.K = pbt.OpRange
		default:
			o.K = pbt.OpRangeFrom
		}
		if (o.K == pbt.OpRange || o.K == pbt.OpRangeFrom) && r.P(1, 2) {
			o.N = 1 + r.N(nvals)
			if r.P(1, 3) {
				o.N = 1 + r.N(3)
			}
		}
		ops = append(ops, o)
	}
	return ops
}

func genLen(r *pbt.Rng) int {
	switch r.N(8) {
	case 0:
		return r.In(1, 8)
	case 1, 2, 3, 4:
		return r.In(8, 60)
	case 5, 6:
		return r.In(40, 200)
	default:
		return r.In(150, 600)
	}
}

func genSeqCase(prop, part string, r *pbt.Rng, v Variant, m mix) *pbt.Case {
	n := genSize(r)
	sl := genSlot(r, v, n)
	style := r.N(7)
	if r.P(1, 4) {
		style = 1
	}
	c := &pbt.Case{Prop: prop, Part: part, Seed: r.U64(), Slots: []pbt.Slot{sl}}
	c.Setup = genOps(r, genLen(r), len(sl.Vals), style, m)
	return c
}

// genLarge draws long histories over large universes (ascending, descending, random fills).
func genLarge(prop, part string, r *pbt.Rng, v Variant, maxN int, m mix) *pbt.Case {
	n := r.In(maxN/4, maxN)
	sl := genSlot(r, v, n)
	c := &pbt.Case{Prop: prop, Part: part, Seed: r.U64(), Slots: []pbt.Slot{sl}}
	style := r.In(1, 2)
	h := func() int {
		if r.P(1, 2) {
			return 0 // the code's own stream
		}
		return genHeight(r, style)
	}
	nv := len(sl.Vals)
	pat := r.N(3)
	for i := 0; i < nv; i++ {
		a := i
		switch pat {
		case 1:
			a = nv - 1 - i
		case 2:
			a = r.N(nv)
		}
		c.Setup = append(c.Setup, pbt.Op{K: pbt.OpAdd, A: a, H: h()})
	}
	tail := genOps(r, n/2, nv, style, m)
	iter := 0
	for _, o := range tail {
		if o.K == pbt.OpRange || o.K == pbt.OpRangeFrom {
			if iter++; iter > 12 {
				continue
			}
		}
		c.Setup = append(c.Setup, o)
	}
	// Removing most of it again.
	if r.P(1, 2) {
		for i := 0; i < nv; i++ {
			if i%17 != 0 {
				c.Setup = append(c.Setup, pbt.Op{K: pbt.OpRemove, A: i})
			}
		}
	}
	return c
}

// pickAll spreads the cases evenly over the variants.
func pickAll(i int) Variant { return pick(i, All, focusAll) }

// pickCore does so over the variants that differ in the code they run.
func pickCore(i int) Variant { return pick(i, Core, focusCore) }

// Variants of the types in focus, see Focus.
var focusAll, focusCore []Variant

// pick gives every second case to the variants in focus, if there are any.
func pick(i int, vs, focus []Variant) Variant {
	if len(focus) == 0 {
		return vs[mod(i, len(vs))]
	}
	if mod(i, 2) == 0 {
		return focus[mod(i>>1, len(focus))]
	}
	return vs[mod(i>>1, len(vs))]
}

// Focus directs half of the cases to the named types of the package.
func Focus(types string) {
	if types == "" {
		return
	}
	in := map[string]bool{}
	for _, t := range strings.Split(types, ",") {
		in[t] = true
	}
	for _, v := range All {
		if in[v.TypeName()] {
			focusAll = append(focusAll, v)
		}
	}
	for _, v := range Core {
		if in[v.TypeName()] {
			focusCore = append(focusCore, v)
		}
	}
}

// --- concurrent cases ---

type concFocus struct {
	w        mix // weights of operations in tasks
	nested   int // percent of iterations with nested updates
	excl     bool
	faults   bool
	maxTasks int
	maxOps   int
	small    bool // genBusy: programs of moderate size
	freshPtr bool // every value is added by one operation at most (publication checks)
}

// duel templates shape the tasks around known hard situations.
func genConc(prop, part string, r *pbt.Rng, v Variant, f concFocus) *pbt.Case {
	nk := 1 + r.W(3, 4, 4, 3, 2, 1)
	nv := nk
	if r.P(1, 3) {
		nv += r.N(3)
	}
	sl := genSlot(r, v, nv)
	nv = len(sl.Vals)
	c := &pbt.Case{Prop: prop, Part: part, Seed: r.U64(), Slots: []pbt.Slot{sl}}
	style := r.W(2, 4, 3, 3, 3, 3, 1)
	// Setup: some of the values, sometimes after churn.
	for k := 0; k < nv; k++ {
		if r.P(1, 2) {
			c.Setup = append(c.Setup, pbt.Op{K: pbt.OpAdd, A: k, H: genHeight(r, style)})
			if r.P(1, 8) {
				c.Setup = append(c.Setup, pbt.Op{K: pbt.OpRemove, A: k})
			}
		}
	}
	maxT, maxO := f.maxTasks, f.maxOps
	if maxT == 0 {
		maxT = 4
	}
	if maxO == 0 {
		maxO = 5
	}
	nt := 2 + r.W(5, 4, 2)
	if nt > maxT {
		nt = maxT
	}
	tmpl := r.N(8)
	focusKey := r.N(nv)
	added := map[int]bool{}
	newOp := func(task int) pbt.Op {
		w := f.w
		o := pbt.Op{}
		switch tmpl {
		case 0, 1: // everything about one value
			o.A = focusKey
			if r.P(1, 5) {
				o.A = r.N(nv)
			}
		case 2, 3: // a value and its neighbours
			o.A = mod(focusKey+r.In(-1, 1), nv)
		default:
			o.A = r.N(nv)
		}
		switch tmpl {
		case 1: // one adder task, one remover task
			if task == 0 {
				w.rem, w.add = 0, w.add*3
			} else if task == 1 {
				w.add, w.rem = 0, w.rem*3
			}
		case 4: // updaters against one reader task
			if task == 0 {
				w.add, w.rem = 0, 0
				if w.has+w.rng+w.rfr+w.length == 0 {
					w.has = 1
				}
			} else {
				w.has, w.rng, w.rfr, w.length = 0, 0, 0, 0
			}
		case 5: // removers only, then adders
			w.add /= 3
		case 6:
			w.rem /= 3
		}
		if w.add+w.rem+w.has+w.length+w.rng+w.rfr == 0 {
			w.has = 1
		}
		switch r.W(w.add, w.rem, w.has, w.length, w.rng, w.rfr) {
		case 0:
			o.K = pbt.OpAdd
			o.H = genHeight(r, style)
			if f.freshPtr {
				if added[o.A] {
					o.K = pbt.OpContains
					o.H = 0
				}
				added[o.A] = true
			}
		case 1:
			o.K = pbt.OpRemove
		case 2:
			o.K = pbt.OpContains
		case 3:
			o.K = pbt.OpLen
		case 4:
			o.K = pbt.OpRange
		default:
			o.K = pbt.OpRangeFrom
		}
		if o.K == pbt.OpRange || o.K == pbt.OpRangeFrom {
			if r.P(1, 4) {
				o.N = 1 + r.N(nv)
			}
			if f.nested > 0 && r.P(f.nested, 100) {
				for k := r.In(1, 3); k > 0; k-- {
					s := pbt.Op{K: []string{pbt.OpAdd, pbt.OpRemove, pbt.OpRemove, pbt.OpContains}[r.N(4)], At: r.In(1, nv+1), Rel: r.P(2, 3)}
					if s.Rel {
						s.A = r.In(-1, 1)
					} else {
						s.A = r.N(nv)
					}
					if s.K == pbt.OpAdd {
						s.H = genHeight(r, style)
					}
					o.Sub = append(o.Sub, s)
				}
			}
			if f.faults && r.P(1, 2) {
				o.F = r.In(1, nv)
			}
		}
		if f.excl && (o.K == pbt.OpContains || o.K == pbt.OpRange || o.K == pbt.OpRangeFrom || o.K == pbt.OpLen) {
			if r.P(1, 2) {
				o.E = 1
			} else {
				o.E = 1 + r.N(60)
			}
		}
		return o
	}
	if f.freshPtr {
		for _, o := range c.Setup {
			added[o.A] = true
		}
	}
	for t := 0; t < nt; t++ {
		no := 1 + r.N(3)
		if r.P(1, 6) {
			no = 1 + r.N(maxO)
		}
		var ops []pbt.Op
		for i := 0; i < no; i++ {
			ops = append(ops, newOp(t))
		}
		c.Tasks = append(c.Tasks, ops)
	}
	c.Plan = genPlan(r, c)
	return c
}

// genPlan draws a schedule: few switches spread over the expected length of the
// run, or many switches with geometric gaps, at different kinds of points.
func genPlan(r *pbt.Rng, c *pbt.Case) vsched.Plan {
	p := vsched.Plan{}
	per := 0 // expected counted points of one operation
	switch r.W(5, 4, 2, 1) {
	case 0:
		p.Mask, per = vsched.MaskSync, 30
	case 1:
		p.Mask, per = vsched.MaskWrite, 10
	case 2:
		p.Mask, per = vsched.MaskAll, 150
	default:
		p.Mask, per = vsched.MaskLoad, 15
	}
	p.First = r.N(len(c.Tasks))
	ops := 0
	for _, t := range c.Tasks {
		ops += len(t)
	}
	total := per * ops
	switch r.N(3) {
	case 0, 1:
		k := 1 + r.W(3, 4, 4, 3, 2, 1, 1)
		pos := make([]int, k)
		for i := range pos {
			if r.P(1, 3) {
				pos[i] = 1 + r.N(per*2)
			} else {
				pos[i] = 1 + r.N(total)
			}
		}
		for i := range pos {
			for j := i; j > 0 && pos[j] < pos[j-1]; j-- {
				pos[j], pos[j-1] = pos[j-1], pos[j]
			}
		}
		last := 0
		for _, x := range pos {
			g := x - last
			if g < 1 {
				g = 1
			}
			p.Sw = append(p.Sw, vsched.Switch{Gap: g, Pick: r.N(4)})
			last = x
		}
		if r.P(1, 50) { // whoever waits, waits long
			p.Quantum = []int{10000, 40000, 150000}[r.N(3)]
		}
	default:
		m := []int{1, 2, 4, 8, 16, 32}[r.N(6)]
		for k := r.In(4, 60); k > 0; k-- {
			g := 1
			for r.N(m+1) > 0 && g < 12*m {
				g++
			}
			p.Sw = append(p.Sw, vsched.Switch{Gap: g, Pick: r.N(4)})
		}
	}
	return p
}

// genBusy draws a larger program: more values, more goroutines and more calls of each,
// under a dense schedule. Histories of single values stay short enough to be decided.
func genBusy(prop, part string, r *pbt.Rng, v Variant, f concFocus) *pbt.Case {
	nv := []int{r.In(2, 8), r.In(6, 16), r.In(16, 48)}[r.N(3)]
	crowd := !f.small && r.P(1, 10) // many goroutines with a few calls each
	if f.small {
		nv = r.In(3, 14)
	} else if crowd {
		nv = r.In(6, 48)
	}
	sl := genSlot(r, v, nv)
	nv = len(sl.Vals)
	c := &pbt.Case{Prop: prop, Part: part, Seed: r.U64(), Slots: []pbt.Slot{sl}}
	style := r.W(1, 5, 4, 2, 1, 1, 1)
	fill := []int{0, 30, 60, 90}[r.N(4)]
	for k := 0; k < nv; k++ {
		if r.P(fill, 100) {
			c.Setup = append(c.Setup, pbt.Op{K: pbt.OpAdd, A: k, H: genHeight(r, style)})
		}
	}
	for k := r.N(2) * r.N(nv); k > 0; k-- { // churn
		a := r.N(nv)
		c.Setup = append(c.Setup, pbt.Op{K: pbt.OpAdd, A: a, H: genHeight(r, style)}, pbt.Op{K: pbt.OpRemove, A: a})
	}
	nt := r.In(2, 8)
	total := r.In(30, 240)
	if f.small {
		nt, total = r.In(2, 4), r.In(8, 40)
	}
	perVal := 40 // calls per value at most
	if crowd {
		nt = []int{r.In(9, 20), r.In(16, 40), r.In(32, 70)}[r.N(3)]
		total, perVal = nt*r.In(2, 4), 10
	}
	used := make([]int, nv) // calls per value
	iters, limit := 0, 12
	ntask := make([]mix, nt)
	pat := make([]int, nt)
	pos := make([]int, nt)
	for t := range ntask {
		w := f.w
		switch r.N(5) {
		case 0:
			w.rem /= 3
		case 1:
			w.add /= 3
		case 2:
			if t > 0 && w.has+w.length+w.rng+w.rfr > 0 { // a reader
				w.add, w.rem = w.add/4, w.rem/4
			}
		}
		if w.add+w.rem+w.has+w.length+w.rng+w.rfr == 0 {
			w.has = 1
		}
		ntask[t], pat[t], pos[t] = w, r.N(5), r.N(nv)
	}
	hot := r.N(nv)
	c.Tasks = make([][]pbt.Op, nt)
	for n := 0; n < total; n++ {
		t := r.N(nt)
		w := ntask[t]
		o := pbt.Op{}
		switch pat[t] {
		case 0: // upwards
			pos[t] = mod(pos[t]+1, nv)
			o.A = pos[t]
		case 1: // downwards
			pos[t] = mod(pos[t]-1, nv)
			o.A = pos[t]
		case 2: // around a value
			o.A = mod(hot+r.In(-2, 2), nv)
		default:
			o.A = r.N(nv)
		}
		switch r.W(w.add, w.rem, w.has, w.length, w.rng, w.rfr) {
		case 0:
			o.K, o.H = pbt.OpAdd, genHeight(r, style)
		case 1:
			o.K = pbt.OpRemove
		case 2:
			o.K = pbt.OpContains
		case 3:
			o.K = pbt.OpLen
		case 4:
			o.K = pbt.OpRange
		default:
			o.K = pbt.OpRangeFrom
		}
		rng := o.K == pbt.OpRange || o.K == pbt.OpRangeFrom
		if rng {
			if iters++; iters > limit {
				continue
			}
			if r.P(1, 4) {
				o.N = 1 + r.N(nv)
			}
			if f.nested > 0 && r.P(f.nested, 100) {
				for k := r.In(1, 4); k > 0; k-- {
					s := pbt.Op{K: []string{pbt.OpAdd, pbt.OpRemove, pbt.OpRemove, pbt.OpContains}[r.N(4)], At: r.In(1, nv+1), A: r.N(nv)}
					if s.K == pbt.OpAdd {
						s.H = genHeight(r, style)
					}
					if used[s.A]++; used[s.A] <= perVal {
						o.Sub = append(o.Sub, s)
					}
				}
			}
			if f.faults && r.P(1, 2) {
				o.F = r.In(1, nv)
			}
		} else if o.K != pbt.OpLen {
			if used[o.A]++; used[o.A] > perVal {
				continue
			}
		}
		if f.excl && (rng || o.K == pbt.OpContains || o.K == pbt.OpLen) && r.P(1, 3) {
			o.E = 1 + r.N(120)
		}
		c.Tasks[t] = append(c.Tasks[t], o)
	}
	var tasks [][]pbt.Op
	for _, l := range c.Tasks {
		if len(l) > 0 {
			tasks = append(tasks, l)
		}
	}
	c.Tasks = tasks
	c.Plan = genDense(r, c)
	if crowd && r.P(2, 3) {
		c.Plan.Mask = []int{vsched.MaskSync, vsched.MaskSync, vsched.MaskAll, vsched.MaskWrite}[r.N(4)]
		c.Plan.First, c.Plan.Sw = 0, append(genGather(r, len(tasks)), c.Plan.Sw...)
	}
	return c
}

// genGather starts n goroutines one after the other and stops each in its first call.
func genGather(r *pbt.Rng, n int) []vsched.Switch {
	var sw []vsched.Switch
	m := []int{2, 8, 20, 60}[r.N(4)]
	for t := 0; t+1 < n; t++ {
		sw = append(sw, vsched.Switch{Gap: 1 + r.N(m), Pick: t})
	}
	return sw
}

// genSweep draws a program of sweeps: goroutines that add, remove or replace runs of
// neighbouring values one after the other, while others read. An iteration that is
// stopped at one of them meets long chains of removed or new elements.
func genSweep(prop, part string, r *pbt.Rng, v Variant, f concFocus) *pbt.Case {
	nv := []int{r.In(6, 16), r.In(12, 40), r.In(30, 120)}[r.N(3)]
	sl := genSlot(r, v, nv)
	nv = len(sl.Vals)
	c := &pbt.Case{Prop: prop, Part: part, Seed: r.U64(), Slots: []pbt.Slot{sl}}
	style := r.W(2, 6, 3, 2, 1, 1, 1)
	fill := []int{0, 50, 90, 100}[r.W(1, 2, 2, 3)]
	for k := 0; k < nv; k++ {
		if r.P(fill, 100) {
			c.Setup = append(c.Setup, pbt.Op{K: pbt.OpAdd, A: k, H: genHeight(r, style)})
		}
	}
	used := make([]int, nv)
	use := func(k int) bool { used[k]++; return used[k] <= 30 }
	upd := f.w.add+f.w.rem > 0
	read := f.w.has+f.w.length+f.w.rng+f.w.rfr > 0
	nt := r.In(2, 5)
	hot := r.N(nv)
	for t := 0; t < nt; t++ {
		var ops []pbt.Op
		if upd && (t == 0 || !read || r.P(1, 2)) {
			for k := r.In(1, 3); k > 0; k-- {
				kind, dir := r.W(f.w.rem+1, f.w.add+1, 1, 1), 1
				if r.P(1, 4) {
					dir = -1
				}
				if r.P(1, 8) {
					dir *= 2
				}
				a := mod(hot+r.In(-1, 2), nv)
				if r.P(1, 3) {
					a = r.N(nv)
				}
				for n := r.In(2, nv); n > 0 && a >= 0 && a < nv; n, a = n-1, a+dir {
					if !use(a) {
						continue
					}
					rem := pbt.Op{K: pbt.OpRemove, A: a}
					add := pbt.Op{K: pbt.OpAdd, A: a, H: genHeight(r, style)}
					switch kind {
					case 0:
						ops = append(ops, rem)
					case 1:
						ops = append(ops, add)
					case 2:
						ops = append(ops, rem, add)
					default:
						ops = append(ops, add, rem)
					}
				}
			}
		} else if read {
			for k := r.In(1, 3); k > 0; k-- {
				o := pbt.Op{A: mod(hot+r.In(-2, 2), nv)}
				if r.P(1, 3) {
					o.A = r.N(nv)
				}
				switch r.W(f.w.has, f.w.length, 2*f.w.rng, 2*f.w.rfr) {
				case 0:
					o.K = pbt.OpContains
				case 1:
					o.K = pbt.OpLen
				case 2:
					o.K = pbt.OpRange
				default:
					o.K = pbt.OpRangeFrom
				}
				rng := o.K == pbt.OpRange || o.K == pbt.OpRangeFrom
				if rng && r.P(1, 8) {
					o.N = 1 + r.N(nv)
				}
				if rng && f.nested > 0 && r.P(f.nested, 100) {
					for _, s := range genSweepSubs(r, nv, style) {
						if s.Rel || use(s.A) {
							o.Sub = append(o.Sub, s)
						}
					}
				}
				if rng && f.faults && r.P(1, 2) {
					o.F = r.In(1, nv)
				}
				if f.excl && r.P(2, 3) {
					o.E = 1 + r.N(400)
				}
				ops = append(ops, o)
			}
		}
		if len(ops) > 0 {
			c.Tasks = append(c.Tasks, ops)
		}
	}
	if len(c.Tasks) == 0 {
		c.Tasks = [][]pbt.Op{{{K: pbt.OpContains}}}
	}
	if r.P(1, 4) {
		c.Plan = genDense(r, c)
	} else {
		c.Plan = genPlan(r, c)
	}
	return c
}

// genSweepSubs draws the calls of a callback that treats a run of neighbours of the
// visited value (or a run elsewhere), one after the other.
func genSweepSubs(r *pbt.Rng, nv, style int) []pbt.Op {
	var out []pbt.Op
	n, at, dir := r.In(2, nv+1), 1+r.N(nv), 1
	if r.P(1, 3) {
		at = 1 + r.N(3)
	}
	if n > 24 && r.P(2, 3) {
		n = r.In(2, 24)
	}
	if r.P(1, 4) {
		dir = -1
	}
	a, rel := r.In(-2, 2), r.P(3, 4)
	if !rel {
		a = r.N(nv)
	}
	kind := r.W(5, 2, 2, 1)
	for ; n > 0; n, a = n-1, a+dir {
		if !rel && (a < 0 || a >= nv) {
			break
		}
		rem := pbt.Op{K: pbt.OpRemove, At: at, A: a, Rel: rel}
		add := pbt.Op{K: pbt.OpAdd, At: at, A: a, Rel: rel, H: genHeight(r, style)}
		switch kind {
		case 0:
			out = append(out, rem)
		case 1:
			out = append(out, add)
		case 2:
			out = append(out, rem, add)
		default:
			out = append(out, add, rem)
		}
	}
	return out
}

// genHostile draws a program in which one call is stopped at every lock it goes for (or
// store, or load, if it takes none) while others change its surroundings: whatever it has
// found out is wrong by the time it can act on it, many times in a row.
func genHostile(prop, part string, r *pbt.Rng, v Variant, f concFocus) *pbt.Case {
	// An update next to a node that is being removed waits: to disturb a Remove again and
	// again, the values before it are removed, one after the other.
	chain := r.P(1, 4)
	n := r.In(2, 8)
	if chain {
		n = []int{r.In(3, 8), r.In(6, 16), r.In(12, 40)}[r.N(3)]
	}
	sl := genSlot(r, v, n)
	nv := len(sl.Vals)
	c := &pbt.Case{Prop: prop, Part: part, Seed: r.U64(), Slots: []pbt.Slot{sl}}
	style := r.W(2, 5, 4, 2, 2, 1, 1)
	in := make([]bool, nv)
	for k := 0; k < nv; k++ {
		if chain || r.P(1, 2) {
			c.Setup = append(c.Setup, pbt.Op{K: pbt.OpAdd, A: k, H: genHeight(r, style)})
			in[k] = true
		}
	}
	x, d := r.N(nv), 1-2*r.N(2) // Desc or not: the values before x may be on either side
	if chain && r.P(2, 3) {
		x = (nv - 1) * r.N(2)
		if x == 0 {
			d = 1
		} else {
			d = -1
		}
	}
	victim := func() pbt.Op {
		o := pbt.Op{A: x}
		w := f.w
		if r.P(3, 4) {
			w.has, w.length, w.rng, w.rfr = 0, 0, 0, 0
		}
		if w.add+w.rem+w.has+w.length+w.rng+w.rfr == 0 {
			w = f.w
		}
		switch r.W(w.add, w.rem, w.has, w.length, w.rng, w.rfr) {
		case 0:
			o.K, o.H = pbt.OpAdd, genHeight(r, style)
		case 1:
			o.K = pbt.OpRemove
		case 2:
			o.K = pbt.OpContains
		case 3:
			o.K = pbt.OpLen
		case 4:
			o.K = pbt.OpRange
		default:
			o.K, o.A = pbt.OpRangeFrom, mod(x-r.N(2), nv)
		}
		if f.excl && o.K != pbt.OpAdd && o.K != pbt.OpRemove && r.P(1, 2) {
			o.E = 1 + r.N(400)
		}
		return o
	}
	first := victim()
	if chain && f.w.rem > 0 && r.P(2, 3) {
		first = pbt.Op{K: pbt.OpRemove, A: x}
	}
	if in[x] != (first.K == pbt.OpRemove) && first.K != pbt.OpContains && r.P(3, 4) { // it has work to do
		if in[x] {
			for i := range c.Setup {
				if c.Setup[i].A == x {
					c.Setup = append(c.Setup[:i:i], c.Setup[i+1:]...)
					break
				}
			}
		} else {
			c.Setup = append(c.Setup, pbt.Op{K: pbt.OpAdd, A: x, H: genHeight(r, style)})
		}
		in[x] = !in[x]
	}
	c.Tasks = append(c.Tasks, []pbt.Op{first})
	if r.P(1, 4) {
		c.Tasks[0] = append(c.Tasks[0], victim())
	}
	rounds := []int{r.In(1, 6), r.In(4, 16), r.In(10, 40), r.In(30, 130)}[r.N(4)]
	pat, y := r.W(6, 2, 1, 1), mod(x+d, nv)
	if r.P(1, 3) {
		y = r.N(nv)
	}
	if chain {
		rounds, pat = nv-1, 4
	}
	var ops []pbt.Op
	toggle := func(k int) {
		if in[k] {
			ops = append(ops, pbt.Op{K: pbt.OpRemove, A: k})
		} else {
			ops = append(ops, pbt.Op{K: pbt.OpAdd, A: k, H: genHeight(r, style)})
		}
		in[k] = !in[k]
	}
	for i := 0; i < rounds; i++ {
		switch pat {
		case 0:
			toggle(y)
		case 1: // the neighbours on both sides
			toggle(mod(x+1-2*r.N(2), nv))
		case 2: // anything
			toggle(r.N(nv))
		case 4:
			toggle(mod(x+d*(i+1), nv))
		default: // one after the other
			toggle(mod(y+i, nv))
		}
	}
	c.Tasks = append(c.Tasks, ops)
	if r.P(1, 5) {
		o := []pbt.Op{victim(), victim()}
		o[0].A, o[1].A = r.N(nv), r.N(nv)
		c.Tasks = append(c.Tasks, o[:1+r.N(2)])
	}
	p := vsched.Plan{Mask: []int{vsched.MaskSync, vsched.MaskAll, vsched.MaskWrite}[r.N(3)]}
	stop := vsched.Switch{Mask: vsched.MaskLock, Gap: 1}
	switch {
	case first.K != pbt.OpAdd && first.K != pbt.OpRemove:
		stop = vsched.Switch{Mask: vsched.MaskLoad, Gap: r.In(1, 5)}
	case r.P(1, 4):
		stop = vsched.Switch{Mask: []int{vsched.MaskWrite, vsched.MaskLoad, vsched.MaskSync}[r.N(3)], Gap: r.In(1, 12)}
	}
	if r.P(1, 6) {
		stop.Gap++
	}
	vary := r.P(1, 3)
	for k := rounds + r.N(3); k > 0; k-- {
		s := stop
		if vary && r.P(1, 4) {
			s.Gap += r.N(3)
		}
		e := vsched.Switch{Mask: vsched.MaskEnd, Gap: 1}
		if vary && r.P(1, 6) {
			e.Gap++
		}
		if vary && r.P(1, 12) {
			e = vsched.Switch{Gap: 1 + r.N(60)}
		}
		if len(c.Tasks) > 2 {
			e.Pick = r.W(8, 1)
			s.Pick = r.W(8, 1)
		}
		p.Sw = append(p.Sw, s, e)
	}
	for k := r.N(4); k > 0; k-- {
		p.Sw = append(p.Sw, vsched.Switch{Gap: 1 + r.N(60), Pick: r.N(4)})
	}
	c.Plan = p
	return c
}

// genDense draws many switches with geometric gaps, now and then in bursts.
func genDense(r *pbt.Rng, c *pbt.Case) vsched.Plan {
	p := vsched.Plan{First: r.N(len(c.Tasks))}
	per := 0
	switch r.W(4, 4, 3, 1) {
	case 0:
		p.Mask, per = vsched.MaskSync, 40
	case 1:
		p.Mask, per = vsched.MaskWrite, 8
	case 2:
		p.Mask, per = vsched.MaskAll, 200
	default:
		p.Mask, per = vsched.MaskLoad, 25
	}
	k := r.In(20, 400)
	m := per * c.NumOps() / k // spread over the whole run
	if r.P(1, 2) {
		m = []int{1, 2, 4, 8, 16, 32}[r.N(6)]
	}
	if m < 1 {
		m = 1
	}
	burst := r.P(1, 3)
	for i := 0; i < k; i++ {
		g := 1 + r.N(2*m)
		if burst && i/8%2 == 0 {
			g = 1 + r.N(4)
		}
		p.Sw = append(p.Sw, vsched.Switch{Gap: g, Pick: r.N(max(8, len(c.Tasks)))})
	}
	return p
}
