package props

import "skipverif/pbt"

// --- C21: a stalled operation does not hold up operations elsewhere ---

// genApart draws a set in which two groups of values are separated by elements that stay:
// goroutines are busy with one group, and one goroutine updates the other group, while the
// first ones are stopped wherever they happen to be. In the other mode the goroutines that
// are stopped only read; then the values need not be apart.
func genApart(r *pbt.Rng, i int) *pbt.Case {
	v := pickCore(i)
	hot, far := r.In(1, 4), r.In(1, 4)
	between := r.In(10, 24)
	outer := r.N(6)
	sl := genSlot(r, v, outer+hot+between+far+r.N(4))
	c := &pbt.Case{Prop: "C21", Part: "apart", Seed: r.U64(), Slots: []pbt.Slot{sl}}
	u := v.Universe(sl.Vals)
	nc := u.NC()
	key := func(cl int) int { return u.First(cl) }
	if nc < 4 || r.P(1, 5) {
		return genStalledReaders(r, c, u)
	}
	// Classes in the set's order; the groups may lie either way round.
	if hot+far+outer >= nc-1 {
		hot, far, outer = 1, 1, 0
	}
	between = nc - hot - far - outer
	lo := r.N(outer + 1)
	flip := r.P(1, 2)
	pos := func(x int) int { // position counted from the hot end
		if flip {
			return nc - 1 - x
		}
		return x
	}
	h := 1 + r.W(8, 3, 2, 1, 1, 1, 1)
	if r.P(1, 20) {
		h = r.In(1, 16)
	}
	style := r.In(0, 5)
	low := func() int { return 1 + r.N(h) }
	tall := lo + hot + r.N(between)
	for x := 0; x < nc; x++ {
		k := key(pos(x))
		switch {
		case x >= lo && x < lo+hot || x >= lo+hot+between && x < lo+hot+between+far:
			if r.P(1, 2) {
				c.Setup = append(c.Setup, pbt.Op{K: pbt.OpAdd, A: k, H: low()})
			}
		case x >= lo+hot && x < lo+hot+between:
			o := pbt.Op{K: pbt.OpAdd, A: k, H: genHeight(r, style)}
			if x == tall {
				o.H = h + r.Geo(1, 2, 4)
			}
			c.Setup = append(c.Setup, o)
		default:
			if r.P(2, 3) {
				c.Setup = append(c.Setup, pbt.Op{K: pbt.OpAdd, A: k, H: low()})
			}
		}
	}
	for a := range c.Setup { // in any order
		b := r.N(a + 1)
		c.Setup[a], c.Setup[b] = c.Setup[b], c.Setup[a]
	}
	upd := func(from, n int) pbt.Op {
		o := pbt.Op{K: pbt.OpAdd, A: key(pos(from + r.N(n)))}
		if r.P(1, 2) {
			o.K = pbt.OpRemove
		} else {
			o.H = low()
		}
		return o
	}
	crowd := r.P(1, 15) // many stopped goroutines
	nt := r.In(1, 3)
	if crowd {
		nt = []int{r.In(4, 12), r.In(8, 40), r.In(30, 70)}[r.N(3)]
	}
	for t := nt; t > 0; t-- {
		var ops []pbt.Op
		for k := r.In(1, 5); k > 0; k-- {
			o := upd(lo, hot)
			if r.P(1, 6) {
				o = pbt.Op{K: []string{pbt.OpRange, pbt.OpRangeFrom, pbt.OpContains, pbt.OpLen}[r.N(4)], A: r.N(u.N())}
			}
			ops = append(ops, o)
		}
		c.Tasks = append(c.Tasks, ops)
	}
	var ops []pbt.Op
	for k := r.In(1, 4); k > 0; k-- {
		o := upd(lo+hot+between, far)
		o.E = 1
		if r.P(1, 3) { // the others are stopped while it is at work
			o.E = 1 + r.N(80)
		}
		ops = append(ops, o)
	}
	c.Tasks = append(c.Tasks, ops)
	c.Plan = genPlan(r, c)
	if crowd {
		c.Plan.First, c.Plan.Sw = 0, genGather(r, len(c.Tasks))
	}
	return c
}

func genStalledReaders(r *pbt.Rng, c *pbt.Case, u Univ) *pbt.Case {
	n, style := u.N(), r.In(0, 6)
	for k := 0; k < n; k++ {
		if r.P(2, 3) {
			c.Setup = append(c.Setup, pbt.Op{K: pbt.OpAdd, A: k, H: genHeight(r, style)})
		}
	}
	crowd := r.P(1, 8)
	nt := r.In(1, 3)
	if crowd {
		nt = []int{r.In(4, 12), r.In(8, 40), r.In(30, 70)}[r.N(3)]
	}
	for t := nt; t > 0; t-- {
		var ops []pbt.Op
		for k := r.In(1, 4); k > 0; k-- {
			o := pbt.Op{K: []string{pbt.OpRange, pbt.OpRangeFrom, pbt.OpContains, pbt.OpLen}[r.W(4, 3, 2, 1)], A: r.N(n)}
			if o.K == pbt.OpRange || o.K == pbt.OpRangeFrom {
				o.N = r.N(2) * r.N(n+1)
				if r.P(1, 3) { // the callback looks around
					o.Sub = []pbt.Op{{K: pbt.OpContains, At: 1 + r.N(n), A: r.N(n)}}
				}
			}
			ops = append(ops, o)
		}
		c.Tasks = append(c.Tasks, ops)
	}
	var ops []pbt.Op
	for k := r.In(1, 4); k > 0; k-- {
		o := pbt.Op{K: pbt.OpAdd, A: r.N(n), E: 1, H: genHeight(r, style)}
		if r.P(1, 3) {
			o.E = 1 + r.N(80)
		}
		if r.P(1, 2) {
			o.K, o.H = pbt.OpRemove, 0
		}
		ops = append(ops, o)
	}
	c.Tasks = append(c.Tasks, ops)
	c.Plan = genPlan(r, c)
	if crowd {
		c.Plan.First, c.Plan.Sw = 0, genGather(r, len(c.Tasks))
	}
	return c
}

// runApart reports a case only if it fails under several random streams: should the code
// draw heights that are not the harness's, unlucky towers do not count.
func runApart(run runFn) runFn {
	return func(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
		f := run(c, st)
		if f == nil {
			return nil
		}
		for i := uint64(1); i <= 8; i++ {
			c2 := *c
			c2.Seed += i * 0x9e3779b97f4a7c15
			if g := run(&c2, pbt.NewStats()); g == nil || g.Kind != f.Kind {
				return nil
			}
		}
		return f
	}
}
