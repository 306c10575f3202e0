package props

import (
	"skipverif/pbt"
	"skipverif/vsched"
)

// Guided generation: cases that reach something new (a statement executed more often
// within one call than ever before, a switch between two places not seen yet) are kept,
// and most further cases are made from them by small changes.

// Mutator draws a case from one that was kept; other is a second one.
type Mutator func(r *pbt.Rng, base, other *pbt.Case) *pbt.Case

// Mutators of the guided parts.
var Mutators = map[string]Mutator{}

const (
	maxMutTasks = 4
	maxMutOps   = 16
	maxMutSetup = 16
	maxMutSw    = 120
)

// guided registers the guided part of a property.
func guided(prop string, f concFocus, run func(c *pbt.Case, st *pbt.Stats) *pbt.Fail) {
	mid := f
	mid.small = true
	part(prop, "guided", func(r *pbt.Rng, i int) *pbt.Case {
		if r.P(1, 3) && !f.freshPtr {
			return genBusy(prop, "guided", r, pickCore(i), mid)
		}
		if r.P(1, 5) && !f.freshPtr {
			return genHostile(prop, "guided", r, pickCore(i), f)
		}
		return genConc(prop, "guided", r, pickCore(i), f)
	}, run)
	Mutators[prop+"/guided"] = func(r *pbt.Rng, base, other *pbt.Case) *pbt.Case { return mutateConc(r, base, other, f) }
}

// guidedPlans registers a guided part in which only the schedules change.
func guidedPlans(prop string, gen func(r *pbt.Rng, i int) *pbt.Case, run runFn) {
	part(prop, "guided", gen, run)
	Mutators[prop+"/guided"] = func(r *pbt.Rng, base, other *pbt.Case) *pbt.Case {
		return mutateConc(r, base, other, concFocus{freshPtr: true})
	}
}

func mutateConc(r *pbt.Rng, base, other *pbt.Case, f concFocus) *pbt.Case {
	c := base.Copy()
	nv := len(c.Slots[0].Vals)
	op := func() pbt.Op { return randomOp(r, f, nv) }
	for n := 1 + r.W(4, 3, 2, 1, 1); n > 0; n-- {
		t := r.N(len(c.Tasks))
		ops := c.Tasks[t]
		sw := c.Plan.Sw
		kind := r.W(6, 6, 8, 4, 3, 2, 2, 5, 4, 4, 3, 2, 2, 2, 6, 3)
		if f.freshPtr && kind >= 7 {
			kind = r.N(7)
		}
		switch kind {
		case 0: // another switch
			if len(sw) < maxMutSw {
				at := r.N(len(sw) + 1)
				g := 1 + r.N([]int{3, 10, 40, 150}[r.N(4)])
				x := vsched.Switch{Gap: g, Pick: r.N(4)}
				if r.P(1, 8) {
					x.Mask, x.Gap = []int{vsched.MaskLock, vsched.MaskLock, vsched.MaskEnd, vsched.MaskWrite}[r.N(4)], 1+r.N(2)*r.N(3)
				}
				if at < len(sw) && sw[at].Gap > g && r.P(1, 2) { // in the middle of a stretch
					sw[at].Gap -= g
				}
				sw = append(sw[:at:at], append([]vsched.Switch{x}, sw[at:]...)...)
			}
		case 1: // one less, the stretches joined or not
			if len(sw) > 0 {
				at := r.N(len(sw))
				if at+1 < len(sw) && r.P(1, 2) {
					sw[at+1].Gap += sw[at].Gap
				}
				sw = append(sw[:at:at], sw[at+1:]...)
			}
		case 2: // moved
			if len(sw) > 0 {
				at := r.N(len(sw))
				d := r.In(-3, 3)
				if r.P(1, 3) {
					d = r.In(-30, 30)
				}
				sw[at].Gap = max(1, sw[at].Gap+d)
				if at+1 < len(sw) && r.P(1, 2) {
					sw[at+1].Gap = max(1, sw[at+1].Gap-d)
				}
			}
		case 3:
			if len(sw) > 0 {
				sw[r.N(len(sw))].Pick = r.N(4)
			}
		case 4: // a stretch of the schedule twice
			if len(sw) > 0 {
				a := r.N(len(sw))
				b := min(len(sw), a+1+r.N(6))
				if len(sw)+b-a <= maxMutSw {
					sw = append(sw[:b:b], append(append([]vsched.Switch{}, sw[a:b]...), sw[b:]...)...)
				}
			}
		case 5:
			c.Plan.First = r.N(len(c.Tasks))
		case 6: // the end of the schedule replaced
			if len(sw) > 0 {
				sw = sw[:r.N(len(sw)+1)]
				for k := r.N(6); k > 0 && len(sw) < maxMutSw; k-- {
					sw = append(sw, vsched.Switch{Gap: 1 + r.N([]int{5, 30, 120}[r.N(3)]), Pick: r.N(4)})
				}
			}
		case 7: // another call
			if len(ops) < maxMutOps {
				at := r.N(len(ops) + 1)
				x := op()
				if len(ops) > 0 && r.P(1, 2) {
					x = ops[r.N(len(ops))]
				}
				c.Tasks[t] = append(ops[:at:at], append([]pbt.Op{x}, ops[at:]...)...)
			}
		case 8: // one call less
			if len(ops) > 1 {
				at := r.N(len(ops))
				c.Tasks[t] = append(ops[:at:at], ops[at+1:]...)
			}
		case 9: // another value or height
			if len(ops) > 0 {
				o := &ops[r.N(len(ops))]
				switch {
				case o.K == pbt.OpAdd && r.P(1, 2):
					o.H = genHeight(r, r.N(7))
				case o.E > 0 && r.P(1, 2):
					o.E = 1 + r.N(60)
				default:
					o.A = r.N(nv)
				}
			}
		case 10:
			if len(ops) > 0 {
				ops[r.N(len(ops))] = op()
			}
		case 11: // another task
			if lim := f.maxTasks; len(c.Tasks) < maxMutTasks && (lim == 0 || len(c.Tasks) < lim) {
				x := []pbt.Op{op()}
				if r.P(1, 2) {
					x = append([]pbt.Op{}, ops...)
				} else if r.P(1, 2) {
					x = append(x, op())
				}
				c.Tasks = append(c.Tasks, x)
			}
		case 12: // a task of another case
			x := other.Copy().Tasks
			c.Tasks[t] = x[r.N(len(x))]
		case 13: // one task less
			if len(c.Tasks) > 2 {
				c.Tasks = append(c.Tasks[:t:t], c.Tasks[t+1:]...)
			}
			if r.P(1, 4) {
				c.Plan = other.Copy().Plan
			}
			continue
		case 14: // another call, and the schedule goes back and forth once more
			if len(ops) < maxMutOps && len(sw) > 0 && len(sw)+2 <= maxMutSw {
				at := r.N(len(ops) + 1)
				x := op()
				if len(ops) > 0 && r.P(1, 2) {
					x.K, x.H = ops[r.N(len(ops))].K, ops[r.N(len(ops))].H
				}
				c.Tasks[t] = append(ops[:at:at], append([]pbt.Op{x}, ops[at:]...)...)
				a := r.N(len(sw))
				two := []vsched.Switch{sw[a], sw[min(a+1, len(sw)-1)]}
				sw = append(sw[:a:a], append(two, sw[a:]...)...)
			}
		default: // other elements
			if n := len(c.Setup); n > 0 && r.P(1, 2) {
				at := r.N(n)
				if r.P(1, 2) && c.Setup[at].K == pbt.OpAdd {
					c.Setup[at].H = genHeight(r, r.N(7))
				} else {
					c.Setup = append(c.Setup[:at:at], c.Setup[at+1:]...)
				}
			} else if n < maxMutSetup {
				at := r.N(n + 1)
				x := pbt.Op{K: pbt.OpAdd, A: r.N(nv), H: genHeight(r, r.N(7))}
				if r.P(1, 6) {
					x = pbt.Op{K: pbt.OpRemove, A: r.N(nv)}
				}
				c.Setup = append(c.Setup[:at:at], append([]pbt.Op{x}, c.Setup[at:]...)...)
			}
		}
		c.Plan.Sw = sw
	}
	c.Plan.First = mod(c.Plan.First, len(c.Tasks))
	return c
}

// randomOp draws a call without the shape that genConc gives to its tasks.
func randomOp(r *pbt.Rng, f concFocus, nv int) pbt.Op {
	w := f.w
	o := pbt.Op{A: r.N(nv)}
	switch r.W(w.add, w.rem, w.has, w.length, w.rng, w.rfr) {
	case 0:
		o.K, o.H = pbt.OpAdd, genHeight(r, r.N(7))
	case 1:
		o.K = pbt.OpRemove
	case 2:
		o.K = pbt.OpContains
	case 3:
		o.K = pbt.OpLen
	case 4:
		o.K = pbt.OpRange
	default:
		o.K = pbt.OpRangeFrom
	}
	if o.K == pbt.OpRange || o.K == pbt.OpRangeFrom {
		if r.P(1, 4) {
			o.N = 1 + r.N(nv)
		}
		if f.nested > 0 && r.P(f.nested, 100) {
			s := pbt.Op{K: []string{pbt.OpAdd, pbt.OpRemove, pbt.OpRemove, pbt.OpContains}[r.N(4)], At: r.In(1, nv+1), Rel: r.P(2, 3), A: r.In(-1, 1)}
			if s.K == pbt.OpAdd {
				s.H = genHeight(r, r.N(7))
			}
			if !s.Rel {
				s.A = r.N(nv)
			}
			o.Sub = append(o.Sub, s)
		}
		if f.faults && r.P(1, 2) {
			o.F = r.In(1, nv)
		}
	}
	if f.excl && o.K != pbt.OpAdd && o.K != pbt.OpRemove {
		o.E = 1 + r.N(60)
	}
	return o
}

// Corpus holds the cases worth changing.
type Corpus struct {
	turns, others []*pbt.Case // kept for a new count of turns; for something else that is new
	top           map[int]int // site -> index in best
	best          []best      // the case with the highest count of turns of each site
	pending       []pending   // the newest ones, to be changed at once
}

type pending struct {
	c    *pbt.Case
	left int
}

// Kept is a case with what it saw, as workers exchange them.
type Kept struct {
	Case  *pbt.Case `json:"case"`
	Turns []int     `json:"turns"`
}

const energy = 128

type best struct {
	n int
	c *pbt.Case
}

// Next draws a case, or returns nil when a fresh one is due.
func (k *Corpus) Next(r *pbt.Rng, m Mutator) *pbt.Case {
	if len(k.turns)+len(k.others) == 0 || r.P(1, 5) {
		return nil
	}
	pick := func() *pbt.Case {
		if n := len(k.pending); n > 0 && r.P(1, 2) {
			p := &k.pending[n-1]
			if p.left--; p.left <= 0 {
				k.pending = k.pending[:n-1]
			}
			return p.c
		}
		if len(k.best) > 0 && r.P(1, 3) {
			return k.best[r.N(len(k.best))].c
		}
		l := k.others
		if len(l) == 0 || len(k.turns) > 0 && r.P(1, 2) {
			l = k.turns
		}
		if n := len(l); n > 48 && r.P(1, 2) { // the latest ones
			return l[n-1-r.N(48)]
		}
		return l[r.N(len(l))]
	}
	return m(r, pick(), pick())
}

// Keep stores a case that saw something new.
func (k *Corpus) Keep(c *pbt.Case, turns []int, others int) {
	const most = 20000
	if len(turns) > 0 && len(k.turns) < most {
		k.turns = append(k.turns, c)
	} else if others > 0 && len(k.others) < most {
		k.others = append(k.others, c)
	}
	if k.top == nil {
		k.top = map[int]int{}
	}
	deep := false
	for _, x := range turns {
		deep = deep || x&15 > 2
	}
	if deep {
		k.pending = append(k.pending, pending{c, energy})
	}
	for _, x := range turns {
		site, n := x>>4, x&15
		i, ok := k.top[site]
		if !ok {
			i = len(k.best)
			k.top[site] = i
			k.best = append(k.best, best{})
		}
		if n > k.best[i].n {
			k.best[i] = best{n, c}
		}
	}
}
