package props

import (
	"fmt"
	"math/bits"

	"skipverif/pbt"
)

// Sets of every size: iterations in full, from places that leave a round number of
// elements to visit, and stopped after a round number of them. On native code.

func genSizes(prop string) func(r *pbt.Rng, i int) *pbt.Case {
	return func(r *pbt.Rng, i int) *pbt.Case {
		n := []int{270, 600, 2100, 5000, 13000, 70000}[r.W(4, 4, 4, 3, 2, 1)]
		return &pbt.Case{Prop: prop, Part: "sizes", Seed: r.U64(), Slots: []pbt.Slot{{Variant: pickCore(i).Name()}},
			X: map[string]int{"n": n - r.N(3), "fill": r.N(4), "drain": r.N(4), "gap": r.N(2)}}
	}
}

// round tells whether sets of m elements are looked at.
func round(m int) bool {
	if m <= 40 || bits.OnesCount(uint(m)) == 1 || bits.OnesCount(uint(m+1)) == 1 || bits.OnesCount(uint(m-1)) == 1 {
		return true
	}
	switch {
	case m <= 600:
		return m%4 == 0 || m%10 == 0 || m%25 == 0
	case m <= 2500:
		return m%32 == 0 || m%100 == 0
	case m <= 20000:
		return m%256 == 0 || m%1000 == 0
	}
	return m%4096 == 0 || m%10000 == 0
}

func runSizes(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	n := c.X["n"]
	name := c.Slots[0].Variant
	r := pbt.NewRng(c.Seed, 79)
	off, vals := 0, n
	if c.X["gap"] == 1 { // every other value stays outside
		off, vals = 1, 2*n+1
	}
	u := ByName(name).Dense(vals, 0, 1)
	s := u.New()
	in := make([]bool, vals)
	order := func(mode int) []int {
		o := make([]int, n)
		for i := range o {
			o[i] = i
		}
		switch mode {
		case 1:
			for i := range o {
				o[i] = n - 1 - i
			}
		case 2:
			for i := range o {
				j := r.N(i + 1)
				o[i], o[j] = o[j], i
			}
		case 3: // from the middle outwards
			for i := range o {
				if i%2 == 0 {
					o[i] = n/2 + i/2
				} else {
					o[i] = n/2 - (i+1)/2
				}
				o[i] = mod(o[i], n)
			}
		}
		for i := range o {
			if off == 1 {
				o[i] = 2*o[i] + 1
			}
		}
		return o
	}
	var els []int
	// look compares one iteration with els[at:at+limit] (limit < 0: all of them).
	look := func(start, at, limit int) *pbt.Fail {
		kind, what := "iteration:rng", "Range"
		want := els[at:]
		if start >= 0 {
			kind, what = "iteration:rfr", fmt.Sprintf("RangeFrom value %d", start)
		}
		if limit >= 0 && limit < len(want) {
			want = want[:limit]
			what += fmt.Sprintf(" stopped after %d", limit)
		}
		seen, wrong, got := 0, -1, 0
		cb := func(k int) bool {
			if wrong < 0 && (seen >= len(want) || want[seen] != k) {
				wrong, got = seen, k
			}
			seen++
			return wrong < 0 && seen != limit
		}
		if start >= 0 {
			s.RangeFrom(start, cb)
		} else {
			s.Range(cb)
		}
		if wrong >= 0 {
			return fail(kind, "%s, %d elements: visit %d of %s is of value %d (%d visits expected)", name, len(els), wrong, what, got, len(want))
		}
		if seen != len(want) {
			return fail(kind, "%s, %d elements: %s visits %d of %d", name, len(els), what, seen, len(want))
		}
		return nil
	}
	lookAll := func() *pbt.Fail {
		els = els[:0]
		for k, x := range in {
			if x {
				els = append(els, k)
			}
		}
		m := len(els)
		if f := look(-1, 0, -1); f != nil {
			return f
		}
		// A number of elements up to m, likely a round one.
		some := func() int {
			if m == 0 {
				return 0
			}
			x := m
			switch r.N(6) {
			case 0:
				x = 1 << r.N(bits.Len(uint(m)))
			case 1:
				x = 1<<r.N(bits.Len(uint(m))) + r.In(-1, 1)
			case 2:
				x = (1 + r.N(m)) / 64 * 64
			case 3:
				x = (1 + r.N(m)) / 100 * 100
			case 4:
				x = m - r.N(3)
			case 5:
				x = r.N(m + 1)
			}
			if x < 0 {
				x = 0
			}
			if x > m {
				x = m
			}
			return x
		}
		for i := 0; i < 4; i++ {
			left := some()
			at := m - left
			start := vals - 1
			if left > 0 {
				start = els[at]
				if start > 0 && !in[start-1] && r.P(1, 2) {
					start-- // not an element, the same elements follow
				}
			} else if m > 0 && els[m-1] == start {
				continue
			}
			limit := -1
			if i >= 2 {
				if limit = some(); limit == 0 {
					limit = 1
				}
			}
			if f := look(start, at, limit); f != nil {
				return f
			}
		}
		if limit := some(); limit > 0 {
			return look(-1, 0, limit)
		}
		return nil
	}
	st.Label("variant:" + name)
	st.NT()
	if f := lookAll(); f != nil {
		return f
	}
	for i, k := range order(c.X["fill"]) {
		if !s.Add(k) {
			return fail("result:add", "%s: Add of value %d to a set of %d others answers false", name, k, i)
		}
		in[k] = true
		if round(i+1) || i+1 == n {
			if f := lookAll(); f != nil {
				return f
			}
		}
	}
	for i, k := range order(c.X["drain"]) {
		if !s.Remove(k) {
			return fail("result:rem", "%s: Remove of value %d answers false (%d elements left)", name, k, n-i)
		}
		in[k] = false
		if round(n - 1 - i) {
			if f := lookAll(); f != nil {
				return f
			}
		}
	}
	return nil
}
