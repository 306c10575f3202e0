package props

import (
	"fmt"
	"runtime"
	"sync"

	"skipverif/pbt"
)

// Long histories and big sets, on native code: what shows only after many operations
// (counters that wrap, limits that are reached) or with many elements.

// Huge is the number of values of the "huge" part.
var Huge = 600000

// genHuge draws sets of hundreds of thousands of elements, filled in a generated order.
func genHuge(r *pbt.Rng, i int) *pbt.Case {
	return &pbt.Case{Prop: "C01", Part: "huge", Seed: r.U64(), Slots: []pbt.Slot{{Variant: pickCore(i).Name()}},
		X: map[string]int{"n": Huge - r.N(Huge/10), "fill": r.N(3), "drain": r.N(3)}}
}

// runHuge adds all values, looks at them, and removes them all.
func runHuge(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	n := c.X["n"]
	name := c.Slots[0].Variant
	u := ByName(name).Dense(n, 0, 1)
	s := u.New()
	order := func(mode int) func(i int) int {
		switch mode {
		case 0:
			return func(i int) int { return i }
		case 1:
			return func(i int) int { return n - 1 - i }
		}
		step := n*5/8 | 1 // odd, made prime to n
		for gcd(step, n) != 1 {
			step += 2
		}
		return func(i int) int { return int(int64(i) * int64(step) % int64(n)) }
	}
	st.Label("variant:" + name)
	st.NT()
	at := order(c.X["fill"])
	for i := 0; i < n; i++ {
		if !s.Add(at(i)) {
			return fail("result:add", "%s: Add of value %d to a set of %d others answers false", name, at(i), i)
		}
		if got := s.Len(); got != i+1 {
			return fail("result:len", "%s: Len is %d with %d elements", name, got, i+1)
		}
	}
	for i := 0; i < n; i += 5 {
		if !s.Contains(i) {
			return fail("result:has", "%s: Contains of value %d is false (of %d elements)", name, i, n)
		}
		if i%100 == 0 && s.Add(i) {
			return fail("result:add", "%s: a second Add of value %d answers true (of %d elements)", name, i, n)
		}
	}
	next := 0
	s.Range(func(k int) bool {
		if k == next {
			next++
			return true
		}
		next = -1
		return false
	})
	if next != n {
		return fail("iteration:rng", "%s: Range does not visit the %d elements in order", name, n)
	}
	from := n / 3
	next = from
	s.RangeFrom(from, func(k int) bool {
		if k == next {
			next++
			return true
		}
		next = -1
		return false
	})
	if next != n {
		return fail("iteration:rfr", "%s: RangeFrom value %d does not visit the rest of the %d elements in order", name, from, n)
	}
	at = order(c.X["drain"])
	for i := 0; i < n; i++ {
		if !s.Remove(at(i)) {
			return fail("result:rem", "%s: Remove of value %d answers false (%d elements left)", name, at(i), n-i)
		}
		if got := s.Len(); got != n-1-i {
			return fail("result:len", "%s: Len is %d with %d elements left", name, got, n-1-i)
		}
	}
	s.Range(func(k int) bool { next = -2; return false })
	if next == -2 {
		return fail("iteration:rng", "%s: Range visits a value of the emptied set", name)
	}
	return nil
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func genLong(big bool) func(r *pbt.Rng, i int) *pbt.Case {
	return func(r *pbt.Rng, i int) *pbt.Case {
		v := pickCore(i)
		n := []int{1, 2, 3, 10, 100, 1000, 5000}[r.N(7)]
		ops := 150000
		if big {
			n = []int{20000, 33000, 66000, 140000}[r.N(4)]
			ops = 4 * n
		}
		return &pbt.Case{Prop: "C01", Part: "long", Seed: r.U64(), Slots: []pbt.Slot{{Variant: v.Name()}},
			X: map[string]int{"n": n, "ops": ops, "mode": r.N(4)}}
	}
}

// runLong compares every call with a bit set.
func runLong(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	n := c.X["n"]
	u := ByName(c.Slots[0].Variant).Dense(n, 0, 1)
	s := u.New()
	r := pbt.NewRng(c.Seed, 77)
	in := make([]bool, n)
	size := 0
	at := 0
	bad := func(kind, format string, a ...any) *pbt.Fail {
		return fail(kind, "%s, %d values, call %d: %s", c.Slots[0].Variant, n, at, fmt.Sprintf(format, a...))
	}
	next := 0
	iterate := func(from int, limit int) *pbt.Fail {
		want := from
		if want < 0 {
			want = 0
		}
		seen := 0
		var f *pbt.Fail
		cb := func(k int) bool {
			for want < n && !in[want] {
				want++
			}
			if k != want {
				kind := "iteration:rng"
				if from >= 0 {
					kind = "iteration:rfr"
				}
				f = bad(kind, "the iteration visits value %d where %d is next (of %d)", k, want, n)
				return false
			}
			want++
			seen++
			return seen != limit
		}
		kind := "iteration:rfr"
		if from < 0 {
			kind = "iteration:rng"
			s.Range(cb)
		} else {
			s.RangeFrom(from, cb)
		}
		if f == nil && seen != limit {
			for want < n && !in[want] {
				want++
			}
			if want < n {
				f = bad(kind, "the iteration ends before value %d (of %d)", want, n)
			}
		}
		return f
	}
	for ; at < c.X["ops"]; at++ {
		k := r.N(n)
		grow := at < n*3/2
		switch c.X["mode"] {
		case 1: // ascending sweeps
			k = next % n
			next++
		case 2: // descending sweeps
			k = n - 1 - next%n
			next++
		case 3: // a moving window
			k = (at/3 + r.N(50)) % n
		}
		x := r.N(16)
		if n >= 20000 && x >= 11 && !grow {
			x = 5 + x%5 // iterations of big sets are left to the end
		}
		switch {
		case x < 6 || grow && x < 11:
			if got := s.Add(k); got == in[k] {
				return bad("result:add", "Add of value %d answers %v", k, got)
			}
			if !in[k] {
				in[k] = true
				size++
			}
		case x < 10:
			if got := s.Remove(k); got != in[k] {
				return bad("result:rem", "Remove of value %d answers %v", k, got)
			}
			if in[k] {
				in[k] = false
				size--
			}
		case x < 14:
			if got := s.Contains(k); got != in[k] {
				return bad("result:has", "Contains of value %d answers %v", k, got)
			}
		case x == 14:
			if f := iterate(k, 1+r.N(20)); f != nil {
				return f
			}
		default:
			if f := iterate(-1, 1+r.N(20)); f != nil {
				return f
			}
		}
		if got := s.Len(); got != size {
			return bad("result:len", "Len is %d, want %d", got, size)
		}
	}
	st.Label("variant:" + c.Slots[0].Variant)
	st.Label(fmt.Sprintf("values:%d", n))
	st.NT()
	if f := iterate(-1, -1); f != nil {
		return f
	}
	for i := 0; i < 3; i++ {
		if f := iterate(r.N(n), -1); f != nil {
			return f
		}
	}
	for k := range in {
		if s.Contains(k) != in[k] {
			return bad("final:has", "at the end Contains of value %d is %v", k, !in[k])
		}
	}
	for k := range in {
		if s.Remove(k) != in[k] {
			return bad("result:rem", "at the end Remove of value %d answers %v", k, !in[k])
		}
	}
	if s.Len() != 0 {
		return bad("final:len", "Len of the emptied set is %d", s.Len())
	}
	return nil
}

// runStorm lets thousands of callbacks and comparisons panic and callbacks exit, then
// checks that nothing has accumulated.
func runStorm(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	n := c.X["n"]
	u := ByName(c.Slots[0].Variant).Dense(n, 0, 1)
	s := u.New()
	r := pbt.NewRng(c.Seed, 78)
	in := make([]bool, n)
	for k := range in {
		if r.P(2, 3) {
			in[k] = true
			s.Add(k)
		}
	}
	in[n/2] = true
	s.Add(n / 2)
	faults := 0
	shielded := func(f func()) {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(injected); !ok {
					panic(x)
				}
				faults++
			}
		}()
		f()
	}
	fire := ByName(c.Slots[0].Variant).HasFault() && c.X["less"] == 1
	for i := 0; i < c.X["rounds"]; i++ {
		at := 1 + r.N(3)
		cb := func(int) bool {
			if at--; at == 0 {
				panic(injected{})
			}
			return true
		}
		start := r.N(n/2 + 1)
		switch x := r.N(8); {
		case x == 0:
			var wg sync.WaitGroup
			wg.Add(1)
			go func() {
				defer wg.Done()
				s.Range(func(int) bool { runtime.Goexit(); return true })
			}()
			wg.Wait()
			faults++
		case x < 4 && fire:
			u.Fault(1 + r.N(8))
			k, upd := r.N(n), r.N(4)
			var ok bool
			b := faults
			shielded(func() {
				switch upd {
				case 0:
					ok = s.Add(k)
				case 1:
					ok = s.Remove(k)
				case 2:
					s.Contains(k)
				default:
					s.RangeFrom(k, func(int) bool { return false })
				}
			})
			u.Fault(0)
			if faults == b && ok {
				in[k] = upd == 0
			}
		case x < 6:
			shielded(func() { s.Range(cb) })
		default:
			shielded(func() { s.RangeFrom(start, cb) })
		}
	}
	st.Label("variant:" + c.Slots[0].Variant)
	if faults > 0 {
		st.NT()
	}
	bad := func(format string, a ...any) *pbt.Fail {
		return fail("result", "%s, after %d panics and exits in callbacks or comparisons: %s", c.Slots[0].Variant, faults, fmt.Sprintf(format, a...))
	}
	size := 0
	var want []int
	for k := range in {
		if in[k] {
			size++
			want = append(want, k)
		}
		if s.Contains(k) != in[k] {
			return bad("Contains of value %d is %v", k, !in[k])
		}
	}
	if s.Len() != size {
		return bad("Len is %d, want %d", s.Len(), size)
	}
	var got, got2 []int
	s.Range(func(k int) bool { got = append(got, k); return true })
	s.RangeFrom(0, func(k int) bool { got2 = append(got2, k); return true })
	if fmt.Sprint(got) != fmt.Sprint(want) || fmt.Sprint(got2) != fmt.Sprint(want) {
		return bad("Range visits %v and RangeFrom %v, want %v", got, got2, want)
	}
	for k := range in {
		if s.Add(k) == in[k] || !s.Remove(k) || s.Contains(k) {
			return bad("value %d cannot be added and removed as usual", k)
		}
	}
	if s.Len() != 0 {
		return bad("Len of the emptied set is %d", s.Len())
	}
	return nil
}

func genStorm(r *pbt.Rng, i int) *pbt.Case {
	v := pickCore(i)
	return &pbt.Case{Prop: "C16", Part: "storm", Seed: r.U64(), Slots: []pbt.Slot{{Variant: v.Name()}},
		X: map[string]int{"n": r.In(2, 12), "rounds": []int{20, 300, 3000}[r.N(3)], "less": r.N(2)}}
}
