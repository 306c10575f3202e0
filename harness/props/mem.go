package props

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"unsafe"
	"weak"

	"skipverif/pbt"
	"skipverif/vsched"

	"github.com/zhangyunhao116/skipset"
)

// A memSet stores values that live on the heap, made afresh for every Add.
type memSet interface {
	add(key, tag int) (bool, func() bool) // result, and: is the value still reachable?
	remove(key int) bool
	has(key int) bool
	// visit iterates (from a key on, or over everything if it is negative), stops at the
	// stop-th callback and panics at the boom-th.
	visit(key, stop, boom int)
	content() ([]string, bool) // "key" per element in order; false: a value is damaged
	length() int
}

func visit[T any](s anyset[T], from *T, stop, boom int) {
	n := 0
	f := func(T) bool {
		n++
		if n == boom {
			panic(injected{})
		}
		return n != stop
	}
	if boom > 0 {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(injected); !ok {
					panic(p)
				}
			}
		}()
	}
	if from == nil {
		s.Range(f)
	} else {
		s.RangeFrom(*from, f)
	}
}

type memStr struct{ s anyset[string] }

func strKey(key int) string { return fmt.Sprintf("value-%06d-%s", key, strings.Repeat("x", 20)) }

func (m memStr) add(key, tag int) (bool, func() bool) {
	v := strings.Clone(strKey(key))
	w := weak.Make(unsafe.StringData(v))
	ok := m.s.Add(v)
	return ok, func() bool { return w.Value() != nil }
}
func (m memStr) remove(key int) bool { return m.s.Remove(strKey(key)) }
func (m memStr) has(key int) bool    { return m.s.Contains(strKey(key)) }
func (m memStr) visit(key, stop, boom int) {
	if key < 0 {
		visit[string](m.s, nil, stop, boom)
		return
	}
	v := strKey(key)
	visit[string](m.s, &v, stop, boom)
}
func (m memStr) length() int { return m.s.Len() }
func (m memStr) content() (out []string, good bool) {
	good = true
	m.s.Range(func(v string) bool {
		if len(v) != 33 || !strings.HasPrefix(v, "value-") || v[12:] != "-"+strings.Repeat("x", 20) {
			good = false
			return false
		}
		out = append(out, v[6:12])
		return true
	})
	return
}

type memPtr struct{ s *skipset.FuncSet[*item] }

func (m memPtr) add(key, tag int) (bool, func() bool) {
	v := &item{K: key, Tag: tag, Pay: [2]int{key * 3, tag * 5}}
	w := weak.Make(v)
	ok := m.s.Add(v)
	return ok, func() bool { return w.Value() != nil }
}
func (m memPtr) remove(key int) bool { return m.s.Remove(&item{K: key}) }
func (m memPtr) has(key int) bool    { return m.s.Contains(&item{K: key}) }
func (m memPtr) visit(key, stop, boom int) {
	if key < 0 {
		visit[*item](m.s, nil, stop, boom)
		return
	}
	v := &item{K: key}
	visit[*item](m.s, &v, stop, boom)
}
func (m memPtr) length() int { return m.s.Len() }
func (m memPtr) content() (out []string, good bool) {
	good = true
	m.s.Range(func(v *item) bool {
		if v.Pay[0] != v.K*3 || v.Pay[1] != v.Tag*5 {
			good = false
			return false
		}
		out = append(out, fmt.Sprintf("%06d", v.K))
		return true
	})
	return
}

// Values with pointers inside, stored by value.
type boxed struct {
	K int
	P *[6]int
}
type memBox struct{ s *skipset.FuncSet[boxed] }

func (m memBox) add(key, tag int) (bool, func() bool) {
	v := boxed{key, &[6]int{key * 3, tag, tag * 5}}
	w := weak.Make(v.P)
	ok := m.s.Add(v)
	return ok, func() bool { return w.Value() != nil }
}
func (m memBox) remove(key int) bool { return m.s.Remove(boxed{K: key}) }
func (m memBox) has(key int) bool    { return m.s.Contains(boxed{K: key}) }
func (m memBox) visit(key, stop, boom int) {
	if key < 0 {
		visit[boxed](m.s, nil, stop, boom)
		return
	}
	v := boxed{K: key}
	visit[boxed](m.s, &v, stop, boom)
}
func (m memBox) length() int { return m.s.Len() }
func (m memBox) content() (out []string, good bool) {
	good = true
	m.s.Range(func(v boxed) bool {
		if v.P[0] != v.K*3 || v.P[2] != v.P[1]*5 {
			good = false
			return false
		}
		out = append(out, fmt.Sprintf("%06d", v.K))
		return true
	})
	return
}

type memKind struct {
	name string
	desc bool
	mk   func() memSet
}

var memKinds = []memKind{
	{"NewString", false, func() memSet { return memStr{skipset.NewString()} }},
	{"NewStringDesc", true, func() memSet { return memStr{skipset.NewStringDesc()} }},
	{"New[string]", false, func() memSet { return memStr{skipset.New[string]()} }},
	{"NewDesc[string]", true, func() memSet { return memStr{skipset.NewDesc[string]()} }},
	{"NewFunc[string]", false, func() memSet { return memStr{skipset.NewFunc(func(a, b string) bool { return a < b })} }},
	{"NewFunc[*item]", false, func() memSet {
		return memPtr{skipset.NewFunc(func(a, b *item) bool { return a.K < b.K })}
	}},
	{"NewFunc[struct]", false, func() memSet {
		return memBox{skipset.NewFunc(func(a, b boxed) bool { return a.K < b.K })}
	}},
}

func memKindOf(c *pbt.Case) memKind { return memKinds[mod(c.X["kind"], len(memKinds))] }

var garbage []any

// churnHeap overwrites freed memory with other objects.
func churnHeap() {
	garbage = garbage[:0]
	for i := 0; i < 200; i++ {
		garbage = append(garbage, &item{K: -1, Tag: -1}, make([]byte, 33), make([]byte, 120), &[16]uintptr{^uintptr(0)})
	}
	garbage = garbage[:0]
}

type memVal struct {
	key, tag int
	alive    func() bool
	in       bool
}

// memCheck collects garbage and compares reachability with the model.
func memCheck(set memSet, desc bool, vals []*memVal, when string) *pbt.Fail {
	collect()
	var want []string
	for _, v := range vals {
		alive := v.alive()
		if v.in {
			want = append(want, fmt.Sprintf("%06d", v.key))
		}
		if v.in && !alive {
			return fail("lost", "%s: the value of key %d is in the set, but the garbage collector has freed it", when, v.key)
		}
		if !v.in && alive {
			return fail("retained", "%s: value number %d (key %d) is not in the set, but is still reachable", when, v.tag, v.key)
		}
	}
	sort.Strings(want)
	if desc {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	}
	got, good := set.content()
	if !good {
		return fail("lost", "%s: after a garbage collection a stored value is damaged", when)
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fail("content", "%s: after a garbage collection the set holds %v, want %v", when, got, want)
	}
	runtime.KeepAlive(set)
	return nil
}

func genRelease(r *pbt.Rng, i int) *pbt.Case {
	c := &pbt.Case{Prop: "C17", Part: "release", Seed: r.U64(), X: map[string]int{"kind": i, "n": []int{1, 2, 5, 12, 40}[r.N(5)]}}
	style := r.In(0, 6)
	n := r.In(5, 120)
	for k := 0; k < n; k++ {
		switch r.W(6, 5, 1, 1, 2) {
		case 3:
			c.Setup = append(c.Setup, pbt.Op{K: pbt.OpContains, A: r.N(c.X["n"])})
		case 4:
			o := pbt.Op{K: pbt.OpRangeFrom, A: r.N(c.X["n"] + 1)}
			if r.P(1, 3) {
				o.K = pbt.OpRange
			}
			if r.P(1, 2) {
				o.N = 1 + r.Geo(1, 2, c.X["n"])
			}
			if r.P(1, 3) {
				o.F = 1 + r.Geo(1, 2, c.X["n"])
			}
			c.Setup = append(c.Setup, o)
		case 0:
			c.Setup = append(c.Setup, pbt.Op{K: pbt.OpAdd, A: r.N(c.X["n"]), H: genHeight(r, style)})
		case 1:
			c.Setup = append(c.Setup, pbt.Op{K: pbt.OpRemove, A: r.N(c.X["n"])})
		case 2:
			if k%20 == 0 {
				c.Setup = append(c.Setup, pbt.Op{K: pbt.OpGC})
			}
		}
	}
	return c
}

func runRelease(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	kind := memKindOf(c)
	st.Label("variant:" + kind.name)
	var f *pbt.Fail
	removed := 0
	res := vsched.Solo(1<<40, c.Seed, func() {
		set := kind.mk()
		var vals []*memVal
		cur := map[int]*memVal{}
		for i := range c.Setup {
			op := &c.Setup[i]
			vsched.Budget(100000)
			switch op.K {
			case pbt.OpAdd:
				vsched.Height(op.H)
				ok, alive := set.add(op.A, i)
				vsched.Height(0)
				v := &memVal{op.A, i, alive, ok}
				vals = append(vals, v)
				if ok != (cur[op.A] == nil) {
					f = fail("result", "Add")
					return
				}
				if ok {
					cur[op.A] = v
				}
			case pbt.OpRemove:
				ok := set.remove(op.A)
				if ok != (cur[op.A] != nil) {
					f = fail("result", "Remove")
					return
				}
				if ok {
					cur[op.A].in = false
					delete(cur, op.A)
					removed++
				}
			case pbt.OpContains:
				set.has(op.A)
			case pbt.OpRange:
				set.visit(-1, op.N, op.F)
			case pbt.OpRangeFrom:
				set.visit(op.A, op.N, op.F)
			case pbt.OpGC:
				churnHeap()
				if f = memCheck(set, kind.desc, vals, fmt.Sprintf("%s, call %d", kind.name, i)); f != nil {
					return
				}
			}
		}
		if f = memCheck(set, kind.desc, vals, kind.name+", at the end"); f != nil {
			return
		}
		if c.Seed%3 == 0 { // the whole set is given up
			content := len(cur)
			for _, v := range cur {
				v.in = false
			}
			set = kind.mk()
			if f = memCheck(set, kind.desc, vals, kind.name+", after the set itself was dropped"); f == nil && content > 0 {
				st.Label("a set dropped with its content")
			}
			return
		}
		for k, v := range cur {
			vsched.Budget(100000)
			if !set.remove(k) {
				f = fail("result", "Remove")
				return
			}
			v.in = false
		}
		f = memCheck(set, kind.desc, vals, kind.name+", after removing everything")
		runtime.KeepAlive(set)
	})
	if removed > 1 {
		st.NT()
	}
	if f == nil && res.Outcome != vsched.OK {
		f = fail(res.Outcome, "%s", res.Msg)
	}
	return memKindsOnly(f, st)
}

func memKindsOnly(f *pbt.Fail, st *pbt.Stats) *pbt.Fail {
	if f != nil && f.Kind != "lost" && f.Kind != "retained" && f.Kind != "panic" {
		st.Label("ended by a deviation outside of this property: " + f.Kind)
		return nil
	}
	return f
}

func genReleaseConc(r *pbt.Rng, i int) *pbt.Case {
	f := concFocus{w: mix{add: 5, rem: 6, has: 1, rng: 1, rfr: 1}}
	c := genConc("C17", "schedules", r, ByName("int"), f)
	if r.P(1, 6) {
		c = genBusy("C17", "schedules", r, ByName("int"), f)
	} else if r.P(1, 12) {
		c = genHostile("C17", "schedules", r, ByName("int"), f)
	}
	c.X = map[string]int{"kind": i}
	return c
}

// runReleaseConc runs updates concurrently; afterwards everything that is not in the
// set must be collectable.
func runReleaseConc(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	kind := memKindOf(c)
	st.Label("variant:" + kind.name)
	set := kind.mk()
	nv := len(c.Slots[0].Vals)
	vals := make([][]*memVal, len(c.Tasks)+1)
	do := func(t int, op *pbt.Op, n int) {
		k := mod(op.A, nv)
		switch op.K {
		case pbt.OpAdd:
			vsched.Height(op.H)
			_, alive := set.add(k, n)
			vsched.Height(0)
			vals[t] = append(vals[t], &memVal{k, n, alive, false})
		case pbt.OpRemove:
			set.remove(k)
		case pbt.OpContains:
			set.has(k)
		case pbt.OpRange:
			set.visit(-1, op.N, 0)
		case pbt.OpRangeFrom:
			set.visit(k, op.N, 0)
		}
	}
	res := vsched.Solo(1<<40, c.Seed, func() {
		for i := range c.Setup {
			vsched.Budget(100000)
			do(len(c.Tasks), &c.Setup[i], 10000+i)
		}
	})
	if res.Outcome == vsched.OK {
		fns := make([]func(), len(c.Tasks))
		for t := range fns {
			fns[t] = func() {
				for i := range c.Tasks[t] {
					do(t, &c.Tasks[t][i], 1000*t+i)
					vsched.CallEnd()
				}
			}
		}
		res = vsched.Run(c.Plan, budget(c), c.Seed^0x5555, fns)
		if res.Switches > len(c.Tasks) {
			st.NT()
		}
	}
	var f *pbt.Fail
	if res.Outcome == vsched.OK {
		res = vsched.Solo(1<<40, 7, func() {
			vsched.Budget(100000)
			in, good := set.content()
			if !good {
				f = fail("lost", "a stored value is damaged")
				return
			}
			collect()
			alive := 0
			for _, l := range vals {
				for _, v := range l {
					if v.alive() {
						alive++
					}
				}
			}
			if alive > len(in) {
				f = fail("retained", "%s: after all calls the set holds %d elements, but %d of the values made for Adds are still reachable", kind.name, len(in), alive)
				return
			}
			if alive < len(in) {
				f = fail("lost", "%s: after all calls the set holds %d elements, but only %d values are reachable", kind.name, len(in), alive)
				return
			}
			for k := 0; k < nv; k++ {
				vsched.Budget(100000)
				set.remove(k)
			}
			vsched.Budget(100000)
			in, _ = set.content()
			collect()
			for _, l := range vals {
				for _, v := range l {
					if v.alive() && len(in) == 0 {
						f = fail("retained", "%s: all elements have been removed, but value number %d (key %d) is still reachable", kind.name, v.tag, v.key)
						return
					}
				}
			}
		})
	}
	runtime.KeepAlive(set)
	if f == nil && res.Outcome != vsched.OK {
		st.Label("ended by a deviation outside of this property: " + res.Outcome)
	}
	return memKindsOnly(f, st)
}

func genGrowth(r *pbt.Rng, i int) *pbt.Case {
	v := pickCore(i)
	return &pbt.Case{Prop: "C17", Part: "growth", Seed: r.U64(), Slots: []pbt.Slot{{Variant: v.Name()}},
		X: map[string]int{"n": []int{1, 16, 300, 70000, 12}[i/len(Core)%5], "rounds": 60000, "sets": []int{0, 0, 0, 0, 1}[i/len(Core)%5]}}
}

func heapNow() int64 {
	var ms runtime.MemStats
	collect()
	runtime.ReadMemStats(&ms)
	return int64(ms.HeapAlloc)
}

// runGrowth adds and removes the same few values very often, or makes ever new sets.
func runGrowth(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	u := ByName(c.Slots[0].Variant).Dense(c.X["n"], 0, 1)
	set := u.New()
	r := pbt.NewRng(c.Seed)
	n := c.X["n"]
	churn := func(m int) {
		if c.X["sets"] > 0 { // ever new sets, left with what is in them
			for i := 0; i < m/20; i++ {
				t := u.New()
				for k := 0; k < n; k++ {
					t.Add(k)
				}
				t.Remove(r.N(n))
				t.RangeFrom(r.N(n), func(int) bool { return false })
				t.Contains(r.N(n))
			}
			return
		}
		if n > 1000 { // ever new values
			for i := 0; i < m; i++ {
				set.Add(i % n)
				if i >= 8 {
					set.Remove((i - 8) % n)
				}
				if i%64 == 0 {
					set.RangeFrom(i%n, func(int) bool { return false })
					set.Contains((i + n/2) % n)
				}
			}
			return
		}
		for i := 0; i < m; i++ {
			k := r.N(n)
			if !set.Add(k) {
				set.Remove(k)
			}
		}
	}
	churn(2000)
	for k := 0; k < n; k++ {
		set.Remove(k)
	}
	before := heapNow()
	churn(c.X["rounds"])
	for k := 0; k < n; k++ {
		set.Remove(k)
	}
	after := heapNow()
	runtime.KeepAlive(set)
	runtime.KeepAlive(u)
	st.Label("variant:" + c.Slots[0].Variant)
	st.NT()
	// A leak of one machine word per removed element would show as 240 kB.
	if d := after - before; d > 150_000 {
		if c.X["sets"] > 0 {
			return fail("retained", "%s: making, filling and dropping %d sets of %d elements retains %d bytes", c.Slots[0].Variant, c.X["rounds"]/20, n, d)
		}
		return fail("retained", "%s: adding and removing %d values %d times grows the empty set by %d bytes", c.Slots[0].Variant, n, c.X["rounds"], d)
	}
	return nil
}
