package props

import (
	"bytes"
	"cmp"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"skipverif/pbt"

	"github.com/zhangyunhao116/skipset"
)

// anyset is the public API shared by all set types.
type anyset[T any] interface {
	Add(v T) bool
	Remove(v T) bool
	Contains(v T) bool
	Range(f func(v T) bool)
	RangeFrom(start T, f func(v T) bool)
	Len() int
}

// Set is a set under test, seen through the indices of a value universe.
// Iterations pass -1 for a value that is not in the universe.
type Set interface {
	Add(k int) bool
	Remove(k int) bool
	Contains(k int) bool
	Range(f func(k int) bool)
	RangeFrom(k int, f func(k int) bool)
	Len() int
}

// Univ is a list of values, sorted in the order of a set; equal values form classes.
type Univ interface {
	N() int
	NC() int
	Class(k int) int
	First(class int) int // first index of a class
	New() Set
	Str(k int) string
	Fault(at int) // the at-th comparison from now on panics (func sets only; 0: never)
	Faulted() bool
}

// Variant is a constructor with its oracle.
type Variant interface {
	Name() string
	TypeName() string
	Universe(vals []string) Univ
	Gen(r *pbt.Rng, n int) []string
	HasFault() bool
	// Dense is a universe of n distinct values made from the numbers offset, offset+stride, ...
	Dense(n, offset, stride int) Univ
}

// family describes an element type; all constructors of a family use the same values.
type family[T any] struct {
	name string
	gen  func(r *pbt.Rng, n int) []T
	enc  func(T) string
	dec  func(string) T
	same func(a, b T) bool
	nth  func(i int) T
	// alias rebuilds the values such that equal ones do not share memory (second result) and,
	// where possible, different ones do (first result).
	alias func(vals []T) (added, looked []T)
}

type variant[T any] struct {
	f       *family[T]
	name    string
	cmp     func(a, b T) int
	mk      func() anyset[T]
	mkLess  func(less func(a, b T) bool) anyset[T] // func sets
	lessFor func(a, b T) bool
}

func (v *variant[T]) Name() string   { return v.name }
func (v *variant[T]) HasFault() bool { return v.mkLess != nil }

// TypeName is the name of the type that implements the set, without type arguments.
func (v *variant[T]) TypeName() string {
	var s anyset[T]
	if v.mkLess != nil {
		s = v.mkLess(v.lessFor)
	} else {
		s = v.mk()
	}
	t := reflect.TypeOf(s)
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	n, _, _ := strings.Cut(t.Name(), "[")
	return n
}

func (v *variant[T]) Gen(r *pbt.Rng, n int) []string {
	var out []string
	for _, x := range v.f.gen(r, n) {
		out = append(out, v.f.enc(x))
	}
	if len(out) == 0 {
		panic("empty universe")
	}
	return out
}

type univ[T any] struct {
	v       *variant[T]
	vals    []T
	look    []T // equal to vals: the arguments of Remove, Contains and RangeFrom
	class   []int
	first   []int
	faultAt int
	faulted bool
	count   *int64 // comparisons
}

func (v *variant[T]) Dense(n, offset, stride int) Univ {
	u := &univ[T]{v: v, count: new(int64)}
	for i := 0; i < n; i++ {
		u.vals = append(u.vals, v.f.nth(offset+i*stride))
	}
	sort.SliceStable(u.vals, func(i, j int) bool { return v.cmp(u.vals[i], u.vals[j]) < 0 })
	for i := range u.vals {
		if i > 0 && v.cmp(u.vals[i-1], u.vals[i]) == 0 {
			panic("dense universe of " + v.name)
		}
		u.first = append(u.first, i)
		u.class = append(u.class, i)
	}
	u.look = u.vals
	return u
}

func (v *variant[T]) Universe(enc []string) Univ {
	u := &univ[T]{v: v}
	for _, s := range enc {
		u.vals = append(u.vals, v.f.dec(s))
	}
	sort.SliceStable(u.vals, func(i, j int) bool { return v.cmp(u.vals[i], u.vals[j]) < 0 })
	out := u.vals[:0]
	start := 0
	for i, x := range u.vals {
		if i > 0 && v.cmp(u.vals[i-1], x) != 0 {
			start = len(out)
		}
		dup := false
		for _, y := range out[start:] {
			if v.f.same(x, y) {
				dup = true
			}
		}
		if !dup {
			out = append(out, x)
		}
	}
	u.vals = out
	c := -1
	for i := range u.vals {
		if i == 0 || v.cmp(u.vals[i-1], u.vals[i]) != 0 {
			c++
			u.first = append(u.first, i)
		}
		u.class = append(u.class, c)
	}
	u.look = u.vals
	if v.f.alias != nil {
		u.vals, u.look = v.f.alias(u.vals)
	}
	return u
}

func (u *univ[T]) N() int           { return len(u.vals) }
func (u *univ[T]) NC() int          { return len(u.first) }
func (u *univ[T]) Class(k int) int  { return u.class[k] }
func (u *univ[T]) First(c int) int  { return u.first[c] }
func (u *univ[T]) Str(k int) string { return u.v.f.enc(u.vals[k]) }
func (u *univ[T]) Fault(at int)     { u.faultAt = at; u.faulted = false }
func (u *univ[T]) Faulted() bool    { return u.faulted }

type injected struct{}

func (injected) Error() string { return "injected panic" }

func (u *univ[T]) New() Set {
	a := &adapter[T]{u: u}
	if u.v.mkLess != nil {
		less := u.v.lessFor
		a.s = u.v.mkLess(func(x, y T) bool {
			if u.faultAt > 0 {
				u.faultAt--
				if u.faultAt == 0 {
					u.faulted = true
					panic(injected{})
				}
			}
			if u.count != nil {
				*u.count++
			}
			return less(x, y)
		})
	} else {
		a.s = u.v.mk()
	}
	return a
}

type adapter[T any] struct {
	s anyset[T]
	u *univ[T]
}

func (a *adapter[T]) Add(k int) bool      { return a.s.Add(a.u.vals[k]) }
func (a *adapter[T]) Remove(k int) bool   { return a.s.Remove(a.u.look[k]) }
func (a *adapter[T]) Contains(k int) bool { return a.s.Contains(a.u.look[k]) }
func (a *adapter[T]) Len() int            { return a.s.Len() }
func (a *adapter[T]) Range(f func(k int) bool) {
	a.s.Range(func(v T) bool { return f(a.u.find(v)) })
}
func (a *adapter[T]) RangeFrom(k int, f func(k int) bool) {
	a.s.RangeFrom(a.u.look[k], func(v T) bool { return f(a.u.find(v)) })
}

func (u *univ[T]) find(v T) int {
	lo, hi := 0, len(u.vals)
	for lo < hi {
		m := (lo + hi) / 2
		if u.v.cmp(u.vals[m], v) < 0 {
			lo = m + 1
		} else {
			hi = m
		}
	}
	for ; lo < len(u.vals) && u.v.cmp(u.vals[lo], v) == 0; lo++ {
		if u.v.f.same(u.vals[lo], v) {
			return lo
		}
	}
	return -1
}

// --- oracle orders (independent of the code under test) ---

func up[T cmp.Ordered](a, b T) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}
func down[T cmp.Ordered](a, b T) int { return up(b, a) }

// NaNs are one value, before all others; -0 equals +0.
func floatUp[T float32 | float64](a, b T) int {
	an, bn := a != a, b != b
	switch {
	case an && bn:
		return 0
	case an:
		return -1
	case bn:
		return 1
	}
	return up(a, b)
}
func floatDown[T float32 | float64](a, b T) int {
	if a != a || b != b {
		return floatUp(a, b)
	}
	return up(b, a)
}

// --- value generators ---

type ints interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func genInts[T ints](bits uint) func(r *pbt.Rng, n int) []T {
	return func(r *pbt.Rng, n int) []T {
		var out []T
		special := func() uint64 {
			switch r.N(6) {
			case 0:
				return 0
			case 1:
				return 1<<(bits-1) - uint64(r.N(3)) // signed max region / unsigned middle
			case 2:
				return 1<<(bits-1) + uint64(r.N(3)) // signed min region
			case 3:
				return -uint64(r.N(4)) // -1.. or unsigned max
			case 4:
				return 1<<uint(r.N(int(bits))) + uint64(r.N(3)) - 1
			default:
				return -(1<<uint(r.N(int(bits))) + uint64(r.N(3)) - 1)
			}
		}
		switch r.N(5) {
		case 0: // small numbers
			for i := 0; i < n; i++ {
				out = append(out, T(i))
			}
		case 1: // cluster around a special point
			base := special() - uint64(n/2)
			for i := 0; i < n; i++ {
				out = append(out, T(base+uint64(i)))
			}
		case 2: // special points
			for i := 0; i < n; i++ {
				out = append(out, T(special()))
			}
		case 3: // uniform
			for i := 0; i < n; i++ {
				out = append(out, T(r.U64()))
			}
		default: // strides (equal low or high halves)
			st := uint64(1) << uint(r.N(int(bits)))
			base := special()
			for i := 0; i < n; i++ {
				out = append(out, T(base+st*uint64(i)))
			}
		}
		if len(out) < n/2 || n <= 0 {
			out = append(out, 0)
		}
		return out
	}
}

func genStrings(r *pbt.Rng, n int) []string {
	var out []string
	alph := [][]string{{"a", "b"}, {"\x00", "\xff", "a"}, {"a", "A", "é", "e\u0301", "世"}, {"0", "1", "9"}}[r.N(4)]
	word := func(max int) string {
		var b strings.Builder
		for k := r.N(max + 1); k > 0; k-- {
			b.WriteString(alph[r.N(len(alph))])
		}
		return b.String()
	}
	mode := r.N(7)
	if n > 200 {
		mode %= 6
	}
	switch mode {
	case 5: // one base string with small changes anywhere: equal prefixes, suffixes, sums, lengths
		base := make([]byte, []int{2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 100, 130}[r.N(22)])
		if n <= 24 && r.P(1, 6) {
			base = make([]byte, []int{127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2000, 4096, 4097}[r.N(17)])
		}
		wide := n <= 6 && r.P(1, 12) // lengths that do not fit 16 bits
		if wide {
			base = make([]byte, []int{65535, 65536, 65537, 66000, 131073}[r.N(5)])
		}
		fill := r.N(3)
		for j := range base {
			switch fill {
			case 0:
				base[j] = 'a'
			case 1:
				base[j] = byte('a' + j%7)
			default:
				base[j] = byte(r.U64())
			}
		}
		for i := 0; i < n; i++ {
			b := append([]byte(nil), base...)
			if wide && r.P(1, 2) {
				b = b[:len(b)-[]int{1, 255, 256, 1000, 65534}[r.N(5)]]
				if len(b) > 65536 && r.P(1, 2) {
					b = b[:len(b)-65536]
				}
			}
			for c := r.N(3); c >= 0; c-- {
				j, l := r.N(len(b)), r.N(len(b))
				switch r.N(6) {
				case 0:
					b[j]++
				case 1:
					b[j]--
				case 2:
					b[j] ^= 0x80
				case 3:
					b[j], b[l] = b[l], b[j]
				case 4:
					b[j]++
					b[l]--
				default:
					b[j] = byte(r.U64())
				}
			}
			if n > 50 {
				b = append(b, strconv.Itoa(i)...)
			}
			out = append(out, string(b))
		}
	case 6: // all prefixes of one string, and its neighbours
		l := 2 + r.N(n+40)
		b := make([]byte, l+2*n)
		for j := range b {
			b[j] = alph[0][0]
			if r.P(1, 3) {
				b[j] = byte(r.U64())
			}
		}
		for i := 0; i < n; i++ {
			c := append([]byte(nil), b[:l+i-n/2*r.N(2)+n/2]...)
			if r.P(1, 3) {
				c[len(c)-1] ^= byte(1 << uint(r.N(8)))
			}
			out = append(out, string(c))
		}
	case 0:
		for i := 0; i < n; i++ {
			out = append(out, strconv.Itoa(i))
		}
	case 1:
		m := 3
		for 1<<uint(m) < n {
			m++
		}
		for i := 0; i < n; i++ {
			out = append(out, word(m))
		}
	case 2: // long common prefix
		p := strings.Repeat(alph[0], 1+r.N(40))
		for i := 0; i < n; i++ {
			out = append(out, p+word(3)+func() string {
				if n > 50 {
					return strconv.Itoa(i)
				}
				return ""
			}())
		}
	case 3: // random bytes
		for i := 0; i < n; i++ {
			b := make([]byte, r.N(13))
			for j := range b {
				b[j] = byte(r.U64())
			}
			out = append(out, string(b))
		}
	default: // prefixes of one another, and specials
		sp := []string{"", "\x00", "\x00\x00", " ", "a", "aa", "A", "é", "e\u0301", "\xff", "\xff\xff", "世界", "世", strings.Repeat("x", 300)}
		for i := 0; i < n; i++ {
			if i < n/2 || n <= 4 {
				out = append(out, sp[r.N(len(sp))])
			} else {
				out = append(out, strings.Repeat(alph[0], i))
				if i > 200 {
					out[len(out)-1] = strconv.Itoa(i)
				}
			}
		}
	}
	return out
}

func genFloats[T float32 | float64](from func(uint64) T, bitsOf func(T) uint64, mant uint, nan bool) func(r *pbt.Rng, n int) []T {
	return func(r *pbt.Rng, n int) []T {
		var out []T
		var width uint = 64
		if mant == 23 {
			width = 32
		}
		inf := (uint64(1)<<(width-1-mant) - 1) << mant
		sign := uint64(1) << (width - 1)
		add := func(b uint64) {
			x := from(b)
			if x != x && !nan {
				x = from(b &^ inf)
			}
			out = append(out, x)
		}
		special := func() {
			s := sign * uint64(r.N(2))
			switch r.N(8) {
			case 0:
				add(s) // zeros
			case 1:
				add(inf | s)
			case 2:
				add(inf | s | 1<<(mant-1) | uint64(r.N(3))) // quiet NaNs
			case 3:
				add(inf | s | 1 + uint64(r.N(5))) // other NaN payloads
			case 4:
				add(s | 1 + uint64(r.N(3))) // subnormals
			case 5:
				add(s | inf - 1 - uint64(r.N(2))) // largest finite
			case 6:
				add(bitsOf(1) | s)
			default:
				add(s | uint64(1+r.N(3))<<mant) // smallest normals
			}
		}
		switch r.N(5) {
		case 0:
			for i := 0; i < n; i++ {
				add(bitsOf(T(i - n/2)))
			}
			out = append(out, from(sign), from(0))
			if nan {
				out = append(out, from(inf|1<<(mant-1)))
			}
		case 1:
			for i := 0; i < n; i++ {
				special()
			}
		case 2: // adjacent values
			b := r.U64() >> (64 - width) &^ sign
			if b >= inf {
				b &^= inf
			}
			b |= sign * uint64(r.N(2))
			for i := 0; i < n; i++ {
				add(b + uint64(i))
			}
		case 3:
			for i := 0; i < n; i++ {
				add(r.U64() >> (64 - width))
			}
		default:
			for i := 0; i < n; i++ {
				if r.P(1, 2) {
					special()
				} else {
					add(bitsOf(T(r.N(2*n+1)) / 4))
				}
			}
		}
		return out
	}
}

func aliasStrings(vals []string) (added, looked []string) {
	for _, s := range vals {
		added = append(added, s)
		looked = append(looked, strings.Clone(s))
	}
	if len(vals) <= 40 {
		for i := range added {
			for j := range added {
				if len(added[j]) > len(added[i]) && strings.HasPrefix(added[j], added[i]) {
					added[i] = added[j][:len(added[i])]
					break
				}
			}
		}
	}
	return
}

// item is an element with a key and a tag that the order ignores.
type item struct {
	K   int
	Tag int
	Pay [2]int
}

func genItems(r *pbt.Rng, n int) []item {
	var out []item
	keys := n
	if r.P(2, 3) {
		keys = 1 + n/(1+r.N(4))
	}
	for i := 0; i < n; i++ {
		k := r.N(keys)
		out = append(out, item{K: k, Tag: i})
	}
	return out
}

// --- the catalogue ---

var (
	// All constructors and element types.
	All []Variant
	// Core: one entry per generated set type and constructor flavour.
	Core []Variant
	// Families groups the variants of one element type: ascending ones, then descending ones.
	Families []Fam
	byName   = map[string]Variant{}
)

// Fam is the set of interchangeable variants of one element type.
type Fam struct {
	Name string
	Asc  []Variant
	Desc []Variant
	NaN  bool
}

// ByName finds a variant.
func ByName(n string) Variant {
	v := byName[n]
	if v == nil {
		panic("unknown variant " + n)
	}
	return v
}

func reg(core bool, v Variant) Variant {
	if byName[v.Name()] != nil {
		panic("duplicate variant " + v.Name())
	}
	byName[v.Name()] = v
	All = append(All, v)
	if core {
		Core = append(Core, v)
	}
	return v
}

func ctor[T any](f *family[T], name string, c func(a, b T) int, mk func() anyset[T]) *variant[T] {
	return &variant[T]{f: f, name: name, cmp: c, mk: mk}
}

func fctor[T any](f *family[T], name string, c func(a, b T) int) *variant[T] {
	return &variant[T]{f: f, name: name, cmp: c,
		mkLess:  func(less func(a, b T) bool) anyset[T] { return skipset.NewFunc(less) },
		lessFor: func(a, b T) bool { return c(a, b) < 0 }}
}

type orderedT interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}

func addOrdered[T orderedT](f *family[T], asc, desc func() anyset[T], coreGeneric bool) {
	fm := Fam{Name: f.name}
	if asc != nil {
		core := !strings.HasSuffix(f.name, "nn")
		fm.Asc = append(fm.Asc, reg(core, ctor(f, f.name, up[T], asc)))
		fm.Desc = append(fm.Desc, reg(core, ctor(f, f.name+"desc", down[T], desc)))
	}
	fm.Asc = append(fm.Asc, reg(coreGeneric, ctor(f, "New["+f.name+"]", up[T], func() anyset[T] { return skipset.New[T]() })))
	fm.Desc = append(fm.Desc, reg(coreGeneric, ctor(f, "NewDesc["+f.name+"]", down[T], func() anyset[T] { return skipset.NewDesc[T]() })))
	fm.Asc = append(fm.Asc, reg(false, fctor(f, "NewFunc["+f.name+"<]", up[T])))
	fm.Desc = append(fm.Desc, reg(false, fctor(f, "NewFunc["+f.name+">]", down[T])))
	Families = append(Families, fm)
}

func intFam[T ints](name string, bits uint) *family[T] {
	return &family[T]{name: name, gen: genInts[T](bits), nth: func(i int) T { return T(i) },
		enc:  func(x T) string { return fmt.Sprint(x) },
		dec:  func(s string) T { return parseInt[T](s) },
		same: func(a, b T) bool { return a == b }}
}

func parseInt[T ints](s string) T {
	if strings.HasPrefix(s, "-") {
		x, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(err)
		}
		return T(x)
	}
	x, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic(err)
	}
	return T(x)
}

type (
	myInt   int16
	myStr   string
	myFloat float64
)

func f64from(b uint64) float64 { return math.Float64frombits(b) }
func f32from(b uint64) float32 { return math.Float32frombits(uint32(b)) }
func f32bits(x float32) uint64 { return uint64(math.Float32bits(x)) }

func init() {
	addOrdered(intFam[int]("int", strconv.IntSize), func() anyset[int] { return skipset.NewInt() }, func() anyset[int] { return skipset.NewIntDesc() }, true)
	addOrdered(intFam[int32]("int32", 32), func() anyset[int32] { return skipset.NewInt32() }, func() anyset[int32] { return skipset.NewInt32Desc() }, false)
	addOrdered(intFam[int64]("int64", 64), func() anyset[int64] { return skipset.NewInt64() }, func() anyset[int64] { return skipset.NewInt64Desc() }, false)
	addOrdered(intFam[uint]("uint", strconv.IntSize), func() anyset[uint] { return skipset.NewUint() }, func() anyset[uint] { return skipset.NewUintDesc() }, false)
	addOrdered(intFam[uint32]("uint32", 32), func() anyset[uint32] { return skipset.NewUint32() }, func() anyset[uint32] { return skipset.NewUint32Desc() }, false)
	addOrdered(intFam[uint64]("uint64", 64), func() anyset[uint64] { return skipset.NewUint64() }, func() anyset[uint64] { return skipset.NewUint64Desc() }, false)
	strFam := &family[string]{name: "string", gen: genStrings, nth: func(i int) string { return fmt.Sprintf("k%08d", i) }, enc: strconv.Quote, dec: unquote, same: func(a, b string) bool { return a == b }, alias: aliasStrings}
	addOrdered(strFam, func() anyset[string] { return skipset.NewString() }, func() anyset[string] { return skipset.NewStringDesc() }, false)
	addOrdered(intFam[int8]("int8", 8), nil, nil, false)
	addOrdered(intFam[uint8]("uint8", 8), nil, nil, false)
	addOrdered(intFam[int16]("int16", 16), nil, nil, false)
	addOrdered(intFam[uint16]("uint16", 16), nil, nil, false)
	addOrdered(intFam[uintptr]("uintptr", strconv.IntSize), nil, nil, false)
	addOrdered(intFam[myInt]("myInt", 16), nil, nil, false)
	addOrdered(&family[myStr]{name: "myStr", gen: func(r *pbt.Rng, n int) []myStr {
		var o []myStr
		for _, s := range genStrings(r, n) {
			o = append(o, myStr(s))
		}
		return o
	}, enc: func(s myStr) string { return strconv.Quote(string(s)) }, dec: func(s string) myStr { return myStr(unquote(s)) },
		same: func(a, b myStr) bool { return a == b }}, nil, nil, false)

	// Floats. New and NewDesc order by < alone, so their domain excludes NaN.
	enc64 := func(x float64) string { return fmt.Sprintf("%#016x", math.Float64bits(x)) }
	dec64 := func(s string) float64 { return f64from(parseHex(s)) }
	same64 := func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }
	enc32 := func(x float32) string { return fmt.Sprintf("%#08x", math.Float32bits(x)) }
	dec32 := func(s string) float32 { return f32from(parseHex(s)) }
	same32 := func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }
	fam64 := &family[float64]{name: "float64", nth: func(i int) float64 { return float64(i) }, gen: genFloats(f64from, math.Float64bits, 52, true), enc: enc64, dec: dec64, same: same64}
	fam32 := &family[float32]{name: "float32", nth: func(i int) float32 { return float32(i) }, gen: genFloats(f32from, f32bits, 23, true), enc: enc32, dec: dec32, same: same32}
	Families = append(Families, Fam{Name: "float64", NaN: true,
		Asc: []Variant{
			reg(true, ctor(fam64, "float64", floatUp[float64], func() anyset[float64] { return skipset.NewFloat64() })),
			reg(false, fctor(fam64, "NewFunc[float64<]", floatUp[float64]))},
		Desc: []Variant{
			reg(true, ctor(fam64, "float64desc", floatDown[float64], func() anyset[float64] { return skipset.NewFloat64Desc() })),
			reg(false, fctor(fam64, "NewFunc[float64>]", floatDown[float64]))}})
	Families = append(Families, Fam{Name: "float32", NaN: true,
		Asc: []Variant{
			reg(true, ctor(fam32, "float32", floatUp[float32], func() anyset[float32] { return skipset.NewFloat32() })),
			reg(false, fctor(fam32, "NewFunc[float32<]", floatUp[float32]))},
		Desc: []Variant{
			reg(true, ctor(fam32, "float32desc", floatDown[float32], func() anyset[float32] { return skipset.NewFloat32Desc() })),
			reg(false, fctor(fam32, "NewFunc[float32>]", floatDown[float32]))}})
	nn64 := &family[float64]{name: "float64nn", nth: func(i int) float64 { return float64(i) }, gen: genFloats(f64from, math.Float64bits, 52, false), enc: enc64, dec: dec64, same: same64}
	nn32 := &family[float32]{name: "float32nn", nth: func(i int) float32 { return float32(i) }, gen: genFloats(f32from, f32bits, 23, false), enc: enc32, dec: dec32, same: same32}
	addOrdered(nn64, func() anyset[float64] { return skipset.NewFloat64() }, func() anyset[float64] { return skipset.NewFloat64Desc() }, false)
	addOrdered(nn32, func() anyset[float32] { return skipset.NewFloat32() }, func() anyset[float32] { return skipset.NewFloat32Desc() }, false)
	addOrdered(&family[myFloat]{name: "myFloat", gen: func(r *pbt.Rng, n int) []myFloat {
		var o []myFloat
		for _, x := range nn64.gen(r, n) {
			o = append(o, myFloat(x))
		}
		return o
	}, enc: func(x myFloat) string { return enc64(float64(x)) }, dec: func(s string) myFloat { return myFloat(dec64(s)) },
		same: func(a, b myFloat) bool { return same64(float64(a), float64(b)) }}, nil, nil, false)

	// NewFunc over types and orders that only it supports.
	encItem := func(x item) string { return fmt.Sprintf("%d/%d", x.K, x.Tag) }
	decItem := func(s string) item {
		var x item
		if _, err := fmt.Sscanf(s, "%d/%d", &x.K, &x.Tag); err != nil {
			panic(err)
		}
		x.Pay = [2]int{x.K * 3, x.Tag * 5}
		return x
	}
	itemFam := &family[item]{name: "item", nth: func(i int) item { return item{K: i, Tag: -i} }, gen: genItems, enc: encItem, dec: decItem, same: func(a, b item) bool { return a.K == b.K && a.Tag == b.Tag }}
	reg(true, fctor(itemFam, "NewFunc[item]", func(a, b item) int { return up(a.K, b.K) }))
	reg(false, fctor(itemFam, "NewFunc[item pair]", func(a, b item) int {
		if c := down(a.K, b.K); c != 0 {
			return c
		}
		return up(a.Tag, b.Tag)
	}))
	reg(false, fctor(itemFam, "NewFunc[item mod 3]", func(a, b item) int { return up(a.K%3, b.K%3) }))
	reg(false, fctor(itemFam, "NewFunc[item all equal]", func(a, b item) int { return 0 }))
	ptrFam := &family[*item]{name: "ptr", nth: func(i int) *item { return &item{K: i, Tag: -i} }, gen: func(r *pbt.Rng, n int) []*item {
		var o []*item
		for _, x := range genItems(r, n) {
			y := x
			o = append(o, &y)
		}
		return o
	}, enc: func(x *item) string { return encItem(*x) }, dec: func(s string) *item { x := decItem(s); return &x },
		same: func(a, b *item) bool { return a == b }}
	reg(true, fctor(ptrFam, "NewFunc[*item]", func(a, b *item) int { return up(a.K, b.K) }))
	bytesFam := &family[[]byte]{name: "bytes", gen: func(r *pbt.Rng, n int) [][]byte {
		var o [][]byte
		for _, s := range genStrings(r, n) {
			o = append(o, []byte(s))
		}
		return o
	}, enc: func(b []byte) string { return strconv.Quote(string(b)) }, dec: func(s string) []byte { return []byte(unquote(s)) },
		same: func(a, b []byte) bool { return bytes.Equal(a, b) }}
	reg(false, fctor(bytesFam, "NewFunc[[]byte]", bytes.Compare))
	reg(false, fctor(strFam, "NewFunc[string by length]", func(a, b string) int { return up(len(a), len(b)) }))
	reg(false, fctor(strFam, "NewFunc[string fold]", func(a, b string) int { return up(strings.ToLower(a), strings.ToLower(b)) }))
	// An interface element type.
	anyFam := &family[any]{name: "any", gen: func(r *pbt.Rng, n int) []any {
		var o []any
		for i := 0; i < n; i++ {
			switch {
			case i == 0 && r.P(1, 2):
				o = append(o, nil)
			case r.P(1, 2):
				o = append(o, i)
			default:
				o = append(o, strconv.Itoa(i))
			}
		}
		return o
	}, enc: func(x any) string {
		if x == nil {
			return "nil"
		}
		if i, ok := x.(int); ok {
			return "i" + strconv.Itoa(i)
		}
		return "s" + x.(string)
	}, dec: func(s string) any {
		if s == "nil" {
			return nil
		}
		if s[0] == 'i' {
			i, _ := strconv.Atoi(s[1:])
			return i
		}
		return s[1:]
	}, same: func(a, b any) bool { return a == b }}
	reg(false, fctor(anyFam, "NewFunc[any]", func(a, b any) int { return up(anyKey(a), anyKey(b)) }))
	// Elements without size, and large ones.
	unitFam := &family[struct{}]{name: "unit", gen: func(r *pbt.Rng, n int) []struct{} { return make([]struct{}, n) },
		enc: func(struct{}) string { return "" }, dec: func(string) struct{} { return struct{}{} }, same: func(a, b struct{}) bool { return true }}
	reg(false, fctor(unitFam, "NewFunc[struct{}]", func(a, b struct{}) int { return 0 }))
	wideFam := &family[[50]int]{name: "wide", gen: func(r *pbt.Rng, n int) [][50]int {
		var o [][50]int
		for _, x := range genItems(r, n) {
			o = append(o, wide(x.K, x.Tag))
		}
		return o
	}, enc: func(x [50]int) string { return fmt.Sprintf("%d/%d", x[49], x[0]) }, dec: func(s string) [50]int {
		x := decItem(s)
		return wide(x.K, x.Tag)
	}, same: func(a, b [50]int) bool { return a == b }}
	reg(false, fctor(wideFam, "NewFunc[[50]int]", func(a, b [50]int) int { return up(a[49], b[49]) }))
}

func wide(k, tag int) (x [50]int) {
	for i := range x {
		x[i] = tag + 7*i
	}
	x[0], x[49] = tag, k
	return x
}

func anyKey(a any) string {
	if a == nil {
		return ""
	}
	if i, ok := a.(int); ok {
		return fmt.Sprintf("i%09d", i)
	}
	return "s" + a.(string)
}

func unquote(s string) string {
	x, err := strconv.Unquote(s)
	if err != nil {
		panic(err)
	}
	return x
}

func parseHex(s string) uint64 {
	x, err := strconv.ParseUint(strings.TrimPrefix(s, "0x"), 16, 64)
	if err != nil {
		panic(err)
	}
	return x
}
