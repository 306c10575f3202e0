package props

import (
	"fmt"
	"math/bits"

	"skipverif/pbt"
	"skipverif/vsched"
)

// CostLg is the binary logarithm of the largest set measured (the tier sets it).
var CostLg = 15

// A fraction of the small baseline: the average over a set of 2^16 elements may be at
// most costFactor times the average over sets of 64 elements, where a logarithmic
// search needs about 16/6 = 2.7 times as much, and a linear one 1000 times.
const costFactor = 7

type costs struct {
	name  [5]string
	steps [5]float64
	less  [5]float64
}

var costOps = [5]string{"Contains(present)", "Contains(absent)", "RangeFrom", "Remove", "Add"}

// measureCost fills a set of n elements (even indices of a dense universe, neighbours
// at a distance of 2, larger for churn 5) and measures the average cost of each operation on it.
func measureCost(v Variant, n int, c *pbt.Case, seed uint64) (out costs, f *pbt.Fail) {
	vals, base, gap := 2*n, 0, 2
	switch c.X["churn"] {
	case 5: // 64 elements of what was once a set of n
		gap = 2 * n / 64
		n = 64
	case 6:
		vals, base = 16*n, 14*n
	}
	stride := c.X["stride"]
	if stride < 1 {
		stride = 1
	}
	for vals*stride > 1<<24 { // exact as float32
		stride /= 2
	}
	u := v.Dense(vals, c.X["offset"], stride)
	set := u.New()
	r := pbt.NewRng(c.Seed, seed, uint64(n))
	cnt := countOf(u)
	vsched.Budget(1 << 40)
	add := func(k int) {
		vsched.Budget(int64(5000 + 200*vals))
		set.Add(k)
	}
	remove := func(k int) {
		vsched.Budget(int64(5000 + 200*vals))
		set.Remove(k)
	}
	order := make([]int, n)
	for i := range order {
		switch c.X["order"] {
		case 0:
			order[i] = i
		case 1:
			order[i] = n - 1 - i
		case 2, 5:
			order[i] = i
		case 3: // zigzag from both ends
			if i%2 == 0 {
				order[i] = i / 2
			} else {
				order[i] = n - 1 - i/2
			}
		case 4: // bit-reversed
			order[i] = int(bits.Reverse32(uint32(i)) >> (32 - uint(bits.Len(uint(n-1)))))
			if order[i] >= n {
				order[i] = i
			}
		}
	}
	if c.X["order"] == 2 || c.X["order"] == 5 {
		for i := n - 1; i > 0; i-- {
			j := r.N(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	if c.X["churn"] == 6 { // a window slides over the universe
		for k := 0; k < base+2*n; k += 2 {
			add(k)
			if k >= 2*n {
				remove(k - 2*n)
			}
		}
		order = order[:0]
	}
	var extra []int // values that come between the elements and go again
	if c.X["churn"] == 5 {
		for k := 0; k < vals; k += 2 {
			if k%gap != 0 {
				extra = append(extra, k)
			}
		}
		switch c.X["tmp"] {
		case 1: // upwards
		case 2:
			for i, j := 0, len(extra)-1; i < j; i, j = i+1, j-1 {
				extra[i], extra[j] = extra[j], extra[i]
			}
		default:
			for i := len(extra) - 1; i > 0; i-- {
				j := r.N(i + 1)
				extra[i], extra[j] = extra[j], extra[i]
			}
		}
		if c.X["order"] == 5 {
			for _, k := range extra {
				add(k)
			}
		}
	}
	for i, o := range order {
		add(gap * o)
		if extra != nil && c.X["order"] != 5 {
			for _, k := range extra[i*len(extra)/n : (i+1)*len(extra)/n] {
				add(k)
			}
		}
		for t := 0; t < c.X["tmp"]; t++ {
			if c.X["churn"] == 3 { // values that come and go right away
				add(2*o + 1)
				remove(2*o + 1)
			} else if c.X["churn"] == 4 { // Adds of present values
				add(2 * o)
			}
		}
	}
	switch c.X["churn"] {
	case 1: // remove and add again half of it, twice
		for round := 0; round < 2; round++ {
			for _, o := range order {
				if (o+round)%2 == 0 {
					remove(2 * o)
				}
			}
			for _, o := range order {
				add(2 * o)
			}
		}
	case 2: // everything out and in again, in another order
		for _, o := range order {
			remove(2 * o)
		}
		for i := range order {
			add(2 * order[n-1-i])
		}
	case 5:
		for _, k := range extra {
			remove(k)
		}
	}
	const probes = 300
	for kind := 0; kind < 5; kind++ {
		var steps, less int64
		for p := 0; p < probes; p++ {
			k := base + gap*r.N(n)
			vsched.Budget(int64(5000 + 400*vals))
			s0, l0 := vsched.TaskSteps(), *cnt
			switch kind {
			case 0:
				set.Contains(k)
			case 1:
				set.Contains(k + 1)
			case 2:
				set.RangeFrom(k+r.N(2), func(int) bool { return false })
			case 3:
				set.Remove(k)
			case 4:
				set.Add(k + 1)
			}
			s1, l1 := vsched.TaskSteps(), *cnt
			steps += s1 - s0
			less += l1 - l0
			switch kind {
			case 3:
				add(k)
			case 4:
				remove(k + 1)
			}
		}
		out.steps[kind] = float64(steps) / probes
		out.less[kind] = float64(less) / probes
	}
	return out, nil
}

type counter interface{ Count() *int64 }

func (u *univ[T]) Count() *int64 { return u.count }

func countOf(u Univ) *int64 { return u.(counter).Count() }

func runCost(c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	v := ByName(c.Slots[0].Variant)
	lg := c.X["lg"]
	if lg == 0 {
		lg = CostLg
		c.X["lg"] = lg
	}
	if c.X["churn"] == 6 && lg > 12 {
		lg -= 3 // eight times as many values take part
	}
	var small, mid, large costs
	res := vsched.Solo(1<<50, c.Seed, func() {
		const rounds = 8
		for i := 0; i < rounds; i++ {
			x, _ := measureCost(v, 64, c, uint64(i))
			for k := range x.steps {
				small.steps[k] += x.steps[k] / rounds
				small.less[k] += x.less[k] / rounds
			}
		}
		// Filling a degenerate set takes quadratic time: look at smaller ones first.
		for g := 11; g < lg; g += 3 {
			mid, _ = measureCost(v, 1<<uint(g), c, uint64(88+g))
			for k := range mid.steps {
				if mid.steps[k] > costFactor*small.steps[k] {
					large, lg = mid, g
					return
				}
			}
		}
		large, _ = measureCost(v, 1<<uint(lg), c, 100)
	})
	st.Label("variant:" + c.Slots[0].Variant)
	st.Label(fmt.Sprintf("insertion order:%d", c.X["order"]))
	st.Label(fmt.Sprintf("churn:%d", c.X["churn"]))
	if res.Outcome == vsched.Livelock {
		return fail("cost", "an operation on a set of at most 2^%d elements takes more steps than 400 per element", lg)
	}
	if res.Outcome != vsched.OK {
		st.Label("ended by a deviation outside of this property: " + res.Outcome)
		return nil
	}
	st.NT()
	left := ""
	if c.X["churn"] == 5 {
		left = " of which 2^6 are left"
	}
	for k, name := range costOps {
		if s, l := small.steps[k], large.steps[k]; l > costFactor*s {
			return fail("cost", "%s, insertion order %d, churn %d: %s takes on average %.0f statements in a set of 2^%d elements%s, and %.0f in one of 2^6: more than logarithmic growth (limit: factor %d)",
				v.Name(), c.X["order"], c.X["churn"], name, l, lg, left, s, costFactor)
		}
		if v.HasFault() {
			if l, lim := large.less[k], float64(6*lg+40); l > lim {
				return fail("cost", "%s, insertion order %d, churn %d: %s makes on average %.0f comparisons in a set of (once) 2^%d elements (limit %.0f)",
					v.Name(), c.X["order"], c.X["churn"], name, l, lg, lim)
			}
		}
	}
	return nil
}
