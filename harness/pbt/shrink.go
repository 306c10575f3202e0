package pbt

import "skipverif/vsched"

// Shrink greedily simplifies a failing case. fails re-runs a candidate; at most
// limit candidates are tried.
func Shrink(c *Case, limit int, fails func(*Case) bool) *Case {
	best := c
	tries := 0
	try := func(d *Case) bool {
		if tries >= limit {
			return false
		}
		tries++
		if fails(d) {
			best = d
			return true
		}
		return false
	}
	for progress := true; progress && tries < limit; {
		progress = false
		// whole tasks
		for i := 0; i < len(best.Tasks) && len(best.Tasks) > 1; {
			d := best.Clone()
			d.Tasks = append(d.Tasks[:i], d.Tasks[i+1:]...)
			if try(d) {
				progress = true
			} else {
				i++
			}
		}
		// chunks of operations
		shrinkList := func(get func(*Case) []Op, set func(*Case, []Op)) {
			for size := len(get(best)); size >= 1; size /= 2 {
				for i := 0; i+size <= len(get(best)) && tries < limit; {
					d := best.Clone()
					l := get(d)
					n := append(append([]Op{}, l[:i]...), l[i+size:]...)
					set(d, n)
					if try(d) {
						progress = true
					} else {
						i += size
					}
				}
			}
		}
		shrinkList(func(c *Case) []Op { return c.Setup }, func(c *Case, l []Op) { c.Setup = l })
		for t := range best.Tasks {
			shrinkList(func(c *Case) []Op { return c.Tasks[t] }, func(c *Case, l []Op) { c.Tasks[t] = l })
		}
		// switches
		for size := len(best.Plan.Sw); size >= 1; size /= 2 {
			for i := 0; i+size <= len(best.Plan.Sw) && tries < limit; {
				d := best.Clone()
				sw := d.Plan.Sw
				// Dropping a switch keeps the later ones at the same distance where possible.
				n := append([]vsched.Switch{}, sw[:i]...)
				rest := append([]vsched.Switch{}, sw[i+size:]...)
				d.Plan.Sw = append(n, rest...)
				if try(d) {
					progress = true
					continue
				}
				if len(rest) > 0 {
					d = best.Clone()
					for k := i; k < i+size; k++ {
						rest[0].Gap += best.Plan.Sw[k].Gap
					}
					d.Plan.Sw = append(append([]vsched.Switch{}, best.Plan.Sw[:i]...), rest...)
					if try(d) {
						progress = true
						continue
					}
				}
				i += size
			}
		}
		// details of single operations
		simplify := func(get func(*Case) []Op) {
			for i := range get(best) {
				if tries >= limit {
					return
				}
				o := get(best)[i]
				edit := func(f func(*Op)) {
					d := best.Clone()
					f(&get(d)[i])
					if try(d) {
						progress = true
					}
				}
				if len(o.Sub) > 0 {
					edit(func(o *Op) { o.Sub = nil })
					for k := 0; k < len(get(best)[i].Sub); {
						before := len(get(best)[i].Sub)
						edit(func(o *Op) { o.Sub = append(append([]Op{}, o.Sub[:k]...), o.Sub[k+1:]...) })
						if len(get(best)[i].Sub) == before {
							k++
						}
					}
				}
				if o.H > 1 {
					edit(func(o *Op) { o.H = 1 })
					if get(best)[i].H > 2 {
						edit(func(o *Op) { o.H-- })
					}
				}
				if o.N > 0 {
					edit(func(o *Op) { o.N = 0 })
				}
				if o.E > 0 {
					edit(func(o *Op) { o.E = 0 })
					if o.E > 1 {
						edit(func(o *Op) { o.E = 1 })
					}
				}
				if o.A > 0 && len(get(best)) < 64 {
					edit(func(o *Op) { o.A-- })
				}
			}
		}
		if best.NumOps() <= 400 {
			simplify(func(c *Case) []Op { return c.Setup })
			for t := range best.Tasks {
				simplify(func(c *Case) []Op { return c.Tasks[t] })
			}
			for i := range best.Plan.Sw {
				for _, g := range []int{1, best.Plan.Sw[i].Gap / 2, best.Plan.Sw[i].Gap - 1} {
					if g >= 1 && g < best.Plan.Sw[i].Gap {
						d := best.Clone()
						d.Plan.Sw[i].Gap = g
						if try(d) {
							progress = true
							break
						}
					}
				}
				if best.Plan.Sw[i].Pick > 0 {
					d := best.Clone()
					d.Plan.Sw[i].Pick = 0
					if try(d) {
						progress = true
					}
				}
			}
		}
	}
	return best
}
