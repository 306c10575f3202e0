package pbt

import (
	"fmt"
	"sort"
	"strings"
)

// HOp is one operation of a history on a single value (an equivalence class of values).
type HOp struct {
	Inv, Ret int64
	K        string // OpAdd, OpRemove, OpContains, or OpRange for an observation by iteration
	Ok       bool   // result; for OpRange: visited
	Rep      int    // representative: added by OpAdd, visited by OpRange (-1: do not care)
	Who      string
}

func (o HOp) String() string {
	if o.K == OpRange {
		if o.Ok {
			return fmt.Sprintf("[%d,%d] %s: visited by iteration", o.Inv, o.Ret, o.Who)
		}
		return fmt.Sprintf("[%d,%d] %s: not visited by iteration", o.Inv, o.Ret, o.Who)
	}
	return fmt.Sprintf("[%d,%d] %s: %s -> %v", o.Inv, o.Ret, o.Who, map[string]string{OpAdd: "Add", OpRemove: "Remove", OpContains: "Contains"}[o.K], o.Ok)
}

// Linearizable decides, by Wing and Gong's search with memoisation, whether the history
// of one value is a linearization of a set element whose initial state is init
// (-1: absent, otherwise the stored representative). ok=false only if it is not.
// decided=false when the history is too long to decide.
func Linearizable(init int, h []HOp) (ok, decided bool) {
	n := len(h)
	if n == 0 {
		return true, true
	}
	ops := append([]HOp{}, h...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Inv < ops[j].Inv })
	if n > 62 {
		return linearizableParts(init, ops)
	}
	type key struct {
		mask uint64
		st   int
	}
	seen := map[key]struct{}{}
	full := uint64(1)<<n - 1
	budget := 2_000_000
	var dfs func(mask uint64, st int) bool
	dfs = func(mask uint64, st int) bool {
		if mask == full {
			return true
		}
		k := key{mask, st}
		if _, ok := seen[k]; ok {
			return false
		}
		if budget--; budget < 0 {
			return true
		}
		seen[k] = struct{}{}
		// An operation may come next if no pending one returned before it was invoked.
		minRet := int64(1) << 62
		for i := 0; i < n; i++ {
			if mask>>i&1 == 0 && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for i := 0; i < n; i++ {
			if mask>>i&1 == 1 {
				continue
			}
			if ops[i].Inv > minRet {
				break
			}
			if ns, ok := step(st, &ops[i]); ok && dfs(mask|1<<i, ns) {
				return true
			}
		}
		return false
	}
	res := dfs(0, init)
	return res, budget >= 0
}

// linearizableParts decides long histories: it cuts them where no call is pending and
// carries the states that are possible there.
func linearizableParts(init int, ops []HOp) (ok, decided bool) {
	states := map[int]bool{init: true}
	budget := 200_000
	for from := 0; from < len(ops); {
		last, to := ops[from].Ret, from+1
		for ; to < len(ops) && ops[to].Inv <= last; to++ {
			last = max(last, ops[to].Ret)
		}
		part := ops[from:to]
		n := len(part)
		if n > 62 {
			return true, false
		}
		type key struct {
			mask uint64
			st   int
		}
		seen, next := map[key]bool{}, map[int]bool{}
		var dfs func(mask uint64, st int)
		dfs = func(mask uint64, st int) {
			if mask == uint64(1)<<n-1 {
				next[st] = true
				return
			}
			k := key{mask, st}
			if budget--; seen[k] || budget < 0 {
				return
			}
			seen[k] = true
			minRet := int64(1) << 62
			for i := range part {
				if mask>>i&1 == 0 && part[i].Ret < minRet {
					minRet = part[i].Ret
				}
			}
			for i := range part {
				if mask>>i&1 == 0 && part[i].Inv <= minRet {
					if ns, ok := step(st, &part[i]); ok {
						dfs(mask|1<<i, ns)
					}
				}
			}
		}
		for st := range states {
			dfs(0, st)
		}
		if budget < 0 {
			return true, false
		}
		if len(next) == 0 {
			return false, true
		}
		states, from = next, to
	}
	return true, true
}

func step(st int, o *HOp) (int, bool) {
	switch o.K {
	case OpAdd:
		if o.Ok {
			return o.Rep, st == -1
		}
		return st, st != -1
	case OpRemove:
		if o.Ok {
			return -1, st != -1
		}
		return st, st == -1
	case OpContains:
		return st, o.Ok == (st != -1)
	case OpRange:
		if !o.Ok {
			return st, st == -1
		}
		return st, st != -1 && (o.Rep < 0 || st == o.Rep)
	}
	panic("bad op " + o.K)
}

// HistString renders a history.
func HistString(h []HOp) string {
	ops := append([]HOp{}, h...)
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Inv < ops[j].Inv })
	var b strings.Builder
	for _, o := range ops {
		b.WriteString("    " + o.String() + "\n")
	}
	return b.String()
}
