package pbt

import (
	"encoding/json"
	"hash/fnv"
	"sort"

	"skipverif/vsched"
)

// Kinds of operations.
const (
	OpAdd       = "add"
	OpRemove    = "rem"
	OpContains  = "has"
	OpLen       = "len"
	OpRange     = "rng"
	OpRangeFrom = "rfr"
	OpGC        = "gc"
	OpNew       = "new" // fresh set in the same slot
)

// Op is one call. A indexes the case's value universe.
type Op struct {
	K   string `json:"k"`
	A   int    `json:"a,omitempty"`
	H   int    `json:"h,omitempty"` // tower height requested for an add (0: random stream)
	N   int    `json:"n,omitempty"` // iteration: stop at the N-th callback (0: never)
	S   int    `json:"s,omitempty"` // set slot
	E   int    `json:"e,omitempty"` // readers: stop all others after E-1 own steps (0: never)
	F   int    `json:"f,omitempty"` // fault: at callback / comparison number F
	G   int    `json:"g,omitempty"` // fault kind: 0 panic, 1 Goexit
	Sub []Op   `json:"sub,omitempty"`
	At  int    `json:"at,omitempty"` // for a sub-op: the callback number it runs in (1-based)
	// Rel: a sub-op's value is relative to the visited value (A is an offset).
	Rel bool `json:"rel,omitempty"`
}

// Slot is one set: its constructor and the values the operations index.
type Slot struct {
	Variant string   `json:"variant"`
	Vals    []string `json:"vals"`
}

// Case is one generated input, complete enough to be replayed.
type Case struct {
	Prop  string         `json:"prop"`
	Part  string         `json:"part"`
	Slots []Slot         `json:"slots"` // the sets of the case
	Seed  uint64         `json:"seed"`  // stream of the code's own random draws
	Setup []Op           `json:"setup,omitempty"`
	Tasks [][]Op         `json:"tasks,omitempty"`
	Plan  vsched.Plan    `json:"plan"`
	X     map[string]int `json:"x,omitempty"`
}

// Fail describes a violated oracle.
type Fail struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

// Hash identifies a case.
func (c *Case) Hash() uint64 {
	b, _ := json.Marshal(c)
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Clone is a deep copy.
func (c *Case) Clone() *Case {
	b, _ := json.Marshal(c)
	d := new(Case)
	_ = json.Unmarshal(b, d)
	return d
}

// Copy is a copy that shares nothing which generators change.
func (c *Case) Copy() *Case {
	d := *c
	d.Setup = append([]Op{}, c.Setup...)
	d.Tasks = make([][]Op, len(c.Tasks))
	for i := range c.Tasks {
		d.Tasks[i] = append([]Op{}, c.Tasks[i]...)
	}
	d.Plan.Sw = append([]vsched.Switch{}, c.Plan.Sw...)
	return &d
}

// NumOps counts all operations.
func (c *Case) NumOps() int {
	n := len(c.Setup)
	for _, t := range c.Tasks {
		n += len(t)
	}
	return n
}

// Stats of a campaign part.
type Stats struct {
	Cases      int64            `json:"cases"`
	NonTrivial int64            `json:"nontrivial"`
	Labels     map[string]int64 `json:"labels"`
	Samples    []any            `json:"samples"`
	hashes     map[uint64]struct{}
	cur        map[string]bool
	nt         bool
}

func NewStats() *Stats {
	return &Stats{Labels: map[string]int64{}, hashes: map[uint64]struct{}{}, cur: map[string]bool{}}
}

// Label classifies the current case (counted once per case).
func (s *Stats) Label(l string) {
	if s != nil {
		s.cur[l] = true
	}
}

// NT marks the current case as non-trivial.
func (s *Stats) NT() {
	if s != nil {
		s.nt = true
	}
}

// End closes the current case.
func (s *Stats) End(c *Case) {
	s.Cases++
	for l := range s.cur {
		s.Labels[l]++
	}
	clear(s.cur)
	if s.nt {
		h := c.Hash()
		if _, ok := s.hashes[h]; !ok {
			if len(s.hashes) < 1<<22 {
				s.hashes[h] = struct{}{}
			}
			s.NonTrivial++
			if len(s.Samples) < 2 && c.NumOps() <= 30 {
				s.Samples = append(s.Samples, c.Clone())
			}
		}
	}
	s.nt = false
}

// Merge adds another worker's numbers.
func (s *Stats) Merge(o *Stats) {
	s.Cases += o.Cases
	s.NonTrivial += o.NonTrivial
	for k, v := range o.Labels {
		s.Labels[k] += v
	}
	for _, x := range o.Samples {
		if len(s.Samples) < 4 {
			s.Samples = append(s.Samples, x)
		}
	}
}

// LabelList renders the labels sorted.
func (s *Stats) LabelList() []string {
	var ks []string
	for k := range s.Labels {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
