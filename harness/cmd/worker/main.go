// The worker runs generated cases of one part on the code under test it was built with.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"skipverif/pbt"
	"skipverif/props"
	"skipverif/vsched"
)

// Result is what the worker writes to its output file.
type Result struct {
	Stats    *pbt.Stats `json:"stats"`
	Index    int        `json:"index"` // of the failing case, or -1
	Case     *pbt.Case  `json:"case,omitempty"`
	Fail     *pbt.Fail  `json:"fail,omitempty"`
	Shrunk   *pbt.Case  `json:"shrunk,omitempty"`
	SFail    *pbt.Fail  `json:"sfail,omitempty"`
	TimedOut bool       `json:"timed_out,omitempty"`
}

var (
	prop    = flag.String("prop", "", "property")
	partN   = flag.String("part", "", "part")
	seed    = flag.Uint64("seed", 1, "seed")
	from    = flag.Int("from", 0, "first case")
	step    = flag.Int("step", 1, "stride")
	count   = flag.Int("n", 0, "number of cases of the whole campaign")
	out     = flag.String("out", "", "result file")
	prog    = flag.String("progress", "", "progress file")
	stop    = flag.String("stop", "", "file with the smallest failing index so far")
	exec    = flag.String("exec", "", "run the case in this file and exit")
	shrink  = flag.Int("shrink", 3000, "candidates tried when shrinking")
	seconds = flag.Int("seconds", 0, "stop generating after that time")
	procs   = flag.Int("procs", 1, "GOMAXPROCS")
	dump    = flag.Int("dump", -1, "print case number")
	thor    = flag.Bool("thorough", false, "thorough tier")
	share   = flag.String("share", "", "directory through which the workers of a guided part exchange cases")
	focus   = flag.String("focus", "", "types that get half of the cases")
)

func gen(p props.Part, i int) *pbt.Case {
	h := uint64(0)
	for _, b := range []byte(*prop + "/" + *partN) {
		h = h*131 + uint64(b)
	}
	c := p.Gen(pbt.NewRng(*seed, h, uint64(i)), i)
	c.Prop, c.Part = *prop, *partN
	return c
}

// run executes one case; a panic of the harness itself stays a panic.
func run(p props.Part, c *pbt.Case, st *pbt.Stats) *pbt.Fail {
	vsched.Epoch++
	vsched.ForgetPools()
	started.Store(time.Now().UnixNano())
	defer started.Store(0)
	return p.Run(c, st)
}

// started is the time at which the current case began.
var started atomic.Int64

// watch ends the process when one case does not end: only native code can do that, the
// scheduler bounds everything else.
func watch() {
	for range time.Tick(time.Second) {
		if s := started.Load(); s != 0 && time.Since(time.Unix(0, s)) > hangAfter {
			buf := make([]byte, 64<<10)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "verif-watchdog: a case does not end within %v\n%s\n", hangAfter, buf)
			os.Exit(3)
		}
	}
}

// Cases take milliseconds, the longest ones a few seconds.
const hangAfter = 150 * time.Second

func write(path string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(path+".tmp", path); err != nil {
		panic(err)
	}
}

func main() {
	flag.Parse()
	props.Init()
	props.Focus(*focus)
	runtime.GOMAXPROCS(*procs)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	if *thor {
		props.CostLg = 18
		props.Huge = 3000000
	}
	go watch()
	if *exec != "" {
		c := new(pbt.Case)
		b, err := os.ReadFile(*exec)
		if err == nil {
			err = json.Unmarshal(b, c)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		p, ok := props.Parts[c.Prop+"/"+c.Part]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown part", c.Prop, c.Part)
			os.Exit(2)
		}
		res := Result{Index: -1, Fail: run(p, c, pbt.NewStats())}
		if *out != "" {
			write(*out, res)
		} else if res.Fail != nil {
			fmt.Println(res.Fail.Kind + ": " + res.Fail.Msg)
		} else {
			fmt.Println("passes")
		}
		return
	}
	p, ok := props.Parts[*prop+"/"+*partN]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown part", *prop, *partN)
		os.Exit(2)
	}
	if *dump >= 0 {
		b, _ := json.MarshalIndent(gen(p, *dump), "", " ")
		fmt.Println(string(b))
		return
	}
	var pf *os.File
	if *prog != "" {
		f, err := os.Create(*prog)
		if err != nil {
			panic(err)
		}
		pf = f
	}
	res := Result{Stats: pbt.NewStats(), Index: -1}
	mut := props.Mutators[*prop+"/"+*partN]
	var corpus props.Corpus
	var fresh []props.Kept
	t0 := time.Now()
	buf := make([]byte, 16)
	n := 0
	for i := *from; i < *count; i += *step {
		if pf != nil {
			copy(buf, fmt.Sprintf("%-16d", i))
			pf.WriteAt(buf, 0)
		}
		n++
		if mut != nil && *share != "" && n%shareEvery == 0 {
			exchange(&corpus, fresh, n/shareEvery)
			fresh = nil
		}
		if n%32 == 0 {
			if *seconds > 0 && time.Since(t0) > time.Duration(*seconds)*time.Second {
				res.TimedOut = true
				break
			}
			if *stop != "" {
				if m := minIndex(*stop); m >= 0 && m < i {
					break
				}
			}
		}
		var c *pbt.Case
		if mut != nil {
			if c = corpus.Next(pbt.NewRng(*seed, 0x6d7574, uint64(i)), mut); c != nil {
				c.Prop, c.Part = *prop, *partN
			} else {
				c = gen(p, i)
			}
			if pf != nil { // such a case cannot be generated again from its number
				b, _ := json.Marshal(c)
				pf.WriteAt(append(b, '\n'), 16)
			}
			vsched.CovStart()
		} else {
			c = gen(p, i)
		}
		f := run(p, c, res.Stats)
		if mut != nil {
			if turns, others := vsched.CovEnd(); len(turns)+others > 0 {
				corpus.Keep(c, turns, others)
				if len(turns) > 0 {
					fresh = append(fresh, props.Kept{Case: c, Turns: append([]int{}, turns...)})
					res.Stats.Label("kept: a statement in more turns of one call")
				} else {
					res.Stats.Label("kept: a statement more often in one call, or a switch between two new places")
				}
			}
		}
		res.Stats.End(c)
		if f == nil {
			continue
		}
		if mut == nil {
			c = gen(p, i)
		}
		res.Index, res.Case, res.Fail = i, c, f
		if *stop != "" {
			os.WriteFile(filepath.Join(*stop, strconv.Itoa(i)), nil, 0o644)
		}
		if *shrink > 0 {
			doShrink(p, &res)
		}
		break
	}
	if *share != "" {
		os.WriteFile(filepath.Join(*share, fmt.Sprintf("%d.end", *from)), nil, 0o644)
	}
	write(*out, res)
}

// shareEvery is the number of cases after which the workers exchange those they keep. All
// wait for all at that point, so what a worker generates does not depend on their speed.
const shareEvery = 2048

func exchange(k *props.Corpus, fresh []props.Kept, round int) {
	write(filepath.Join(*share, fmt.Sprintf("%d.%d", *from, round)), fresh)
	started.Store(0)
	for w := 0; w < *step; w++ {
		if w == *from {
			continue
		}
		path := filepath.Join(*share, fmt.Sprintf("%d.%d", w, round))
		for try := 0; ; try++ {
			_, ended := os.Stat(filepath.Join(*share, fmt.Sprintf("%d.end", w)))
			b, err := os.ReadFile(path)
			if err == nil {
				var l []props.Kept
				if json.Unmarshal(b, &l) == nil {
					for _, x := range l {
						if t := vsched.CovMark(x.Turns); len(t) > 0 {
							k.Keep(x.Case, t, 0)
						}
					}
				}
				break
			}
			if ended == nil || try > 60000 || minIndex(*stop) >= 0 {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
}

func doShrink(p props.Part, res *Result) {
	deadline := time.Now().Add(25 * time.Second)
	st := pbt.NewStats()
	last := res.Fail
	fails := func(d *pbt.Case) bool {
		if time.Now().After(deadline) {
			return false
		}
		f := run(p, d.Clone(), st)
		if f != nil {
			last = f
		}
		return f != nil
	}
	// In-process shrinking of races depends on the detector reporting repeatedly.
	if vsched.RaceBuild && !fails(res.Case) {
		return
	}
	res.Shrunk = pbt.Shrink(res.Case, *shrink, fails)
	res.SFail = last
}

func minIndex(dir string) int {
	es, _ := os.ReadDir(dir)
	m := -1
	for _, e := range es {
		if i, err := strconv.Atoi(strings.TrimSpace(e.Name())); err == nil && (m < 0 || i < m) {
			m = i
		}
	}
	return m
}
