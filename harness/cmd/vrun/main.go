// vrun decides one property: it builds the code under test as the property's parts
// need it, runs the generated cases in worker processes, shrinks and confirms what
// fails, and writes the evidence file.
//
//	vrun check ID TIER
//	vrun replay FILE
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"skipverif/instr"
	"skipverif/pbt"
	"skipverif/plan"
)

const repo = "/repo"

var (
	verif string // /verif
	work  string // scratch directory of this run
)

// Replay is the content of a replay file.
type Replay struct {
	Property string    `json:"property"`
	Part     string    `json:"part"`
	Build    string    `json:"build"`
	Mode     string    `json:"mode"` // case, campaign, regen
	Kind     string    `json:"kind"`
	Message  string    `json:"message"`
	Seed     uint64    `json:"seed"`
	Tier     string    `json:"tier"`
	Index    int       `json:"index"`
	Procs    int       `json:"procs,omitempty"`
	Real     bool      `json:"real,omitempty"`
	Case     *pbt.Case `json:"case,omitempty"`
	Original *pbt.Case `json:"original,omitempty"`
	Confirm  string    `json:"confirmed"`
	Focus    string    `json:"focus,omitempty"`
}

type result struct {
	Stats    *pbt.Stats `json:"stats"`
	Index    int        `json:"index"`
	Case     *pbt.Case  `json:"case"`
	Fail     *pbt.Fail  `json:"fail"`
	Shrunk   *pbt.Case  `json:"shrunk"`
	SFail    *pbt.Fail  `json:"sfail"`
	TimedOut bool       `json:"timed_out"`
}

func main() {
	os.Exit(main1())
}

func main1() int {
	args := os.Args[1:]
	if len(args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vrun check ID TIER | vrun replay FILE")
		return 2
	}
	exe, _ := os.Getwd()
	verif = filepath.Dir(exe) // run from /verif/harness
	var err error
	work, err = os.MkdirTemp("", "skipverif-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	switch args[0] {
	case "check":
		tier := "quick"
		if len(args) > 2 {
			tier = args[2]
		}
		code, err := check(args[1], tier)
		if err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 2
		}
		return code
	case "replay":
		code, err := replay(args[1])
		if err != nil {
			fmt.Fprintln(os.Stderr, "error:", err)
			return 2
		}
		return code
	}
	return 2
}

// --- builds ---

type builds struct {
	mu    sync.Mutex
	bins  map[string]string
	notes []string
}

type regenError struct{ msg string }

func (e regenError) Error() string { return e.msg }

func goEnv(b plan.Build) []string {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")
	if b.I386 {
		env = append(env, "GOARCH=386", "CGO_ENABLED=0", "GO386=sse2")
	}
	return env
}

func command(dir string, env []string, name string, args ...string) ([]byte, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	err := c.Run()
	return out.Bytes(), err
}

type goPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Module     *struct{ Path string }
}

// packages lists the packages of the code under test that the worker is built from.
func packages(env []string, overlay string) ([]goPkg, error) {
	args := []string{"list", "-deps", "-json=ImportPath,Dir,GoFiles,Module"}
	if overlay != "" {
		args = append(args, "-overlay", overlay)
	}
	c := exec.Command("go", append(args, "./cmd/worker")...)
	c.Dir = filepath.Join(verif, "harness")
	c.Env = env
	var se bytes.Buffer
	c.Stderr = &se
	out, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, se.String())
	}
	var ps []goPkg
	d := json.NewDecoder(bytes.NewReader(out))
	for d.More() {
		var p goPkg
		if err := d.Decode(&p); err != nil {
			return nil, err
		}
		if p.Module != nil && p.Module.Path == "github.com/zhangyunhao116/skipset" {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		return nil, errors.New("the code under test is not among the worker's packages")
	}
	return ps, nil
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

// build compiles the worker against the current tree.
func build(name string) (bin string, note string, err error) {
	b, ok := plan.Builds[name]
	if !ok {
		return "", "", fmt.Errorf("unknown build %q", name)
	}
	env := goEnv(b)
	bin = filepath.Join(work, "worker-"+name)
	repl := map[string]string{}
	base := ""
	if b.Regen {
		repl, err = regenerate()
		if err != nil {
			return "", "", err
		}
		base = filepath.Join(work, name+"-base.json")
		if err := writeJSON(base, map[string]any{"Replace": repl}); err != nil {
			return "", "", err
		}
	}
	compile := func(overlay string) ([]byte, error) {
		args := []string{"build", "-o", bin}
		if b.Race {
			args = append(args, "-race")
		}
		if overlay != "" {
			args = append(args, "-overlay", overlay)
		}
		return command(filepath.Join(verif, "harness"), env, "go", append(args, "./cmd/worker")...)
	}
	if !b.Instr {
		out, err := compile(base)
		if err != nil {
			return "", "", notCompiling(b, env, name, err, out)
		}
		return bin, "", nil
	}
	ps, err := packages(env, base)
	if err != nil {
		if b.Regen {
			return "", "", regenError{"the regenerated package cannot be loaded: " + err.Error()}
		}
		return "", "", err
	}
	var first []byte
	for level := instr.Full; level <= instr.Imports; level++ {
		o := map[string]string{}
		for k, v := range repl {
			o[k] = v
		}
		dir := filepath.Join(work, fmt.Sprintf("%s-%d", name, level))
		bad := false
		for pi, p := range ps {
			for _, f := range p.GoFiles {
				path := filepath.Join(p.Dir, f)
				src := path
				if r, ok := repl[path]; ok {
					src = r
				}
				text, err := os.ReadFile(src)
				if err != nil {
					return "", "", err
				}
				text, err = instr.File(path, text, level)
				if err != nil {
					bad = true
					break
				}
				dst := filepath.Join(dir, strconv.Itoa(pi), f)
				if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
					return "", "", err
				}
				if err := os.WriteFile(dst, text, 0o644); err != nil {
					return "", "", err
				}
				o[path] = dst
			}
		}
		if bad {
			break
		}
		ov := filepath.Join(dir, "overlay.json")
		if err := writeJSON(ov, map[string]any{"Replace": o}); err != nil {
			return "", "", err
		}
		out, err := compile(ov)
		if err == nil {
			if level > instr.Full {
				note = fmt.Sprintf("build %s: instrumentation level %d (the fuller one does not compile: %s)", name, level, firstLine(first))
			}
			return bin, note, nil
		}
		if first == nil {
			first = out
		}
	}
	out, err := compile(base)
	if err != nil {
		return "", "", notCompiling(b, env, name, err, out)
	}
	return bin, fmt.Sprintf("build %s: not instrumented (%s)", name, firstLine(first)), nil
}

// notCompiling: a regenerated package that does not compile although the tree does is a finding.
func notCompiling(b plan.Build, env []string, name string, err error, out []byte) error {
	if b.Regen {
		if _, e := command(repo, env, "go", "build", "./..."); e == nil {
			return regenError{"the package built from the regenerated files does not compile:\n" + string(out)}
		}
	}
	return fmt.Errorf("build %s: %v\n%s", name, err, out)
}

func firstLine(b []byte) string {
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" && !strings.HasPrefix(l, "#") {
			return l
		}
	}
	return ""
}

// regenerate runs the project's generator in a scratch copy from which all generated
// files have been removed, and returns the overlay that puts its output in place.
func regenerate() (map[string]string, error) {
	regenOnce.Do(func() { regenMap, regenErr = regenerateNow() })
	repl := map[string]string{}
	for k, v := range regenMap {
		repl[k] = v
	}
	return repl, regenErr
}

var (
	regenOnce sync.Once
	regenMap  map[string]string
	regenErr  error
)

func regenerateNow() (map[string]string, error) {
	dir := filepath.Join(work, "regen")
	repl := map[string]string{}
	var before []string
	err := filepath.WalkDir(repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if d.IsDir() {
			if d.Name() == ".git" || d.Name() == "testdata" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dir, rel), 0o755)
		}
		if !d.Type().IsRegular() || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		text, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if strings.HasSuffix(path, ".go") {
			before = append(before, rel)
			head := text
			if len(head) > 400 {
				head = head[:400]
			}
			if bytes.HasPrefix(head, []byte("// Code generated ")) || bytes.Contains(head, []byte("\n// Code generated ")) {
				return nil
			}
		}
		return os.WriteFile(filepath.Join(dir, rel), text, 0o644)
	})
	if err != nil {
		return nil, err
	}
	cmd := "go run gen.go"
	env := append(goEnv(plan.Build{}), "GOFLAGS=-mod=mod")
	ran := false
	gens, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, g := range gens {
		text, _ := os.ReadFile(g)
		for _, l := range strings.Split(string(text), "\n") {
			if rest, ok := strings.CutPrefix(l, "//go:generate "); ok {
				f := strings.Fields(rest)
				cmd = rest
				ran = true
				if out, err := command(dir, env, f[0], f[1:]...); err != nil {
					return nil, regenError{fmt.Sprintf("the code generator (%s) fails: %v\n%s", rest, err, out)}
				}
			}
		}
	}
	if !ran {
		if _, err := os.Stat(filepath.Join(dir, "gen.go")); err != nil {
			return nil, errors.New("no code generator found (no go:generate directive, no gen.go)")
		}
		if out, err := command(dir, env, "go", "run", "gen.go"); err != nil {
			return nil, regenError{fmt.Sprintf("the code generator (%s) fails: %v\n%s", cmd, err, out)}
		}
	}
	have := map[string]bool{}
	err = filepath.WalkDir(dir, func(path string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, path)
		have[rel] = true
		repl[filepath.Join(repo, rel)] = path
		return nil
	})
	if err != nil {
		return nil, err
	}
	for _, rel := range before {
		if !have[rel] {
			repl[filepath.Join(repo, rel)] = ""
		}
	}
	return repl, nil
}

// --- running ---

func workerEnv(b plan.Build, prop string) []string {
	env := append(os.Environ(), "GOTRACEBACK=all")
	if b.Race {
		env = append(env, "GORACE=exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")
	}
	if prop == "C17" {
		env = append(env, "GODEBUG=clobberfree=1")
	}
	return env
}

// crash is a worker process that died.
type crash struct {
	index int
	text  string
	kind  string // crash, deadlock, or "" for something that is not attributable to the code under test
	cs    []byte // the case (guided parts)
}

func classify(err error, stderr string) string {
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return ""
		}
	}
	switch {
	case strings.Contains(stderr, "verif-watchdog:"):
		return "hang"
	case strings.Contains(stderr, "out of memory"), strings.Contains(stderr, "cannot allocate memory"),
		strings.Contains(stderr, "errno=11"), strings.Contains(stderr, "failed to create new OS thread"), strings.Contains(stderr, "pthread_create failed"):
		return ""
	case strings.Contains(stderr, "all goroutines are asleep"):
		return "deadlock"
	case strings.Contains(stderr, "fatal error:"), strings.Contains(stderr, "unexpected fault address"),
		strings.Contains(stderr, "panic:"), strings.Contains(stderr, "SIGSEGV"), strings.Contains(stderr, "SIGBUS"):
		// A harness panic names none of the code under test.
		if strings.Contains(stderr, "zhangyunhao116/skipset") || strings.Contains(stderr, "/repo/") {
			return "crash"
		}
		if strings.Contains(stderr, "fatal error:") && !strings.Contains(stderr, "concurrent map") {
			return "crash"
		}
		return ""
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

type runCfg struct {
	bin   string
	b     plan.Build
	prop  string
	part  plan.Part
	seed  uint64
	n     int
	tier  string
	limit time.Duration
	focus string
}

func (c *runCfg) procs() (workers, gomaxprocs int) {
	cpus := runtime.NumCPU()
	if c.part.Real {
		w := c.part.Procs
		if w < 1 {
			w = 1
		}
		if w > cpus {
			w = cpus
		}
		g := 4
		if g > cpus {
			g = cpus
		}
		return w, g
	}
	w := c.part.Procs
	if w < 1 {
		w = cpus
	}
	return w, 1
}

func (c *runCfg) args(w, step, gmp int, extra ...string) []string {
	a := []string{"-prop", c.prop, "-part", c.part.Name, "-seed", strconv.FormatUint(c.seed, 10),
		"-from", strconv.Itoa(w), "-step", strconv.Itoa(step), "-n", strconv.Itoa(c.n), "-procs", strconv.Itoa(gmp)}
	if c.tier == "thorough" {
		a = append(a, "-thorough")
	}
	if c.focus != "" {
		a = append(a, "-focus", c.focus)
	}
	return append(a, extra...)
}

// runPart runs all cases of a part. It returns the merged statistics and the failing
// result with the smallest index, if any.
func runPart(c *runCfg) (st *pbt.Stats, failed *result, cr *crash, cut bool, err error) {
	workers, gmp := c.procs()
	dir, err := os.MkdirTemp(work, "run-")
	if err != nil {
		return nil, nil, nil, false, err
	}
	stop := filepath.Join(dir, "stop")
	share := filepath.Join(dir, "share")
	for _, d := range []string{stop, share} {
		if err := os.Mkdir(d, 0o755); err != nil {
			return nil, nil, nil, false, err
		}
	}
	type ret struct {
		w   int
		res *result
		cr  *crash
		err error
	}
	ch := make(chan ret, workers)
	for w := 0; w < workers; w++ {
		go func() {
			out := filepath.Join(dir, fmt.Sprintf("out%d", w))
			prog := filepath.Join(dir, fmt.Sprintf("prog%d", w))
			secs := int(c.limit.Seconds())
			cmd := exec.Command(c.bin, c.args(w, workers, gmp, "-out", out, "-progress", prog, "-stop", stop, "-share", share, "-seconds", strconv.Itoa(secs))...)
			cmd.Env = workerEnv(c.b, c.prop)
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			var se limited
			cmd.Stderr = &se
			cmd.Stdout = &se
			runtime.LockOSThread() // Pdeathsig is bound to the thread
			defer runtime.UnlockOSThread()
			if err := cmd.Start(); err != nil {
				ch <- ret{w: w, err: err}
				return
			}
			timedOut := false
			timer := time.AfterFunc(c.limit+90*time.Second, func() { timedOut = true; cmd.Process.Kill() })
			err := cmd.Wait()
			timer.Stop()
			if err != nil {
				idx := -1
				var text []byte
				if b, e := os.ReadFile(prog); e == nil && len(b) >= 16 {
					idx, _ = strconv.Atoi(strings.TrimSpace(string(b[:16])))
					text, _, _ = bytes.Cut(b[16:], []byte("\n"))
				}
				kind := classify(err, se.String())
				if timedOut {
					kind = ""
				}
				if kind != "" {
					os.WriteFile(filepath.Join(stop, strconv.Itoa(idx)), nil, 0o644)
				}
				ch <- ret{w: w, cr: &crash{idx, fmt.Sprintf("%v (timed out: %v)\n%s", err, timedOut, tail(se.String(), 6000)), kind, text}}
				return
			}
			var r result
			b, err := os.ReadFile(out)
			if err == nil {
				err = json.Unmarshal(b, &r)
			}
			ch <- ret{w: w, res: &r, err: err}
		}()
	}
	st = pbt.NewStats()
	var bad *crash
	for i := 0; i < workers; i++ {
		r := <-ch
		switch {
		case r.err != nil:
			err = r.err
		case r.cr != nil:
			if r.cr.kind == "" {
				bad = r.cr
			} else if cr == nil || r.cr.index < cr.index {
				cr = r.cr
			}
		default:
			st.Merge(r.res.Stats)
			cut = cut || r.res.TimedOut
			if r.res.Index >= 0 && (failed == nil || r.res.Index < failed.Index) {
				failed = r.res
			}
		}
	}
	if failed == nil && cr == nil && err == nil && bad != nil {
		err = fmt.Errorf("a worker of part %s died at case %d: %s", c.part.Name, bad.index, bad.text)
	}
	if failed != nil || cr != nil {
		err = nil
	}
	return
}

// limited keeps the beginning and the end of a long output.
type limited struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	q := p
	if room := 20000 - len(l.head); room > 0 {
		k := min(room, len(q))
		l.head = append(l.head, q[:k]...)
		q = q[k:]
	}
	l.tail = append(l.tail, q...)
	if len(l.tail) > 40000 {
		l.tail = append([]byte{}, l.tail[len(l.tail)-20000:]...)
	}
	return len(p), nil
}

func (l *limited) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.head) + string(l.tail)
}

// execCase runs one case in a fresh process: fail is nil if it passes.
func execCase(bin string, b plan.Build, prop string, c *pbt.Case, procs, tries int, tier string) (f *pbt.Fail, err error) {
	path := filepath.Join(work, fmt.Sprintf("case-%d.json", time.Now().UnixNano()))
	if err := writeJSON(path, c); err != nil {
		return nil, err
	}
	for t := 0; t < tries; t++ {
		out := path + ".out"
		os.Remove(out)
		args := []string{"-exec", path, "-out", out, "-procs", strconv.Itoa(procs)}
		if tier == "thorough" {
			args = append(args, "-thorough")
		}
		cmd := exec.Command(bin, args...)
		cmd.Env = workerEnv(b, prop)
		var se limited
		cmd.Stderr, cmd.Stdout = &se, &se
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		timer := time.AfterFunc(200*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		timer.Stop()
		if err != nil {
			if kind := classify(err, se.String()); kind != "" {
				return &pbt.Fail{Kind: kind, Msg: "the process dies: " + tail(se.String(), 6000)}, nil
			}
			return nil, fmt.Errorf("running one case: %v\n%s", err, tail(se.String(), 3000))
		}
		var r result
		bts, err := os.ReadFile(out)
		if err != nil {
			return nil, err
		}
		if err := json.Unmarshal(bts, &r); err != nil {
			return nil, err
		}
		if r.Fail != nil {
			if b.Race && r.Fail.Kind == "race" {
				r.Fail.Msg += "\n" + raceReport(se.String())
			}
			return r.Fail, nil
		}
	}
	return nil, nil
}

func raceReport(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if j := strings.Index(s, "=================="); j > 0 {
		s = s[:j]
	}
	return tail(s, 5000)
}

// --- findings ---

func knownFindings(prop string) (keys []string) {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "finding: property="+prop+" "); ok {
			keys = append(keys, strings.TrimSpace(rest))
		}
	}
	return keys
}

// --- check ---

func check(id, tier string) (int, error) {
	parts, ok := plan.Props[id]
	if !ok {
		return 2, fmt.Errorf("unknown property %q", id)
	}
	if tier != "quick" && tier != "thorough" {
		return 2, fmt.Errorf("unknown tier %q", tier)
	}
	t0 := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if x, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(x)
		} else {
			for _, b := range []byte(s) {
				seed = seed*131 + uint64(b)
			}
		}
	}
	for _, k := range knownFindings(id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	total := pbt.NewStats()
	var rules, notes, assumptions []string
	var partInfo []map[string]any
	violations := 0
	var rep *Replay

	// All builds first, in parallel.
	type built struct {
		bin, note string
		err       error
		focus     string
		focused   bool
	}
	bins := map[string]*built{}
	var wg sync.WaitGroup
	for _, p := range parts {
		if bins[p.Build] == nil {
			b := &built{}
			bins[p.Build] = b
			wg.Add(1)
			go func() {
				defer wg.Done()
				b.bin, b.note, b.err = build(p.Build)
			}()
		}
	}
	wg.Wait()
	only := os.Getenv("VERIF_PART") // for development
	scale := 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		scale, _ = strconv.ParseFloat(s, 64)
	}
	for _, p := range parts {
		if only != "" && p.Name != only {
			continue
		}
		b := bins[p.Build]
		if b.err != nil {
			var re regenError
			if errors.As(b.err, &re) {
				rep = &Replay{Property: id, Part: p.Name, Build: p.Build, Mode: "regen", Kind: "generator", Message: re.msg, Seed: seed, Tier: tier, Confirm: "deterministic"}
				break
			}
			return 2, b.err
		}
		if b.note != "" {
			notes = append(notes, b.note)
			b.note = ""
		}
		if !b.focused {
			b.focused = true
			if b.focus = focus(p.Build); b.focus != "" {
				notes = append(notes, "build "+p.Build+": half of the cases go to "+b.focus+", whose code differs from that of most types")
			}
		}
		cfg := &runCfg{bin: b.bin, b: plan.Builds[p.Build], prop: id, part: p, seed: seed, tier: tier, n: p.Quick, limit: 240 * time.Second, focus: b.focus}
		if tier == "thorough" {
			cfg.n, cfg.limit = p.Thorough, 40*time.Minute
		}
		cfg.n = int(float64(cfg.n) * scale)
		if cfg.n < 1 {
			cfg.n = 1
		}
		tp := time.Now()
		st, failed, cr, cut, err := runPart(cfg)
		if err != nil {
			return 2, err
		}
		total.Merge(st)
		rules = append(rules, p.Name+" ("+p.Build+"): "+p.Rule)
		partInfo = append(partInfo, map[string]any{"part": p.Name, "build": p.Build, "cases": st.Cases, "nontrivial": st.NonTrivial, "planned": cfg.n,
			"cut_short": cut, "labels": st.Labels, "wall_s": round(time.Since(tp).Seconds())})
		fmt.Printf("%s/%s: %d cases, %d distinct and non-trivial, %.1f s\n", id, p.Name, st.Cases, st.NonTrivial, time.Since(tp).Seconds())
		if failed != nil || cr != nil {
			rep, err = diagnose(cfg, failed, cr)
			if err != nil {
				return 2, err
			}
			rep.Focus = cfg.focus
			break
		}
	}
	if rep != nil {
		violations = 1
	}
	assumptions = append(assumptions, "the generated cases are a sample: absence of a failure is evidence, not proof",
		"executions under the controlled scheduler are sequentially consistent; weaker behaviours are covered by race freedom (C11) and the runs on real goroutines")
	ev := map[string]any{
		"property": id, "tier": tier, "seed": int64(seed & (1<<53 - 1)), "level": "exploration",
		"coverage": map[string]any{
			"evaluations": total.Cases, "distinct_nontrivial": total.NonTrivial, "rule": strings.Join(rules, " | "),
			"samples": total.Samples, "parts": partInfo, "notes": append([]string{}, notes...),
		},
		"assumptions": assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": violations,
	}
	if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
		return 2, err
	}
	if err := writeJSON(filepath.Join(verif, "evidence", id+".json"), ev); err != nil {
		return 2, err
	}
	for _, n := range notes {
		fmt.Println("note:", n)
	}
	if rep != nil {
		if err := os.MkdirAll(filepath.Join(verif, "replays"), 0o755); err != nil {
			return 2, err
		}
		path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%d.json", id, rep.Part, rep.Index))
		if err := writeJSON(path, rep); err != nil {
			return 2, err
		}
		fmt.Printf("%s: %s\n", rep.Kind, tail(rep.Message, 8000))
		fmt.Printf("reproduce with: ./run.sh replay %s\n", path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1, nil
	}
	fmt.Printf("%s: held on everything explored (%d cases, %d distinct and non-trivial)\n", id, total.Cases, total.NonTrivial)
	return 0, nil
}

func round(x float64) float64 { return float64(int(x*100)) / 100 }

// diagnose confirms a failure in fresh processes and prepares its replay file.
func diagnose(c *runCfg, failed *result, cr *crash) (*Replay, error) {
	_, gmp := c.procs()
	rep := &Replay{Property: c.prop, Part: c.part.Name, Build: buildName(c.part), Seed: c.seed, Tier: c.tier, Real: c.part.Real, Procs: gmp}
	tries := 1
	if c.part.Real {
		tries = 5
	}
	if failed == nil || cr != nil && cr.index < failed.Index {
		// A process died. Run the case it was in again, alone.
		out, err := cr.cs, error(nil)
		if len(out) == 0 {
			out, err = command(verif, workerEnv(c.b, c.prop), c.bin, c.args(0, 1, gmp, "-dump", strconv.Itoa(cr.index))...)
		}
		cs := new(pbt.Case)
		if err == nil {
			err = json.Unmarshal(out, cs)
		}
		if err != nil {
			return nil, fmt.Errorf("a worker died (%s) and its case cannot be generated again: %v", cr.text, err)
		}
		rep.Index, rep.Case, rep.Kind, rep.Message, rep.Mode = cr.index, cs, cr.kind, cr.text, "case"
		if cr.kind == "hang" {
			rep.Confirm = "seen in the campaign: the case did not end (not shrunk)"
			return rep, nil
		}
		f, err := execCase(c.bin, c.b, c.prop, cs, gmp, tries, c.tier)
		if err != nil {
			return nil, err
		}
		if f == nil {
			if !c.part.Real {
				// Not reproducible alone: run the worker's share of the campaign again.
				rep.Mode = "campaign"
				rep.Confirm = "seen in the campaign; not by the case alone"
				return rep, nil
			}
			rep.Confirm = "seen once; depends on real scheduling"
			return rep, nil
		}
		rep.Kind, rep.Message = f.Kind, f.Msg
		rep.Confirm = "reproduced in a fresh process"
		deadline := time.Now().Add(40 * time.Second)
		small := pbt.Shrink(cs, 300, func(d *pbt.Case) bool {
			if time.Now().After(deadline) {
				return false
			}
			g, err := execCase(c.bin, c.b, c.prop, d, gmp, 1, c.tier)
			if err == nil && g != nil && g.Kind == f.Kind {
				rep.Message = g.Msg
				return true
			}
			return false
		})
		if small != cs {
			rep.Original, rep.Case = cs, small
		}
		return rep, nil
	}
	rep.Index, rep.Kind, rep.Message, rep.Mode = failed.Index, failed.Fail.Kind, failed.Fail.Msg, "case"
	rep.Original, rep.Case = failed.Case, failed.Case
	if failed.Shrunk != nil {
		f, err := execCase(c.bin, c.b, c.prop, failed.Shrunk, gmp, tries, c.tier)
		if err != nil {
			return nil, err
		}
		if f != nil {
			rep.Case, rep.Kind, rep.Message, rep.Confirm = failed.Shrunk, f.Kind, f.Msg, "reproduced in a fresh process"
			return rep, nil
		}
	}
	f, err := execCase(c.bin, c.b, c.prop, failed.Case, gmp, tries, c.tier)
	if err != nil {
		return nil, err
	}
	if f != nil {
		rep.Case, rep.Kind, rep.Message, rep.Confirm = failed.Case, f.Kind, f.Msg, "reproduced in a fresh process (not shrunk)"
		if c.b.Race && !c.part.Real {
			deadline := time.Now().Add(40 * time.Second)
			rep.Case = pbt.Shrink(failed.Case, 300, func(d *pbt.Case) bool {
				if time.Now().After(deadline) {
					return false
				}
				g, err := execCase(c.bin, c.b, c.prop, d, gmp, 1, c.tier)
				if err == nil && g != nil {
					rep.Message = g.Msg
					return true
				}
				return false
			})
		}
		return rep, nil
	}
	if c.part.Real {
		rep.Confirm = "seen once; depends on real scheduling"
	} else {
		rep.Mode = "campaign"
		rep.Confirm = "seen in the campaign; not by the case alone"
	}
	return rep, nil
}

func buildName(p plan.Part) string { return p.Build }

// --- replay ---

func replay(path string) (int, error) {
	var r Replay
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		return 2, err
	}
	var part plan.Part
	for _, p := range plan.Props[r.Property] {
		if p.Name == r.Part {
			part = p
		}
	}
	bin, _, err := build(r.Build)
	var re regenError
	if errors.As(err, &re) {
		fmt.Println(re.msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		return 1, nil
	}
	if err != nil {
		return 2, err
	}
	if r.Mode == "regen" {
		fmt.Println("the code generator works")
		return 0, nil
	}
	var f *pbt.Fail
	if r.Mode == "campaign" {
		n := part.Quick
		if r.Tier == "thorough" {
			n = part.Thorough
		}
		cfg := &runCfg{bin: bin, b: plan.Builds[r.Build], prop: r.Property, part: part, seed: r.Seed, tier: r.Tier, n: min(n, r.Index+1), limit: 30 * time.Minute, focus: r.Focus}
		_, failed, cr, _, err := runPart(cfg)
		if err != nil {
			return 2, err
		}
		if failed != nil {
			f = failed.Fail
		} else if cr != nil {
			f = &pbt.Fail{Kind: cr.kind, Msg: cr.text}
		}
	} else {
		tries := 1
		if r.Real {
			tries = 50
		}
		f, err = execCase(bin, plan.Builds[r.Build], r.Property, r.Case, max(r.Procs, 1), tries, r.Tier)
		if err != nil {
			return 2, err
		}
	}
	if f == nil {
		fmt.Println("the case passes")
		return 0, nil
	}
	fmt.Printf("%s: %s\n", f.Kind, f.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	return 1, nil
}
