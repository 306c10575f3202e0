// Package vsched is a cooperative scheduler: the goroutines ("tasks") of a case
// run one at a time and may be switched only at scheduling points, as a plan says.
//
// The instrumented build of the code under test calls Point (through the shims of
// sync, sync/atomic and fastrand, and before every statement). Outside of Run and
// Solo every point is a no-op.
//
// All functions that touch scheduler state are go:norace, and hand-offs are hidden
// from the race detector, so that in a -race build the scheduler adds no
// happens-before edge between tasks.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
	"unsafe"
)

// Kind classifies scheduling points.
type Kind uint8

const (
	KStmt Kind = iota
	KLoad
	KStore
	KRMW
	KLock
	KUnlock
	KEnd // the end of a call
)

// Masks of point kinds that count towards a plan's gaps.
const (
	MaskAll   = 1<<KStmt | 1<<KLoad | 1<<KStore | 1<<KRMW | 1<<KLock | 1<<KUnlock
	MaskSync  = MaskAll &^ (1 << KStmt)
	MaskWrite = 1<<KStore | 1<<KRMW | 1<<KLock | 1<<KUnlock
	MaskLoad  = 1 << KLoad
	MaskLock  = 1 << KLock
	MaskEnd   = 1 << KEnd
)

// Switch: run Gap more counted points, then switch to the Pick-th other runnable task.
// Mask says which points count, if not those of the plan.
type Switch struct {
	Gap  int `json:"g"`
	Pick int `json:"p"`
	Mask int `json:"m,omitempty"`
}

// Plan is a schedule.
type Plan struct {
	Mask    int      `json:"mask,omitempty"`
	Quantum int      `json:"quantum,omitempty"`
	Sw      []Switch `json:"sw,omitempty"`
	First   int      `json:"first,omitempty"`
}

// Outcomes of a run.
const (
	OK       = ""
	Deadlock = "deadlock"
	Livelock = "livelock"
	Panic    = "panic"
	Blocked  = "reader-blocked" // a wait-free operation waited for a lock
	Steps    = "reader-steps"   // a wait-free operation exceeded its own-step bound
)

// Result of a run.
type Result struct {
	Outcome  string
	Task     int
	Msg      string
	Steps    int64
	Switches int
}

const (
	ready = iota
	blocked
	done
)

// Task is one controlled goroutine.
type Task struct {
	id    int
	ch    chan struct{}
	state int
	on    unsafe.Pointer
	tries int  // attempts to get the lock it waits for
	given bool // the lock was handed over
	steps int64

	// wait-free section
	wfStart, wfLimit int64
	wfExcl           int64 // go exclusive after that many own steps (<0: never)

	// coverage
	site uint16
	hits *hitTab

	// randomness
	armed bool
	zeros int
	rng   uint64
}

// Sched is the state of one run.
type Sched struct {
	tasks    []*Task
	n        int
	solo     bool
	mask     uint32
	base     uint32 // the plan's mask
	sw       []Switch
	swi      int
	gap      int
	runLen   int
	quantum  int // of the current turn, between half and one and a half of mean
	mean     int
	jitter   uint64
	budget   int64
	steps    int64
	switches int
	excl     *Task
	aborting bool
	outcome  string
	otask    int
	msg      string
	wg       sync.WaitGroup
}

type abortT struct{}

var abortSig any = abortT{}

var (
	cur   *Task
	sc    *Sched
	clock int64
	// Preempts counts switches forced by plans, per kind of point (statistics).
	Preempts [8]int64
)

const huge = 1 << 30

// Epoch is the number of the current case of this process.
var Epoch uint64

var onGC []func()

// OnGC has f called at the next ForgetPools.
//
//go:norace
func OnGC(f func()) { onGC = append(onGC, f) }

// ForgetPools does what a garbage collection does to sync.Pool.
func ForgetPools() {
	for _, f := range onGC {
		f()
	}
	onGC = nil
}

// Now returns the next tick of the logical clock.
//
//go:norace
func Now() int64 { clock++; return clock }

// Active tells whether the caller runs under the scheduler.
//
//go:norace
func Active() bool { return cur != nil }

// S is the scheduling point put before every statement; site tells them apart.
//
//go:norace
func S(site uint16) {
	if covOn {
		if t := cur; t != nil {
			t.hit(site)
		}
	}
	Point(KStmt)
}

// stmt is a scheduling point inside of a statement.
//
//go:norace
func stmt() { Point(KStmt) }

// Coverage for guided generation: how often a call reaches a statement (1, 2, 3, ... times),
// and between which two places of different tasks a switch happens.
const covSites = 2048

// hitTab counts, per statement, how often the current call has reached it, and in how many
// turns (stretches between switches).
type hitTab struct {
	times, turns [covSites]uint8
	last         [covSites]int32
}

var (
	covOn   bool
	covSeen [2*covSites*16 + 1<<16]bool
	covNew  [2]int
	covTop  []int // new counts of turns: site<<4 | bucket
	bucket  [256]uint8
)

func init() {
	for i, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 17, 24, 32, 64, 128} {
		bucket[n] = uint8(i + 1)
	}
}

// CovStart begins to collect the coverage of a case.
//
//go:norace
func CovStart() { covOn, covNew, covTop = true, [2]int{}, covTop[:0] }

// CovEnd tells what is new since CovStart: in how many turns of a call a statement was
// reached (site and count), and how many other counts and switches.
//
//go:norace
func CovEnd() (turns []int, others int) {
	covOn = false
	return covTop, covNew[0] + covNew[1]
}

// CovMark notes what another process has seen and returns what is new of it.
func CovMark(turns []int) (fresh []int) {
	for _, x := range turns {
		if k := covSites*16 + x; x >= 0 && x < covSites*16 && !covSeen[k] {
			covSeen[k] = true
			fresh = append(fresh, x)
		}
	}
	return fresh
}

// CallStart is called by tasks between calls.
//
//go:norace
func CallStart() {
	if covOn && cur != nil {
		cur.site = 0
		if cur.hits == nil {
			cur.hits = new(hitTab)
		}
		*cur.hits = hitTab{}
	}
}

// CallEnd is called by tasks after each call.
func CallEnd() { Point(KEnd) }

//go:norace
func (t *Task) hit(site uint16) {
	site %= covSites
	t.site = site
	if t.hits == nil || sc.solo {
		return
	}
	h, k := t.hits, int(site)<<4
	if n := h.times[site] + 1; n != 0 {
		h.times[site] = n
		covCount(k, n, 1)
	}
	if m := int32(sc.switches) + 1; h.last[site] != m {
		h.last[site] = m
		if n := h.turns[site] + 1; n != 0 {
			h.turns[site] = n
			covCount(k+covSites*16, n, 0)
		}
	}
}

//go:norace
func covCount(k int, n uint8, class int) {
	if b := bucket[n]; b != 0 && !covSeen[k+int(b)] {
		covSeen[k+int(b)] = true
		covNew[class]++
		if class == 0 {
			covTop = append(covTop, k&(covSites*16-1)+int(b))
		}
	}
}

//go:norace
func covSwitch(t, n *Task) {
	if k := 2*covSites*16 + int(uint32(t.site)*2654435761>>7^uint32(n.site)*40503)&(1<<16-1); !covSeen[k] {
		covSeen[k] = true
		covNew[1]++
	}
}

// Point is a scheduling point.
//
//go:norace
func Point(k Kind) {
	t := cur
	if t == nil {
		return
	}
	s := sc
	if s.aborting {
		panic(abortSig)
	}
	s.steps++
	t.steps++
	if s.steps > s.budget {
		s.fail(t, Livelock, stacks())
	}
	if t.wfLimit > 0 && t.steps-t.wfStart > t.wfLimit {
		s.fail(t, Steps, "")
	}
	if s.solo {
		return
	}
	if s.excl != nil {
		return
	}
	if t.wfLimit > 0 && t.wfExcl >= 0 && t.steps-t.wfStart > t.wfExcl {
		s.excl = t
		return
	}
	s.runLen++
	if s.mask>>k&1 == 1 {
		s.gap--
		if s.gap <= 0 {
			pick := s.sw[s.swi].Pick
			s.swi++
			s.loadGap()
			Preempts[k]++
			s.switchFrom(t, pick)
			return
		}
	}
	if s.runLen > s.quantum {
		s.rotate(t)
	}
}

//go:norace
func (s *Sched) loadGap() {
	if s.swi < len(s.sw) {
		s.mask = s.base
		if m := s.sw[s.swi].Mask; m != 0 {
			s.mask = uint32(m)
		}
		s.gap = s.sw[s.swi].Gap
		if s.gap < 1 {
			s.gap = 1
		}
	} else {
		s.gap = huge
	}
}

func stacks() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, true)])
}

//go:norace
func (s *Sched) fail(t *Task, outcome, msg string) {
	if !s.aborting {
		s.aborting = true
		s.outcome = outcome
		s.otask = t.id
		s.msg = msg
	}
	panic(abortSig)
}

// runnable returns the pick-th runnable task other than t, or nil.
//
//go:norace
func (s *Sched) runnable(t *Task, pick int) *Task {
	c := 0
	for i := 0; i < s.n; i++ {
		if x := s.tasks[i]; x != t && x.state == ready {
			c++
		}
	}
	if c == 0 {
		return nil
	}
	if pick < 0 {
		pick = -pick
	}
	pick %= c
	for i := 0; i < s.n; i++ {
		if x := s.tasks[i]; x != t && x.state == ready {
			if pick == 0 {
				return x
			}
			pick--
		}
	}
	return nil
}

//go:norace
func (s *Sched) switchFrom(t *Task, pick int) {
	s.runLen = 0
	n := s.runnable(t, pick)
	if n == nil {
		return
	}
	s.transfer(t, n)
}

// newQuantum draws the length of the next turn: with turns of equal length, loops of the
// code under test could be interrupted at the same place for ever.
//
//go:norace
func (s *Sched) newQuantum() {
	s.jitter = mix(s.jitter)
	s.quantum = s.mean/2 + int(s.jitter%uint64(s.mean)) + 1
}

//go:norace
func (s *Sched) rotate(t *Task) {
	s.runLen = 0
	s.newQuantum()
	for d := 1; d < s.n; d++ {
		n := s.tasks[(t.id+d)%s.n]
		if n.state == ready {
			s.transfer(t, n)
			return
		}
	}
}

//go:norace
func (s *Sched) transfer(t, n *Task) {
	s.switches++
	if covOn {
		covSwitch(t, n)
	}
	s.runLen = 0
	cur = n
	raceDisable()
	n.ch <- struct{}{}
	<-t.ch
	raceEnable()
	if s.aborting {
		panic(abortSig)
	}
}

//go:norace
func (s *Sched) nextPick() int {
	if s.swi < len(s.sw) {
		return s.sw[s.swi].Pick
	}
	return 0
}

// starve is the number of times a task may be woken and find a lock taken again before it
// is given the lock when that is released (as sync.Mutex does after a millisecond).
const starve = 4

// BlockLock parks the current task until the lock may be free (false) or has been given to
// it by Handoff (true). try counts the attempts of this call of Lock.
//
//go:norace
func BlockLock(on unsafe.Pointer, try int) (given bool) {
	t := cur
	if t != nil {
		t.tries, t.given = try, false
	}
	Block(on)
	t.tries = 0
	return t.given
}

// Handoff gives a lock that is being released to a task that has starved for it.
//
//go:norace
func Handoff(on unsafe.Pointer) bool {
	if cur == nil || sc.solo {
		return false
	}
	s := sc
	for i := 0; i < s.n; i++ {
		if x := s.tasks[i]; x.state == blocked && x.on == on && x.tries >= starve {
			x.state, x.on, x.given = ready, nil, true
			return true
		}
	}
	return false
}

// Block parks the current task until Wake(on). Callers re-check their condition.
//
//go:norace
func Block(on unsafe.Pointer) {
	t := cur
	s := sc
	if t == nil {
		panic("vsched: lock is held for ever (blocked outside of a schedule)")
	}
	if s.aborting {
		panic(abortSig)
	}
	if t.wfLimit > 0 {
		s.fail(t, Blocked, "")
	}
	if s.solo {
		s.fail(t, Deadlock, "a lock is held and nobody is left to release it")
	}
	t.state = blocked
	t.on = on
	n := s.runnable(t, s.nextPick())
	if n == nil {
		s.fail(t, Deadlock, "every unfinished goroutine waits for a lock")
	}
	s.transfer(t, n)
}

// Wake makes the tasks parked on `on` runnable.
//
//go:norace
func Wake(on unsafe.Pointer) {
	if cur == nil || sc.solo {
		return
	}
	s := sc
	for i := 0; i < s.n; i++ {
		if x := s.tasks[i]; x.state == blocked && x.on == on {
			x.state = ready
			x.on = nil
		}
	}
}

// finish runs on t's goroutine when its function has ended.
//
//go:norace
func (s *Sched) finish(t *Task) {
	t.state = done
	var n *Task
	if s.aborting {
		for i := 0; i < s.n; i++ {
			if x := s.tasks[i]; x.state != done {
				n = x
				break
			}
		}
	} else {
		n = s.runnable(t, s.nextPick())
		if n == nil {
			for i := 0; i < s.n; i++ {
				if x := s.tasks[i]; x.state != done {
					// Only blocked tasks are left.
					s.aborting = true
					s.outcome = Deadlock
					s.otask = x.id
					s.msg = "the remaining goroutines wait for locks that nobody will release"
					n = x
					break
				}
			}
		}
	}
	s.runLen = 0
	cur = n
	if n != nil {
		s.switches++
		raceDisable()
		n.ch <- struct{}{}
		raceEnable()
	}
}

//go:norace
func (s *Sched) caught(t *Task, r any) {
	if r == abortSig {
		return
	}
	if !s.aborting {
		s.aborting = true
		s.outcome = Panic
		s.otask = t.id
		s.msg = fmt.Sprint(r) + "\n" + string(debug.Stack())
	}
}

func taskMain(s *Sched, t *Task, fn func()) {
	defer s.wg.Done()
	defer s.finish(t)
	defer func() {
		if r := recover(); r != nil {
			s.caught(t, r)
		}
	}()
	t.await(s)
	fn()
}

//go:norace
func (t *Task) await(s *Sched) {
	raceDisable()
	<-t.ch
	raceEnable()
	if s.aborting {
		panic(abortSig)
	}
}

// Run executes fns as tasks under the plan. budget bounds the total number of points.
func Run(p Plan, budget int64, seed uint64, fns []func()) Result {
	s := &Sched{mask: uint32(p.Mask), sw: p.Sw, mean: p.Quantum, budget: budget, jitter: mix(seed + 5)}
	if s.mask == 0 {
		s.mask = MaskAll
	}
	s.base = s.mask
	if s.mean <= 0 {
		s.mean = 3000
		if len(fns) > 8 {
			s.mean = max(24000/len(fns), 500)
		}
	}
	s.newQuantum()
	s.tasks = make([]*Task, len(fns), len(fns)+16)
	s.n = len(fns)
	s.loadGap()
	s.wg.Add(len(fns))
	for i := range fns {
		s.tasks[i] = &Task{id: i, ch: make(chan struct{}, 1), rng: mix(seed + uint64(i)*0x9E3779B97F4A7C15 + 1)}
	}
	for i, fn := range fns {
		go taskMain(s, s.tasks[i], fn)
	}
	s.start(p.First)
	s.wg.Wait()
	return s.end()
}

//go:norace
func (s *Sched) start(first int) {
	if first < 0 {
		first = 0
	}
	sc = s
	t := s.tasks[first%s.n]
	cur = t
	raceDisable()
	t.ch <- struct{}{}
	raceEnable()
}

//go:norace
func (s *Sched) end() Result {
	cur, sc = nil, nil
	return Result{Outcome: s.outcome, Task: s.otask, Msg: s.msg, Steps: s.steps, Switches: s.switches}
}

// Solo runs fn as the only task. budget bounds the number of points (see Budget).
func Solo(budget int64, seed uint64, fn func()) (res Result) {
	s := &Sched{solo: true, budget: budget}
	t := &Task{rng: mix(seed + 77)}
	s.tasks = []*Task{t}
	s.n = 1
	sc, cur = s, t
	defer func() {
		if r := recover(); r != nil {
			s.caught(t, r)
		}
		res = s.end()
	}()
	fn()
	return
}

// Budget gives the current run n more points from now on.
//
//go:norace
func Budget(n int64) {
	if s := sc; s != nil {
		s.budget = s.steps + n
	}
}

// TaskSteps is the number of points the current task has passed.
//
//go:norace
func TaskSteps() int64 {
	if cur == nil {
		return 0
	}
	return cur.steps
}

// BeginWaitFree starts a section that must finish within limit own steps and may not
// wait for locks. After excl own steps all other tasks are stopped (excl<0: never).
//
//go:norace
func BeginWaitFree(limit, excl int64) {
	if t := cur; t != nil {
		t.wfStart, t.wfLimit, t.wfExcl = t.steps, limit, excl
		if excl == 0 && !sc.solo {
			sc.excl = t
		}
	}
}

// EndWaitFree ends the section, lets the others continue, and returns the own steps.
//
//go:norace
func EndWaitFree() int64 {
	t := cur
	if t == nil {
		return 0
	}
	t.wfLimit = 0
	if sc.excl == t {
		sc.excl = nil
	}
	return t.steps - t.wfStart
}

// Go starts fn as a new task (for code under test that starts goroutines).
func Go(fn func()) {
	if !Active() {
		go fn()
		return
	}
	if isSolo() {
		fn()
		return
	}
	t, s := addTask()
	s.wg.Add(1)
	go taskMain(s, t, fn)
}

//go:norace
func isSolo() bool { return sc.solo }

//go:norace
func addTask() (*Task, *Sched) {
	s := sc
	t := &Task{id: s.n, ch: make(chan struct{}, 1), rng: mix(uint64(s.n) + 99)}
	s.tasks = append(s.tasks, t)
	s.n++
	return t, s
}

// Yield lets other tasks run (runtime.Gosched of the code under test).
//
//go:norace
func Yield() {
	t := cur
	if t == nil {
		runtime.Gosched()
		return
	}
	Point(KStmt)
	if !sc.solo && sc.excl == nil {
		sc.rotate(t)
	}
}

// Sleep stands in for time.Sleep.
func Sleep[T ~int64](d T) {
	if cur == nil {
		time.Sleep(time.Duration(d))
		return
	}
	Yield()
}

// stuck is called when a channel operation cannot go on; n counts its attempts.
//
//go:norace
func stuck(n int) {
	t, s := cur, sc
	if t == nil {
		return
	}
	if s.aborting {
		panic(abortSig)
	}
	if t.wfLimit > 0 {
		s.fail(t, Blocked, "")
	}
	if n > 100000 {
		s.fail(t, Deadlock, "a channel operation waits for ever")
	}
	Yield()
}

// Send and Recv stand in for channel operations of the code under test.
func Send[T any](c chan<- T, v T) {
	if !Active() {
		c <- v
		return
	}
	Point(KLock)
	for n := 0; ; n++ {
		select {
		case c <- v:
			return
		default:
			stuck(n)
		}
	}
}

func Recv[T any](c <-chan T) T {
	if !Active() {
		return <-c
	}
	Point(KLock)
	for n := 0; ; n++ {
		select {
		case v := <-c:
			return v
		default:
			stuck(n)
		}
	}
}

// --- randomness of the code under test ---

func mix(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

// Height makes the current task's next bounded draws return h-1 zeros, then a non-zero.
// h <= 0 leaves the draws to the task's random stream; h > Ones asks for h-Ones draws
// with all bits set (or of n-1).
//
//go:norace
func Height(h int) {
	t := cur
	if t == nil {
		return
	}
	t.armed = h > 0
	t.zeros = h - 1
}

var outside uint64 = 12345

//go:norace
func next64() uint64 {
	t := cur
	if t == nil {
		outside = mix(outside)
		return outside
	}
	t.rng += 0x9E3779B97F4A7C15
	return mix(t.rng)
}

// Ones: see Height.
const Ones = 1000

// Bits is a draw of w random bits (w <= 64). When a height is armed, the draw begins or
// ends with a run of at least 2*(h-1) zero bits; beyond the width it is 0.
//
//go:norace
func Bits(w uint) uint64 {
	v := next64()
	lead := v&(1<<20) != 0
	v = v << (64 - w) >> (64 - w)
	t := cur
	if t != nil && t.armed {
		t.armed = false
		b := uint(2 * t.zeros)
		switch {
		case t.zeros >= Ones:
			return ^uint64(0) << (64 - w) >> (64 - w)
		case b >= 78:
			return 0
		case b > w-1:
			b = w - 1
		}
		if b > 0 {
			if lead {
				v = v>>b | 1<<(w-1-b)
			} else {
				v = (v<<b | 1<<b) << (64 - w) >> (64 - w)
			}
		}
	}
	return v
}

// RandN is a draw from [0,n).
//
//go:norace
func RandN(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	t := cur
	if t != nil && t.armed {
		if t.zeros >= Ones {
			if t.zeros--; t.zeros < Ones {
				t.armed = false
			}
			return n - 1
		}
		if t.zeros > 0 {
			t.zeros--
			return 0
		}
		t.armed = false
		return 1 % n
	}
	return next64() % n
}

// --- split read-modify-write of plain fields (inserted by the instrumentation) ---

type num interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64
}
type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// The helpers are not go:norace: the accesses belong to the code under test.

func Inc[T num](p *T)          { v := *p; stmt(); *p = v + 1 }
func Dec[T num](p *T)          { v := *p; stmt(); *p = v - 1 }
func Add[T num](p *T, d T)     { v := *p; stmt(); *p = v + d }
func Sub[T num](p *T, d T)     { v := *p; stmt(); *p = v - d }
func Or[T integer](p *T, d T)  { v := *p; stmt(); *p = v | d }
func And[T integer](p *T, d T) { v := *p; stmt(); *p = v & d }
func Xor[T integer](p *T, d T) { v := *p; stmt(); *p = v ^ d }
func AndNot[T integer](p *T, d T) {
	v := *p
	stmt()
	*p = v &^ d
}

// Set stores v, with a scheduling point between the evaluation of v and the store.
func Set[T any](p *T, v T) { stmt(); *p = v }
