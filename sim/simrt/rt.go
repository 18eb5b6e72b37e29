//go:build go1.21

// Package simrt is the runtime of the deterministic simulator. Instrumented
// code runs as tasks: real goroutines of which exactly one runs at a time and
// which hand control to one another only at the operations in this package. A
// seeded scheduler decides every hand-over; time is simulated.
//
// Outside a run (package initialisation, reference computations before a run)
// the operations behave like the ones they replace.
package simrt

import (
	"container/heap"
	"fmt"
	"math/rand"
	"runtime/debug"
	"sort"
	"time"
)

// Sites names the yield points; it is filled by a generated file.
var Sites []string

// R is the current run, or nil.
var R *Run

// Base is the wall clock at simulated time zero.
var Base = time.Date(2022, 7, 15, 12, 0, 0, 0, time.UTC)

// RNG is a small deterministic generator (splitmix64).
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (r *RNG) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *RNG) Float() float64 { return float64(r.U64()>>11) / float64(1<<53) }

func (r *RNG) Chance(p float64) bool { return r.Float() < p }

// Dur returns a duration in [lo, hi].
func (r *RNG) Dur(lo, hi time.Duration) time.Duration {
	if hi <= lo {
		return lo
	}
	return lo + time.Duration(r.U64()%uint64(hi-lo+1))
}

// Task is one simulated goroutine.
type Task struct {
	ID     int
	Name   string
	Tag    int // instance the task belongs to; 0 is the harness
	Op     int // client operation on whose behalf it runs
	wake   chan struct{}
	pred   func() bool
	what   string
	site   int32
	killed bool
	done   bool
	prio   uint64
	since  uint64 // when it became able to run, for first-in first-out picks
	asleep bool   // stalled by fault injection
	Born   int64  // simulated time
	harn   int    // >0 while executing harness (stub) code
}

// Panic is an uncaught panic in a task; a real process would have died.
type Panic struct {
	Task  string
	Tag   int
	Value string
	Stack string
	Site  string
}

// Strategy says how the scheduler explores.
type Strategy struct {
	Kind    string  `json:"kind"`     // fifo, random, prio, hot
	P       float64 `json:"p"`        // preemption probability per yield point
	HotMod  uint64  `json:"hot_mod"`  // hot: one site in HotMod is hot
	Starve  float64 `json:"starve"`   // probability that a task is created unlucky
	TickNs  int64   `json:"tick_ns"`  // simulated cost of a yield point
	MapPerm bool    `json:"map_perm"` // permute map iteration order
}

// Decision is one recorded non-default decision of the scheduler.
type Decision struct {
	K string `json:"k"` // "p": preemption at yield number N; "f": forced choice number N
	N uint64 `json:"n"`
	C int    `json:"c"`
}

// Run is one simulated execution.
type Run struct {
	strat    Strategy
	rng      *RNG
	seed     uint64
	tasks    []*Task
	spawned  map[spawn]int
	cur      *Task
	nextID   int
	now      int64
	timers   timerHeap
	timerSeq uint64
	steps    uint64
	nextPre  uint64
	picks    uint64
	slice    uint64 // yields since the last switch
	chans    map[uintptr]*chanState

	recording []Decision
	replayP   map[uint64]int
	replayF   map[uint64]int
	replay    bool

	MaxSteps  uint64
	aborted   bool
	finished  chan struct{}
	Panics    []Panic
	StepCap   bool
	HotTask   string
	Deadlock  bool
	Fatal     string // error of the harness itself
	Switches  uint64
	hashV     uint64
	pairs     map[uint64]struct{}
	Trace     func(string)
	siteSeen  []bool
	killedTag map[int]bool
	pausedTag map[int]int64
	// OnIdle runs when no task can go on and the clock is about to move.
	OnIdle  func(next int64)
	Stalled int64 // simulated time added by stalls
	hotSeed uint64
	mrand   *rand.Rand
}

// NewRun prepares a run.
func NewRun(seed uint64, st Strategy, decisions []Decision, replay bool) *Run {
	r := &Run{
		strat: st, seed: seed, rng: NewRNG(seed ^ 0x5ced), chans: map[uintptr]*chanState{},
		finished: make(chan struct{}), MaxSteps: 3_000_000, pairs: map[uint64]struct{}{},
		siteSeen: make([]bool, len(Sites)+1), killedTag: map[int]bool{}, pausedTag: map[int]int64{}, replay: replay,
	}
	r.hotSeed = r.rng.U64()
	if replay {
		r.replayP, r.replayF = map[uint64]int{}, map[uint64]int{}
		for _, d := range decisions {
			if d.K == "p" {
				r.replayP[d.N] = d.C
			} else {
				r.replayF[d.N] = d.C
			}
		}
	}
	r.setNextPre()
	return r
}

// Decisions returns the recorded non-default decisions.
func (r *Run) Decisions() []Decision { return r.recording }

// Steps is the number of yield points passed.
func (r *Run) Steps() uint64 { return r.steps }

// Hash identifies the interleaving: the sequence of (task, site) switches.
func (r *Run) Hash() uint64 { return r.hashV }

// Pairs is the number of distinct (site switched from, site resumed at) pairs.
func (r *Run) Pairs() map[uint64]struct{} { return r.pairs }

// SitesSeen returns the yield points reached.
func (r *Run) SitesSeen() []bool { return r.siteSeen }

// NowNs is the simulated time.
func (r *Run) NowNs() int64 { return r.now }

// Main runs f as the first task and returns when it has finished or the run
// was aborted. Other tasks are abandoned where they are.
func (r *Run) Main(f func()) {
	R = r
	t := r.newTask("main", f)
	r.cur = t
	t.wake <- struct{}{}
	<-r.finished
	R = nil
}

func (r *Run) newTask(name string, f func()) *Task {
	r.nextID++
	t := &Task{ID: r.nextID, Name: name, Born: r.now, wake: make(chan struct{}, 1)}
	if c := r.cur; c != nil {
		t.Tag, t.Op = c.Tag, c.Op
	}
	t.prio = r.rng.U64()
	if r.strat.Starve > 0 && r.rng.Chance(r.strat.Starve) && t.ID > 1 {
		t.prio &= 0xffff // unlucky: comes last under priorities, rarely picked otherwise
	}
	t.since = r.steps
	t.asleep = r.pausedTag[t.Tag] > r.now
	if t.Tag != 0 {
		if r.spawned == nil {
			r.spawned = map[spawn]int{}
		}
		r.spawned[spawn{t.Tag, name}]++
	}
	r.tasks = append(r.tasks, t)
	go func() {
		<-t.wake
		defer func() {
			if p := recover(); p != nil {
				site := ""
				if int(t.site) < len(Sites) {
					site = Sites[t.site]
				}
				r.Panics = append(r.Panics, Panic{Task: t.Name, Tag: t.Tag,
					Value: fmt.Sprint(p), Stack: string(debug.Stack()), Site: site})
				if t.Tag == 0 || t.harn > 0 {
					r.Fatal = fmt.Sprintf("panic in harness task %s: %v\n%s", t.Name, p, debug.Stack())
				}
				r.abort()
				return
			}
			t.done = true
			for i, x := range r.tasks {
				if x == t {
					r.tasks = append(r.tasks[:i], r.tasks[i+1:]...)
					break
				}
			}
			if t.ID == 1 {
				r.abort()
				return
			}
			if !r.aborted {
				r.next(nil)
			}
		}()
		f()
	}()
	return t
}

func (r *Run) abort() {
	if !r.aborted {
		r.aborted = true
		close(r.finished)
	}
}

// park stops the calling goroutine for ever, once the run is over.
func park() { select {} }

// Go starts a task.
func Go(f func()) {
	r := R
	if r == nil {
		go f()
		return
	}
	name := "go"
	if c := r.cur; c != nil && int(c.site) < len(Sites) && c.harn == 0 {
		name = Sites[c.site]
	}
	r.newTask(name, f)
	r.yield()
}

// GoNamed starts a harness task.
func GoNamed(name string, tag, op int, f func()) *Task {
	r := R
	t := r.newTask(name, f)
	t.Tag, t.Op = tag, op
	t.asleep = r.pausedTag[tag] > r.now
	t.killed = r.killedTag[tag]
	return t
}

// Cur is the running task.
func Cur() *Task { return R.cur }

// Harness marks the running task as executing stub code until the returned
// function is called: panics in stub code are errors of the harness.
func Harness() func() {
	t := R.cur
	t.harn++
	return func() { t.harn-- }
}

func (r *Run) setNextPre() {
	if r.replay {
		r.nextPre = ^uint64(0)
		return
	}
	switch r.strat.Kind {
	case "fifo":
		r.nextPre = ^uint64(0)
	default:
		p := r.strat.P
		if p <= 0 {
			r.nextPre = ^uint64(0)
			return
		}
		// Geometric gap.
		gap := uint64(1)
		for gap < 100000 && !r.rng.Chance(p) {
			gap++
		}
		r.nextPre = r.steps + gap
	}
}

// Y is a yield point before a statement of instrumented code.
func Y(site int32) {
	r := R
	if r == nil {
		return
	}
	t := r.cur
	t.site = site
	r.siteSeen[site] = true
	r.yield()
}

func (r *Run) yield() {
	if r.aborted {
		park()
	}
	r.steps++
	r.slice++
	r.now += r.strat.TickNs
	if r.steps >= r.MaxSteps {
		r.StepCap = true
		r.HotTask = fmt.Sprintf("%s (tag %d) at %s", r.cur.Name, r.cur.Tag, r.siteName(r.cur))
		r.abort()
		park()
	}
	if len(r.timers) > 0 && r.timers[0].at <= r.now {
		r.fireDue()
	}
	if r.replay {
		if c, ok := r.replayP[r.steps]; ok {
			r.preempt(c)
		}
		return
	}
	switch {
	case r.slice > 20000 && r.strat.Kind != "":
		// A task that never blocks must not keep the others from running.
		r.preempt(-1)
	case r.strat.Kind == "hot":
		if r.hot(r.cur.site) && r.rng.Chance(0.5) || r.steps >= r.nextPre {
			r.preempt(-1)
			r.setNextPre()
		}
	case r.steps >= r.nextPre:
		r.preempt(-1)
		r.setNextPre()
	}
}

func (r *Run) hot(site int32) bool {
	if r.strat.HotMod == 0 {
		return false
	}
	x := (uint64(site) + 1) * 0x9E3779B97F4A7C15
	x ^= r.hotSeed
	x = (x ^ (x >> 29)) * 0xBF58476D1CE4E5B9
	return (x>>33)%r.strat.HotMod == 0
}

func (r *Run) siteName(t *Task) string {
	if int(t.site) < len(Sites) && t.site > 0 {
		return Sites[t.site]
	}
	return "?"
}

func (r *Run) ready() []*Task {
	var l []*Task
	for _, t := range r.tasks {
		if t.killed || t.asleep {
			continue
		}
		if t.pred == nil || t.pred() {
			l = append(l, t)
		}
	}
	// First in, first out, with the task id as the tie-break.
	sort.SliceStable(l, func(i, j int) bool { return l[i].since < l[j].since })
	return l
}

// pick chooses among ready tasks according to the strategy.
func (r *Run) pick(l []*Task) int {
	if len(l) == 1 {
		return 0
	}
	switch r.strat.Kind {
	case "fifo":
		return 0
	case "prio":
		best := 0
		for i, t := range l {
			if t.prio > l[best].prio {
				best = i
			}
		}
		return best
	default:
		i := r.rng.Intn(len(l))
		if l[i].prio <= 0xffff && r.rng.Chance(0.95) {
			i = r.rng.Intn(len(l))
		}
		return i
	}
}

// preempt moves control from the running task, which could go on, to another.
func (r *Run) preempt(choice int) {
	cur := r.cur
	if cur.killed {
		// A crash killed the running task: it never comes back.
		r.next(nil)
		park()
	}
	l := r.ready()
	var others []*Task
	for _, t := range l {
		if t != cur {
			others = append(others, t)
		}
	}
	r.slice = 0
	if len(others) == 0 {
		return
	}
	if choice < 0 {
		if r.strat.Kind == "prio" {
			// Priority change point: the running task sometimes drops behind.
			if r.rng.Chance(0.3) {
				cur.prio = r.rng.U64() >> 8
			}
			choice = r.pick(others)
			if others[choice].prio < cur.prio && r.rng.Chance(0.7) {
				return
			}
		} else {
			choice = r.pick(others)
		}
	}
	if choice >= len(others) {
		choice = len(others) - 1
	}
	r.recording = append(r.recording, Decision{"p", r.steps, choice})
	cur.since = r.steps
	r.switchTo(cur, others[choice])
}

// choose makes a recorded choice among n alternatives; 0 is the default.
func (r *Run) choose(n int, f func() int) int {
	if n <= 1 {
		return 0
	}
	r.picks++
	if r.replay {
		c := r.replayF[r.picks]
		if c >= n {
			c = n - 1
		}
		if c != 0 {
			r.recording = append(r.recording, Decision{"f", r.picks, c})
		}
		return c
	}
	c := f()
	if c != 0 {
		r.recording = append(r.recording, Decision{"f", r.picks, c})
	}
	return c
}

// next hands control to some ready task. from is the task giving up control,
// nil if it has ended.
func (r *Run) next(from *Task) {
	for {
		if r.aborted {
			if from != nil {
				park()
			}
			return
		}
		l := r.ready()
		if len(l) > 0 {
			c := r.choose(len(l), func() int { return r.pick(l) })
			t := l[c]
			if t == from {
				from.pred = nil
				return
			}
			r.switchTo(from, t)
			return
		}
		if len(r.timers) == 0 {
			r.Deadlock = true
			r.abort()
			if from != nil {
				park()
			}
			return
		}
		if r.timers[0].at > r.now {
			if r.OnIdle != nil {
				r.OnIdle(r.timers[0].at)
			}
			r.now = r.timers[0].at
		}
		r.fireDue()
	}
}

func (r *Run) switchTo(from, to *Task) {
	r.Switches++
	r.slice = 0
	var fs int32 = -1
	if from != nil {
		fs = from.site
	}
	pair := uint64(uint32(fs))<<32 | uint64(uint32(to.site))
	r.pairs[pair] = struct{}{}
	r.hashV = (r.hashV ^ uint64(to.ID)<<32 ^ uint64(uint32(to.site))) * 0x100000001b3
	if r.Trace != nil {
		n := 0
		if from != nil {
			n = from.ID
		}
		r.Trace(fmt.Sprintf("%d @%dns switch %d -> %d(%s) at %s", r.steps, r.now, n, to.ID, to.Name, r.siteName(to)))
	}
	to.pred = nil
	r.cur = to
	to.wake <- struct{}{}
	if from != nil {
		<-from.wake
		if r.aborted {
			park()
		}
	}
}

// block suspends the running task until pred holds. Any task may make it hold.
func (r *Run) block(what string, pred func() bool) {
	t := r.cur
	if t.killed {
		r.next(nil)
		park()
	}
	t.what = what
	t.since = r.steps
	t.pred = pred
	r.steps++
	r.next(t)
	t.pred = nil
	t.what = ""
}

// Kill makes every task of an instance vanish where it stands, as a crash does.
func (r *Run) Kill(tag int) {
	r.killedTag[tag] = true
	for _, t := range r.tasks {
		if t.Tag == tag {
			t.killed = true
		}
	}
}

// Killed says whether the instance was crashed.
func (r *Run) Killed(tag int) bool { return r.killedTag[tag] }

type spawn struct {
	tag  int
	name string
}

// Spawned is how many tasks of that name an instance has started itself.
func (r *Run) Spawned(tag int, name string) int { return r.spawned[spawn{tag, name}] }

// Live lists the tasks of an instance that still exist.
func (r *Run) Live(tag int) []*Task {
	var l []*Task
	for _, t := range r.tasks {
		if t.Tag == tag && !t.killed {
			l = append(l, t)
		}
	}
	return l
}

// Waiting says whether a task waits for something that has not happened, other
// than a lock.
func (r *Run) Waiting(t *Task) bool {
	return t.pred != nil && t.what != "mutex" && t.what != "rwmutex" && !t.pred()
}

// Describe says where a task is.
func (r *Run) Describe(t *Task) string {
	return fmt.Sprintf("task %d %q at %s, waiting for %q", t.ID, t.Name, r.siteName(t), t.what)
}

// Block lets harness code wait for a condition.
func Block(what string, pred func() bool) {
	if pred() {
		R.yield()
		return
	}
	R.block(what, pred)
}

// Yield is a yield point in harness code.
func Yield() { R.yield() }

// StallTag suspends every task of an instance for d: a paused process.
func (r *Run) StallTag(tag int, d time.Duration) {
	until := r.now + int64(d)
	if until <= r.pausedTag[tag] {
		return
	}
	r.pausedTag[tag] = until
	for _, t := range r.tasks {
		if t.Tag == tag && !t.killed {
			t.asleep = true
		}
	}
	r.Stalled += int64(d)
	r.addTimer(until, func() { r.wake(tag) }).tag = 0
}

func (r *Run) wake(tag int) {
	if r.pausedTag[tag] > r.now {
		return
	}
	delete(r.pausedTag, tag)
	for _, t := range r.tasks {
		if t.Tag == tag {
			t.asleep = false
		}
	}
}

// Paused says whether an instance is suspended.
func (r *Run) Paused(tag int) bool { return r.pausedTag[tag] > r.now }

// Resume ends a suspension.
func (r *Run) Resume(tag int) {
	delete(r.pausedTag, tag)
	r.wake(tag)
}

// TimerPending says whether tasks of the instance, working for an operation
// that sel accepts, have a timer due within d.
func (r *Run) TimerPending(tag int, d time.Duration, sel func(op int) bool) bool {
	for _, e := range r.timers {
		if e.tag == tag && e.at <= r.now+int64(d) && sel(e.op) {
			return true
		}
	}
	return false
}

// ---- time ----

type timerEnt struct {
	at  int64
	seq uint64
	f   func()
	idx int
	tag int
	op  int
}

type timerHeap []*timerEnt

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) { e := x.(*timerEnt); e.idx = len(*h); *h = append(*h, e) }
func (h *timerHeap) Pop() interface{} {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	e.idx = -1
	return e
}

func (r *Run) addTimer(at int64, f func()) *timerEnt {
	r.timerSeq++
	e := &timerEnt{at: at, seq: r.timerSeq, f: f}
	if c := r.cur; c != nil {
		e.tag, e.op = c.Tag, c.Op
	}
	heap.Push(&r.timers, e)
	return e
}

func (r *Run) delTimer(e *timerEnt) bool {
	if e == nil || e.idx < 0 {
		return false
	}
	heap.Remove(&r.timers, e.idx)
	return true
}

func (r *Run) fireDue() {
	for len(r.timers) > 0 && r.timers[0].at <= r.now {
		e := heap.Pop(&r.timers).(*timerEnt)
		e.f()
	}
}

// AfterNs runs f in scheduler context after d; f must not block.
func (r *Run) AfterNs(d time.Duration, f func()) { r.addTimer(r.now+int64(d), f).tag = 0 }
