//go:build go1.21

// Package zzdst is a deterministic simulator runtime: cooperative tasks, simulated
// time, locks, channels and a happens-before race detector, all driven by one
// seeded scheduler. The rewritten program under test calls it instead of the Go
// runtime primitives.
package zzdst

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Sites maps site numbers to file:line of the program under test.
var Sites []string

// Used keeps the import alive in rewritten files.
var Used = true

func siteName(s int) string {
	if s >= 0 && s < len(Sites) {
		return Sites[s]
	}
	if s == HarnessSite {
		return "harness"
	}
	return "?"
}

// SiteName returns file:line for a site.
func SiteName(s int) string { return siteName(s) }

// HarnessSite marks accesses and tasks of the harness itself.
const HarnessSite = -1

// Strategy names.
const (
	StratWalk  = "walk"  // random walk
	StratPCT   = "pct"   // priorities with change points
	StratDelay = "delay" // non-preemptive order plus a few long delays
)

// Override forces one scheduling decision.
type Override struct {
	Task uint64 `json:"t"`
	Step int    `json:"s"`
	Kind string `json:"k"` // P preempt-to, B block-choice, S select, H handoff, Z stall, W wall jump
	Val  uint64 `json:"v"`
}

type okey struct {
	task uint64
	step int
	kind byte
}

// Config of one run.
type Config struct {
	Seed     uint64
	Strategy string
	PMem     float64 // preemption probability at memory accesses
	PSync    float64 // preemption probability at synchronisation operations
	PStall   float64 // probability of stalling a task at a point
	StallMax time.Duration
	PWall    float64 // probability of a wall clock jump at a point
	StepCost time.Duration
	MaxSteps int
	MaxTicks int

	// Extend reports whether the run goes on although its budget of steps is exhausted.
	Extend    func(steps int) bool
	NumCPU    int
	PCTDepth  int
	PCTLen    int
	Race      bool
	Trace     bool
	Replay    bool // follow Overrides only
	Overrides []Override
}

// Failure of the simulated program as such.
type Failure struct {
	Kind   string // deadlock, crash, livelock
	Detail string
}

type state uint8

const (
	stRunnable state = iota
	stRunning
	stBlocked
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	id       int
	key      uint64
	name     string
	site     int
	lib      bool
	goexit   bool
	children uint64
	step     int
	st       state
	wake     chan struct{}
	killed   bool
	why      string
	whySite  int
	ready    uint64
	prio     uint64
	burst    int
	slot     int
	vc       []uint32
	wakeTok  any // result of a wake-up
	sleepGen uint64
	stalled  bool
	lastSite int
	joiners  []*Task
	exitVC   []uint32
}

type timerEv struct {
	at  int64
	seq uint64
	fn  func()
	off bool
	idx int
}
type timerHeap []*timerEv

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timerEv); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	n := len(o)
	t := o[n-1]
	o[n-1] = nil
	*h = o[:n-1]
	t.idx = -1
	return t
}

// Sim is one simulated execution.
type Sim struct {
	cfg        Config
	rng        Rand
	cur        *Task
	tasks      []*Task
	nextID     int
	seq        uint64
	now        int64
	wallOff    int64
	timers     timerHeap
	over       map[okey]uint64
	log        []Override
	steps      int
	ticks      int
	events     uint64
	hash       uint64
	schash     uint64
	drain      bool
	quiet      bool
	quietSteps int
	ended      bool
	killing    bool
	doneCh     chan struct{}
	Fail       *Failure
	Races      []Race
	raceSet    map[string]bool
	shadow     map[shadowKey]*cell
	slots      []*Task
	slotClk    []uint32
	pctPts     map[int]bool
	pctLow     uint64
	live       int
	libLive    int

	// Counters
	Switches, Preempts, Stalls, WallJumps, TimersFired, Spawned, ChanOps, LockOps, MemOps, SelectChoices, Contended int
	mapRanges                                                                                                       int
	addrs                                                                                                           map[uintptr]uint64
	keep                                                                                                            []any
	StepBudget                                                                                                      bool
	StallTime                                                                                                       int64
	TraceLog                                                                                                        []string
	FirstSpawn                                                                                                      map[int]int
}

// S is the current simulation, nil outside runs.
var S *Sim

// Rand is a splitmix64 generator.
type Rand struct{ s uint64 }

// NewRand seeds a generator.
func NewRand(seed uint64) Rand { return Rand{seed*0x9E3779B97F4A7C15 + 0x1234567} }

// Uint64 draws 64 bits.
func (r *Rand) Uint64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn draws in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Float draws in [0,1).
func (r *Rand) Float() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// Chance is true with probability p.
func (r *Rand) Chance(p float64) bool { return p > 0 && r.Float() < p }

func mix(a, b uint64) uint64 {
	z := a ^ (b+0x9E3779B97F4A7C15)*0xBF58476D1CE4E5B9
	z = (z ^ (z >> 29)) * 0x94D049BB133111EB
	return z ^ (z >> 32)
}

// Run executes main as the first task and returns when it returns, when nothing
// can progress any more, or when a budget is exhausted.
func Run(cfg Config, main func()) *Sim {
	if cfg.StepCost == 0 {
		cfg.StepCost = 20 * time.Microsecond
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 400000
	}
	if cfg.MaxTicks == 0 {
		cfg.MaxTicks = 400000000
	}
	if cfg.NumCPU == 0 {
		cfg.NumCPU = 2
	}
	s := &Sim{cfg: cfg, rng: NewRand(cfg.Seed ^ 0xD1B54A32D192ED03), over: map[okey]uint64{}, raceSet: map[string]bool{},
		shadow: map[shadowKey]*cell{}, addrs: map[uintptr]uint64{}, doneCh: make(chan struct{}), FirstSpawn: map[int]int{}}
	for _, o := range cfg.Overrides {
		s.over[okey{o.Task, o.Step, o.Kind[0]}] = o.Val
	}
	if cfg.Strategy == StratPCT && !cfg.Replay {
		s.pctPts = map[int]bool{}
		n := cfg.PCTLen
		if n == 0 {
			n = 2000
		}
		for i := 0; i < cfg.PCTDepth; i++ {
			s.pctPts[1+s.rng.Intn(n)] = true
		}
		s.pctLow = 1 << 20
	}
	S = s
	t := s.newTask("main", 0x5EED, HarnessSite, main)
	s.cur = t
	t.st = stRunning
	t.wake <- struct{}{}
	<-s.doneCh
	s.killAll()
	S = nil
	return s
}

// newTask creates a runnable task.
func (s *Sim) newTask(name string, key uint64, site int, fn func()) *Task {
	s.nextID++
	t := &Task{id: s.nextID, key: key, name: name, site: site, lib: site >= 0, wake: make(chan struct{}, 1), st: stRunnable}
	s.seq++
	t.ready = s.seq
	s.assignSlot(t)
	if s.cfg.Strategy == StratPCT && !s.cfg.Replay {
		t.prio = 1<<40 + s.rng.Uint64()>>30
	}
	s.tasks = append(s.tasks, t)
	s.live++
	if t.lib {
		s.libLive++
	}
	s.Spawned++
	go s.taskMain(t, fn)
	return t
}

func (s *Sim) taskMain(t *Task, fn func()) {
	<-t.wake
	returned := false
	defer func() {
		rec := recover()
		if s.killing {
			t.st = stDone
			s.doneCh <- struct{}{}
			return
		}
		if rec != nil && !s.ended {
			s.fail("crash", fmt.Sprintf("uncaught panic in %s: %v\n%s", t.name, rec, trimStack(debug.Stack())))
		} else if !returned && !t.goexit && !t.killed && !s.ended {
			s.fail("crash", fmt.Sprintf("uncaught panic(nil) in %s", t.name))
		}
		s.exit(t)
	}()
	if t.killed {
		returned = true
		return
	}
	fn()
	returned = true
}

// Goexit ends the current routine.
func Goexit() {
	S.cur.goexit = true
	runtime.Goexit()
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/zzdst/") || strings.Contains(l, "runtime/") || strings.HasPrefix(l, "goroutine ") || strings.Contains(l, "zzdst.") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime") {
			continue
		}
		l = strings.TrimSpace(l)
		if i := strings.Index(l, " +0x"); i > 0 {
			l = l[:i]
		}
		if i := strings.IndexByte(l, '('); i > 0 && !strings.Contains(l, ".go:") {
			l = l[:i]
		}
		if l != "" {
			out = append(out, l)
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// exit ends the current task and hands control over.
func (s *Sim) exit(t *Task) {
	t.st = stDone
	s.live--
	if t.lib {
		s.libLive--
	}
	s.release(t)
	t.exitVC = t.vc
	for _, j := range t.joiners {
		j.acquire(t.exitVC)
		s.ready(j)
	}
	s.freeSlot(t)
	for i, x := range s.tasks {
		if x == t {
			s.tasks = append(s.tasks[:i], s.tasks[i+1:]...)
			break
		}
	}
	if s.ended || t.id == 1 {
		s.finish()
		return
	}
	n := s.pick(t)
	if n == nil {
		s.finish()
		return
	}
	s.dispatch(n)
}

func (s *Sim) finish() {
	s.ended = true
	s.doneCh <- struct{}{}
}

// killAll unwinds the tasks left at the end of a run.
func (s *Sim) killAll() {
	s.killing = true
	for _, t := range append([]*Task(nil), s.tasks...) {
		if t.st == stDone {
			continue
		}
		t.killed = true
		s.cur = t
		t.wake <- struct{}{}
		<-s.doneCh
	}
}

func (s *Sim) dispatch(n *Task) {
	s.cur = n
	n.st = stRunning
	n.burst = 0
	s.Switches++
	s.schash = mix(s.schash, mix(n.key, uint64(n.step)))
	if s.cfg.Trace {
		s.trace("run %s", n.name)
	}
	n.wake <- struct{}{}
}

// yieldTo hands control from t to n and waits for control to come back.
func (s *Sim) yieldTo(t, n *Task) {
	if n == t {
		t.st = stRunning
		return
	}
	s.dispatch(n)
	<-t.wake
	s.afterWake(t)
}

func (s *Sim) afterWake(t *Task) {
	if t.killed {
		runtime.Goexit()
	}
}

// fail ends the run with a failure.
func (s *Sim) fail(kind, detail string) {
	if s.Fail == nil {
		s.Fail = &Failure{kind, detail}
	}
	s.ended = true
}

func (s *Sim) runnable() []*Task {
	var l []*Task
	for _, t := range s.tasks {
		if t.st == stRunnable {
			l = append(l, t)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ready < l[j].ready })
	return l
}

func (s *Sim) ready(t *Task) {
	if t.st == stBlocked {
		t.st = stRunnable
		s.seq++
		t.ready = s.seq
	}
}

// pick chooses the next task once from cannot continue; nil when the run is over.
func (s *Sim) pick(from *Task) *Task {
	for {
		if s.ended {
			return nil
		}
		l := s.runnable()
		if len(l) == 0 {
			if !s.advance() {
				if s.Fail == nil {
					s.fail("deadlock", "every task is blocked and no timer is pending:\n"+s.Dump())
				}
				return nil
			}
			continue
		}
		return s.choose(from, l)
	}
}

func (s *Sim) choose(from *Task, l []*Task) *Task {
	if v, ok := s.over[okey{from.key, from.step, 'B'}]; ok {
		for _, t := range l {
			if t.key == v {
				return t
			}
		}
	}
	if len(l) == 1 || s.cfg.Replay || s.drain {
		return l[0]
	}
	var n *Task
	switch s.cfg.Strategy {
	case StratPCT:
		n = l[0]
		for _, t := range l {
			if t.prio > n.prio {
				n = t
			}
		}
	case StratDelay:
		n = l[0]
	default:
		n = l[s.rng.Intn(len(l))]
	}
	if n != l[0] {
		s.log = append(s.log, Override{from.key, from.step, "B", n.key})
	}
	return n
}

// advance jumps to the next timer; false when there is none.
func (s *Sim) advance() bool {
	if len(s.timers) == 0 {
		return false
	}
	at := s.timers[0].at
	if at > s.now {
		s.now = at
	}
	s.fire()
	return true
}

func (s *Sim) fire() {
	for len(s.timers) > 0 && s.timers[0].at <= s.now {
		e := heap.Pop(&s.timers).(*timerEv)
		if !e.off {
			s.TimersFired++
			e.fn()
		}
	}
}

func (s *Sim) addTimer(d time.Duration, fn func()) *timerEv {
	if d < 0 {
		d = 0
	}
	s.seq++
	e := &timerEv{at: s.now + int64(d), seq: s.seq, fn: fn}
	if e.at < s.now { // overflow
		e.at = 1<<63 - 1
	}
	heap.Push(&s.timers, e)
	return e
}

func (s *Sim) delTimer(e *timerEv) bool {
	if e == nil || e.off || e.idx < 0 {
		return false
	}
	e.off = true
	heap.Remove(&s.timers, e.idx)
	return true
}

const (
	pMem = iota
	pSync
)

// point is a scheduling point of the current task.
func (s *Sim) point(kind, site int) {
	t := s.cur
	if t.killed || s.killing {
		runtime.Goexit()
	}
	if s.ended {
		runtime.Goexit()
	}
	if s.quiet {
		if s.quietSteps++; s.quietSteps > 400000000 {
			s.fail("livelock", "an evaluation outside of the schedule never ends:\n"+s.Dump())
			runtime.Goexit()
		}
		return
	}
	s.steps++
	t.step++
	t.burst++
	t.lastSite = site
	s.now += int64(s.cfg.StepCost)
	if len(s.timers) > 0 && s.timers[0].at <= s.now {
		s.fire()
	}
	if s.steps > s.cfg.MaxSteps && (s.cfg.Extend == nil || !s.cfg.Extend(s.steps)) {
		s.StepBudget = true
		s.fail("livelock", fmt.Sprintf("step budget of %d exhausted:\n%s", s.cfg.MaxSteps, s.Dump()))
		runtime.Goexit()
	}
	// faults
	if !s.drain {
		if d, ok := s.stallDecision(t); ok {
			s.Stalls++
			s.StallTime += int64(d)
			s.sleepTask(t, d, "stalled", site)
			return
		}
		s.wallDecision(t)
	}
	// preemption
	if v, ok := s.over[okey{t.key, t.step, 'P'}]; ok {
		for _, n := range s.tasks {
			if n.key == v && n.st == stRunnable {
				s.preemptTo(t, n)
				return
			}
		}
	}
	limit := 3000
	if s.drain {
		limit = 60
	}
	if t.burst > limit { // fairness quantum, in every mode
		t.burst = 0
		if l := s.runnable(); len(l) > 0 {
			if s.cfg.Strategy == StratPCT && !s.cfg.Replay {
				s.pctLow--
				t.prio = s.pctLow
			}
			s.preemptTo(t, l[0])
		}
		return
	}
	if s.cfg.Replay || s.drain {
		return
	}
	switch s.cfg.Strategy {
	case StratPCT:
		if s.pctPts[s.steps] {
			s.pctLow--
			t.prio = s.pctLow
		}
		if kind == pMem && s.steps&7 != 0 && !s.pctPts[s.steps] {
			return
		}
		var best *Task
		for _, n := range s.tasks {
			if n.st == stRunnable && n.prio > t.prio && (best == nil || n.prio > best.prio) {
				best = n
			}
		}
		if best != nil {
			s.log = append(s.log, Override{t.key, t.step, "P", best.key})
			s.preemptTo(t, best)
		}
	case StratDelay:
	default:
		p := s.cfg.PSync
		if kind == pMem {
			p = s.cfg.PMem
		}
		if p > 0 && s.rng.Float() < p {
			l := s.runnable()
			if len(l) > 0 {
				n := l[s.rng.Intn(len(l))]
				s.log = append(s.log, Override{t.key, t.step, "P", n.key})
				s.preemptTo(t, n)
			}
		}
	}
}

func (s *Sim) stallDecision(t *Task) (time.Duration, bool) {
	if len(s.over) > 0 {
		if v, ok := s.over[okey{t.key, t.step, 'Z'}]; ok {
			return time.Duration(v), true
		}
	}
	if s.cfg.Replay || s.cfg.PStall <= 0 || t.id == 1 {
		return 0, false
	}
	if s.rng.Float() < s.cfg.PStall {
		m := s.cfg.StallMax
		if m == 0 {
			m = 300 * time.Millisecond
		}
		d := time.Duration(s.rng.Uint64() % uint64(m))
		if s.rng.Intn(2) == 0 {
			d /= 50
		}
		s.log = append(s.log, Override{t.key, t.step, "Z", uint64(d)})
		return d, true
	}
	return 0, false
}

func (s *Sim) wallDecision(t *Task) {
	if len(s.over) > 0 {
		if v, ok := s.over[okey{t.key, t.step, 'W'}]; ok {
			s.wallOff += int64(v)
			s.WallJumps++
			return
		}
	}
	if s.cfg.Replay || s.cfg.PWall <= 0 {
		return
	}
	if s.rng.Float() < s.cfg.PWall {
		d := int64(s.rng.Uint64()%uint64(7200*time.Second)) - int64(3600*time.Second)
		s.log = append(s.log, Override{t.key, t.step, "W", uint64(d)})
		s.wallOff += d
		s.WallJumps++
	}
}

func (s *Sim) preemptTo(t, n *Task) {
	s.Preempts++
	t.st = stRunnable
	s.seq++
	t.ready = s.seq
	s.yieldTo(t, n)
}

// block parks the current task until ready() is called on it.
func (s *Sim) block(why string, site int) {
	t := s.cur
	t.st = stBlocked
	t.why, t.whySite = why, site
	s.Contended++
	n := s.pick(t)
	if n == nil {
		// the run is over: unwind this task
		if t.killed || s.killing {
			runtime.Goexit()
		}
		runtime.Goexit()
	}
	if n == t {
		t.st = stRunning
	} else {
		s.dispatch(n)
		<-t.wake
		s.afterWake(t)
	}
	t.why = ""
}

// sleepTask blocks the current task for d of simulated time.
func (s *Sim) sleepTask(t *Task, d time.Duration, why string, site int) {
	s.addTimer(d, func() { s.ready(t) })
	s.block(why, site)
}

// Tick is called at every loop iteration of the program under test.
func Tick(site int) {
	s := S
	if s == nil {
		return
	}
	if s.killing || (s.cur != nil && s.cur.killed) {
		runtime.Goexit()
	}
	s.ticks++
	if s.ticks > s.cfg.MaxTicks && !s.ended {
		s.fail("livelock", fmt.Sprintf("loop at %s in %s does not end (%d iterations in the run)", siteName(site), s.cur.name, s.cfg.MaxTicks))
	}
	if s.ended {
		runtime.Goexit()
	}
}

// active reports whether a simulation is running; rewritten code executed outside
// a run (package initialisation) falls back to trivial behaviour.
func active() *Sim {
	s := S
	if s == nil {
		return nil
	}
	if s.killing || s.cur.killed {
		runtime.Goexit()
	}
	return s
}

// Go starts a task of the program under test.
func Go(fn func(), site int) {
	s := active()
	if s == nil {
		return // a package's initialisation, which every run repeats
	}
	t := s.cur
	t.children++
	n := s.newTask(fmt.Sprintf("go@%s#%d", siteName(site), t.children), mix(t.key, t.children*2+1), site, fn)
	if t.lib || true {
		s.FirstSpawn[site]++
	}
	n.acquire(t.vc)
	s.release(t)
	s.point(pSync, site)
}

// Spawn starts a harness task with a stable identity.
func Spawn(name string, fn func()) *Task {
	s := active()
	h := uint64(1469598103934665603)
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	n := s.newTask(name, mix(h, 7), HarnessSite, fn)
	n.acquire(s.cur.vc)
	s.release(s.cur)
	return n
}

// Join waits for a task to end.
func Join(n *Task) {
	s := active()
	if n.st != stDone {
		n.joiners = append(n.joiners, s.cur)
		s.block("join "+n.name, HarnessSite)
		return
	}
	s.cur.acquire(n.exitVC)
}

// Done reports whether the task ended.
func (t *Task) Done() bool { return t.st == stDone }

// Name of the task.
func (t *Task) Name() string { return t.name }

// Blocked describes what the task waits for.
func (t *Task) Blocked() string {
	switch t.st {
	case stDone:
		return "done"
	case stBlocked:
		return t.why + " at " + siteName(t.whySite)
	}
	return "runnable, last at " + siteName(t.lastSite)
}

// Yield is a harness scheduling point.
func Yield() { active().point(pSync, HarnessSite) }

// Sleep blocks the current task for simulated time.
func Sleep(d time.Duration, site int) {
	s := active()
	if s == nil {
		return
	}
	s.point(pSync, site)
	if d <= 0 {
		return
	}
	s.sleepTask(s.cur, d, "sleep", site)
}

// Now is the simulated monotonic time since the start of the run.
func Now() int64 {
	if S == nil {
		return 0
	}
	return S.now
}

// WallUnix is the simulated wall clock in seconds.
func WallUnix() int64 { return (wallBase + S.now + S.wallOff) / 1e9 }

// WallOffset is the accumulated wall clock jump.
func WallOffset() int64 {
	if S == nil {
		return 0
	}
	return S.wallOff
}

// NumCPU configured for the run.
func NumCPU() int {
	if S == nil {
		return 2
	}
	return S.cfg.NumCPU
}

// Seq returns a fresh global event number; it also feeds the event hash.
func Seq(label uint64) uint64 {
	s := S
	s.events++
	s.hash = mix(s.hash, mix(label, s.events))
	return s.events
}

// HashEvent folds a value in the event-log hash.
func HashEvent(v uint64) { S.hash = mix(S.hash, v) }

// StartDrain switches every fault off and schedules fairly from now on.
func StartDrain() { S.drain = true }

// StopDrain resumes seeded scheduling.
func StopDrain() { S.drain = false }

// Quiet runs fn without scheduling points.
func Quiet(fn func()) {
	s := S
	if s == nil || s.quiet {
		fn()
		return
	}
	s.quiet = true
	defer func() { s.quiet = false }()
	fn()
}

// LibTasks counts the live tasks started by the program under test.
func LibTasks() int { return S.libLive }

// LibTaskNames describes them.
func LibTaskNames() []string {
	var out []string
	for _, t := range S.tasks {
		if t.lib && t.st != stDone {
			out = append(out, t.name+": "+t.Blocked())
		}
	}
	return out
}

// PendingTimers counts pending timers.
func PendingTimers() int { return len(S.timers) }

// CurTask returns the current task.
func CurTask() *Task { return S.cur }

// Sleeping tells whether the program under test put the task to sleep.
func (t *Task) Sleeping() bool {
	return t.st == stBlocked && t.whySite >= 0 && !t.stalled && strings.HasPrefix(t.why, "sleep")
}

// CurName names the current task.
func CurName() string {
	if S == nil {
		return "end"
	}
	return S.cur.name
}

// Steps executed so far.
func (s *Sim) Steps() int { return s.steps }

// StepsNow returns the steps of the current run.
func StepsNow() int { return S.steps }

// NowD returns simulated time at the end of the run.
func (s *Sim) NowD() time.Duration { return time.Duration(s.now) }

// Hash of the event log.
func (s *Sim) Hash() uint64 { return s.hash }

// ScheduleHash identifies the interleaving.
func (s *Sim) ScheduleHash() uint64 { return s.schash }

// Log returns the non-default decisions taken.
func (s *Sim) Log() []Override { return s.log }

// Busy is the simulated time spent in steps and injected stalls so far.
func Busy() int64 { return int64(S.steps)*int64(S.cfg.StepCost) + S.StallTime }

// Ended reports whether the run was cut.
func Ended() bool { return S == nil || S.ended }

// Dump describes every live task.
func (s *Sim) Dump() string {
	var b strings.Builder
	for _, t := range s.tasks {
		if t.st == stDone {
			continue
		}
		fmt.Fprintf(&b, "  %s: %s\n", t.name, t.Blocked())
	}
	return b.String()
}

// DumpNow describes every live task of the current run.
func DumpNow() string { return S.Dump() }

func (s *Sim) trace(f string, a ...any) {
	s.TraceLog = append(s.TraceLog, fmt.Sprintf("%6d %12v %-24s ", s.steps, time.Duration(s.now), s.cur.name)+fmt.Sprintf(f, a...))
}

// Trace adds a line to the trace.
func Trace(f string, a ...any) {
	if S != nil && S.cfg.Trace {
		S.trace(f, a...)
	}
}

// Tracing reports whether the run is traced.
func Tracing() bool { return S != nil && S.cfg.Trace }

var resetFns []func()

// OnReset registers the functions that initialise a package again.
func OnReset(fns ...func()) { resetFns = append(resetFns, fns...) }

// ResetAll initialises every package of the program under test again.
func ResetAll() {
	for _, f := range resetFns {
		f()
	}
}

// Seed of the current run.
func Seed() uint64 {
	if S == nil {
		return 0
	}
	return S.cfg.Seed
}
