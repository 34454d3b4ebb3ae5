//go:build go1.21

// Package main is the workload, fault injection and oracle side of the simulation.
package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/zzdst"
)

// Violation of the property under check.
type Violation struct {
	Kind   string
	Detail string
}

// Event kinds.
const (
	EvCall = iota
	EvRet
	EvInitB
	EvInitE
	EvIterB
	EvIterE
	EvPushE
	EvNotifB
	EvNotifE
	EvFin     // the configured finishing condition answered true
	EvWaitFin // the finishing condition of a Wait call answered true
	EvEnd
)

var evNames = []string{"call", "ret", "init begins", "init ends", "iteration begins", "iteration ends", "element reached the implementation", "notifier called", "notifier returns", "finishing condition holds", "wait condition holds", "end"}

// Ev is one event of the recorded history.
type Ev struct {
	Seq   uint64
	T, U  int64
	K     int
	Inst  *Inst
	Op    *Call
	Err   string
	Nil   bool
	ID    int32
	FigX  int32
	St    core.ClustStatus
	Ended bool
	Waits []*Call // Wait calls asleep by then: they have found something to wait for
}

// Call is one recorded invocation of the public interface.
type Call struct {
	N, Client     int
	Kind          string
	D             time.Duration
	Inst          *Inst
	CallSeq       uint64
	RetSeq        uint64
	CallT, RetT   int64
	CallU, RetU   int64
	CallEv, RetEv int
	Done          bool
	Err           string
	St            core.ClustStatus
	Iter, Pushed  int
	FigX          int32
	Figs          map[string]float64
	IDs           []int32
	Dur           float64
	LastData      float64
	ID            int32
	Fin           core.Finishing
	slot          int
	task          *zzdst.Task
	Elt           core.Elemt
	WallRet       int64
	AtT, WallAt   int64
	UnixAt        int64
	UnixRet       int64
	pushOK        bool
	id            int32
	held          bool // delayed by the user
	pushAt        uint64
}

func (c *Call) String() string {
	s := fmt.Sprintf("c%d.%s", c.Client, c.Kind)
	if c.D != 0 {
		s += fmt.Sprintf("(%v)", c.D)
	}
	if c.Done {
		switch c.Kind {
		case "status":
			s += fmt.Sprintf(" = %v %s", c.St, c.Err)
		case "figures":
			s += fmt.Sprintf(" = iterations %d pushed %d", c.Iter, c.Pushed)
		case "centroids", "predict":
			s += fmt.Sprintf(" = result #%d", c.ID)
		default:
			if c.Err == "" {
				s += " = nil"
			} else {
				s += " = " + c.Err
			}
		}
	}
	return s
}

// Inst is one simulated instance.
type Inst struct {
	w        *World
	name     string
	impl     string // algorithm
	algo     core.OnlineClust
	ctrl     *core.CtrlConf
	wrap     *wrap
	evs      []Ev
	sets     map[int32]core.Clust // published results by number
	vals     map[string]int32
	kept     []kept
	inImpl   int
	inNotify int
	iterB    int
	iters    int // iterations with a result
	inits    int
	idleRun  int // iterations without result since the last one with a result
	notifs   int
	lastNot  core.ClustStatus // last status notified
	pushes   []*Call
	fin      *finPred
	busyB    int64
	noAuto   bool
	lastIter int64
	notDur   time.Duration
	reent    int

	// real algorithms
	conf       core.Conf
	space      core.Space
	frame      int
	available0 int
	born       []uint32 // clock of the creation of a copy
	initial    ids
	initData   ids
	opened     uint64
	sets2      []dataset
	lastAcc    float64
	mk         func() core.Elemt
	parent     *Inst
	copy       *Call
}

// World is one simulated run.
type World struct {
	spec    *Spec
	viol    *Violation
	insts   []*Inst
	calls   []*Call
	cur     map[string]*Call
	waits   []*Call // Wait calls under way that were not seen asleep
	byElt   map[any]*Call
	nextID  int32
	implU   int64
	flag    bool
	probes  map[string]int
	foreign map[string]int
	faults  map[string]int
	log     []string
	incon   string
	maxW    int64
	left    int
	hold    int
	nheld   map[string]int // evaluations of routines of the user by kind
	working int            // implementations and spaces at work

	running  map[string]*Inst // instance executing its initializer
	copying  bool
	lastStep int // step of the last event that is not of the harness itself
}

var errInjected = errors.New("inj")

func (w *World) violate(kind, f string, a ...any) {
	if !inScope(w.spec.Prop, kind) {
		w.foreign[kind]++
		return
	}
	if w.viol == nil {
		zzdst.Quiet(func() { w.viol = &Violation{kind, fmt.Sprintf(f, a...)} })
		w.logf("VIOLATION %s: %s", kind, w.viol.Detail)
	}
}

func (w *World) probe(p string) { w.probes[p]++ }

func (w *World) logf(f string, a ...any) {
	if zzdst.Tracing() || w.spec.verbose {
		zzdst.Quiet(func() {
			w.log = append(w.log, fmt.Sprintf("%12v %-10s ", time.Duration(zzdst.Now()), zzdst.CurName())+fmt.Sprintf(f, a...))
		})
	}
}

// busy is the simulated time that no property can forbid: steps, stalls and time
// spent in the implementation or in user callbacks.
func (w *World) busy() int64 { return zzdst.Busy() + w.implU }

// work spends simulated time in an implementation or callback.
func (w *World) work(yields int, d time.Duration) {
	for i := 0; i < yields; i++ {
		zzdst.Yield()
	}
	if d > 0 {
		w.implU += int64(d)
		w.working++
		zzdst.Sleep(d, zzdst.HarnessSite)
		w.working--
	}
}

var coreErrs = map[error]string{
	core.ErrNotRunning: "E.notRunning", core.ErrRunning: "E.running", core.ErrInitializing: "E.initializing",
	core.ErrSleeping: "E.sleeping", core.ErrAlreadyCreated: "E.alreadyCreated", core.ErrNotIdle: "E.notIdle",
	core.ErrIdle: "E.idle", core.ErrTimeout: "E.timeout", core.ErrNeverFinish: "E.neverFinish",
	core.ErrFinished: "E.finished", core.ErrNotAlive: "E.notAlive", core.ErrElapsedIter: "E.elapsedIter",
	core.ErrNotIterate: "E.notIterate",
}

// canon names an error: library errors by identity, injected ones by their mark.
func canon(err error) string {
	if err == nil {
		return ""
	}
	for e, n := range coreErrs {
		if err == e {
			return n
		}
	}
	m := err.Error()
	if i := strings.Index(m, "inj#"); i >= 0 {
		j := i + 4
		for j < len(m) && m[j] >= '0' && m[j] <= '9' {
			j++
		}
		if returned[m[i:j]] && !recognized(err) {
			return "X:" + m
		}
		return m[i:j]
	}
	for e, n := range coreErrs {
		if errors.Is(err, e) {
			return n
		}
	}
	return "X:" + m
}

func (in *Inst) ev(e Ev) *Ev {
	w := in.w
	e.Inst = in
	e.Seq = zzdst.Seq(uint64(e.K)<<32 ^ uint64(uint32(e.ID))<<8 ^ uint64(e.St))
	e.T = zzdst.Now()
	e.U = w.busy()
	if (e.Op == nil || e.Op.Client < 70) && !zzdst.Ended() {
		w.lastStep = zzdst.StepsNow()
	}
	for i := 0; i < len(w.waits); i++ {
		if c := w.waits[i]; c.Done || c.task.Sleeping() {
			if !c.Done && c.Inst == in {
				e.Waits = append(e.Waits, c)
			} else if !c.Done {
				continue
			}
			w.waits = append(w.waits[:i], w.waits[i+1:]...)
			i--
		}
	}
	in.evs = append(in.evs, e)
	if w.spec.verbose {
		zzdst.Quiet(func() {
			s := evNames[e.K]
			if e.Op != nil {
				s += " " + e.Op.String()
			}
			if e.K == EvNotifB || e.K == EvNotifE {
				s += " " + e.St.String()
			}
			if e.ID != 0 {
				s += fmt.Sprintf(" #%d", e.ID)
			}
			if e.Err != "" && e.K != EvRet {
				s += " " + e.Err
			}
			if e.Nil {
				s += " (no result)"
			}
			w.logf("%s %s", in.name, s)
		})
	}
	return &in.evs[len(in.evs)-1]
}

// begin records the invocation of an operation by the current task.
func (in *Inst) begin(kind string, client int, d time.Duration) *Call {
	w := in.w
	zzdst.After(in.born)
	c := &Call{N: len(w.calls), Client: client, Kind: kind, D: d, Inst: in}
	w.calls = append(w.calls, c)
	w.cur[zzdst.CurName()] = c
	c.CallT, c.CallU = zzdst.Now(), w.busy()
	e := in.ev(Ev{K: EvCall, Op: c})
	c.CallSeq, c.CallEv = e.Seq, len(in.evs)-1
	return c
}

func (in *Inst) end(c *Call) {
	w := in.w
	c.Done = true
	c.RetT, c.RetU = zzdst.Now(), w.busy()
	c.WallRet = zzdst.WallOffset() + zzdst.Now()
	c.UnixRet = zzdst.WallUnix()
	h := uint64(14695981039346656037)
	for i := 0; i < len(c.Err); i++ {
		h = (h ^ uint64(c.Err[i])) * 1099511628211
	}
	zzdst.HashEvent(h ^ uint64(c.Iter)<<20 ^ uint64(c.Pushed)<<8 ^ uint64(c.St))
	e := in.ev(Ev{K: EvRet, Op: c, ID: c.ID})
	c.RetSeq, c.RetEv = e.Seq, len(in.evs)-1
	if w.cur[zzdst.CurName()] == c {
		delete(w.cur, zzdst.CurName())
	}
}

// ---- public operations, recorded ----

func (in *Inst) Init(cl int) string {
	c := in.begin("init", cl, 0)
	c.Err = canon(in.algo.Init())
	in.end(c)
	return c.Err
}

func (in *Inst) Play(cl int) string {
	c := in.begin("play", cl, 0)
	c.Err = canon(in.algo.Play())
	in.end(c)
	return c.Err
}

func (in *Inst) Pause(cl int) *Call {
	c := in.begin("pause", cl, 0)
	c.Err = canon(in.algo.Pause())
	in.end(c)
	return c
}

func (in *Inst) Stop(cl int) *Call {
	c := in.begin("stop", cl, 0)
	c.Err = canon(in.algo.Stop())
	in.end(c)
	return c
}

func (in *Inst) Batch(cl int) *Call {
	c := in.begin("batch", cl, 0)
	c.Err = canon(in.algo.Batch())
	in.end(c)
	return c
}

func (in *Inst) Wait(cl int, fin core.Finishing, d time.Duration) *Call {
	c := in.begin("wait", cl, d)
	c.Fin = fin
	if p, ok := fin.(*finPred); ok {
		p.call = c
	}
	c.task = zzdst.CurTask()
	in.w.waits = append(in.w.waits, c)
	c.Err = canon(in.algo.Wait(fin, d))
	in.end(c)
	if d > 0 {
		in.checkWait(c)
	}
	return c
}

// checkWait bounds the time a Wait with a maximal duration takes.
func (in *Inst) checkWait(c *Call) {
	const period = int64(100 * time.Millisecond)
	slack := c.RetU - c.CallU + in.w.maxW + int64(2*time.Millisecond)
	if c.Err == "E.timeout" && c.RetT-c.CallT < int64(c.D) && !in.couldTimeout(c) {
		in.w.violate("wait-early", "%v returned the time-out error after %v", c, time.Duration(c.RetT-c.CallT))
	}
	if c.RetT-c.CallT > int64(c.D)+period+slack {
		in.w.violate("wait-late", "%v returned after %v", c, time.Duration(c.RetT-c.CallT))
	}
}

// couldTimeout tells whether the instance itself may have timed out before c returned.
func (in *Inst) couldTimeout(c *Call) bool { return in.ctrl.Timeout > 0 }

func (in *Inst) Status(cl int) core.OCStatus {
	c := in.begin("status", cl, 0)
	st := in.algo.Status()
	c.St, c.Err = st.Value, canon(st.Error)
	in.end(c)
	return st
}

func (in *Inst) Figures(cl int) *Call {
	c := in.begin("figures", cl, 0)
	f := in.algo.RuntimeFigures()
	c.Iter, c.Pushed = int(f[core.Iterations]), int(f[core.PushedData])
	if in.wrap.inner == nil {
		c.FigX = int32(f["x"])
	} else {
		c.FigX = figHash(f)
		c.Figs = map[string]float64{}
		for k, v := range f {
			c.Figs[string(k)] = v
		}
	}
	c.Dur, c.LastData = f[core.Duration], f[core.LastDataTime]
	if f["foreign"] != 0 {
		in.w.violate("figures", "the figures contain a value written by another reader")
	}
	if f != nil { // the snapshot belongs to the reader
		for k := range f {
			f[k] = -7
		}
		f["foreign"] = 1
	}
	in.end(c)
	return c
}

func (in *Inst) Centroids(cl int) core.Clust {
	c := in.begin("centroids", cl, 0)
	r := in.algo.Centroids()
	c.ID = in.idOf(r)
	if in.wrap.inner != nil {
		in.keep(r)
	}
	in.end(c)
	return r
}

func (in *Inst) Push(cl int, e core.Elemt) *Call {
	c := in.begin("push", cl, 0)
	c.Elt = e
	if l, ok := e.(ids); ok {
		c.id = l[0]
	}
	in.w.byElt[eltKey(e)] = c
	in.pushes = append(in.pushes, c)
	c.Err = canon(in.algo.Push(e))
	in.end(c)
	return c
}

// ---- mock element space ----

// cent is a centroid published by the mock implementation: result id, label j.
type cent struct {
	id int32
	j  int
	n  int
	x  float64
}

// pt is an element pushed or predicted.
type pt struct {
	n int
	x float64
}

type mockSpace struct{ w *World }

func (s mockSpace) Dist(a, b core.Elemt) float64 {
	zzdst.Yield()
	s.w.holdPredict()
	return math.Abs(coordOf(a) - coordOf(b))
}

func coordOf(a core.Elemt) float64 {
	switch v := a.(type) {
	case *cent:
		return v.x
	case *pt:
		return v.x
	}
	return 0
}
func (s mockSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt { return a }
func (s mockSpace) Copy(e core.Elemt) core.Elemt                                  { return e }
func (s mockSpace) Dim([]core.Elemt) int                                          { return 1 }

// newSet makes a uniquely numbered centroid set.
func (in *Inst) newSet() (core.Clust, int32) {
	in.w.nextID++
	id := in.w.nextID
	n := 1 + int(id)%3
	c := make(core.Clust, n)
	for j := range c {
		c[j] = &cent{id: id, j: j, n: n, x: math.Mod(float64(id)*0.37+float64(j)*1.7, 5)}
	}
	in.sets[id] = append(core.Clust(nil), c...)
	return c, id
}

// idOf identifies a centroid set read by a client; 0 when nothing is published.
func (in *Inst) idOf(c core.Clust) int32 {
	if in.wrap.inner != nil {
		return in.wrap.identify(c)
	}
	if len(c) == 0 {
		return 0
	}
	f, ok := c[0].(*cent)
	if !ok {
		in.w.violate("torn-centroids", "unknown centroids %v", c)
		return -1
	}
	if len(c) != f.n {
		in.w.violate("torn-centroids", "result #%d was read with %d centroids instead of %d", f.id, len(c), f.n)
	}
	for j, e := range c {
		if g, ok := e.(*cent); !ok || g.id != f.id || g.j != j {
			in.w.violate("torn-centroids", "centroids of results #%d and %+v are mixed", f.id, e)
		}
	}
	return f.id
}

// Predict and check the answer against one published set.
func (in *Inst) Predict(cl int, x float64) {
	c := in.begin("predict", cl, 0)
	p := &pt{x: x}
	e, label, d := in.algo.Predict(p)
	if e == nil {
		if label != -1 {
			in.w.violate("predict", "no centroid but label %d", label)
		}
		in.end(c)
		return
	}
	f, ok := e.(*cent)
	if !ok {
		in.w.violate("predict", "unknown centroid %v", e)
		in.end(c)
		return
	}
	c.ID = f.id
	set := in.sets[f.id]
	if label != f.j || label >= len(set) {
		in.w.violate("predict", "label %d does not belong to the returned centroid (%d) of result #%d", label, f.j, f.id)
	}
	if d != math.Abs(x-f.x) {
		in.w.violate("predict", "distance %v does not belong to the returned centroid", d)
	}
	for _, o := range set {
		if math.Abs(x-coordOf(o)) < d {
			in.w.violate("predict", "centroid %d of result #%d is not the nearest one", label, f.id)
		}
	}
	in.end(c)
}

// finPred is a finishing condition supplied by the user.
type finPred struct {
	in    *Inst
	w     *World
	iters int  // holds when that many iterations are reported
	flag  bool // holds when the world flag is raised
	conf  bool // configured condition of the instance, otherwise argument of Wait
	call  *Call
	calls int
	comp  core.Finishing // the same condition composed with the means of the library
	parts []*finPart
	any   bool
}

// finPart is a condition composed by the library with others.
type finPart struct {
	lib   core.Finishing // condition of the library, or
	cond  func(core.OCModel) bool
	iters int                // number of iterations it asks for
	sts   []core.ClustStatus // status it asks for
	errs  bool               // it asks for a failure
	asked bool
	last  bool
}

// IsFinished implements core.Finishing.
func (p *finPart) IsFinished(m core.OCModel) bool {
	if p.lib != nil {
		p.last = p.lib.IsFinished(m)
	} else {
		p.last = p.cond(m)
	}
	p.asked = true
	return p.last
}

// compose makes the library compute the condition.
func (p *finPred) compose(how string) {
	p.any = how == "or"
	a := &finPart{cond: func(m core.OCModel) bool { return int(m.RuntimeFigures()[core.Iterations]) >= p.iters }}
	if p.iters%2 == 0 {
		a = &finPart{lib: core.NewIterFinishing(p.iters, 0), iters: p.iters}
	}
	b := &finPart{cond: func(m core.OCModel) bool { return !p.flag || p.w.flag }}
	c := statusPart(false, core.Running, core.Idle, core.Ready, core.Finished)
	if p.any {
		e := statusPart(true)
		b.cond = func(m core.OCModel) bool { return p.flag && p.w.flag }
		p.parts = []*finPart{b, e, a}
		p.comp = core.NewOrFinishing(b, core.NewOrFinishing(e), nil, core.NewAndFinishing(a))
		return
	}
	p.parts = []*finPart{c, a, b}
	p.comp = core.NewAndFinishing(c, core.NewAndFinishing(a, b))
}

// statusPart is a condition of the library about the status.
func statusPart(errs bool, sts ...core.ClustStatus) *finPart {
	return &finPart{lib: core.NewStatusFinishing(errs, sts...), sts: sts, errs: errs}
}

// asks tells whether the condition about the status must hold.
func (p *finPart) asks(st core.OCStatus) bool {
	for _, v := range p.sts {
		if st.Value == v {
			return true
		}
	}
	return p.errs && st.Error != nil
}

// composed evaluates the condition through the library.
func (p *finPred) composed(m core.OCModel) bool {
	for _, q := range p.parts {
		q.asked = false
	}
	inits := p.in.inits
	before := int(m.RuntimeFigures()[core.Iterations])
	st0 := m.Status()
	r := p.comp.IsFinished(m)
	st1 := m.Status()
	after := int(m.RuntimeFigures()[core.Iterations])
	all, any := true, false
	for _, q := range p.parts {
		all = all && q.asked && q.last
		any = any || q.asked && q.last
		if (q.errs || q.sts != nil) && q.asked && st0.Value == st1.Value && (st0.Error == nil) == (st1.Error == nil) && inits == p.in.inits && q.last != q.asks(st0) {
			p.w.violate("finishing", "the condition about status %v, failure %v is %v in status %v %v", q.sts, q.errs, q.last, st0.Value, st0.Error)
		}
		if n := q.iters; n > 0 && q.asked && before <= after && inits == p.in.inits && (q.last && after < n || !q.last && before >= n) {
			p.w.violate("finishing", "the condition of %d iterations is %v after %d to %d iterations", n, q.last, before, after)
		}
	}
	if p.any && r != any || !p.any && r != all {
		p.w.violate("finishing", "a composed condition is %v, its parts are %v", r, p.show())
	}
	return r
}

func (p *finPred) show() string {
	s := "any of"
	if !p.any {
		s = "all of"
	}
	for _, q := range p.parts {
		s += fmt.Sprintf(" %v(evaluated %v)", q.last, q.asked)
	}
	return s
}

// IsFinished implements core.Finishing.
func (p *finPred) IsFinished(m core.OCModel) bool {
	p.calls++
	if p.conf {
		p.w.held(p.in, "finish")
	} else {
		p.w.held(p.in, "waiting")
	}
	if p.calls%3 == 1 {
		zzdst.Yield()
	}
	r := false
	if p.comp != nil {
		r = p.composed(m)
	} else if p.iters > 0 && int(m.RuntimeFigures()[core.Iterations]) >= p.iters {
		r = true
	}
	if p.comp == nil && p.flag && p.w.flag {
		r = true
	}
	if r {
		if p.conf {
			p.in.ev(Ev{K: EvFin})
		} else {
			p.in.ev(Ev{K: EvWaitFin, Op: p.call})
		}
	}
	return r
}
