//go:build go1.21

package main

import (
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/zzdst"
)

// mockConf is the configuration of the mock algorithm.
type mockConf struct{ core.CtrlConf }

func (w *World) newInst(name string) *Inst {
	in := &Inst{w: w, name: name, sets: map[int32]core.Clust{}, vals: map[string]int32{}}
	w.insts = append(w.insts, in)
	return in
}

// setCtrl fills the controller configuration of an instance.
func (in *Inst) setCtrl(c *core.CtrlConf) {
	s := in.w.spec
	c.Iter, c.IterPerData, c.DataPerIter = s.Iter, s.IPD, s.DPI
	c.IterFreq, c.Timeout = s.Freq, s.Timeout
	if s.FinIters > 0 || s.FinFlag {
		in.fin = &finPred{in: in, w: in.w, iters: s.FinIters, flag: s.FinFlag, conf: true}
		if s.FinComp != "" && s.FinIters > 0 {
			in.fin.compose(s.FinComp)
		}
		c.Finishing = in.fin
	}
	if s.Notifier != "" {
		c.StatusNotifier = in.notifier
	}
}

// notifier is the status notifier of the user.
func (in *Inst) notifier(oc core.OnlineClust, st core.OCStatus) {
	w := in.w
	in.inNotify++
	if in.inNotify > 1 {
		w.violate("notifier-overlap", "%s: two notifier calls execute at the same time", in.name)
	}
	if in.algo != nil && oc != in.algo {
		w.violate("notifier-instance", "%s: the notifier received another instance", in.name)
	}
	in.notifs++
	in.lastNot = st.Value
	in.ev(Ev{K: EvNotifB, St: st.Value, Err: canon(st.Error)})
	var d time.Duration
	if f := in.wrap.fault("notify", in.notifs); f != nil && f.Kind == "delay" {
		d = f.D
	}
	cl := 90
	switch w.spec.Notifier {
	case "fast":
		zzdst.Yield()
	case "slow":
		d += w.spec.NotDur
	case "hour":
		d += time.Hour
	case "status":
		in.Status(cl)
		in.Figures(cl)
		in.Centroids(cl)
	case "control":
		if in.reent < 4 && in.algo != nil {
			in.reent++
			switch (int(w.spec.Seed) + in.reent + int(st.Value)) % 5 {
			case 0:
				in.Play(cl)
			case 1:
				in.Pause(cl)
			case 2:
				in.Stop(cl)
			case 3:
				in.Push(cl, in.newElt())
			case 4:
				in.Init(cl)
			}
		}
	}
	if d > 0 {
		w.hold++
		if d < time.Minute {
			w.implU += int64(d)
		}
		zzdst.Sleep(d, zzdst.HarnessSite)
		w.hold--
	}
	in.inNotify--
	in.ev(Ev{K: EvNotifE, St: st.Value})
}

func (in *Inst) newElt() core.Elemt {
	if in.mk != nil {
		return in.mk()
	}
	in.w.left++
	return &pt{n: in.w.left, x: float64(in.w.left%7) * 0.6}
}

func (w *World) newMock() *Inst {
	in := w.newInst("A")
	conf := &mockConf{}
	in.setCtrl(&conf.CtrlConf)
	in.ctrl = &conf.CtrlConf
	in.wrap = &wrap{w: w, in: in}
	in.algo = core.NewAlgo(&mockVerified{mockConf: *conf, c: &conf.CtrlConf}, in.wrap, mockSpace{w})
	return in
}

// mockVerified implements core.Conf over a shared controller configuration.
type mockVerified struct {
	mockConf
	c *core.CtrlConf
}

func (m *mockVerified) Ctrl() *core.CtrlConf { return m.c }
func (m *mockVerified) Verify() error        { return nil }
func (m *mockVerified) SetDefaultValues()    {}

// clientOp executes one operation of a client.
func (w *World) clientOp(cl int, op Op) {
	if op.I >= len(w.insts) {
		return
	}
	in := w.insts[op.I]
	switch op.K {
	case "init":
		in.Init(cl)
	case "play":
		in.Play(cl)
	case "pause":
		in.Pause(cl)
	case "stop":
		in.Stop(cl)
	case "batch":
		in.Batch(cl)
	case "wait":
		var fin core.Finishing
		switch op.A {
		case 1:
			fin = &finPred{in: in, w: w, flag: true}
		case 2:
			fin = &finPred{in: in, w: w, iters: 2}
		case 3, 4:
			p := &finPred{in: in, w: w, iters: op.A - 1}
			p.compose([]string{"and", "or"}[op.A-3])
			fin = p
		}
		in.Wait(cl, fin, op.D)
	case "status":
		in.Status(cl)
	case "figures":
		in.Figures(cl)
	case "centroids":
		in.Centroids(cl)
	case "predict":
		in.Predict(cl, float64(op.A%11)*0.45)
	case "push":
		n := op.A
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			in.Push(cl, in.newElt())
		}
	case "watch":
		for i := 0; i < op.A; i++ {
			in.Status(cl)
			zzdst.Sleep(op.D, zzdst.HarnessSite)
		}
	case "sleep":
		zzdst.Sleep(op.D, zzdst.HarnessSite)
	case "flag":
		w.flag = true
	case "yield":
		for i := 0; i <= op.A; i++ {
			zzdst.Yield()
		}
	case "copy":
		w.copyMock(cl)
	}
}

func (w *World) copyMock(cl int) {
	if len(w.insts) > 1 {
		return
	}
	in := w.insts[0]
	c := in.begin("copy", cl, 0)
	b := &Inst{w: w, name: "B", sets: map[int32]core.Clust{}, vals: map[string]int32{}}
	conf := &mockConf{}
	b.setCtrl(&conf.CtrlConf)
	b.ctrl = &conf.CtrlConf
	oc, err := in.algo.Copy(&mockVerified{mockConf: *conf, c: &conf.CtrlConf}, mockSpace{w})
	c.Err = canon(err)
	in.end(c)
	if err != nil {
		return
	}
	b.wrap = oc.Impl().(*wrap)
	b.wrap.in = b
	b.algo = oc
	b.born = zzdst.Clock()
	w.insts = append(w.insts, b)
}

// spawnClients starts one task per client.
func (w *World) spawnClients(f func(cl int, op Op)) []*zzdst.Task {
	var ts []*zzdst.Task
	for i := range w.spec.Clients {
		i := i
		ts = append(ts, zzdst.Spawn("client"+string(rune('0'+i)), func() {
			for _, op := range w.spec.Clients[i] {
				f(i, op)
			}
		}))
	}
	return ts
}

func allDone(ts []*zzdst.Task) bool {
	for _, t := range ts {
		if !t.Done() {
			return false
		}
	}
	return true
}

// conduct lets the clients work under faults, then without faults until they are
// all done, stopping the instances to release legitimate endless waits.
func (w *World) conduct(ts []*zzdst.Task, faulty time.Duration) bool {
	limit := zzdst.Now() + int64(faulty*w.scale())
	for !allDone(ts) && zzdst.Now() < limit && zzdst.StepsNow() < w.spec.MaxSteps*2/5 && w.viol == nil {
		zzdst.Sleep(20*ms*w.scale(), zzdst.HarnessSite)
	}
	zzdst.StartDrain()
	nops := 0
	for _, c := range w.spec.Clients {
		nops += len(c)
	}
	var rescue []*zzdst.Task
	pace := 700*ms*w.scale() + time.Duration(w.maxW)*2
	for round := 0; round < 2*nops+20; round++ {
		if w.viol != nil {
			return false
		}
		if allDone(ts) && allDone(rescue) {
			return true
		}
		zzdst.Sleep(pace, zzdst.HarnessSite)
		if allDone(rescue) && !allDone(ts) {
			for k, in := range w.insts {
				in, k := in, k
				rescue = append(rescue, zzdst.Spawn("rescue"+itoa(round)+"."+itoa(k), func() { in.Stop(80) }))
			}
		}
	}
	w.violate("stuck", "calls did not return after faults stopped; tasks:\n%s", zzdst.DumpNow())
	return false
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// settle lets an instance run until it leaves Running, checking its progress.
func (in *Inst) settle(max time.Duration) {
	w := in.w
	limit := zzdst.Now() + int64(max*w.scale())
	grace := time.Duration(w.maxW)*3 + 500*ms
	if in.ctrl.IterFreq > 0 {
		grace += time.Duration(2 * float64(time.Second) / in.ctrl.IterFreq)
	}
	last, since := -1, zzdst.Now()-w.busy()
	for zzdst.Now() < limit && w.viol == nil && zzdst.StepsNow() < w.spec.MaxSteps*4/5 {
		st := in.Status(70)
		if st.Value != core.Running {
			return
		}
		if in.wrap.inner != nil && in.idleRun > 12 { // nothing left to consume
			return
		}
		if n := in.iterB*2 + in.inImpl; n != last || w.working > 0 {
			last, since = n, zzdst.Now()-w.busy()
		} else if zzdst.Now()-w.busy()-since > int64(grace) {
			w.violate("no-progress", "%s: Running for %v without iterating (%d iterations begun)\n%s", in.name, time.Duration(zzdst.Now()-w.busy()-since), in.iterB, zzdst.DumpNow())
			return
		}
		zzdst.Sleep(60*ms*w.scale(), zzdst.HarnessSite)
	}
}

// scale is the factor by which the durations of the user are multiplied.
func (w *World) scale() time.Duration {
	if w.spec.Scale > 1 {
		return time.Duration(w.spec.Scale)
	}
	return 1
}

// ctrlMain is the scenario over the mock implementation.
func (w *World) ctrlMain() {
	in := w.newMock()
	ts := w.spawnClients(w.clientOp)
	if !w.conduct(ts, 6*time.Second) {
		return
	}
	for _, in := range w.insts {
		w.finale(in)
	}
	w.quiesce()
	_ = in
}

// finale drives an instance to the end chosen by the spec.
func (w *World) finale(in *Inst) {
	s := w.spec
	in.settle(3 * time.Second)
	if s.Final == "run" && w.viol == nil {
		st := in.Status(70)
		if st.Value != core.Running {
			in.Play(70)
		}
		in.settle(8 * time.Second)
		in.Figures(70)
	}
	if w.viol != nil {
		return
	}
	st := in.Status(70)
	if s.Final != "leave" || st.Value == core.Running || st.Value == core.Idle {
		in.Stop(70)
	}
	in.Figures(70)
	in.Centroids(70)
}

// quiesce waits for everything that legitimately remains, then closes the histories.
func (w *World) quiesce() {
	if w.viol != nil {
		return
	}
	d := w.spec.Timeout + time.Duration(w.maxW)*4 + 2*time.Second
	zzdst.Sleep(d, zzdst.HarnessSite)
	w.awaitNotifier()
	for _, in := range w.insts {
		if w.viol != nil {
			return
		}
		st := in.Status(70)
		if st.Value == core.Running || st.Value == core.Idle {
			// a late data-driven resume or a re-entrant notifier restarted it
			in.Stop(70)
			zzdst.Sleep(d, zzdst.HarnessSite)
			w.awaitNotifier()
		}
		in.Figures(70)
		in.Centroids(70)
		in.ev(Ev{K: EvEnd})
		in.checkKept()
	}
	if n := zzdst.LibTasks(); n > 0 && w.spec.Prop == "C20" {
		w.violate("leak", "%d routines remain after the end: %v", n, zzdst.LibTaskNames())
	}
}

func (w *World) notDelay() time.Duration {
	if w.spec.Notifier == "hour" {
		return time.Hour
	}
	return w.spec.NotDur
}

// awaitNotifier waits until every notification has been delivered.
func (w *World) awaitNotifier() {
	n, still := -1, 0
	for i := 0; i < 2000 && still < 3; i++ {
		zzdst.Sleep(time.Duration(w.maxW)+100*ms+w.notDelay(), zzdst.HarnessSite)
		k := w.hold
		for _, in := range w.insts {
			k += in.notifs * 2
		}
		if w.hold == 0 && k == n {
			still++
		} else {
			still = 0
		}
		n = k
	}
}
