//go:build go1.21

package main

import (
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/zzdst"
)

// A routine of the user is held up for holdFor; nobody who does not depend on it may
// be delayed by more than heldMax.
const (
	holdFor = 60 * time.Second
	heldMax = 25 * time.Second
)

// freeMain is the scenario about calls that wait for nobody: while an initialization or
// iteration is held up, reads, predictions and pushes are answered; while a prediction,
// push, notifier or Wait condition of one caller is held up, so are the control calls of
// the others.
func (w *World) freeMain() {
	s := w.spec
	op := w.clientOp
	if s.Algo == "mock" {
		w.newMock()
	} else {
		r := newRnd(s.Seed ^ 0xF3EE)
		series := s.Space == "dtw"
		data := vecs(r, s.NData, s.Dim, s.Grid, series)
		sp := w.newVec("A", r.pick(3, 8, 25))
		sp.hold = s.HoldDist
		in := w.real("A", s.Algo, sp, w.initializer(), data, s.Frame, w.source(s.Seed))
		in.frame, in.available0 = s.Frame, len(data)
		in.mk = func() core.Elemt { return vecs(r, 1, s.Dim, s.Grid, series)[0] }
		in.watchReal()
		op = w.realOp
	}
	ts := w.spawnClients(op)
	limit := zzdst.Now() + int64(10*holdFor)
	for step := 5 * ms; !allDone(ts) && zzdst.Now() < limit && w.viol == nil; step += step / 16 {
		if step > time.Second {
			step = time.Second
		}
		zzdst.Sleep(step, zzdst.HarnessSite)
	}
	if !w.conduct(ts, 0) {
		return
	}
	for _, in := range w.insts {
		w.finale(in)
	}
	w.quiesce()
}

// held delays a routine of the user as asked by the faults.
func (w *World) held(in *Inst, where string) {
	if !w.spec.Free {
		return
	}
	w.nheld[where]++
	for _, f := range w.spec.Faults {
		if f.Where == where && f.N == w.nheld[where] {
			w.faults[where+"-"+f.Kind]++
			if c := w.cur[zzdst.CurName()]; c != nil {
				c.held = true
			}
			w.work(0, f.D)
		}
	}
}

// checkHeld bounds the duration of the calls that depend on nobody.
func (in *Inst) checkHeld() {
	s := in.w.spec
	if !s.Free {
		return
	}
	for _, c := range in.w.calls {
		if c.Inst != in || !c.Done || c.held {
			continue
		}
		if in.w.viol == nil {
			in.w.probe("call-" + c.Kind)
		}
		switch c.Kind {
		case "status", "figures", "centroids", "predict", "push", "copy":
		case "init", "play", "pause", "stop":
			if s.HoldImpl {
				continue
			}
		default:
			continue
		}
		if d := time.Duration(c.RetT - c.CallT); d > heldMax {
			in.w.violate("held-call", "%s: %v took %v while a routine of the user that it does not depend on was held up", in.name, c, d)
			return
		}
	}
}

func (r *rnd) genFree(prop string) *Spec {
	var s *Spec
	if r.Intn(2) == 0 {
		s = r.genCtrl(prop)
	} else {
		s = r.genReal(prop)
	}
	s.Kind, s.Free = "free", true
	s.Faults, s.FailDist, s.Extreme, s.Race = nil, 0, 0, false
	s.PStall = r.f(0, 0, 0.001, 0.003)
	s.StallMax = r.dur(ms, 20*ms, 120*ms)
	s.Final, s.Freq = "stop", r.f(0, 0, 0, 20, 100)
	s.Iter = r.pick(1, 2, 3, 5, 9)
	s.IPD = r.pick(0, 0, 1)
	s.FinFlag, s.FinComp = false, ""
	if s.Timeout > 0 {
		s.Timeout = r.dur(50*ms, 300*ms, 20*time.Second)
	}
	if s.Algo == "streaming" {
		s.IterDur = 40 * ms
		s.MaxSteps = 300000
	}
	s.HoldImpl = r.Intn(2) == 0
	waits := false
	hold := func(where string, n int) {
		s.Faults = append(s.Faults, Fault{Where: where, N: n, Kind: "delay", D: holdFor})
	}
	if s.HoldImpl {
		s.DPI = 0
		switch k := r.Intn(8); {
		case k == 0:
			hold("init", 1+r.Intn(2))
		case s.Algo != "mock" && k < 6:
			s.HoldDist = r.pick(1, 3, 10, 40, 150)
		case k < 6:
			hold("iter", 1+r.Intn(4))
		default:
			s.FinIters = 1 + r.Intn(4)
			hold("finish", 1+r.Intn(4))
		}
	} else {
		for i := 1 + r.Intn(2); i > 0; i-- {
			switch r.Intn(5) {
			case 0:
				hold("predict", 1+r.Intn(6))
			case 1:
				hold("push", 1+r.Intn(4))
			case 2:
				hold("notify", 1+r.Intn(4))
				if s.Notifier == "" {
					s.Notifier = "fast"
				}
			case 3, 4:
				hold("waiting", 1+r.Intn(2))
				waits = true
			}
		}
	}
	w := map[string]int{"init": 2, "play": 8, "pause": 3, "stop": 3, "wait": 2, "push": 10, "centroids": 6, "figures": 6, "predict": 8, "status": 6, "batch": 1, "sleep": 8, "yield": 3, "copy": 1}
	if s.Algo == "streaming" {
		w["copy"] = 0
	}
	if waits {
		w["wait"] = 6
	}
	s.Clients = nil
	for c := 2 + r.Intn(3); c > 0; c-- {
		var o []Op
		if c == 2 && r.Intn(3) > 0 {
			o = append(o, Op{K: "push", A: 1}, Op{K: "play"})
		}
		for i := 4 + r.Intn(8); i > 0; i-- {
			op := r.genOp(s, w)
			if op.K == "push" {
				op.A = r.pick(1, 1, 3)
			}
			if op.K == "wait" && (waits || r.Intn(2) == 0) {
				op.A, op.D = 2, 200*ms
			}
			o = append(o, op)
		}
		s.Clients = append(s.Clients, o)
	}
	return s
}

// holdPredict delays a prediction as asked by the faults.
func (w *World) holdPredict() {
	if !w.spec.Free {
		return
	}
	if c := w.cur[zzdst.CurName()]; c != nil && c.Kind == "predict" {
		w.held(c.Inst, "predict")
	}
}
