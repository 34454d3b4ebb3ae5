//go:build go1.21

package main

import (
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/zzdst"
)

// neighMain is the scenario about the independence of distinct instances: one of them,
// the victim, executes batches over fixed data while others, created from the same data
// slice, space and configuration values, are driven at will, fail, or are held up for a
// very long time. The victim must obtain what it obtains alone, in the same time.
func (w *World) neighMain() {
	s := w.spec
	r := newRnd(s.Seed ^ 0x4E16)
	series := s.Space == "dtw"
	backing := vecs(r, s.NData+6, s.Dim, false, series)
	data := backing[:s.NData]
	kept := deep(core.Clust(backing))
	probaK := append([]float64(nil), s.ProbaK...)
	type outcome struct {
		clust core.Clust
		figs  core.RuntimeFigures
		err   string
	}
	var want []outcome
	base := w.newBaselineOf(s.Algo, append([]core.Elemt(nil), data...), false, s.Frame, s.Seed)
	timed := s.Timeout > 0 // the batches of the victim end by their time-out
	var extra []core.Elemt
	for _, op := range s.Clients[0] {
		if op.K == "push" {
			e := vecs(r, 1, s.Dim, false, series)[0]
			extra = append(extra, e)
			if err := base.push(e); err != nil {
				w.violate("neigh-error", "Push of A, alone, returned %q", canon(err))
				return
			}
		}
		if op.K == "batch" && timed {
			want = append(want, outcome{err: canon(core.ErrTimeout)})
		} else if op.K == "batch" {
			var o outcome
			var err error
			o.clust, o.figs, err = base.run(s.Iter)
			o.err = canon(err)
			want = append(want, o)
		}
	}
	zzdst.Sleep(1, zzdst.HarnessSite)
	var first *vecSpace
	create := func(name, algo string, frame int, seed uint64) *Inst {
		sp := w.newVec(name, r.pick(3, 8, 25))
		if first == nil {
			first = sp
		} else {
			sp.inner = first.inner
			sp.fail, sp.hold = s.FailDist, s.HoldDist
		}
		a := w.real(name, algo, sp, w.initializer(), data, frame, w.source(seed))
		a.frame, a.available0 = frame, len(data)
		a.mk = func() core.Elemt { return vecs(r, 1, s.Dim, false, series)[0] }
		if algo == "mcmc" {
			a.watchMCMC()
		} else {
			a.wrap.preInit, a.wrap.preIter = a.checkModel, a.checkModel
		}
		return a
	}
	victim := create("A", s.Algo, s.Frame, s.Seed)
	for i, algo := range s.Others {
		create(string(rune('B'+i)), algo, s.Frame2, s.Seed+uint64(i)*7)
	}
	k, pushed, fresh := 0, 0, 0
	ts := w.spawnClients(func(cl int, op Op) {
		if w.viol != nil {
			return
		}
		if cl > 0 && len(s.Others) == 0 {
			return
		}
		if cl > 0 { // another instance
			op.I = 1 + op.I%len(s.Others)
			w.realOp(cl, op)
			return
		}
		switch op.K {
		case "push":
			e := extra[pushed]
			pushed++
			if k == 0 {
				fresh++
			}
			if c := victim.Push(cl, e); c.Err != "" {
				w.violate("neigh-error", "Push of A returned %q while only other instances were used", c.Err)
			}
		case "batch":
			o := want[k]
			k++
			c := victim.Batch(cl)
			count := fresh // a first life counts what was pushed before
			fresh = 0
			got := victim.Centroids(cl)
			f := victim.Figures(cl)
			if c.Err != o.err {
				w.violate("neigh-error", "Batch of A returned %q instead of %q while only other instances were used", c.Err, o.err)
				return
			}
			if o.err != "" {
				return
			}
			w.probe("neigh-compared")
			if !nearClust(got, o.clust, 1e-12) {
				w.violate("neigh-result", "Batch of A gives %v instead of %v, obtained without other instances", got, o.clust)
				return
			}
			if f.Iter != s.Iter || f.Pushed != count {
				w.violate("neigh-figures", "after Batch of A the figures report %d iterations and %d elements instead of %d and %d", f.Iter, f.Pushed, s.Iter, count)
				return
			}
			if s.Space != "dtw" {
				for k, v := range o.figs {
					if !near(f.Figs[string(k)], v, 1e-9) {
						w.violate("neigh-figures", "after Batch of A the figure %v is %v instead of %v", k, f.Figs[string(k)], v)
						return
					}
				}
			}
		default:
			w.clientOp(cl, op)
		}
	})
	max := int64(300 * time.Second)
	if timed {
		max = int64(30 * time.Second)
	}
	limit := zzdst.Now() + max
	step := int64(5 * ms)
	for !allDone(ts[:1]) {
		if w.viol != nil {
			return
		}
		if zzdst.Now() > limit-max/2 {
			zzdst.StartDrain()
		}
		if zzdst.Now() > limit {
			w.violate("held-up", "calls on A do not return while only other instances are held up; tasks:\n%s", zzdst.DumpNow())
			return
		}
		zzdst.Sleep(time.Duration(step), zzdst.HarnessSite)
	}
	for end := zzdst.Now() + int64(60*time.Second); s.Notifier != "" && victim.lastNot != victim.algo.Status().Value; {
		if w.viol != nil {
			return
		}
		if zzdst.Now() > end {
			w.violate("held-up", "the status %v of A is not notified while only other instances are held up; tasks:\n%s", victim.algo.Status().Value, zzdst.DumpNow())
			return
		}
		zzdst.Sleep(20*ms, zzdst.HarnessSite)
	}
	limit = zzdst.Now() + int64(1000*time.Hour)
	for !allDone(ts) {
		if w.viol != nil {
			return
		}
		if zzdst.Now() > limit {
			w.violate("stuck", "calls do not return; tasks:\n%s", zzdst.DumpNow())
			return
		}
		zzdst.Sleep(time.Duration(step), zzdst.HarnessSite)
		if step += step / 16; step > int64(10*time.Minute) {
			step = int64(10 * time.Minute)
			zzdst.StartDrain()
		}
	}
	for _, in := range w.insts {
		w.finale(in)
	}
	w.quiesce()
	if w.viol == nil && !same(core.Clust(backing), kept) {
		w.violate("neigh-input", "the data slice shared by the instances was modified")
	}
	for i := range probaK {
		if w.viol == nil && s.ProbaK[i] != probaK[i] {
			w.violate("neigh-input", "the configuration shared by the instances was modified: %v instead of %v", s.ProbaK, probaK)
		}
	}
}

func (r *rnd) genNeigh(prop string) *Spec {
	s := &Spec{Prop: prop, Kind: "neigh", Seed: r.Uint64()}
	r.genSim(s)
	s.Algo = r.str("kmeans", "mcmc", "mcmc", "streaming")
	all := []string{"kmeans", "mcmc", "streaming"}
	algo := s.Algo
	for i := 1 + r.Intn(3); i > 0; i-- {
		other := algo
		if r.Intn(2) == 0 {
			other = r.str(all...)
		}
		s.Others = append(s.Others, other)
	}
	s.Algo = "streaming"
	r.genAlgo(s)
	streaming := *s
	s.Algo = "mcmc"
	r.genAlgo(s)
	s.Algo = algo
	s.Mu, s.Sigma, s.OutR, s.OutAfter = streaming.Mu, streaming.Sigma, streaming.OutR, streaming.OutAfter
	s.Grid, s.Distrib = false, r.str("dirac", "dirac", "multivt", "late")
	if s.Space == "cosinus" && s.Dim == 1 {
		s.Dim = 2
	}
	if s.Space == "dtw" {
		s.Distrib = "dirac"
		for i := range s.Others {
			if s.Others[i] == "mcmc" {
				s.Others[i] = "kmeans"
			}
		}
		if s.Algo == "mcmc" {
			s.Space, s.Window = "", 0
		}
	}
	s.MaxK = s.K + r.pick(1, 2, 4)
	s.Iter = r.pick(2, 3, 5, 9)
	s.NData = s.MaxK + r.pick(0, 3, 6)
	if s.Algo == "streaming" {
		s.NData = 1 + s.Iter + r.pick(0, 3) + s.MaxK
	}
	s.Buf = s.NData + 40
	s.Frame, s.Frame2 = r.pick(0, 0, s.K+2), r.pick(0, 0, s.K+1, 9)
	s.IterDur = r.dur(0, 0, ms, 7*ms)
	if algo == "streaming" || s.has("streaming") {
		s.IterDur = r.dur(ms, 7*ms)
	}
	s.IterYield = r.Intn(3)
	s.Notifier = r.str("", "", "fast", "status")
	s.Final = "stop"
	s.Victim = "A"
	r.genFaults(s, .5, "init", "iter", "push")
	s.Race = r.Intn(3) == 0
	if r.Intn(2) == 0 { // an implementation or notifier that is stuck for long
		f := Fault{Where: r.str("init", "iter", "iter", "push", "notify"), N: 1 + r.Intn(3), Kind: "delay", D: 400 * time.Second}
		if f.Where == "notify" && s.Notifier == "" {
			s.Notifier = "fast"
		}
		s.Faults = append(s.Faults, f)
		for i := range s.Others { // a streaming instance would run for all that time
			if s.Others[i] == "streaming" {
				s.Others[i] = "kmeans"
			}
		}
	}
	s.FailDist = r.pick(0, 0, 0, 30, 200)
	if r.Intn(8) == 0 && !s.has("streaming") {
		s.HoldDist = r.pick(1, 20, 100)
	}
	timed := r.Intn(5) == 0 || prop == "C05" && r.Intn(3) > 0
	if timed {
		s.Timeout, s.Iter, s.IterDur = r.dur(20*ms, 90*ms, 300*ms), 1000000, r.dur(40*ms, 90*ms)
		s.MaxSteps = 400000
	}
	var ops []Op
	nb := 1 + r.Intn(3)
	if s.Algo == "streaming" {
		nb = 1
	}
	for b := nb; b > 0; b-- {
		if r.Intn(2) == 0 {
			ops = append(ops, Op{K: r.str("sleep", "yield"), D: r.dur(ms, 30*ms), A: r.Intn(9)})
		}
		if s.Algo != "streaming" && r.Intn(3) == 0 {
			ops = append(ops, Op{K: "push"})
		}
		ops = append(ops, Op{K: "batch"})
	}
	s.Clients = [][]Op{ops}
	w := map[string]int{"init": 2, "play": 8, "pause": 3, "stop": 3, "push": 9, "centroids": 2, "figures": 1, "predict": 2, "batch": 2, "sleep": 6, "yield": 3}
	for c := 1 + r.Intn(3); c > 0; c-- {
		var o []Op
		for i := 3 + r.Intn(8); i > 0; i-- {
			op := r.genOp(s, w)
			if timed && len(o) == 0 && r.Intn(2) == 0 {
				op = Op{K: "play"}
			}
			op.I = r.Intn(len(s.Others))
			if op.K == "push" {
				op.A = r.pick(1, 1, 3)
			}
			o = append(o, op)
		}
		s.Clients = append(s.Clients, o)
	}
	return s
}

func (s *Spec) has(algo string) bool {
	for _, o := range s.Others {
		if o == algo {
			return true
		}
	}
	return false
}
