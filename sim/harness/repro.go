//go:build go1.21

package main

import (
	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/zzdst"
)

// reproStep is something the implementation under test was asked, with what it answered.
type reproStep struct {
	kind  string // init, iter, push
	elemt core.Elemt
	alive bool
	clust core.Clust
	figs  core.RuntimeFigures
	err   string
}

// reproMain is the scenario about the reproducibility of a run: one caller drives an
// instance through lives, pauses and resumes while others read, on a machine of whatever
// speed. The same steps are then executed alone, from an equal generator: every result
// must be the same.
func (w *World) reproMain() {
	s := w.spec
	r := newRnd(s.Seed ^ 0x4E90)
	series := s.Space == "dtw"
	data := vecs(r, s.NData, s.Dim, s.Grid, series)
	kept := deep(core.Clust(data))
	var steps []reproStep
	open := false // it is open which step sees an element
	in := w.real("A", s.Algo, w.newVec("A", r.pick(2, 5, 25)), w.initializer(), data, s.Frame, w.source(s.Seed))
	in.frame, in.available0, in.noAuto = s.Frame, len(data), true
	in.wrap.preInit, in.wrap.preIter = in.checkModel, in.checkModel
	in.wrap.post = func(init bool, c core.Clust, f core.RuntimeFigures, err error) {
		t := reproStep{kind: "iter", clust: deep(c), err: canon(err), figs: core.RuntimeFigures{}}
		if init {
			t.kind = "init"
		} else if c == nil && err == nil { // nothing to do
			return
		}
		if c == nil {
			t.clust = nil
		}
		for k, v := range f {
			t.figs[k] = v
		}
		steps = append(steps, t)
	}
	in.mk = func() core.Elemt { return vecs(r, 1, s.Dim, s.Grid, series)[0] }
	pushes := func(cl int, n int) {
		for ; n > 0 && w.viol == nil; n-- {
			st := in.algo.Status()
			if s.Algo != "streaming" && st.Value == core.Running { // which iteration sees it is open
				return
			}
			e := in.mk()
			steps = append(steps, reproStep{kind: "push", elemt: e, alive: st.Alive()})
			if c := in.Push(cl, e); c.Err != "" {
				w.violate("repro-error", "Push of %v returned %q", e, c.Err)
			}
			if s.Algo != "streaming" && in.algo.Status().Alive() != st.Alive() { // stopped meanwhile
				open = true
			}
		}
	}
	ts := w.spawnClients(func(cl int, op Op) {
		if w.viol != nil {
			return
		}
		switch op.K {
		case "push":
			pushes(cl, op.A)
		case "predict":
			in.PredictReal(cl, vecs(newRnd(s.Seed^uint64(op.A)), 1, s.Dim, s.Grid, series)[0])
		case "copy":
			w.reproCopy(in, op.A)
		default:
			w.clientOp(cl, op)
		}
	})
	if !w.conduct(ts, 60e9) {
		return
	}
	w.finale(in)
	w.quiesce()
	if w.viol == nil && w.incon == "" && !open {
		w.reproCompare(kept, steps)
	}
}

// reproCopy makes a copy that is left alone or executes something on its own.
func (w *World) reproCopy(in *Inst, n int) {
	s := w.spec
	if s.Algo == "streaming" {
		return
	}
	conf := w.realConf(&Inst{w: w}, s.Algo, s.Frame, w.source(s.Seed+uint64(n)))
	conf.Ctrl().StatusNotifier, conf.Ctrl().Finishing, conf.Ctrl().Timeout = nil, nil, 0
	conf.Ctrl().Iter, conf.Ctrl().IterPerData, conf.Ctrl().IterFreq = 1, 0, 0
	sp := w.newVec("copy", 0)
	sp.inner = in.space.(*vecSpace).inner
	oc, err := in.algo.Copy(conf, sp)
	if err != nil {
		w.violate("repro-error", "Copy returned %v", err)
		return
	}
	w.probe("repro-copies")
	if n%2 == 0 && s.Distrib == "dirac" { // a distribution with a generator is shared
		oc.Batch()
		w.probe("repro-copies-used")
	}
}

// reproCompare executes the steps again, alone.
func (w *World) reproCompare(data core.Clust, steps []reproStep) {
	s := w.spec
	b := w.newBaselineOf(s.Algo, data, false, s.Frame, s.Seed)
	var v func()
	fail := func(kind, format string, a ...interface{}) {
		v = func() { w.violate(kind, format, a...) }
	}
	run := func() {
		var cur core.Clust
		life, n := 0, 0
		for _, t := range steps {
			model := func(v core.ClustStatus) core.OCModel {
				return core.NewSimpleOCModel(b.conf, b.space, core.NewOCStatus(v), core.RuntimeFigures{}, cur)
			}
			var c core.Clust
			var f core.RuntimeFigures
			var err error
			switch t.kind {
			case "push":
				st := core.Finished
				if t.alive {
					st = core.Ready
				}
				if err = b.impl.Push(t.elemt, model(st)); err != nil {
					fail("repro-error", "Push of %v, alone, returned %v", t.elemt, err)
					return
				}
				continue
			case "init":
				life, n = life+1, 0
				c, err = b.impl.Init(model(core.Initializing))
			case "iter":
				n++
				c, f, err = b.impl.Iterate(model(core.Running))
			}
			what := "the initialization"
			if n > 0 {
				what = "iteration " + itoa(n)
			}
			if canon(err) != t.err {
				fail("repro-error", "%s of life %d gives the error %q instead of %q, obtained from the same generator", what, life, t.err, canon(err))
				return
			}
			if err == nil && !same(c, t.clust) {
				fail("repro-result", "%s of life %d gives %v instead of %v, obtained from the same data and generator", what, life, t.clust, c)
				return
			}
			if err == nil && n > 0 {
				for k, x := range f {
					if y := t.figs[k]; x != y && (x == x || y == y) {
						fail("repro-figures", "%s of life %d reports %v = %v instead of %v, obtained from the same data and generator", what, life, k, y, x)
						return
					}
				}
				w.probe("repro-iterations")
				if t.kind == "iter" && same(c, cur) {
					w.probe("repro-still")
				}
			}
			if err == nil {
				cur = c
			}
		}
		if life > 1 {
			w.probe("repro-lives")
		}
	}
	zzdst.WithNumCPU(s.NumCPU, func() { zzdst.Quiet(run) })
	w.lastStep = zzdst.StepsNow()
	if v != nil {
		v()
	} else {
		w.probe("repro-compared")
	}
}

// genRepro draws a scenario about the reproducibility of runs.
func (r *rnd) genRepro(prop string) *Spec {
	s := &Spec{Prop: prop, Kind: "repro", Seed: r.Uint64()}
	r.genSim(s)
	s.Algo = r.str("kmeans", "kmeans", "mcmc", "mcmc", "mcmc", "streaming")
	r.genAlgo(s)
	if s.Space == "cosinus" && s.Dim == 1 {
		s.Dim = 2
	}
	s.Frame = r.pick(0, 0, 0, s.K, s.K+2)
	if s.Algo == "mcmc" {
		if s.Space == "dtw" {
			s.Space, s.Window = "", 0
		}
		s.NData = s.MaxK + r.pick(0, 2, 6, 15)
		if r.Intn(4) == 0 {
			s.Distrib = "moody"
		}
	} else if s.Space != "dtw" {
		s.NData += r.pick(0, 5, 20)
	}
	s.Iter = r.pick(0, 1, 2, 3, 5, 9, 15)
	s.Freq = r.f(0, 0, 0, 50, 300)
	s.IterDur = r.dur(0, 0, ms, 7*ms)
	s.InitDur = r.dur(0, 0, 3*ms)
	s.IterYield, s.InitYield = r.Intn(3), r.Intn(3)
	if s.Algo == "streaming" {
		s.NData = r.pick(1, 3, 6, 12)
		s.Buf = 200
	}
	if s.Algo == "streaming" && s.IterDur == 0 || s.Iter == 0 && s.IterDur == 0 && s.Freq == 0 {
		s.IterDur = r.dur(ms, 5*ms)
	}
	s.Notifier = r.str("", "", "fast", "status", "slow")
	if s.Notifier == "slow" {
		s.NotDur = r.dur(ms, 20*ms)
	}
	s.Final = r.str("run", "stop")
	if s.Iter == 0 {
		s.Final = "stop"
	}
	pushing := r.Intn(2) == 0
	if !pushing {
		s.Timeout = r.dur(0, 0, 0, 20*ms, 90*ms)
	}
	w := map[string]int{"play": 9, "pause": 5, "stop": 2, "init": 2, "wait": 2, "batch": 1, "sleep": 8, "yield": 4, "status": 1}
	if s.Iter == 0 {
		w["batch"], w["wait"] = 0, 0
	}
	if pushing {
		w["push"] = 7
	}
	gen := func(w map[string]int, n int) (ops []Op) {
		for ; n > 0; n-- {
			op := r.genOp(s, w)
			if op.K == "push" {
				op.A = r.pick(1, 1, 3)
			}
			ops = append(ops, op)
		}
		return
	}
	s.Clients = append(s.Clients, gen(w, 5+r.Intn(12)))
	w = map[string]int{"centroids": 5, "figures": 4, "predict": 5, "status": 2, "sleep": 4, "yield": 4}
	if !pushing {
		w["copy"] = 2
	}
	for c := r.Intn(4); c > 0; c-- {
		s.Clients = append(s.Clients, gen(w, 4+r.Intn(12)))
	}
	for i := r.pick(0, 0, 1, 2); i > 0; i-- {
		f := Fault{Where: r.str("init", "iter", "iter"), N: 1 + r.Intn(6), Kind: "delay", D: r.dur(ms, 20*ms, 130*ms)}
		s.Faults = append(s.Faults, f)
	}
	return s
}
