//go:build go1.21

package main

import (
	"fmt"
	"math"

	xrand "golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"github.com/wearelumenai/distclus/zzdst"
)

// extremeSource is a random source that returns extreme values now and then.
type extremeSource struct {
	xrand.Source
	w *World
	r *rnd
	p float64
}

func (x *extremeSource) Uint64() uint64 {
	v := x.Source.Uint64()
	if x.r.Chance(x.p) {
		x.w.faults["extreme-draw"]++
		switch x.r.Intn(6) {
		case 0, 1:
			return 0
		case 2, 3:
			return math.MaxUint64
		case 4:
			return 1 << 63
		default:
			return math.MaxUint64 - uint64(x.r.Intn(4096))<<uint(x.r.Intn(12))
		}
	}
	return v
}

// source makes the random source of an instance.
func (w *World) source(seed uint64) xrand.Source {
	if w.spec.Extreme == 0 {
		return xrand.NewSource(seed)
	}
	return &extremeSource{xrand.NewSource(seed), w, newRnd(seed ^ 0xE87), w.spec.Extreme}
}

// initializer asked by the spec.
func (w *World) initializer() core.Initializer {
	switch n := w.spec.NInit; n {
	case "given", "pp", "rand":
		return kmeans.CreateInitializer(n)
	}
	return kmeans.CreateInitializer("pp")
}

// mcmcOracle checks the guarantees of mcmc at each of its steps.
type mcmcOracle struct {
	w     *World
	in    *Inst
	conf  *mcmc.Conf
	prev  core.Clust // centroids before the step
	acc   float64
	iters int
	begin uint64
}

func (in *Inst) watchMCMC() {
	o := &mcmcOracle{w: in.w, in: in, conf: in.conf.(*mcmc.Conf)}
	x := in.wrap
	before := func(m core.OCModel) {
		in.checkModel(m)
		o.prev = append(core.Clust(nil), m.Centroids()...)
		o.begin = in.evs[len(in.evs)-1].Seq
	}
	x.preInit, x.preIter = before, before
	x.post = o.step
}

// accepted is the number of elements accepted at most until now.
func (in *Inst) accepted() int {
	n := in.available0
	for _, p := range in.pushes {
		if !p.Done || p.Err == "" {
			n++
		}
	}
	return n
}

// available is the number of elements the data set can have at most now.
func (in *Inst) available() int {
	n := in.accepted()
	if f := in.frame; f > 0 && n > f {
		n = f
	}
	return n
}

func (o *mcmcOracle) step(init bool, c core.Clust, f core.RuntimeFigures, err error) {
	w, in := o.w, o.in
	if err != nil {
		return
	}
	what := "an iteration"
	if init {
		what = "the initialization"
	}
	bound := o.conf.MaxK
	if o.conf.InitK > bound {
		bound = o.conf.InitK
	}
	if len(c) < 1 || len(c) > bound {
		w.violate("mcmc-k", "%s produces %d centroids, with InitK %d and MaxK %d", what, len(c), o.conf.InitK, o.conf.MaxK)
		return
	}
	if n := in.available(); len(c) > n {
		w.violate("mcmc-k", "%s produces %d centroids from at most %d elements", what, len(c), n)
		return
	}
	for i, e := range c {
		if !validElt(e, w.spec.Dim) {
			w.violate("mcmc-centroid", "%s produces the centroid %d %v", what, i, e)
			return
		}
	}
	if w.probes["max-k"] < len(c) {
		w.probes["max-k"] = len(c)
	}
	if init {
		o.acc, o.iters = 0, 0
		return
	}
	o.iters++
	acc := f[mcmc.Acceptations]
	rho := f[mcmc.Rho]
	changed := !same(c, o.prev)
	switch {
	case acc == o.acc+1:
		w.probe("accepted")
		if !(rho > 0) {
			w.violate("mcmc-acc", "an acceptation is counted although the acceptance ratio is %v", rho)
		}
	case acc == o.acc:
		w.probe("rejected")
		if changed {
			w.violate("mcmc-acc", "the centroids change from %v to %v without a counted acceptation (%v)", o.prev, c, acc)
		}
		if rho >= 1 {
			w.violate("mcmc-acc", "a proposal with acceptance ratio %v is not counted as accepted", rho)
		}
	default:
		w.violate("mcmc-acc", "acceptations go from %v to %v in one iteration", o.acc, acc)
	}
	if acc > float64(o.iters) {
		w.violate("mcmc-acc", "%v acceptations after %d iterations", acc, o.iters)
	}
	if len(c) != len(o.prev) {
		w.probe("k-changes")
	}
	o.acc = acc
}

func validElt(e core.Elemt, dim int) bool {
	switch v := e.(type) {
	case []float64:
		if len(v) != dim {
			return false
		}
		for _, x := range v {
			if math.IsNaN(x) || math.IsInf(x, 0) {
				return false
			}
		}
		return true
	case [][]float64:
		for _, p := range v {
			if !validElt(p, dim) {
				return false
			}
		}
		return len(v) > 0
	}
	return false
}

// realMain is the scenario over the real algorithms and spaces.
func (w *World) realMain() {
	s := w.spec
	r := newRnd(s.Seed ^ 0x4EA1)
	series := s.Space == "dtw"
	data := vecs(r, s.NData, s.Dim, s.Grid, series)
	few := vecs(r, s.Dup, s.Dim, s.Grid, series) // the only values of the initial elements
	for i := range data {
		if s.Dup > 0 {
			data[i] = deep(core.Clust{few[r.Intn(s.Dup)]})[0]
		}
	}
	sp := w.newVec("A", r.pick(1, 2, 5))
	sp.fail = s.FailDist
	in := w.real("A", s.Algo, sp, w.initializer(), data, s.Frame, w.source(s.Seed))
	in.frame, in.available0 = s.Frame, len(data)
	in.mk = func() core.Elemt {
		if s.Dup > 0 && r.Intn(3) > 0 {
			return deep(core.Clust{few[r.Intn(s.Dup)]})[0]
		}
		return vecs(r, 1, s.Dim, s.Grid, series)[0]
	}
	in.watchReal()
	ts := w.spawnClients(w.realOp)
	if !w.conduct(ts, 6e9) {
		return
	}
	for _, in := range w.insts {
		w.finale(in)
		if w.viol == nil && s.Final == "run" {
			w.catchUp(in)
		}
	}
	w.quiesce()
}

// watchReal observes an instance of a real algorithm.
func (in *Inst) watchReal() {
	if in.w.spec.Algo == "mcmc" {
		in.watchMCMC()
	} else {
		in.wrap.preInit, in.wrap.preIter = in.checkModel, in.checkModel
	}
}

func (w *World) realOp(cl int, op Op) {
	if op.I >= len(w.insts) {
		return
	}
	in := w.insts[op.I]
	switch op.K {
	case "push":
		for i := 0; i < op.A && w.viol == nil; i++ {
			in.Push(cl, in.mk())
		}
	case "predict":
		r := newRnd(w.spec.Seed ^ uint64(op.A))
		in.PredictReal(cl, vecs(r, 1, w.spec.Dim, w.spec.Grid, w.spec.Space == "dtw")[0])
	case "copy":
		if w.spec.Algo != "streaming" {
			w.copyReal(cl)
		}
	default:
		w.clientOp(cl, op)
	}
}

// genAlgo draws a real algorithm and its data.
func (r *rnd) genAlgo(s *Spec) {
	s.Par = r.Chance(0.5)
	s.Dim = r.pick(1, 2, 2, 3)
	s.Space = r.str("", "", "euclid", "euclid", "cosinus", "dtw")
	if s.Space == "dtw" {
		s.Window = r.pick(0, 2, 4)
		s.Dim = r.pick(1, 2)
	}
	s.K = r.pick(1, 2, 2, 3, 4)
	s.NData = s.K + r.pick(-1, 0, 0, 1, 3, 7, 15)
	if s.Space == "dtw" && s.NData > 8 {
		s.NData = 8
	}
	s.NInit = r.str("given", "pp", "pp", "rand")
	s.Grid = r.Chance(0.2)
	switch s.Algo {
	case "mcmc":
		s.MaxK = s.K + r.pick(0, 0, 1, 2, 6)
		s.ProbaK = [][]float64{{1, 8, 1}, {1, 1, 1}, {1, 0, 1}, {0, 1, 1}, {1, 1, 0}, {3, 1, 6}}[r.Intn(6)]
		s.Amp = r.f(0, 0.01, 0.2, 1, 5)
		s.Distrib = r.str("dirac", "multivt", "multivt", "late")
		if s.Space == "dtw" {
			s.Distrib = "dirac"
		}
	case "streaming":
		s.Buf = 3 + s.NData + r.pick(0, 2, 10)
		s.Mu, s.Sigma = r.f(.02, .3, .5, .9), r.f(.05, .1, .4)
		s.OutR, s.OutAfter = r.f(1.5, 2, 3), r.pick(2, 3, 5)
	}
}

// genReal draws a scenario over a real algorithm.
func (r *rnd) genReal(prop string) *Spec {
	s := &Spec{Prop: prop, Kind: "real", Seed: r.Uint64()}
	r.genSim(s)
	s.Algo = r.str("kmeans", "kmeans", "mcmc", "mcmc", "streaming")
	if prop == "C15" {
		s.Algo = "mcmc"
	}
	if prop == "C14" || prop == "C06" {
		s.Algo = r.str("kmeans", "mcmc")
	}
	r.genAlgo(s)
	if s.Algo == "mcmc" && (prop == "C15" || r.Chance(.2)) {
		s.Extreme = r.f(0, 0, 0.003, 0.03, 0.2)
	}
	if r.Intn(6) == 0 {
		s.Dup = 1 + r.Intn(3)
	}
	s.Frame = r.pick(0, 0, 0, 2, 5, 9)
	s.Frame2 = r.pick(0, 0, 3, 7)
	s.Iter = r.pick(0, 1, 2, 3, 5, 12)
	if prop == "C15" {
		s.Iter = r.pick(0, 3, 5, 12, 25, 25)
	}
	s.IPD = r.pick(0, 0, 0, 1, 2)
	s.DPI = r.pick(0, 0, 0, 0, 1, 2)
	s.Freq = r.f(0, 0, 0, 50)
	s.Timeout = r.dur(0, 0, 0, 0, 50*ms, 300*ms)
	s.IterDur = r.dur(0, 0, ms, 7*ms, 40*ms)
	s.IterYield = r.Intn(3)
	if s.IterDur == 0 && s.Freq == 0 && (s.Iter == 0 || s.Algo == "streaming") {
		s.IterDur = r.dur(ms, 5*ms)
	}
	s.Notifier = r.str("", "", "", "fast", "status")
	s.Final = r.str("run", "stop", "stop")
	w := map[string]int{"init": 2, "play": 7, "pause": 3, "stop": 3, "wait": 2, "push": 9, "centroids": 8, "figures": 5, "predict": 8, "status": 2, "batch": 1, "sleep": 8, "yield": 5}
	switch prop {
	case "C14":
		w["copy"] = 6
	case "C18":
		w["copy"] = 2
		s.Race = true
		s.MaxSteps = 60000
	case "C15":
		w["centroids"], w["predict"], w["push"] = 2, 1, 12
	case "C06":
		s.FailDist = 1 + r.Intn(r.pick(10, 60, 300))
		if r.Chance(.7) {
			s.Par = true
		}
	}
	if prop == "C06" || r.Chance(0.25) {
		r.genFaults(s, .6, "init", "iter", "push")
	}
	nc, nop := 1+r.Intn(4), 3+r.Intn(8)
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < nop; i++ {
			op := r.genOp(s, w)
			if op.K == "push" {
				op.A = r.pick(1, 1, 2, 3)
			}
			ops = append(ops, op)
		}
		if c == 0 && r.Intn(4) != 0 {
			ops = append([]Op{{K: "push", A: 1}, {K: "play"}}, ops...)
		}
		s.Clients = append(s.Clients, ops)
	}
	return s
}

// ---- batch ----

// baseline executes the implementation directly, without the controller.
type baseline struct {
	w      *World
	conf   core.Conf
	impl   core.Impl
	space  core.Space
	cpu    int
	status core.OCStatus
}

func (w *World) newBaseline(algo string, data []core.Elemt, seq bool) *baseline {
	return w.newBaselineOf(algo, data, seq, w.spec.Frame, w.spec.Seed)
}

func (w *World) newBaselineOf(algo string, data []core.Elemt, seq bool, frame int, seed uint64) *baseline {
	s := w.spec
	b := &baseline{w: w, space: w.newVec("quiet", 0), cpu: s.NumCPU}
	if seq {
		b.cpu = 1
	}
	in := &Inst{w: w}
	conf := w.realConf(in, algo, frame, w.source(seed))
	in.ctrl.StatusNotifier, in.ctrl.Finishing = nil, nil
	switch c := conf.(type) {
	case *kmeans.Conf:
		c.NumCPU = b.cpu
		if seq {
			c.Par = false
		}
		b.impl = kmeans.NewAlgo(*c, b.space, data, w.initializer()).Impl()
	case *mcmc.Conf:
		c.NumCPU = b.cpu
		if seq {
			c.Par = false
		}
		b.impl = mcmc.NewAlgo(*c, b.space, data, w.initializer(), w.distrib(c.RGen)).Impl()
	case *streaming.Conf:
		b.impl = streaming.NewAlgo(*c, b.space, data).Impl()
	}
	b.conf = conf
	b.status = core.NewOCStatus(core.Created)
	return b
}

// run executes n iterations after an initialization.
func (b *baseline) run(n int) (c core.Clust, f core.RuntimeFigures, err error) {
	zzdst.WithNumCPU(b.cpu, func() {
		zzdst.Quiet(func() { c, f, err = b.exec(n) })
	})
	b.w.lastStep = zzdst.StepsNow()
	return
}

func (b *baseline) exec(n int) (c core.Clust, f core.RuntimeFigures, err error) {
	{
		model := func() core.OCModel {
			return core.NewSimpleOCModel(b.conf, b.space, core.NewOCStatus(core.Running), core.RuntimeFigures{}, c)
		}
		c, err = b.impl.Init(model())
		for i := 0; i < n && err == nil; i++ {
			var x core.Clust
			x, f, err = b.impl.Iterate(model())
			if x == nil {
				return
			}
			c = x
		}
	}
	return c, f, err
}

// push gives an element to the implementation, which executes nothing.
func (b *baseline) push(e core.Elemt) (err error) {
	zzdst.Quiet(func() {
		err = b.impl.Push(e, core.NewSimpleOCModel(b.conf, b.space, core.NewOCStatus(core.Finished), core.RuntimeFigures{}, nil))
	})
	return
}

// batchMain is the scenario about complete runs of real algorithms.
func (w *World) batchMain() {
	s := w.spec
	r := newRnd(s.Seed ^ 0xBA7C)
	series := s.Space == "dtw"
	data := vecs(r, s.NData, s.Dim, false, series)
	// expected results are computed first, while nothing else executes
	type outcome struct {
		clust, exact core.Clust
		figs         core.RuntimeFigures
		err          string
		iters, n     int
	}
	var want []outcome
	seqB, exB := w.newBaseline(s.Algo, data, true), w.newBaseline(s.Algo, data, false)
	all := append([]core.Elemt(nil), data...)
	pushed, first := 0, true
	var pushes []core.Elemt
	fresh := s.NInit == "given" && s.Algo == "kmeans"
	for _, op := range s.Clients[0] {
		switch op.K {
		case "push":
			for i := 0; i < op.A; i++ {
				e := vecs(r, 1, s.Dim, false, series)[0]
				pushes = append(pushes, e)
				all = append(all, e)
				pushed++
				m := core.NewSimpleOCModel(seqB.conf, seqB.space, core.NewOCStatus(core.Created), nil, nil)
				seqB.impl.Push(e, m)
				exB.impl.Push(e, m)
			}
		case "play", "init":
			first, pushed = false, 0
		case "batch":
			n := s.Iter
			if first { // elements pushed before the first life count
				n += pushed * s.IPD
			}
			first, pushed = false, 0
			if fresh { // earlier runs leave nothing but the data
				seqB, exB = w.newBaseline(s.Algo, all, true), w.newBaseline(s.Algo, all, false)
			}
			o := outcome{iters: n, n: len(all)}
			var err error
			o.clust, o.figs, err = seqB.run(n)
			o.err = canon(err)
			o.exact, _, _ = exB.run(n)
			want = append(want, o)
		}
	}
	zzdst.Sleep(1, zzdst.HarnessSite)
	sp := w.newVec("A", r.pick(1, 2, 5))
	in := w.real("A", s.Algo, sp, w.initializer(), data, s.Frame, w.source(s.Seed))
	in.frame, in.available0 = s.Frame, len(data)
	if s.Algo == "mcmc" {
		in.watchMCMC()
	}
	k, done, dirty := 0, false, false
	ts := w.spawnClients(func(cl int, op Op) {
		if w.viol != nil {
			return
		}
		if cl > 0 {
			if !done {
				w.realOp(cl, op)
			}
			return
		}
		switch op.K {
		case "push":
			for i := 0; i < op.A; i++ {
				in.Push(cl, pushes[0])
				pushes = pushes[1:]
			}
		case "batch":
			o := want[k]
			k++
			c := in.Batch(cl)
			got := in.Centroids(cl)
			f := in.Figures(cl)
			st := in.Status(cl)
			if st.Value != core.Finished {
				w.violate("batch", "the status after Batch is %v", st.Value)
				return
			}
			if e := canon(st.Error); c.Err != e && !(c.Err == "" && e == "E.timeout") { // a complete run may still time out before Batch returns
				w.violate("batch", "Batch returned %q but the status error is %q", c.Err, canon(st.Error))
				return
			}
			if o.err != "" {
				w.probe("batch-refused")
				if c.Err == "" || c.Err != o.err && !w.injected(c.Err) {
					w.violate("batch", "Batch returned %q instead of %q", c.Err, o.err)
				}
				return
			}
			if c.Err != "" {
				w.probe("batch-failed")
				dirty = !fresh // the generator has been used by a part of the run
				if c.Err != "E.timeout" && !w.injected(c.Err) {
					w.violate("batch", "Batch returned %q", c.Err)
				}
				return
			}
			if n := in.lifeIters(); n != o.iters {
				w.violate("batch", "Batch executed %d iterations instead of %d", n, o.iters)
				return
			}
			if f.Iter != o.iters {
				w.violate("batch", "after Batch the figures report %d iterations instead of %d", f.Iter, o.iters)
				return
			}
			if dirty {
				return
			}
			w.probe("batch-compared")
			if s.Space != "dtw" && !nearClust(got, o.clust, 1e-6) {
				w.violate("batch-result", "Batch gives %v instead of %v, obtained with one processor", got, o.clust)
				return
			}
			if !nearClust(got, o.exact, 1e-12) {
				w.violate("batch-result", "Batch gives %v instead of %v", got, o.exact)
				return
			}
			if s.Space != "dtw" && o.iters > 0 {
				for k, v := range o.figs {
					if !near(f.Figs[string(k)], v, 1e-6) {
						w.violate("batch-result", "after Batch the figure %v is %v instead of %v", k, f.Figs[string(k)], v)
						return
					}
				}
			}
		default:
			w.clientOp(cl, op)
		}
	})
	_ = fmt.Sprint
	if !w.join(ts, 120e9) {
		return
	}
	done = true
	w.finale(in)
	w.quiesce()
}

// lifeIters counts the iterations ended since the last initialization.
func (in *Inst) lifeIters() int {
	n := 0
	for i := len(in.evs) - 1; i >= 0 && in.evs[i].K != EvInitE; i-- {
		if in.evs[i].K == EvIterE {
			n++
		}
	}
	return n
}

func (w *World) injected(e string) bool { return len(e) > 4 && e[:4] == "inj#" }

func (r *rnd) genBatch(prop string) *Spec {
	s := &Spec{Prop: prop, Kind: "batch", Seed: r.Uint64()}
	r.genSim(s)
	s.Algo = r.str("kmeans", "kmeans", "mcmc", "mcmc", "streaming")
	r.genAlgo(s)
	s.Grid = false
	if s.Space == "cosinus" && s.Dim == 1 {
		s.Dim = 2
	}
	s.Iter = r.pick(1, 1, 2, 3, 5, 9)
	s.IPD = r.pick(0, 0, 0, 1)
	s.Frame = r.pick(0, 0, 0, s.K, s.K+3)
	s.Freq = r.f(0, 0, 0, 100)
	s.IterDur = r.dur(0, 0, ms, 7*ms, 40*ms)
	s.IterYield = r.Intn(3)
	s.InitDur = r.dur(0, 0, 0, 3*ms)
	if r.Intn(5) == 0 {
		s.Timeout = r.dur(5*ms, 30*ms, 100*ms, 400*ms)
	}
	if r.Chance(0.25) {
		r.genFaults(s, 1, "init", "iter")
	}
	s.Notifier = r.str("", "", "fast")
	s.Final = "stop"
	s.NumCPU = r.pick(1, 2, 3, 4, 7)
	var ops []Op
	fresh := s.NInit == "given" && s.Algo == "kmeans" && r.Intn(2) == 0
	if s.Algo == "streaming" {
		s.IPD, s.Frame = 0, 0
		s.NData = 1 + s.Iter + r.pick(0, 0, 3)
		s.Buf = s.NData + 40
	}
	nb := 1 + r.Intn(3)
	for b := 0; b < nb; b++ {
		if n := r.pick(0, 0, 1, 3); n > 0 {
			ops = append(ops, Op{K: "push", A: n})
		}
		if s.Algo == "streaming" && b > 0 { // enough for another run
			ops = append(ops, Op{K: "push", A: s.Iter + 1})
		}
		if r.Intn(4) == 0 {
			ops = append(ops, Op{K: "sleep", D: r.dur(ms, 30*ms, 100*ms)})
		}
		if fresh && r.Intn(2) == 0 {
			ops = append(ops, Op{K: r.str("play", "play", "init")})
			for i := r.Intn(3); i > 0; i-- {
				switch r.Intn(5) {
				case 0:
					ops = append(ops, Op{K: "sleep", D: r.dur(ms, 30*ms)})
				case 1:
					ops = append(ops, Op{K: "pause"})
				case 2:
					ops = append(ops, Op{K: "push", A: 1 + r.Intn(2)})
				case 3:
					ops = append(ops, Op{K: "yield", A: r.Intn(20)})
				case 4:
					ops = append(ops, Op{K: "stop"})
				}
			}
		}
		ops = append(ops, Op{K: "batch"})
	}
	s.Clients = [][]Op{ops}
	for c := r.Intn(3); c > 0; c-- {
		var ops []Op
		for i := 2 + r.Intn(6); i > 0; i-- {
			k := r.str("figures", "centroids", "predict", "status", "yield", "sleep")
			ops = append(ops, Op{K: k, A: r.Intn(8), D: r.dur(ms, 10*ms)})
			if k != "sleep" {
				ops[len(ops)-1].D = 0
			}
		}
		s.Clients = append(s.Clients, ops)
	}
	return s
}
