//go:build go1.21

package main

import (
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/zzdst"
)

// isoMain is the scenario about the independence of an instance and its copy: one of
// them, the victim, executes batches over fixed data while the other one is driven at
// will, with failures. The victim must obtain what an instance of its own obtains.
func (w *World) isoMain() {
	s := w.spec
	r := newRnd(s.Seed ^ 0x150)
	series := s.Space == "dtw"
	data := vecs(r, s.NData, s.Dim, false, series)
	type outcome struct {
		clust core.Clust
		figs  core.RuntimeFigures
		err   string
		n     int
	}
	var want []outcome
	seed, add := s.Seed, 0
	if s.Victim == "B" {
		seed++
		add = 2 // see copyReal
	}
	base := w.newBaselineOf(s.Algo, data, false, 0, seed)
	for _, op := range s.Clients[0] {
		if op.K == "batch" {
			o := outcome{n: s.Iter + add}
			var err error
			o.clust, o.figs, err = base.run(o.n)
			o.err = canon(err)
			want = append(want, o)
		}
	}
	zzdst.Sleep(1, zzdst.HarnessSite)
	sp := w.newVec("A", r.pick(3, 8, 25))
	if s.Victim == "B" {
		sp.fail = s.FailDist
	}
	a := w.real("A", s.Algo, sp, w.initializer(), data, 0, w.source(s.Seed))
	a.available0 = len(data)
	a.mk = func() core.Elemt { return vecs(r, 1, s.Dim, false, series)[0] }
	a.watchReal()
	if s.Victim == "B" {
		if r.Intn(2) == 0 {
			a.Play(0)
			zzdst.Sleep(time.Duration(r.Intn(9))*ms, zzdst.HarnessSite)
		}
		w.copyReal(0)
	} else if r.Intn(2) == 0 {
		w.copyReal(0)
	}
	k := 0
	ts := w.spawnClients(func(cl int, op Op) {
		if w.viol != nil {
			return
		}
		if cl > 0 { // the other instance
			op.I = 1
			if s.Victim == "B" {
				op.I = 0
			}
			if op.K == "copy" {
				if s.Victim == "A" {
					w.copyReal(cl)
				}
				return
			}
			w.realOp(cl, op)
			return
		}
		if op.K == "copy" {
			if s.Victim == "A" {
				w.copyReal(cl)
			}
			return
		}
		in := w.insts[0]
		if s.Victim == "B" {
			in = w.insts[1]
		}
		switch op.K {
		case "batch":
			o := want[k]
			k++
			c := in.Batch(cl)
			got := in.Centroids(cl)
			f := in.Figures(cl)
			if c.Err != o.err {
				w.violate("iso-error", "Batch of %s returned %q instead of %q while only its relative %s was used", in.name, c.Err, o.err, w.other(in))
				return
			}
			if o.err != "" {
				return
			}
			w.probe("iso-compared")
			if len(w.insts) > 1 {
				w.probe("iso-compared-after-copy")
			}
			if !nearClust(got, o.clust, 1e-12) {
				w.violate("iso-result", "Batch of %s gives %v instead of %v, obtained without its relative %s", in.name, got, o.clust, w.other(in))
				return
			}
			if f.Iter != o.n || f.Pushed != 0 {
				w.violate("iso-figures", "after Batch of %s the figures report %d iterations and %d elements instead of %d and 0", in.name, f.Iter, f.Pushed, o.n)
				return
			}
			if s.Space != "dtw" {
				for k, v := range o.figs {
					if !near(f.Figs[string(k)], v, 1e-9) {
						w.violate("iso-figures", "after Batch of %s the figure %v is %v instead of %v", in.name, k, f.Figs[string(k)], v)
						return
					}
				}
			}
		default:
			w.clientOp(cl, op)
		}
	})
	if !w.join(ts, 300e9) {
		return
	}
	for _, in := range w.insts {
		w.finale(in)
	}
	w.quiesce()
}

// other names the relative of an instance.
func (w *World) other(in *Inst) string {
	if in.name == "A" {
		return "B"
	}
	return "A"
}

func (r *rnd) genIso(prop string) *Spec {
	s := &Spec{Prop: prop, Kind: "iso", Seed: r.Uint64()}
	r.genSim(s)
	s.Algo = r.str("kmeans", "mcmc", "mcmc")
	r.genAlgo(s)
	s.Grid, s.Distrib = false, "dirac"
	if s.Space == "cosinus" && s.Dim == 1 {
		s.Dim = 2
	}
	if s.Algo == "mcmc" {
		if s.Space == "dtw" {
			s.Space, s.Window = "", 0
		}
		s.MaxK = s.K + r.pick(1, 2, 4)
		s.ProbaK = [][]float64{{1, 8, 1}, {1, 1, 1}, {1, 0, 1}}[r.Intn(3)]
		s.NData = s.MaxK + r.pick(0, 3, 6)
	}
	s.Iter = r.pick(2, 3, 5, 9)
	s.IterDur = r.dur(0, 0, ms, 7*ms)
	s.IterYield = r.Intn(3)
	s.Notifier = r.str("", "", "fast")
	s.Final = "stop"
	s.Victim = r.str("A", "A", "B")
	r.genFaults(s, .5, "init", "iter", "push")
	s.FailDist = r.pick(0, 0, 0, 30, 200)
	var ops []Op
	for b := 1 + r.Intn(3); b > 0; b-- {
		if r.Intn(3) == 0 {
			ops = append(ops, Op{K: r.str("sleep", "copy", "yield"), D: r.dur(ms, 30*ms), A: r.Intn(9)})
		}
		ops = append(ops, Op{K: "batch"})
	}
	s.Clients = [][]Op{ops}
	w := map[string]int{"init": 2, "play": 8, "pause": 3, "stop": 3, "push": 9, "centroids": 2, "figures": 1, "predict": 2, "batch": 2, "sleep": 8, "yield": 3}
	for c := 1 + r.Intn(2); c > 0; c-- {
		var o []Op
		if s.Victim == "A" && r.Intn(3) > 0 {
			o = append(o, Op{K: "yield", A: r.Intn(12)}, Op{K: "copy"})
		}
		for i := 3 + r.Intn(8); i > 0; i-- {
			op := r.genOp(s, w)
			if op.K == "push" {
				op.A = r.pick(1, 1, 3)
			}
			o = append(o, op)
		}
		s.Clients = append(s.Clients, o)
	}
	return s
}
