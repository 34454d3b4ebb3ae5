//go:build go1.21

package main

import (
	"fmt"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/zzdst"
)

// lateDist is the distribution built by a late distribution under test.
type lateDist struct {
	w     *World
	id    int
	ready bool
	uses  int
	r     rnd
}

func (d *lateDist) use() {
	if !d.ready {
		d.w.violate("late-early", "a distribution is used before its construction completed")
	}
	d.uses++
	if d.uses%2 == 0 {
		zzdst.Yield()
	}
}

func (d *lateDist) Sample(mu core.Elemt, time int) core.Elemt {
	d.use()
	return []float64{float64(d.id), mu.([]float64)[0] + float64(time)}
}

func (d *lateDist) Pdf(x, mu core.Elemt, time int) float64 {
	d.use()
	return float64(d.id)*1e6 + x.([]float64)[0]*1e3 + mu.([]float64)[0] + float64(time)*.25
}

// late is a late distribution and what the harness knows about it.
type late struct {
	d      *mcmc.LateDistrib
	built  []*lateDist
	open   int
	opened map[*float64]bool // first elements of the calls in progress
	done   int               // calls completed
}

func (w *World) newLate(builds *int) *late {
	s := w.spec
	l := &late{opened: map[*float64]bool{}}
	l.d = mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
		*builds++
		d := &lateDist{w: w, id: *builds}
		l.built = append(l.built, d)
		l.open++
		if len(l.built) > 1 {
			w.violate("late-twice", "the distribution is built %d times", len(l.built))
		}
		if l.done > 0 {
			w.violate("late-early", "a call was answered before the distribution was built")
		}
		v, ok := e.([]float64)
		if !ok || len(v) == 0 || !l.opened[&v[0]] {
			w.violate("late-element", "the distribution is built from %v, which no call in progress was given", e)
		}
		w.work(s.InitYield, s.InitDur)
		d.ready = true
		l.open--
		return d
	})
	return l
}

// lateMain is the scenario about the first use of a late distribution.
func (w *World) lateMain() {
	s := w.spec
	builds := 0
	ls := []*late{w.newLate(&builds), w.newLate(&builds)}
	n := 0
	ts := w.spawnClients(func(cl int, op Op) {
		if w.viol != nil {
			return
		}
		switch op.K {
		case "yield":
			for i := 0; i < op.A; i++ {
				zzdst.Yield()
			}
			return
		case "sleep":
			zzdst.Sleep(op.D, zzdst.HarnessSite)
			return
		}
		l := ls[op.I%2]
		n++
		x, mu := []float64{float64(n)}, []float64{float64(n) + .5}
		c := &Call{N: len(w.calls), Client: cl, Kind: op.K}
		w.calls = append(w.calls, c)
		w.logf("%s calls %s", zzdst.CurName(), op.K)
		l.opened[&x[0]], l.opened[&mu[0]] = true, true
		// the argument whose first use may build the distribution: either one
		var id int
		switch op.K {
		case "sample":
			v, ok := l.d.Sample(mu, op.A).([]float64)
			if !ok || len(v) != 2 || v[1] != mu[0]+float64(op.A) {
				w.violate("late-answer", "Sample(%v, %d) answered %v", mu, op.A, v)
				return
			}
			id = int(v[0])
		case "pdf":
			v := l.d.Pdf(x, mu, op.A)
			id = int(v / 1e6)
			if v != float64(id)*1e6+x[0]*1e3+mu[0]+float64(op.A)*.25 {
				w.violate("late-answer", "Pdf(%v, %v, %d) answered %v", x, mu, op.A, v)
				return
			}
		}
		w.logf("%s is answered by distribution %d", zzdst.CurName(), id)
		l.done++
		w.lastStep = zzdst.StepsNow()
		c.Done = true
		delete(l.opened, &x[0])
		delete(l.opened, &mu[0])
		if len(l.built) != 1 || l.built[0].id != id {
			w.violate("late-answer", "a call is answered by distribution %d among %d built", id, len(l.built))
		}
		zzdst.HashEvent(uint64(id))
	})
	if !w.join(ts, 120e9) {
		return
	}
	for _, l := range ls {
		if l.done > 1 {
			w.probe("shared-first-use")
		}
		if l.done > 0 && len(l.built) != 1 {
			w.violate("late-twice", "%d distributions were built", len(l.built))
		}
	}
	_ = s
	_ = fmt.Sprint
}

func (r *rnd) genLate(prop string) *Spec {
	s := &Spec{Prop: prop, Kind: "late", Seed: r.Uint64()}
	r.genSim(s)
	s.Race = prop == "C13" && r.Chance(0.5) || prop == "C18"
	s.InitYield = r.Intn(6)
	s.InitDur = r.dur(0, 0, ms, 30*ms)
	nc := 2 + r.Intn(4)
	for c := 0; c < nc; c++ {
		var ops []Op
		if r.Intn(3) == 0 {
			ops = append(ops, Op{K: "yield", A: 1 + r.Intn(8)})
		}
		if r.Intn(6) == 0 {
			ops = append(ops, Op{K: "sleep", D: r.dur(0, ms, 29*ms, 30*ms)})
		}
		for i := 1 + r.Intn(4); i > 0; i-- {
			ops = append(ops, Op{K: r.str("sample", "pdf"), A: 1 + r.Intn(5), I: r.pick(0, 0, 0, 1)})
		}
		s.Clients = append(s.Clients, ops)
	}
	return s
}
