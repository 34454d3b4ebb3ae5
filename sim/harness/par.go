//go:build go1.21

package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/zzdst"
)

// newVec makes a space of vectors of the kind asked by the spec.
func (w *World) newVec(tag string, every int) *vecSpace {
	s := &vecSpace{w: w, tag: tag, every: every}
	switch w.spec.Space {
	case "euclid":
		s.inner = euclid.NewSpace()
	case "cosinus":
		s.inner = cosinus.NewSpace()
	case "dtw":
		s.inner = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace(), Window: w.spec.Window})
	}
	return s
}

// vecs draws n vectors, or series of vectors; on a grid many distances are equal.
func vecs(r *rnd, n, dim int, grid, series bool) []core.Elemt {
	l := make([]core.Elemt, n)
	for i := range l {
		if series {
			v := make([][]float64, r.pick(2, 3, 3, 5))
			for j := range v {
				v[j] = vecs(r, 1, dim, grid, false)[0].([]float64)
			}
			l[i] = v
			continue
		}
		v := make([]float64, dim)
		for j := range v {
			if grid {
				v[j] = float64(1 + r.Intn(4))
			} else {
				v[j] = r.Float()*20 - 6
			}
		}
		l[i] = v
	}
	return l
}

// parSet is a set of elements, centroids and labels shared by the clients.
type parSet struct {
	data   []core.Elemt
	clust  core.Clust
	labels []int
	data0  core.Clust
	clust0 core.Clust
	label0 []int
}

// parRes is what an operation returned.
type parRes struct {
	labels []int
	cards  []int
	vals   []float64
	elems  []core.Elemt
	scalar float64
}

// parMain is the scenario about the parallel operations.
func (w *World) parMain() {
	s := w.spec
	r := newRnd(s.Seed ^ 0xABCD)
	var sets []*parSet
	for i := 0; i < 2; i++ {
		n := s.NData
		if i == 1 {
			n = r.pick(0, 1, 2, 3, n+1)
		}
		p := &parSet{}
		p.data = vecs(r, n, s.Dim, s.Grid, s.Space == "dtw")
		p.clust = core.Clust(vecs(r, s.K, s.Dim, s.Grid, s.Space == "dtw"))
		if s.Grid && s.K > 2 && r.Intn(2) == 0 {
			p.clust[s.K-1] = deep(core.Clust{p.clust[0]})[0] // equal centroids: ties and an empty cluster
		}
		for range p.data {
			p.labels = append(p.labels, r.Intn(s.K))
		}
		if r.Intn(3) == 0 || n > 300 && r.Intn(2) == 0 { // data in the order of the clusters: most workers see only some of these
			sort.SliceStable(p.data, func(i, j int) bool { return fmt.Sprint(p.data[i]) < fmt.Sprint(p.data[j]) })
			sort.Ints(p.labels)
			if r.Intn(2) == 0 {
				sort.Sort(sort.Reverse(sort.IntSlice(p.labels)))
			}
		}
		p.data0, p.clust0 = deep(p.data), deep(p.clust)
		p.label0 = append([]int(nil), p.labels...)
		sets = append(sets, p)
	}
	ts := w.spawnClients(func(cl int, op Op) {
		if w.viol != nil {
			return
		}
		c := &Call{N: len(w.calls), Client: cl, Kind: op.K}
		w.calls = append(w.calls, c)
		w.parOp(cl, op, sets[op.I%2])
		w.lastStep = zzdst.StepsNow()
		c.Done = true
	})
	if !w.join(ts, 120e9) {
		return
	}
	for _, p := range sets {
		if !same(p.data, p.data0) || !same(p.clust, p.clust0) || fmt.Sprint(p.labels) != fmt.Sprint(p.label0) {
			w.violate("par-input", "a parallel operation modified its arguments")
		}
	}
	zzdst.StartDrain()
	zzdst.Sleep(1e9, zzdst.HarnessSite)
	if n := zzdst.LibTasks(); n > 0 && w.viol == nil {
		w.violate("workers-left", "%d workers remain after all operations returned: %v", n, zzdst.LibTaskNames())
	}
}

// join waits for tasks that need no help to finish.
func (w *World) join(ts []*zzdst.Task, max int64) bool {
	limit := zzdst.Now() + max
	for !allDone(ts) {
		if w.viol != nil {
			return false
		}
		if zzdst.Now() > limit {
			zzdst.StartDrain()
		}
		if zzdst.Now() > 2*limit {
			w.violate("stuck", "calls do not return; tasks:\n%s", zzdst.DumpNow())
			return false
		}
		zzdst.Sleep(5*ms, zzdst.HarnessSite)
	}
	return w.viol == nil
}

func (w *World) parOp(cl int, op Op, p *parSet) {
	s := w.spec
	deg := op.A
	if deg < 1 {
		deg = 1
	}
	what := fmt.Sprintf("%s of %d elements, %d centroids, degree %d", op.K, len(p.data), len(p.clust), deg)
	w.probe("par-" + op.K)
	if deg > len(p.data) {
		w.probe("degree-above-size")
	}
	if op.K == "par" {
		w.parCover(what, len(p.data), deg)
		return
	}
	var prev *parRes
	quiet := &vecSpace{w: w, inner: w.newVec("", 0).inner}
	var want *parRes
	zzdst.Quiet(func() { want = w.parEval(op.K, p, quiet, deg, false) })
	for i := 0; i < 2 && w.viol == nil; i++ {
		sp := w.newVec("par", 1+(cl+i)%3)
		w.lastStep = zzdst.StepsNow()
		sp.bound = 1000 + 20*len(p.data)*(len(p.data)+len(p.clust))
		sp.fail = int(op.D)
		got, failed := w.parTry(op.K, p, sp, deg)
		if sp.open != 0 {
			w.violate("workers-left", "%s returned while %d of its evaluations were in progress", what, sp.open)
			return
		}
		calls := sp.n
		for j := 0; j < 6; j++ {
			zzdst.Yield()
		}
		if sp.n != calls || sp.open != 0 {
			w.violate("workers-left", "%s: a worker goes on after the return", what)
			return
		}
		if failed != "" || sp.raised {
			w.probe("par-failures")
			if failed == "" {
				w.violate("hidden-failure", "%s succeeds although an evaluation panicked", what)
				return
			}
			if !w.injected(failed) {
				w.violate("par-result", "%s panics: %s", what, failed)
				return
			}
			continue
		}
		if s.Space == "dtw" { // averaging series is not associative
			want.elems, want.scalar = got.elems, got.scalar
		}
		if d := want.diff(got, 1e-9, op.K == "dba"); d != "" {
			w.violate("par-result", "%s differs from the sequential result: %s", what, d)
			return
		}
		if prev != nil {
			if d := prev.diff(got, 0, false); d != "" {
				w.violate("par-repeat", "%s: two executions differ: %s", what, d)
				return
			}
		}
		zzdst.HashEvent(uint64(got.scalar*1e6) ^ uint64(len(got.labels)+len(got.vals)))
		prev = got
	}
}

// parTry evaluates an operation in parallel, and tells how it failed.
func (w *World) parTry(k string, p *parSet, sp core.Space, deg int) (r *parRes, failed string) {
	defer func() {
		if f := recover(); f != nil {
			failed = canon(fmt.Errorf("%v", f))
		}
	}()
	return w.parEval(k, p, sp, deg, true), ""
}

// parCover checks the partition made by core.Par.
func (w *World) parCover(what string, n, deg int) {
	count := make([]int, n)
	ranks := make([]int, deg)
	open := 0
	core.Par(func(start, end, rank int) {
		open++
		zzdst.Yield()
		if start < 0 || end > n || start > end {
			w.violate("par-cover", "%s: part [%d,%d) of rank %d", what, start, end, rank)
			return
		}
		if rank < 0 || rank >= deg {
			w.violate("par-cover", "%s: rank %d", what, rank)
			return
		}
		ranks[rank]++
		for i := start; i < end; i++ {
			count[i]++
			if i%3 == 0 {
				zzdst.Yield()
			}
		}
		open--
	}, n, deg)
	if w.viol != nil {
		return
	}
	if open != 0 {
		w.violate("workers-left", "%s returned while %d parts were in progress", what, open)
		return
	}
	for i, c := range count {
		if c != 1 {
			w.violate("par-cover", "%s: item %d was processed %d times", what, i, c)
			return
		}
	}
	for i, c := range ranks {
		if c > 1 {
			w.violate("par-cover", "%s: rank %d was used %d times", what, i, c)
			return
		}
	}
}

// parEval evaluates an operation, in parallel or sequentially.
func (w *World) parEval(k string, p *parSet, sp core.Space, deg int, par bool) *parRes {
	r := &parRes{}
	norm := w.spec.Norm
	iters := 2
	if w.spec.Grid || w.spec.Space == "cosinus" { // equal distances may be told apart by rounding after one iteration
		iters = 1
	}
	clust := p.clust
	switch k {
	case "label":
		if par {
			r.labels, r.vals = clust.ParMapLabel(p.data, sp, deg)
		} else {
			r.labels, r.vals = clust.MapLabel(p.data, sp)
		}
	case "dba":
		if par {
			r.elems, r.cards = clust.ParReduceDBA(p.data, sp, deg)
		} else {
			r.elems, r.cards = clust.ReduceDBA(p.data, sp)
		}
	case "dbal":
		if par {
			r.elems, r.cards = clust.ParReduceDBAForLabels(p.data, p.labels, sp, deg)
		} else {
			r.elems, r.cards = clust.ReduceDBAForLabels(p.data, p.labels, sp)
		}
	case "loss":
		if par {
			r.vals, r.cards = clust.ParReduceLoss(p.data, sp, norm, deg)
		} else {
			r.vals, r.cards = clust.ReduceLoss(p.data, sp, norm)
		}
	case "lossl":
		if par {
			r.vals, r.cards = clust.ParReduceLossForLabels(p.data, p.labels, sp, norm, deg)
		} else {
			r.vals, r.cards = clust.ReduceLossForLabels(p.data, p.labels, sp, norm)
		}
	case "total":
		if par {
			r.scalar = clust.ParTotalLoss(p.data, sp, norm, deg)
		} else {
			r.scalar = clust.TotalLoss(p.data, sp, norm)
		}
	case "kmeans":
		if par {
			st := kmeans.ParStrategy{Degree: deg}
			r.elems = st.Iterate(sp, clust, p.data)
		} else {
			r.elems = (&kmeans.SeqStrategy{}).Iterate(sp, clust, p.data)
		}
	case "mcmc":
		conf := mcmc.Conf{Norm: norm}
		if par {
			st := &mcmc.ParStrategy{Degree: deg}
			r.scalar = st.Loss(conf, sp, clust, p.data)
			if len(p.data) > 0 {
				r.elems = st.Iterate(conf, sp, clust, p.data, iters)
			}
		} else {
			st := &mcmc.SeqStrategy{}
			r.scalar = st.Loss(conf, sp, clust, p.data)
			if len(p.data) > 0 {
				var c core.Clust = clust
				for i := 0; i < iters; i++ {
					c = (&kmeans.SeqStrategy{}).Iterate(sp, c, p.data)
				}
				r.elems = c
			}
		}
	}
	return r
}

// diff compares two results; with empty, the barycentre of an empty cluster is free.
func (a *parRes) diff(b *parRes, tol float64, empty bool) string {
	if fmt.Sprint(a.labels) != fmt.Sprint(b.labels) {
		return fmt.Sprintf("labels %v and %v", a.labels, b.labels)
	}
	if fmt.Sprint(a.cards) != fmt.Sprint(b.cards) {
		return fmt.Sprintf("cardinals %v and %v", a.cards, b.cards)
	}
	if len(a.vals) != len(b.vals) {
		return fmt.Sprintf("values %v and %v", a.vals, b.vals)
	}
	for i := range a.vals {
		if !near(a.vals[i], b.vals[i], tol) {
			return fmt.Sprintf("values %v and %v", a.vals, b.vals)
		}
	}
	if !near(a.scalar, b.scalar, tol) {
		return fmt.Sprintf("losses %v and %v", a.scalar, b.scalar)
	}
	if len(a.elems) != len(b.elems) {
		return fmt.Sprintf("barycentres %v and %v", a.elems, b.elems)
	}
	for i := range a.elems {
		if empty && i < len(a.cards) && a.cards[i] == 0 {
			continue
		}
		if !nearElt(a.elems[i], b.elems[i], tol) {
			return fmt.Sprintf("barycentres %v and %v", a.elems, b.elems)
		}
	}
	return ""
}

func near(a, b, tol float64) bool {
	if a == b || a != a && b != b {
		return true
	}
	return math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b))
}

func nearElt(a, b core.Elemt, tol float64) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if u, ok := a.([][]float64); ok {
		v, ok := b.([][]float64)
		if !ok || len(u) != len(v) {
			return false
		}
		for i := range u {
			if !nearElt(u[i], v[i], tol) {
				return false
			}
		}
		return true
	}
	x, ok1 := a.([]float64)
	y, ok2 := b.([]float64)
	if !ok1 || !ok2 {
		return a == b
	}
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !near(x[i], y[i], tol) {
			return false
		}
	}
	return true
}

func nearClust(a, b core.Clust, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !nearElt(a[i], b[i], tol) {
			return false
		}
	}
	return true
}

// genPar draws a scenario about the parallel operations.
func (r *rnd) genPar(prop string) *Spec {
	s := &Spec{Prop: prop, Kind: "par", Seed: r.Uint64()}
	r.genSim(s)
	s.NData = r.pick(0, 1, 2, 3, 4, 5, 7, 8, 11, 16, 23, 40)
	s.Dim = r.pick(1, 2, 3)
	s.K = r.pick(1, 2, 3, 5)
	s.Grid = r.Chance(0.5)
	s.Space = r.str("", "", "euclid", "cosinus", "dtw")
	if s.Space == "dtw" {
		s.Window = r.pick(0, 2, 4)
		s.Dim = r.pick(1, 2)
		s.K = r.pick(1, 2)
		if s.NData > 9 {
			s.NData = 9
		}
	}
	s.Norm = r.f(1, 2, 2, 3)
	nc := 1 + r.Intn(3)
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 1 + r.Intn(3); i > 0; i-- {
			op := Op{K: r.str("par", "label", "dba", "dbal", "loss", "lossl", "total", "kmeans", "mcmc"), A: r.pick(1, 2, 2, 3, 3, 4, 5, 7, 8, 13, 50), I: r.pick(0, 0, 0, 1)}
			if r.Intn(6) == 0 {
				op.D = time.Duration(1 + r.Intn(r.pick(3, 20, 80)))
			}
			ops = append(ops, op)
		}
		s.Clients = append(s.Clients, ops)
	}
	return s
}
