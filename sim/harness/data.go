//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"math"
	"time"

	xrand "golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"github.com/wearelumenai/distclus/zzdst"
)

// ids is an element made of an ordered list of identifiers: combining elements
// concatenates them, so that a single centroid tells the whole data set in order.
type ids []int32

// idSpace is the space of ids elements.
type idSpace struct {
	w   *World
	tag string
	n   int
}

func (s *idSpace) pause() {
	s.n++
	if s.n%7 == 0 {
		zzdst.Yield()
	}
}

func (s *idSpace) Dist(a, b core.Elemt) float64 { s.pause(); return 1 }
func (s *idSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	s.pause()
	x, y := a.(ids), b.(ids)
	if wa != len(x) || wb != len(y) {
		s.w.violate("weights", "elements of %d and %d data are combined with weights %d and %d", len(x), len(y), wa, wb)
	}
	r := make(ids, 0, len(x)+len(y))
	return append(append(r, x...), y...)
}
func (s *idSpace) Copy(e core.Elemt) core.Elemt {
	s.pause()
	x := e.(ids)
	return append(make(ids, 0, len(x)), x...)
}
func (s *idSpace) Dim(l []core.Elemt) int { return 1 }

// dataset is the data an initialization or iteration worked on.
type dataset struct {
	seq  uint64 // when the step began
	end  uint64 // and ended
	init bool
	n    int
	list ids
	skip bool // the step kept the previous result: its data are unknown
}

// real makes an instance of a real algorithm behind the recording wrapper.
func (w *World) real(name, algo string, space core.Space, ini core.Initializer, data []core.Elemt, frame int, src xrand.Source) *Inst {
	in := w.newInst(name)
	in.impl = algo
	conf, impl := w.realImpl(in, algo, ini, data, frame, src)
	in.conf, in.space = conf, space
	in.wrap = &wrap{w: w, in: in, inner: impl}
	in.algo = core.NewAlgo(conf, in.wrap, space)
	return in
}

// realConf makes the configuration of an instance of a real algorithm.
func (w *World) realConf(in *Inst, algo string, frame int, src xrand.Source) core.Conf {
	s := w.spec
	rg := xrand.New(src)
	switch algo {
	case "kmeans":
		c := &kmeans.Conf{Par: s.Par, K: s.K, FrameSize: frame, RGen: rg, NumCPU: s.NumCPU}
		in.setCtrl(&c.CtrlConf)
		in.ctrl = &c.CtrlConf
		return c
	case "mcmc":
		c := &mcmc.Conf{Par: s.Par, InitK: s.K, FrameSize: frame, RGen: rg, NumCPU: s.NumCPU, MaxK: s.MaxK, ProbaK: s.ProbaK, Amp: s.Amp, B: 1, Norm: 2}
		in.setCtrl(&c.CtrlConf)
		in.ctrl = &c.CtrlConf
		return c
	case "streaming":
		c := &streaming.Conf{BufferSize: s.Buf, Mu: s.Mu, Sigma: s.Sigma, OutRatio: s.OutR, OutAfter: s.OutAfter, RGen: rg}
		in.setCtrl(&c.CtrlConf)
		in.ctrl = &c.CtrlConf
		return c
	}
	panic("unknown algorithm " + algo)
}

func (w *World) realImpl(in *Inst, algo string, ini core.Initializer, data []core.Elemt, frame int, src xrand.Source) (core.Conf, core.Impl) {
	c := w.realConf(in, algo, frame, src)
	switch v := c.(type) {
	case *kmeans.Conf:
		return c, kmeans.NewAlgo(*v, nil, data, ini).Impl()
	case *mcmc.Conf:
		return c, mcmc.NewAlgo(*v, nil, data, ini, w.distrib(src)).Impl()
	case *streaming.Conf:
		return c, streaming.NewAlgo(*v, nil, data).Impl()
	}
	panic("unknown configuration")
}

// idsInit is the initializer of the data scenario: it records the data it is given.
func (w *World) idsInit(in **Inst) core.Initializer {
	return func(k int, elemts []core.Elemt, space core.Space, src *xrand.Rand) (core.Clust, error) {
		zzdst.Yield()
		var l ids
		for _, e := range elemts {
			l = append(l, e.(ids)...)
		}
		i := w.running[zzdst.CurName()]
		if i == nil {
			i = *in
		}
		i.initData = l
		if len(l) == 0 {
			return nil, errors.New("no data")
		}
		return core.Clust{append(make(ids, 0, 8), l[0])}, nil
	}
}

// observe records the data sets the implementation works on.
func (in *Inst) observe() {
	x := in.wrap
	w := in.w
	x.preInit = func(m core.OCModel) {
		in.initData, in.lastAcc = nil, 0
		w.running[zzdst.CurName()] = in
		in.opened = in.evs[len(in.evs)-1].Seq
		in.checkModel(m)
	}
	x.preIter = func(m core.OCModel) {
		in.opened = in.evs[len(in.evs)-1].Seq
		in.checkModel(m)
	}
	x.onInit = func(m core.OCModel, c core.Clust, err error) {
		in.sets2 = append(in.sets2, dataset{seq: in.opened, end: zzdst.Seq(1), init: true, n: in.inits, list: in.initData})
	}
	x.onIter = func(m core.OCModel, c core.Clust, f core.RuntimeFigures, err error) {
		if err == nil && len(c) == 1 {
			l, ok := c[0].(ids)
			if !ok {
				w.violate("data", "%s: an iteration produced %v", in.name, c[0])
				return
			}
			d := dataset{seq: in.opened, end: zzdst.Seq(2), n: in.iterB, list: append(ids(nil), l...)}
			if acc, ok := f[mcmc.Acceptations]; ok {
				if d.skip = acc == in.lastAcc; d.skip {
					w.probe("rejected-proposals")
				}
				in.lastAcc = acc
			}
			in.sets2 = append(in.sets2, d)
		}
	}
	x.onCopy = func(m core.OCModel, inner core.Impl) core.Impl { return inner }
}

// checkModel verifies that an implementation is given the model of its instance.
func (in *Inst) checkModel(m core.OCModel) {
	if in.conf != nil && m.Conf() != in.conf {
		in.w.violate("copy-conf", "%s works with another configuration than the given one", in.name)
	}
	if in.space != nil && m.Space() != in.space {
		in.w.violate("copy-space", "%s works with another space than the given one", in.name)
	}
}

func (w *World) newIds() core.Elemt {
	w.left++
	return ids{int32(w.left)}
}

// dataMain is the scenario about the data set: lists of identifiers, one cluster.
func (w *World) dataMain() {
	s := w.spec
	// the caller's slice has room for more, and is used for something else afterwards
	backing := make([]core.Elemt, s.NData+4)
	data := backing[:s.NData]
	for i := range data {
		data[i] = w.newIds()
	}
	var in *Inst
	ini := w.idsInit(&in)
	in = w.real("A", s.Algo, &idSpace{w: w, tag: "A"}, ini, data, s.Frame, xrand.NewSource(s.Seed))
	in.frame = s.Frame
	for _, e := range data {
		in.initial = append(in.initial, e.(ids)[0])
	}
	for i := range backing {
		backing[i] = ids{int32(900000 + i)}
	}
	in.observe()
	in.mk = w.newIds
	ts := w.spawnClients(w.dataOp)
	if !w.conduct(ts, 6e9) {
		return
	}
	for _, in := range w.insts {
		w.finale(in)
		if w.viol == nil && s.Final == "run" {
			w.catchUp(in)
		}
	}
	w.quiesce()
	for i := range backing {
		if l, ok := backing[i].(ids); !ok || len(l) != 1 || l[0] != int32(900000+i) {
			w.violate("data-altered", "the slice of initial elements given by the caller is modified: [%d] = %v", i, backing[i])
		}
	}
	if w.viol == nil {
		for _, in := range w.insts {
			in.checkData()
		}
	}
}

// catchUp starts the instance again, so that everything pushed must be used.
func (w *World) catchUp(in *Inst) {
	st := in.Status(70)
	if st.Value == core.Running || st.Value == core.Idle {
		in.Stop(70)
	}
	if e := in.Init(70); e == "" {
		in.Play(70)
	}
	in.settle(2e9)
	in.Stop(70)
}

// dataOp executes a client operation of the scenarios with real algorithms.
func (w *World) dataOp(cl int, op Op) {
	if op.I >= len(w.insts) {
		return
	}
	in := w.insts[op.I]
	switch op.K {
	case "push":
		n := op.A
		if n < 1 {
			n = 1
		}
		for i := 0; i < n && w.viol == nil; i++ {
			in.Push(cl, in.mk())
		}
	case "copy":
		w.copyReal(cl)
	case "predict":
	default:
		w.clientOp(cl, op)
	}
}

// copyReal copies the instance under test with another configuration and space.
func (w *World) copyReal(cl int) {
	if len(w.insts) > 1 || w.copying {
		return
	}
	w.copying = true
	s := w.spec
	in := w.insts[0]
	b := &Inst{w: w, name: "B", impl: in.impl, sets: map[int32]core.Clust{}, vals: map[string]int32{}, parent: in, frame: s.Frame2, mk: in.mk}
	conf := w.realConf(b, s.Algo, s.Frame2, xrand.NewSource(s.Seed+1))
	if s.Iter > 0 {
		b.ctrl.Iter = s.Iter + 2
	}
	space := w.otherSpace(in.space)
	c := in.begin("copy", cl, 0)
	oc, err := in.algo.Copy(conf, space)
	c.Err = canon(err)
	if err == nil {
		b.conf, b.space = conf, space
		b.copy = c
		b.wrap = oc.Impl().(*wrap)
		b.wrap.in = b
		b.algo = oc
	}
	in.end(c)
	if err != nil {
		w.violate("copy", "Copy failed: %v", err)
		return
	}
	if oc.Conf() != conf {
		w.violate("copy-conf", "the copy has another configuration than the given one")
	}
	if oc.Space() != space {
		w.violate("copy-space", "the copy has another space than the given one")
	}
	if st := oc.Status(); st.Value != core.Created || st.Error != nil {
		w.violate("copy-status", "the copy is created with status %v %v", st.Value, st.Error)
	}
	if oc.Impl() == in.wrap {
		w.violate("copy-impl", "the copy shares the implementation of the original")
	}
	if s.Kind == "real" || s.Kind == "iso" || s.Kind == "free" {
		if v, ok := space.(*vecSpace); ok && s.Victim == "A" {
			v.fail = s.FailDist
		}
		b.available0 = in.accepted()
		b.watchReal()
	} else {
		b.observe()
	}
	b.born = zzdst.Clock()
	w.insts = append(w.insts, b)
}

func (w *World) otherSpace(s core.Space) core.Space {
	switch v := s.(type) {
	case *idSpace:
		return &idSpace{w: w, tag: "B"}
	case *vecSpace:
		return &vecSpace{w: w, tag: "B", inner: v.inner, every: v.every}
	default:
		return v
	}
}

// src is one element that may belong to the data set of an instance.
type src struct {
	id        int32
	pos       int
	caller    int    // elements of one caller keep their order
	call, ret uint64 // of the accepting Push; ret 0 if it did not return
	after     uint64 // when it may appear at the latest: 0 from the first data set on
	inherited bool
	must      bool // surely inherited
}

// older tells whether a was surely accepted before b.
func older(a, b *src) bool {
	if a.caller == b.caller && a.inherited == b.inherited && a.caller != 80 && a.caller != 90 {
		return a.call < b.call || a.call == b.call && a.pos < b.pos
	}
	if a.caller == -1 || b.caller == -1 {
		return a.caller == -1
	}
	if a.inherited != b.inherited {
		return a.inherited
	}
	return a.ret != 0 && a.ret < b.call
}

// sources lists what may be in the data set of an instance.
func (in *Inst) sources() []*src {
	var l []*src
	if in.parent != nil {
		c := in.copy
		for _, p := range in.parent.sources() {
			if p.call > c.RetSeq {
				continue
			}
			q := *p
			q.inherited = true
			q.must = p.must || p.ret != 0 && p.ret < c.CallSeq
			l = append(l, &q)
		}
	} else {
		for i, id := range in.initial {
			l = append(l, &src{id: id, caller: -1, pos: i, must: true, inherited: true})
		}
	}
	for _, p := range in.pushes {
		if p.Done && p.Err != "" || p.pushAt == 0 {
			continue
		}
		s := &src{id: p.Elt.(ids)[0], caller: p.Client, call: p.CallSeq, ret: p.RetSeq}
		if !p.Done {
			s.ret = 0
		}
		l = append(l, s)
	}
	return l
}

// checkData verifies every data set used by an instance.
func (in *Inst) checkData() {
	w := in.w
	srcs := in.sources()
	by := map[int32]*src{}
	for _, s := range srcs {
		by[s.id] = s
	}
	pf := 0 // bound of the window the inherited data come from
	if in.parent != nil {
		pf = in.parent.frame
	}
	var iters []uint64 // beginnings of iterations and initializations
	var prev map[int32]bool
	for di := range in.sets2 {
		d := &in.sets2[di]
		if d.skip {
			iters = append(iters, d.seq)
			continue
		}
		what := fmt.Sprintf("%s: iteration %d", in.name, d.n)
		if d.init {
			what = fmt.Sprintf("%s: initialization %d", in.name, d.n)
		}
		seen := map[int32]int{}
		var present []*src
		for i, id := range d.list {
			if _, dup := seen[id]; dup {
				w.violate("data-duplicate", "%s works on element %d twice: %v", what, id, d.list)
				return
			}
			seen[id] = i
			s := by[id]
			if s == nil || s.call > d.seq && !w.between(s, d) {
				w.violate("data-foreign", "%s works on element %d, which was not accepted: %v", what, id, d.list)
				return
			}
			present = append(present, s)
		}
		// order
		for i := 1; i < len(present); i++ {
			for j := i - 1; j >= 0 && j >= i-40; j-- {
				if older(present[i], present[j]) && present[i].caller == present[j].caller {
					w.violate("data-order", "%s has element %d before %d of the same caller: %v", what, present[j].id, present[i].id, d.list)
					return
				}
			}
		}
		// completeness
		var limit uint64 // elements accepted before that must be used
		if d.init {
			limit = d.seq
		} else {
			limit = 0
			if len(iters) > 0 {
				limit = iters[len(iters)-1]
			}
		}
		req := 0
		for _, s := range srcs {
			must := s.ret != 0 && s.ret < limit
			if s.inherited {
				must = s.must
			}
			if !must {
				continue
			}
			req++
			if _, ok := seen[s.id]; ok {
				continue
			}
			if in.frame > 0 || pf > 0 && s.inherited {
				// evicted by newer elements?
				f := in.frame
				if pf > 0 && s.inherited && (f == 0 || pf < f) {
					f = pf
				}
				n := 0
				for _, o := range srcs {
					if o != s && !older(o, s) && (o.call < d.seq || w.between(o, d)) {
						n++
					}
				}
				if n >= f {
					if pf == 0 || !s.inherited {
						if len(d.list) < in.frame {
							w.violate("data-window", "%s works on %d elements only, with a frame of %d and element %d missing: %v", what, len(d.list), in.frame, s.id, d.list)
							return
						}
						for _, o := range present {
							if older(o, s) {
								w.violate("data-window", "%s works on element %d but not on the more recent %d: %v", what, o.id, s.id, d.list)
								return
							}
						}
					}
					continue
				}
			}
			w.violate("data-lost", "%s does not work on element %d, accepted before: %v", what, s.id, d.list)
			return
		}
		if in.frame > 0 && len(d.list) > in.frame {
			w.violate("data-window", "%s works on %d elements with a frame of %d: %v", what, len(d.list), in.frame, d.list)
			return
		}
		// an element used once stays, unless the window moves
		if in.frame == 0 && prev != nil {
			for id := range prev {
				if _, ok := seen[id]; !ok {
					w.violate("data-lost", "%s does not work on element %d any more: %v", what, id, d.list)
					return
				}
			}
			for _, s := range present {
				if s.inherited && !prev[s.id] {
					w.violate("data-foreign", "%s works on element %d of the original, which the copy did not have before: %v", what, s.id, d.list)
					return
				}
			}
		}
		// elements of one caller are taken without gaps
		if in.frame == 0 {
			gap := map[string]*src{}
			for _, s := range srcs {
				k := fmt.Sprint(s.caller, s.inherited)
				if s.caller == 80 || s.caller == 90 || s.inherited && pf > 0 {
					continue
				}
				if _, ok := seen[s.id]; !ok {
					if gap[k] == nil || older(s, gap[k]) {
						gap[k] = s
					}
				}
			}
			for _, s := range present {
				g := gap[fmt.Sprint(s.caller, s.inherited)]
				if g != nil && older(g, s) {
					w.violate("data-order", "%s works on element %d but not on the earlier %d of the same caller: %v", what, s.id, g.id, d.list)
					return
				}
			}
		}
		prev = map[int32]bool{}
		for id := range seen {
			prev[id] = true
		}
		if !d.init {
			iters = append(iters, d.seq)
		} else {
			iters = append(iters[:0], d.seq)
		}
		w.probe("data-sets")
		if in.frame > 0 && req > in.frame {
			w.probe("full-windows")
		}
		if in.parent != nil {
			w.probe("copied-data-sets")
		}
	}
	// elements are never altered
	for _, p := range in.pushes {
		if l, ok := p.Elt.(ids); ok && (len(l) != 1 || l[0] != p.id) {
			w.violate("data-altered", "%s: pushed element %d became %v", in.name, p.id, l)
			return
		}
	}
}

// between tells whether an element pushed while a step executes may be used by it:
// the step reads its data at some moment after it began.
func (w *World) between(s *src, d *dataset) bool { return s.call < d.end }

// ---- vectors ----

// vecSpace is the space of vectors of floats, yielding to the scheduler.
type vecSpace struct {
	w      *World
	tag    string
	n      int
	every  int
	fail   int  // panics on that distance evaluation
	raised bool // and did so during the present step
	calls  int
	open   int
	hold   int        // is held up for long from that distance evaluation on
	until  int64      // and until then
	bound  int        // evaluations that count as progress
	mute   bool       // evaluates without the faults
	inner  core.Space // real space doing the computation
}

func (s *vecSpace) pause() {
	s.n++
	if s.n <= s.bound {
		s.w.lastStep = zzdst.StepsNow()
	}
	if s.every > 0 && s.n%s.every == 0 {
		zzdst.Yield()
	}
}

func (s *vecSpace) Dist(a, b core.Elemt) float64 {
	s.open++
	s.calls++
	if s.fail > 0 && s.calls >= s.fail && s.inImpl() {
		s.fail = 0
		s.raised = true
		s.open--
		s.w.faults["space-panic"]++
		panic("panic with inj#5000000")
	}
	if s.hold > 0 && s.calls >= s.hold && s.inImpl() {
		s.hold = 0
		s.w.faults["space-delay"]++
		s.until = zzdst.Now() + int64(400000*ms)
	}
	if d := s.until - zzdst.Now(); d > 0 && s.inImpl() {
		s.w.work(0, time.Duration(d))
	}
	if !s.mute {
		s.w.holdPredict()
		s.pause()
	}
	if s.inner != nil {
		d := s.inner.Dist(a, b)
		s.open--
		return d
	}
	x, y := a.([]float64), b.([]float64)
	d := 0.
	for i := range x {
		d += (x[i] - y[i]) * (x[i] - y[i])
	}
	s.open--
	return math.Sqrt(d)
}

func (s *vecSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	s.open++
	s.pause()
	if s.inner != nil {
		r := s.inner.Combine(a, wa, b, wb)
		s.open--
		return r
	}
	x, y := a.([]float64), b.([]float64)
	r := make([]float64, len(x))
	for i := range x {
		r[i] = (x[i]*float64(wa) + y[i]*float64(wb)) / float64(wa+wb)
	}
	s.open--
	return r
}

func (s *vecSpace) Copy(e core.Elemt) core.Elemt {
	s.pause()
	if s.inner != nil {
		return s.inner.Copy(e)
	}
	return append([]float64(nil), e.([]float64)...)
}

// inImpl tells whether the current routine does not execute a prediction.
func (s *vecSpace) inImpl() bool {
	c := s.w.cur[zzdst.CurName()]
	return c == nil || c.Kind != "predict"
}

func (s *vecSpace) Dim(l []core.Elemt) int {
	if s.inner != nil {
		return s.inner.Dim(l)
	}
	if len(l) == 0 {
		return 0
	}
	return len(l[0].([]float64))
}
