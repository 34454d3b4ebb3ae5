//go:build go1.21

package main

import (
	"fmt"
	"math"
	"sort"

	xrand "golang.org/x/exp/rand"
	"gonum.org/v1/gonum/stat/distuv"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/streaming"
	"github.com/wearelumenai/distclus/zzdst"
)

// selem is an element of a streaming scenario; combined elements have no identifier.
type selem struct {
	id int32
	x  float64
}

// selSpace is the space of selem elements; it tells which elements are consumed.
type selSpace struct {
	w  *World
	st *stream
	n  int
}

func (s *selSpace) Dist(a, b core.Elemt) float64 {
	s.n++
	if s.n%3 == 0 {
		zzdst.Yield()
	}
	x, y := a.(*selem), b.(*selem)
	s.st.seen(x)
	s.st.seen(y)
	return math.Abs(x.x - y.x)
}

func (s *selSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	s.n++
	if s.n%2 == 0 {
		zzdst.Yield()
	}
	x, y := a.(*selem), b.(*selem)
	s.st.seen(y)
	return &selem{x: (x.x*float64(wa) + y.x*float64(wb)) / float64(wa+wb)}
}

func (s *selSpace) Copy(e core.Elemt) core.Elemt {
	x := *e.(*selem)
	return &x
}
func (s *selSpace) Dim([]core.Elemt) int { return 1 }

// taken is the consumption of one element.
type taken struct {
	id       int32
	from, to uint64 // beginning and end of the step that consumed it
}

// stream is the reference of a streaming instance.
type stream struct {
	w     *World
	in    *Inst
	took  []taken
	used  map[int32]bool
	cur   *selem // element consumed by the step in progress
	begin uint64
	steps []sstep

	conf *streaming.Conf
	refs []*sref // references that agree with every result so far
}

// sref is the state of the streaming rule. Whether a number is drawn for an outlier, which
// needs none, is left open.
type sref struct {
	norm  distuv.Normal
	draws bool
	clust []float64
	cards []int
	max   float64
	count int
}

// sstep is one iteration or initialization, successful or not.
type sstep struct {
	init     bool
	id       int32
	from, to uint64
}

func (t *stream) seen(e *selem) {
	if e.id <= 0 || t.used[e.id] || t.in.inImpl == 0 {
		return
	}
	if t.cur != nil && t.cur != e {
		t.w.violate("stream-step", "elements %d and %d are both consumed by one step", t.cur.id, e.id)
		return
	}
	t.cur = e
}

// endStep records what a step consumed, right after the implementation returned.
func (t *stream) endStep(init bool, c core.Clust, rf core.RuntimeFigures, err error) {
	w := t.w
	t.in.opened = t.begin
	end := zzdst.Seq(3)
	st := sstep{init: init, from: t.begin, to: end}
	if init && err == nil && len(c) > 0 {
		if e, ok := c[0].(*selem); ok && e.id > 0 {
			if t.used[e.id] {
				w.violate("stream-order", "element %d is consumed again", e.id)
				return
			}
			t.cur = e
		}
	}
	if t.cur != nil {
		t.used[t.cur.id] = true
		st.id = t.cur.id
		t.took = append(t.took, taken{t.cur.id, t.begin, end})
		w.probe("consumed")
	}
	t.steps = append(t.steps, st)
	if err != nil {
		if t.cur != nil {
			w.violate("stream-lost", "element %d is consumed by a step that fails: %v", t.cur.id, err)
		}
		return
	}
	if init {
		if t.cur == nil {
			w.violate("stream-rule", "an initialization succeeds with %v, without consuming an element", show(c))
			return
		}
		for _, f := range t.refs {
			f.clust, f.cards, f.max, f.count = []float64{t.cur.x}, []int{1}, 0, 0
		}
	} else if t.cur != nil {
		for _, f := range t.refs {
			t.rule(f, t.cur.x)
		}
	}
	t.cur = nil
	if c == nil {
		if st.id != 0 {
			w.violate("stream-rule", "element %d is consumed by an iteration without result", st.id)
		}
		return
	}
	if st.id == 0 {
		w.violate("stream-rule", "an iteration that consumes nothing produces %v", show(c))
		return
	}
	var left []*sref
	why := ""
	for _, f := range t.refs {
		ok := len(c) == len(f.clust)
		for i := 0; ok && i < len(c); i++ {
			e, is := c[i].(*selem)
			ok = is && near(e.x, f.clust[i], 1e-9)
		}
		if !ok {
			why = fmt.Sprintf("the centroids are %v instead of %v", show(c), f.clust)
		} else if m := rf[streaming.MaxDistance]; !init && !near(m, f.max, 1e-9) {
			why = fmt.Sprintf("the maximal distance is %v instead of %v", m, f.max)
		} else {
			left = append(left, f)
		}
	}
	if len(left) == 0 {
		w.violate("stream-rule", "after element %d %s", st.id, why)
		return
	}
	t.refs = left
}

func show(c core.Clust) string {
	s := "["
	for _, e := range c {
		if v, ok := e.(*selem); ok {
			s += fmt.Sprintf(" %d:%v", v.id, v.x)
		} else {
			s += fmt.Sprintf(" %v", e)
		}
	}
	return s + " ]"
}

// rule is the reference of one streaming step.
func (t *stream) rule(f *sref, x float64) {
	label, d := 0, math.Inf(1)
	for i, c := range f.clust {
		if v := math.Abs(x - c); v < d {
			label, d = i, v
		}
	}
	if f.max == 0 {
		f.max = d
	}
	rel := d / f.max
	switch {
	case f.count >= t.conf.OutAfter && rel > t.conf.OutRatio:
		t.w.probe("outliers")
		if f.draws {
			f.norm.Rand()
		}
		f.clust, f.cards = append(f.clust, x), append(f.cards, 1)
	case f.norm.Rand() < rel:
		t.w.probe("new-centers")
		f.clust, f.cards = append(f.clust, x), append(f.cards, 1)
		f.max = math.Max(f.max, d)
	default:
		n := float64(f.cards[label])
		f.clust[label] = (f.clust[label]*n + x) / (n + 1)
		f.cards[label]++
		f.max = math.Max(f.max, d)
	}
	f.count++
}

// streamMain is the scenario about a real streaming instance.
func (w *World) streamMain() {
	s := w.spec
	r := newRnd(s.Seed ^ 0x57AEA)
	n := 0
	mk := func() core.Elemt {
		n++
		x := r.Float() * 10
		if r.Intn(7) == 0 {
			x += float64(r.pick(60, 200, 1000))
		}
		return &selem{int32(n), x}
	}
	var data []core.Elemt
	for i := 0; i < s.NData; i++ {
		data = append(data, mk())
	}
	t := &stream{w: w, used: map[int32]bool{}}
	in := w.real("A", "streaming", &selSpace{w: w, st: t}, nil, data, 0, xrand.NewSource(s.Seed))
	t.in = in
	t.conf = in.conf.(*streaming.Conf)
	for _, draws := range []bool{false, true} {
		n := distuv.Normal{Mu: t.conf.Mu, Sigma: t.conf.Sigma, Src: xrand.New(xrand.NewSource(s.Seed))}
		t.refs = append(t.refs, &sref{norm: n, draws: draws})
	}
	in.mk = mk
	x := in.wrap
	begin := func(m core.OCModel) {
		t.cur, t.begin = nil, in.evs[len(in.evs)-1].Seq
		in.checkModel(m)
	}
	x.preInit, x.preIter, x.post = begin, begin, t.endStep
	ts := w.spawnClients(w.streamOp)
	if !w.conduct(ts, 6e9) {
		return
	}
	w.finale(in)
	if w.viol == nil && s.Final == "run" {
		w.catchUp(in)
	}
	w.quiesce()
	if w.viol == nil {
		t.check(data)
	}
}

func (w *World) streamOp(cl int, op Op) {
	in := w.insts[0]
	switch op.K {
	case "push":
		for i := 0; i < op.A && w.viol == nil; i++ {
			b := zzdst.Busy()
			p := in.Push(cl, in.mk())
			if in.ctrl.DataPerIter > 0 || w.spec.PStall > 0 || hasStall(w.spec.Overrides) {
				continue
			}
			slack := zzdst.Busy() - b + int64(2*ms)
			for _, f := range w.spec.Faults {
				if f.Where == "push" {
					slack += int64(f.D)
				}
			}
			if d := p.RetT - p.CallT; d > slack {
				w.violate("push-slow", "%v took %v, an accepted or refused push is immediate", p, d)
			}
		}
	case "predict":
		in.PredictReal(cl, &selem{x: float64(op.A%11) * 1.3})
	default:
		w.clientOp(cl, op)
	}
}

// check verifies order, completeness and refusals over the whole history.
func (t *stream) check(data []core.Elemt) {
	w, in := t.w, t.in
	type acc struct {
		id        int32
		cl        int
		call, ret uint64
		k         int // rank among the initial data
	}
	by := map[int32]*acc{}
	var all []*acc
	for i, e := range data {
		a := &acc{id: e.(*selem).id, cl: -1, k: i, ret: 1}
		by[a.id] = a
		all = append(all, a)
	}
	for _, p := range in.pushes {
		e := p.Elt.(*selem)
		if p.Done && p.Err != "" || p.pushAt == 0 {
			continue
		}
		a := &acc{id: e.id, cl: p.Client, call: p.CallSeq, ret: p.RetSeq}
		if !p.Done {
			a.ret = math.MaxUint64
		}
		by[a.id] = a
		all = append(all, a)
	}
	before := func(a, b *acc) bool {
		if a.cl == -1 || b.cl == -1 {
			return a.cl == -1 && (b.cl != -1 || a.k < b.k)
		}
		return a.ret < b.call
	}
	gone := map[int32]int{}
	for i, k := range t.took {
		gone[k.id] = i + 1
		a := by[k.id]
		if a == nil || a.call > k.to {
			w.violate("stream-foreign", "element %d, which was not accepted, is consumed", k.id)
			return
		}
	}
	for _, s := range t.steps {
		for _, a := range all {
			i := gone[a.id]
			if i > 0 && t.took[i-1].from <= s.from {
				continue
			}
			// not consumed when the step ended
			if s.id == 0 && a.ret < s.from {
				w.violate("stream-lost", "a step consumes nothing although element %d was accepted before it and not consumed", a.id)
				return
			}
			if s.id != 0 && before(a, by[s.id]) {
				w.violate("stream-order", "element %d is consumed before element %d, accepted earlier", s.id, a.id)
				return
			}
		}
	}
	// what the buffer holds when an element enters it
	for _, p := range in.pushes {
		if p.pushAt == 0 || !p.pushOK {
			continue
		}
		n := len(data)
		for _, q := range in.pushes {
			if q.pushAt != 0 && q.pushOK && q.pushAt <= p.pushAt {
				n++
			}
		}
		for _, k := range t.took {
			if k.from <= p.pushAt {
				n--
			}
		}
		if n > t.conf.BufferSize {
			w.violate("stream-overfull", "%v was accepted although at least %d elements are waiting then, with a buffer of %d", p, n, t.conf.BufferSize)
			return
		}
	}
	// refusals
	for _, p := range in.pushes {
		if !p.Done || p.Err == "" || len(p.Err) > 4 && p.Err[:4] == "inj#" {
			continue
		}
		w.probe("refused-pushes")
		n := 0
		for _, a := range all {
			if a.call >= p.RetSeq {
				continue
			}
			if i := gone[a.id]; i > 0 && t.took[i-1].to < p.CallSeq {
				continue
			}
			n++
		}
		if n < t.conf.BufferSize {
			w.violate("stream-refused", "%v was refused although at most %d elements were waiting in a buffer of %d", p, n, t.conf.BufferSize)
			return
		}
	}
}

// PredictReal predicts on an instance of a real algorithm and checks the answer
// against the published sets.
func (in *Inst) PredictReal(cl int, p core.Elemt) {
	w := in.w
	c := in.begin("predict", cl, 0)
	e, label, d := in.algo.Predict(p)
	switch {
	case e == nil:
		if label != -1 {
			w.violate("predict", "no centroid but label %d", label)
		}
		c.IDs = []int32{0}
	default:
		for _, id := range in.setIDs() {
			set := in.sets[id]
			if label < 0 || label >= len(set) || !sameElt(e, set[label]) {
				continue
			}
			best := math.Inf(1)
			for _, o := range set {
				best = math.Min(best, in.quietDist(p, o))
			}
			if near(d, best, 1e-12) && near(in.quietDist(p, e), d, 1e-12) {
				c.IDs = append(c.IDs, id)
			}
		}
		if len(c.IDs) == 0 {
			w.violate("predict", "%s: Predict(%v) answers centroid %v, label %d, distance %v, which no published result gives", in.name, p, e, label, d)
		}
	}
	if len(c.IDs) > 0 {
		min := c.IDs[0]
		for _, id := range c.IDs {
			if id < min {
				min = id
			}
		}
		c.ID = min
	}
	in.end(c)
}

// setIDs lists the published sets in order.
func (in *Inst) setIDs() []int32 {
	l := make([]int32, 0, len(in.sets))
	for id := range in.sets {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// quietDist is the distance of the instance's space, without scheduling.
func (in *Inst) quietDist(a, b core.Elemt) float64 {
	switch a.(type) {
	case *selem:
		return math.Abs(a.(*selem).x - b.(*selem).x)
	case []float64, [][]float64:
		if v, ok := in.space.(*vecSpace); ok {
			var d float64
			q := v.quiet()
			q.mute = true
			zzdst.Quiet(func() { d = q.Dist(a, b) })
			return d
		}
	}
	return 1
}

// quiet is the same space without scheduling.
func (s *vecSpace) quiet() *vecSpace { return &vecSpace{w: s.w, inner: s.inner} }

func (r *rnd) genStream(prop string) *Spec {
	s := &Spec{Prop: prop, Kind: "stream", Seed: r.Uint64(), Algo: "streaming"}
	r.genSim(s)
	s.Buf = r.pick(1, 1, 2, 3, 4, 8, 16, 30)
	s.NData = r.pick(0, 1, 1, 2, 6)
	if s.NData > s.Buf {
		s.NData = s.Buf
	}
	s.Mu, s.Sigma = r.f(.02, .3, .5, .9), r.f(.05, .1, .4)
	s.OutR, s.OutAfter = r.f(1.5, 2, 3), r.pick(2, 3, 5)
	s.Iter = r.pick(0, 2, 3, 5, 12)
	s.IPD = r.pick(0, 0, 1, 1, 2)
	if s.Iter == 0 && r.Intn(2) == 0 {
		s.IPD = 1
	}
	s.DPI = r.pick(0, 0, 0, 1, 2)
	s.Freq = r.f(0, 0, 0, 50)
	s.Timeout = r.dur(0, 0, 0, 0, 50*ms, 300*ms)
	s.IterDur = r.dur(ms, 3*ms, 3*ms, 7*ms, 40*ms)
	s.IterYield = r.Intn(4)
	s.InitDur = r.dur(0, 0, 0, 3*ms)
	s.Notifier = r.str("", "", "", "fast")
	s.Final = r.str("run", "run", "stop")
	w := map[string]int{"init": 2, "play": 6, "pause": 3, "stop": 3, "wait": 2, "push": 16, "centroids": 2, "figures": 2, "predict": 2, "batch": 1, "sleep": 9, "yield": 4}
	if r.Chance(0.3) {
		r.genFaults(s, 1, "init", "iter", "push")
	}
	nc, nop := 1+r.Intn(4), 3+r.Intn(8)
	long := r.Intn(12) == 0 // many elements, many clusters
	if long {
		s.Buf, s.Mu, s.Iter, s.IPD, s.IterDur, s.PMem = r.pick(60, 100, 200), r.f(.02, .1, .5), 0, r.pick(0, 1, 1), ms, 0
		w["push"], w["sleep"] = 30, 15
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < nop; i++ {
			op := r.genOp(s, w)
			if op.K == "push" {
				if op.A = r.pick(1, 1, 2, 3, 5); long {
					op.A = r.pick(3, 10, 20, 40)
				}
			}
			ops = append(ops, op)
		}
		if c == 0 && r.Intn(4) != 0 {
			ops = append([]Op{{K: "push", A: 1}, {K: "play"}}, ops...)
		}
		s.Clients = append(s.Clients, ops)
	}
	return s
}
