//go:build go1.21

package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/zzdst"
)

// Fault injected by the implementation wrapper.
type Fault struct {
	Where string        `json:"where"` // init, iter, push, notify
	N     int           `json:"n"`     // on the n-th call (from 1)
	Kind  string        `json:"kind"`  // error, panic, panicerr, delay, nil
	D     time.Duration `json:"d,omitempty"`
}

// wrap is a core.Impl that records and perturbs the calls made to an implementation:
// a real one (inner) or, without inner, a mock publishing numbered results.
type wrap struct {
	w     *World
	in    *Inst
	inner core.Impl
	npush int
	// observers for real implementations
	onInit  func(m core.OCModel, c core.Clust, err error)
	figs    core.RuntimeFigures
	onIter  func(m core.OCModel, c core.Clust, f core.RuntimeFigures, err error)
	preIter func(m core.OCModel)
	preInit func(m core.OCModel)
	post    func(init bool, c core.Clust, f core.RuntimeFigures, err error)
	onCopy  func(m core.OCModel, inner core.Impl) core.Impl
}

func (x *wrap) fault(where string, n int) *Fault {
	if x.w.spec.Victim == x.in.name {
		return nil
	}
	for i := range x.w.spec.Faults {
		f := &x.w.spec.Faults[i]
		if f.Where == where && f.N == n {
			x.w.faults[where+"-"+f.Kind]++
			return f
		}
	}
	return nil
}

// oddErr is an error that cannot be compared.
type oddErr []string

func (e oddErr) Error() string { return "odd error " + e[0] }

// injErr is an error returned by the implementation; whoever learns of the failure must
// be able to recognize it.
type injErr struct{ mark string }

func (e *injErr) Error() string { return e.mark }

// returned holds the marks of the failures that were returned as errors.
var returned = map[string]bool{}

// recognized is false if an error only looks like the one that was returned.
func recognized(err error) bool {
	var inj *injErr
	var odd oddErr
	return errors.As(err, &inj) || errors.As(err, &odd)
}

// raise fails as asked by the fault.
func raise(f *Fault, mark string) error {
	switch f.Kind {
	case "error":
		returned[mark] = true
		return &injErr{mark}
	case "panic":
		panic("panic with " + mark)
	case "panicerr":
		panic(errors.New(mark))
	case "odderr":
		returned[mark] = true
		return oddErr{mark}
	case "panicval":
		panic(struct{ mark string }{mark})
	}
	return nil
}

func (x *wrap) enter(what string) {
	x.in.inImpl++
	if x.in.inImpl > 1 {
		x.w.violate("overlap", "%s: %s starts while another initialization or iteration executes", x.in.name, what)
	}
}

// Init of the wrapped implementation.
func (x *wrap) Init(m core.OCModel) (c core.Clust, err error) {
	in, w := x.in, x.w
	x.enter("an initialization")
	in.inits++
	n := in.inits
	in.ev(Ev{K: EvInitB})
	if x.preInit != nil {
		x.preInit(m)
	}
	ok := false
	var id int32
	mark := fmt.Sprintf("inj#%d", 1000+n)
	defer func() {
		in.inImpl--
		var e string
		if !ok {
			e = mark
		} else {
			e = canon(err)
		}
		if e != "" {
			id = 0
		}
		in.ev(Ev{K: EvInitE, Err: e, ID: id})
	}()
	f := x.fault("init", n)
	if f != nil && f.Kind == "delay" {
		w.work(0, f.D)
	}
	if x.inner == nil {
		w.work(w.spec.InitYield, w.spec.InitDur)
		c, id = in.newSet()
	} else {
		w.work(w.spec.InitYield, w.spec.InitDur)
		x.guard("the initialization", m, &mark, func() error {
			c, err = x.inner.Init(m)
			return err
		})
		if x.post != nil {
			x.post(true, c, nil, err)
		}
		if err == nil {
			id = x.register(c)
		}
	}
	if f != nil && f.Kind != "delay" {
		err = raise(f, mark)
	}
	if err != nil && x.inner == nil && n%2 == 0 {
		c = nil
	}
	if x.onInit != nil {
		x.onInit(m, c, err)
	}
	ok = true
	return
}

// Iterate of the wrapped implementation.
func (x *wrap) Iterate(m core.OCModel) (c core.Clust, rf core.RuntimeFigures, err error) {
	in, w := x.in, x.w
	x.enter("an iteration")
	in.iterB++
	n := in.iterB
	in.lastIter = zzdst.Now()
	in.ev(Ev{K: EvIterB, ID: in.idOf(m.Centroids())})
	if x.preIter != nil {
		x.preIter(m)
	}
	ok, isNil := false, false
	var id, fx int32
	mark := fmt.Sprintf("inj#%d", 2000000+n)
	defer func() {
		in.inImpl--
		in.lastIter = zzdst.Now()
		var e string
		if !ok {
			e = mark
		} else {
			e = canon(err)
		}
		if e != "" {
			id = 0
		}
		in.idleRun++
		if e == "" && !isNil {
			in.iters++
			in.idleRun = 0
		}
		in.ev(Ev{K: EvIterE, Err: e, ID: id, Nil: isNil, FigX: fx})
	}()
	f := x.fault("iter", n)
	if f != nil && f.Kind == "delay" {
		w.work(0, f.D)
	}
	w.work(w.spec.IterYield, w.spec.IterDur)
	if x.inner == nil {
		c, id = in.newSet()
		rf = x.figures(id)
		fx = id
	} else {
		x.guard("an iteration", m, &mark, func() error {
			c, rf, err = x.inner.Iterate(m)
			return err
		})
		if e := canon(err); e != "" && !x.w.injected(e) {
			x.w.violate("impl-failure", "%s: an iteration of %s fails by itself: %v", in.name, in.impl, err)
		}
		if x.post != nil {
			x.post(false, c, rf, err)
		}
		if c == nil {
			isNil = true
		}
		fx = figHash(rf)
		if err == nil && c != nil {
			id = x.register(c)
		}
	}
	if f != nil {
		switch f.Kind {
		case "delay":
		case "nil":
			if x.inner == nil {
				c, rf, isNil = nil, nil, true
			}
		default:
			err = raise(f, mark)
		}
	}
	if x.onIter != nil {
		x.onIter(m, c, rf, err)
	}
	ok = true
	return
}

// figures of the recording implementation: a new map or always the same one, maybe with
// names that belong to the controller.
func (x *wrap) figures(id int32) core.RuntimeFigures {
	rf := core.RuntimeFigures{}
	switch x.w.spec.Seed % 16 {
	case 3, 4, 5:
		if x.figs == nil {
			x.figs = rf
		}
		rf = x.figs
	case 6, 7:
		rf[core.Iterations], rf[core.PushedData], rf[core.Duration], rf[core.LastDataTime] = 1000+float64(id), 2000, 1, 3
	}
	rf["x"] = float64(id)
	return rf
}

// guard executes a step of a real implementation. Such a step fails by itself for no
// reason but a failure of the space, which it must not hide.
func (x *wrap) guard(what string, m core.OCModel, mark *string, f func() error) {
	in, w := x.in, x.w
	sp, _ := m.Space().(*vecSpace)
	if sp != nil {
		sp.raised = false
	}
	defer func() {
		if r := recover(); r != nil {
			*mark = canon(fmt.Errorf("%v", r))
			if !w.injected(*mark) {
				w.violate("impl-failure", "%s: %s of %s panics by itself: %v", in.name, what, in.impl, r)
			}
			panic(r)
		}
	}()
	if err := f(); err == nil && sp != nil && sp.raised {
		w.violate("hidden-failure", "%s: %s of %s succeeds although an evaluation of a distance panicked", in.name, what, in.impl)
	}
}

// Push of the wrapped implementation.
func (x *wrap) Push(e core.Elemt, m core.OCModel) (err error) {
	in, w := x.in, x.w
	x.npush++
	n := x.npush
	f := x.fault("push", n)
	if f != nil && f.Kind == "delay" {
		if c := w.cur[zzdst.CurName()]; c != nil {
			c.held = true
		}
		w.work(0, f.D)
	}
	if f != nil && f.Kind == "error" {
		mark := fmt.Sprintf("inj#%d", 4000000+n)
		returned[mark] = true
		err = fmt.Errorf("refused: %w", &injErr{mark})
	} else if x.inner != nil {
		err = x.inner.Push(e, m)
		if err != nil && in.impl != "streaming" {
			w.violate("data-refused", "%s: %s refuses an element: %v", in.name, in.impl, err)
		}
	} else {
		w.work(n%2, 0)
	}
	c := w.byElt[eltKey(e)]
	if c == nil {
		w.violate("push-altered", "the implementation received an element nobody pushed: %v", e)
	}
	if c != nil {
		if c.pushAt != 0 {
			w.violate("push-twice", "element of %v given twice to the implementation", c)
		}
		c.pushOK = err == nil
	}
	v := in.ev(Ev{K: EvPushE, Op: c, Err: canon(err)})
	if c != nil {
		c.pushAt = v.Seq
		c.stamp()
	}
	return
}

// Copy of the wrapped implementation.
func (x *wrap) Copy(m core.OCModel) (core.Impl, error) {
	y := &wrap{w: x.w}
	if x.inner == nil {
		x.w.work(1, 0)
		return y, nil
	}
	inner, err := x.inner.Copy(m)
	if err != nil {
		return nil, err
	}
	y.inner = inner
	if x.onCopy != nil {
		y.inner = x.onCopy(m, inner)
	}
	return y, nil
}

// figHash summarizes the figures that belong to the implementation.
func figHash(f core.RuntimeFigures) int32 {
	var h uint64
	for k, v := range f {
		switch k {
		case core.Iterations, core.PushedData, core.LastDataTime, core.Duration:
			continue
		}
		x := uint64(14695981039346656037)
		for i := 0; i < len(k); i++ {
			x = (x ^ uint64(k[i])) * 1099511628211
		}
		x = (x ^ math.Float64bits(v)) * 0x9E3779B97F4A7C15
		h += x ^ x>>29
	}
	return int32(h ^ h>>32)
}

// register numbers a result of a real implementation (equal results share their
// number) and keeps a deep copy of it.
func (x *wrap) register(c core.Clust) int32 {
	k := valKey(c)
	id, ok := x.in.vals[k]
	if !ok {
		x.w.nextID++
		id = x.w.nextID
		x.in.vals[k] = id
		x.in.sets[id] = deep(c)
	}
	x.in.keep(c)
	return id
}

// keep remembers a set together with its present value.
func (in *Inst) keep(c core.Clust) {
	if in.w.spec.Race {
		touch(c)
	}
	if len(in.kept) < 400 {
		in.kept = append(in.kept, kept{c, deep(c)})
	}
}

// touch records that the harness reads a centroid set, for the race detector.
func touch(c core.Clust) {
	zzdst.TouchSlice(c)
	for _, e := range c {
		switch v := e.(type) {
		case []float64:
			zzdst.TouchSlice(v)
		case [][]float64:
			zzdst.TouchSlice(v)
			for _, p := range v {
				zzdst.TouchSlice(p)
			}
		case ids:
			zzdst.TouchSlice(v)
		}
	}
}

type kept struct{ ref, val core.Clust }

// checkKept reports sets that changed since they were published or read.
func (in *Inst) checkKept() {
	for _, k := range in.kept {
		if !same(k.ref, k.val) {
			in.w.violate("mutated-centroids", "%s: a published centroid set changed from %v to %v", in.name, k.val, k.ref)
			return
		}
	}
}

// identify finds the number of a set by its value, -1 if nothing like it was produced.
func (x *wrap) identify(c core.Clust) int32 {
	if len(c) == 0 {
		return 0
	}
	if id, ok := x.in.vals[valKey(c)]; ok {
		return id
	}
	return -1
}

func valKey(c core.Clust) string {
	var b []byte
	for _, e := range c {
		b = append(b, '|')
		switch v := e.(type) {
		case []float64:
			for _, f := range v {
				b = binary.LittleEndian.AppendUint64(b, math.Float64bits(f))
			}
		case [][]float64:
			for _, p := range v {
				b = append(b, ';')
				for _, f := range p {
					b = binary.LittleEndian.AppendUint64(b, math.Float64bits(f))
				}
			}
		case ids:
			for _, f := range v {
				b = binary.LittleEndian.AppendUint32(b, uint32(f))
			}
		case *selem:
			b = binary.LittleEndian.AppendUint64(b, math.Float64bits(v.x))
			b = binary.LittleEndian.AppendUint32(b, uint32(v.id))
		default:
			b = append(b, fmt.Sprintf("%v", v)...)
		}
	}
	return string(b)
}

// eltKey identifies a pushed element.
func eltKey(e core.Elemt) any {
	switch v := e.(type) {
	case ids:
		if len(v) == 0 {
			return -1
		}
		return v[0]
	case []float64:
		if len(v) == 0 {
			return -1
		}
		return &v[0]
	case [][]float64:
		if len(v) == 0 {
			return -1
		}
		return &v[0]
	}
	return e
}

// deep copies a centroid set by value.
func deep(c core.Clust) core.Clust {
	r := make(core.Clust, len(c))
	for i, e := range c {
		switch v := e.(type) {
		case []float64:
			r[i] = append([]float64(nil), v...)
		case ids:
			r[i] = append(ids(nil), v...)
		case [][]float64:
			x := make([][]float64, len(v))
			for j := range v {
				x[j] = append([]float64(nil), v[j]...)
			}
			r[i] = x
		default:
			r[i] = e
		}
	}
	return r
}

func same(a, b core.Clust) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameElt(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sameElt(a, b core.Elemt) bool {
	switch v := a.(type) {
	case []float64:
		u, ok := b.([]float64)
		if !ok || len(u) != len(v) {
			return false
		}
		for i := range v {
			if v[i] != u[i] && !(v[i] != v[i] && u[i] != u[i]) {
				return false
			}
		}
		return true
	case [][]float64:
		u, ok := b.([][]float64)
		if !ok || len(u) != len(v) {
			return false
		}
		for i := range v {
			if !sameElt(v[i], u[i]) {
				return false
			}
		}
		return true
	case ids:
		u, ok := b.(ids)
		if !ok || len(u) != len(v) {
			return false
		}
		for i := range v {
			if v[i] != u[i] {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return a == b
}
