//go:build go1.21

package zzdst

import "fmt"

type item[T any] struct {
	v  T
	vc []uint32
}

type selState struct {
	t     *Task
	fired bool
	which int
}

type waiter[T any] struct {
	sel   *selState
	idx   int
	v     T
	ok    bool
	vc    []uint32 // clock of the waiting task
	peer  []uint32 // clock of the task that completed the operation
	panic bool
}

// Chan simulates a Go channel.
type Chan[T any] struct {
	cap    int
	buf    []item[T]
	free   [][]uint32
	closed bool
	cvc    []uint32
	sendq  []*waiter[T]
	recvq  []*waiter[T]
	site   int
}

// MakeChan creates a channel.
func MakeChan[T any](n int, site int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[T]{cap: n, site: site}
}

// Zero returns the zero value of the element type.
func (c *Chan[T]) Zero() (z T) { return }

// BlockForever blocks the current task for ever.
func BlockForever(site int) {
	s := active()
	s.point(pSync, site)
	s.block("select {}", site)
}

func popSend[T any](c *Chan[T]) *waiter[T] {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func popRecv[T any](c *Chan[T]) *waiter[T] {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func (c *Chan[T]) hasSender() bool {
	for _, w := range c.sendq {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (c *Chan[T]) hasReceiver() bool {
	for _, w := range c.recvq {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (c *Chan[T]) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || c.hasReceiver())
}

func (c *Chan[T]) canRecv() bool {
	return c != nil && (c.closed || len(c.buf) > 0 || c.hasSender())
}

// doSend completes a send that canSend.
func (c *Chan[T]) doSend(s *Sim, v T) {
	t := s.cur
	if c.closed {
		panic("send on closed channel")
	}
	if w := popRecv(c); w != nil {
		w.v, w.ok = v, true
		if c.cap == 0 {
			t.acquire(w.vc)
		}
		w.peer = s.release(t)
		w.sel.fired, w.sel.which = true, w.idx
		s.ready(w.sel.t)
		return
	}
	if len(c.free) > 0 {
		t.acquire(c.free[0])
		c.free = c.free[1:]
	}
	c.buf = append(c.buf, item[T]{v, s.release(t)})
}

// doRecv completes a receive that canRecv.
func (c *Chan[T]) doRecv(s *Sim) (v T, ok bool) {
	t := s.cur
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		t.acquire(it.vc)
		r := s.release(t)
		if w := popSend(c); w != nil {
			c.buf = append(c.buf, item[T]{w.v, w.vc})
			w.peer = r
			w.sel.fired, w.sel.which = true, w.idx
			s.ready(w.sel.t)
		} else {
			c.free = append(c.free, r)
		}
		return it.v, true
	}
	if w := popSend(c); w != nil {
		t.acquire(w.vc)
		w.peer = s.release(t)
		w.sel.fired, w.sel.which = true, w.idx
		s.ready(w.sel.t)
		return w.v, true
	}
	t.acquire(c.cvc)
	return v, false
}

// Send sends v.
func (c *Chan[T]) Send(v T, site int) {
	s := active()
	if s == nil {
		if c.closed || len(c.buf) >= c.cap {
			panic("zzdst: channel operation outside a simulated run")
		}
		c.buf = append(c.buf, item[T]{v, nil})
		return
	}
	s.ChanOps++
	s.point(pSync, site)
	if c == nil {
		s.block("send on nil channel", site)
	}
	if c.canSend() {
		c.doSend(s, v)
		s.point(pSync, site)
		return
	}
	t := s.cur
	w := &waiter[T]{sel: &selState{t: t}, v: v}
	w.vc = s.release(t)
	c.sendq = append(c.sendq, w)
	s.block(fmt.Sprintf("sending on a channel made at %s", siteName(c.site)), site)
	if w.panic {
		panic("send on closed channel")
	}
	t.acquire(w.peer)
}

// Recv receives a value.
func (c *Chan[T]) Recv(site int) T {
	v, _ := c.Recv2(site)
	return v
}

// Recv2 receives a value and whether the channel is open.
func (c *Chan[T]) Recv2(site int) (v T, ok bool) {
	s := active()
	if s == nil {
		if len(c.buf) == 0 {
			panic("zzdst: channel operation outside a simulated run")
		}
		v = c.buf[0].v
		c.buf = c.buf[1:]
		return v, true
	}
	s.ChanOps++
	s.point(pSync, site)
	if c == nil {
		s.block("receive on nil channel", site)
	}
	if c.canRecv() {
		v, ok = c.doRecv(s)
		s.point(pSync, site)
		return
	}
	t := s.cur
	w := &waiter[T]{sel: &selState{t: t}}
	w.vc = s.release(t)
	c.recvq = append(c.recvq, w)
	s.block(fmt.Sprintf("receiving from a channel made at %s", siteName(c.site)), site)
	t.acquire(w.peer)
	return w.v, w.ok
}

// Close closes the channel.
func (c *Chan[T]) Close(site int) {
	s := active()
	if c == nil {
		panic("close of nil channel")
	}
	if s != nil {
		s.ChanOps++
		s.point(pSync, site)
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	if s == nil {
		return
	}
	c.cvc = s.release(s.cur)
	for w := popRecv(c); w != nil; w = popRecv(c) {
		w.peer = c.cvc
		w.ok = false
		w.sel.fired, w.sel.which = true, w.idx
		s.ready(w.sel.t)
	}
	for w := popSend(c); w != nil; w = popSend(c) {
		w.panic = true
		w.peer = c.cvc
		w.sel.fired, w.sel.which = true, w.idx
		s.ready(w.sel.t)
	}
	s.point(pSync, site)
}

// Len is len(c).
func (c *Chan[T]) Len(site int) int {
	if s := active(); s != nil {
		s.point(pSync, site)
	}
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Cap is cap(c).
func (c *Chan[T]) Cap(site int) int {
	if c == nil {
		return 0
	}
	return c.cap
}

// deliver is a non-blocking send from the timer context.
func (c *Chan[T]) deliver(s *Sim, v T) {
	if c.closed {
		return
	}
	if w := popRecv(c); w != nil {
		w.v, w.ok = v, true
		w.sel.fired, w.sel.which = true, w.idx
		s.ready(w.sel.t)
		return
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, item[T]{v, nil})
	}
}

// SelCase is one case of a select statement.
type SelCase interface {
	selReady() bool
	selExec(s *Sim)
	selEnqueue(s *Sim, sel *selState, idx int, vc []uint32)
	selFinish(s *Sim, t *Task)
}

// RecvCaseT is a receive case; V and Ok hold the result.
type RecvCaseT[T any] struct {
	c  *Chan[T]
	w  *waiter[T]
	V  T
	Ok bool
}

// SendCaseT is a send case.
type SendCaseT[T any] struct {
	c *Chan[T]
	v T
	w *waiter[T]
}

// RecvCase builds a receive case.
func (c *Chan[T]) RecvCase() *RecvCaseT[T] { return &RecvCaseT[T]{c: c} }

// SendCase builds a send case.
func (c *Chan[T]) SendCase(v T) *SendCaseT[T] { return &SendCaseT[T]{c: c, v: v} }

func (r *RecvCaseT[T]) selReady() bool { return r.c.canRecv() }
func (r *RecvCaseT[T]) selExec(s *Sim) { r.V, r.Ok = r.c.doRecv(s) }
func (r *RecvCaseT[T]) selEnqueue(s *Sim, sel *selState, idx int, vc []uint32) {
	if r.c == nil {
		return
	}
	r.w = &waiter[T]{sel: sel, idx: idx, vc: vc}
	r.c.recvq = append(r.c.recvq, r.w)
}
func (r *RecvCaseT[T]) selFinish(s *Sim, t *Task) {
	r.V, r.Ok = r.w.v, r.w.ok
	t.acquire(r.w.peer)
}

func (r *SendCaseT[T]) selReady() bool { return r.c.canSend() }
func (r *SendCaseT[T]) selExec(s *Sim) { r.c.doSend(s, r.v) }
func (r *SendCaseT[T]) selEnqueue(s *Sim, sel *selState, idx int, vc []uint32) {
	if r.c == nil {
		return
	}
	r.w = &waiter[T]{sel: sel, idx: idx, v: r.v, vc: vc}
	r.c.sendq = append(r.c.sendq, r.w)
}
func (r *SendCaseT[T]) selFinish(s *Sim, t *Task) {
	if r.w.panic {
		panic("send on closed channel")
	}
	t.acquire(r.w.peer)
}

// Select executes a select statement and returns the chosen case, -1 for default.
func Select(site int, hasDefault bool, cases ...SelCase) int {
	s := active()
	if s == nil {
		panic("zzdst: select outside a simulated run")
	}
	s.ChanOps++
	s.point(pSync, site)
	t := s.cur
	var rdy []int
	for i, c := range cases {
		if c.selReady() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := rdy[0]
		if len(rdy) > 1 {
			s.SelectChoices++
			if v, ok := s.over[okey{t.key, t.step, 'S'}]; ok {
				for _, i := range rdy {
					if uint64(i) == v {
						k = i
					}
				}
			} else if !s.cfg.Replay {
				k = rdy[s.rng.Intn(len(rdy))]
				if k != rdy[0] {
					s.log = append(s.log, Override{t.key, t.step, "S", uint64(k)})
				}
			}
		}
		cases[k].selExec(s)
		s.point(pSync, site)
		return k
	}
	if hasDefault {
		return -1
	}
	sel := &selState{t: t}
	vc := s.release(t)
	for i, c := range cases {
		c.selEnqueue(s, sel, i, vc)
	}
	s.block("select", site)
	cases[sel.which].selFinish(s, t)
	return sel.which
}
