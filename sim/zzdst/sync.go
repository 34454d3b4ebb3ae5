//go:build go1.21

package zzdst

import (
	"fmt"
	"runtime"
)

// fatal reports an unrecoverable runtime error of the program under test.
func fatal(msg string, site int) {
	s := S
	s.fail("crash", "fatal error: "+msg+" in "+s.cur.name)
	runtime.Goexit()
}

type lockWaiter struct {
	t       *Task
	since   int64
	granted bool
}

// Mutex simulates sync.Mutex: barging with a starvation mode.
type Mutex struct {
	held    bool
	waiters []*lockWaiter
	vc      []uint32
	holder  string
	via     string
}

const starve = int64(1e6)

// Lock locks m.
func (m *Mutex) Lock() { m.lock(-2) }

func (m *Mutex) lock(site int) {
	s := active()
	if s == nil {
		m.held = true
		return
	}
	s.LockOps++
	s.point(pSync, s.cur.lastSite)
	t := s.cur
	var w *lockWaiter
	for m.held {
		if w == nil {
			w = &lockWaiter{t: t, since: s.now}
			m.waiters = append(m.waiters, w)
		} else {
			m.waiters = append([]*lockWaiter{w}, m.waiters...)
		}
		s.block("waiting for a mutex held by "+m.holder, t.lastSite)
		if w.granted {
			t.acquire(m.vc)
			m.holder = t.name
			return
		}
	}
	m.held = true
	m.holder = t.name
	t.acquire(m.vc)
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	s := active()
	if s == nil {
		ok := !m.held
		m.held = true
		return ok
	}
	s.point(pSync, s.cur.lastSite)
	if m.held {
		return false
	}
	m.held = true
	m.holder = s.cur.name
	s.cur.acquire(m.vc)
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	s := active()
	if s == nil {
		m.held = false
		return
	}
	if !m.held {
		fatal("sync: unlock of unlocked mutex", 0)
	}
	m.vc = s.release(s.cur)
	if len(m.waiters) > 0 {
		w := m.waiters[0]
		m.waiters = m.waiters[1:]
		if s.now-w.since > starve {
			w.granted = true // ownership handed over: m stays held
			m.holder = w.t.name
		} else {
			m.held = false
		}
		s.ready(w.t)
	} else {
		m.held = false
	}
	s.point(pSync, s.cur.lastSite)
}

// Locker is sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// RWMutex simulates sync.RWMutex with writer preference.
type RWMutex struct {
	w       Mutex
	pending bool
	active  int // readers holding the lock
	wait    int // readers the pending writer waits for
	writer  *Task
	readers []*lockWaiter
	wvc     []uint32
	rvc     []uint32
	wheld   bool
	by      string
}

// RLock locks rw for reading.
func (rw *RWMutex) RLock() {
	s := active()
	if s == nil {
		rw.active++
		return
	}
	s.LockOps++
	s.point(pSync, s.cur.lastSite)
	t := s.cur
	if rw.pending {
		w := &lockWaiter{t: t}
		rw.readers = append(rw.readers, w)
		s.block("waiting to read-lock a RWMutex, writer "+rw.by, t.lastSite)
	} else {
		rw.active++
	}
	t.acquire(rw.wvc)
}

// TryRLock tries to lock rw for reading.
func (rw *RWMutex) TryRLock() bool {
	s := active()
	if s == nil {
		rw.active++
		return true
	}
	s.point(pSync, s.cur.lastSite)
	if rw.pending {
		return false
	}
	rw.active++
	s.cur.acquire(rw.wvc)
	return true
}

// RUnlock undoes a single RLock.
func (rw *RWMutex) RUnlock() {
	s := active()
	if s == nil {
		rw.active--
		return
	}
	if rw.active == 0 {
		fatal("sync: RUnlock of unlocked RWMutex", 0)
	}
	merge(&rw.rvc, s.release(s.cur))
	rw.active--
	if rw.pending && rw.wait > 0 {
		rw.wait--
		if rw.wait == 0 && rw.writer != nil {
			s.ready(rw.writer)
			rw.writer = nil
		}
	}
	s.point(pSync, s.cur.lastSite)
}

// Lock locks rw for writing.
func (rw *RWMutex) Lock() {
	s := active()
	if s == nil {
		rw.wheld, rw.pending = true, true
		return
	}
	rw.w.lock(-2)
	t := s.cur
	rw.pending = true
	rw.by = t.name
	rw.wait = rw.active
	if rw.wait > 0 {
		rw.writer = t
		s.block(fmt.Sprintf("waiting for %d readers of a RWMutex", rw.wait), t.lastSite)
	}
	rw.wheld = true
	t.acquire(rw.wvc)
	t.acquire(rw.rvc)
}

// TryLock tries to lock rw for writing.
func (rw *RWMutex) TryLock() bool {
	s := active()
	if s == nil {
		rw.wheld, rw.pending = true, true
		return true
	}
	if rw.w.held || rw.active > 0 {
		s.point(pSync, s.cur.lastSite)
		return false
	}
	rw.w.held = true
	rw.w.holder = s.cur.name
	rw.pending, rw.wheld, rw.by = true, true, s.cur.name
	s.cur.acquire(rw.w.vc)
	s.cur.acquire(rw.wvc)
	s.cur.acquire(rw.rvc)
	return true
}

// Unlock unlocks rw for writing.
func (rw *RWMutex) Unlock() {
	s := active()
	if s == nil {
		rw.wheld, rw.pending = false, false
		return
	}
	if !rw.wheld {
		fatal("sync: Unlock of unlocked RWMutex", 0)
	}
	rw.wvc = s.release(s.cur)
	rw.rvc = nil
	rw.wheld, rw.pending = false, false
	for _, r := range rw.readers {
		rw.active++
		s.ready(r.t)
	}
	rw.readers = nil
	rw.w.Unlock()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (rw *RWMutex) RLocker() Locker { return (*rlocker)(rw) }

// WaitGroup simulates sync.WaitGroup.
type WaitGroup struct {
	n       int
	waiters []*Task
	vc      []uint32
}

// Add adds delta.
func (wg *WaitGroup) Add(delta int) {
	s := active()
	wg.n += delta
	if wg.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if s == nil {
		return
	}
	s.LockOps++
	merge(&wg.vc, s.release(s.cur))
	if wg.n == 0 {
		for _, t := range wg.waiters {
			s.ready(t)
		}
		wg.waiters = nil
	}
	s.point(pSync, s.cur.lastSite)
}

// Done decrements the counter.
func (wg *WaitGroup) Done() { wg.Add(-1) }

// Wait blocks until the counter is zero.
func (wg *WaitGroup) Wait() {
	s := active()
	if s == nil {
		return
	}
	s.point(pSync, s.cur.lastSite)
	if wg.n > 0 {
		wg.waiters = append(wg.waiters, s.cur)
		s.block("waiting for a WaitGroup", s.cur.lastSite)
	}
	s.cur.acquire(wg.vc)
}

// Go runs f in a new task counted by wg.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	Go(func() {
		defer wg.Done()
		f()
	}, S.cur.lastSite)
}

// Once simulates sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f once.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Cond simulates sync.Cond.
type Cond struct {
	L       Locker
	waiters []*Task
	vc      []uint32
}

// NewCond returns a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits for a signal.
func (c *Cond) Wait() {
	s := active()
	t := s.cur
	c.waiters = append(c.waiters, t)
	// unlock without losing a signal delivered meanwhile
	signalled := func() bool {
		for _, w := range c.waiters {
			if w == t {
				return false
			}
		}
		return true
	}
	c.L.Unlock()
	if !signalled() {
		s.block("waiting for a Cond", t.lastSite)
	}
	t.acquire(c.vc)
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() { c.wake(1) }

// Broadcast wakes every waiter.
func (c *Cond) Broadcast() { c.wake(len(c.waiters)) }

func (c *Cond) wake(n int) {
	s := active()
	if s == nil {
		return
	}
	merge(&c.vc, s.release(s.cur))
	for ; n > 0 && len(c.waiters) > 0; n-- {
		t := c.waiters[0]
		c.waiters = c.waiters[1:]
		s.ready(t)
	}
	s.point(pSync, s.cur.lastSite)
}

// SyncMap simulates sync.Map.
type SyncMap struct {
	mu Mutex
	m  map[any]any
}

func (m *SyncMap) with(f func()) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	f()
}

// Load returns the value for key.
func (m *SyncMap) Load(key any) (v any, ok bool) {
	m.with(func() { v, ok = m.m[key] })
	return
}

// Store sets the value for key.
func (m *SyncMap) Store(key, value any) { m.with(func() { m.m[MK(key)] = value }) }

// LoadOrStore returns the existing value or stores.
func (m *SyncMap) LoadOrStore(key, value any) (v any, loaded bool) {
	m.with(func() {
		if v, loaded = m.m[key]; !loaded {
			m.m[MK(key)] = value
			v = value
		}
	})
	return
}

// LoadAndDelete deletes the value for a key.
func (m *SyncMap) LoadAndDelete(key any) (v any, ok bool) {
	m.with(func() { v, ok = m.m[key]; delete(m.m, key) })
	return
}

// Delete deletes the value for a key.
func (m *SyncMap) Delete(key any) { m.with(func() { delete(m.m, key) }) }

// Swap swaps the value for a key.
func (m *SyncMap) Swap(key, value any) (v any, ok bool) {
	m.with(func() { v, ok = m.m[key]; m.m[MK(key)] = value })
	return
}

// CompareAndSwap swaps if equal.
func (m *SyncMap) CompareAndSwap(key, o, n any) (ok bool) {
	m.with(func() {
		if v, has := m.m[key]; has && v == o {
			m.m[MK(key)] = n
			ok = true
		}
	})
	return
}

// Range calls f for every entry.
func (m *SyncMap) Range(f func(k, v any) bool) {
	var keys []any
	m.with(func() { keys = mkeys(m.m, true) })
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Pool simulates sync.Pool.
type Pool struct {
	New   func() any
	items []any
	vc    []uint32
}

// Get an item.
func (p *Pool) Get() any {
	if s := active(); s != nil {
		s.point(pSync, s.cur.lastSite)
		s.cur.acquire(p.vc)
	}
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put an item.
func (p *Pool) Put(x any) {
	if s := active(); s != nil {
		merge(&p.vc, s.release(s.cur))
		s.point(pSync, s.cur.lastSite)
	}
	if x != nil {
		p.items = append(p.items, x)
	}
}

// AtomicOp is the scheduling point and happens-before edge of an atomic operation.
func AtomicOp(vc *[]uint32) {
	s := active()
	if s == nil {
		return
	}
	s.point(pSync, s.cur.lastSite)
	s.cur.acquire(*vc)
	merge(vc, s.release(s.cur))
}

var atomicVCs = map[any]*[]uint32{}
var atomicSim *Sim

// AtomicAddr is AtomicOp for atomic functions on plain variables.
func AtomicAddr(p any) {
	s := active()
	if s == nil {
		return
	}
	if atomicSim != s {
		atomicSim = s
		atomicVCs = map[any]*[]uint32{}
	}
	vc := atomicVCs[p]
	if vc == nil {
		vc = new([]uint32)
		atomicVCs[p] = vc
	}
	AtomicOp(vc)
}

// Gosched yields to another runnable task.
func Gosched() {
	s := active()
	if s == nil {
		return
	}
	s.point(pSync, s.cur.lastSite)
	if l := s.runnable(); len(l) > 0 {
		t := s.cur
		t.burst = 0
		t.st = stRunnable
		s.seq++
		t.ready = s.seq
		s.yieldTo(t, s.choose(t, l))
	}
}
