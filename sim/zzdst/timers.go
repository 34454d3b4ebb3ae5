//go:build go1.21

package zzdst

import (
	"time"
	"unsafe"
)

// base of the simulated wall clock.
const wallBase = int64(1700000000) * 1e9

// wall representation of time.Time with a monotonic reading.
type timeRep struct {
	wall uint64
	ext  int64
	loc  *time.Location
}

// TimeNow returns the simulated time: wall clock (which may jump) and monotonic
// clock (which never does), as time.Now does.
func TimeNow() time.Time {
	var mono, off int64
	if s := active(); s != nil {
		mono, off = s.now, s.wallOff
	}
	return MakeTime(mono, off)
}

// MakeTime builds a time.Time with a monotonic reading.
func MakeTime(mono, off int64) time.Time {
	unixNano := wallBase + mono + off
	sec, nsec := unixNano/1e9, unixNano%1e9
	// seconds since 1885 in 33 bits
	const unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)
	const wallToInternal = int64((1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400)
	var t time.Time
	r := (*timeRep)(unsafe.Pointer(&t))
	r.wall = 1<<63 | uint64(sec+unixToInternal-wallToInternal)<<30 | uint64(nsec)
	r.ext = mono + 1
	r.loc = time.UTC
	return t
}

// Timer simulates time.Timer.
type Timer struct {
	C  *Chan[time.Time]
	ev *timerEv
	f  func()
	t  func(d time.Duration)
}

func newTimer(d time.Duration, f func(), site int) *Timer {
	s := active()
	t := &Timer{}
	if f == nil {
		t.C = MakeChan[time.Time](1, site)
	}
	if s == nil {
		t.t = func(time.Duration) {}
		return t // a package's initialisation, which every run repeats
	}
	cr := s.cur
	t.t = func(d time.Duration) {
		vc := s.release(s.cur)
		cr.children++
		key := mix(cr.key, cr.children*2)
		t.ev = s.addTimer(d, func() {
			if f != nil {
				n := s.newTask("timer@"+siteName(site), key, site, f)
				n.lib = true
				n.acquire(vc)
				return
			}
			t.C.deliver(s, MakeTime(s.now, s.wallOff))
		})
	}
	t.t(d)
	s.point(pSync, site)
	return t
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer { return newTimer(d, nil, CurSite()) }

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer { return newTimer(d, f, maxInt(CurSite(), 0)) }

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// Stop prevents the timer from firing.
func (t *Timer) Stop() bool {
	s := active()
	if s == nil {
		return true
	}
	s.point(pSync, s.cur.lastSite)
	ok := s.delTimer(t.ev)
	if t.C != nil { // since Go 1.23 an unread tick is withdrawn
		ok = ok || len(t.C.buf) > 0
		t.C.buf = nil
	}
	return ok
}

// Reset changes the timer to expire after d.
func (t *Timer) Reset(d time.Duration) bool {
	s := active()
	if s == nil {
		return true
	}
	s.point(pSync, s.cur.lastSite)
	ok := s.delTimer(t.ev)
	if t.C != nil { // since Go 1.23 an unread tick is withdrawn
		ok = ok || len(t.C.buf) > 0
		t.C.buf = nil
	}
	t.t(d)
	return ok
}

// Ticker simulates time.Ticker.
type Ticker struct {
	C   *Chan[time.Time]
	ev  *timerEv
	gen int
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	s := active()
	t := &Ticker{C: MakeChan[time.Time](1, CurSite())}
	if s == nil {
		return t
	}
	t.arm(s, d)
	s.point(pSync, s.cur.lastSite)
	return t
}

func (t *Ticker) arm(s *Sim, d time.Duration) {
	t.gen++
	g := t.gen
	var f func()
	f = func() {
		if t.gen != g {
			return
		}
		t.C.deliver(s, MakeTime(s.now, s.wallOff))
		t.ev = s.addTimer(d, f)
	}
	t.ev = s.addTimer(d, f)
}

// Stop stops the ticker.
func (t *Ticker) Stop() {
	s := active()
	if s == nil {
		return
	}
	s.point(pSync, s.cur.lastSite)
	t.gen++
	s.delTimer(t.ev)
}

// Reset changes the period.
func (t *Ticker) Reset(d time.Duration) {
	s := active()
	if s == nil {
		return
	}
	s.delTimer(t.ev)
	t.arm(s, d)
}

// CurSite is the last site the current task went through.
func CurSite() int {
	if S == nil || S.cur == nil {
		return HarnessSite
	}
	return S.cur.lastSite
}
