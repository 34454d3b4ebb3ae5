//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
)

// The reference model: a nondeterministic automaton of the documented life cycle.
// A configuration is one possible abstract state of the instance; the set of all
// configurations consistent with the history so far is maintained event by event.
// An empty set means that no atomic execution of the calls explains the history.

const (
	sCreated = int8(core.Created)
	sInit    = int8(core.Initializing)
	sReady   = int8(core.Ready)
	sRunning = int8(core.Running)
	sIdle    = int8(core.Idle)
	sFin     = int8(core.Finished)
)

const (
	pcDone  = int8(127)
	nslots  = 10
	maxCfgs = 6000
)

type cfg struct {
	st, owner             int8
	err, failing          uint8
	ending, armed, pendIt bool
	pendPub, pendX        int32
	iters, pushed, newD   int32
	pub, figx             int32
	pc                    [nslots]int8
	q                     string
}

type span struct{ lo, hi int64 }

type auto struct {
	in        *Inst
	w         *World
	c         *core.CtrlConf
	notify    bool
	errs      map[string]uint8
	errNames  []string
	slots     [nslots]*Call
	set       map[cfg]span
	iterating bool
	prevT     int64
	now       int64
	work      []cfg
	next      map[cfg]span
	maxSet    int
	evU       []Ev
}

func (a *auto) code(e string) uint8 {
	if c, ok := a.errs[e]; ok {
		return c
	}
	c := uint8(len(a.errNames))
	a.errs[e] = c
	a.errNames = append(a.errNames, e)
	return c
}

func (c *cfg) alive() bool { return c.st == sReady || c.st == sRunning || c.st == sIdle }

func (a *auto) enter(c *cfg, st int8, err uint8) {
	c.st, c.err = st, err
	if a.notify {
		c.q += string([]byte{byte(st), err})
	}
}

func (a *auto) add(c cfg, s span) {
	if o, ok := a.next[c]; ok {
		n := o
		if s.lo < n.lo {
			n.lo = s.lo
		}
		if s.hi > n.hi {
			n.hi = s.hi
		}
		if n == o {
			return
		}
		a.next[c] = n
	} else {
		a.next[c] = s
	}
	a.work = append(a.work, c)
}

// budget tells whether the configured number of iterations is reached.
func (a *auto) budget(c *cfg) bool {
	if a.c.Iter == 0 && a.c.IterPerData == 0 {
		return false
	}
	return int(c.iters) >= a.c.Iter+int(c.pushed)*a.c.IterPerData
}

// quietRun: the run routine is between two iterations and has saved the last one.
func (a *auto) quietRun(c *cfg) bool { return !a.iterating && !c.pendIt && c.pendPub == 0 }

func (a *auto) startRun(c *cfg, s *span) {
	a.enter(c, sRunning, 0)
	c.ending = false
	c.armed = a.c.Timeout > 0
	if c.armed {
		*s = span{a.prevT, a.now}
	} else {
		*s = span{}
	}
}

func (a *auto) disarm(c *cfg, s *span) { c.armed = false; *s = span{} }

// closure adds everything reachable by internal steps in the interval (prevT, now].
func (a *auto) closure() bool {
	a.next = a.set
	a.work = a.work[:0]
	for c := range a.set {
		a.work = append(a.work, c)
	}
	for len(a.work) > 0 {
		c := a.work[len(a.work)-1]
		a.work = a.work[:len(a.work)-1]
		a.step(c, a.next[c])
		if len(a.next) > maxCfgs {
			return false
		}
	}
	a.set = a.next
	if len(a.set) > a.maxSet {
		a.maxSet = len(a.set)
	}
	return true
}

func (a *auto) step(c cfg, s span) {
	// the implementation's result is counted and published
	if c.pendIt {
		n := c
		n.pendIt = false
		n.iters++
		n.figx = c.pendX
		n.pendX = 0
		a.add(n, s)
	}
	if c.pendPub != 0 && (c.st == sRunning) {
		n := c
		n.pub, n.pendPub = c.pendPub, 0
		a.add(n, s)
	}
	if c.st == sRunning && a.quietRun(&c) {
		if c.failing != 0 {
			n, t := c, s
			a.enter(&n, sFin, c.failing)
			n.failing = 0
			a.disarm(&n, &t)
			a.add(n, t)
		} else if c.ending {
			n := c
			n.ending = false
			a.enter(&n, sReady, 0)
			a.add(n, s)
		} else if a.budget(&c) {
			n := c
			n.ending = true
			a.add(n, s)
		}
	}
	if c.armed && c.alive() && c.owner == 0 && c.failing == 0 && a.quietRun(&c) && a.now >= s.lo+int64(a.c.Timeout) {
		n, t := c, s
		n.ending = false
		a.enter(&n, sFin, a.code("E.timeout"))
		a.disarm(&n, &t)
		a.add(n, t)
	}
	for i, op := range a.slots {
		if op != nil && c.pc[i] != pcDone {
			a.opStep(c, s, i, op)
		}
	}
}

func (a *auto) goPC(c cfg, s span, i int, pc int8) {
	c.pc[i] = pc
	a.add(c, s)
}

// initSteps are the steps of an initialization under way, at pc b+1..b+8.
func (a *auto) initSteps(c cfg, s span, i int, b int8, ok func(cfg, span), fail func(cfg, span, uint8)) {
	me := int8(i + 1)
	switch c.pc[i] - b {
	case 0: // take the control of a Created or Finished instance
		if c.owner == 0 && (c.st == sCreated || c.st == sFin) {
			n, t := c, s
			n.owner = me
			a.disarm(&n, &t)
			if c.st == sCreated {
				a.goPC(n, t, i, b+2)
			} else {
				a.goPC(n, t, i, b+1)
			}
		}
	case 1: // counters to reset
		n := c
		reset(&n)
		a.goPC(n, s, i, b+2)
		m := c
		a.enter(&m, sInit, 0)
		a.goPC(m, s, i, b+3)
	case 2:
		n := c
		a.enter(&n, sInit, 0)
		a.goPC(n, s, i, b+4)
	case 3:
		n := c
		reset(&n)
		a.goPC(n, s, i, b+4)
	case 4, 5: // the implementation initializes
	case 6: // initialized, to publish
		n := c
		n.pub, n.pendPub = c.pendPub, 0
		a.goPC(n, s, i, b+8)
	case 7:
		n := c
		e := c.failing
		n.failing, n.owner = 0, 0
		a.enter(&n, sFin, e)
		fail(n, s, e)
	case 8:
		n := c
		a.enter(&n, sReady, 0)
		ok(n, s)
	}
}

func reset(c *cfg) { c.iters, c.pushed, c.figx = 0, 0, 0 }

// playSteps are the steps of Play at pc b..b+9.
func (a *auto) playSteps(c cfg, s span, i int, b int8, done func(cfg, span, string)) {
	switch {
	case c.pc[i] == b+9:
		n, t := c, s
		n.owner = 0
		a.startRun(&n, &t)
		done(n, t, "")
		return
	case c.pc[i] == b:
		switch c.st {
		case sRunning:
			done(c, s, "E.running")
		case sIdle:
			if c.owner == 0 {
				n := c
				a.enter(&n, sRunning, 0)
				done(n, s, "")
			}
		case sReady:
			if c.owner == 0 {
				n, t := c, s
				a.startRun(&n, &t)
				done(n, t, "")
			}
		}
	}
	a.initSteps(c, s, i, b, func(n cfg, t span) { a.goPC(n, t, i, b+9) },
		func(n cfg, t span, e uint8) { done(n, t, a.errNames[e]) })
}

// stop is the transition of Stop; the second result is its error.
func (a *auto) stop(c cfg, s span) (cfg, span, string, bool) {
	switch {
	case c.alive():
		if c.owner != 0 || c.failing != 0 || !a.quietRun(&c) {
			return c, s, "", false
		}
		c.ending = false
		a.enter(&c, sFin, 0)
		a.disarm(&c, &s)
		return c, s, "", true
	}
	return c, s, "E.notAlive", true
}

func (a *auto) canNeverFinish(op *Call) bool {
	return op.Fin == nil && op.D <= 0 && a.c.Finishing == nil && a.c.Timeout <= 0 && a.c.Iter == 0 && a.c.IterPerData == 0
}

func (a *auto) waitSteps(c cfg, s span, i int, op *Call, b int8, done func(cfg, span, string)) {
	switch c.pc[i] - b {
	case 0:
		switch c.st {
		case sRunning:
			if a.canNeverFinish(op) {
				done(c, s, "E.neverFinish")
			} else {
				a.goPC(c, s, i, b+1)
			}
		case sIdle:
			done(c, s, "E.idle")
		case sReady, sFin:
			done(c, s, "")
		default:
			done(c, s, "E.notRunning")
		}
	case 1:
		if op.Fin == nil && (c.st == sReady || c.st == sIdle || c.st == sFin) {
			a.goPC(c, s, i, b+2)
		}
		if op.D > 0 && a.now >= op.CallT+int64(op.D) {
			done(c, s, "E.timeout")
		}
	case 2:
		done(c, s, a.errNames[c.err])
	}
}

func (a *auto) opStep(c cfg, s span, i int, op *Call) {
	fin := func(n cfg, t span, e string) {
		if !op.Done || op.Err == e {
			a.goPC(n, t, i, pcDone)
		}
	}
	p := c.pc[i]
	switch op.Kind {
	case "init":
		if p == 0 && c.st != sCreated && c.st != sFin {
			fin(c, s, "E.alreadyCreated")
			return
		}
		if p != 0 || !op.Done || op.Err != "E.alreadyCreated" {
			a.initSteps(c, s, i, 0, func(n cfg, t span) { n.owner = 0; fin(n, t, "") },
				func(n cfg, t span, e uint8) { fin(n, t, a.errNames[e]) })
		}
	case "play":
		if p == 0 && op.Done && op.Err == "E.running" && c.st != sRunning {
			return
		}
		a.playSteps(c, s, i, 0, fin)
	case "pause":
		if c.st == sRunning {
			if c.owner == 0 && c.failing == 0 && a.quietRun(&c) {
				n := c
				n.ending = false
				a.enter(&n, sIdle, 0)
				fin(n, s, "")
			}
		} else {
			fin(c, s, "E.notRunning")
		}
	case "stop":
		if n, t, e, ok := a.stop(c, s); ok {
			fin(n, t, e)
		}
	case "wait":
		a.waitSteps(c, s, i, op, 0, fin)
	case "batch":
		switch {
		case p == 0:
			if n, t, _, ok := a.stop(c, s); ok {
				a.goPC(n, t, i, 20)
			}
		case p >= 20 && p < 30:
			a.playSteps(c, s, i, 20, func(n cfg, t span, e string) {
				if e == "" {
					a.goPC(n, t, i, 40)
				} else {
					fin(n, t, e)
				}
			})
		case p >= 40 && p < 43:
			a.waitSteps(c, s, i, op, 40, func(n cfg, t span, e string) {
				if e == "" {
					a.goPC(n, t, i, 50)
				} else {
					fin(n, t, e)
				}
			})
		case p == 50:
			if e := a.errNames[c.err]; e != "" {
				fin(c, s, e)
			} else {
				a.goPC(c, s, i, 51)
			}
		case p == 51:
			if n, t, _, ok := a.stop(c, s); ok {
				fin(n, t, "")
			}
		}
	case "status":
		if !op.Done || (c.st == int8(op.St) && a.errNames[c.err] == op.Err) {
			a.goPC(c, s, i, pcDone)
		}
	case "figures":
		if !op.Done || (int(c.iters) == op.Iter && int(c.pushed) == op.Pushed && c.figx == op.FigX) {
			a.goPC(c, s, i, pcDone)
		}
	case "centroids", "predict":
		if !op.Done || c.pub == op.ID || has(op.IDs, c.pub) {
			a.goPC(c, s, i, pcDone)
		}
	case "push":
		switch p {
		case 1: // counted
			n := c
			n.pushed++
			n.newD++
			if a.c.DataPerIter > 0 {
				a.goPC(n, s, i, 2)
			} else {
				a.goPC(n, s, i, pcDone)
			}
		case 2: // resume check
			if c.st == sReady && int(c.newD) > a.c.DataPerIter {
				if c.owner == 0 {
					n := c
					n.newD = 0
					n.owner = int8(i + 1)
					a.goPC(n, s, i, 3)
				}
			} else {
				a.goPC(c, s, i, pcDone)
			}
		case 3:
			n, t := c, s
			n.owner = 0
			a.startRun(&n, &t)
			a.goPC(n, t, i, pcDone)
		}
	default: // no effect on the life cycle
		a.goPC(c, s, i, pcDone)
	}
}

// filter keeps the configurations accepted by f, which may update them.
func (a *auto) filter(f func(*cfg) bool) {
	n := make(map[cfg]span, len(a.set))
	a.next = n
	for c, s := range a.set {
		d := c
		if f(&d) {
			if o, ok := n[d]; ok {
				if o.lo < s.lo {
					s.lo = o.lo
				}
				if o.hi > s.hi {
					s.hi = o.hi
				}
			}
			n[d] = s
		}
	}
	a.set = n
}

// slackSince bounds what may legitimately have delayed a time-out since t.
func (a *auto) slackSince(e *Ev, t int64) int64 {
	lim := t - a.w.maxW
	// last event not after lim
	i := sort.Search(len(a.in.evs), func(k int) bool { return a.in.evs[k].T > lim })
	var u int64
	if i > 0 {
		u = a.in.evs[i-1].U
	}
	n := int64(0)
	for k := i; k < len(a.in.evs) && a.in.evs[k].Seq <= e.Seq; k++ {
		if a.in.evs[k].K == EvCall {
			n++
		}
	}
	period := int64(0)
	if a.c.IterFreq > 0 {
		period = int64(float64(time.Second) / a.c.IterFreq)
	}
	return e.U - u + (n+2)*period + int64(5*time.Millisecond)
}

// explain checks the whole history of an instance.
func (in *Inst) explain() *Violation {
	a := &auto{in: in, w: in.w, c: in.ctrl, notify: in.ctrl.StatusNotifier != nil, errs: map[string]uint8{}}
	a.code("")
	a.set = map[cfg]span{{newD: 0}: {}}
	var before map[cfg]span
	for k := range in.evs {
		e := &in.evs[k]
		if len(a.errNames) > 250 {
			in.w.incon = "too many distinct errors"
			return nil
		}
		if e.Err != "" {
			a.code(e.Err)
		}
		a.now = e.T
		if !a.closure() {
			in.w.incon = "model state budget exhausted"
			return nil
		}
		for _, op := range e.Waits {
			i := op.slot
			a.filter(func(c *cfg) bool { return c.pc[i] != 0 })
		}
		if len(e.Waits) > 0 && len(a.set) == 0 {
			return &Violation{"history-wait", fmt.Sprintf("%s: %v waits at event %d at %v although the instance was not running at any moment since the call\n%s",
				in.name, e.Waits[0], k, time.Duration(e.T), a.tail(k))}
		}
		before = a.set
		ok := true
		switch e.K {
		case EvCall:
			ok = false
			for i := range a.slots {
				if a.slots[i] == nil {
					a.slots[i], e.Op.slot = e.Op, i
					ok = true
					break
				}
			}
			if !ok {
				in.w.incon = "too many concurrent calls"
				return nil
			}
			if e.Op.Kind == "push" { // waits for the implementation
				break
			}
		case EvRet:
			i := e.Op.slot
			a.filter(func(c *cfg) bool {
				if c.pc[i] != pcDone {
					return false
				}
				c.pc[i] = 0
				return true
			})
			a.slots[i] = nil
		case EvInitB:
			a.filter(func(c *cfg) bool {
				if c.owner == 0 || c.st != sInit {
					return false
				}
				i := c.owner - 1
				for _, b := range []int8{0, 20} {
					if c.pc[i] == b+4 {
						c.pc[i] = b + 5
						return true
					}
				}
				return false
			})
		case EvInitE:
			code := a.code(e.Err)
			a.filter(func(c *cfg) bool {
				if c.owner == 0 {
					return false
				}
				i := c.owner - 1
				for _, b := range []int8{0, 20} {
					if c.pc[i] == b+5 {
						if e.Err == "" {
							c.pc[i], c.pendPub = b+6, e.ID
						} else {
							c.pc[i], c.failing = b+7, code
						}
						return true
					}
				}
				return false
			})
		case EvIterB:
			a.filter(func(c *cfg) bool {
				return c.st == sRunning && a.quietRun(c) && !c.ending && c.failing == 0 && !a.budget(c) && c.pub == e.ID
			})
			a.iterating = true
		case EvIterE:
			a.iterating = false
			code := a.code(e.Err)
			a.filter(func(c *cfg) bool {
				switch {
				case e.Err != "":
					c.failing = code
				case e.Nil:
				default:
					c.pendIt, c.pendPub, c.pendX = true, e.ID, e.FigX
				}
				return true
			})
		case EvPushE:
			if e.Op != nil && a.slots[e.Op.slot] == e.Op {
				i := e.Op.slot
				a.filter(func(c *cfg) bool {
					if c.pc[i] != 0 {
						return false
					}
					if e.Err == "" {
						c.pc[i] = 1
						return !e.Op.Done || e.Op.Err == ""
					}
					c.pc[i] = pcDone
					return !e.Op.Done || e.Op.Err == e.Err
				})
			}
		case EvFin:
			a.filter(func(c *cfg) bool {
				if c.st == sRunning && c.failing == 0 {
					c.ending = true
				}
				return true
			})
		case EvWaitFin:
			if e.Op != nil && a.slots[e.Op.slot] == e.Op {
				i := e.Op.slot
				a.filter(func(c *cfg) bool {
					if c.pc[i] == 1 {
						c.pc[i] = 2
					}
					return true
				})
			}
		case EvNotifB:
			h := string([]byte{byte(e.St), a.code(e.Err)})
			a.filter(func(c *cfg) bool {
				if !strings.HasPrefix(c.q, h) {
					return false
				}
				c.q = c.q[2:]
				return true
			})
		case EvEnd:
			a.filter(func(c *cfg) bool { return c.q == "" && !c.pendIt && c.pendPub == 0 && c.failing == 0 })
		}
		if len(a.set) > 0 && a.c.Timeout > 0 {
			memo := map[int64]int64{}
			late := false
			n := map[cfg]span{}
			for c, s := range a.set {
				if c.armed && c.alive() && e.T > s.hi+int64(a.c.Timeout) {
					sl, ok := memo[s.hi]
					if !ok {
						sl = a.slackSince(e, s.hi)
						memo[s.hi] = sl
					}
					if e.T > s.hi+int64(a.c.Timeout)+sl {
						late = true
						continue
					}
				}
				n[c] = s
			}
			a.set = n
			if len(n) == 0 && late {
				return &Violation{"timeout-late", fmt.Sprintf("%s: the time-out of %v should have ended the instance before %v (event %d: %s)\n%s", in.name, a.c.Timeout, time.Duration(e.T), k, a.evString(e), a.tail(k))}
			}
		}
		if len(a.set) == 0 {
			return &Violation{a.classify(e), fmt.Sprintf("%s: no atomic execution explains event %d at %v: %s; possible states before it: %s\n%s",
				in.name, k, time.Duration(e.T), a.evString(e), a.sample(before), a.tail(k))}
		}
		a.prevT = e.T
	}
	if a.maxSet > in.w.probes["model-max-states"] {
		in.w.probes["model-max-states"] = a.maxSet
	}
	return nil
}

func (a *auto) evString(e *Ev) string {
	s := evNames[e.K]
	if e.Op != nil {
		s += " " + e.Op.String()
	}
	if e.K == EvNotifB {
		s += " " + e.St.String()
	}
	if e.K == EvIterB {
		s += fmt.Sprintf(" with centroids #%d", e.ID)
	} else if e.ID != 0 {
		s += fmt.Sprintf(" #%d", e.ID)
	}
	if e.Err != "" && e.K != EvRet {
		s += " " + e.Err
	}
	if e.Nil {
		s += " (no result)"
	}
	return s
}

func (a *auto) classify(e *Ev) string {
	switch e.K {
	case EvRet:
		return "history-" + e.Op.Kind
	case EvInitB:
		return "history-initialization"
	case EvIterB:
		return "history-iteration"
	case EvNotifB:
		return "history-notification"
	case EvEnd:
		return "history-end"
	}
	return "history"
}

func (a *auto) sample(set map[cfg]span) string {
	var out []string
	for c := range set {
		s := core.ClustStatus(c.st).String()
		if c.err != 0 {
			s += "(" + a.errNames[c.err] + ")"
		}
		s += fmt.Sprintf(" iterations %d pushed %d result #%d", c.iters, c.pushed, c.pub)
		if a.c.DataPerIter > 0 {
			s += fmt.Sprintf(" new %d", c.newD)
		}
		if c.failing != 0 {
			s += " failing"
		}
		if c.ending {
			s += " ending"
		}
		if c.q != "" {
			s += " to notify:"
			for i := 0; i+1 < len(c.q); i += 2 {
				s += " " + core.ClustStatus(c.q[i]).String()
			}
		}
		out = append(out, s)
	}
	sort.Strings(out)
	var u []string
	for i, s := range out {
		if i == 0 || s != out[i-1] {
			u = append(u, s)
		}
	}
	if len(u) > 8 {
		u = append(u[:8], fmt.Sprintf("... %d more", len(u)-8))
	}
	return "{" + strings.Join(u, " | ") + "}"
}

func (a *auto) tail(k int) string {
	var b strings.Builder
	from := k - 25
	if from < 0 {
		from = 0
	}
	for i := from; i <= k; i++ {
		e := &a.in.evs[i]
		fmt.Fprintf(&b, "    %12v %s\n", time.Duration(e.T), a.evString(e))
	}
	return b.String()
}

func has(l []int32, x int32) bool {
	for _, v := range l {
		if v == x {
			return true
		}
	}
	return false
}
