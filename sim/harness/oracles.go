//go:build go1.21

package main

import (
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/zzdst"
)

// mayEndRun tells whether a run may have ended by itself after iters iterations.
func (in *Inst) mayEndRun(iters int) bool {
	c := in.ctrl
	return c.Finishing != nil || c.Timeout > 0 || ((c.Iter > 0 || c.IterPerData > 0) && iters >= c.Iter)
}

// checkWaits bounds the time a Wait without condition, or a Batch, keeps waiting
// although the run was seen to be over or paused.
func (in *Inst) checkWaits() {
	if in.w.spec.Notifier == "control" {
		return
	}
	const period = int64(100 * time.Millisecond)
	calls := in.w.calls
	for _, c := range calls {
		if c.Inst != in || !c.Done || c.Kind != "wait" && c.Kind != "batch" || c.Kind == "wait" && c.Fin != nil {
			continue
		}
		from := c.CallSeq
		if c.Kind == "batch" { // the run of the batch has begun
			ok, inited := false, false
			for k := c.CallEv; k < c.RetEv && !ok; k++ {
				switch in.evs[k].K {
				case EvInitE:
					inited = true
				case EvIterB:
					ok = inited
				}
				from = in.evs[k].Seq
			}
			for _, o := range calls { // whose initialization was it?
				if o.Inst == in && o != c && o.CallSeq < c.RetSeq && (!o.Done || o.RetSeq > c.CallSeq) {
					switch o.Kind {
					case "init", "play", "batch":
						ok = false
					}
				}
			}
			if !ok {
				continue
			}
		}
	reads:
		for _, s := range calls {
			if s.Inst != in || s.Kind != "status" || !s.Done || s.RetSeq > c.RetSeq || s.St != core.Ready && s.St != core.Idle && s.St != core.Finished {
				continue
			}
			if s.CallSeq < from && c.Kind == "batch" {
				continue
			}
			t, u := s.RetT, s.RetU
			if c.CallT > t {
				t, u = c.CallT, c.CallU
			}
			if c.RetT-t <= period+c.RetU-u+in.w.maxW+int64(2*ms) {
				continue
			}
			for _, o := range calls {
				if o.Inst != in || o == c || o.CallSeq > c.RetSeq || o.Done && o.RetSeq < s.CallSeq {
					continue
				}
				switch o.Kind {
				case "init", "play", "batch":
					continue reads
				case "push":
					if in.ctrl.DataPerIter > 0 {
						continue reads
					}
				}
			}
			in.w.violate("wait-slow", "%s: %v keeps waiting for %v after the status was seen to be %v at %v", in.name, c, time.Duration(c.RetT-t), s.St, time.Duration(s.RetT))
			return
		}
	}
}

// checkPace checks the distance between the iterations of a run and the delay of
// the control calls of a lone client.
func (in *Inst) checkPace() {
	if in.ctrl.IterFreq <= 0 {
		return
	}
	period := int64(float64(time.Second) / in.ctrl.IterFreq)
	var lastB, lastE, prevE *Ev // begin of the previous iteration, its end, end of the one before
	restart, fresh := false, false
	open := map[*Call]bool{}
	iters := 0
	for k := range in.evs {
		e := &in.evs[k]
		starts := func(c *Call) {
			switch c.Kind {
			case "stop", "batch", "init":
				fresh = true
				restart = true
			case "play":
				restart = true
			case "push":
				if in.ctrl.DataPerIter > 0 {
					restart = true
				}
			}
		}
		switch e.K {
		case EvCall:
			open[e.Op] = true
			starts(e.Op)
		case EvRet:
			delete(open, e.Op)
			c := e.Op
			if (c.Kind == "pause" || c.Kind == "stop") && len(in.w.spec.Clients) == 1 && c.Client == 0 {
				if d := c.RetT - c.CallT; d > period+c.RetU-c.CallU+in.w.maxW+int64(2*ms) {
					in.w.violate("slow-control", "%s: %v took %v with an iteration period of %v", in.name, c, time.Duration(d), time.Duration(period))
				}
			}
		case EvInitB:
			iters = 0
			fresh = true
			restart = true
		case EvIterB:
			sameRun := !restart || (!fresh && !in.mayEndRun(iters))
			if lastB != nil && sameRun && lastE != nil && lastE.Err == "" {
				tol := lastB.U + 1
				if prevE != nil {
					tol -= prevE.U
				}
				gap := e.T - lastB.T
				in.w.probe("paced-pairs")
				if restart {
					in.w.probe("paced-pairs-across-pause")
				}
				if gap < period-tol {
					in.w.violate("pace", "%s: iterations of one run start %v apart at %v and %v, less than the period %v (tolerance %v)", in.name,
						time.Duration(gap), time.Duration(lastB.T), time.Duration(e.T), time.Duration(period), time.Duration(tol))
				}
			}
			lastB = e
			restart, fresh = false, false
			for c := range open {
				starts(c)
			}
		case EvIterE:
			prevE = lastE
			lastE = e
			if e.Err == "" && !e.Nil {
				iters++
			}
		}
	}
}

// checkFigures checks the durations and times in the figures read.
func (in *Inst) checkFigures() {
	var reads []*Call
	var ctl []*Call
	for _, c := range in.w.calls {
		if c.Inst != in || !c.Done {
			continue
		}
		switch c.Kind {
		case "figures":
			reads = append(reads, c)
		case "init", "play", "batch":
			ctl = append(ctl, c)
		}
	}
	mayReset := func(from, to uint64) bool {
		for _, c := range ctl {
			if c.CallSeq < to && c.RetSeq > from {
				return true
			}
		}
		return false
	}
	jumps := in.w.faults["clock-jump"] > 0
	for i, a := range reads {
		if a.Dur < 0 || int64(a.Dur) > a.RetT {
			in.w.violate("duration", "%s: duration %v read at %v", in.name, time.Duration(a.Dur), time.Duration(a.RetT))
			return
		}
		for _, b := range reads[i+1:] {
			if a.RetSeq >= b.CallSeq || mayReset(a.CallSeq, b.RetSeq) {
				continue
			}
			if b.Dur < a.Dur {
				in.w.violate("duration", "%s: the duration went from %v back to %v without restart", in.name, time.Duration(a.Dur), time.Duration(b.Dur))
				return
			}
			if !jumps && b.LastData < a.LastData {
				in.w.violate("last-data-time", "%s: the last data time went from %v back to %v", in.name, a.LastData, b.LastData)
				return
			}
			break
		}
	}
	// within one life the duration is bounded by the age of the instance
	for _, a := range reads {
		var b, e *Ev
		for k := range in.evs {
			x := &in.evs[k]
			switch {
			case x.K == EvInitB && x.Seq < a.CallSeq:
				b = x
			case x.K == EvInitE && x.Seq < a.CallSeq:
				e = x
			}
		}
		if b == nil || e == nil || e.Seq < b.Seq {
			continue // being initialized
		}
		if int64(a.Dur) > a.RetT-b.T {
			in.w.violate("duration", "%s: duration %v read %v after the initialization began", in.name, time.Duration(a.Dur), time.Duration(a.RetT-b.T))
			return
		}
	}
	if len(reads) == 0 {
		return
	}
	// the last read, made when everything is over
	last := reads[len(reads)-1]
	if last.Client != 70 {
		return
	}
	var initB, initE *Ev
	var spent, b int64
	for k := range in.evs {
		e := &in.evs[k]
		switch e.K {
		case EvInitB:
			initB, spent = e, 0
		case EvInitE:
			initE = e
		case EvIterB:
			b = e.T
		case EvIterE:
			spent += e.T - b
		}
	}
	if initB == nil || initE == nil {
		return
	}
	if int64(last.Dur) < spent || int64(last.Dur) > last.CallT-initE.T {
		in.w.violate("duration", "%s: final duration %v, but the iterations of this life took %v and it began %v ago", in.name,
			time.Duration(last.Dur), time.Duration(spent), time.Duration(last.CallT-initE.T))
	}
	in.checkLastData(last, initB)
}

func (in *Inst) checkLastData(last *Call, initB *Ev) {
	// calls that may have reset the figures for the last time
	var from uint64
	first := true
	for k := range in.evs {
		if in.evs[k].K == EvInitB {
			first = in.evs[k].Seq == initB.Seq
			break
		}
	}
	if !first {
		// the initializing call
		for _, c := range in.w.calls {
			if c.Inst == in && (c.Kind == "init" || c.Kind == "play" || c.Kind == "batch") && c.CallSeq < initB.Seq && (!c.Done || c.RetSeq > initB.Seq) {
				if from == 0 || c.CallSeq < from {
					from = c.CallSeq
				}
			}
		}
	}
	var acc []*Call
	for _, p := range in.pushes {
		if !p.Done || p.Err != "" {
			continue
		}
		if first || p.pushAt > initB.Seq {
			acc = append(acc, p)
		} else if p.RetSeq > from {
			return // ambiguous
		}
	}
	if len(acc) == 0 {
		if last.LastData != 0 {
			in.w.violate("last-data-time", "%s: last data time %v without any data", in.name, last.LastData)
		}
		return
	}
	var maxAt uint64
	for _, p := range acc {
		if p.pushAt > maxAt {
			maxAt = p.pushAt
		}
	}
	for _, p := range acc {
		if p.RetSeq < maxAt {
			continue // another push was surely counted later
		}
		if p.WallRet-p.WallAt != p.RetT-p.AtT {
			return // the wall clock jumped meanwhile
		}
		if int64(last.LastData) >= p.UnixAt && int64(last.LastData) <= p.UnixRet {
			return
		}
	}
	in.w.violate("last-data-time", "%s: last data time %v is not the time of the latest push", in.name, int64(last.LastData))
}

// stamp records when an element reached the implementation.
func (c *Call) stamp() {
	c.AtT = zzdst.Now()
	c.WallAt = zzdst.WallOffset() + zzdst.Now()
	c.UnixAt = zzdst.WallUnix()
}

var _ = core.Ready
