//go:build go1.21

package main

import (
	"github.com/wearelumenai/distclus/zzdst"
	"time"
)

// genCtrl draws a scenario over the mock implementation for a property.
func (r *rnd) genCtrl(prop string) *Spec {
	s := &Spec{Prop: prop, Kind: "ctrl", Seed: r.Uint64(), Algo: "mock"}
	r.genSim(s)
	s.Iter = r.pick(0, 1, 1, 2, 3, 5, 12)
	s.IPD = r.pick(0, 0, 0, 1, 2)
	s.DPI = r.pick(0, 0, 0, 1, 2)
	s.Freq = r.f(0, 0, 0, 0, 20, 100)
	s.Timeout = r.dur(0, 0, 0, 10*ms, 50*ms, 200*ms, 700*ms)
	s.IterDur = r.dur(0, 0, ms, 7*ms, 40*ms)
	s.IterYield = r.Intn(4)
	s.InitDur = r.dur(0, 0, 0, 3*ms, 30*ms)
	s.InitYield = r.Intn(3)
	s.Notifier = r.str("", "", "", "fast")
	s.Final = r.str("stop", "stop", "run", "leave")
	if s.Iter == 0 && s.IterDur == 0 && s.Freq == 0 {
		s.IterDur = r.dur(ms, 5*ms)
	}
	if r.Intn(8) == 0 {
		s.FinIters = 1 + r.Intn(4)
		if r.Intn(2) == 0 {
			s.FinComp, s.FinFlag = r.str("and", "or"), r.Intn(2) == 0
		}
	} else if r.Intn(10) == 0 {
		s.FinFlag = true
	}
	nc := 1 + r.Intn(4)
	nop := 2 + r.Intn(7)
	w := map[string]int{"init": 3, "play": 8, "pause": 5, "stop": 5, "wait": 4, "status": 3, "push": 4, "figures": 2, "centroids": 2, "predict": 1, "batch": 1, "sleep": 8, "yield": 3}
	switch prop {
	case "C01":
		w["batch"] = 3
		s.Notifier = r.str("", "fast", "slow", "hour", "status", "control")
		r.genFaults(s, 0.4, "init", "iter", "push", "notify")
	case "C02":
		w["pause"], w["stop"], w["play"] = 8, 6, 12
		if s.Iter > 0 && r.Intn(2) == 0 {
			s.Iter = 0
			s.IPD = 0
			if s.IterDur == 0 {
				s.IterDur = r.dur(ms, 5*ms)
			}
		}
		r.genFaults(s, 0.2, "iter", "init")
	case "C03":
		w["status"], w["wait"] = 6, 6
		r.genFaults(s, 0.25, "init", "iter")
	case "C04":
		w["stop"], w["batch"], w["init"] = 1, 1, 1
		w["push"] = 8
		w["figures"] = 4
		s.Final = r.str("run", "run", "stop")
		s.Timeout = r.dur(0, 0, 0, 0, 300*ms)
		s.IPD = r.pick(0, 1, 1, 2, 3)
		if r.Intn(4) == 0 {
			s.FinIters = 1 + r.Intn(5)
			if r.Intn(2) == 0 {
				s.FinComp, s.FinFlag = r.str("and", "or"), r.Intn(2) == 0
			}
		}
		r.genNil(s)
	case "C05":
		s.Timeout = r.dur(0, 5*ms, 20*ms, 50*ms, 150*ms, 400*ms)
		if r.Intn(3) == 0 {
			s.Iter = 0
			s.IPD = 0
		}
		w["wait"] = 8
		s.PWall = r.f(0, 0.005, 0.02, 0.05)
		r.genFaults(s, 0.15, "iter", "init")
	case "C06":
		r.genFaults(s, 0.95, "init", "iter", "push")
		s.Notifier = r.str("", "fast", "slow")
		w["centroids"], w["figures"], w["predict"], w["wait"], w["batch"] = 4, 4, 4, 6, 3
	case "C08":
		w["centroids"], w["predict"] = 14, 14
		r.genFaults(s, 0.3, "init", "iter")
	case "C09":
		s.Notifier = r.str("fast", "fast", "slow", "hour", "status", "control")
		r.genFaults(s, 0.3, "init", "iter", "notify")
	case "C16":
		s.Freq = r.f(5, 20, 50, 100, 300, 0.7, 30, 700, 1500)
		s.Timeout = r.dur(0, 0, 0, 600*ms)
		s.IterDur = r.dur(0, 0, ms, 7*ms, 40*ms, 90*ms)
		if r.Intn(2) == 0 {
			s.Iter, s.IPD = r.pick(6, 15, 30), 0
		}
		nc = r.pick(1, 1, 1, 2)
		nop = 3 + r.Intn(8)
		w["batch"] = 0
		w["init"] = 1
		w["sleep"] = 14
		s.PWall = r.f(0, 0, 0.01, 0.05)
		r.genNil(s)
	case "C17":
		s.DPI = r.pick(0, 1, 1, 2, 3)
		s.Iter, s.IPD = r.pick(0, 1, 2, 3), r.pick(0, 1, 1)
		if s.Iter == 0 && s.IPD == 0 {
			s.Iter = 1
		}
		w["push"] = 16
		w["status"] = 5
		w["wait"] = 1
		s.Timeout = r.dur(0, 0, 0, 30*ms, 150*ms)
		r.genFaults(s, 0.15, "iter", "init", "push")
		r.genRefusals(s, 0.3)
	case "C19":
		w["figures"] = 16
		w["push"] = 10
		s.PWall = r.f(0, 0, 0.005, 0.02)
		r.genNil(s)
		r.genFaults(s, 0.3, "init", "iter", "push")
		r.genRefusals(s, 0.1)
	case "C20":
		w["play"], w["stop"], w["init"] = 12, 10, 3
		w["push"] = 5
		s.Timeout = r.dur(0, 10*ms, 50*ms, 200*ms, time.Hour)
		s.Notifier = r.str("", "fast", "slow", "status", "hour")
		r.genFaults(s, 0.4, "init", "iter")
		nop = 4 + r.Intn(10)
	case "C10":
		w["batch"] = 8
		r.genFaults(s, 0.4, "init", "iter")
	case "C14":
		w["copy"] = 6
		r.genFaults(s, 0.3, "init", "iter")
	}
	if s.Notifier == "slow" {
		s.NotDur = r.dur(ms, 20*ms, 150*ms)
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < nop; i++ {
			ops = append(ops, r.genOp(s, w))
		}
		if c == 0 && r.Intn(4) != 0 {
			ops = append([]Op{{K: "play"}}, ops...)
		}
		s.Clients = append(s.Clients, ops)
	}
	if (prop == "C05" || prop == "C01") && r.Intn(3) == 0 {
		s.Clients = append(s.Clients, []Op{{K: "watch", A: 10 + r.Intn(40), D: r.dur(60*ms, 90*ms, 170*ms)}})
	}
	if prop == "C17" && r.Intn(5) == 0 {
		r.idlePush(s)
	}
	if prop == "C17" && r.Intn(5) == 0 {
		r.racingPush(s)
	}
	if prop == "C09" && r.Intn(60) == 0 { // many changes while the notifier is busy
		ops := []Op{{K: "play"}}
		for i := r.pick(20, 40, 70, 150); i > 0; i-- {
			ops = append(ops, Op{K: r.str("pause", "stop", "pause", "pause")}, Op{K: "play"})
		}
		s.Clients = [][]Op{ops}
		s.Notifier, s.Iter, s.IPD, s.Freq, s.Timeout, s.Faults = r.str("hour", "slow"), 0, 0, 0, 0, nil
		s.NotDur, s.IterDur, s.MaxSteps = time.Second, ms, 400000
	}
	return s
}

// idlePush makes elements arrive while the instance is paused: they count for the
// next data-driven resume.
func (r *rnd) idlePush(s *Spec) {
	s.Iter, s.IPD, s.DPI = r.pick(2, 3, 5), r.pick(0, 0, 1), 1+r.Intn(3)
	s.IterDur = r.dur(5*ms, 20*ms)
	s.Timeout = 0
	ops := []Op{{K: "play"}, {K: "sleep", D: r.dur(0, ms, 6*ms)}, {K: "pause"}}
	ops = append(ops, Op{K: "push", A: 1 + r.Intn(3)}, Op{K: "play"}, Op{K: r.str("wait", "sleep"), D: 420 * ms})
	for i := r.Intn(4); i >= 0; i-- {
		ops = append(ops, Op{K: "push", A: 1}, Op{K: r.str("status", "sleep", "pause"), D: r.dur(0, 5*ms, 60*ms)})
	}
	s.Clients = [][]Op{ops}
	if r.Intn(3) == 0 {
		s.Clients = append(s.Clients, []Op{{K: "sleep", D: r.dur(0, 10*ms, 200*ms)}, {K: "push", A: 1}, {K: "pause"}, {K: "push", A: 1}, {K: "play"}})
	}
}

// racingPush makes several callers resume the same instance.
func (r *rnd) racingPush(s *Spec) {
	s.Iter, s.IPD, s.DPI = r.pick(0, 1, 2), 1, 1+r.Intn(3)
	s.IterDur, s.InitDur, s.Timeout, s.FinIters, s.FinFlag = r.dur(0, ms), 0, 0, 0, false
	if s.PStall > 0 || r.Intn(2) == 0 {
		s.PStall, s.StallMax = r.f(0.01, 0.03), r.dur(20*ms, 120*ms)
	}
	s.Clients = [][]Op{{{K: "push", A: 1}, {K: "play"}, {K: "wait", D: 420 * ms}}}
	for c := 1 + r.Intn(3); c >= 0; c-- {
		ops := []Op{{K: "sleep", D: 60 * ms}}
		for i := 1 + r.Intn(4); i > 0; i-- {
			ops = append(ops, Op{K: "push", A: r.pick(1, 1, 2)}, Op{K: r.str("sleep", "yield", "status"), A: r.Intn(9), D: r.dur(0, ms, 20*ms)})
		}
		s.Clients = append(s.Clients, ops)
	}
}

func (r *rnd) genOp(s *Spec, w map[string]int) Op {
	names := []string{"init", "play", "pause", "stop", "wait", "status", "push", "figures", "centroids", "predict", "batch", "sleep", "yield", "copy"}
	tot := 0
	for _, n := range names {
		tot += w[n]
	}
	k := r.Intn(tot)
	op := Op{}
	for _, n := range names {
		if k < w[n] {
			op.K = n
			break
		}
		k -= w[n]
	}
	switch op.K {
	case "sleep":
		op.D = r.dur(0, 100*time.Microsecond, ms, 5*ms, 20*ms, 60*ms, 100*ms, 250*ms)
		if s.Timeout > 0 && s.Timeout < time.Second && r.Intn(3) == 0 { // around the time-out
			op.D = s.Timeout + time.Duration(r.Intn(80)-60)*20*time.Microsecond
			if op.D < 0 {
				op.D = 0
			}
		}
		if s.Freq > 0 && r.Intn(3) == 0 {
			op.D = time.Duration(float64(time.Second)/s.Freq) + time.Duration(r.Intn(60)-50)*20*time.Microsecond
		}
		if s.IterDur > 0 && r.Intn(4) == 0 {
			op.D = s.IterDur*time.Duration(1+r.Intn(3)) + time.Duration(r.Intn(60)-50)*20*time.Microsecond
		}
	case "wait":
		op.D = r.dur(0, 0, ms, 30*ms, 100*ms, 150*ms, 420*ms)
		if (s.Prop == "C05" || s.Prop == "C01") && r.Intn(3) == 0 {
			op.D = r.dur(1200*ms, 3000*ms, 8000*ms)
		}
		op.A = r.pick(0, 0, 0, 0, 2, 3, 4)
		if s.FinFlag {
			op.A = r.pick(0, 1, 3, 4)
		}
		if op.A != 0 && op.D == 0 {
			op.D = 200 * ms
		}
	case "push":
		op.A = r.pick(1, 1, 1, 2, 3)
	case "predict":
		op.A = r.Intn(11)
	case "yield":
		op.A = r.Intn(12)
	}
	if s.FinFlag && r.Intn(8) == 0 {
		op = Op{K: "flag"}
	}
	if w["copy"] > 0 && op.K != "copy" && r.Intn(2) == 0 {
		op.I = 1
	}
	return op
}

// genFaults draws injected failures of the implementation.
func (r *rnd) genFaults(s *Spec, p float64, where ...string) {
	if !r.Chance(p) {
		return
	}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		f := Fault{Where: where[r.Intn(len(where))]}
		switch f.Where {
		case "init":
			f.N = 1 + r.Intn(3)
			f.Kind = r.str("error", "panic", "panicerr", "delay", "odderr", "panicval")
		case "iter":
			f.N = 1 + r.Intn(r.pick(2, 6, 20))
			f.Kind = r.str("error", "panic", "panicerr", "delay", "odderr", "panicval")
		case "push":
			f.N = 1 + r.Intn(4)
			f.Kind = r.str("error", "error", "delay")
		case "notify":
			f.N = 1 + r.Intn(6)
			f.Kind = "delay"
		}
		if f.Kind == "delay" {
			f.D = r.dur(ms, 20*ms, 130*ms, 400*ms)
		}
		s.Faults = append(s.Faults, f)
	}
}

// genRefusals draws pushes that the implementation refuses.
func (r *rnd) genRefusals(s *Spec, p float64) {
	if r.Chance(p) {
		for n := 1 + r.Intn(5); n > 0; n-- {
			s.Faults = append(s.Faults, Fault{Where: "push", N: 1 + r.Intn(12), Kind: "error"})
		}
	}
}

// genNil draws iterations without result.
func (r *rnd) genNil(s *Spec) {
	if r.Intn(2) == 0 {
		return
	}
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		s.Faults = append(s.Faults, Fault{Where: "iter", N: 1 + r.Intn(12), Kind: "nil"})
	}
}

func newRnd(seed uint64) *rnd {
	r := &rnd{zzdst.NewRand(seed)}
	r.Uint64()
	return r
}

// genData draws a scenario about the data set of a real algorithm.
func (r *rnd) genData(prop string) *Spec {
	s := &Spec{Prop: prop, Kind: "data", Seed: r.Uint64()}
	r.genSim(s)
	s.Algo = r.str("kmeans", "kmeans", "mcmc")
	s.Par = r.Chance(0.4)
	s.K, s.MaxK, s.ProbaK = 1, 1, []float64{0, 1, 0}
	s.Distrib = r.str("dirac", "moody", "moody")
	s.Iter = r.pick(0, 1, 2, 3, 5, 12)
	s.IPD = r.pick(0, 0, 0, 1, 2)
	s.DPI = r.pick(0, 0, 0, 0, 1, 2)
	s.Freq = r.f(0, 0, 0, 50)
	s.Timeout = r.dur(0, 0, 0, 0, 50*ms, 300*ms)
	s.IterDur = r.dur(0, 0, ms, 7*ms, 40*ms)
	s.IterYield = r.Intn(4)
	s.InitDur = r.dur(0, 0, 0, 3*ms)
	s.Notifier = r.str("", "", "", "fast")
	s.Final = r.str("run", "run", "stop")
	s.NData = r.pick(0, 1, 1, 3, 6)
	s.Frame = r.pick(0, 0, 1, 2, 3, 5, 9)
	s.Frame2 = r.pick(0, 0, 1, 2, 4, 7)
	if s.Iter == 0 && s.IterDur == 0 && s.Freq == 0 {
		s.IterDur = r.dur(ms, 5*ms)
	}
	w := map[string]int{"init": 2, "play": 7, "pause": 4, "stop": 3, "wait": 2, "push": 16, "centroids": 1, "batch": 1, "sleep": 7, "yield": 4}
	nc, nop := 1+r.Intn(4), 3+r.Intn(8)
	if prop == "C14" {
		w["copy"] = 6
	}
	if r.Chance(0.35) {
		r.genFaults(s, 1, "init", "iter", "push")
	}
	for c := 0; c < nc; c++ {
		var ops []Op
		for i := 0; i < nop; i++ {
			op := r.genOp(s, w)
			if op.K == "push" {
				op.A = r.pick(1, 1, 2, 3, 5)
			}
			ops = append(ops, op)
		}
		if c == 0 && r.Intn(4) != 0 {
			ops = append([]Op{{K: "push", A: 1}, {K: "play"}}, ops...)
		}
		s.Clients = append(s.Clients, ops)
	}
	if prop == "C07" && r.Intn(120) == 0 { // many elements staged between two iterations
		s.Clients = [][]Op{{{K: "push", A: 1}, {K: r.str("init", "play")}, {K: "pause"}, {K: "push", A: r.pick(130, 300, 1100, 2300)}, {K: "play"}, {K: "sleep", D: 50 * ms}}}
		s.Strategy, s.PMem, s.PSync, s.PStall = "delay", 0, 0, 0
		s.Iter, s.IPD, s.Freq, s.Timeout, s.DPI = 3, 0, 0, 0, 0
		s.Faults = nil
		s.MaxSteps = 600000
	}
	return s
}

// genOther draws a scenario over a real algorithm for a property of the controller.
func (r *rnd) genOther(prop string, n int) *Spec {
	gens := []func(string) *Spec{r.genStream, r.genReal, r.genData}
	switch prop {
	case "C01", "C20":
		gens = append(gens, r.genBatch, r.genReal, r.genPar, r.genNeigh)
	case "C06":
		gens = append(gens, r.genBatch, r.genReal, r.genNeigh)
	case "C05", "C09":
		gens = append(gens, r.genReal, r.genNeigh)
	}
	s := gens[n%len(gens)](prop)
	if s.Kind == "par" || s.Kind == "batch" || s.Kind == "neigh" {
		return s
	}
	var extra map[string]int
	switch prop {
	case "C01":
		s.Notifier = r.str("", "fast", "slow", "hour", "status", "control")
	case "C03":
		extra = map[string]int{"status": 5, "wait": 4}
	case "C04":
		s.IPD, s.Final = r.pick(0, 1, 1, 2), r.str("run", "run", "stop")
		if s.Iter == 0 && s.IPD == 0 {
			s.Iter = r.pick(1, 3, 5)
		}
		extra = map[string]int{"figures": 4}
	case "C05":
		s.Timeout = r.dur(0, 20*ms, 50*ms, 150*ms, 400*ms)
		extra = map[string]int{"wait": 5}
	case "C09":
		s.Notifier = r.str("fast", "slow", "hour", "status", "control")
	case "C16":
		s.Freq = r.f(20, 50, 100, 300, 30, 700, 1500)
		extra = map[string]int{"sleep": 4}
	case "C17":
		s.DPI = r.pick(1, 1, 2, 3)
		if s.Iter == 0 {
			s.Iter = r.pick(1, 2, 3)
		}
		extra = map[string]int{"push": 6, "status": 4, "sleep": 3}
	case "C19":
		extra = map[string]int{"figures": 8}
	case "C20":
		s.Timeout = r.dur(0, 10*ms, 50*ms, 200*ms, time.Hour)
		s.Notifier = r.str("", "fast", "status", "hour")
	}
	if s.Notifier == "slow" {
		s.NotDur = r.dur(ms, 20*ms, 150*ms)
	}
	if extra != nil {
		for c := range s.Clients {
			for i := r.Intn(4); i > 0; i-- {
				k := r.Intn(len(s.Clients[c]) + 1)
				op := r.genOp(s, extra)
				s.Clients[c] = append(s.Clients[c][:k:k], append([]Op{op}, s.Clients[c][k:]...)...)
			}
		}
	}
	return s
}

// gen draws the n-th scenario for a property.
func (r *rnd) gen(prop string, n int) *Spec {
	s := r.genUsual(prop, n)
	if r.Intn(6) == 0 {
		r.unusual(s)
	} else if s.Kind == "ctrl" && r.Intn(10) == 0 {
		r.slow(s)
	}
	return s
}

// slow multiplies the durations of a scenario: iterations of seconds, time-outs of
// minutes or hours.
func (r *rnd) slow(s *Spec) {
	s.Scale = r.pick(20, 60, 200, 1000, 5000, 50000, 500000)
	f := time.Duration(s.Scale)
	s.Timeout *= f
	s.IterDur *= f
	s.InitDur *= f
	s.Freq /= float64(f)
	if s.StallMax *= f; s.StallMax > 5*time.Second {
		s.StallMax = r.dur(2*time.Second, 5*time.Second)
	}
	for i := range s.Faults {
		s.Faults[i].D *= f
	}
	for c := range s.Clients {
		for i := range s.Clients[c] {
			o := &s.Clients[c][i]
			switch o.K {
			case "sleep", "watch":
				o.D *= f
			case "wait":
				if f > 200 { // polling for hours takes too many steps
					o.K, o.D = "sleep", o.D*f
				} else if r.Intn(2) == 0 {
					o.D *= f / 4
				}
			case "batch":
				if f > 200 {
					o.K = "play"
				}
			}
		}
	}
}

// unusual replaces some usual values of a scenario by large, tiny or odd ones.
func (r *rnd) unusual(s *Spec) {
	many := func() {
		s.MaxSteps = 400000
		s.PMem, s.PSync = 0, r.f(0.02, 0.1)
		if s.Strategy == zzdst.StratPCT {
			s.PCTLen = 20000
		}
	}
	bursts := func(k string, a ...int) {
		for c := range s.Clients {
			for i := range s.Clients[c] {
				if s.Clients[c][i].K == k && r.Intn(2) == 0 {
					s.Clients[c][i].A = a[r.Intn(len(a))]
				}
			}
		}
	}
	switch s.Kind {
	case "late", "free":
		return
	case "par":
		switch r.Intn(3) {
		case 0:
			if s.Space != "dtw" {
				s.NData = r.pick(64, 65, 100, 130, 257, 300)
				if r.Intn(6) == 0 {
					s.NData = r.pick(520, 700, 1100)
				}
				many()
			}
		case 1:
			s.K = r.pick(6, 9, 12)
		case 2:
			for c := range s.Clients {
				for i := range s.Clients[c] {
					s.Clients[c][i].A = r.pick(9, 16, 17, 32, 64, 100, 200)
				}
			}
		}
		if s.Space != "dtw" && s.NData < 100 {
			s.Dim = r.pick(s.Dim, 4, 5, 8, 9, 17)
		}
		return
	case "batch", "iso", "neigh", "repro":
		if s.Algo == "streaming" || s.has("streaming") || s.Kind == "neigh" && s.Timeout > 0 {
			return
		}
		switch r.Intn(3) {
		case 0:
			if s.Space != "dtw" {
				s.Iter = r.pick(17, 33, 70, 130)
				s.IterDur = 0
				many()
			}
		case 1:
			if s.Space != "dtw" {
				s.NData = r.pick(33, 64, 100, 130)
				many()
			}
		case 2:
			s.NumCPU = r.pick(8, 16, 33)
		}
		return
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		switch r.Intn(10) {
		case 0: // long runs
			s.Iter, s.IPD = r.pick(33, 70, 130, 260, 300), r.pick(0, 0, 3, 7)
			s.IterDur = r.dur(0, 0, 100*time.Microsecond)
			s.Freq = r.f(0, 0, 2000)
			many()
		case 1: // large thresholds
			s.DPI = r.pick(4, 7, 12, 20)
			bursts("push", 1, 3, 5, 7, 12, 20, 21)
		case 2:
			s.Freq = r.f(0.3, 3, 5000, 1e5, 3e9)
		case 3:
			s.Timeout = r.dur(1, time.Microsecond, 100*time.Microsecond, 2*time.Second, 36*time.Hour)
		case 4:
			for c := range s.Clients {
				for i := range s.Clients[c] {
					if o := &s.Clients[c][i]; o.K == "wait" && o.A == 0 {
						o.D = r.dur(-time.Millisecond, 1, time.Microsecond, 99*ms, 101*ms, time.Second, time.Hour)
					}
				}
			}
		case 5: // many callers
			for len(s.Clients) < 8 {
				k := r.Intn(len(s.Clients))
				s.Clients = append(s.Clients, append([]Op(nil), s.Clients[k]...))
			}
			if s.Prop != "C01" && s.Prop != "C18" && s.Prop != "C20" {
				for c := range s.Clients {
					if n := 2 + r.Intn(3); len(s.Clients[c]) > n && c > 2 {
						s.Clients[c] = s.Clients[c][:n]
					}
				}
			}
		case 6:
			s.Frame, s.Frame2 = r.pick(10, 16, 17, 30, 64, 100), r.pick(0, 10, 17, 33)
			if s.Kind == "data" || s.Kind == "real" && s.Space != "dtw" {
				s.NData = r.pick(s.NData, 17, 33, 70, 130)
				bursts("push", 1, 3, 9, 18, 40)
				many()
			}
		case 7:
			s.Buf = r.pick(s.Buf, 33, 64, 100, 200)
			if s.Kind == "stream" {
				bursts("push", 1, 5, 20, 40)
				many()
			}
		case 8:
			s.NumCPU = r.pick(6, 8, 16, 33)
			if s.Kind == "real" && s.Space != "dtw" {
				s.Dim = r.pick(s.Dim, 4, 5, 8)
			}
		case 9:
			s.IterDur, s.InitDur = r.dur(s.IterDur, 180*ms, 700*ms), r.dur(s.InitDur, 150*ms, 600*ms)
		}
	}
	if s.Algo == "streaming" && s.Buf < s.NData {
		s.Buf = s.NData + 3
	}
	if s.Iter == 0 && s.IterDur == 0 && s.Freq == 0 || s.Algo == "streaming" && s.IterDur == 0 {
		s.IterDur = r.dur(ms, 5*ms)
	}
}

func (r *rnd) genUsual(prop string, n int) *Spec {
	switch prop {
	case "C01", "C02", "C03", "C04", "C05", "C09", "C16", "C17", "C19", "C20":
		if n%5 == 4 {
			return r.genOther(prop, n/5)
		}
	case "C06":
		switch n % 8 {
		case 0, 4:
			return r.genReal(prop)
		case 2:
			return r.genOther(prop, n/8)
		}
	case "C07":
		return r.genData(prop)
	case "C08":
		switch n % 8 {
		case 0, 2, 4:
			return r.genReal(prop)
		case 6:
			return r.genStream(prop)
		}
	case "C10":
		if n%3 == 0 {
			return r.genCtrl(prop)
		}
		return r.genBatch(prop)
	case "C11":
		return r.genPar(prop)
	case "C12":
		return r.genStream(prop)
	case "C13":
		return r.genLate(prop)
	case "C14":
		switch n % 5 {
		case 0:
			return r.genCtrl(prop)
		case 4:
			return r.genIso(prop)
		case 1:
			return r.genReal(prop)
		}
		return r.genData(prop)
	case "C15":
		return r.genReal(prop)
	case "C22":
		return r.genFree(prop)
	case "C21":
		return r.genNeigh(prop)
	case "C23":
		return r.genRepro(prop)
	case "C18":
		gens := []func(string) *Spec{r.genCtrl, r.genReal, r.genData, r.genReal, r.genStream, r.genPar, r.genLate, r.genBatch, r.genNeigh}
		s := gens[n%len(gens)](prop)
		s.Race = true
		return s
	}
	return r.genCtrl(prop)
}
