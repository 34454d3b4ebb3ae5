//go:build go1.21

package main

import (
	"fmt"
	"os"
	"time"

	xrand "golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/zzdst"
)

// Result of one run.
type Result struct {
	Viol     *Violation
	Hash     uint64
	Sched    uint64
	Steps    int
	SimTime  time.Duration
	Switches int
	Incon    string
	Probes   map[string]int
	Foreign  map[string]int
	Faults   map[string]int
	Log      []zzdst.Override
	Calls    int
	Events   int
	Trace    []string
	SimTrace []string
	Key      string
}

// A run whose budget of steps is exhausted goes on while nothing happened for
// suspectSteps; routines that execute spinSteps without any event do not progress.
// The barycentres of DTW may grow so much that one iteration takes that many steps.
const suspectSteps, spinSteps = 50000, 3000000

// runSpec executes one simulated run.
func runSpec(s *Spec) *Result {
	own := *s // the code may modify what it is given
	own.ProbaK = append([]float64(nil), s.ProbaK...)
	s = &own
	w := &World{spec: s, cur: map[string]*Call{}, byElt: map[any]*Call{}, running: map[string]*Inst{}, nheld: map[string]int{}, probes: map[string]int{}, foreign: map[string]int{}, faults: map[string]int{}}
	w.maxW = int64(s.IterDur)
	for _, d := range []time.Duration{s.InitDur, time.Millisecond} {
		if int64(d) > w.maxW {
			w.maxW = int64(d)
		}
	}
	if s.PStall > 0 || hasStall(s.Overrides) {
		w.maxW += int64(s.StallMax)
	}
	for _, f := range s.Faults {
		if int64(f.D) > w.maxW {
			w.maxW = int64(f.D)
		}
	}
	xrand.Seed(1)
	returned = map[string]bool{}
	main := scenarios[s.Kind]
	if main == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", s.Kind)
		os.Exit(2)
	}
	finished := false
	cfg := s.simConfig()
	cfg.Extend = func(steps int) bool {
		idle := steps - w.lastStep
		return idle > suspectSteps && idle <= spinSteps && s.Space != "dtw"
	}
	sim := zzdst.Run(cfg, func() { zzdst.ResetAll(); main(w); finished = true })
	r := &Result{Hash: sim.Hash(), Sched: sim.ScheduleHash(), Steps: sim.Steps(), SimTime: sim.NowD(), Switches: sim.Switches,
		Probes: w.probes, Foreign: w.foreign, Faults: w.faults, Log: sim.Log(), Trace: w.log, SimTrace: sim.TraceLog, Calls: len(w.calls)}
	if sim.Stalls > 0 {
		w.faults["stall"] += sim.Stalls
	}
	if sim.WallJumps > 0 {
		w.faults["clock-jump"] += sim.WallJumps
	}
	if sim.Preempts > 0 {
		w.faults["preemption"] += sim.Preempts
	}
	w.probes["contended"] += sim.Contended
	w.probes["timers"] += sim.TimersFired
	w.probes["routines"] += sim.Spawned
	for _, in := range w.insts {
		r.Events += len(in.evs)
		w.probes["initializations"] += in.inits
		w.probes["iterations"] += in.iterB
		w.probes["notifications"] += in.notifs
		w.probes["pushes"] += len(in.pushes)
	}
	if f := sim.Fail; f != nil && w.viol == nil {
		if f.Kind == "livelock" && sim.StepBudget {
			if sim.Steps()-w.lastStep > spinSteps && s.Space != "dtw" {
				w.violate("spin", "routines keep executing without any call, iteration or notification making progress:\n%s", f.Detail)
			} else {
				r.Incon = "step budget exhausted"
				w.incon = r.Incon
			}
		} else {
			w.violate(f.Kind, "%s", f.Detail)
		}
	}
	if len(sim.Races) > 0 {
		w.probes["races"] += len(sim.Races)
		if w.viol == nil && s.Race {
			kind := "race"
			if s.Kind == "neigh" && s.Prop == "C21" { // between routines of whatever instance
				kind = "neigh-race"
			}
			w.violate(kind, "%s", sim.Races[0].String())
		}
	}
	if w.viol == nil && finished && w.incon == "" {
		for _, in := range w.insts {
			if in.noAuto {
				continue
			}
			if v := in.explain(); v != nil {
				w.violate(v.Kind, "%s", v.Detail)
				break
			}
		}
	}
	if w.viol == nil && finished && w.incon == "" {
		w.after()
	}
	if !finished && w.viol == nil && w.incon == "" {
		w.incon = "the scenario did not finish"
	}
	r.Viol, r.Incon = w.viol, w.incon
	return r
}

func hasStall(o []zzdst.Override) bool {
	for _, x := range o {
		if x.Kind == "Z" {
			return true
		}
	}
	return false
}

var scenarios = map[string]func(*World){
	"ctrl":   (*World).ctrlMain,
	"data":   (*World).dataMain,
	"par":    (*World).parMain,
	"late":   (*World).lateMain,
	"stream": (*World).streamMain,
	"real":   (*World).realMain,
	"batch":  (*World).batchMain,
	"iso":    (*World).isoMain,
	"free":   (*World).freeMain,
	"neigh":  (*World).neighMain,
	"repro":  (*World).reproMain,
}

// after runs the checks over the complete history that the model does not make.
func (w *World) after() {
	for _, in := range w.insts {
		in.checkPace()
		in.checkFigures()
		in.checkWaits()
		in.checkHeld()
	}
}
