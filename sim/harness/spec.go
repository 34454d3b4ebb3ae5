//go:build go1.21

package main

import (
	"time"

	"github.com/wearelumenai/distclus/zzdst"
)

// Op is one step of a client.
type Op struct {
	K string        `json:"k"`
	A int           `json:"a,omitempty"`
	D time.Duration `json:"d,omitempty"`
	I int           `json:"i,omitempty"` // instance: 0 the original, 1 its copy
}

// Spec fully determines one simulated run, together with the code.
type Spec struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Seed uint64 `json:"seed"`

	// schedule and environment
	Strategy  string           `json:"strategy"`
	PMem      float64          `json:"pmem,omitempty"`
	PSync     float64          `json:"psync,omitempty"`
	PStall    float64          `json:"pstall,omitempty"`
	StallMax  time.Duration    `json:"stallmax,omitempty"`
	Step      time.Duration    `json:"step,omitempty"`
	PWall     float64          `json:"pwall,omitempty"`
	PCTDepth  int              `json:"pctdepth,omitempty"`
	PCTLen    int              `json:"pctlen,omitempty"`
	NumCPU    int              `json:"numcpu,omitempty"`
	MaxSteps  int              `json:"maxsteps,omitempty"`
	Race      bool             `json:"race,omitempty"`
	Replay    bool             `json:"replay,omitempty"`
	Overrides []zzdst.Override `json:"overrides,omitempty"`

	// controller configuration
	Iter     int           `json:"iter,omitempty"`
	IPD      int           `json:"iterperdata,omitempty"`
	DPI      int           `json:"dataperiter,omitempty"`
	Freq     float64       `json:"iterfreq,omitempty"`
	Timeout  time.Duration `json:"timeout,omitempty"`
	Notifier string        `json:"notifier,omitempty"` // fast, slow, hour, status, control
	NotDur   time.Duration `json:"notdur,omitempty"`
	FinIters int           `json:"finiters,omitempty"`
	FinFlag  bool          `json:"finflag,omitempty"`
	FinComp  string        `json:"fincomp,omitempty"` // and, or: composed by the library

	// implementation
	IterDur   time.Duration `json:"iterdur,omitempty"`
	IterYield int           `json:"iteryield,omitempty"`
	InitDur   time.Duration `json:"initdur,omitempty"`
	InitYield int           `json:"inityield,omitempty"`

	// algorithm
	Others   []string  `json:"others,omitempty"` // algorithms of other instances
	Algo     string    `json:"algo,omitempty"`   // mock, kmeans, mcmc, streaming
	Par      bool      `json:"par,omitempty"`
	K        int       `json:"kk,omitempty"`
	MaxK     int       `json:"maxk,omitempty"`
	Frame    int       `json:"frame,omitempty"`
	Frame2   int       `json:"frame2,omitempty"`
	NData    int       `json:"ndata,omitempty"`
	NInit    string    `json:"initializer,omitempty"`
	Dim      int       `json:"dim,omitempty"`
	Buf      int       `json:"buf,omitempty"`
	Extreme  float64   `json:"extreme,omitempty"`
	ProbaK   []float64 `json:"probak,omitempty"`
	Amp      float64   `json:"amp,omitempty"`
	Distrib  string    `json:"distrib,omitempty"`
	Degree   int       `json:"degree,omitempty"`
	OutR     float64   `json:"outratio,omitempty"`
	Sigma    float64   `json:"sigma,omitempty"`
	OutAfter int       `json:"outafter,omitempty"`
	Mu       float64   `json:"mu,omitempty"`
	Vals     []float64 `json:"vals,omitempty"`
	Space    string    `json:"space,omitempty"`
	Window   int       `json:"window,omitempty"`
	Scale    int       `json:"scale,omitempty"`    // factor of the durations of the user
	Free     bool      `json:"free,omitempty"`     // scenario about calls that wait for nobody,
	HoldImpl bool      `json:"holdimpl,omitempty"` // while the implementation is held up
	HoldDist int       `json:"holddist,omitempty"`
	FailDist int       `json:"faildist,omitempty"`
	Dup      int       `json:"dup,omitempty"` // number of distinct initial elements, if > 0
	Grid     bool      `json:"grid,omitempty"`
	Norm     float64   `json:"norm,omitempty"`
	Victim   string    `json:"victim,omitempty"` // the instance that is left alone

	Clients [][]Op  `json:"clients,omitempty"`
	Faults  []Fault `json:"faults,omitempty"`
	Final   string  `json:"final,omitempty"` // stop, run, leave

	verbose bool
}

func (s *Spec) simConfig() zzdst.Config {
	return zzdst.Config{Seed: s.Seed, Strategy: s.Strategy, PMem: s.PMem, PSync: s.PSync, PStall: s.PStall, StallMax: s.StallMax, StepCost: s.Step,
		PWall: s.PWall, MaxSteps: 2 * s.MaxSteps, NumCPU: s.NumCPU, PCTDepth: s.PCTDepth, PCTLen: s.PCTLen, Race: s.Race,
		Trace: s.verbose, Replay: s.Replay, Overrides: s.Overrides}
}

// rnd is the generator side of a run.
type rnd struct{ zzdst.Rand }

func (r *rnd) pick(l ...int) int { return l[r.Intn(len(l))] }
func (r *rnd) dur(l ...time.Duration) time.Duration {
	return l[r.Intn(len(l))]
}
func (r *rnd) str(l ...string) string { return l[r.Intn(len(l))] }
func (r *rnd) f(l ...float64) float64 { return l[r.Intn(len(l))] }

const ms = time.Millisecond

// genSim draws the scheduling strategy and the environment faults.
func (r *rnd) genSim(s *Spec) {
	switch r.Intn(10) {
	case 0, 1, 2, 3, 4:
		s.Strategy = zzdst.StratWalk
		s.PMem = r.f(0, 0, 0.02, 0.1)
		s.PSync = r.f(0.05, 0.2, 0.5)
	case 5, 6, 7:
		s.Strategy = zzdst.StratPCT
		s.PCTDepth = 1 + r.Intn(6)
		s.PCTLen = r.pick(300, 1000, 3000, 8000)
	default:
		s.Strategy = zzdst.StratDelay
	}
	s.PStall = r.f(0, 0, 0, 0.001, 0.004, 0.02)
	if s.Strategy == zzdst.StratDelay {
		s.PStall = r.f(0.002, 0.01, 0.03)
	}
	s.StallMax = r.dur(1*ms, 20*ms, 120*ms, 300*ms)
	s.PWall = r.f(0, 0, 0, 0.002, 0.01)
	s.NumCPU = 1 + r.Intn(5)
	s.Step = r.dur(0, 0, 0, 2*time.Microsecond, 200*time.Nanosecond)
	s.MaxSteps = 150000
}
