//go:build go1.21

package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/wearelumenai/distclus/zzdst"
)

// tier fixes how much a check explores.
type tier struct {
	wall time.Duration
	runs int
}

var tiers = map[string]tier{
	"quick":    {60 * time.Second, 2000000},
	"thorough": {600 * time.Second, 100000000},
}

// stats of a worker, summed by the parent.
type stats struct {
	Runs, Incon, Det, DetBad   int
	Steps, SimNs, Switch       int64
	Calls, Events              int64
	Probes, Faults, Kinds, Why map[string]int
	Known, Foreign             map[string]int
	Samples                    []sample
	Nontrivial                 int
	Strats                     map[string]int
	ProbeRuns, FaultRuns       map[string]int
	MaxSteps, MaxRoutines      int
	Concurrent, Quiet, Overrun int
}

type sample struct {
	Index int    `json:"index"`
	Spec  *Spec  `json:"spec"`
	Hash  string `json:"history_hash"`
	Steps int    `json:"steps"`
	Sim   string `json:"simulated"`
}

type message struct {
	T     string
	I     int
	Spec  *Spec
	Viol  *Violation
	Stats *stats
	Text  string
}

// Replay is the file reported with a violation.
type Replay struct {
	Property  string   `json:"property"`
	Kind      string   `json:"violation"`
	Detail    string   `json:"detail"`
	Hash      string   `json:"history_hash"`
	VerifSeed uint64   `json:"verif_seed"`
	Index     int      `json:"index"`
	Minimised bool     `json:"minimised"`
	Spec      *Spec    `json:"spec"`
	Schedule  []string `json:"schedule,omitempty"`
	Trace     []string `json:"trace,omitempty"`
}

func newStats() *stats {
	return &stats{Probes: map[string]int{}, Faults: map[string]int{}, Kinds: map[string]int{}, Why: map[string]int{}, Known: map[string]int{}, Foreign: map[string]int{}, Strats: map[string]int{}, ProbeRuns: map[string]int{}, FaultRuns: map[string]int{}}
}

// knownFinding is an entry of the known-findings file that is not fixed.
type knownFinding struct{ prop, kind, contains, text string }

func loadKnown(path, prop string) (l []knownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		// known: property=<id> | <kind> | <text the detail contains> | <what fails>
		f := strings.Split(strings.TrimPrefix(line, "known: "), " | ")
		if len(f) != 4 || strings.TrimPrefix(strings.TrimSpace(f[0]), "property=") != prop {
			continue
		}
		l = append(l, knownFinding{prop, strings.TrimSpace(f[1]), strings.TrimSpace(f[2]), strings.TrimSpace(f[3])})
	}
	return
}

func matchKnown(l []knownFinding, v *Violation) *knownFinding {
	for i := range l {
		if l[i].kind == v.Kind && strings.Contains(v.Detail, l[i].contains) {
			return &l[i]
		}
	}
	return nil
}

// worker explores the runs start, start+stride, ...
func worker(args []string) {
	prop, seed := args[0], mustU(args[1])
	start, stride, runs := mustI(args[2]), mustI(args[3]), mustI(args[4])
	wall := time.Duration(mustI(args[5])) * time.Millisecond
	out, known := args[6], loadKnown(args[7], prop)
	st := newStats()
	hashes := map[uint64]struct{}{}
	w := bufio.NewWriter(os.Stdout)
	send := func(m message) {
		b, err := json.Marshal(m)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
	t0 := time.Now()
	last := time.Time{}
	for i := start; i < runs; i += stride {
		now := time.Now()
		if now.Sub(t0) > wall {
			break
		}
		if now.Sub(last) > 300*time.Millisecond {
			last = now
			send(message{T: "p", I: i})
		}
		s := genSpec(prop, seed, i)
		r := runSpec(s)
		st.Runs++
		st.Steps += int64(r.Steps)
		st.SimNs += int64(r.SimTime)
		st.Switch += int64(r.Switches)
		st.Calls += int64(r.Calls)
		st.Events += int64(r.Events)
		st.Kinds[s.Kind]++
		st.Strats[s.Strategy]++
		for k, v := range r.Probes {
			st.Probes[k] += v
			if v > 0 {
				st.ProbeRuns[k]++
			}
		}
		for k, v := range r.Faults {
			st.Faults[k] += v
			if v > 0 {
				st.FaultRuns[k]++
			}
		}
		for k, v := range r.Foreign {
			st.Foreign[k] += v
		}
		if r.Steps > st.MaxSteps {
			st.MaxSteps = r.Steps
		}
		if r.Incon != "" {
			st.Incon++
			st.Why[r.Incon]++
		}
		if r.Switches > 1 && r.Events+r.Calls > 0 || r.Probes["nontrivial"] > 0 {
			st.Nontrivial++
			hashes[r.Sched^r.Hash*31] = struct{}{}
		}
		if (i/stride)%997 == 5 && len(st.Samples) < 2 {
			st.Samples = append(st.Samples, sample{i, s, fmt.Sprintf("%016x", r.Hash), r.Steps, r.SimTime.String()})
		}
		if (i/stride)%150 == 0 { // determinism self-check
			q := runSpec(genSpec(prop, seed, i))
			st.Det++
			if q.Hash != r.Hash || q.Sched != r.Sched || q.Steps != r.Steps {
				st.DetBad++
				send(message{T: "d", I: i, Text: fmt.Sprintf("run %d is not repeatable: %x/%x/%d then %x/%x/%d", i, r.Hash, r.Sched, r.Steps, q.Hash, q.Sched, q.Steps)})
			}
		}
		if r.Viol != nil {
			if k := matchKnown(known, r.Viol); k != nil {
				st.Known[k.text]++
				continue
			}
			send(message{T: "v", I: i, Spec: s, Viol: r.Viol})
			break
		}
	}
	f, err := os.Create(out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	bw := bufio.NewWriter(f)
	for h := range hashes {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], h)
		bw.Write(b[:])
	}
	bw.Flush()
	f.Close()
	send(message{T: "s", Stats: st})
}

func mustI(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fail("bad number %q", s)
	}
	return n
}

func mustU(s string) uint64 {
	n, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		fail("bad number %q", s)
	}
	return n
}

func fail(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR "+f+"\n", a...)
	os.Exit(2)
}

// check PROP TIER VERIFDIR SCRATCH
func check(args []string) {
	prop, tn, dir, scratch := args[0], args[1], args[2], args[3]
	t, ok := tiers[tn]
	if !ok {
		fail("unknown tier %q", tn)
	}
	if v := os.Getenv("VERIF_WALL"); v != "" {
		t.wall = time.Duration(mustI(v)) * time.Second
	}
	if v := os.Getenv("VERIF_RUNS"); v != "" {
		t.runs = mustI(v)
	}
	seed := uint64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		seed = mustU(v)
	}
	nw := 8
	if v := os.Getenv("VERIF_WORKERS"); v != "" {
		nw = mustI(v)
	}
	known := filepath.Join(dir, "known-findings.txt")
	t0 := time.Now()
	fmt.Printf("check %s tier=%s seed=%d workers=%d\n", prop, tn, seed, nw)

	var mu sync.Mutex
	var found *message
	var notes []string
	total := newStats()
	hashes := map[uint64]struct{}{}
	procs := make([]*exec.Cmd, nw)
	last := make([]int, nw)
	beat := make([]time.Time, nw)
	alive := make([]bool, nw)
	var wg sync.WaitGroup
	var trouble string
	stopAll := func() {
		for _, p := range procs {
			if p != nil && p.Process != nil {
				p.Process.Kill()
			}
		}
	}
	for k := 0; k < nw; k++ {
		hf := filepath.Join(scratch, fmt.Sprintf("hashes.%d", k))
		c := exec.Command(os.Args[0], "worker", prop, fmt.Sprint(seed), fmt.Sprint(k), fmt.Sprint(nw), fmt.Sprint(t.runs), fmt.Sprint(t.wall.Milliseconds()), hf, known)
		c.Env = append(os.Environ(), "GOMAXPROCS=1", "GOMEMLIMIT=2500MiB")
		var eb bytes.Buffer
		c.Stderr = &limited{b: &eb}
		so, err := c.StdoutPipe()
		if err != nil {
			fail("%v", err)
		}
		if err := c.Start(); err != nil {
			fail("%v", err)
		}
		procs[k], beat[k], alive[k] = c, time.Now(), true
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			rd := bufio.NewReaderSize(so, 1<<20)
			clean := false
			for {
				line, err := rd.ReadBytes('\n')
				if len(line) > 0 {
					var m message
					if json.Unmarshal(line, &m) == nil {
						mu.Lock()
						beat[k] = time.Now()
						switch m.T {
						case "p":
							last[k] = m.I
						case "d":
							notes = append(notes, m.Text)
						case "v":
							if found == nil || m.I < found.I {
								mm := m
								found = &mm
							}
						case "s":
							clean = true
							total.add(m.Stats)
							b, _ := os.ReadFile(hf)
							for ; len(b) >= 8; b = b[8:] {
								hashes[binary.LittleEndian.Uint64(b)] = struct{}{}
							}
						}
						f := found != nil
						mu.Unlock()
						if f && m.T == "v" {
							// give the others a moment to report an earlier one
							time.AfterFunc(1500*time.Millisecond, stopAll)
						}
					}
				}
				if err != nil {
					break
				}
			}
			werr := c.Wait()
			mu.Lock()
			alive[k] = false
			if !clean && found == nil && trouble == "" {
				trouble = fmt.Sprintf("worker %d ended at run >= %d: %v\n%s", k, last[k], werr, eb.String())
				go stopAll()
			}
			mu.Unlock()
		}(k)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(time.Second)
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			mu.Lock()
			for k := range procs {
				if alive[k] && time.Since(beat[k]) > 60*time.Second && trouble == "" && found == nil {
					trouble = fmt.Sprintf("worker %d makes no progress after run %d", k, last[k])
					go stopAll()
				}
			}
			mu.Unlock()
		}
	}
	explore := time.Since(t0)
	viols := 0
	if found != nil {
		viols = 1
	}
	writeEvidence(dir, prop, tn, seed, total, len(hashes), explore, time.Since(t0), viols, notes, nw)
	for k, n := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", prop, k, n)
	}
	if found != nil {
		path := report(dir, scratch, prop, seed, found)
		if path == "" {
			fail("violation %s of run %d does not replay: %s", found.Viol.Kind, found.I, found.Viol.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		os.Exit(1)
	}
	if trouble != "" {
		fail("%s", trouble)
	}
	if total.DetBad > 0 {
		fail("%s", strings.Join(notes, "\n"))
	}
	if total.Runs == 0 || total.Incon*5 > total.Runs {
		fail("%d of %d runs were inconclusive: %v", total.Incon, total.Runs, total.Why)
	}
	h := explore.Hours()
	fmt.Printf("OK property=%s runs=%d distinct=%d runs/h=%.0f simulated=%v inconclusive=%d wall=%.1fs\n", prop, total.Runs, len(hashes), float64(total.Runs)/h, time.Duration(total.SimNs), total.Incon, time.Since(t0).Seconds())
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func addMap(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func (s *stats) add(o *stats) {
	s.Runs += o.Runs
	s.Incon += o.Incon
	s.Det += o.Det
	s.DetBad += o.DetBad
	s.Steps += o.Steps
	s.SimNs += o.SimNs
	s.Switch += o.Switch
	s.Calls += o.Calls
	s.Events += o.Events
	s.Nontrivial += o.Nontrivial
	if o.MaxSteps > s.MaxSteps {
		s.MaxSteps = o.MaxSteps
	}
	addMap(s.Probes, o.Probes)
	addMap(s.Faults, o.Faults)
	addMap(s.ProbeRuns, o.ProbeRuns)
	addMap(s.FaultRuns, o.FaultRuns)
	addMap(s.Kinds, o.Kinds)
	addMap(s.Strats, o.Strats)
	addMap(s.Why, o.Why)
	addMap(s.Known, o.Known)
	addMap(s.Foreign, o.Foreign)
	if len(s.Samples) < 4 {
		s.Samples = append(s.Samples, o.Samples...)
	}
}

var realComponents = []string{
	"core (controller, status machine, time-outs, notifier, figures, Wait/Batch, partition helpers, algorithm base): real code, rewritten mechanically at build time so that goroutines, channels, locks, atomics, timers, clocks, NumCPU and math/rand go through the simulator",
	"kmeans, mcmc, streaming, euclid, cosinus, dtw: real code, rewritten the same way, in the scenarios that use them",
}

var stubComponents = []string{
	"Go scheduler, clock, timers, sync and channels: simulator (zzdst)",
	"algorithm implementation in the ctrl scenario: harness mock publishing numbered results",
	"element space in the ctrl, data, par, batch and stream scenarios, and in a part of the real and iso scenarios: harness space that yields to the scheduler",
	"callers, status notifier, finishing conditions: harness clients",
}

func writeEvidence(dir, prop, tn string, seed uint64, s *stats, distinct int, explore, wall time.Duration, viols int, notes []string, nw int) {
	samples := []any{}
	sort.Slice(s.Samples, func(i, j int) bool { return s.Samples[i].Index < s.Samples[j].Index })
	for i, x := range s.Samples {
		if i < 4 {
			samples = append(samples, x)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, sample{Index: 0, Spec: genSpec(prop, seed, 0)})
	}
	hours := explore.Hours()
	cov := map[string]any{
		"evaluations":         s.Runs,
		"distinct_nontrivial": distinct,
		"rule": "one evaluation is one simulated run: seed -> generated configuration, client programs, fault plan and schedule. Counted as distinct and non-trivial: runs in which the scheduler switched tasks and the library was called, " +
			"distinct by the hash of the recorded history combined with the hash of the sequence of scheduling decisions",
		"samples":                             samples,
		"seeds":                               s.Runs,
		"runs_per_hour":                       int64(float64(s.Runs) / hours),
		"simulated_time":                      time.Duration(s.SimNs).String(),
		"simulated_hours_per_hour":            time.Duration(s.SimNs).Hours() / hours,
		"scheduling_steps":                    s.Steps,
		"task_switches":                       s.Switch,
		"public_calls":                        s.Calls,
		"history_events":                      s.Events,
		"faults_fired":                        s.Faults,
		"runs_with_fault":                     s.FaultRuns,
		"probes":                              s.Probes,
		"runs_with_probe":                     s.ProbeRuns,
		"scenarios":                           s.Kinds,
		"strategies":                          s.Strats,
		"inconclusive_runs":                   s.Incon,
		"inconclusive_reasons":                s.Why,
		"determinism_selfchecks":              s.Det,
		"determinism_selfcheck_failed":        s.DetBad,
		"max_steps_of_a_run":                  s.MaxSteps,
		"workers":                             nw,
		"real_components":                     realComponents,
		"stub_components":                     stubComponents,
		"known_findings_hit":                  s.Known,
		"violations_of_other_properties_seen": s.Foreign,
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev := map[string]any{"property": prop, "tier": tn, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": viols,
		"assumptions": []string{
			"interleavings are sequentially consistent, with scheduling points at synchronisation operations, timers, loop iterations of interest and accesses to shared memory locations",
			"the source rewriting preserves the semantics of the code (tools/selftest executes the test suite of the module inside the simulator for comparison)",
			"the sample of seeds is evidence, not proof",
		}}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fail("%v", err)
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
}

// report minimises the violating run, writes the replay file and verifies it in a
// fresh process. It returns "" when the violation does not replay.
func report(dir, scratch, prop string, seed uint64, m *message) string {
	fmt.Printf("run %d violates %s: %s: %s\n", m.I, prop, m.Viol.Kind, firstLines(m.Viol.Detail, 12))
	os.MkdirAll(filepath.Join(dir, "replays"), 0o755)
	path := filepath.Join(dir, "replays", fmt.Sprintf("%s-%d-%d.json", prop, seed, m.I))
	in := filepath.Join(scratch, "violation.json")
	rep := &Replay{Property: prop, Kind: m.Viol.Kind, Detail: m.Viol.Detail, VerifSeed: seed, Index: m.I, Spec: m.Spec}
	writeJSON(in, rep)
	small := filepath.Join(scratch, "minimised.json")
	os.Remove(small)
	runFor(90*time.Second, "minimise", in, small)
	for _, f := range []string{small, in} {
		if _, err := os.Stat(f); err != nil {
			continue
		}
		final := filepath.Join(scratch, "final.json")
		if runFor(60*time.Second, "annotate", f, final) != nil {
			continue
		}
		if err := runFor(60*time.Second, "replay", final); err == nil || exitCode(err) != 1 {
			continue
		}
		b, _ := os.ReadFile(final)
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fail("%v", err)
		}
		return path
	}
	return ""
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	s = strings.Join(l, "\n")
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

func exitCode(err error) int {
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode()
	}
	return -1
}

func runFor(d time.Duration, args ...string) error {
	c := exec.Command(os.Args[0], args...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1")
	if err := c.Start(); err != nil {
		return err
	}
	t := time.AfterFunc(d, func() { c.Process.Kill() })
	defer t.Stop()
	return c.Wait()
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
}

func readReplay(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	r := new(Replay)
	if err := json.Unmarshal(b, r); err != nil {
		fail("%v", err)
	}
	return r
}

func cloneSpec(s *Spec) *Spec {
	b, _ := json.Marshal(s)
	c := new(Spec)
	json.Unmarshal(b, c)
	return c
}

// minimise IN OUT: shrink the run while the same kind of violation persists.
func minimise(in, out string) {
	rep := readReplay(in)
	limit := time.Now().Add(45 * time.Second)
	tries := 0
	try := func(s *Spec) (*Result, bool) {
		tries++
		r := runSpec(cloneSpec(s))
		return r, r.Viol != nil && r.Viol.Kind == rep.Kind
	}
	best := rep.Spec
	r, ok := try(best)
	if !ok {
		fail("the violation does not repeat")
	}
	save := func() {
		rep.Spec = best
		rep.Minimised = true
		writeJSON(out, rep)
	}
	accept := func(c *Spec) bool {
		if time.Now().After(limit) {
			return false
		}
		if rr, ok := try(c); ok {
			best, r = c, rr
			return true
		}
		// the schedule shifted: look at a few others
		if !c.Replay {
			for k := uint64(1); k <= 4 && time.Now().Before(limit); k++ {
				d := cloneSpec(c)
				d.Seed = c.Seed*6364136223846793005 + k
				if rr, ok := try(d); ok {
					best, r = d, rr
					return true
				}
			}
		}
		return false
	}
	structural := func() {
		for changed := true; changed && time.Now().Before(limit); {
			changed = false
			for i := len(best.Clients) - 1; i >= 0; i-- {
				if i >= len(best.Clients) {
					continue
				}
				c := cloneSpec(best)
				c.Clients[i] = nil
				if len(best.Clients[i]) > 0 && accept(c) {
					changed = true
				}
			}
			for i := len(best.Faults) - 1; i >= 0; i-- {
				c := cloneSpec(best)
				c.Faults = append(c.Faults[:i], c.Faults[i+1:]...)
				if accept(c) {
					changed = true
				}
			}
			for _, f := range simplifications {
				c := cloneSpec(best)
				f(c)
				a, _ := json.Marshal(c)
				b, _ := json.Marshal(best)
				if !bytes.Equal(a, b) && accept(c) {
					changed = true
				}
			}
			for i := range best.Clients {
				for n := len(best.Clients[i]) / 2; n >= 1; n /= 2 {
					for j := 0; j+n <= len(best.Clients[i]); {
						c := cloneSpec(best)
						c.Clients[i] = append(append([]Op(nil), c.Clients[i][:j]...), c.Clients[i][j+n:]...)
						if accept(c) {
							changed = true
						} else {
							j += n
						}
						if time.Now().After(limit) {
							return
						}
					}
				}
			}
		}
	}
	structural()
	save()
	// fix the schedule as an explicit list of decisions, then shrink the list
	c := cloneSpec(best)
	c.Replay = true
	c.Overrides = r.Log
	c.PWall = 0
	if rr, ok := try(c); ok {
		best, r = c, rr
		limit = time.Now().Add(25 * time.Second)
		for n := len(best.Overrides); n >= 1; {
			progress := false
			for j := 0; j < len(best.Overrides); {
				k := j + n
				if k > len(best.Overrides) {
					k = len(best.Overrides)
				}
				c := cloneSpec(best)
				c.Overrides = append(append([]zzdst.Override(nil), best.Overrides[:j]...), best.Overrides[k:]...)
				if accept(c) {
					progress = true
				} else {
					j = k
				}
				if time.Now().After(limit) {
					break
				}
			}
			if time.Now().After(limit) {
				break
			}
			if n == 1 && !progress {
				break
			}
			if n > 1 {
				n /= 2
			}
		}
		structural()
		save()
	}
	fmt.Fprintf(os.Stderr, "minimised in %d runs\n", tries)
}

// simplifications of a spec tried by the minimiser.
var simplifications = []func(*Spec){
	func(s *Spec) { s.Notifier, s.NotDur = "", 0 },
	func(s *Spec) { s.PStall = 0 },
	func(s *Spec) { s.PWall = 0 },
	func(s *Spec) { s.Timeout = 0 },
	func(s *Spec) { s.Freq = 0 },
	func(s *Spec) { s.DPI = 0 },
	func(s *Spec) { s.IPD = 0 },
	func(s *Spec) { s.InitDur, s.InitYield = 0, 0 },
	func(s *Spec) { s.IterYield = 0 },
	func(s *Spec) { s.FinIters, s.FinFlag = 0, false },
	func(s *Spec) { s.Final = "stop" },
	func(s *Spec) { s.NumCPU = 1 },
	func(s *Spec) { s.Par = false },
	func(s *Spec) {
		if s.NData > 1 {
			s.NData /= 2
		}
	},
	func(s *Spec) {
		var l [][]Op
		for _, c := range s.Clients {
			if len(c) > 0 {
				l = append(l, c)
			}
		}
		s.Clients = l
	},
}

// annotate IN OUT: add the readable schedule and trace, and the history hash.
func annotate(in, out string) {
	rep := readReplay(in)
	r := runSpec(cloneSpec(rep.Spec))
	if r.Viol == nil || r.Viol.Kind != rep.Kind {
		fail("the violation does not repeat")
	}
	rep.Detail = r.Viol.Detail
	rep.Hash = fmt.Sprintf("%016x", r.Hash)
	v := cloneSpec(rep.Spec)
	v.verbose = true
	r = runSpec(v)
	rep.Trace = r.Trace
	if len(rep.Trace) > 400 {
		rep.Trace = rep.Trace[len(rep.Trace)-400:]
	}
	rep.Schedule = r.SimTrace
	if len(rep.Schedule) > 400 {
		rep.Schedule = rep.Schedule[len(rep.Schedule)-400:]
	}
	writeJSON(out, rep)
}

// replay FILE: exit 1 when the recorded violation is reproduced exactly.
func replay(path string) {
	rep := readReplay(path)
	s := cloneSpec(rep.Spec)
	r := runSpec(s)
	if r.Viol == nil {
		fmt.Println("the violation is not reproduced")
		os.Exit(0)
	}
	if h := fmt.Sprintf("%016x", r.Hash); h != rep.Hash || r.Viol.Kind != rep.Kind {
		fmt.Printf("another history is produced: %s %s %s\n", h, r.Viol.Kind, r.Viol.Detail)
		os.Exit(3)
	}
	for _, l := range rep.Trace {
		fmt.Println(l)
	}
	fmt.Printf("reproduced %s: %s\n", r.Viol.Kind, r.Viol.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, path)
	os.Exit(1)
}
