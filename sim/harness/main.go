//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: zzharness one|worker|check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "check":
		check(os.Args[2:])
	case "minimise":
		minimise(os.Args[2], os.Args[3])
	case "annotate":
		annotate(os.Args[2], os.Args[3])
	case "replay":
		replay(os.Args[2])
	case "one": // one PROP INDEX [seed]
		idx, _ := strconv.Atoi(os.Args[3])
		seed := 1
		if len(os.Args) > 4 {
			seed, _ = strconv.Atoi(os.Args[4])
		}
		s := genSpec(os.Args[2], uint64(seed), idx)
		s.verbose = true
		r := runSpec(s)
		b, _ := json.Marshal(s)
		fmt.Println(string(b))
		for _, l := range r.Trace {
			fmt.Println(l)
		}
		if os.Getenv("SIMTRACE") != "" {
			for _, l := range r.SimTrace {
				fmt.Println(l)
			}
		}
		fmt.Printf("hash %x sched %x steps %d sim %v calls %d events %d incon %q faults %v probes %v\n", r.Hash, r.Sched, r.Steps, r.SimTime, r.Calls, r.Events, r.Incon, r.Faults, r.Probes)
		if r.Viol != nil {
			fmt.Println("VIOLATION", r.Viol.Kind, r.Viol.Detail)
		}
	case "hashes": // hashes PROP FROM TO
		a, _ := strconv.Atoi(os.Args[3])
		b, _ := strconv.Atoi(os.Args[4])
		for i := a; i < b; i++ {
			r := runSpec(genSpec(os.Args[2], 1, i))
			fmt.Printf("%d %x %d\n", i, r.Hash, r.Steps)
		}
	case "many": // many PROP N
		n, _ := strconv.Atoi(os.Args[3])
		seed := 1
		if len(os.Args) > 4 {
			seed, _ = strconv.Atoi(os.Args[4])
		}
		kinds := map[string]int{}
		ex := map[string]int{}
		steps, incon := 0, map[string]int{}
		probes, faults := map[string]int{}, map[string]int{}
		for i := 0; i < n; i++ {
			s := genSpec(os.Args[2], uint64(seed), i)
			r := runSpec(s)
			steps += r.Steps
			for k, v := range r.Probes {
				probes[k] += v
			}
			for k, v := range r.Faults {
				faults[k] += v
			}
			if r.Incon != "" {
				if os.Getenv("INCON") != "" {
					fmt.Println("inconclusive", i, s.Kind, s.Algo, s.Strategy, r.Steps, r.SimTime, len(s.Clients))
				}
				incon[r.Incon]++
			}
			if r.Viol != nil {
				if kinds[r.Viol.Kind] == 0 {
					ex[r.Viol.Kind] = i
					fmt.Printf("--- %d: %s %.1500s\n", i, r.Viol.Kind, r.Viol.Detail)
				}
				kinds[r.Viol.Kind]++
				if os.Getenv("FIRST") != "" {
					n = i + 1
				}
			}
		}
		fmt.Println("runs", n, "steps", steps, "incon", incon, "violations", kinds, "first", ex)
		fmt.Println("probes", probes)
		fmt.Println("faults", faults)
	}
}

// genSpec derives the n-th run of a property from the seed.
func genSpec(prop string, seed uint64, n int) *Spec {
	h := uint64(14695981039346656037)
	for i := 0; i < len(prop); i++ {
		h = (h ^ uint64(prop[i])) * 1099511628211
	}
	r := newRnd(h ^ seed*0x9E3779B97F4A7C15 ^ uint64(n)*0xD1342543DE82EF95)
	return r.gen(prop, n)
}
