//go:build go1.21

package main

import (
	xrand "golang.org/x/exp/rand"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"
)

// moody is a distribution without alteration whose densities make the algorithm
// reject a part of the proposals.
type moody struct{ r *rnd }

func (d *moody) Sample(mu core.Elemt, time int) core.Elemt { return mu }
func (d *moody) Pdf(x, mu core.Elemt, time int) float64    { return d.r.f(0, 0, 1e9) }

// distrib makes the alteration distribution asked by the spec.
func (w *World) distrib(src xrand.Source) mcmc.Distrib {
	s := w.spec
	build := func() mcmc.Distrib {
		return mcmc.NewMultivT(mcmc.MultivTConf{Dim: s.Dim, Nu: 3, RGen: xrand.New(src)})
	}
	switch s.Distrib {
	case "multivt":
		return build()
	case "moody":
		return &moody{r: newRnd(s.Seed ^ 0x3007)}
	case "late":
		return mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib { return build() })
	}
	return mcmc.NewDirac()
}
