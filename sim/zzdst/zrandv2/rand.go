//go:build go1.22

// Package rand stands in for math/rand/v2: the global source is seeded per run.
package rand

import (
	"math/rand/v2"

	"github.com/wearelumenai/distclus/zzdst"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	Zipf    = rand.Zipf
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
)

var (
	g   *rand.Rand
	sim *zzdst.Sim
)

func global() *rand.Rand {
	if g == nil || sim != zzdst.S {
		sim = zzdst.S
		g = rand.New(rand.NewPCG(uint64(zzdst.Seed()), 2))
	}
	return g
}

func New(s Source) *Rand                               { return rand.New(s) }
func NewPCG(a, b uint64) *PCG                          { return rand.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8                { return rand.NewChaCha8(seed) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Int() int                                         { return global().Int() }
func IntN(n int) int                                   { return global().IntN(n) }
func Int32() int32                                     { return global().Int32() }
func Int32N(n int32) int32                             { return global().Int32N(n) }
func Int64() int64                                     { return global().Int64() }
func Int64N(n int64) int64                             { return global().Int64N(n) }
func Uint32() uint32                                   { return global().Uint32() }
func Uint32N(n uint32) uint32                          { return global().Uint32N(n) }
func Uint64() uint64                                   { return global().Uint64() }
func Uint64N(n uint64) uint64                          { return global().Uint64N(n) }
func Float64() float64                                 { return global().Float64() }
func Float32() float32                                 { return global().Float32() }
func NormFloat64() float64                             { return global().NormFloat64() }
func ExpFloat64() float64                              { return global().ExpFloat64() }
func Perm(n int) []int                                 { return global().Perm(n) }
func Shuffle(n int, swap func(i, j int))               { global().Shuffle(n, swap) }
func N[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n I) I {
	return I(global().Uint64N(uint64(n)))
}
