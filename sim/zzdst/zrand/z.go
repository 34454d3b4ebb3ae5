//go:build go1.21

// Package rand stands in for math/rand: the global source is seeded per run.
package rand

import (
	"math/rand"

	"github.com/wearelumenai/distclus/zzdst"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

var (
	g   *rand.Rand
	sim *zzdst.Sim
)

func global() *rand.Rand {
	if g == nil || sim != zzdst.S {
		sim = zzdst.S
		g = rand.New(rand.NewSource(int64(zzdst.Seed())))
	}
	return g
}

func New(s Source) *Rand                               { return rand.New(s) }
func NewSource(s int64) Source                         { return rand.NewSource(s) }
func Seed(int64)                                       {}
func Int() int                                         { return global().Int() }
func Intn(n int) int                                   { return global().Intn(n) }
func Int31() int32                                     { return global().Int31() }
func Int31n(n int32) int32                             { return global().Int31n(n) }
func Int63() int64                                     { return global().Int63() }
func Int63n(n int64) int64                             { return global().Int63n(n) }
func Uint32() uint32                                   { return global().Uint32() }
func Uint64() uint64                                   { return global().Uint64() }
func Float64() float64                                 { return global().Float64() }
func Float32() float32                                 { return global().Float32() }
func NormFloat64() float64                             { return global().NormFloat64() }
func ExpFloat64() float64                              { return global().ExpFloat64() }
func Perm(n int) []int                                 { return global().Perm(n) }
func Shuffle(n int, swap func(i, j int))               { global().Shuffle(n, swap) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rand.NewZipf(r, s, v, imax) }
func Read(p []byte) (n int, err error)                 { return global().Read(p) }
