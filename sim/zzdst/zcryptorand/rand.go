//go:build go1.21

// Package rand stands in for crypto/rand: its numbers depend on the seed of the run.
package rand

import (
	"crypto/rand"
	"io"
	"math/big"

	"github.com/wearelumenai/distclus/zzdst"
)

type reader struct {
	sim *zzdst.Sim
	x   uint64
}

// Reader is the global source.
var Reader io.Reader = &reader{}

func (r *reader) Read(p []byte) (int, error) {
	if r.sim != zzdst.S {
		r.sim, r.x = zzdst.S, uint64(zzdst.Seed())^0xC0FFEE
	}
	for i := range p {
		r.x += 0x9E3779B97F4A7C15
		z := (r.x ^ r.x>>30) * 0xBF58476D1CE4E5B9
		z = (z ^ z>>27) * 0x94D049BB133111EB
		p[i] = byte(z >> 40)
	}
	return len(p), nil
}

func Read(p []byte) (int, error) { return Reader.Read(p) }

func Int(rd io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(rd, max) }

// Prime is not a function of the bytes read only, so any prime will do.
func Prime(rd io.Reader, bits int) (*big.Int, error) {
	b := make([]byte, (bits+7)/8)
	if _, err := io.ReadFull(rd, b); err != nil {
		return nil, err
	}
	n := new(big.Int).SetBytes(b)
	n.SetBit(n, 0, 1).SetBit(n, bits-1, 1)
	for !n.ProbablyPrime(20) {
		n.Add(n, big.NewInt(2))
	}
	return n, nil
}
