//go:build go1.21

// Package maphash stands in for hash/maphash: seeds depend on the seed of the run.
package maphash

import (
	"encoding/binary"

	"github.com/wearelumenai/distclus/zzdst"
)

// Seed of a hash.
type Seed struct{ s uint64 }

var (
	sim  *zzdst.Sim
	next uint64
)

// MakeSeed returns a new seed.
func MakeSeed() Seed {
	if sim != zzdst.S {
		sim, next = zzdst.S, uint64(zzdst.Seed())
	}
	next += 0x9E3779B97F4A7C15
	return Seed{mix(next) | 1}
}

func mix(z uint64) uint64 {
	z = (z ^ z>>30) * 0xBF58476D1CE4E5B9
	z = (z ^ z>>27) * 0x94D049BB133111EB
	return z ^ z>>31
}

func sum(seed Seed, b []byte) uint64 {
	if seed.s == 0 {
		panic("maphash: use of uninitialized Seed")
	}
	h := uint64(14695981039346656037) ^ seed.s
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return mix(h)
}

func Bytes(seed Seed, b []byte) uint64  { return sum(seed, b) }
func String(seed Seed, s string) uint64 { return sum(seed, []byte(s)) }

// Hash of a byte sequence.
type Hash struct {
	_    [0]func()
	seed Seed
	b    []byte
}

func (h *Hash) init() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
}
func (h *Hash) Write(b []byte) (int, error)       { h.b = append(h.b, b...); return len(b), nil }
func (h *Hash) WriteByte(b byte) error            { h.b = append(h.b, b); return nil }
func (h *Hash) WriteString(s string) (int, error) { h.b = append(h.b, s...); return len(s), nil }
func (h *Hash) Seed() Seed                        { h.init(); return h.seed }
func (h *Hash) SetSeed(s Seed)                    { h.seed, h.b = s, nil }
func (h *Hash) Reset()                            { h.init(); h.b = nil }
func (h *Hash) Sum64() uint64                     { h.init(); return sum(h.seed, h.b) }
func (h *Hash) Sum(b []byte) []byte               { return binary.BigEndian.AppendUint64(b, h.Sum64()) }
func (h *Hash) Size() int                         { return 8 }
func (h *Hash) BlockSize() int                    { return 128 }
