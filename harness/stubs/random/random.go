// Package random is an offline stand-in for github.com/mmcloughlin/random,
// which cannot be fetched in this sandbox. It offers the parts trunnel uses,
// on top of math/rand, and reproduces the upstream seeded stream (trunnel's
// own golden files, generated with the real module, come out identical).
package random

import (
	crand "crypto/rand"
	"encoding/binary"
	"math/rand"
)

// Interface is a source of random values.
type Interface interface {
	Int63() int64
	Uint32() uint32
	Uint64() uint64
	Int31() int32
	Int() int
	Int63n(n int64) int64
	Int31n(n int32) int32
	Intn(n int) int
	Float64() float64
	Float32() float32
	Perm(n int) []int
	NormFloat64() float64
	ExpFloat64() float64
	Read(p []byte) (n int, err error)
}

// Seeder supplies a seed.
type Seeder func() (int64, error)

// CryptoSeeder seeds from the operating system.
func CryptoSeeder() (int64, error) {
	var b [8]byte
	if _, err := crand.Read(b[:]); err != nil {
		return 0, err
	}
	return int64(binary.BigEndian.Uint64(b[:])), nil
}

// NewFromSeeder builds a source with the seed s supplies.
func NewFromSeeder(s Seeder) (Interface, error) {
	seed, err := s()
	if err != nil {
		return nil, err
	}
	return NewWithSeed(seed), nil
}

// New builds a source with an arbitrary seed.
func New() Interface {
	r, err := NewFromSeeder(CryptoSeeder)
	if err != nil {
		panic(err)
	}
	return r
}

// NewWithSeed builds a deterministic source.
func NewWithSeed(seed int64) Interface {
	return rand.New(rand.NewSource(seed))
}
