// Package random stands in for github.com/mmcloughlin/random, which is not
// available offline. It has the interface of the original (the method set of
// *math/rand.Rand) and a hook through which a harness supplies the source.
package random

import (
	"crypto/rand"
	"encoding/binary"
	mathrand "math/rand"
)

// Interface is the interface of math/rand.Rand.
type Interface interface {
	Seed(seed int64)
	Int63() int64
	Uint32() uint32
	Uint64() uint64
	Int31() int32
	Int() int
	Int63n(n int64) int64
	Int31n(n int32) int32
	Intn(n int) int
	Float64() float64
	Float32() float32
	NormFloat64() float64
	ExpFloat64() float64
	Perm(n int) []int
	Shuffle(n int, swap func(i, j int))
	Read(p []byte) (n int, err error)
}

// Hook, when set, supplies every source this package hands out.
var Hook func(seed int64, seeded bool) Interface

// New returns a randomly seeded source.
func New() Interface {
	if Hook != nil {
		return Hook(0, false)
	}
	return mathrand.New(mathrand.NewSource(CryptoSeeder.Seed()))
}

// NewWithSeed returns a source with the given seed.
func NewWithSeed(seed int64) Interface {
	if Hook != nil {
		return Hook(seed, true)
	}
	return mathrand.New(mathrand.NewSource(seed))
}

// Seeder provides seeds.
type Seeder interface {
	Seed() int64
}

// SeederFunc implements Seeder with a function.
type SeederFunc func() int64

// Seed calls f.
func (f SeederFunc) Seed() int64 { return f() }

// CryptoSeeder reads seeds from crypto/rand.
var CryptoSeeder Seeder = SeederFunc(func() int64 {
	var b [8]byte
	_, _ = rand.Read(b[:])
	return int64(binary.LittleEndian.Uint64(b[:]))
})

// NewFromSeeder returns a source seeded from s.
func NewFromSeeder(s Seeder) (Interface, error) {
	if Hook != nil {
		return Hook(0, false), nil
	}
	return mathrand.New(mathrand.NewSource(s.Seed())), nil
}
