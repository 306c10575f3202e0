// Package rand stands in for math/rand/v2: the top-level functions draw from the harness.
package rand

import (
	"math/rand/v2"

	"skipverif/shim/vfastrand"
	"skipverif/vsched"
)

type (
	Rand    = rand.Rand
	Source  = rand.Source
	Zipf    = rand.Zipf
	PCG     = rand.PCG
	ChaCha8 = rand.ChaCha8
)

type intType interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func New(src Source) *Rand                                  { return rand.New(src) }
func NewPCG(a, b uint64) *PCG                               { return rand.NewPCG(a, b) }
func NewChaCha8(seed [32]byte) *ChaCha8                     { return rand.NewChaCha8(seed) }
func NewZipf(r *Rand, s float64, v float64, m uint64) *Zipf { return rand.NewZipf(r, s, v, m) }

func randN(n uint64) uint64 {
	if n == 0 {
		panic("invalid argument to rand")
	}
	return vsched.RandN(n)
}

func N[T intType](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return T(randN(uint64(n)))
}
func Uint() uint                         { return uint(vsched.Bits(64)) }
func Uint32() uint32                     { return uint32(vsched.Bits(32)) }
func Uint64() uint64                     { return vsched.Bits(64) }
func Uint32N(n uint32) uint32            { return uint32(randN(uint64(n))) }
func Uint64N(n uint64) uint64            { return randN(n) }
func UintN(n uint) uint                  { return uint(randN(uint64(n))) }
func Int() int                           { return fastrand.Int() }
func Int32() int32                       { return fastrand.Int31() }
func Int64() int64                       { return fastrand.Int63() }
func Int32N(n int32) int32               { return fastrand.Int31n(n) }
func Int64N(n int64) int64               { return fastrand.Int63n(n) }
func IntN(n int) int                     { return fastrand.Intn(n) }
func Float64() float64                   { return fastrand.Float64() }
func Float32() float32                   { return fastrand.Float32() }
func ExpFloat64() float64                { return rand.ExpFloat64() }
func NormFloat64() float64               { return rand.NormFloat64() }
func Perm(n int) []int                   { return fastrand.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { fastrand.Shuffle(n, swap) }
