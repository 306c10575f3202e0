// Package rand stands in for math/rand: the top-level functions draw from the harness.
package rand

import (
	"math/rand"

	"skipverif/shim/vfastrand"
	"skipverif/vsched"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

func New(src Source) *Rand                                  { return rand.New(src) }
func NewSource(seed int64) Source                           { return rand.NewSource(seed) }
func NewZipf(r *Rand, s float64, v float64, m uint64) *Zipf { return rand.NewZipf(r, s, v, m) }

func Seed(int64)                         {}
func Uint32() uint32                     { return uint32(vsched.Bits(32)) }
func Uint64() uint64                     { return vsched.Bits(64) }
func Int() int                           { return fastrand.Int() }
func Int31() int32                       { return fastrand.Int31() }
func Int63() int64                       { return fastrand.Int63() }
func Int31n(n int32) int32               { return fastrand.Int31n(n) }
func Int63n(n int64) int64               { return fastrand.Int63n(n) }
func Intn(n int) int                     { return fastrand.Intn(n) }
func Float64() float64                   { return fastrand.Float64() }
func Float32() float32                   { return fastrand.Float32() }
func ExpFloat64() float64                { return rand.ExpFloat64() }
func NormFloat64() float64               { return rand.NormFloat64() }
func Perm(n int) []int                   { return fastrand.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { fastrand.Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return fastrand.Read(p) }
