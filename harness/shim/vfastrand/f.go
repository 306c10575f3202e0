// Package fastrand stands in for github.com/zhangyunhao116/fastrand: every draw is
// owned by the harness. Every function returns only values the original can return.
package fastrand

import (
	"math"

	"skipverif/vsched"
)

func Uint32() uint32 { return uint32(vsched.Bits(32)) }

func Uint64() uint64          { return vsched.Bits(64) }
func Uint() uint              { return uint(vsched.Bits(64)) }
func Int() int                { return int(uint(vsched.Bits(63)) << 1 >> 1) }
func Int31() int32            { return int32(vsched.Bits(31)) }
func Int63() int64            { return int64(vsched.Bits(63)) }
func Uint32n(n uint32) uint32 { return uint32(vsched.RandN(uint64(n))) }
func Uint64n(n uint64) uint64 { return vsched.RandN(n) }
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(vsched.RandN(uint64(n)))
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(vsched.RandN(uint64(n)))
}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(vsched.RandN(uint64(n)))
}
func Float64() float64 { return float64(vsched.Bits(53)) / (1 << 53) }
func Float32() float32 {
	f := float32(Float64())
	if f == 1 {
		return math.Nextafter32(1, 0)
	}
	return f
}
func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(vsched.Bits(8))
	}
	return len(p), nil
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(vsched.RandN(uint64(i+1))))
	}
}
func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		j := int(vsched.RandN(uint64(i + 1)))
		m[i] = m[j]
		m[j] = i
	}
	return m
}
