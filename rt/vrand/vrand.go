//go:build go1.23

// Package vrand replaces math/rand: the few global functions answer what the scheduler chooses.
package vrand

import (
	"math/rand"

	"github.com/aws/go-kafka-event-source/streams/zverif/vsched"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

var (
	New       = rand.New
	NewSource = rand.NewSource
	NewZipf   = rand.NewZipf
)

func Seed(int64)           {}
func Float64() float64     { return []float64{0.25, 0, 0.999}[vsched.Choose(3)] }
func Float32() float32     { return 0.25 }
func Int() int             { return 1 }
func Int31() int32         { return 1 }
func Int63() int64         { return 1 }
func Uint32() uint32       { return 1 }
func Uint64() uint64       { return 1 }
func NormFloat64() float64 { return 0.25 }
func ExpFloat64() float64  { return 0.25 }
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	if n > 8 { // the ends and the middle
		return []int{0, n - 1, n / 2}[vsched.Choose(3)]
	}
	return vsched.Choose(n)
}
func Int31n(n int32) int32 { return int32(Intn(int(n))) }
func Int63n(n int64) int64 { return int64(Intn(int(n))) }
func Perm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	return m
}
func Shuffle(n int, swap func(i, j int)) {}
func Read(p []byte) (n int, err error)   { return len(p), nil }
