//go:build go1.23

// Package vrand2 replaces math/rand/v2: the global functions answer what the scheduler chooses.
package vrand2

import (
	"math/rand/v2"

	"github.com/aws/go-kafka-event-source/streams/zverif/vrand"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Zipf     = rand.Zipf
	PCG      = rand.PCG
	ChaCha8  = rand.ChaCha8
	integers interface {
		~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
	}
)

var (
	New        = rand.New
	NewPCG     = rand.NewPCG
	NewChaCha8 = rand.NewChaCha8
	NewZipf    = rand.NewZipf
)

func Float64() float64                   { return vrand.Float64() }
func Float32() float32                   { return vrand.Float32() }
func NormFloat64() float64               { return vrand.NormFloat64() }
func ExpFloat64() float64                { return vrand.ExpFloat64() }
func Int() int                           { return vrand.Int() }
func Int32() int32                       { return vrand.Int31() }
func Int64() int64                       { return vrand.Int63() }
func Uint() uint                         { return uint(vrand.Uint64()) }
func Uint32() uint32                     { return vrand.Uint32() }
func Uint64() uint64                     { return vrand.Uint64() }
func IntN(n int) int                     { return vrand.Intn(n) }
func Int32N(n int32) int32               { return vrand.Int31n(n) }
func Int64N(n int64) int64               { return vrand.Int63n(n) }
func UintN(n uint) uint                  { return uint(vrand.Intn(int(n))) }
func Uint32N(n uint32) uint32            { return uint32(vrand.Intn(int(n))) }
func Uint64N(n uint64) uint64            { return uint64(vrand.Intn(int(n))) }
func N[I integers](n I) I                { return I(vrand.Intn(int(n))) }
func Perm(n int) []int                   { return vrand.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { vrand.Shuffle(n, swap) }
