// Package rand replaces math/rand/v2 in the instrumented copy: what the
// default source says follows from the seed of the run.
package rand

import (
	std "math/rand/v2"

	"watersim/simrt"
)

type source struct{}

func (source) Uint64() uint64 { return simrt.Rand() }

func r() *std.Rand { return std.New(source{}) }

func Int() int                           { return r().Int() }
func IntN(n int) int                     { return r().IntN(n) }
func Int32() int32                       { return r().Int32() }
func Int32N(n int32) int32               { return r().Int32N(n) }
func Int64() int64                       { return r().Int64() }
func Int64N(n int64) int64               { return r().Int64N(n) }
func Uint() uint                         { return r().Uint() }
func UintN(n uint) uint                  { return r().UintN(n) }
func Uint32() uint32                     { return r().Uint32() }
func Uint32N(n uint32) uint32            { return r().Uint32N(n) }
func Uint64() uint64                     { return r().Uint64() }
func Uint64N(n uint64) uint64            { return r().Uint64N(n) }
func Float32() float32                   { return r().Float32() }
func Float64() float64                   { return r().Float64() }
func ExpFloat64() float64                { return r().ExpFloat64() }
func NormFloat64() float64               { return r().NormFloat64() }
func Perm(n int) []int                   { return r().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r().Shuffle(n, swap) }

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func N[T integer](n T) T { return T(r().Uint64N(uint64(n))) }
