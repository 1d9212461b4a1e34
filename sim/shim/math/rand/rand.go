// Package rand replaces math/rand in the instrumented copy: what the default
// source says follows from the seed of the run.
package rand

import (
	std "math/rand"

	"watersim/simrt"
)

type source struct{}

func (source) Uint64() uint64 { return simrt.Rand() }
func (source) Int63() int64   { return int64(simrt.Rand() >> 1) }
func (source) Seed(int64)     {}

func r() *std.Rand { return std.New(source{}) }

func Int() int                           { return r().Int() }
func Intn(n int) int                     { return r().Intn(n) }
func Int31() int32                       { return r().Int31() }
func Int31n(n int32) int32               { return r().Int31n(n) }
func Int63() int64                       { return r().Int63() }
func Int63n(n int64) int64               { return r().Int63n(n) }
func Uint32() uint32                     { return r().Uint32() }
func Uint64() uint64                     { return r().Uint64() }
func Float32() float32                   { return r().Float32() }
func Float64() float64                   { return r().Float64() }
func ExpFloat64() float64                { return r().ExpFloat64() }
func NormFloat64() float64               { return r().NormFloat64() }
func Perm(n int) []int                   { return r().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { r().Shuffle(n, swap) }
func Read(b []byte) (int, error)         { return r().Read(b) }
func Seed(int64)                         {}
