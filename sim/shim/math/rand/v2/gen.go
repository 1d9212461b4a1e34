// Code generated by cmd/genshim from package math/rand/v2. DO NOT EDIT.

package rand

import std "math/rand/v2"

type ChaCha8 = std.ChaCha8

var New = std.New
var NewChaCha8 = std.NewChaCha8
var NewPCG = std.NewPCG
var NewZipf = std.NewZipf

type PCG = std.PCG
type Rand = std.Rand
type Source = std.Source
type Zipf = std.Zipf
