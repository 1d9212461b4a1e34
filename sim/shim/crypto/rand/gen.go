// Code generated by cmd/genshim from package crypto/rand. DO NOT EDIT.

package rand

import std "crypto/rand"

var Int = std.Int
var Prime = std.Prime
