// Package rand replaces crypto/rand in the instrumented copy: its bytes follow
// from the seed of the run.
package rand

import (
	"encoding/base32"
	"io"

	"watersim/simrt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	for i := 0; i < len(b); i += 8 {
		z := simrt.Rand()
		for j := i; j < len(b) && j < i+8; j++ {
			b[j] = byte(z)
			z >>= 8
		}
	}
	return len(b), nil
}

var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Text() string {
	b := make([]byte, 16)
	Read(b)
	return base32.StdEncoding.EncodeToString(b)[:26]
}
