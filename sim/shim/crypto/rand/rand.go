//go:build go1.21

package rand

import (
	real "crypto/rand"
	"errors"
	"io"
	"math/big"

	"github.com/r3volut1oner/go-karbo/zzsim"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	zzsim.Y()
	if w := zzsim.W; w != nil && w.RandFault != nil {
		if n, bad := w.RandFault(len(b)); bad {
			w.Fault("rand.error")
			if n > len(b) {
				n = len(b)
			}
			zzsim.FillRand(b[:n])
			return n, errors.New("entropy source failed")
		} else if n > 0 && n < len(b) {
			w.Fault("rand.short")
			zzsim.FillRand(b[:n])
			return n, nil
		}
	}
	zzsim.FillRand(b)
	return len(b), nil
}

// Reader is the simulated entropy source.
var Reader io.Reader = reader{}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return real.Int(r, max) }
