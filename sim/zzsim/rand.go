//go:build go1.21

package zzsim

// Rand64 is the simulated entropy source.
func Rand64() uint64 {
	w := W
	if w == nil {
		outRnd = outRnd*6364136223846793005 + 1442695040888963407
		return outRnd ^ outRnd>>33
	}
	w.rnd += 0x9E3779B97F4A7C15
	z := w.rnd
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

var outRnd uint64 = 88172645463325252

// SeedRand seeds the entropy of this world.
func (w *World) SeedRand(s uint64) { w.rnd, w.rndN = s, 0 }

// FillRand reads the next bytes of the entropy stream; what it returns does
// not depend on how the stream is split into reads.
func FillRand(b []byte) {
	w := W
	for j := range b {
		if w == nil {
			if outN == 0 {
				outBuf, outN = Rand64(), 8
			}
			b[j] = byte(outBuf)
			outBuf >>= 8
			outN--
			continue
		}
		if len(w.RandFix) > 0 {
			b[j] = w.RandFix[0]
			w.RandFix = w.RandFix[1:]
			continue
		}
		if w.rndN == 0 {
			w.rndBuf, w.rndN = Rand64(), 8
		}
		b[j] = byte(w.rndBuf)
		w.rndBuf >>= 8
		w.rndN--
	}
}

var (
	outBuf uint64
	outN   int
)
