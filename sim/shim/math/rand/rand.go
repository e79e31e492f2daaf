//go:build go1.21

package rand

import (
	real "math/rand"

	"github.com/r3volut1oner/go-karbo/zzsim"
)

type src struct{}

func (src) Int63() int64   { return int64(zzsim.Rand64() >> 1) }
func (src) Uint64() uint64 { return zzsim.Rand64() }
func (src) Seed(int64)     {}

type Rand = real.Rand

var global = real.New(src{})

func Seed(int64)                         {}
func Int63() int64                       { return global.Int63() }
func Uint32() uint32                     { return global.Uint32() }
func Uint64() uint64                     { return global.Uint64() }
func Int31() int32                       { return global.Int31() }
func Int() int                           { return global.Int() }
func Int63n(n int64) int64               { return global.Int63n(n) }
func Int31n(n int32) int32               { return global.Int31n(n) }
func Intn(n int) int                     { return global.Intn(n) }
func Float64() float64                   { return global.Float64() }
func Float32() float32                   { return global.Float32() }
func Perm(n int) []int                   { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
func Read(p []byte) (int, error)         { zzsim.FillRand(p); return len(p), nil }
func NormFloat64() float64               { return global.NormFloat64() }
func ExpFloat64() float64                { return global.ExpFloat64() }
