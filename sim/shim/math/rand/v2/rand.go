//go:build go1.21

package rand

import (
	real "math/rand/v2"

	"github.com/r3volut1oner/go-karbo/zzsim"
)

type src struct{}

func (src) Uint64() uint64 { return zzsim.Rand64() }

type Rand = real.Rand

var global = real.New(src{})

func Int() int                           { return global.Int() }
func IntN(n int) int                     { return global.IntN(n) }
func Int64() int64                       { return global.Int64() }
func Int64N(n int64) int64               { return global.Int64N(n) }
func Int32() int32                       { return global.Int32() }
func Int32N(n int32) int32               { return global.Int32N(n) }
func Uint32() uint32                     { return global.Uint32() }
func Uint32N(n uint32) uint32            { return global.Uint32N(n) }
func Uint64() uint64                     { return global.Uint64() }
func Uint64N(n uint64) uint64            { return global.Uint64N(n) }
func Float64() float64                   { return global.Float64() }
func Float32() float32                   { return global.Float32() }
func Perm(n int) []int                   { return global.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { global.Shuffle(n, swap) }
