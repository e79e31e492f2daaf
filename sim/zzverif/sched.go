//go:build go1.21

package main

import "github.com/r3volut1oner/go-karbo/zzsim"

type zzCrash = zzsim.Crash

// drawSched draws the scheduler's parameters of a concurrent run.
func drawSched(r *run) zzsim.Params {
	w := r.w
	p := zzsim.Params{}
	p.MeanGap = []float64{30, 5, 12, 100, 400, 2000}[w.Choose(6)]
	p.Prio = w.Choose(4) == 3
	p.WinGap = []float64{0, 3, 10, 40}[w.Choose(4)]
	p.MapPerm = w.Choose(2) == 1
	if w.Choose(4) == 3 {
		p.StallPM = []int{2, 10, 50}[w.Choose(3)]
		p.StallMaxMs = []int{5, 100, 2000}[w.Choose(3)]
	}
	return p
}
