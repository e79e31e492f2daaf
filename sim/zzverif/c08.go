//go:build go1.21

package main

import (
	"fmt"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
)

// cpModel is the reference for the checkpoint queries.
type cpModel map[uint32]hash32

func (m cpModel) max() uint32 {
	x := uint32(0)
	for i := range m {
		if i > x {
			x = i
		}
	}
	return x
}

func (m cpModel) zone(i uint32) bool { x := m.max(); return x != 0 && i <= x }

// alt is the rule for alternative blocks; known is false where the rule is
// not settled by the property.
func (m cpModel) alt(size, index uint32) (allowed, known bool) {
	if index < 1 {
		return false, true
	}
	if size > 10 && index < size-10 && !m.zone(index) {
		return false, true
	}
	last := uint32(0)
	for i := range m {
		if i == size {
			return false, false // is the checkpoint of the next block passed?
		}
		if i <= size && i > last {
			last = i
		}
	}
	if last > 0 && index <= last {
		return false, true
	}
	return true, true
}

// cpQueries checks the checkpoint set against the model, from one caller and
// from many.
func cpQueries(r *run) {
	w := r.w
	p := w.NewProc("node")
	cp := config.NewCheckpoints(logger)
	m := cpModel{}
	span := []int{20, 100, 1000, 1 << 20, 1 << 31}[w.Choose(5)]
	point := func() uint32 {
		if len(m) > 0 && w.Choose(3) == 2 {
			var k []uint32
			for _, i := range sortedU32(m) {
				k = append(k, i)
			}
			return k[w.Choose(len(k))] + uint32(w.Choose(5)) - 2
		}
		return uint32(r.rng.Intn(span))
	}
	hashes := []hash32{randHash(r.rng), randHash(r.rng), randHash(r.rng)}
	hashes[1] = hashes[0]
	hashes[1][[]int{31, 0, w.Choose(32)}[w.Choose(3)]] ^= byte(1 << w.Choose(8))
	n := 10 + w.Choose(40)
	tasks := w.Choose(5)
	many := 0
	if w.Choose(6) == 5 {
		many = 20 + w.Choose(400)
	}
	w.P.MapPerm = w.Choose(2) == 1
	w.Run(func() {
		// a long list to begin with
		for _, i := range r.rng.Perm(1000)[:many] {
			i, h := uint32(i)*uint32(span/1000+1), hashes[i%3]
			if !r.call(p, "add", 60*sec, func() {
				if err := cp.AddCheckpoint(i, crypto.Hash(h)); err != nil {
					r.fail("C08", "checkpoint refused", "a checkpoint at a new position %d is refused: %v", i, err)
				}
			}) {
				return
			}
			m[i] = h
		}
		for k := 0; k < n; k++ {
			i := point()
			h := hashes[w.Choose(3)]
			ch := crypto.Hash(h)
			if !r.call(p, "query", 60*sec, func() {
				switch w.Choose(4) {
				case 0:
					err := cp.AddCheckpoint(i, ch)
					_, dup := m[i]
					if dup && err == nil {
						r.fail("C08", "checkpoint added twice", "a second checkpoint at %d is taken", i)
					}
					if !dup && err != nil {
						r.fail("C08", "checkpoint refused", "a checkpoint at a new position %d is refused: %v", i, err)
					}
					if !dup {
						m[i] = h
					}
				case 1:
					if got := cp.IsInCheckpointZone(i); got != m.zone(i) {
						r.fail("C08", "checkpoint zone", "position %d in the zone: %v, must be %v with checkpoints %v", i, got, m.zone(i), sortedU32(m))
					}
				case 2:
					err := cp.CheckBlock(i, &ch)
					x, ok := m[i]
					if bad := ok && x != h; bad != (err != nil) {
						r.fail("C08", "checkpoint hash", "checking a block at %d says %v, its checkpoint agrees: %v", i, err, !bad)
					}
				case 3:
					size := point()
					if w.Choose(2) == 1 {
						size = i + uint32(w.Choose(25))
					}
					err := cp.AlternativeBlockAllowed(size, i)
					if allowed, known := m.alt(size, i); known && allowed != (err == nil) {
						r.fail("C08", "alternative block", "alternative block at %d on a chain of %d: %v, must be allowed: %v, checkpoints %v", i, size, err, allowed, sortedU32(m))
					}
					r.state("alt", err == nil, i > size, int32(size-i) > 10, len(m) > 0)
				}
			}) {
				r.fail("C08", "query does not return", "a checkpoint query does not return: %s", w.Dump())
				return
			}
		}
		if tasks == 0 {
			return
		}
		// many callers
		w.SetParams(drawSched(r))
		left := tasks + 1
		won := map[uint32]int{}
		first := map[uint32]hash32{}
		known := cpModel{}
		for i, h := range m {
			known[i] = h
		}
		top := m.max()
		points := make([]uint32, 3)
		for i := range points {
			points[i] = uint32(r.rng.Intn(span))
		}
		w.OnCrash = func(x *zzCrash) {
			if x.Kind != "hang" {
				r.fail("C08", "crash:"+x.Class(), "concurrent checkpoint queries bring the process down: %s in %s", x.Msg, x.Func)
			}
		}
		for t := 0; t <= tasks; t++ {
			t := t
			steps := 3 + w.Choose(10)
			w.GoIn(p, fmt.Sprintf("caller%d", t), func() {
				defer func() { left-- }()
				for k := 0; k < steps; k++ {
					i := points[w.Choose(3)]
					if w.Choose(3) == 2 {
						i = uint32(r.rng.Intn(span))
					}
					h := hashes[w.Choose(3)]
					ch := crypto.Hash(h)
					switch w.Choose(4) {
					case 0:
						if cp.AddCheckpoint(i, ch) == nil {
							won[i]++
							first[i] = h
							if _, dup := m[i]; dup || won[i] > 1 {
								r.fail("C08", "checkpoint added twice", "a second checkpoint at %d is taken", i)
								return
							}
							if i > top {
								top = i
							}
						}
					case 1:
						was := top
						if cp.IsInCheckpointZone(i) {
							// in the zone of the checkpoints added or being added
							continue
						}
						if was != 0 && i <= was {
							r.fail("C08", "checkpoint zone", "position %d is not in the zone although %d is a checkpoint", i, was)
							return
						}
					case 2:
						x, ok := first[i]
						if !ok {
							x, ok = known[i]
						}
						err := cp.CheckBlock(i, &ch)
						if ok && (x != h) != (err != nil) {
							r.fail("C08", "checkpoint hash", "checking a block at %d says %v", i, err)
							return
						}
					case 3:
						_ = cp.AlternativeBlockAllowed(i+uint32(w.Choose(20)), i)
					}
				}
			})
		}
		if !w.Block("callers", func() bool { return left == 0 || p.Dead }, w.Now()+3600*sec) {
			r.fail("C08", "query does not return", "a checkpoint query does not return: %s", w.Dump())
			return
		}
		r.cover("checkpoints.concurrent")
		r.state("cpconc", w.SchedHash%4096)
	})
}

func init() {
	register("C08", scenario{"queries", 1, cpQueries})
	o := defaultOps
	o.mutate = 60
	register("C08", scenario{"chain", 2, chainScenario("C08", o, false, 8, 40)})
}
