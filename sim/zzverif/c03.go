//go:build go1.21

package main

import (
	"fmt"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzsim"
)

// Two nodes are given the same blocks: one plainly, the other amid repeats,
// junk, restarts and concurrent readers.
func agreement(r *run) {
	w := r.w
	h := pickHistory(r, false)
	c, err := newChainRun(r, h)
	if err != nil {
		w.HarnessErr = "history: " + err.Error()
		return
	}
	if w.Choose(10) < 6 {
		i := h.top + 500 + uint32(w.Choose(1000))
		hh := randHash(r.rng)
		c.m.cps[i] = hh
		c.n.cps[i] = hh
	}
	st, err := h.build().fill(c.n.net)
	if err != nil {
		w.HarnessErr = "history: " + err.Error()
		return
	}
	o := &node{net: c.n.net, test: h.test, cps: c.n.cps, st: &cryptonote.ZZStore{Storage: st}}
	nProc := 0
	readers := w.Choose(3)
	sched := drawSched(r)
	sched.StallPM = 0
	sched.Prio = false
	if sched.MeanGap < 100 {
		sched.MeanGap = 100
	}
	if h.top > 200 {
		sched.MeanGap = 2000
	}
	calm := zzsim.Params{MapPerm: w.Choose(2) == 1}
	// preemption only while the second node works
	busy := func(on bool) {
		p := calm
		if on {
			p = sched
			p.MapPerm = calm.MapPerm
		}
		w.SetParams(p)
	}
	nOps := w.Range(6, 30)
	stopReaders := false
	activity, inside := 0, 0
	w.OnCrash = func(x *zzCrash) {
		if x.Proc == o.proc && x.Kind != "hang" && len(c.accept) > 0 {
			r.stop("C09:crash of the second node: " + x.Class())
		}
	}
	w.Run(func() {
		startB := func() bool {
			nProc++
			o.proc = w.NewProc(fmt.Sprintf("other%d", nProc))
			o.proc.Offset = c.clockOff * 1e9
			var err error
			if !r.call(o.proc, "open", 600*sec, func() { err = o.open() }) {
				r.stop("C19:open of the second node")
				return false
			}
			if err != nil {
				r.fail("C03 C19", "restart fails", "opening the second node over its own store fails: %v", err)
				return false
			}
			p := o.proc
			for k := 0; k < readers; k++ {
				w.GoIn(p, "reader", func() {
					for !stopReaders && !p.Dead {
						if seen := activity; !w.Block("idle", func() bool { return activity > seen || stopReaders }, -1) || stopReaders {
							return
						}
						bc := o.bc
						inside++
						switch w.Choose(5) {
						case 0:
							bc.TopBlock()
						case 1:
							bc.Height()
						case 2:
							hh := crypto.Hash(c.m.m[c.m.top].hash)
							bc.HaveBlock(&hh)
						case 3:
							if c.m.contiguous() {
								_, _ = bc.BuildSparseChain()
							}
						case 4:
							_, _ = o.st.HashAtIndex(c.m.top)
						}
						inside--
					}
				})
			}
			return true
		}
		// give submits a block to the second node and reports its verdict
		give := func(f *forged) (ok bool, err error) {
			b, derr := c.real(f)
			if derr != nil {
				return false, derr
			}
			activity++
			busy(true)
			defer busy(false)
			if !r.call(o.proc, "AddBlock", 600*sec, func() { err = o.bc.AddBlock(b, f.raws) }) {
				r.stop("C09:second node stuck")
				return false, nil
			}
			return true, err
		}
		c.wire()
		c.restartOnly()
		if !startB() {
			return
		}
		busy(false)
		extra := func() {
			switch w.Choose(9) {
			case 5:
				if len(c.accept) > 0 {
					f := c.accept[w.Choose(len(c.accept))]
					if ok, err := give(f); ok && err == nil {
						r.fail("C03 C01", "known block accepted", "the second node accepts a block it already has")
					}
					r.cover("agree.repeat")
				}
			case 6:
				// a block that is certainly refused, now and later
				c.noNewCps = true
				f, what := c.mutated()
				c.noNewCps = false
				if f != nil {
					v := c.m.judge(f.b, f.raws, c.now())
					if !v.ok() && !v.has("C06") {
						if ok, err := give(f); ok && err == nil {
							r.stop(v.list()[0] + " accepted by the second node")
						}
						r.cover("agree.junk.%s", what)
					}
				}
			case 7:
				// the locks of the surviving store must be free
				w.Block("readers", func() bool { return inside == 0 }, w.Now()+60*sec)
				o.proc.Dead = true
				w.KillProc(o.proc)
				w.Fault("restart")
				startB()
			case 8:
				// an orphan
				f := c.valid()
				if f != nil {
					f.b.prev = randHash(r.rng)
					_, _ = give(f)
				}
			}
		}
		// the second node may get accepted blocks later, as one that catches up
		var lag []*forged
		var lagOff int64
		catchUp := func() bool {
			if len(lag) == 0 {
				return true
			}
			r.cover("agree.caught up")
			o.proc.Offset = c.clockOff * 1e9
			if lagOff > c.clockOff {
				o.proc.Offset = lagOff * 1e9
			}
			l := lag
			lag = nil
			for _, f := range l {
				ok, err := give(f)
				if !ok {
					return false
				}
				if err != nil {
					r.fail("C03", "verdicts differ", "a block at %d that one node has accepted is refused by one that gets it %d blocks later: %v", f.b.base.ins[0].idx, len(l), err)
					return false
				}
			}
			o.proc.Offset = c.clockOff * 1e9
			return true
		}
		c.onCheckpoint = func(i uint32, h hash32) {
			catchUp()
			r.call(o.proc, "AddCheckpoint", 600*sec, func() { _ = o.bc.Checkpoints.AddCheckpoint(i, crypto.Hash(h)) })
		}
		c.before = func() {
			if o.proc != nil {
				o.proc.Offset = c.clockOff * 1e9
			}
			if len(lag) > 0 {
				if w.Choose(4) == 3 {
					catchUp()
				}
				return
			}
			for n := w.Choose(3); n > 0; n-- {
				extra()
			}
		}
		c.mirror = func(f *forged, err error, what string) {
			o.proc.Offset = c.clockOff * 1e9
			var err2 error
			if len(lag) > 0 || err == nil && w.Choose(8) == 7 {
				if err == nil {
					if len(lag) == 0 || lagOff < c.clockOff {
						lagOff = c.clockOff
					}
					lag = append(lag, f)
				}
				return
			}
			if w.Choose(5) == 4 {
				// given twice at the same time
				b1, e1 := c.real(f)
				b2, e2 := c.real(f)
				if e1 != nil || e2 != nil {
					return
				}
				var v1, v2 error
				left := 2
				activity++
				busy(true)
				w.GoIn(o.proc, "add1", func() { v1 = o.bc.AddBlock(b1, f.raws); left-- })
				w.GoIn(o.proc, "add2", func() { v2 = o.bc.AddBlock(b2, f.raws); left-- })
				if !w.Block("both", func() bool { return left == 0 || o.proc.Dead }, w.Now()+600*sec) || o.proc.Dead {
					busy(false)
					r.stop("C09:second node stuck")
					return
				}
				busy(false)
				if v1 == nil && v2 == nil {
					r.fail("C03 C01 C09", "accepted twice", "the second node accepts the same block twice")
				}
				if err2 = v1; v2 == nil {
					err2 = nil
				}
			} else {
				ok := false
				if ok, err2 = give(f); !ok {
					return
				}
			}
			if (err == nil) != (err2 == nil) {
				r.fail("C03", "verdicts differ", "%s at %d: one node says %v, the other %v", what, c.m.top+1, err, err2)
			}
			r.state("agree", what, err == nil, versionAt(c.m.top+1))
		}
		c.onlyOther = func(f *forged, what string) {
			if len(lag) > 0 {
				return
			}
			if ok, err := give(f); ok && err == nil {
				v := c.m.judge(f.b, f.raws, c.now())
				r.stop(v.list()[0] + " accepted by the second node")
			}
			r.cover("agree.storm")
		}
		ops := defaultOps
		ops.fault, ops.foreign, ops.crash = 0, 0, 0
		c.ops(nOps, ops)
		if !catchUp() {
			return
		}
		stopReaders = true
		// the same chain and the same data
		var cmp string
		if !r.call(o.proc, "compare", 600*sec, func() {
			t := o.bc.TopBlock()
			if t == nil || hash32(*t.Hash()) != c.m.m[c.m.top].hash || o.bc.Height() != c.m.top+1 {
				cmp = "the tops differ"
				return
			}
			for i := c.h.top; i <= c.m.top; i++ {
				a, ah, ok1 := infoAt(c.n.st, i)
				b, bh, ok2 := infoAt(o.st, i)
				if ok1 != ok2 || ah != bh {
					cmp = fmt.Sprintf("the data recorded at %d differ", i)
					return
				}
				for k, v := range a {
					if b[k] != v {
						cmp = fmt.Sprintf("%s recorded at %d is %d on one node, %d on the other", k, i, v, b[k])
						return
					}
				}
				h1, _ := c.n.st.HashAtIndex(i)
				h2, _ := o.st.HashAtIndex(i)
				if h1 == nil || h2 == nil || *h1 != *h2 {
					cmp = fmt.Sprintf("the blocks at %d differ", i)
					return
				}
			}
		}) {
			r.stop("C09:second node stuck")
			return
		}
		if cmp != "" {
			r.fail("C03", "nodes differ", "%s", cmp)
		}
		r.cover("agree.compared")
	})
}

func init() { register("C03", scenario{"agreement", 3, agreement}) }
