//go:build go1.21

package main

import (
	"fmt"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
)

// Concurrent callers of one blockchain.

// opRec is one call with its invocation and response, in ticks.
type opRec struct {
	kind     string // add, top, height, have, get, hashat, stop, sparse
	inv, ret int64
	blk      *cblk  // add, have, get
	err      error  // add
	found    bool   // have, get, hashat
	idx      uint32 // top: index of the answer; hashat: argument
	hash     hash32 // top, hashat: the answer
	list     []crypto.Hash
}

// cblk is a block of the prepared tree.
type cblk struct {
	f     *forged
	h     hash32
	idx   uint32
	prev  hash32
	valid bool // obeys every rule when its parent is the top
	inf   meta
}

type conc struct {
	r      *run
	c      *chainRun
	tick   int64
	ops    []*opRec
	blocks []*cblk
	byHash map[hash32]*cblk
}

func (k *conc) now() int64 { k.tick++; return k.tick }

// tree prepares a line of blocks with competitors.
func (k *conc) tree(depth int) {
	w := k.r.w
	type tip struct {
		m    *model
		main bool
	}
	c := k.c
	cur := c.m.clone()
	add := func(m *model, name string) (*cblk, *model) {
		s := spec{outs: 1 + w.Choose(2), extra: 33, ts: m.m[m.top].ts + uint64(w.Choose(200)), depth: w.Choose(2), branch: w.Choose(2)}
		now := uint64(epoch)
		if s.ts > now+300 {
			s.ts = now + 300
		}
		if lo, full := m.medianTS(m.top, versionAt(m.top+1)); full && s.ts < lo {
			s.ts = lo
		}
		if m.zone(m.top+1) && w.Choose(3) == 2 {
			old := c.m
			c.m = m
			s.txs = append(s.txs, c.goodTx(m.top+1))
			c.m = old
		}
		f := m.forge(k.r.rng, m.top, s)
		if f == nil {
			return nil, nil
		}
		v := m.judge(f.b, f.raws, now)
		if !v.ok() {
			return nil, nil
		}
		x := v.inf
		x.raw = f.b.encode()
		b := &cblk{f: f, h: x.hash, idx: x.idx, prev: x.prev, valid: true, inf: x}
		k.blocks = append(k.blocks, b)
		k.byHash[b.h] = b
		n := m.clone()
		n.push(&x)
		return b, n
	}
	for d := 0; d < depth; d++ {
		_, n := add(cur, "main")
		if n == nil {
			return
		}
		if w.Choose(10) < 6 {
			// a competitor, sometimes with a child
			if _, s := add(cur, "sibling"); s != nil && w.Choose(2) == 1 {
				add(s, "child of the sibling")
			}
		}
		if w.Choose(10) < 2 {
			// an invalid block at this place
			s := spec{outs: 1, extra: 33, ts: cur.m[cur.top].ts + 5, depth: 1}
			s.mutAmt = func(x uint64) uint64 { return x + 1 }
			if lo, full := cur.medianTS(cur.top, versionAt(cur.top+1)); full && s.ts < lo {
				s.ts = lo
			}
			if f := cur.forge(k.r.rng, cur.top, s); f != nil {
				if v := cur.judge(f.b, f.raws, epoch); !v.ok() {
					b := &cblk{f: f, h: f.b.hash(), idx: cur.top + 1, prev: f.b.prev}
					k.blocks = append(k.blocks, b)
					k.byHash[b.h] = b
				}
			}
		}
		cur = n
	}
}

func (k *conc) rec(o *opRec) *opRec {
	k.ops = append(k.ops, o)
	o.inv = k.now()
	return o
}

func (k *conc) doAdd(b *cblk) *opRec {
	blk, err := k.c.real(b.f)
	if err != nil {
		k.r.stop("C07:valid block undecodable")
		return nil
	}
	o := k.rec(&opRec{kind: "add", blk: b})
	o.err = k.c.n.bc.AddBlock(blk, b.f.raws)
	o.ret = k.now()
	return o
}

func (k *conc) doQuery(kind string, b *cblk, idx uint32) {
	bc, st := k.c.n.bc, k.c.n.st
	o := k.rec(&opRec{kind: kind, blk: b, idx: idx})
	switch kind {
	case "top":
		t := bc.TopBlock()
		if t != nil {
			o.hash, o.idx, o.found = hash32(*t.Hash()), t.Index(), true
		}
	case "height":
		o.idx = bc.Height()
	case "have":
		h := crypto.Hash(b.h)
		o.found = bc.HaveBlock(&h)
	case "shave":
		h := crypto.Hash(b.h)
		o.found = st.HaveBlock(&h)
	case "get":
		h := crypto.Hash(b.h)
		if x := st.GetBlock(&h); x != nil {
			o.found = true
			o.hash = hash32(*x.Hash())
		}
	case "hashat":
		if h, err := st.HashAtIndex(idx); err == nil && h != nil {
			o.found = true
			o.hash = hash32(*h)
		}
	case "stop":
		if t, err := st.TopBlock(); err == nil && t != nil {
			o.hash, o.idx, o.found = hash32(*t.Hash()), t.Index(), true
		}
	case "stopi":
		if i, err := st.TopIndex(); err == nil {
			o.idx, o.found = i, true
		}
	case "sparse":
		l, err := bc.BuildSparseChain()
		o.err, o.list = err, l
	}
	o.ret = k.now()
}

var queryKinds = []string{"top", "height", "have", "shave", "get", "hashat", "stop", "stopi", "sparse"}

// concScenario runs submitters and readers against one chain.
func concScenario(focus string) func(r *run) {
	return func(r *run) {
		w := r.w
		h := history{test: w.Choose(2) == 1, variant: w.Choose(12), top: []uint32{0, 1, 2, 3, 5, 9, 11, 12, 17, 60, 61, 100}[w.Choose(12)]}
		if focus == "C20" {
			h.top = uint32(w.Choose(40))
		}
		// a plain pace of block times
		h.variant -= h.variant % 6
		if h.top > 1000 {
			h.top = 3
		}
		c, err := newChainRun(r, h)
		if err != nil {
			w.HarnessErr = "history: " + err.Error()
			return
		}
		if w.Choose(2) == 1 {
			i := h.top + 900
			hh := randHash(r.rng)
			c.m.cps[i] = hh
			c.n.cps[i] = hh
		}
		k := &conc{r: r, c: c, byHash: map[hash32]*cblk{}}
		k.tree(2 + w.Choose(6))
		w.P = drawSched(r)
		nAdd := 2 + w.Choose(3)
		nRead := w.Choose(4)
		if focus == "C20" {
			nRead++
		}
		w.OnCrash = func(x *zzCrash) {
			if x.Kind == "hang" {
				return
			}
			r.fail("C09 C02 C01", "crash:"+x.Class(), "a concurrent call brings the process down: %s: %s (in %s)", x.Kind, x.Msg, x.Func)
		}
		w.Run(func() {
			open := false
			if !c.inNode("open", "", func() { open = c.n.open() == nil }) || !open {
				r.stop("C19:open fails")
				return
			}
			left := 0
			start := func(name string, fn func()) {
				left++
				w.GoIn(c.n.proc, name, func() {
					fn()
					left--
				})
			}
			for a := 0; a < nAdd; a++ {
				// each submitter walks the tree with its own gaps and repetitions
				var plan []*cblk
				style := w.Choose(3)
				for _, b := range k.blocks {
					if style == 0 || w.Choose(10) < 7 {
						plan = append(plan, b)
					}
					if w.Choose(10) == 9 {
						plan = append(plan, k.blocks[w.Choose(len(k.blocks))])
					}
				}
				if style == 2 && len(plan) > 1 {
					for n := 0; n < 2; n++ {
						i := w.Choose(len(plan) - 1)
						plan[i], plan[i+1] = plan[i+1], plan[i]
					}
				}
				for n := w.Choose(2); n > 0; n-- {
					plan = append(plan, k.blocks...)
				}
				start(fmt.Sprintf("submit%d", a), func() {
					for _, b := range plan {
						o := k.doAdd(b)
						if o == nil {
							return
						}
						if o.err == nil {
							// the caller sees its own success at once
							k.doQuery([]string{"have", "get", "hashat", "shave"}[w.Choose(4)], b, b.idx)
							if w.Choose(2) == 1 {
								k.doQuery("top", nil, 0)
							}
						}
					}
				})
			}
			for a := 0; a < nRead; a++ {
				n := 3 + w.Choose(12)
				start(fmt.Sprintf("read%d", a), func() {
					for i := 0; i < n; i++ {
						kind := queryKinds[w.Choose(len(queryKinds))]
						if focus == "C20" && w.Choose(2) == 1 {
							kind = "sparse"
						}
						b := k.blocks[w.Choose(len(k.blocks))]
						k.doQuery(kind, b, b.idx)
					}
				})
			}
			if !w.Block("callers", func() bool { return left == 0 || c.n.proc.Dead }, w.Now()+3600*sec) || c.n.proc.Dead {
				if w.Crash != nil && w.Crash.Kind != "hang" {
					return
				}
				r.fail("C09 "+focus, "a call does not return", "a call does not return: %s", w.Dump())
				return
			}
			// one more reader sees the final state
			w.P.MeanGap = 0
			w.P.WinGap = 0
			w.P.StallPM = 0
			if !c.inNode("final", "", func() {
				k.doQuery("top", nil, 0)
				for _, b := range k.blocks {
					k.doQuery("have", b, 0)
				}
			}) {
				return
			}
			k.judge()
		})
	}
}

// judge checks the recorded calls against an append-only log.
func (k *conc) judge() {
	r, c := k.r, k.c
	base := c.m.top
	// the final chain
	accepted := map[hash32]*opRec{}
	for _, o := range k.ops {
		if o.kind == "add" && o.err == nil {
			if accepted[o.blk.h] != nil {
				r.fail("C09 C02", "accepted twice", "block %x at %d is accepted by two calls", o.blk.h[:4], o.blk.idx)
			}
			accepted[o.blk.h] = o
			if !o.blk.valid {
				r.fail("C09", "invalid block accepted", "an invalid block is accepted")
			}
		}
	}
	var line []*cblk // line[i] is the block at base+1+i
	var adds []*opRec
	prev := c.m.m[base].hash
	c.inNode("walk", "", func() {
		for i := base + 1; ; i++ {
			h, _ := c.n.st.HashAtIndex(i)
			if h == nil {
				break
			}
			b := k.byHash[hash32(*h)]
			if b == nil || b.idx != i || b.prev != prev {
				r.fail("C01 C09", "chain broken", "the block at %d does not follow the one below it", i)
				return
			}
			o := accepted[b.h]
			if o == nil {
				r.fail("C02 C09 C01", "refused block in the chain", "the block at %d is in the chain but no call accepted it", i)
				return
			}
			line = append(line, b)
			adds = append(adds, o)
			prev = b.h
		}
	})
	if len(line) != len(accepted) {
		r.fail("C01 C09 C02", "accepted block lost", "%d blocks were accepted, %d are in the chain", len(accepted), len(line))
		return
	}
	top := base + uint32(len(line))
	c.inNode("top", "", func() {
		t := c.n.bc.TopBlock()
		if t == nil || hash32(*t.Hash()) != prev || c.n.bc.Height() != top+1 {
			r.fail("C01 C02 C09", "wrong top", "the top is not the last accepted block")
		}
	})
	final := c.m.clone()
	for _, b := range line {
		x := b.inf
		final.push(&x)
	}
	pos := map[hash32]int{} // position in the line, -1 for the base
	for i := uint32(0); i <= base; i++ {
		if x := c.m.m[i]; x != nil {
			pos[x.hash] = -1
		}
	}
	for i, b := range line {
		pos[b.h] = i
	}
	n := len(line)
	const inf = int64(1) << 60
	lo := make([]int64, n)
	hi := make([]int64, n)
	for i, o := range adds {
		lo[i], hi[i] = o.inv, o.ret
	}
	type edge struct{ i int } // constraint on a query point
	// every query is a point r in [inv,ret] with lower neighbours a (L_a <= r)
	// and upper neighbours b (r <= L_b); -1 means none
	type point struct {
		o      *opRec
		lo, hi int64
		a, b   int
		what   string
	}
	var pts []*point
	add := func(o *opRec, a, b int, f string, args ...interface{}) {
		pts = append(pts, &point{o: o, lo: o.inv, hi: o.ret, a: a, b: b, what: fmt.Sprintf(f, args...)})
	}
	type either struct {
		o     *opRec
		upper int // r <= L_upper, or
		lower int // r >= L_lower
	}
	var alts []either
	topAt := func(o *opRec, kind string, idx uint32, hash *hash32) {
		if idx < base || idx > top {
			r.fail("C09 C01", "impossible "+kind, "%s answers %d, the chain went from %d to %d", kind, idx, base, top)
			return
		}
		if hash != nil && *hash != final.m[idx].hash {
			r.fail("C09 C01", "impossible "+kind, "%s answers a block that never was at %d", kind, idx)
			return
		}
		a, b := int(idx-base)-1, int(idx-base)
		if b >= n {
			b = -1
		}
		add(o, a, b, "%s answers position %d", kind, idx)
	}
	for _, o := range k.ops {
		switch o.kind {
		case "top", "stop":
			if !o.found {
				r.fail("C09", "no top", "%s has no answer", o.kind)
				return
			}
			h := o.hash
			topAt(o, o.kind, o.idx, &h)
		case "stopi":
			if !o.found {
				r.fail("C09", "no top", "%s has no answer", o.kind)
				return
			}
			topAt(o, o.kind, o.idx, nil)
		case "height":
			topAt(o, o.kind, o.idx-1, nil)
		case "have", "shave", "get":
			p, in := pos[o.blk.h]
			if o.found {
				if !in {
					r.fail("C09 C02", "refused block found", "%s finds a block that was never accepted", o.kind)
					return
				}
				if o.kind == "get" && o.hash != o.blk.h {
					r.fail("C09", "other block found", "a lookup by hash gives another block")
					return
				}
				add(o, p, -1, "%s finds the block at %d", o.kind, o.blk.idx)
			} else if in && p >= 0 {
				add(o, -1, p, "%s does not find the block at %d", o.kind, o.blk.idx)
			}
		case "hashat":
			p := int(o.idx) - int(base) - 1
			if o.found {
				if p >= n || o.hash != final.m[o.idx].hash {
					r.fail("C09 C02", "refused block found", "position %d shows a block that was never accepted there", o.idx)
					return
				}
				add(o, p, -1, "position %d is filled", o.idx)
			} else if p < n {
				add(o, -1, p, "position %d is empty", o.idx)
			}
		case "sparse":
			if o.err != nil {
				r.fail("C20", "no chain request", "BuildSparseChain fails while blocks are added: %v", o.err)
				return
			}
			if len(o.list) == 0 {
				r.fail("C20 C09", "chain request", "BuildSparseChain is empty")
				return
			}
			p, in := pos[hash32(o.list[0])]
			idx := base
			if in && p >= 0 {
				idx = base + 1 + uint32(p)
			}
			if !in || final.m[idx].hash != hash32(o.list[0]) {
				r.fail("C20 C09", "chain request", "BuildSparseChain starts with a block that never was the top")
				return
			}
			if e := checkSparse(o.list, final, idx); e != "" {
				r.fail("C20", "chain request", "BuildSparseChain during additions, top %d: %s", idx, e)
				return
			}
			if r.prop == "C20" || r.prop == "C09" {
				topAt(o, "BuildSparseChain", idx, nil)
			}
		case "add":
			if o.err == nil || !o.blk.valid {
				continue
			}
			p, in := pos[o.blk.prev]
			if !in {
				continue // its parent never was in the chain
			}
			if p+1 < n && line[p+1].h == o.blk.h {
				// the block got in by another call (or was refused before it)
				alts = append(alts, either{o, p, p + 1})
				continue
			}
			low := n // never: the position was never filled
			if p+1 < n {
				low = p + 1
			}
			alts = append(alts, either{o, p, low})
		}
	}
	var contradiction string
	solve := func() bool {
		for changed := true; changed; {
			changed = false
			up := func(x *int64, v int64) {
				if v > *x {
					*x = v
					changed = true
				}
			}
			down := func(x *int64, v int64) {
				if v < *x {
					*x = v
					changed = true
				}
			}
			for i := 0; i < n; i++ {
				if i > 0 {
					up(&lo[i], lo[i-1])
					down(&hi[i-1], hi[i])
				}
			}
			for _, q := range pts {
				if q.a >= 0 {
					up(&q.lo, lo[q.a])
					down(&hi[q.a], q.hi)
				}
				if q.b >= 0 {
					down(&q.hi, hi[q.b])
					up(&lo[q.b], q.lo)
				}
				if q.lo > q.hi {
					contradiction = q.what
					return false
				}
			}
			for i := 0; i < n; i++ {
				if lo[i] > hi[i] {
					contradiction = fmt.Sprintf("the addition of block %d", line[i].idx)
					return false
				}
			}
		}
		return true
	}
	if !solve() {
		r.fail("C09", "not linearizable", "no order of the calls explains: %s", contradiction)
		return
	}
	for n2 := 0; n2 < 3; n2++ {
		for _, e := range alts {
			// before the parent got in, or after the place was taken
			before := e.upper >= 0 && e.o.inv <= hi[e.upper]
			after := e.lower < n && e.o.ret >= lo[e.lower]
			if !before && !after {
				r.fail("C09 C07", "valid next block refused", "a valid block at %d is refused (%v) while its place was free", e.o.blk.idx, e.o.err)
				return
			}
			if before && !after {
				add(e.o, -1, e.upper, "the refusal of block %d", e.o.blk.idx)
			}
			if after && !before {
				add(e.o, e.lower, -1, "the refusal of block %d", e.o.blk.idx)
			}
		}
		if !solve() {
			r.fail("C09", "not linearizable", "no order of the calls explains: %s", contradiction)
			return
		}
	}
	for _, o := range k.ops {
		res := "ok"
		if o.err != nil {
			res = "err"
		}
		r.cover("conc.%s.%s.%v", o.kind, res, o.found)
	}
	r.state("conc", base, n, len(k.ops)%16, r.w.SchedHash%4096)
	c.inNode("content", "", func() {
		for _, b := range line {
			h := crypto.Hash(b.h)
			x := c.n.st.GetBlock(&h)
			if x == nil || string(x.Serialize()) != string(b.inf.raw) {
				r.fail("C01 C02", "block content", "the content of block %d is not the submitted one", b.idx)
				return
			}
			info, ih, ok := infoAt(c.n.st, b.idx)
			if !ok {
				continue
			}
			if ih != b.h {
				r.fail("C01 C02", "recorded hash", "the data at %d is of another block", b.idx)
			}
			for name, want := range map[string]uint64{"TotalGeneratedCoins": b.inf.coins, "TotalGeneratedTransactions": b.inf.txs, "CumulativeDifficulty": b.inf.cd, "Size": b.inf.size} {
				if g, ok := info[name]; ok && g != want && !(name == "CumulativeDifficulty" && versionAt(b.idx) == 3) {
					r.fail("C03", "recorded "+name, "index %d records %s=%d, it must be %d", b.idx, name, g, want)
				}
			}
		}
	})
}

var _ = cryptonote.ZZPush

func init() {
	register("C09", scenario{"concurrent", 1, concScenario("C09")})
	register("C01", scenario{"concurrent", 1, concScenario("C01")})
	register("C02", scenario{"concurrent", 1, concScenario("C02")})
	register("C20", scenario{"concurrent", 1, concScenario("C20")})
}
