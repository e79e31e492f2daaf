//go:build go1.21

package main

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzsim"
)

// chainRun drives one blockchain sequentially against the reference model.
type chainRun struct {
	r     *run
	m     *model
	h     history
	n     *node
	focus string
	ki    int

	clockOff int64 // seconds

	refused             []*forged // refused or orphaned blocks kept for resubmission
	accept              []*forged
	pushErr             error // what the next storage write returns
	nProc               int
	noTx                bool
	branched            bool // the reference stopped being able to predict
	nRefused, nAccepted int

	pool     []mutator // mutations aimed at the focus property
	planned  *forged   // the block an own checkpoint stands for
	noNewCps bool
	crash    int
	swept    uint32 // the last height of an edgeSweep
	pushes   int
	mirror   func(f *forged, err error, what string)
	before   func()
	// onlyOther gives a block to the second node only
	onlyOther func(f *forged, what string)
	reopened  bool // no block was accepted since the chain was opened

	onCheckpoint func(i uint32, h hash32)
	readFail     int // the read that fails, counted from 1
	readHit      int
}

var errDisk = errors.New("disk failure")

func (c *chainRun) now() uint64 { return uint64(epoch + c.r.w.Now()/1e9 + c.clockOff) }

var tops = []uint32{0, 1, 2, 3, 8, 10, 11, 12, 16, 17, 18, 57, 58, 59, 60, 61, 62, 98, 99, 100, 101, 118, 298,
	358, 359, 360, 361, 370, 373, 374, 375, 376, 377, 700}
var longTops = []uint32{1022, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049}
var edges = []uint32{upV2, upV3, upV3s1, upV4, upV4s1, upV4s2, upV4s3, upV5, upV5}

// pickHistory chooses where on the chain the run happens.
func pickHistory(r *run, contiguousOnly bool) history {
	h := history{test: r.w.Choose(3) == 2, variant: r.w.Choose(24)}
	if r.w.Choose(5) == 4 {
		h.variant += 24 * (1 + r.w.Choose(3))
	}
	if contiguousOnly || r.w.Choose(100) < 45 {
		h.top = tops[r.w.Choose(len(tops))]
		h.variant -= h.variant % 24 / 12 * 12
		if r.prop == "C20" {
			switch r.w.Choose(12) {
			case 0:
				// long enough for more steps back
				h.top = longTops[r.w.Choose(len(longTops))]
				h.variant, h.whole = h.variant%2, true
			case 1, 2, 3:
				// far up the chain
				h.top = edges[r.w.Choose(len(edges))] + uint32(r.w.Choose(1<<uint(5+r.w.Choose(15))))
				if r.w.Choose(2) == 1 {
					h.top = 1<<uint(11+r.w.Choose(11)) + uint32(r.w.Choose(5)) - 2
				}
			}
		}
		return h
	}
	e := edges[r.w.Choose(len(edges))]
	switch r.w.Choose(4) {
	case 0, 1:
		// a little before the upgrade
		h.top = e - uint32(r.w.Choose(6))
	case 2:
		// after it
		h.top = e + uint32(r.w.Choose(70))
		if e == upV5 {
			h.top += []uint32{0, 0, 30, 55, 100}[r.w.Choose(5)]
		}
	default:
		h.top = e + 500 + uint32(r.w.Choose(3))*1000
	}
	return h
}

// newChainRun prepares a store, outside the simulated schedule.
func newChainRun(r *run, h history) (*chainRun, error) {
	b := h.build()
	c := &chainRun{r: r, h: h, m: b.m.clone()}
	net := netOf(h.test)
	st, err := b.fill(net)
	if err != nil {
		return nil, err
	}
	c.n = &node{net: net, test: h.test, cps: map[uint32]hash32{}, st: &cryptonote.ZZStore{Storage: st}}
	c.newProc()
	return c, nil
}

func (c *chainRun) newProc() {
	c.nProc++
	c.n.proc = c.r.w.NewProc(fmt.Sprintf("node%d", c.nProc))
	c.n.proc.Offset = c.clockOff * 1e9
}

func (c *chainRun) setClock(off int64) {
	c.clockOff = off
	c.n.proc.Offset = off * 1e9
}

// inNode runs fn in the node's process.  A panic of the code under test ends
// the run: undecided unless the caller's property list names it.
func (c *chainRun) inNode(what, props string, fn func()) bool {
	if c.r.call(c.n.proc, what, 600*sec, fn) {
		return true
	}
	if c.n.proc.Dead && c.r.w.Crash != nil {
		if props != "" {
			c.r.fail(props, "crash:"+what, "the process died in %s: %s", what, c.r.w.Crash.Class())
		}
		c.r.stop("C11:crash in " + what + ": " + c.r.w.Crash.Class())
	} else {
		c.r.fail("C09 "+props, "stuck:"+what, "%s does not return: %s", what, c.r.w.Dump())
	}
	return false
}

func (c *chainRun) real(f *forged) (*cryptonote.Block, error) {
	raw := f.b.encode()
	b, err := toReal(raw)
	return b, err
}

func isTimeErr(err error) bool {
	return errors.Is(err, cryptonote.ErrBlockValidationTimestampTooFarInFuture) || errors.Is(err, cryptonote.ErrBlockValidationTimestampTooFarInPast)
}

func isRewardErr(err error) bool {
	return errors.Is(err, cryptonote.ErrBlockValidationBlockRewardMismatch) || errors.Is(err, cryptonote.ErrBlockValidationCumulativeSizeTooBig)
}

func isFeeErr(err error) bool {
	return errors.Is(err, cryptonote.ErrTransactionInvalidFee) || errors.Is(err, cryptonote.ErrTransactionWrongAmount)
}

// submit gives a block to the node and checks everything that follows.
func (c *chainRun) submit(f *forged, what string) (accepted bool) {
	r := c.r
	v := c.m.judge(f.b, f.raws, c.now())
	fault := c.pushErr
	blk, derr := c.real(f)
	if derr != nil {
		if v.ok() {
			r.fail("C07", "valid block undecodable", "a valid block (%s, index %d) cannot be decoded: %v", what, c.m.top+1, derr)
		}
		r.cover("submit.undecodable")
		return false
	}
	h := f.b.hash()
	if v.inf.cd-c.m.m[c.m.top].cd == beyondRule {
		r.stop("C22:difficulty beyond the rule's arithmetic")
	}
	if c.before != nil {
		c.before()
	}
	var got hash32
	var err error
	raws := make([][]byte, len(f.raws))
	for i := range raws {
		raws[i] = append([]byte{}, f.raws[i]...)
	}
	cprops := ""
	if v.ok() {
		cprops = "C07"
	}
	if !c.inNode("AddBlock", cprops, func() {
		got = hash32(*blk.Hash())
		err = c.n.bc.AddBlock(blk, raws)
	}) {
		return false
	}
	if c.mirror != nil && fault == nil {
		c.mirror(f, err, what)
	}
	if got != h {
		r.fail("C05 C01", "block hash", "block hash is %x, the reference gives %x", got, h)
	}
	r.w.Logf("submit %s index %d hash %x txs %d: node says %v, reference %v", what, c.m.top+1, h[:4], len(f.raws), err, v.list())
	r.state(what, versionAt(c.m.top+1), err == nil, len(v.why))
	if fault != nil && v.ok() {
		// the write was told to fail
		if c.pushErr == nil { // consumed
			if err == nil {
				r.fail("C02 C03", "failed write reported as success", "the storage write failed but the block was reported as accepted")
			}
			c.checkRefused(f, h, what)
			c.keep(f)
			return false
		}
	}
	c.pushErr = nil
	switch {
	case err == nil && !v.ok():
		r.cover("mismatch.accepted")
		c.twinCheck(f, err, v)
		r.fail(v.props(), "accepted:"+v.list()[0], "%s: a block is accepted at index %d although: %v", what, c.m.top+1, v.list())
	case err != nil && v.ok():
		r.cover("mismatch.refused")
		c.twinCheck(f, err, v)
		p := "C07"
		if isTimeErr(err) {
			p += " C06"
		}
		if isRewardErr(err) || isFeeErr(err) {
			p += " C04"
		}
		r.fail(p, "refused:"+err.Error(), "%s: a valid block at index %d is refused: %v", what, c.m.top+1, err)
	case err != nil:
		if isTimeErr(err) && !v.has("C06") && f.b.major == versionAt(c.m.top+1) && !v.has("C01") {
			r.fail("C06", "refused for its time", "%s: a block with a timestamp within both bounds is refused with %v", what, err)
		}
		c.nRefused++
		r.cover("refused:" + v.list()[0])
		c.checkRefused(f, h, what)
		c.keep(f)
		return false
	}
	// accepted
	c.nAccepted++
	c.reopened = false
	r.cover("accepted.v%d", f.b.major)
	if len(f.raws) > 0 {
		r.cover("accepted.withtx")
	}
	x := v.inf
	x.raw = f.b.encode()
	if info, ih, ok := infoAt(c.n.st, x.idx); ok {
		cmp := func(field, prop string, want uint64) {
			if g, ok := info[field]; ok && g != want {
				r.fail(prop, "recorded "+field, "%s: index %d records %s=%d, it must be %d (previous %+v)", what, x.idx, field, g, want, brief(c.m.m[x.idx-1]))
			}
		}
		cmp("Index", "C01", uint64(x.idx))
		if ih != h {
			r.fail("C01 C02", "recorded hash", "index %d records hash %x for block %x", x.idx, ih[:4], h[:4])
		}
		cmp("TotalGeneratedCoins", "C04", x.coins)
		cmp("TotalGeneratedTransactions", "C04", x.txs)
		cmp("Size", "C04", x.size)
		if v.exactDiff {
			cmp("CumulativeDifficulty", "C22", x.cd)
		} else if g, ok := info["CumulativeDifficulty"]; ok {
			p := c.m.m[x.idx-1].cd
			d, w := int64(g-p), int64(x.cd-p)
			if d-w > 2+w/1e9 || w-d > 2+w/1e9 {
				cmp("CumulativeDifficulty", "C22", x.cd)
			}
			x.cd = g
		}
		if g, ok := info["CumulativeDifficulty"]; ok && g <= c.m.m[x.idx-1].cd {
			r.fail("C22", "difficulty does not grow", "index %d: cumulative difficulty %d after %d", x.idx, g, c.m.m[x.idx-1].cd)
		}
	} else if cryptonote.ZZCanInfo {
		r.fail("C02", "no recorded data", "no data is recorded for the accepted block at %d", x.idx)
	}
	c.m.push(&x)
	c.accept = append(c.accept, f)
	c.checkTop("after accepting " + what)
	return true
}

func brief(m *meta) string {
	if m == nil {
		return "none"
	}
	return fmt.Sprintf("{idx %d ts %d cd %d coins %d txs %d size %d}", m.idx, m.ts, m.cd, m.coins, m.txs, m.size)
}

func (c *chainRun) keep(f *forged) {
	if len(c.refused) < 12 {
		c.refused = append(c.refused, f)
	} else {
		c.refused[c.r.rng.Intn(len(c.refused))] = f
	}
}

// checkTop compares what the node reports with the model.
func (c *chainRun) checkTop(what string) {
	r := c.r
	top := c.m.m[c.m.top]
	wrong := "C01 C02"
	if c.reopened {
		wrong += " C19"
	}
	c.inNode("queries", "", func() {
		bc := c.n.bc
		tb := bc.TopBlock()
		if tb == nil {
			r.fail(wrong, "no top", "%s: no top block", what)
			return
		}
		if hash32(*tb.Hash()) != top.hash {
			r.fail(wrong, "wrong top", "%s: top is %x at %d, must be %x at %d", what, tb.Hash()[:4], tb.Index(), top.hash[:4], top.idx)
		}
		if bc.Height() != top.idx+1 {
			r.fail(wrong, "wrong height", "%s: height %d with top at %d", what, bc.Height(), top.idx)
		}
		th := crypto.Hash(top.hash)
		if !bc.HaveBlock(&th) {
			r.fail("C02 C01", "top not found", "%s: the top block is not found by its hash", what)
		}
		if b := c.n.st.GetBlock(&th); b == nil || !bytes.Equal(b.Serialize(), top.raw) {
			r.fail("C02 C01", "top content", "%s: the stored top block differs from the accepted one", what)
		}
		if hh, err := c.n.st.HashAtIndex(top.idx); err != nil || hh == nil || hash32(*hh) != top.hash {
			r.fail("C02 C01", "top position", "%s: the top block is not found at its position", what)
		}
		if hh, _ := c.n.st.HashAtIndex(top.idx + 1); hh != nil {
			r.fail("C02 C01", "block above top", "%s: a block is stored above the top", what)
		}
		if tb, err := c.n.st.TopBlock(); err != nil || tb == nil || hash32(*tb.Hash()) != top.hash {
			r.fail("C01 C02 C19", "storage top", "%s: the storage's top is not the last accepted block", what)
		}
		if i, err := c.n.st.TopIndex(); err != nil || i != top.idx {
			r.fail("C01 C02 C19", "storage top", "%s: the storage's top index is %d, must be %d", what, i, top.idx)
		}
	})
}

// checkRefused verifies that a refusal left nothing behind.
func (c *chainRun) checkRefused(f *forged, h hash32, what string) {
	r := c.r
	c.checkTop("after refusing " + what)
	if _, known := c.m.byHash[h]; !known {
		c.inNode("queries", "", func() {
			hh := crypto.Hash(h)
			if c.n.bc.HaveBlock(&hh) {
				r.fail("C02", "refused block found", "%s: a refused block is reported as present", what)
			}
			if c.n.st.GetBlock(&hh) != nil {
				r.fail("C02", "refused block found", "%s: a refused block is found in the store", what)
			}
		})
	}
	// the position it claimed is unchanged
	i := c.m.top
	if len(f.b.base.ins) == 1 && f.b.base.ins[0].cb {
		i = uint32(f.b.base.ins[0].idx)
	}
	c.checkIndex(i, "after refusing "+what)
	c.checkIndex(c.m.top, "after refusing "+what)
}

func (c *chainRun) checkIndex(i uint32, what string) {
	r := c.r
	x := c.m.m[i]
	c.inNode("queries", "", func() {
		hh, _ := c.n.st.HashAtIndex(i)
		info, ih, ok := infoAt(c.n.st, i)
		if x == nil {
			if hh != nil || ok {
				r.fail("C02 C01", "extra block", "%s: something is stored at %d where no block was accepted", what, i)
			}
			return
		}
		if hh == nil || hash32(*hh) != x.hash {
			r.fail("C01 C02", "block moved", "%s: position %d does not hold the accepted block any more", what, i)
			return
		}
		if !ok {
			if cryptonote.ZZCanInfo && cryptonote.ZZInfoAt(c.n.st, i) == nil && i == c.m.top {
				r.fail("C02", "recorded data lost", "%s: the data recorded at %d is gone", what, i)
			}
			return
		}
		if ih != x.hash && ih != (hash32{}) {
			r.fail("C01 C02", "recorded data changed", "%s: the data at %d is of another block", what, i)
		}
		for k, want := range map[string]uint64{"CumulativeDifficulty": x.cd, "TotalGeneratedCoins": x.coins, "TotalGeneratedTransactions": x.txs, "Size": x.size} {
			if g, ok := info[k]; ok && g != want {
				r.fail("C02 C01", "recorded data changed", "%s: %s recorded at %d changed from %d to %d", what, k, i, want, g)
			}
		}
	})
}

// checkAll scans the whole stored chain.
func (c *chainRun) checkAll(what string) {
	r := c.r
	c.checkTop(what)
	c.inNode("scan", "", func() {
		var prev hash32
		for i := uint32(0); i <= c.m.top; i++ {
			if i == 1 && c.m.first > 1 {
				i = c.m.first
				prev = c.m.m[i].prev
			}
			x := c.m.m[i]
			hh, err := c.n.st.HashAtIndex(i)
			if err != nil || hh == nil || hash32(*hh) != x.hash {
				r.fail("C01 C02", "block moved", "%s: position %d does not hold the block accepted there", what, i)
				return
			}
			b := c.n.st.GetBlock(hh)
			if b == nil {
				r.fail("C01 C02", "block lost", "%s: the block at %d is not found by its hash", what, i)
				return
			}
			if !bytes.Equal(b.Serialize(), x.raw) {
				r.fail("C01", "block content", "%s: the content of block %d changed", what, i)
			}
			if hash32(b.PreviousBlockHash) != prev {
				r.fail("C01", "chain broken", "%s: block %d does not name its predecessor", what, i)
			}
			prev = x.hash
		}
		if hh, _ := c.n.st.HashAtIndex(0); hh == nil || hash32(*hh) != genesisMeta(c.h.test).hash {
			r.fail("C01 C19", "genesis", "%s: the chain does not start at the genesis block", what)
		}
	})
}

// twin builds a second node that has seen the accepted blocks only.
func (c *chainRun) twin() *node {
	st, err := c.h.build().fill(c.n.net)
	if err != nil {
		return nil
	}
	t := &node{net: c.n.net, test: c.h.test, cps: c.n.cps, st: &cryptonote.ZZStore{Storage: st}}
	t.proc = c.r.w.NewProc("twin")
	t.proc.Offset = 1 << 60
	ok := false
	c.r.call(t.proc, "twin", 600*sec, func() {
		// checkpoints are added once the history is replayed
		t.cps = nil
		if t.open() != nil {
			return
		}
		for _, i := range sortedU32(c.n.cps) {
			_ = t.bc.Checkpoints.AddCheckpoint(i, crypto.Hash(c.n.cps[i]))
		}
		for _, f := range c.accept {
			b, err := c.real(f)
			if err != nil {
				return
			}
			if t.bc.AddBlock(b, f.raws) != nil {
				return
			}
		}
		ok = true
	})
	if !ok {
		return nil
	}
	t.proc.Offset = c.n.proc.Offset
	return t
}

// twinCheck: a verdict that differs from the reference is also compared with
// the verdict of a node that never saw the refused submissions.
func (c *chainRun) twinCheck(f *forged, err error, v *verdict) {
	if c.r.prop != "C02" && c.r.prop != "C03" && c.r.prop != "C07" && c.r.prop != "C19" {
		return
	}
	t := c.twin()
	if t == nil {
		return
	}
	var terr error
	if !c.r.call(t.proc, "twin add", 600*sec, func() {
		b, _ := c.real(f)
		terr = t.bc.AddBlock(b, f.raws)
	}) {
		return
	}
	if (terr == nil) != (err == nil) {
		c.r.fail("C02 C03 C19", "verdict depends on history", "the node says %v, a node that saw only the accepted blocks says %v", err, terr)
	}
}

// restart opens the chain again over the same store.
func (c *chainRun) restart() {
	c.r.cover("op.restart")
	c.r.w.Fault("restart")
	c.restartOnly()
	c.checkTop("after a restart")
}

// foreign opens the store as another network.
func (c *chainRun) foreign() {
	c.r.cover("op.foreign")
	var err error
	if !c.inNode("foreign open", "", func() {
		o := cryptonote.NewBlockChain(netOf(!c.h.test), c.n.st, logger)
		err = o.Init()
	}) {
		return
	}
	if err == nil {
		c.r.fail("C19", "foreign store accepted", "a store of another network was opened")
	}
	c.checkTop("after a refused foreign open")
}

// sparse checks the list a chain request starts from.
func (c *chainRun) sparse() {
	deep := !c.m.contiguous()
	if deep {
		// the older part of the chain has hashes only
		c.n.st.Older = func(i uint32) *[32]byte {
			if i == 0 || i >= c.m.first {
				return nil
			}
			h := [32]byte(olderHash(i))
			return &h
		}
		defer func() { c.n.st.Older = nil }()
		c.r.cover("op.sparse.deep")
	}
	c.r.cover("op.sparse")
	var list []crypto.Hash
	var err error
	c.readHit = 0
	if w := c.r.w; w.Choose(4) == 3 {
		c.readFail = 1 + w.Choose(14)
	}
	ok := c.inNode("BuildSparseChain", "C20", func() { list, err = c.n.bc.BuildSparseChain() })
	c.readFail = 0
	if !ok {
		return
	}
	if err != nil && c.readHit > 0 {
		c.r.cover("op.sparse.failed")
		return
	}
	if err != nil && deep {
		// it reads the chain in another way than by these hashes
		c.r.cover("op.sparse.deep.failed")
		return
	}
	if err != nil {
		c.r.fail("C20", "no chain request", "BuildSparseChain fails at top %d: %v", c.m.top, err)
	}
	if e := checkSparse(list, c.m, c.m.top); e != "" {
		c.r.fail("C20", "chain request", "at top %d: %s", c.m.top, e)
	}
	c.r.state("sparse", c.m.top)
}

func olderHash(i uint32) hash32 { return keccak([]byte("older"), le32(nil, i)) }

// checkSparse verifies a chain request against the chain with the given top.
func checkSparse(list []crypto.Hash, m *model, top uint32) string {
	var want []hash32
	want = append(want, m.m[top].hash)
	for d := uint32(1); d < top; d *= 2 {
		if x := m.m[top-d]; x != nil {
			want = append(want, x.hash)
		} else {
			want = append(want, olderHash(top-d))
		}
	}
	if top > 0 {
		want = append(want, m.m[0].hash)
	}
	if len(list) != len(want) {
		return fmt.Sprintf("%d entries instead of %d", len(list), len(want))
	}
	for i := range want {
		if hash32(list[i]) != want[i] {
			return fmt.Sprintf("entry %d of %d is wrong", i, len(want))
		}
	}
	return ""
}

var _ = config.MainNet
var _ = zzsim.Y
