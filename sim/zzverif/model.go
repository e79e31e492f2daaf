//go:build go1.21

package main

import (
	"math"
	"math/big"
	"sort"
	"strings"
)

// The reference model: the consensus rules as a function of the accepted
// blocks only.

const (
	upV2, upV3, upV3s1, upV4 = 60000, 216000, 216394, 266000
	upV4s1, upV4s2, upV4s3   = 300000, 500000, 667000
	upV5                     = 700000
	targetT                  = 240
	minDiff                  = 100000
	moneySupply              = uint64(10000000000000000000)
	tailReward               = uint64(1000000000000)
)

type meta struct {
	idx                  uint32
	hash                 hash32
	ts                   uint64
	cd, coins, txs, size uint64
	raw                  []byte
	prev                 hash32
}

type model struct {
	test   bool
	m      map[uint32]*meta
	byHash map[hash32]uint32
	top    uint32
	first  uint32 // first index after genesis that is present
	cps    map[uint32]hash32
}

func newModel(test bool, genesis *meta) *model {
	m := &model{test: test, m: map[uint32]*meta{}, byHash: map[hash32]uint32{}, cps: map[uint32]hash32{}, first: 1}
	m.m[0] = genesis
	m.byHash[genesis.hash] = 0
	return m
}

func (m *model) clone() *model {
	c := &model{test: m.test, m: map[uint32]*meta{}, byHash: map[hash32]uint32{}, top: m.top, first: m.first, cps: map[uint32]hash32{}}
	for k, v := range m.m {
		c.m[k] = v
	}
	for k, v := range m.byHash {
		c.byHash[k] = v
	}
	for k, v := range m.cps {
		c.cps[k] = v
	}
	return c
}

func (m *model) push(x *meta) {
	m.m[x.idx] = x
	m.byHash[x.hash] = x.idx
	m.top = x.idx
}

func (m *model) contiguous() bool { return m.first == 1 }

// last returns up to n blocks that end at index from, oldest first.
func (m *model) last(n int, from uint32, genesis bool) []*meta {
	var r []*meta
	for i := int64(from); i >= 0 && len(r) < n; i-- {
		if i == 0 && !genesis {
			break
		}
		x := m.m[uint32(i)]
		if x == nil {
			break
		}
		r = append(r, x)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func versionAt(i uint32) byte {
	switch {
	case i > upV5:
		return 5
	case i > upV4:
		return 4
	case i > upV3:
		return 3
	case i > upV2:
		return 2
	}
	return 1
}

func futureLimit(v byte) uint64 {
	if v >= 4 {
		return 720
	}
	return 1680
}

func tsWindow(v byte) int {
	if v >= 4 {
		return 11
	}
	return 60
}

func median(v []uint64) uint64 {
	if len(v) == 0 {
		return 0
	}
	s := append([]uint64{}, v...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	k := len(s) / 2
	if len(s)%2 == 1 {
		return s[k]
	}
	return (s[k-1] + s[k]) / 2
}

// medianTS is the lower limit of the next timestamp; ok is false while the
// window is not full.
func (m *model) medianTS(prev uint32, v byte) (uint64, bool) {
	w := m.last(tsWindow(v), prev, true)
	if len(w) < tsWindow(v) {
		return 0, false
	}
	var t []uint64
	for _, x := range w {
		t = append(t, x.ts)
	}
	return median(t), true
}

func maxBlockSize(i uint32) uint64 { return 1000000 + uint64(i)*102400/131400 }

func (m *model) sizeMedian(prev uint32, v byte) uint64 {
	var s []uint64
	for _, x := range m.last(100, prev, true) {
		s = append(s, x.size)
	}
	med := median(s)
	zone := uint64(1000000)
	if v == 1 {
		zone = 100000
	}
	if med < zone {
		med = zone
	}
	return med
}

func penalized(amount, med, size uint64) uint64 {
	if size <= med || amount == 0 {
		return amount
	}
	x := new(big.Int).SetUint64(amount)
	x.Mul(x, new(big.Int).SetUint64(2*med-size))
	x.Mul(x, new(big.Int).SetUint64(size))
	d := new(big.Int).SetUint64(med)
	x.Div(x, d)
	x.Div(x, d)
	return x.Uint64()
}

func baseReward(coins uint64) uint64 {
	if coins+tailReward >= moneySupply || (moneySupply-coins)>>18 < tailReward {
		return coins / 100 * 2 / 131400
	}
	return (moneySupply - coins) >> 18
}

// reward gives the miner reward and the emission of a block on prev.
func (m *model) reward(prev uint32, v byte, size, fee uint64) (reward, emission uint64, ok bool) {
	med := m.sizeMedian(prev, v)
	if size > 2*med {
		return 0, 0, false
	}
	pb := penalized(baseReward(m.m[prev].coins), med, size)
	pf := penalized(fee, med, size)
	return pb + pf, pb - (fee - pf), true
}

func clamp(lo, x, hi int64) int64 {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

// beyondRule stands for a difficulty that the rule does not define.
const beyondRule = 1<<63 - 1

// difficulty of the block after prev.  exact is false when the rule is in
// floating point, whose last digits may depend on the order of operations.
func (m *model) difficulty(prev uint32) (d uint64, exact bool) {
	v := versionAt(prev)
	n := 375
	switch v {
	case 2:
		n = 17
	case 3, 4:
		n = 61
	case 5:
		n = 121
	}
	w := m.last(n, prev, false)
	ts := make([]int64, len(w))
	cd := make([]uint64, len(w))
	for i, x := range w {
		ts[i], cd[i] = int64(x.ts), x.cd
	}
	least := func(d uint64) uint64 {
		if !m.test && d < minDiff {
			return minDiff
		}
		return d
	}
	switch v {
	case 1:
		if len(ts) > 360 {
			ts, cd = ts[:360], cd[:360]
		}
		if len(ts) <= 1 {
			return 1, true
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		a, b := 0, len(ts)
		if b > 240 {
			a = (b - 240 + 1) / 2
			b = a + 240
		}
		span := uint64(ts[b-1] - ts[a])
		if span == 0 {
			span = 1
		}
		x := new(big.Int).SetUint64(cd[b-1] - cd[a])
		x.Mul(x, big.NewInt(targetT))
		x.Add(x, new(big.Int).SetUint64(span-1))
		if x.BitLen() > 64 {
			return beyondRule, false
		}
		x.Div(x, new(big.Int).SetUint64(span))
		return x.Uint64(), true
	case 2:
		if len(ts) <= 1 {
			return 1, true
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		span := uint64(ts[len(ts)-1] - ts[0])
		if span == 0 {
			span = 1
		}
		x := new(big.Int).SetUint64(cd[len(cd)-1] - cd[0])
		x.Mul(x, big.NewInt(targetT))
		if x.BitLen() > 64 {
			return beyondRule, false
		}
		x.Div(x, new(big.Int).SetUint64(span))
		return least(x.Uint64()), true
	case 3:
		if len(ts) < 4 {
			return 1, true
		}
		N := len(ts) - 1
		k := float64(N * (N + 1) / 2)
		var lwma, inv float64
		for i := 1; i <= N; i++ {
			st := clamp(-6*targetT, ts[i]-ts[i-1], 7*targetT)
			lwma += float64(st*int64(i)) / k
			if cd[i]-cd[i-1] > 1<<62 {
				return beyondRule, false
			}
			inv += 1 / float64(cd[i]-cd[i-1])
		}
		if int64(math.Round(lwma)) < targetT/20 {
			lwma = float64(targetT) / 20
		}
		return least(uint64(float64(N) / inv * 0.998 * targetT / lwma)), false
	case 5:
		x, beyond := difficulty5(prev, ts, cd)
		if beyond {
			return beyondRule, false
		}
		return least(x), true
	default:
		const N = 60
		var L, sum3 int64
		pm := ts[0]
		for i := int64(1); i <= N; i++ {
			var st int64
			if prev < upV4s1 {
				st = clamp(-6*targetT, ts[i]-ts[i-1], 6*targetT)
			} else {
				mx := ts[i]
				if mx <= pm {
					mx = pm + 1
				}
				st = mx - pm
				if st > 6*targetT {
					st = 6 * targetT
				}
				pm = mx
			}
			L += st * i
			if i > N-3 {
				sum3 += st
			}
		}
		if L < 1 {
			L = 1
		}
		if cd[N]-cd[0] > (1<<63-1)/(targetT*(N+1)) {
			return beyondRule, false
		}
		next := int64(cd[N]-cd[0]) * targetT * (N + 1) / (2 * L)
		next = next * 99 / 100
		pd := int64(cd[N] - cd[N-1])
		next = clamp(pd*67/100, next, pd*150/100)
		if sum3 < 8*targetT/10 {
			next = pd * 110 / 100
		}
		return least(uint64(next)), true
	}
}

// ---------------------------------------------------------------- checkpoints

func (m *model) maxCp() uint32 {
	x := uint32(0)
	for i := range m.cps {
		if i > x {
			x = i
		}
	}
	return x
}

func (m *model) zone(i uint32) bool {
	x := m.maxCp()
	return x != 0 && i <= x
}

// ---------------------------------------------------------------- transactions

func minFeeAt(i uint32) uint64 {
	switch {
	case i <= upV3s1:
		return 100000000
	case i <= upV4:
		return 100000000000
	case i < upV4s3:
		return 8000000000
	}
	return 10000000000
}

func extraFeeAt(i uint32, extra int) uint64 {
	if i <= upV4s2 {
		return 0
	}
	min := uint64(10000000000)
	if extra > 100 {
		min += min / (100 * uint64(extra-100))
	}
	if i < upV4s3 {
		return min - min*20/100
	}
	return min
}

func decomposeCount(a, dust uint64) int {
	n, d, order, handled := 0, uint64(0), uint64(1), false
	for a != 0 {
		c := a % 10 * order
		a /= 10
		order *= 10
		if d+c <= dust {
			d += c
			continue
		}
		if !handled && d != 0 {
			n++
			handled = true
		}
		if c != 0 {
			n++
		}
	}
	if !handled && d != 0 {
		n++
	}
	return n
}

func isFusion(t *rTx, size uint64, i uint32) bool {
	if i <= upV3 && size > 300000 {
		return false
	}
	if len(t.ins) < 12 || len(t.ins) < 4*len(t.outs) {
		return false
	}
	dust := uint64(0)
	if i < upV4 {
		dust = 100000000
	}
	sum := uint64(0)
	for _, in := range t.ins {
		if in.amt < dust {
			return false
		}
		sum += in.amt
	}
	return decomposeCount(sum, dust) == len(t.outs)
}

// badPoint is a point of order 8: a curve point outside the prime-order group.
var badPoint = hexHash("c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a")

// verdict collects every reason to refuse a block, as PROPERTY:rule.
type verdict struct {
	why map[string]bool
	inf meta
	fee uint64
	// exactDiff is false when the difficulty may differ in the last digits
	exactDiff bool
}

func (v *verdict) add(s string) { v.why[s] = true }
func (v *verdict) ok() bool     { return len(v.why) == 0 }
func (v *verdict) has(p string) bool {
	for s := range v.why {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func (v *verdict) list() []string {
	var r []string
	for s := range v.why {
		r = append(r, s)
	}
	sort.Strings(r)
	return r
}

// props are the properties an acceptance would contradict.
func (v *verdict) props() string {
	m := map[string]int{}
	for s := range v.why {
		m[s[:3]] = 1
	}
	return strings.Join(sortedKeys(m), " ")
}

func (m *model) judgeTx(v *verdict, t *rTx, size uint64, i uint32, spent map[hash32]bool) {
	if i > upV4 && size > 249400 {
		v.add("C05:transaction size")
	}
	if len(t.ins) == 0 {
		v.add("C05:no inputs")
	}
	sumIn, sumOut := uint64(0), uint64(0)
	mine := map[hash32]bool{}
	mixin := 0
	for _, in := range t.ins {
		if in.cb {
			v.add("C05:generation input in a transaction")
			continue
		}
		if mine[in.ki] || spent[in.ki] {
			v.add("C05:key image used twice")
		}
		mine[in.ki] = true
		if len(in.offs) == 0 {
			v.add("C05:empty ring")
		}
		if len(in.offs) > mixin {
			mixin = len(in.offs)
		}
		for k, o := range in.offs {
			if k > 0 && o == 0 {
				v.add("C05:repeated output")
			}
		}
		if !m.zone(i+1) && (in.ki == badPoint || !onCurve(in.ki)) {
			v.add("C05:key image domain")
		}
		if sumIn+in.amt < sumIn {
			v.add("C04:inputs overflow")
			v.add("C05:inputs overflow")
		}
		sumIn += in.amt
	}
	for k := range mine {
		spent[k] = true
	}
	for _, o := range t.outs {
		if o.amt == 0 {
			v.add("C05:zero output")
		}
		if !onCurve(o.key) {
			v.add("C05:output key")
		}
		if i >= upV5 && !prettyAmounts[o.amt] {
			v.add("C05:output amount")
		}
		if sumOut+o.amt < sumOut {
			v.add("C04:outputs overflow")
			v.add("C05:outputs overflow")
		}
		sumOut += o.amt
	}
	if sumIn == 0 || sumOut == 0 {
		v.add("C05:zero sum")
	}
	if sumOut > sumIn {
		v.add("C04:spends more than it has")
		return
	}
	fee := sumIn - sumOut
	fusion := fee == 0 && isFusion(t, size, i)
	if !fusion && fee < minFeeAt(i) {
		v.add("C04:fee")
	}
	if !fusion && fee < extraFeeAt(i, len(t.extra)) {
		v.add("C04:fee for extra")
	}
	if i > upV3s1 && mixin > 20 {
		v.add("C05:mixin too large")
	}
	if i > upV4 && mixin < 2 && mixin != 1 {
		v.add("C05:mixin too small")
	}
	v.fee += fee
	if !m.zone(i) && len(t.ins) > 0 {
		// ring members cannot be resolved: no signature can be verified
		v.add("C05:signature")
	}
}

func (m *model) judge(b *rBlock, raws [][]byte, now uint64) *verdict {
	v := &verdict{why: map[string]bool{}}
	h := b.hash()
	if _, ok := m.byHash[h]; ok {
		v.add("C01:exists")
	}
	pi, ok := m.byHash[b.prev]
	if !ok {
		v.add("C01:orphan")
		return v
	}
	if pi != m.top {
		v.add("C01:not on the top")
	}
	prev := m.m[pi]
	i := pi + 1

	// coinbase
	cb := b.base
	if len(cb.ins) != 1 {
		v.add("C05:coinbase inputs")
	} else if !cb.ins[0].cb {
		v.add("C05:coinbase input type")
	} else if uint32(cb.ins[0].idx) != i {
		v.add("C01:coinbase index")
		v.add("C05:coinbase index")
	}
	if len(cb.ins) != 1 || !cb.ins[0].cb {
		v.add("C01:coinbase index")
	}
	if cb.unlock != uint64(i)+10 {
		v.add("C05:coinbase unlock height")
	}
	paid, over := uint64(0), false
	for _, o := range cb.outs {
		if o.amt == 0 {
			v.add("C05:coinbase zero output")
		}
		if !onCurve(o.key) {
			v.add("C05:coinbase output key")
		}
		if paid+o.amt < paid {
			over = true
			v.add("C05:coinbase outputs overflow")
			v.add("C04:coinbase outputs overflow")
		}
		paid += o.amt
	}
	if i >= upV4s2 && len(cb.extra) > 1024 {
		v.add("C05:coinbase extra")
	}
	cbSize := uint64(len(cb.encode()))
	if cbSize > 1000000000 {
		v.add("C05:coinbase size")
	}

	if b.major == 5 {
		mm, ok := extraForm(cb.extra)
		if mm || !ok {
			v.add("C05:coinbase extra form")
		}
		if len(cb.outs) != 1 {
			v.add("C05:coinbase outputs")
		}
		if !b.signed() {
			v.add("C05:block signature")
		}
	}

	// header
	ver := versionAt(i)
	if b.major != ver {
		v.add("C05:version")
	}
	if b.major == 2 && b.parent.major > 1 {
		v.add("C05:parent version")
	}
	if b.merged() && len(b.parent.encode(false)) > 2048 {
		v.add("C05:parent size")
	}
	if b.time() > now+futureLimit(ver) {
		v.add("C06:future")
	}
	if med, full := m.medianTS(pi, ver); full && b.time() < med {
		v.add("C06:past")
	}

	// transactions
	size := cbSize
	var txs []*rTx
	for _, raw := range raws {
		size += uint64(len(raw))
		t, err := decodeTx(raw)
		if err != nil {
			v.add("C05:undecodable transaction")
			continue
		}
		txs = append(txs, t)
	}
	if len(b.txh) != len(raws) {
		v.add("C05:transaction count")
	}
	if size > maxBlockSize(i) {
		v.add("C05:block size")
	}
	seen := map[hash32]bool{}
	spent := map[hash32]bool{}
	if len(txs) == len(raws) {
		for k, t := range txs {
			th := t.hash()
			if k < len(b.txh) && b.txh[k] != th {
				v.add("C05:transaction hash")
			}
			if seen[th] {
				v.add("C05:transaction twice")
			}
			seen[th] = true
			m.judgeTx(v, t, uint64(len(raws[k])), i, spent)
		}
	}

	// reward
	if len(txs) == len(raws) && !v.has("C04:") && !over {
		want, em, ok := m.reward(pi, ver, size, v.fee)
		if !ok {
			v.add("C04:size over twice the median")
			v.add("C05:size over twice the median")
		} else if want != paid {
			v.add("C04:reward")
		}
		v.inf.coins = prev.coins + em
	}

	// checkpoints
	if c, ok := m.cps[i]; ok && c != h {
		v.add("C08:checkpoint hash")
	}

	d, exact := m.difficulty(pi)
	v.exactDiff = exact
	if d == 0 {
		// the test network has no minimum: after very slow blocks the rule gives nothing
		v.add("C22:no difficulty")
	}
	v.inf.idx, v.inf.hash, v.inf.ts, v.inf.prev = i, h, b.time(), b.prev
	v.inf.cd = prev.cd + d
	v.inf.txs = prev.txs + uint64(len(b.txh))
	v.inf.size = size
	return v
}
