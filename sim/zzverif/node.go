//go:build go1.21

package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"

	log "github.com/sirupsen/logrus"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zzsim"
)

func quietLog() *log.Logger {
	l := log.New()
	l.SetOutput(io.Discard)
	l.SetLevel(log.PanicLevel)
	l.ExitFunc = func(c int) { zzsim.ExitProc(c) }
	return l
}

var logger = quietLog()

func netOf(test bool) *config.Network {
	if test {
		return config.TestNet()
	}
	return config.MainNet()
}

const genesisTxHex = "010a01ff0001fac484c69cd608029b2e4c0281c0b02e7c53291a94d1d0cbff8883f8024f5142ee494ffbbd0880712101f904925cc23f86f9f3565188862275dc556a9bdfb6aec22c5aca7f0177c45ba8"

func genesisBlock(test bool) *rBlock {
	raw, _ := hex.DecodeString(genesisTxHex)
	t, err := decodeTx(raw)
	if err != nil {
		panic("genesis")
	}
	b := &rBlock{major: 1, nonce: 70, base: t}
	if test {
		b.nonce = 71
	}
	return b
}

func genesisMeta(test bool) *meta {
	b := genesisBlock(test)
	return &meta{hash: b.hash(), cd: 1, coins: b.base.outs[0].amt, size: uint64(len(b.base.encode())), raw: b.encode()}
}

// ---------------------------------------------------------------- histories

// history is a recipe for a stored chain.
type history struct {
	test    bool
	top     uint32 // index of the last block
	variant int
	whole   bool // every block is there however many there are
}

type histBuilt struct {
	m    *model
	list []*meta // after genesis
}

var histCache = map[history]*histBuilt{}

// build makes the history; the same recipe always gives the same blocks.
func (h history) build() *histBuilt {
	if b := histCache[h]; b != nil {
		return b
	}
	if len(histCache) > 24 {
		histCache = map[history]*histBuilt{}
	}
	r := rand.New(rand.NewSource(int64(h.top)*1000 + int64(h.variant)*2 + int64(btoi(h.test)) + 5))
	m := newModel(h.test, genesisMeta(h.test))
	out := &histBuilt{m: m}
	first := uint32(1)
	start := h.top
	if h.top > 1000 && !h.whole {
		first = h.top - 449
		m.first = first
		start = 450
	}
	n := int(start)
	// times end a little before the epoch
	style := h.variant % 6
	ts := make([]int64, n)
	t := int64(0)
	for i := range ts {
		switch style {
		case 0:
			t += 180 + r.Int63n(120)
		case 1:
			t += 20 + r.Int63n(80)
		case 2:
			t += 600 + r.Int63n(1800)
		case 3:
			t += r.Int63n(2000) - 600
		case 4:
			t += int64(r.ExpFloat64() * 240)
		default:
			// a change of pace
			if i < n-30 {
				t += 240 + r.Int63n(60)
			} else {
				t += 30 + r.Int63n(60)
			}
		}
		ts[i] = t
	}
	if burst := h.variant / 24; burst > 0 {
		// many blocks at once at the end
		k := n - 12 - r.Intn(90)
		if first == 1 && k < n-n/3 {
			// too many of them leave a short chain without a difficulty
			k = n - n/3
		}
		if k < 1 {
			k = 1
		}
		for ; k < n; k++ {
			ts[k] = ts[k-1] + r.Int63n([]int64{1, 1, 3, 40}[burst])
		}
	}
	if n > 0 {
		hi := ts[0]
		for _, x := range ts {
			if x > hi {
				hi = x
			}
		}
		for i := range ts {
			ts[i] += epoch - 120 - hi
		}
	}
	prevHash := m.m[0].hash
	cd, coins, txs := uint64(1), m.m[0].coins, uint64(0)
	if first > 1 {
		prevHash = randHash(r)
		cd = uint64(first) * (200000 + uint64(r.Intn(1e9)))
		txs = uint64(first) * 2
		switch (h.variant / 6) % 4 {
		case 0:
			coins = 38146972656250 + uint64(first)*20000000000000/2
		case 1: // just around the tail emission
			coins = moneySupply - 262144*tailReward - uint64(r.Intn(20))*2000000000000
			if r.Intn(2) == 0 {
				// the reward of the next block is the tail reward, or one off
				coins = moneySupply - 262144*tailReward - 5500*uint64(n) - uint64(r.Intn(4))*262144 + 262144
			}
		case 2:
			coins = 9900000000000000000
		default:
			coins = 9999999000000000000 + uint64(r.Intn(1000))*1000000000
		}
	}
	big := (h.variant / 3) % 3 // how the recorded sizes look
	pd := uint64(200000 + r.Intn(1e8))
	for k := 0; k < n; k++ {
		i := first + uint32(k)
		b := &rBlock{major: versionAt(i), ts: uint64(ts[k]), prev: prevHash, nonce: r.Uint32()}
		b.base = &rTx{ver: 1, unlock: uint64(i) + 10, ins: []rIn{{cb: true, idx: uint64(i)}}, extra: mkExtra(r, 33)}
		b.base.outs = []rOut{{uint64(1 + r.Int63n(1e13)), poolKey(r.Intn(64))}}
		if b.merged() {
			b.parent = mkParent(r, b.ts, r.Intn(3), r.Intn(3))
		}
		if first > 1 && (k < 400 || h.variant >= 24) {
			x := int64(pd) + r.Int63n(int64(pd/10)+1) - int64(pd/20)
			if x < minDiff {
				x = minDiff
			}
			cd += uint64(x)
		} else {
			d, _ := m.difficulty(i - 1)
			if m.top != i-1 || d == beyondRule {
				d = pd
			}
			cd += d
		}
		size := uint64(200 + r.Intn(300))
		switch big {
		case 1:
			if r.Intn(100) < 55 {
				size = 90000 + uint64(r.Intn(60000))
				if b.major > 1 {
					size *= 9
				}
			}
		case 2:
			if r.Intn(3) == 0 {
				size = uint64(r.Intn(2000000))
			}
		}
		if h.top <= 1000 && big != 0 && k < n-100 {
			size = uint64(len(b.base.encode()))
		}
		coins += 5000 + uint64(r.Intn(1000))
		tx := uint64(r.Intn(4))
		txs += tx
		x := &meta{idx: i, hash: b.hash(), ts: b.time(), cd: cd, coins: coins, txs: txs, size: size, raw: b.encode(), prev: prevHash}
		m.push(x)
		out.list = append(out.list, x)
		prevHash = x.hash
	}
	histCache[h] = out
	return out
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

const epoch = 1650000000

// ---------------------------------------------------------------- stores

func toReal(raw []byte) (*cryptonote.Block, error) {
	b := &cryptonote.Block{}
	if err := b.Deserialize(bytes.NewReader(raw)); err != nil {
		return nil, err
	}
	return b, nil
}

// fill makes a store holding the history.
func (b *histBuilt) fill(net *config.Network) (cryptonote.Storage, error) {
	st := cryptonote.NewMemoryStorage()
	bc := cryptonote.NewBlockChain(net, st, logger)
	if err := bc.Init(); err != nil {
		return nil, fmt.Errorf("init: %w", err)
	}
	for _, x := range b.list {
		if err := pushMeta(st, x); err != nil {
			return nil, err
		}
	}
	return st, nil
}

func pushMeta(st cryptonote.Storage, x *meta) error {
	blk, err := toReal(x.raw)
	if err != nil {
		return fmt.Errorf("history block %d: %w", x.idx, err)
	}
	bi := cryptonote.NewBlockInfo(x.idx, x.coins)
	v := reflect.ValueOf(bi).Elem()
	set := func(name string, val interface{}) error {
		f := v.FieldByName(name)
		if !f.IsValid() || !f.CanSet() {
			return errors.New("recorded data has no field " + name)
		}
		f.Set(reflect.ValueOf(val).Convert(f.Type()))
		return nil
	}
	for _, e := range []error{set("Index", x.idx), set("Hash", crypto.Hash(x.hash)), set("CumulativeDifficulty", x.cd),
		set("TotalGeneratedCoins", x.coins), set("TotalGeneratedTransactions", x.txs), set("Timestamp", x.ts), set("Size", x.size)} {
		if e != nil {
			return e
		}
	}
	return st.PushBlock(blk, bi, cryptonote.TransactionsDetails{})
}

// infoAt reads recorded data; fields that do not exist are absent.
func infoAt(st cryptonote.Storage, i uint32) (map[string]uint64, hash32, bool) {
	x := cryptonote.ZZInfoAt(st, i)
	if x == nil {
		return nil, hash32{}, false
	}
	v := reflect.ValueOf(x)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	m := map[string]uint64{}
	var h hash32
	for _, n := range []string{"Index", "CumulativeDifficulty", "TotalGeneratedCoins", "TotalGeneratedTransactions", "Timestamp", "Size"} {
		f := v.FieldByName(n)
		if f.IsValid() && f.CanUint() {
			m[n] = f.Uint()
		}
	}
	f := v.FieldByName("Hash")
	if f.IsValid() && f.Kind() == reflect.Array && f.Len() == 32 {
		for k := 0; k < 32; k++ {
			h[k] = byte(f.Index(k).Uint())
		}
		return m, h, true
	}
	return m, h, len(m) > 0
}

// node is one blockchain process.
type node struct {
	proc *zzsim.Proc
	net  *config.Network
	test bool
	st   *cryptonote.ZZStore
	bc   *cryptonote.BlockChain
	cps  map[uint32]hash32
}

// open starts a blockchain over the node's store.
func (n *node) open() error {
	bc := cryptonote.NewBlockChain(n.net, n.st, logger)
	for _, i := range sortedU32(n.cps) {
		if err := bc.Checkpoints.AddCheckpoint(i, crypto.Hash(n.cps[i])); err != nil {
			return fmt.Errorf("checkpoint: %w", err)
		}
	}
	if err := bc.Init(); err != nil {
		return err
	}
	n.bc = bc
	return nil
}

func sortedU32(m map[uint32]hash32) []uint32 {
	var r []uint32
	for k := range m {
		r = append(r, k)
	}
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}
