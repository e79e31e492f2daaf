//go:build go1.21

package main

import (
	"encoding/binary"
	"errors"
	"fmt"
)

// The wire format, written independently of the code under test: levin frames
// around key-value storages.

const (
	levinSig  = 0x0101010101012101
	levinHead = 33
	maxPacket = 100000000

	cmdHandshake = 1001
	cmdTimedSync = 1002
	cmdPing      = 1003
	ntNewBlock   = 2001
	ntNewTxs     = 2002
	ntReqObjects = 2003
	ntResObjects = 2004
	ntReqChain   = 2006
	ntResChain   = 2007
	ntTxPool     = 2008
	ntLite       = 2009
)

type frame struct {
	cmd   uint32
	have  bool
	rc    int32
	flags uint32
	ver   uint32
	body  []byte
	kv    *kv
	at    int64
}

func (f *frame) response() bool { return f.flags&2 != 0 }

func encFrame(cmd uint32, have bool, flags uint32, rc int32, body []byte) []byte {
	b := make([]byte, levinHead, levinHead+len(body))
	binary.LittleEndian.PutUint64(b[0:], levinSig)
	binary.LittleEndian.PutUint64(b[8:], uint64(len(body)))
	if have {
		b[16] = 1
	}
	binary.LittleEndian.PutUint32(b[17:], cmd)
	binary.LittleEndian.PutUint32(b[21:], uint32(rc))
	binary.LittleEndian.PutUint32(b[25:], flags)
	binary.LittleEndian.PutUint32(b[29:], 1)
	return append(b, body...)
}

func encReq(cmd uint32, body []byte) []byte    { return encFrame(cmd, true, 1, 0, body) }
func encNotify(cmd uint32, body []byte) []byte { return encFrame(cmd, false, 1, 0, body) }
func encReply(cmd uint32, body []byte) []byte  { return encFrame(cmd, false, 2, 1, body) }

// cutFrame takes one whole frame off the front of b; nil when b is incomplete.
func cutFrame(b []byte) (*frame, []byte, error) {
	if len(b) >= 8 && binary.LittleEndian.Uint64(b) != levinSig {
		return nil, b, fmt.Errorf("signature %x", b[:8])
	}
	if len(b) < levinHead {
		return nil, b, nil
	}
	n := binary.LittleEndian.Uint64(b[8:])
	f := &frame{cmd: binary.LittleEndian.Uint32(b[17:]), have: b[16] == 1, rc: int32(binary.LittleEndian.Uint32(b[21:])),
		flags: binary.LittleEndian.Uint32(b[25:]), ver: binary.LittleEndian.Uint32(b[29:])}
	if n > maxPacket {
		return nil, b, fmt.Errorf("body size %d", n)
	}
	if b[16] > 1 || f.ver != 1 || (f.flags != 1 && f.flags != 2) {
		return nil, b, fmt.Errorf("head: return %d, version %d, flags %d", b[16], f.ver, f.flags)
	}
	if uint64(len(b)-levinHead) < n {
		return nil, b, nil
	}
	f.body = append([]byte{}, b[levinHead:levinHead+int(n)]...)
	return f, b[levinHead+int(n):], nil
}

// ---------------------------------------------------------------- values

type kv struct {
	names []string
	vals  []val
}

type val struct {
	t   byte
	u   uint64
	b   []byte
	o   *kv
	arr []val
}

const (
	tI64 = 1 + iota
	tI32
	tI16
	tI8
	tU64
	tU32
	tU16
	tU8
	tF64
	tBin
	tBool
	tObj
)

var kvHead = []byte{0x01, 0x11, 0x01, 0x01, 0x01, 0x01, 0x02, 0x01, 1}

func (k *kv) get(name string) (val, bool) {
	if k == nil {
		return val{}, false
	}
	for i, n := range k.names {
		if n == name {
			return k.vals[i], true
		}
	}
	return val{}, false
}

func (k *kv) obj(name string) *kv {
	v, ok := k.get(name)
	if !ok || v.t != tObj {
		return nil
	}
	return v.o
}

func (k *kv) num(name string, t byte) (uint64, bool) {
	v, ok := k.get(name)
	return v.u, ok && v.t == t
}

func (k *kv) bin(name string) ([]byte, bool) {
	v, ok := k.get(name)
	return v.b, ok && v.t == tBin
}

func (k *kv) add(name string, v val) *kv {
	k.names = append(k.names, name)
	k.vals = append(k.vals, v)
	return k
}

func (k *kv) u8(n string, x byte) *kv    { return k.add(n, val{t: tU8, u: uint64(x)}) }
func (k *kv) u32(n string, x uint32) *kv { return k.add(n, val{t: tU32, u: uint64(x)}) }
func (k *kv) u64(n string, x uint64) *kv { return k.add(n, val{t: tU64, u: x}) }
func (k *kv) str(n string, x []byte) *kv { return k.add(n, val{t: tBin, b: x}) }
func (k *kv) sub(n string, x *kv) *kv    { return k.add(n, val{t: tObj, o: x}) }
func (k *kv) list(n string, t byte, x []val) *kv {
	return k.add(n, val{t: t | 0x80, arr: x})
}

func vint(b []byte, x uint64) []byte {
	switch {
	case x < 1<<6:
		return append(b, byte(x<<2))
	case x < 1<<14:
		return binary.LittleEndian.AppendUint16(b, uint16(x<<2|1))
	case x < 1<<30:
		return binary.LittleEndian.AppendUint32(b, uint32(x<<2|2))
	}
	return binary.LittleEndian.AppendUint64(b, x<<2|3)
}

var numSize = map[byte]int{tI64: 8, tI32: 4, tI16: 2, tI8: 1, tU64: 8, tU32: 4, tU16: 2, tU8: 1, tF64: 8, tBool: 1}

func (v val) enc(b []byte, t byte) []byte {
	if t&0x80 != 0 {
		b = vint(b, uint64(len(v.arr)))
		for _, x := range v.arr {
			b = x.enc(b, t&0x7f)
		}
		return b
	}
	switch t {
	case tBin:
		return append(vint(b, uint64(len(v.b))), v.b...)
	case tObj:
		return v.o.enc(b)
	}
	var x [8]byte
	binary.LittleEndian.PutUint64(x[:], v.u)
	return append(b, x[:numSize[t]]...)
}

func (k *kv) enc(b []byte) []byte {
	b = vint(b, uint64(len(k.names)))
	for i, n := range k.names {
		b = append(b, byte(len(n)))
		b = append(b, n...)
		b = append(b, k.vals[i].t)
		b = k.vals[i].enc(b, k.vals[i].t)
	}
	return b
}

func (k *kv) body() []byte { return k.enc(append([]byte{}, kvHead...)) }

var errKV = errors.New("malformed storage")

type kvr struct {
	b []byte
	p int
}

func (r *kvr) n(k uint64) []byte {
	if k > uint64(len(r.b)-r.p) {
		panic(errKV)
	}
	x := r.b[r.p : r.p+int(k)]
	r.p += int(k)
	return x
}

func (r *kvr) vint() uint64 {
	k := r.n(1)[0]
	size := []int{1, 2, 4, 8}[k&3]
	r.p--
	var x [8]byte
	copy(x[:], r.n(uint64(size)))
	return binary.LittleEndian.Uint64(x[:]) >> 2
}

func (r *kvr) val(t byte, depth int) (v val) {
	v.t = t
	if depth > 50 {
		panic(errKV)
	}
	if t&0x80 != 0 {
		n := r.vint()
		if n > uint64(len(r.b)) {
			panic(errKV)
		}
		for ; n > 0; n-- {
			v.arr = append(v.arr, r.val(t&0x7f, depth+1))
		}
		return
	}
	switch t {
	case tBin:
		v.b = append([]byte{}, r.n(r.vint())...)
	case tObj:
		v.o = r.obj(depth + 1)
	default:
		s := numSize[t]
		if s == 0 {
			panic(errKV)
		}
		var x [8]byte
		copy(x[:], r.n(uint64(s)))
		v.u = binary.LittleEndian.Uint64(x[:])
	}
	return
}

func (r *kvr) obj(depth int) *kv {
	k := &kv{}
	seen := map[string]bool{}
	for n := r.vint(); n > 0; n-- {
		name := string(r.n(uint64(r.n(1)[0])))
		if seen[name] {
			panic(errKV)
		}
		seen[name] = true
		k.add(name, r.val(r.n(1)[0], depth))
	}
	return k
}

// parseKV is strict: the whole body must be one storage.
func parseKV(b []byte) (k *kv, err error) {
	defer func() {
		if x := recover(); x != nil {
			if x != errKV {
				panic(x)
			}
			k, err = nil, errKV
		}
	}()
	if len(b) < len(kvHead) || string(b[:len(kvHead)]) != string(kvHead) {
		return nil, errors.New("storage head")
	}
	r := &kvr{b: b, p: len(kvHead)}
	k = r.obj(0)
	if r.p != len(b) {
		return nil, fmt.Errorf("%d bytes after the storage", len(b)-r.p)
	}
	return k, nil
}

// ---------------------------------------------------------------- messages

type nodeData struct {
	net     [16]byte
	version byte
	id      uint64
	time    uint64
	port    uint32
}

func (d nodeData) kv() *kv {
	return (&kv{}).str("network_id", d.net[:]).u8("version", d.version).u64("peer_id", d.id).u64("local_time", d.time).u32("my_port", d.port)
}

func syncKV(height uint32, top hash32) *kv {
	return (&kv{}).u32("current_height", height).str("top_id", top[:])
}

func handshakeBody(d nodeData, height uint32, top hash32) *kv {
	return (&kv{}).sub("node_data", d.kv()).sub("payload_data", syncKV(height, top))
}

type listed struct {
	ip   uint32
	port uint32
	id   uint64
	seen uint64
}

func parseList(b []byte) ([]listed, error) {
	if len(b)%24 != 0 {
		return nil, fmt.Errorf("peer list of %d bytes", len(b))
	}
	var r []listed
	for ; len(b) > 0; b = b[24:] {
		r = append(r, listed{binary.LittleEndian.Uint32(b), binary.LittleEndian.Uint32(b[4:]), binary.LittleEndian.Uint64(b[8:]), binary.LittleEndian.Uint64(b[16:])})
	}
	return r, nil
}

func (l listed) enc(b []byte) []byte {
	b = binary.LittleEndian.AppendUint32(b, l.ip)
	b = binary.LittleEndian.AppendUint32(b, l.port)
	b = binary.LittleEndian.AppendUint64(b, l.id)
	return binary.LittleEndian.AppendUint64(b, l.seen)
}

func hashesOf(b []byte) ([]hash32, error) {
	if len(b)%32 != 0 {
		return nil, fmt.Errorf("hash list of %d bytes", len(b))
	}
	var r []hash32
	for ; len(b) > 0; b = b[32:] {
		r = append(r, hash32(b[:32]))
	}
	return r, nil
}

func joinHashes(h []hash32) []byte {
	var b []byte
	for i := range h {
		b = append(b, h[i][:]...)
	}
	return b
}

func chainEntryBody(start, total uint32, ids []hash32) *kv {
	return (&kv{}).u32("start_height", start).u32("total_height", total).str("m_block_ids", joinHashes(ids))
}

type rawBlock struct {
	block []byte
	txs   [][]byte
	empty bool // announce an empty list instead of leaving it out
}

func (b rawBlock) kv() *kv {
	k := (&kv{}).str("block", b.block)
	if len(b.txs) > 0 || b.empty {
		var l []val
		for _, t := range b.txs {
			l = append(l, val{t: tBin, b: t})
		}
		k.list("txs", tBin, l)
	}
	return k
}

func objectsBody(blocks []rawBlock, height uint32, missed []hash32) *kv {
	var l []val
	for _, b := range blocks {
		l = append(l, val{t: tObj, o: b.kv()})
	}
	k := (&kv{}).list("blocks", tObj, l).u32("current_blockchain_height", height)
	if len(missed) > 0 {
		k.str("missed_ids", joinHashes(missed))
	}
	return k
}
