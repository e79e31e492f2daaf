//go:build go1.21

package zzsim

import (
	"bytes"
	"cmp"
	"fmt"
	"math"
	"reflect"
	"sort"
)

// window is a map access in progress: another goroutine that touches the same
// map meanwhile, with at least one of the two writing, is the race the Go
// runtime kills a process for.
type window struct {
	m     uintptr
	write bool
	t     *Task
}

func mapPtr(m interface{}) uintptr {
	v := reflect.ValueOf(m)
	if v.Kind() != reflect.Map {
		return 0
	}
	return v.Pointer()
}

func (w *World) checkWin(p uintptr, write bool) bool {
	for _, x := range w.wins {
		if x.m == p && x.t != w.cur && (x.write || write) && !x.t.proc.Dead {
			msg := "concurrent map read and map write"
			if x.write && write {
				msg = "concurrent map writes"
			}
			w.Fatal("fatal", msg)
			return false
		}
	}
	return true
}

// MapWin marks the access of one map by the statement that follows.
func MapWin(f func() interface{}, write bool) {
	w := W
	if w == nil || w.cur == nil || w.killing {
		return
	}
	if len(w.wins) == 0 {
		w.winLeft--
		if w.winLeft > 0 {
			return
		}
	}
	var m interface{}
	if !safeEval(f, &m) {
		return
	}
	p := mapPtr(m)
	if p == 0 {
		return
	}
	if !w.checkWin(p, write) {
		return
	}
	if w.winLeft > 0 {
		w.winLeft--
		return
	}
	w.winRefill()
	if w.P.WinGap <= 0 || w.cur.proc.Harness {
		return
	}
	x := &window{p, write, w.cur}
	w.wins = append(w.wins, x)
	w.switchFrom(w.cur)
	for i, y := range w.wins {
		if y == x {
			w.wins = append(w.wins[:i], w.wins[i+1:]...)
			break
		}
	}
}

func safeEval(f func() interface{}, out *interface{}) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false // the statement itself will panic the same way
		}
	}()
	*out = f()
	return true
}

// SetParams changes the scheduler's parameters in the middle of a run.
func (w *World) SetParams(p Params) {
	w.P = p
	w.winLeft = 0
}

func (w *World) winRefill() {
	if w.P.WinGap <= 0 {
		w.winLeft = 1 << 40
		return
	}
	u := w.Src.choose(1024)
	if u == 0 {
		w.winLeft = 1 << 30
		return
	}
	w.winLeft = 1 + int64(-math.Log(float64(u)/1024)*w.P.WinGap)
}

// MapRangeStart is a read access of m.
func MapRangeStart[M ~map[K]V, K comparable, V any](m M) {
	w := W
	if w == nil || w.cur == nil || w.killing {
		return
	}
	MapWin(func() interface{} { return m }, false)
}

// MapKeys returns the keys of m in an order chosen by the simulator.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	w := W
	if w == nil || w.killing || !w.P.MapPerm || len(keys) < 2 {
		return keys
	}
	s := uint64(w.Src.choose(1 << 16))
	if s == 0 {
		return keys
	}
	for i := len(keys) - 1; i > 0; i-- {
		s = s*6364136223846793005 + 1442695040888963407
		j := int((s >> 33) % uint64(i+1))
		keys[i], keys[j] = keys[j], keys[i]
	}
	return keys
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	case []uint32:
		sort.Slice(ks, func(i, j int) bool { return cmp.Less(ks[i], ks[j]) })
	case []uint64:
		sort.Slice(ks, func(i, j int) bool { return cmp.Less(ks[i], ks[j]) })
	default:
		switch reflect.TypeOf(keys[0]).Kind() {
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() })
			return
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() })
			return
		case reflect.String:
			sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String() })
			return
		case reflect.Array:
			if reflect.TypeOf(keys[0]).Elem().Kind() == reflect.Uint8 {
				raw := func(k K) []byte {
					v := reflect.New(reflect.TypeOf(k)).Elem()
					v.Set(reflect.ValueOf(k))
					return v.Bytes()
				}
				type kv struct {
					k K
					b []byte
				}
				kvs := make([]kv, len(keys))
				for i, k := range keys {
					kvs[i] = kv{k, raw(k)}
				}
				sort.Slice(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].b, kvs[j].b) < 0 })
				for i := range kvs {
					keys[i] = kvs[i].k
				}
				return
			}
		case reflect.Ptr, reflect.Interface, reflect.Chan:
			// addresses are not reproducible: order by insertion rank
			rankSort(keys)
			return
		}
		type kv struct {
			k K
			s string
		}
		kvs := make([]kv, len(keys))
		for i, k := range keys {
			kvs[i] = kv{k, fmt.Sprintf("%#v", k)}
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].s < kvs[j].s })
		for i := range kvs {
			keys[i] = kvs[i].k
		}
	}
}

// Ranked is implemented by simulator objects that have a reproducible identity.
type Ranked interface{ SimID() int }

// rankSort orders pointer-like keys by what they point at, since addresses are
// not reproducible.
func rankSort[K comparable](keys []K) {
	type kv struct {
		k K
		s string
	}
	kvs := make([]kv, len(keys))
	for i, k := range keys {
		kvs[i] = kv{k, structKey(reflect.ValueOf(k), 0)}
	}
	sort.SliceStable(kvs, func(i, j int) bool { return kvs[i].s < kvs[j].s })
	for i := range kvs {
		keys[i] = kvs[i].k
	}
}

func structKey(v reflect.Value, depth int) string {
	if !v.IsValid() || depth > 5 {
		return "?"
	}
	if v.CanInterface() {
		if r, ok := v.Interface().(Ranked); ok && !(v.Kind() == reflect.Ptr && v.IsNil()) {
			return fmt.Sprintf("#%08d", r.SimID())
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return structKey(v.Elem(), depth+1)
	case reflect.Struct:
		s := ""
		for i := 0; i < v.NumField(); i++ {
			s += structKey(v.Field(i), depth+1) + ","
		}
		return s
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%v", v)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.String:
		return v.String()
	}
	return ""
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// Alloc models the memory limit of the process.
func Alloc[I integer](n I, size int64) I {
	w := W
	if w == nil || w.cur == nil || w.killing || w.cur.proc.Harness {
		return n
	}
	if n <= 0 {
		return n
	}
	u := uint64(n)
	if u > uint64(math.MaxInt64) {
		return n
	}
	if size < 1 {
		size = 1
	}
	if u > (1<<47)/uint64(size) {
		return n // makeslice panics by itself
	}
	if w.AllocSeen != nil {
		w.AllocSeen(int64(u) * size)
	}
	if int64(u)*size > w.AllocLimit {
		w.Fatal("oom", "out of memory")
	}
	return n
}

// AllocOf is Alloc for a slice type given at run time; it allocates twice when
// length and capacity are the same, which does no harm.
func AllocOf(t reflect.Type, n int) int {
	return Alloc(n, int64(t.Elem().Size()))
}
