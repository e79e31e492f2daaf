//go:build go1.21

package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/r3volut1oner/go-karbo/zzsim"
)

// run is one simulated execution of one scenario.
type run struct {
	w     *zzsim.World
	prop  string
	rng   *rand.Rand // workload details derived from one choice; not for decisions that should shrink
	scen  string
	other string // a failed expectation of another property ended the run
}

type scenario struct {
	name   string
	weight int
	fn     func(r *run)
}

var checks = map[string][]scenario{}

func register(prop string, s ...scenario) { checks[prop] = append(checks[prop], s...) }

// fail reports a broken expectation.  props lists the properties whose
// statement it contradicts; for any other check the run ends undecided.
func (r *run) fail(props, class, f string, a ...interface{}) {
	for _, p := range strings.Fields(props) {
		if p == r.prop {
			r.w.Violate(class, f, a...)
			return
		}
	}
	r.stop(strings.Fields(props)[0] + ":" + class)
}

// stop ends the run without a verdict.
func (r *run) stop(why string) {
	r.other = why
	r.w.Cover["undecided:"+why]++
	r.w.Violate("~"+why, "run ended undecided")
}

func (r *run) cover(f string, a ...interface{}) {
	if len(a) > 0 {
		f = fmt.Sprintf(f, a...)
	}
	r.w.Cover[f]++
}

// state marks a distinct state for the coverage measure.
func (r *run) state(parts ...interface{}) {
	h := uint64(14695981039346656037)
	for _, c := range []byte(fmt.Sprint(parts...)) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	r.w.States[h] = true
}

// call runs fn as a task of p and waits for it; false when the process died or
// the call did not return within limit.
func (r *run) call(p *zzsim.Proc, name string, limit int64, fn func()) (returned bool) {
	done := false
	r.w.GoIn(p, name, func() {
		fn()
		done = true
	})
	r.w.Block("call "+name, func() bool { return done || p.Dead }, r.w.Now()+limit)
	return done
}

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

// result is what a worker reports about one run.
type result struct {
	Scen    string
	Class   string
	Msg     string
	Hash    uint64
	Sched   uint64
	SimNs   int64
	Steps   int64
	Switch  int64
	Undec   string
	Err     string
	Choices []uint32
	Trace   []string
	w       *zzsim.World
}

// execute performs one run from a choice source.
func execute(prop, scen string, src *zzsim.Source, trace bool) (res result) {
	w := zzsim.NewWorld(src)
	w.TraceOn = trace
	r := &run{w: w, prop: prop}
	list := checks[prop]
	total := 0
	for _, s := range list {
		total += s.weight
	}
	s := list[0]
	k := w.Choose(total)
	for _, x := range list {
		if k < x.weight {
			s = x
			break
		}
		k -= x.weight
	}
	if scen != "" {
		for _, x := range list {
			if x.name == scen {
				s = x
			}
		}
	}
	r.scen = s.name
	seed := int64(w.Choose(1<<30)) + 1
	w.SeedRand(uint64(seed))
	r.rng = rand.New(rand.NewSource(seed))
	s.fn(r)
	res = result{Scen: s.name, Hash: w.Hash(), Sched: w.SchedHash, SimNs: w.Now(), Steps: w.Steps, Switch: w.Switches, Err: w.HarnessErr, w: w}
	if w.Viol != nil {
		res.Class, res.Msg = w.Viol.Class, w.Viol.Msg
		if strings.HasPrefix(res.Class, "~") {
			res.Undec = res.Class[1:]
			res.Class, res.Msg = "", ""
		}
	}
	if src.Overrun {
		res.Err = "choice sequence too long"
	}
	res.Choices = src.Out()
	res.Trace = w.Trace
	return
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
