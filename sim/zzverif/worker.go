//go:build go1.21

package main

import (
	"bufio"
	"encoding/json"
	"os"
	"runtime/debug"
	"sort"
)

// A worker executes runs one after another on request.

type request struct {
	Seed    uint64   `json:"seed"`
	Replay  bool     `json:"replay"`
	Choices []uint32 `json:"choices,omitempty"`
	Scen    string   `json:"scen,omitempty"`
	Trace   bool     `json:"trace,omitempty"`
	Full    bool     `json:"full,omitempty"` // send the choices back
}

type report struct {
	Seed    uint64         `json:"seed"`
	Scen    string         `json:"scen"`
	Class   string         `json:"class,omitempty"`
	Msg     string         `json:"msg,omitempty"`
	Hash    uint64         `json:"hash"`
	Sched   uint64         `json:"sched"`
	SimNs   int64          `json:"sim_ns"`
	Steps   int64          `json:"steps"`
	Switch  int64          `json:"switch"`
	Undec   string         `json:"undec,omitempty"`
	Err     string         `json:"err,omitempty"`
	Choices []uint32       `json:"choices,omitempty"`
	NChoice int            `json:"nchoice"`
	Trace   []string       `json:"trace,omitempty"`
	Faults  map[string]int `json:"faults,omitempty"`
	Cover   map[string]int `json:"cover,omitempty"`
	States  []uint64       `json:"states,omitempty"`
}

func makeReport(seed uint64, res result, full bool) report {
	p := report{Seed: seed, Scen: res.Scen, Class: res.Class, Msg: res.Msg, Hash: res.Hash, Sched: res.Sched, SimNs: res.SimNs,
		Steps: res.Steps, Switch: res.Switch, Undec: res.Undec, Err: res.Err, Trace: res.Trace, NChoice: len(res.Choices)}
	if full || res.Class != "" {
		p.Choices = res.Choices
	}
	p.Faults, p.Cover = res.w.Faults, res.w.Cover
	for s := range res.w.States {
		p.States = append(p.States, s)
	}
	sort.Slice(p.States, func(i, j int) bool { return p.States[i] < p.States[j] })
	return p
}

func (q request) run(prop string) report {
	src := newSource(q)
	return makeReport(q.Seed, execute(prop, q.Scen, src, q.Trace), q.Full)
}

func workerMain(prop string) {
	debug.SetMaxStack(256 << 20)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(out)
	for {
		var q request
		if dec.Decode(&q) != nil {
			return
		}
		_ = enc.Encode(q.run(prop))
		_ = out.Flush()
	}
}
