//go:build go1.21

package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/r3volut1oner/go-karbo/zzsim"
)

func newSource(q request) *zzsim.Source {
	if q.Replay {
		return zzsim.NewReplayer(q.Choices)
	}
	return zzsim.NewRecorder(q.Seed)
}

// ---------------------------------------------------------------- workers

type worker struct {
	prop   string
	cmd    *exec.Cmd
	in     io.WriteCloser
	enc    *json.Encoder
	dec    *json.Decoder
	stderr *tail
	seeds  []uint64 // what it has executed so far
}

// tail keeps the beginning of an error output.
type tail struct {
	sync.Mutex
	b []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.Lock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	t.Unlock()
	return len(p), nil
}

var liveMu sync.Mutex
var live = map[*exec.Cmd]bool{}

func newWorker(prop string) (*worker, error) {
	w := &worker{prop: prop, stderr: &tail{}}
	w.cmd = exec.Command(os.Args[0], "worker", prop)
	w.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=400", "GOMEMLIMIT=2500MiB")
	w.cmd.Stderr = w.stderr
	in, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	liveMu.Lock()
	live[w.cmd] = true
	liveMu.Unlock()
	w.in = in
	w.enc = json.NewEncoder(in)
	w.dec = json.NewDecoder(bufio.NewReaderSize(out, 1<<20))
	return w, nil
}

func (w *worker) close() {
	_ = w.in.Close()
	_ = w.cmd.Process.Kill()
	_ = w.cmd.Wait()
	liveMu.Lock()
	delete(live, w.cmd)
	liveMu.Unlock()
}

var errDied = errors.New("worker died")
var errSlow = errors.New("run takes too long")

// do executes one request; the worker is unusable after an error.
func (w *worker) do(q request, limit time.Duration) (report, error) {
	if !q.Replay {
		w.seeds = append(w.seeds, q.Seed)
	}
	timer := time.AfterFunc(limit, func() { _ = w.cmd.Process.Kill() })
	var p report
	err := w.enc.Encode(q)
	if err == nil {
		err = w.dec.Decode(&p)
	}
	if !timer.Stop() {
		return p, errSlow
	}
	if err != nil {
		return p, errDied
	}
	return p, nil
}

// ---------------------------------------------------------------- exploration

type totals struct {
	runs, undecided   int
	simNs, steps, sw  int64
	faults, cover     map[string]int
	scen              map[string]int
	hashes, scheds    map[uint64]bool
	states            map[uint64]bool
	nontrivial        int
	auditOK, auditBad int
	samples           []interface{}
	harnessErr        map[string]int
	lost              map[string]int
	undecBy           map[string]int
	maxChoice         int
}

func newTotals() *totals {
	return &totals{faults: map[string]int{}, cover: map[string]int{}, scen: map[string]int{}, hashes: map[uint64]bool{},
		scheds: map[uint64]bool{}, states: map[uint64]bool{}, harnessErr: map[string]int{}, lost: map[string]int{}, undecBy: map[string]int{}}
}

func (t *totals) add(p report) {
	t.runs++
	t.simNs += p.SimNs
	t.steps += p.Steps
	t.sw += p.Switch
	t.scen[p.Scen]++
	if p.Undec != "" {
		t.undecided++
		t.undecBy[p.Undec]++
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Println("undecided", p.Seed, p.Scen, p.Undec)
		}
	}
	if p.Err != "" {
		e := p.Err
		if len(e) > 600 {
			e = e[:600]
		}
		t.harnessErr[e]++
	}
	for k, n := range p.Faults {
		t.faults[k] += n
	}
	for k, n := range p.Cover {
		t.cover[k] += n
	}
	if !t.hashes[p.Hash] {
		t.hashes[p.Hash] = true
		if len(p.States) > 0 && p.Undec == "" {
			t.nontrivial++
		}
	}
	t.scheds[p.Sched] = true
	if len(t.states) < 4_000_000 {
		for _, s := range p.States {
			t.states[s] = true
		}
	}
	if p.NChoice > t.maxChoice {
		t.maxChoice = p.NChoice
	}
}

type finding struct {
	seed    uint64
	rep     report
	warmup  []uint64
	died    string // how the worker died, when it did
	replays bool
}

type replayFile struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Msg      string   `json:"message"`
	Scenario string   `json:"scenario"`
	Seed     uint64   `json:"seed"`
	Warmup   []uint64 `json:"warmup,omitempty"`
	BySeed   bool     `json:"by_seed,omitempty"`
	Choices  []uint32 `json:"choices"`
	Hash     string   `json:"hash"`
	Original int      `json:"choices_before_minimisation"`
	Trace    []string `json:"trace"`
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

const runLimit = 60 * time.Second

// fatalProps are the properties that the death of the whole process breaks.
var fatalProps = map[string]bool{"C11": true, "C16": true, "C17": true}

func checkMain(prop string) int {
	start := time.Now()
	if len(checks[prop]) == 0 {
		fmt.Println("no such property:", prop)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := envInt("VERIF_SEED", 1)
	budget := time.Duration(envInt("VERIF_BUDGET", 45)) * time.Second
	if tier == "thorough" {
		budget = time.Duration(envInt("VERIF_BUDGET", 540)) * time.Second
	}
	nw := int(envInt("VERIF_WORKERS", 8))
	base := uint64(seed) * 1_000_000_007
	known := loadKnown(prop)

	t := newTotals()
	var mu sync.Mutex
	next := uint64(0)
	stop := false
	deadline := start.Add(budget)
	var found []*finding
	knownSeen := map[string]string{}
	var audits []report
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.close()
				}
			}()
			for {
				mu.Lock()
				if stop || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				var audit *report
				q := request{Seed: base + next}
				if len(audits) > 0 && next%40 == 0 {
					a := audits[0]
					audits = audits[1:]
					audit = &a
					q.Seed = a.Seed
				}
				next++
				mu.Unlock()
				if w == nil {
					var err error
					if w, err = newWorker(prop); err != nil {
						mu.Lock()
						t.lost["cannot start a worker: "+err.Error()]++
						stop = true
						mu.Unlock()
						return
					}
				}
				p, err := w.do(q, runLimit)
				if err != nil {
					msg := err.Error()
					if err == errDied {
						_ = w.cmd.Wait()
						msg = deathMsg(w.stderr.b)
					}
					seeds := w.seeds
					w.close()
					w = nil
					mu.Lock()
					t.lost[msg]++
					n := 0
					for _, k := range t.lost {
						n += k
					}
					if fatalProps[prop] {
						found = append(found, &finding{seed: q.Seed, died: msg, warmup: seeds[:len(seeds)-1]})
						if n >= 3 {
							stop = true
						}
					}
					if n > 40 {
						stop = true
					}
					mu.Unlock()
					continue
				}
				mu.Lock()
				if audit != nil {
					if audit.Hash == p.Hash && audit.Class == p.Class {
						t.auditOK++
					} else {
						t.auditBad++
					}
				} else {
					t.add(p)
					if len(audits) < 4 {
						audits = append(audits, p)
					}
					if len(t.samples) < 3 && p.Undec == "" && p.Err == "" {
						t.samples = append(t.samples, map[string]interface{}{"seed": p.Seed, "scenario": p.Scen, "hash": fmt.Sprintf("%016x", p.Hash),
							"sim_seconds": float64(p.SimNs) / 1e9, "steps": p.Steps, "task_switches": p.Switch, "choices": p.NChoice, "faults": p.Faults, "events": p.Cover})
					}
					if p.Class != "" {
						if k := known[p.Class]; k != "" {
							knownSeen[p.Class] = k
						} else {
							found = append(found, &finding{seed: p.Seed, rep: p, warmup: append([]uint64{}, w.seeds[:len(w.seeds)-1]...)})
							stop = true
						}
					}
				}
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	explored := time.Since(start)
	for _, k := range sortedStr(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, knownSeen[k])
	}
	for c, k := range known {
		if knownSeen[c] == "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
		}
	}

	// confirm
	rc := 0
	violations := 0
	sort.Slice(found, func(i, j int) bool { return found[i].seed < found[j].seed })
	unconfirmed := 0
	for _, f := range found {
		file := f.confirm(prop)
		if file == nil {
			unconfirmed++
			continue
		}
		if known[file.Class] != "" {
			continue
		}
		if !file.BySeed && len(file.Warmup) == 0 {
			minimise(prop, file, time.Duration(envInt("VERIF_SHRINK", 20))*time.Second)
		}
		path := writeReplay(prop, file)
		fmt.Printf("%s: %s\n", file.Class, file.Msg)
		fmt.Printf("seed %d, %d choices (%d before minimisation)\n", file.Seed, len(file.Choices), file.Original)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		violations++
		rc = 1
		break
	}
	if rc == 0 && unconfirmed > 0 {
		fmt.Printf("a finding could not be reproduced: %v\n", found[0].rep.Msg+found[0].died)
		rc = 2
	}
	if rc == 0 && len(t.harnessErr) > 0 {
		n := 0
		for e, k := range t.harnessErr {
			fmt.Printf("harness error (%d runs): %s\n", k, e)
			n += k
		}
		if n*20 > t.runs {
			rc = 2
		}
	}
	if rc == 0 && t.runs == 0 {
		fmt.Println("no run completed:", t.lost)
		rc = 2
	}
	writeEvidence(prop, tier, seed, t, explored, time.Since(start), violations)
	fmt.Printf("%s: %d runs, %.0f simulated seconds, %d undecided, %d distinct states, %.1f s, determinism audit %d ok %d different\n", prop, t.runs,
		float64(t.simNs)/1e9, t.undecided, len(t.states), time.Since(start).Seconds(), t.auditOK, t.auditBad)
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, k := range sortedKeys(t.cover) {
			fmt.Printf("  %8d %s\n", t.cover[k], k)
		}
		for _, k := range sortedKeys(t.faults) {
			fmt.Printf("  %8d fault %s\n", t.faults[k], k)
		}
		fmt.Println(t.lost)
	}
	return rc
}

func deathMsg(b []byte) string {
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") && strings.Contains(l, "exceeds") {
			return "process died: " + strings.TrimSpace(l)
		}
	}
	return "process died"
}

func sortedStr(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// confirm reproduces a finding in a fresh process, with as few earlier runs
// as possible when the code under test keeps state between runs.
func (f *finding) confirm(prop string) *replayFile {
	n := len(f.warmup)
	tries := []int{0, 1, 2, 4, 8, 16, 64, 256, n}
	for _, k := range tries {
		if k > n {
			continue
		}
		w, err := newWorker(prop)
		if err != nil {
			return nil
		}
		warm := f.warmup[n-k:]
		ok := true
		for _, s := range warm {
			if _, err := w.do(request{Seed: s}, runLimit); err != nil {
				ok = false
				break
			}
		}
		if !ok {
			w.close()
			continue
		}
		q := request{Seed: f.seed, Full: true, Trace: true}
		p, err := w.do(q, runLimit)
		if err != nil {
			msg := err.Error()
			if err == errDied {
				_ = w.cmd.Wait()
				msg = deathMsg(w.stderr.b)
			}
			w.close()
			if f.died != "" {
				return &replayFile{Property: prop, Class: msg, Msg: "the whole process dies in this run: " + msg, Seed: f.seed, Warmup: warm, BySeed: true}
			}
			continue
		}
		w.close()
		if f.died == "" && p.Class == f.rep.Class {
			return &replayFile{Property: prop, Class: p.Class, Msg: p.Msg, Scenario: p.Scen, Seed: f.seed, Warmup: warm, BySeed: len(warm) > 0,
				Choices: p.Choices, Hash: fmt.Sprintf("%016x", p.Hash), Original: len(p.Choices), Trace: lastLines(p.Trace)}
		}
	}
	return nil
}

func lastLines(t []string) []string {
	if len(t) > 400 {
		return t[len(t)-400:]
	}
	return t
}

// ---------------------------------------------------------------- minimisation

func trim(c []uint32) []uint32 {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

func simpler(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func minimise(prop string, f *replayFile, budget time.Duration) {
	end := time.Now().Add(budget)
	const n = 8
	var ws [n]*worker
	defer func() {
		for _, w := range ws {
			if w != nil {
				w.close()
			}
		}
	}()
	best := trim(append([]uint32{}, f.Choices...))
	// tryAll evaluates candidates in parallel and takes the first that works.
	tryAll := func(cands [][]uint32) int {
		for len(cands) > 0 && time.Now().Before(end) {
			k := n
			if k > len(cands) {
				k = len(cands)
			}
			ok := make([]bool, k)
			got := make([][]uint32, k)
			var wg sync.WaitGroup
			for i := 0; i < k; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					if ws[i] == nil {
						ws[i], _ = newWorker(prop)
					}
					if ws[i] == nil {
						return
					}
					p, err := ws[i].do(request{Replay: true, Choices: cands[i], Scen: f.Scenario, Full: true}, runLimit)
					if err != nil {
						ws[i].close()
						ws[i] = nil
						return
					}
					if p.Class == f.Class {
						ok[i] = true
						got[i] = trim(p.Choices)
					}
				}(i)
			}
			wg.Wait()
			for i := 0; i < k; i++ {
				if ok[i] {
					c := trim(cands[i])
					if simpler(got[i], c) {
						c = got[i]
					}
					if simpler(c, best) {
						best = c
						return i
					}
				}
			}
			cands = cands[k:]
		}
		return -1
	}
	cut := func(i, k int) []uint32 {
		c := append([]uint32{}, best[:i]...)
		return append(c, best[i+k:]...)
	}
	for again := true; again && time.Now().Before(end); {
		again = false
		// shorter
		for k := len(best) / 2; k > 0; k /= 2 {
			for time.Now().Before(end) && k <= len(best) {
				if tryAll([][]uint32{append([]uint32{}, best[:len(best)-k]...)}) < 0 {
					break
				}
				again = true
			}
		}
		for k := len(best) / 2; k > 0 && time.Now().Before(end); k /= 2 {
			i := 0
			for i+k <= len(best) && time.Now().Before(end) {
				var cands [][]uint32
				var at []int
				for j := i; j+k <= len(best) && len(cands) < 8; j += k {
					cands = append(cands, cut(j, k))
					at = append(at, j)
				}
				g := tryAll(cands)
				if g >= 0 {
					again = true
					i = at[0]
					if i > len(best) {
						break
					}
					continue
				}
				i = at[len(at)-1] + k
			}
		}
		// zero blocks
		for k := 64; k > 0 && time.Now().Before(end); k /= 4 {
			var cands [][]uint32
			for j := 0; j < len(best); j += k {
				c := append([]uint32{}, best...)
				ch := false
				for x := j; x < j+k && x < len(c); x++ {
					if c[x] != 0 {
						c[x] = 0
						ch = true
					}
				}
				if ch {
					cands = append(cands, c)
				}
				if len(cands) == 8 || j+k >= len(best) {
					if tryAll(cands) >= 0 {
						again = true
					}
					cands = nil
				}
			}
		}
		// smaller values
		for j := 0; j < len(best) && time.Now().Before(end); j++ {
			if best[j] == 0 {
				continue
			}
			var cands [][]uint32
			for _, v := range []uint32{best[j] / 2, best[j] - 1} {
				c := append([]uint32{}, best...)
				c[j] = v
				cands = append(cands, c)
			}
			if tryAll(cands) >= 0 {
				again = true
			}
		}
	}
	// the final file comes from a fresh process
	w, err := newWorker(prop)
	if err != nil {
		return
	}
	defer w.close()
	p, err := w.do(request{Replay: true, Choices: best, Scen: f.Scenario, Full: true, Trace: true}, runLimit)
	if err != nil || p.Class != f.Class {
		return
	}
	f.Choices, f.Msg, f.Hash, f.Trace = best, p.Msg, fmt.Sprintf("%016x", p.Hash), lastLines(p.Trace)
}

// ---------------------------------------------------------------- files

func root() string {
	if d := os.Getenv("ZZ_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func writeReplay(prop string, f *replayFile) string {
	dir := filepath.Join(root(), "replays")
	_ = os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, f.Seed))
	b, _ := json.MarshalIndent(f, "", " ")
	if os.WriteFile(path, b, 0644) != nil {
		return "none"
	}
	return path
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	w, err := newWorker(f.Property)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer w.close()
	for _, s := range f.Warmup {
		_, _ = w.do(request{Seed: s}, runLimit)
	}
	q := request{Replay: true, Choices: f.Choices, Scen: f.Scenario, Trace: true, Full: true}
	if f.BySeed {
		q = request{Seed: f.Seed, Trace: true, Full: true}
	}
	p, err := w.do(q, runLimit)
	if err != nil {
		_ = w.cmd.Wait()
		if f.BySeed {
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
			return 1
		}
		fmt.Println(err, deathMsg(w.stderr.b))
		return 2
	}
	for _, l := range p.Trace {
		fmt.Println(l)
	}
	if p.Class == "" {
		fmt.Println("no violation in this run", p.Undec, p.Err)
		return 0
	}
	same := "the recorded execution"
	if h := fmt.Sprintf("%016x", p.Hash); h != f.Hash {
		same = "an execution that differs from the recorded one"
	}
	fmt.Printf("%s: %s\n(%s)\nVIOLATION property=%s replay=%s\n", p.Class, p.Msg, same, f.Property, path)
	return 1
}

// loadKnown reads the findings that are listed and not repaired.
func loadKnown(prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root(), "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" class=\"") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+prop+" class=\"")
		if i := strings.IndexByte(l, '"'); i > 0 {
			m[l[:i]] = strings.TrimSpace(l[i+1:])
		}
	}
	return m
}

func writeEvidence(prop, tier string, seed int64, t *totals, explored, wall time.Duration, violations int) {
	perHour := func(x float64) int64 { return int64(x / explored.Hours()) }
	cov := map[string]interface{}{
		"evaluations":         t.runs,
		"distinct_nontrivial": t.nontrivial,
		"rule": "one evaluation is one simulated run from one seed, which decides every schedule, delay, fault and input; two runs are distinct when the hash over all their " +
			"choices and task switches differs; a run is non-trivial when it reached at least one state of the coverage measure (an operation with its outcome, a protocol step, an interleaving) and was not cut short by the violation of another property",
		"samples":                         t.samples,
		"simulated_runs_per_hour":         perHour(float64(t.runs)),
		"seeds_per_hour":                  perHour(float64(t.runs)),
		"first_seed":                      uint64(seed) * 1_000_000_007,
		"simulated_seconds":               float64(t.simNs) / 1e9,
		"faults_injected":                 t.faults,
		"events":                          t.cover,
		"scenarios":                       t.scen,
		"distinct_states":                 len(t.states),
		"distinct_schedules":              len(t.scheds),
		"distinct_schedules_measure":      "hash over the sequence of task switches of a run",
		"distinct_states_measure":         "hash of (operation or message, protocol or chain situation, outcome) as marked by the scenarios",
		"task_switches":                   t.sw,
		"instrumented_steps":              t.steps,
		"longest_choice_sequence":         t.maxChoice,
		"runs_ended_undecided":            t.undecided,
		"undecided_reasons":               t.undecBy,
		"determinism_audit":               map[string]int{"reruns_identical": t.auditOK, "reruns_different": t.auditBad},
		"harness_errors":                  t.harnessErr,
		"workers_lost":                    t.lost,
		"real_components":                 realParts(prop),
		"simulated_or_stubbed_components": stubParts(prop),
	}
	e := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": wall.Seconds(), "violations": violations,
		"assumptions": []string{
			"the scheduler switches tasks at function entries, loop iterations, channel, lock, timer and I/O operations and around map and multi-word accesses; data races below that granularity are seen only as the map and lock misuse the simulator models",
			"sampling, not exhaustive: a clean result covers the seeds that were run",
		}}
	if t.samples == nil {
		cov["samples"] = []interface{}{}
	}
	dir := filepath.Join(root(), "evidence")
	_ = os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(e, "", " ")
	_ = os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644)
}

func realParts(prop string) []string {
	r := []string{"cryptonote (chain, validation, storage_memory, serialization)", "config", "crypto", "encoding/binary", "utils"}
	if p2pProps[prop] {
		r = append(r, "p2p (node, listener, handlers, levin, peer store)")
	}
	return r
}

func stubParts(prop string) []string {
	r := []string{"goroutine scheduling, channels, select, sync, time, context, randomness, file writes: simulator", "log output: discarded"}
	if p2pProps[prop] {
		r = append(r, "TCP: simulated network", "remote peers: harness peers with their own codec")
	} else {
		r = append(r, "storage faults: a wrapper around the real storage")
	}
	return r
}

var p2pProps = map[string]bool{"C10": true, "C11": true, "C12": true, "C13": true, "C14": true, "C15": true, "C16": true, "C17": true, "C18": true}
