//go:build go1.21

// Package zzsim is a deterministic simulator for Go code rewritten by
// /verif/tools/instr.  One World is one simulated execution: tasks (goroutines)
// run one at a time, and every scheduling decision, delay and fault is taken
// from one recorded sequence of choices.
package zzsim

import (
	"container/heap"
	"fmt"
	"math"
	"runtime"
	"strings"
)

// ---------------------------------------------------------------- choices

// Source yields the choice sequence: recorded from a PRNG, or replayed.
type Source struct {
	replay  bool
	in      []uint32
	pos     int
	out     []uint32
	rng     uint64
	MaxOut  int
	Overrun bool
}

func NewRecorder(seed uint64) *Source {
	return &Source{rng: seed*0x9E3779B97F4A7C15 + 0x1234567, MaxOut: 4 << 20}
}

func NewReplayer(in []uint32) *Source { return &Source{replay: true, in: in, MaxOut: 4 << 20} }

func (s *Source) Out() []uint32 { return s.out }

func (s *Source) next() uint64 {
	s.rng += 0x9E3779B97F4A7C15
	z := s.rng
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// choose returns a value in [0,n); 0 is always the simplest choice.
func (s *Source) choose(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.replay {
		if s.pos < len(s.in) {
			v = s.in[s.pos]
			s.pos++
		}
		if int(v) >= n {
			v = v % uint32(n)
		}
	} else {
		v = uint32(s.next() % uint64(n))
	}
	if len(s.out) < s.MaxOut {
		s.out = append(s.out, v)
	} else {
		s.Overrun = true
	}
	return int(v)
}

// ---------------------------------------------------------------- world

type event struct {
	at  int64
	seq uint64
	fn  func()
}

type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || (h[i].at == h[j].at && h[i].seq < h[j].seq)
}
func (h eventHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x interface{}) { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() interface{} {
	o := *h
	n := len(o)
	x := o[n-1]
	o[n-1] = nil
	*h = o[:n-1]
	return x
}

// Proc is one simulated operating-system process (a node, a client, the harness).
type Proc struct {
	Name      string
	W         *World
	Offset    int64 // wall-clock skew in ns
	Dead      bool
	Crashed   string
	FDs       int
	FDLimit   int // 0: unlimited
	Files     []string
	Goro      int // live tasks
	MaxGoro   int
	Accepts   int
	listeners []*Listener
	conns     map[int]*Endpoint
	Harness   bool
}

type Task struct {
	id         int
	name       string
	proc       *Proc
	wake       chan struct{}
	pred       func() bool
	wakeAt     int64 // -1: none
	block      string
	dead       bool
	killed     bool
	exited     chan struct{}
	fn         func()
	deferFatal bool
	held       int // sim locks held (diagnostics)
}

// Violation is a property violation found by the run.
type Violation struct {
	Class string // stable identification, used by shrinking and known findings
	Msg   string
}

// Params are the per-run swarm parameters of the scheduler.
type Params struct {
	MeanGap    float64 // mean number of yields between preemptions; 0: never
	StallPM    int     // per-mille chance that a preemption stalls the task
	StallMaxMs int
	WinGap     float64 // mean number of map windows between forced switches
	MapPerm    bool
	Prio       bool // priority scheduling (PCT-like) instead of uniform
}

type World struct {
	Src     *Source
	P       Params
	Epoch   int64 // unix seconds at sim time 0
	now     int64
	seq     uint64
	ev      eventHeap
	tasks   []*Task
	cur     *Task
	nextID  int
	done    bool
	doneCh  chan struct{}
	killing bool

	Viol       *Violation
	HarnessErr string
	Crash      *Crash // first crash of a non-harness process

	hash           uint64
	SchedHash      uint64
	Steps          int64
	sliceLen       int64
	stepsAtAdvance int64
	HangLimit      int64
	AllocLimit     int64
	AllocSeen      func(bytes int64) // sees the size of every allocation of variable length
	winLeft        int64
	prio           map[int]int

	OnCrash func(c *Crash)
	Trace   []string
	TraceOn bool
	Faults  map[string]int
	Cover   map[string]int
	States  map[uint64]bool

	Net         *Net
	procs       []*Proc
	chans       map[uintptr]*chanState
	rnd         uint64
	rndBuf      uint64
	rndN        int
	RandFix     []byte                  // the entropy stream starts with these bytes
	RandFault   func(n int) (int, bool) // crypto/rand fault hook
	wins        []*window
	Switches    int64
	HarnessProc *Proc
}

// Crash is the death of a simulated process.
type Crash struct {
	Proc  *Proc
	Kind  string // panic, fatal, oom, exit
	Msg   string
	Func  string
	Stack string
	Task  string
}

func (c *Crash) Class() string { return c.Kind + ":" + normMsg(c.Msg) + "@" + c.Func }

func normMsg(s string) string {
	// drop numbers so the class is stable under minimisation
	var b strings.Builder
	prev := false
	for _, r := range s {
		if r >= '0' && r <= '9' {
			if !prev {
				b.WriteByte('#')
			}
			prev = true
			continue
		}
		prev = false
		b.WriteRune(r)
	}
	t := b.String()
	if i := strings.IndexByte(t, '\n'); i >= 0 {
		t = t[:i]
	}
	if len(t) > 120 {
		t = t[:120]
	}
	return t
}

// W is the current world, nil outside a simulation.
var W *World

// left is the number of yields until the slow path.
var left int64 = math.MaxInt64

func NewWorld(src *Source) *World {
	w := &World{Src: src, Epoch: 1650000000, doneCh: make(chan struct{}, 1), HangLimit: 40_000_000,
		AllocLimit: 160 << 20, Faults: map[string]int{}, Cover: map[string]int{}, States: map[uint64]bool{},
		chans: map[uintptr]*chanState{}, hash: 14695981039346656037, SchedHash: 14695981039346656037, prio: map[int]int{}, rnd: 1}
	w.Net = newNet(w)
	w.HarnessProc = w.NewProc("harness")
	w.HarnessProc.Harness = true
	return w
}

func (w *World) NewProc(name string) *Proc {
	p := &Proc{Name: name, W: w, conns: map[int]*Endpoint{}}
	w.procs = append(w.procs, p)
	return p
}

func (w *World) mix(v uint64) {
	w.hash = (w.hash ^ v) * 1099511628211
}

func (w *World) Hash() uint64 { return w.hash }

// Choose exposes the choice sequence to the harness.
func (w *World) Choose(n int) int {
	v := w.Src.choose(n)
	w.mix(uint64(v) + 7)
	return v
}

// Pct is true with probability pct/100; false is the simple choice.
func (w *World) Pct(pct int) bool {
	if pct <= 0 {
		return false
	}
	return w.Choose(100) >= 100-pct
}

// PM is true with probability pm/1000.
func (w *World) PM(pm int) bool {
	if pm <= 0 {
		return false
	}
	return w.Choose(1000) >= 1000-pm
}

func (w *World) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + w.Choose(hi-lo+1)
}

func (w *World) U64() uint64 {
	return uint64(w.Choose(1<<16)) | uint64(w.Choose(1<<16))<<16 | uint64(w.Choose(1<<16))<<32 | uint64(w.Choose(1<<16))<<48
}

func (w *World) Now() int64 { return w.now }

func (w *World) Fault(kind string) { w.Faults[kind]++ }

func (w *World) Logf(f string, a ...interface{}) {
	if w.TraceOn {
		w.Trace = append(w.Trace, fmt.Sprintf("%10.3fms ", float64(w.now)/1e6)+fmt.Sprintf(f, a...))
	}
}

// At schedules fn (which must not block) at sim time at.
func (w *World) At(at int64, fn func()) {
	if at < w.now {
		at = w.now
	}
	w.seq++
	heap.Push(&w.ev, &event{at, w.seq, fn})
}

func (w *World) After(d int64, fn func()) { w.At(w.now+d, fn) }

// ---------------------------------------------------------------- tasks

func (w *World) GoIn(p *Proc, name string, fn func()) *Task {
	w.nextID++
	t := &Task{id: w.nextID, name: name, proc: p, wake: make(chan struct{}, 1), exited: make(chan struct{}), fn: fn, wakeAt: -1}
	w.tasks = append(w.tasks, t)
	if w.P.Prio {
		w.prio[t.id] = w.Choose(1000)
	}
	p.Goro++
	if p.Goro > p.MaxGoro {
		p.MaxGoro = p.Goro
	}
	go w.runTask(t)
	return t
}

func (w *World) runTask(t *Task) {
	<-t.wake
	normal := false
	defer func() {
		var r interface{}
		if !normal && !t.killed {
			r = recover()
			if r == nil && !t.killed {
				// runtime.Goexit called by the code under test: an ordinary end
				normal = true
			}
		} else if t.killed {
			r = recover() // a panic inside deferred code while killing: ignore
			r = nil
		}
		if r != nil && !t.killed {
			w.taskPanicked(t, r)
		}
		t.dead = true
		t.proc.Goro--
		w.remove(t)
		if w.killing || t.killed {
			close(t.exited)
			return
		}
		w.cur = nil
		left = math.MaxInt64
		w.dispatch(nil)
	}()
	if t.killed {
		normal = true
		return
	}
	w.refill()
	t.fn()
	normal = true
}

func (w *World) remove(t *Task) {
	for i, x := range w.tasks {
		if x == t {
			w.tasks = append(w.tasks[:i], w.tasks[i+1:]...)
			return
		}
	}
}

func (w *World) taskPanicked(t *Task, r interface{}) {
	msg := fmt.Sprint(r)
	fn, stack, harness := panicSite()
	if harness {
		w.HarnessErr = fmt.Sprintf("harness panic: %s\n%s", msg, stack)
		w.done = true
		return
	}
	w.crash(t, "panic", msg, fn, stack)
}

func (w *World) crash(t *Task, kind, msg, fn, stack string) {
	c := &Crash{Proc: t.proc, Kind: kind, Msg: msg, Func: fn, Stack: stack, Task: t.name}
	if w.Crash == nil {
		w.Crash = c
	}
	w.Logf("CRASH %s: %s in %s", t.proc.Name, msg, fn)
	t.proc.Crashed = c.Class()
	w.KillProc(t.proc)
	if w.OnCrash != nil {
		// the handler must not park the dying task
		cur := w.cur
		w.cur = nil
		w.OnCrash(c)
		w.cur = cur
	}
}

const modPrefix = "github.com/r3volut1oner/go-karbo/"

// panicSite walks the panicking stack.
func panicSite() (fn, stack string, harness bool) {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	var b strings.Builder
	for {
		f, more := fr.Next()
		name := f.Function
		fmt.Fprintf(&b, "  %s %s:%d\n", name, f.File, f.Line)
		if fn == "" && !harness && strings.HasPrefix(name, modPrefix) {
			switch {
			case strings.HasPrefix(name, modPrefix+"zzsim"):
			case strings.HasPrefix(name, modPrefix+"zzverif"):
				harness = true
			default:
				fn = strings.TrimPrefix(name, modPrefix)
			}
		}
		if !more {
			break
		}
	}
	if strings.HasPrefix(fn, "main.") {
		harness = true
	}
	if fn == "" {
		harness = true
	}
	return fn, b.String(), harness
}

// CallSite returns the innermost repo function on the current stack.
func CallSite() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(2, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		name := f.Function
		if strings.HasPrefix(name, modPrefix) && !strings.HasPrefix(name, modPrefix+"zz") {
			return strings.TrimPrefix(name, modPrefix)
		}
		if !more {
			return "?"
		}
	}
}

// ---------------------------------------------------------------- scheduling

func (w *World) refill() {
	g := int64(1_000_000)
	if w.P.MeanGap > 0 {
		u := w.Src.choose(1024)
		if u > 0 {
			g = 1 + int64(-math.Log(float64(u)/1024)*w.P.MeanGap)
		}
	}
	w.sliceLen = g
	left = g
}

// Y is the yield point placed by the instrumenter.
func Y() {
	left--
	if left > 0 {
		return
	}
	slowYield()
}

func slowYield() {
	w := W
	if w == nil || w.cur == nil || w.killing {
		left = math.MaxInt64
		return
	}
	w.Steps += w.sliceLen
	if w.Steps-w.stepsAtAdvance > w.HangLimit {
		t := w.cur
		w.crash(t, "hang", "no progress: busy loop", CallSite(), "")
		w.parkForever()
	}
	t := w.cur
	if w.P.StallPM > 0 && !t.proc.Harness && w.Src.choose(1000) >= 1000-w.P.StallPM {
		d := int64(1+w.Src.choose(w.P.StallMaxMs)) * 1e6
		w.Fault("stall")
		t.wakeAt = w.now + d
		t.pred = never
		t.block = "stalled"
		w.At(t.wakeAt, nop)
		w.switchFrom(t)
		return
	}
	if w.P.Prio {
		w.prio[t.id] = w.Src.choose(1000)
	}
	w.switchFrom(t)
}

func never() bool { return false }
func nop()        {}

func (w *World) runnable(t *Task) bool {
	if t.dead || t.killed {
		return false
	}
	if t.proc.Dead {
		return false
	}
	if t.pred == nil {
		return true
	}
	if t.wakeAt >= 0 && w.now >= t.wakeAt {
		return true
	}
	return t.pred()
}

// pick chooses the next task; nil when the run is over.
func (w *World) pick(from *Task) *Task {
	w.cur = nil
	left = math.MaxInt64
	var run []*Task
	for {
		if w.done {
			return nil
		}
		for len(w.ev) > 0 && w.ev[0].at <= w.now {
			e := heap.Pop(&w.ev).(*event)
			e.fn()
			if w.done {
				return nil
			}
		}
		run = run[:0]
		for _, t := range w.tasks {
			if w.runnable(t) {
				run = append(run, t)
			}
		}
		if len(run) > 0 {
			break
		}
		if len(w.ev) == 0 {
			if w.Viol == nil && w.HarnessErr == "" && w.Crash == nil {
				w.HarnessErr = "simulation deadlocked with no pending event: " + w.Dump()
			}
			w.done = true
			return nil
		}
		w.now = w.ev[0].at
		w.stepsAtAdvance = w.Steps
	}
	next := run[0]
	if len(run) > 1 {
		if w.P.Prio {
			for _, t := range run {
				if w.prio[t.id] > w.prio[next.id] {
					next = t
				}
			}
		} else {
			// index 0 is the simplest: keep the current task if it can run
			k := w.Src.choose(len(run))
			if from != nil {
				for i, t := range run {
					if t == from {
						run[0], run[i] = run[i], run[0]
						break
					}
				}
			}
			next = run[k]
		}
	}
	if next != from {
		w.Switches++
		w.SchedHash = (w.SchedHash ^ uint64(next.id)) * 1099511628211
	}
	w.mix(uint64(next.id)<<32 ^ uint64(w.now))
	return next
}

// dispatch hands the token to the next task (from has ended or parks).
func (w *World) dispatch(from *Task) *Task {
	next := w.pick(from)
	if next == nil {
		w.finish()
		return nil
	}
	next.pred = nil
	next.wakeAt = -1
	next.block = ""
	w.cur = next
	if next != from {
		next.wake <- struct{}{}
	} else {
		w.refill()
	}
	return next
}

func (w *World) switchFrom(t *Task) {
	next := w.dispatch(t)
	if next == t {
		return
	}
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
	w.refill()
}

func (w *World) finish() {
	w.done = true
	select {
	case w.doneCh <- struct{}{}:
	default:
	}
}

func (w *World) parkForever() {
	t := w.cur
	t.pred = never
	t.wakeAt = -1
	t.block = "parked"
	w.switchFrom(t)
	runtime.Goexit()
}

// Block parks the current task until pred holds or the deadline (sim ns, <0:
// none) passes.  It reports whether pred held.
func (w *World) Block(desc string, pred func() bool, deadline int64) bool {
	if w.killing || w.cur == nil {
		if w.cur == nil && !w.killing && !pred() {
			panic("zzsim: would block outside a simulation: " + desc)
		}
		return pred()
	}
	if pred() {
		return true
	}
	t := w.cur
	if t.killed {
		runtime.Goexit()
	}
	if deadline >= 0 && deadline <= w.now {
		return false
	}
	w.Steps += w.sliceLen - left
	t.pred = pred
	t.wakeAt = deadline
	t.block = desc
	if deadline >= 0 {
		w.At(deadline, nop)
	}
	w.switchFrom(t)
	return pred()
}

func (w *World) Sleep(d int64) {
	if d < 0 {
		d = 0
	}
	at := w.now + d
	if d == 0 {
		Y()
		return
	}
	w.Block("sleep", func() bool { return w.now >= at }, at)
}

// Cur returns the process of the running task.
func (w *World) CurProc() *Proc {
	if w.cur == nil {
		return w.HarnessProc
	}
	return w.cur.proc
}

// Violate records a violation and ends the run.
func (w *World) Violate(class, format string, a ...interface{}) {
	if w.done || w.killing {
		if w.cur != nil {
			w.parkForever()
		}
		return
	}
	if w.Viol == nil {
		w.Viol = &Violation{Class: class, Msg: fmt.Sprintf(format, a...)}
		w.Logf("VIOLATION %s: %s", class, w.Viol.Msg)
		for _, t := range w.tasks {
			w.Logf("  task %s/%s: %s", t.proc.Name, t.name, t.block)
		}
	}
	w.done = true
	if w.cur != nil {
		w.parkForever()
	}
}

// Fatal is an unrecoverable runtime error of the current process.
func (w *World) Fatal(kind, msg string) {
	if w.killing || w.cur == nil {
		return
	}
	w.crash(w.cur, kind, msg, CallSite(), "")
	w.parkForever()
}

// Dump describes every live task.
func (w *World) Dump() string {
	var b strings.Builder
	for _, t := range w.tasks {
		fmt.Fprintf(&b, "[%s/%s: %s] ", t.proc.Name, t.name, t.block)
	}
	return b.String()
}

// Run executes main as the first task and returns when it ends.
func (w *World) Run(main func()) {
	W = w
	w.GoIn(w.HarnessProc, "main", func() {
		main()
		w.done = true
	})
	w.dispatch(nil)
	<-w.doneCh
	w.Steps += 0
	// kill what is left
	w.killing = true
	left = math.MaxInt64
	w.cur = nil
	for len(w.tasks) > 0 {
		t := w.tasks[0]
		t.killed = true
		select {
		case t.wake <- struct{}{}:
		default:
		}
		<-t.exited
	}
	W = nil
}

// KillProc ends every task of p at the point it has reached; nothing of the
// process survives except what others hold.  Deferred functions see a
// simulator whose primitives do nothing.
func (w *World) KillProc(p *Proc) {
	p.Dead = true
	for _, l := range append([]*Listener{}, p.listeners...) {
		l.closeNow()
	}
	for _, e := range sortedConns(p) {
		e.abort()
	}
}

// ProcTasks lists live tasks of p.
func (w *World) ProcTasks(p *Proc) []string {
	var r []string
	for _, t := range w.tasks {
		if t.proc == p && !t.dead {
			r = append(r, t.name+"("+t.block+")")
		}
	}
	return r
}
