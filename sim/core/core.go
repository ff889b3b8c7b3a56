// Package core runs seeded simulations: plans, worlds, the worker loop, the
// driver that spreads seeds over processes, the minimiser and the evidence.
package core

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

// ---- randomness -----------------------------------------------------------

// Rand is a splitmix64 stream.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// N returns a value in [0,n).
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int((r.U64() >> 33) % uint64(n))
}

// R returns a value in [lo,hi].
func (r *Rand) R(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.N(den) < num }

// Pick returns one of its arguments.
func (r *Rand) Pick(xs ...int) int { return xs[r.N(len(xs))] }

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Sub derives an independent stream.
func (r *Rand) Sub() *Rand { return &Rand{r.U64()} }

// Mix hashes integers into one.
func Mix(xs ...int64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, x := range xs {
		h ^= uint64(x) + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9
		h = (h ^ (h >> 27)) * 0x94d049bb133111eb
		h ^= h >> 31
	}
	return h
}

// ---- plans ----------------------------------------------------------------

// Op is one step of a workload or fault schedule.
type Op struct {
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
}

func (o Op) Arg(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Plan is everything one simulated execution depends on, besides the code.
type Plan struct {
	Prop string             `json:"property"`
	Seed uint64             `json:"seed"`
	P    map[string]int64   `json:"params"`
	Ops  []Op               `json:"ops"`
	Sim  runtime.SimOptions `json:"sim"`
	// What happened, for the reader of a replay file.
	Class  string   `json:"violation_class,omitempty"`
	Detail string   `json:"violation,omitempty"`
	Hash   string   `json:"event_hash,omitempty"`
	Note   []string `json:"note,omitempty"`
}

func (p *Plan) Clone() *Plan {
	q := *p
	q.P = map[string]int64{}
	for k, v := range p.P {
		q.P[k] = v
	}
	q.Ops = append([]Op(nil), p.Ops...)
	return &q
}

func (p *Plan) Add(k string, a ...int64) { p.Ops = append(p.Ops, Op{k, a}) }

// Violation is one broken property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Prop is one property's simulation.
type Prop struct {
	ID    string
	Title string
	// Gen builds the plan of one seed.
	Gen func(r *Rand, p *Plan)
	// Run executes it; it runs inside the simulation.
	Run func(w *World)
	// Floors limits how far the minimiser may lower parameters; parameters
	// not listed are left alone.
	Floors map[string]int64
	// Fixed plans that are always run first (regressions, known findings).
	Fixed []*Plan
	// Known findings: fixed plans that exhibit a recorded defect.
	Rule   string
	MaxSim time.Duration // simulated time after which a run counts as stuck
	Real   []string
	Stub   []string
}

var Props = map[string]*Prop{}

func Register(p *Prop) { Props[p.ID] = p }

// ---- worlds ---------------------------------------------------------------

// World is one execution in progress.
type World struct {
	After func() // runs when the simulation is over, outside it

	Plan   *Plan
	Rand   *Rand // for run-time choices of the harness; seeded by the plan
	start  time.Time
	hash   uint64
	events int
	Trace  bool
	Lines  []string
	Viol   []Violation
	Faults map[string]int
	Probes map[string]int
	States map[uint64]struct{}
	seq    int
	step   string
}

func newWorld(p *Plan) *World {
	return &World{
		Plan: p, Rand: NewRand(p.Seed ^ 0xabcdef),
		Faults: map[string]int{}, Probes: map[string]int{}, States: map[uint64]struct{}{},
		hash: 14695981039346656037,
	}
}

// Log records an event: simulated time and text go into the event hash.
func (w *World) Log(format string, a ...interface{}) {
	s := fmt.Sprintf("%d %s", time.Since(w.start).Microseconds(), fmt.Sprintf(format, a...))
	for i := 0; i < len(s); i++ {
		w.hash = (w.hash ^ uint64(s[i])) * 1099511628211
	}
	w.events++
	if TraceLive {
		println(s)
	}
	if w.Trace && len(w.Lines) < 4000 {
		w.Lines = append(w.Lines, s)
	}
}

// Seq is the global event sequence number.
func (w *World) Seq() int { w.seq++; return w.seq }

// Fault counts an injected fault that took effect.
func (w *World) Fault(kind string) { w.Faults[kind]++; w.Log("fault %s", kind) }

// Probe counts a condition that was reached.
func (w *World) Probe(name string) { w.Probes[name]++ }

// State records an abstract state that was reached.
func (w *World) State(h uint64) {
	if len(w.States) < 100000 {
		w.States[h] = struct{}{}
	}
}

// Fail records a violation.
func (w *World) Fail(class, format string, a ...interface{}) {
	v := Violation{class, fmt.Sprintf(format, a...)}
	w.Log("VIOLATION %s: %s", v.Class, v.Detail)
	if len(w.Viol) < 20 {
		w.Viol = append(w.Viol, v)
	}
}

func (w *World) Failed() bool { return len(w.Viol) > 0 }

// Step notes what the scenario is about to do, for reports of stuck runs.
func (w *World) Step(format string, a ...interface{}) { w.step = fmt.Sprintf(format, a...) }

// Now is the simulated time since the start.
func (w *World) Now() time.Duration { return time.Since(w.start) }

// Result is the outcome of one execution.
type Result struct {
	Viol   []Violation
	Hash   string
	Faults map[string]int
	Probes map[string]int
	States map[uint64]struct{}
	Stats  runtime.SimStats
	Lines  []string
	Events int
}

// Hooks run before each execution (resetting process-wide state).
var Resets []func()

// Execute runs one plan.
// stacks names a file for what every goroutine was doing when a run exceeded
// its time.
var stacks = os.Getenv("VERIF_STACKS")

func Execute(p *Plan, trace bool) *Result {
	prop := Props[p.Prop]
	if prop == nil {
		panic("HARNESS: no property " + p.Prop)
	}
	w := newWorld(p)
	w.Trace = trace
	for _, f := range Resets {
		f()
	}
	finished := false
	st := runtime.SimRun(p.Sim, func() {
		w.start = time.Now()
		done := make(chan struct{})
		go func() {
			prop.Run(w)
			close(done)
		}()
		max := prop.MaxSim
		if max == 0 {
			max = 2 * time.Hour
		}
		t := time.NewTimer(max)
		select {
		case <-done:
			finished = true
		case <-t.C:
			if stacks != "" {
				b := make([]byte, 4<<20)
				os.WriteFile(stacks, b[:runtime.Stack(b, true)], 0o644)
			}
		}
		t.Stop()
		runtime.SimMark()
	})
	if w.After != nil && finished && !st.Livelock && len(w.Viol) == 0 {
		w.After()
	}
	if st.Livelock {
		w.Viol = append([]Violation{{"livelock", fmt.Sprintf("no end after %d statements, last at site %d", st.Steps, st.LiveSite)}}, w.Viol...)
	} else if !finished && len(w.Viol) == 0 {
		why := st.Deadlock
		if why == "" {
			why = "simulated time limit"
		}
		w.Viol = append(w.Viol, Violation{"stuck", "a call of the scenario never returned (" + why + "); last step: " + w.step})
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%x %x %d %d %d %d %d", w.hash, st.Hash, st.Steps, st.Yields, st.Stalls, st.Choices, st.Now)
	return &Result{
		Viol: w.Viol, Hash: fmt.Sprintf("%016x", h.Sum64()), Faults: w.Faults, Probes: w.Probes,
		States: w.States, Stats: st, Lines: w.Lines, Events: w.events,
	}
}

// ---- schedule generation --------------------------------------------------

// GenSim fills in the schedule part of a plan. stall: whether goroutines may
// be stalled for simulated time at arbitrary statements.
func GenSim(r *Rand, p *Plan, stall bool) {
	o := runtime.SimOptions{Seed: r.U64()}
	o.Strategy = r.Pick(0, 0, 0, 1, 2, 3, 4, 4, 5, 6)
	switch r.N(5) {
	case 0: // switches only where goroutines block
	case 1:
		o.YieldP = 1 << 9
	case 2:
		o.YieldP = 1 << 12
	case 3:
		o.YieldP = 1 << 14
	case 4:
		o.YieldP = 1 << 6
		o.HotSites = uint32(r.Pick(4, 16, 64))
		o.HotP = 1 << 15
	}
	if r.P(1, 3) {
		o.MapP = uint32(r.Pick(1<<11, 1<<13))
	}
	if stall && r.P(1, 4) {
		o.StallP = uint32(r.Pick(40, 400, 2000))
		o.StallMax = int64(r.Pick(2, 20, 200, 1500)) * int64(time.Millisecond)
	}
	p.Sim = o
}

// SortedKeys returns the keys of a string-keyed map in order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Short abbreviates a long string.
func Short(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Calm ends fault injection by the scheduler and lets stalled goroutines
// resume.
func (w *World) Calm() {
	runtime.SimCalm()
	time.Sleep(2 * time.Second)
}
