package core

import (
	"bufio"
	"crypto/rand"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

// Setup puts the process into the state every simulation expects.
func Setup() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0
	time.Unix(0, 0).Local().Zone() // reads a file the first time
	rand.Read(make([]byte, 1))     // starts a timer the first time
	runtime.SimSetRange("github.com/openrelayxyz/cardinal-streams/v2/")
}

// MakePlan builds the plan of one run.
func MakePlan(id string, base uint64, idx int) *Plan {
	prop := Props[id]
	if idx < len(prop.Fixed) {
		p := prop.Fixed[idx].Clone()
		p.Prop = id
		return p
	}
	h := int64(0)
	for _, c := range id {
		h = h*131 + int64(c)
	}
	seed := Mix(int64(base), h, int64(idx))
	r := NewRand(seed)
	p := &Plan{Prop: id, Seed: seed, P: map[string]int64{}}
	prop.Gen(r, p)
	return p
}

// Summary aggregates the runs of one worker.
type Summary struct {
	From, To   int
	Runs       int
	Events     int
	Nontrivial int
	Faults     map[string]int
	Probes     map[string]int
	RunFaults  map[string]int // runs in which a fault kind fired
	States     []uint64
	Scheds     []uint64
	SimNS      int64
	Steps      uint64
	Yields     uint64
	Stalls     uint64
	Choices    uint64
	MaxRun     uint64
	MaxG       uint64
	Sites      []uint64
	Pairs      []uint64
	Hashes     map[int]string `json:",omitempty"`
	Samples    []string
	Recycle    bool
}

func newSummary() *Summary {
	return &Summary{Faults: map[string]int{}, Probes: map[string]int{}, RunFaults: map[string]int{}}
}

// Worker runs plans [from,to) and reports on stdout.
func Worker(id string, base uint64, from, to int, keepHashes bool) {
	Setup()
	out := bufio.NewWriter(os.Stdout)
	s := newSummary()
	s.From = from
	states := map[uint64]struct{}{}
	if keepHashes {
		s.Hashes = map[int]string{}
	}
	began := time.Now()
	var ms runtime.MemStats
	i := from
	for ; i < to; i++ {
		fmt.Fprintf(out, "S %d\n", i)
		out.Flush()
		p := MakePlan(id, base, i)
		res := Execute(p, false)
		if len(res.Viol) > 0 {
			p.Class, p.Detail, p.Hash = res.Viol[0].Class, res.Viol[0].Detail, res.Hash
			js, _ := json.Marshal(p)
			fmt.Fprintf(out, "V %d %s\n", i, js)
			out.Flush()
			if !keepHashes {
				os.Exit(0)
			}
		}
		s.Runs++
		s.Events += res.Events
		if res.Probes["nontrivial"] > 0 {
			s.Nontrivial++
		}
		for k, v := range res.Faults {
			s.Faults[k] += v
			s.RunFaults[k]++
		}
		for k, v := range res.Probes {
			s.Probes[k] += v
		}
		for k := range res.States {
			if len(states) < 40000 {
				states[k] = struct{}{}
			}
		}
		s.Scheds = append(s.Scheds, res.Stats.Hash^Mix(int64(res.Stats.Steps), int64(res.Events)))
		s.SimNS += res.Stats.Now
		s.Steps += res.Stats.Steps
		s.Yields += res.Stats.Yields
		s.Stalls += res.Stats.Stalls
		s.Choices += res.Stats.Choices
		if res.Stats.MaxRunnable > s.MaxRun {
			s.MaxRun = res.Stats.MaxRunnable
		}
		if res.Stats.Goroutines > s.MaxG {
			s.MaxG = res.Stats.Goroutines
		}
		if keepHashes {
			s.Hashes[i] = res.Hash
		}
		if len(s.Samples) < 1 && res.Probes["nontrivial"] > 0 {
			js, _ := json.Marshal(p)
			s.Samples = append(s.Samples, fmt.Sprintf("run %d: %s -> %d events, %d statements, %d schedule choices, hash %s", i, Short(string(js), 700), res.Events, res.Stats.Steps, res.Stats.Choices, res.Hash))
		}
		if (i-from)%16 == 15 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 150<<20 {
				runtime.GC()
				runtime.ReadMemStats(&ms)
			}
			if ms.HeapAlloc > 150<<20 || runtime.NumGoroutine() > 20000 || (!keepHashes && time.Since(began) > 3*time.Second) {
				i++
				break
			}
		}
	}
	s.To = i
	for k := range states {
		s.States = append(s.States, k)
	}
	s.Sites = runtime.SimSites[:]
	s.Pairs = runtime.SimPairs[:]
	js, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	fmt.Fprintf(out, "R %s\n", js)
	out.Flush()
	os.Exit(0)
}

// One executes the plan in a file and prints the outcome as JSON.
func One(file string, trace bool) {
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
	p := &Plan{}
	if err := json.Unmarshal(data, p); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
	if Props[p.Prop] == nil {
		fmt.Fprintln(os.Stderr, "HARNESS: unknown property", p.Prop)
		os.Exit(3)
	}
	Setup()
	TraceLive = trace
	res := Execute(p, true)
	js, _ := json.Marshal(struct {
		Viol  []Violation
		Hash  string
		Stats runtime.SimStats
		Lines []string
	}{res.Viol, res.Hash, res.Stats, res.Lines})
	fmt.Printf("O %s\n", js)
	os.Exit(0)
}

// TraceLive makes worlds print events as they happen (for debugging only).
var TraceLive bool

// PrintPlan writes one generated plan.
func PrintPlan(id string, base uint64, idx int) {
	Setup()
	js, _ := json.MarshalIndent(MakePlan(id, base, idx), "", " ")
	fmt.Println(string(js))
}

// Twice executes one generated plan several times in this process and prints
// where the executions part (for debugging only).
func Twice(id string, base uint64, idx, n int) {
	Setup()
	var first *Result
	var tr [][3]uint64
	runtime.SimTrace = make([][3]uint64, 1<<20)
	for i := 0; i < n; i++ {
		runtime.SimTraceN = 0
		res := Execute(MakePlan(id, base, idx), true)
		t := append([][3]uint64(nil), runtime.SimTrace[:runtime.SimTraceN]...)
		for j := range t {
			if i > 0 && (j >= len(tr) || t[j] != tr[j]) {
				fmt.Printf("first difference at event %d of %d and %d\n", j, len(tr), len(t))
				for k := max(0, j-12); k < j+8 && k < len(t) && k < len(tr); k++ {
					d := func(e [3]uint64) string {
						if e[0] == 2 || e[0] == 3 {
							f := runtime.FuncForPC(uintptr(e[1]))
							return fmt.Sprintf("%d g%d %s", e[0], e[2], f.Name())
						}
						if e[0] == 4 {
							return fmt.Sprintf("4 run g%d of %d", e[1]>>8, e[1]&255)
						}
						return fmt.Sprint(e)
					}
					fmt.Println("   ", d(tr[k]), "|", d(t[k]))
				}
				break
			}
		}
		tr = t
		if first != nil && first.Hash == res.Hash {
			continue
		}
		fmt.Printf("%d: %s %+v\n", i, res.Hash, res.Stats)
		if first == nil {
			first = res
			continue
		}
		for j := range res.Lines {
			if j >= len(first.Lines) || first.Lines[j] != res.Lines[j] {
				for k := max(0, j-5); k < j+5 && k < len(res.Lines) && k < len(first.Lines); k++ {
					fmt.Println("  1st:", first.Lines[k])
					fmt.Println("  now:", res.Lines[k])
				}
				break
			}
		}
	}
}
