package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Finding is an entry of known_findings.json.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Line     string `json:"line"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
	Class    string `json:"class,omitempty"`
	Plan     *Plan  `json:"plan,omitempty"`
}

type outcome struct {
	plan  *Plan
	err   string // trouble that is not a verdict
	class string
}

const repoPkg = "github.com/openrelayxyz/cardinal-streams/v2/"

// crashVerdict decides whether a crashed process shows a crash of the code
// under test. It looks at the first goroutine of the dump.
func crashVerdict(stderr string) (bool, string, string) {
	lines := strings.Split(stderr, "\n")
	head, first := "", -1
	for i, l := range lines {
		if head == "" && (strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ")) {
			head = l
		}
		if head != "" && first < 0 && strings.HasPrefix(l, "goroutine ") {
			first = i
		}
	}
	if head == "" || strings.Contains(head, "HARNESS") || strings.Contains(head, "out of memory") {
		return false, "", Short(stderr, 1500)
	}
	if first < 0 {
		return false, head, Short(stderr, 1500)
	}
	// A scenario that panics because of what it was given (nil instead of a
	// consumer, an error for a valid schema) shows that as well.
	given := strings.Contains(head, "refused what has to work") || strings.Contains(head, "nil pointer dereference")
	repo, where := false, []string{}
	for _, l := range lines[first+1:] {
		if l == "" {
			break
		}
		if strings.HasPrefix(l, repoPkg) || strings.HasPrefix(l, "created by "+repoPkg) {
			repo = true
		}
		if given && strings.HasPrefix(l, "verif/sim/props.") {
			repo = true
		}
		if !strings.HasPrefix(l, "\t") && len(where) < 12 {
			if i := strings.LastIndex(l, "("); i > 0 && !strings.HasPrefix(l, "created by") {
				l = l[:i]
			}
			where = append(where, l)
		}
	}
	head = regexp.MustCompile(`0x[0-9a-f]+`).ReplaceAllString(head, "0x..")
	head = regexp.MustCompile(`\[recovered[^\]]*\]`).ReplaceAllString(head, "")
	return repo, head, head + " in " + strings.Join(where, " < ")
}

// runOne executes a plan in a fresh process.
func runOne(self string, p *Plan, tmp string, name string) (class, detail, hash, trouble string, lines []string) {
	f := filepath.Join(tmp, name)
	js, _ := json.Marshal(p)
	if err := os.WriteFile(f, js, 0644); err != nil {
		return "", "", "", err.Error(), nil
	}
	defer os.Remove(f)
	cmd := exec.Command(self, "one", f)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limited{b: &se, n: 1 << 20}
	if err := cmd.Start(); err != nil {
		return "", "", "", err.Error(), nil
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		return "", "", "", "real-time limit", nil
	}
	if err != nil {
		repo, head, det := crashVerdict(se.String())
		if !repo {
			return "", "", "", det, nil
		}
		return "crash", det, fmt.Sprintf("%016x", Mix(int64(len(head)))), "", nil
	}
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "O ") {
			var o struct {
				Viol  []Violation
				Hash  string
				Lines []string
			}
			if err := json.Unmarshal([]byte(l[2:]), &o); err != nil {
				return "", "", "", err.Error(), nil
			}
			if len(o.Viol) == 0 {
				return "", "", o.Hash, "", o.Lines
			}
			return o.Viol[0].Class, o.Viol[0].Detail, o.Hash, "", o.Lines
		}
	}
	return "", "", "", "no result line", nil
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if k := l.n - l.b.Len(); k > 0 {
		if len(p) < k {
			k = len(p)
		}
		l.b.Write(p[:k])
	}
	return len(p), nil
}

// worker runs one chunk in a subprocess.
func runChunk(self, id string, base uint64, from, to int, hashes bool, stop <-chan struct{}) (*Summary, *Plan, string, []*Plan) {
	args := []string{"worker", id, strconv.FormatUint(base, 10), strconv.Itoa(from), strconv.Itoa(to)}
	if hashes {
		args = append(args, "hashes")
	}
	cmd := exec.Command(self, args...)
	var se bytes.Buffer
	cmd.Stderr = &limited{b: &se, n: 1 << 20}
	so, err := cmd.StdoutPipe()
	if err != nil {
		return nil, nil, err.Error(), nil
	}
	if err := cmd.Start(); err != nil {
		return nil, nil, err.Error(), nil
	}
	var mu sync.Mutex
	killed, hung := false, false
	lastLine := time.Now()
	done := make(chan struct{})
	go func() {
		tk := time.NewTicker(200 * time.Millisecond)
		defer tk.Stop()
		for {
			select {
			case <-done:
				return
			case <-stop:
				mu.Lock()
				killed = true
				mu.Unlock()
				cmd.Process.Kill()
				return
			case <-tk.C:
				mu.Lock()
				h := time.Since(lastLine) > 90*time.Second
				if h {
					hung = true
				}
				mu.Unlock()
				if h {
					cmd.Process.Kill()
					return
				}
			}
		}
	}()
	last := -1
	var sum *Summary
	var viol *Plan
	var viols []*Plan
	rd := bufio.NewReaderSize(so, 1<<20)
	for {
		line, err := rd.ReadString('\n')
		mu.Lock()
		lastLine = time.Now()
		mu.Unlock()
		if strings.HasPrefix(line, "S ") {
			last, _ = strconv.Atoi(strings.TrimSpace(line[2:]))
		} else if strings.HasPrefix(line, "V ") {
			rest := line[2:]
			viol = &Plan{}
			if e := json.Unmarshal([]byte(rest[strings.Index(rest, " ")+1:]), viol); e != nil {
				return nil, nil, "bad V line: " + e.Error(), nil
			}
			viols = append(viols, viol)
		} else if strings.HasPrefix(line, "R ") {
			sum = &Summary{}
			if e := json.Unmarshal([]byte(line[2:]), sum); e != nil {
				return nil, nil, "bad R line: " + e.Error(), nil
			}
		}
		if err != nil {
			if err != io.EOF {
				break
			}
			break
		}
	}
	err = cmd.Wait()
	close(done)
	mu.Lock()
	defer mu.Unlock()
	if killed {
		return nil, nil, "", nil
	}
	if hung {
		return nil, nil, fmt.Sprintf("run %d of %s took more than 90 s of real time", last, id), nil
	}
	if err != nil {
		repo, _, det := crashVerdict(se.String())
		if !repo {
			return nil, nil, fmt.Sprintf("run %d of %s: worker failed (%v): %s", last, id, err, det), nil
		}
		p := MakePlan(id, base, last)
		p.Class, p.Detail = "crash", det
		return nil, p, "", []*Plan{p}
	}
	return sum, viol, "", viols
}

// Check is the registered command: search within a time budget, report.
func Check(id, tier string, base uint64, verif string, budget time.Duration, workers int) int {
	began := time.Now()
	prop := Props[id]
	if prop == nil {
		fmt.Fprintln(os.Stderr, "HARNESS: unknown property", id)
		return 3
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		return 3
	}
	fmt.Printf("%s: seed %d, tier %s, budget %s, %d workers\n", id, base, tier, budget, workers)
	tmp, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		return 3
	}
	defer os.RemoveAll(tmp)

	// Recorded findings first.
	finds := loadFindings(verif)
	for i, f := range finds {
		if f.Property != id || f.Status != "known" || f.Plan == nil {
			continue
		}
		class, detail, _, trouble, _ := runOne(self, f.Plan, tmp, fmt.Sprintf("known%d.json", i))
		if trouble != "" {
			fmt.Fprintln(os.Stderr, "HARNESS: known finding:", trouble)
			return 3
		}
		if class == f.Class {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
		} else if class != "" {
			p := f.Plan.Clone()
			p.Class, p.Detail = class, detail
			return report(self, p, tmp, verif, base, tier, began, newAgg(), prop, workers)
		}
	}

	agg := newAgg()
	var mu sync.Mutex
	next := 0
	stop := make(chan struct{})
	var found *Plan
	foundIdx := -1
	trouble := ""
	end := began.Add(budget)
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if found != nil || trouble != "" || time.Now().After(end) {
					mu.Unlock()
					return
				}
				from := next
				n := 400
				if from == 0 {
					n = 40
				}
				next += n
				mu.Unlock()
				for from >= 0 {
					to := from + n
					sum, viol, tr, _ := runChunk(self, id, base, from, to, false, stop)
					mu.Lock()
					if sum != nil {
						agg.add(sum)
					}
					if tr != "" && trouble == "" {
						trouble = tr
					}
					if viol != nil && found == nil {
						found, foundIdx = viol, from
						close(stop)
					}
					quit := found != nil || trouble != "" || time.Now().After(end)
					mu.Unlock()
					if quit {
						return
					}
					if sum != nil && sum.To < to {
						n = to - sum.To
						from = sum.To
						continue
					}
					break
				}
			}
		}()
	}
	wg.Wait()
	_ = foundIdx
	agg.wall = time.Since(began)
	if found != nil {
		return report(self, found, tmp, verif, base, tier, began, agg, prop, workers)
	}
	if trouble != "" {
		fmt.Fprintln(os.Stderr, "HARNESS:", trouble)
		return 3
	}
	if agg.runs == 0 {
		fmt.Fprintln(os.Stderr, "HARNESS: no run completed")
		return 3
	}
	writeEvidence(verif, id, tier, base, agg, prop, workers, began, nil)
	fmt.Printf("%s: held on %d simulated runs (%d schedules, %d states), %s simulated, in %.1fs\n", id, agg.runs, len(agg.scheds), len(agg.states), time.Duration(agg.simNS).Round(time.Second), time.Since(began).Seconds())
	return 0
}

func report(self string, p *Plan, tmp, verif string, base uint64, tier string, began time.Time, agg *aggregate, prop *Prop, workers int) int {
	fmt.Printf("%s: violation %s: %s\n", p.Prop, p.Class, Short(p.Detail, 600))
	fmt.Printf("minimising\n")
	orig := p
	small, tries := Shrink(self, p, tmp, workers, 60*time.Second)
	class, detail, hash, trouble, lines := runOne(self, small, tmp, "final.json")
	if trouble != "" || class != p.Class {
		small = orig
		class, detail, hash, trouble, lines = runOne(self, small, tmp, "final.json")
	}
	if trouble != "" {
		fmt.Fprintln(os.Stderr, "HARNESS: replay:", trouble)
		return 3
	}
	if class == "" {
		fmt.Fprintln(os.Stderr, "HARNESS: the violation did not reproduce in a fresh process:", p.Class, p.Detail)
		js, _ := json.Marshal(p)
		fmt.Fprintln(os.Stderr, string(js))
		return 3
	}
	small.Class, small.Detail, small.Hash = class, detail, hash
	if len(lines) > 400 {
		lines = lines[len(lines)-400:]
	}
	small.Note = lines
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0755)
	js, _ := json.MarshalIndent(small, "", " ")
	file := filepath.Join(dir, fmt.Sprintf("%s-%x.json", p.Prop, Mix(int64(len(js)), int64(small.Seed))))
	if err := os.WriteFile(file, js, 0644); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		return 3
	}
	agg.wall = time.Since(began)
	writeEvidence(verif, p.Prop, tier, base, agg, prop, workers, began, small)
	fmt.Printf("%s: minimised from %d to %d steps in %d trials: %s: %s\n", p.Prop, len(orig.Ops), len(small.Ops), tries, class, Short(detail, 1000))
	fmt.Printf("replay with: %s/check.sh replay %s\n", verif, file)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.Prop, file)
	return 1
}

func loadFindings(verif string) []Finding {
	data, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct{ Findings []Finding }
	if err := json.Unmarshal(data, &f); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS: known_findings.json:", err)
		os.Exit(3)
	}
	return f.Findings
}

// ---- aggregation and evidence ----------------------------------------------

type aggregate struct {
	runs, events, nontrivial int
	faults, probes, runf     map[string]int
	states, scheds           map[uint64]struct{}
	simNS                    int64
	steps, yields, stalls    uint64
	choices, maxrun, maxg    uint64
	sites, pairs             []uint64
	samples                  []string
	wall                     time.Duration
	chunks                   int
}

func newAgg() *aggregate {
	return &aggregate{faults: map[string]int{}, probes: map[string]int{}, runf: map[string]int{}, states: map[uint64]struct{}{}, scheds: map[uint64]struct{}{}}
}

func (a *aggregate) add(s *Summary) {
	a.chunks++
	a.runs += s.Runs
	a.events += s.Events
	a.nontrivial += s.Nontrivial
	for k, v := range s.Faults {
		a.faults[k] += v
	}
	for k, v := range s.Probes {
		a.probes[k] += v
	}
	for k, v := range s.RunFaults {
		a.runf[k] += v
	}
	for _, h := range s.States {
		if len(a.states) < 5000000 {
			a.states[h] = struct{}{}
		}
	}
	for _, h := range s.Scheds {
		if len(a.scheds) < 5000000 {
			a.scheds[h] = struct{}{}
		}
	}
	a.simNS += s.SimNS
	a.steps += s.Steps
	a.yields += s.Yields
	a.stalls += s.Stalls
	a.choices += s.Choices
	if s.MaxRun > a.maxrun {
		a.maxrun = s.MaxRun
	}
	if s.MaxG > a.maxg {
		a.maxg = s.MaxG
	}
	or := func(d *[]uint64, x []uint64) {
		if *d == nil {
			*d = make([]uint64, len(x))
		}
		for i := range x {
			(*d)[i] |= x[i]
		}
	}
	or(&a.sites, s.Sites)
	or(&a.pairs, s.Pairs)
	if len(a.samples) < 3 {
		a.samples = append(a.samples, s.Samples...)
	}
}

func popcount(x []uint64) int {
	n := 0
	for _, v := range x {
		n += bits.OnesCount64(v)
	}
	return n
}

func writeEvidence(verif, id, tier string, base uint64, a *aggregate, prop *Prop, workers int, began time.Time, viol *Plan) {
	wall := time.Since(began).Seconds()
	if len(a.samples) == 0 {
		a.samples = []string{"(none)"}
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(a.runs) / wall * 3600
	}
	cov := map[string]interface{}{
		"evaluations":             a.runs,
		"distinct_nontrivial":     min(a.nontrivial, len(a.scheds)),
		"rule":                    prop.Rule,
		"samples":                 a.samples,
		"seeds_per_hour":          int(perHour),
		"simulated_seconds":       float64(a.simNS) / 1e9,
		"fault_injections":        a.faults,
		"runs_with_fault":         a.runf,
		"probes":                  a.probes,
		"distinct_interleavings":  len(a.scheds),
		"distinct_states":         len(a.states),
		"interleaving_measure":    "hash of every scheduling decision with more than one candidate, of the statement count and of the event count, per run",
		"state_measure":           "abstract states recorded by the scenario (see rule)",
		"events":                  a.events,
		"statements_executed":     a.steps,
		"forced_yields":           a.yields,
		"injected_stalls":         a.stalls,
		"schedule_choices":        a.choices,
		"max_runnable_goroutines": a.maxrun,
		"statements_reached":      popcount(a.sites),
		"statement_switch_pairs":  popcount(a.pairs),
		"worker_processes":        workers,
		"real_components":         prop.Real,
		"simulated_components":    prop.Stub,
	}
	nv := 0
	if viol != nil {
		nv = 1
		cov["violation"] = map[string]string{"class": viol.Class, "detail": viol.Detail}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": int64(base), "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": nv,
		"assumptions": []string{
			"interleavings at statement granularity on one processor: no weak-memory effects",
			"the components listed under simulated_components behave like the real ones they stand for",
		},
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(js, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
}

// Determinism runs the same seeds several times in different chunkings and
// compares the hashes.
func Determinism(id string, base uint64, n, workers int) int {
	self, _ := os.Executable()
	pass := func(chunk, par int) (map[int]string, string) {
		res := map[int]string{}
		var mu sync.Mutex
		trouble := ""
		sem := make(chan struct{}, par)
		var wg sync.WaitGroup
		for from := 0; from < n; from += chunk {
			wg.Add(1)
			sem <- struct{}{}
			go func(from int) {
				defer wg.Done()
				defer func() { <-sem }()
				to := from + chunk
				for from < to {
					s, _, tr, _ := runChunk(self, id, base, from, to, true, nil)
					mu.Lock()
					if s == nil {
						trouble = tr
						mu.Unlock()
						return
					}
					for k, v := range s.Hashes {
						res[k] = v
					}
					mu.Unlock()
					from = s.To
				}
			}(from)
		}
		wg.Wait()
		return res, trouble
	}
	a, tr := pass(50, workers)
	b, tr2 := pass(17, 3)
	if tr+tr2 != "" {
		fmt.Println(tr, tr2)
	}
	bad := []int{}
	for k, v := range a {
		if b[k] != v {
			bad = append(bad, k)
		}
	}
	sort.Ints(bad)
	fmt.Printf("%s: %d runs compared, %d differ", id, len(a), len(bad))
	if len(bad) > 0 {
		fmt.Printf(": %v", bad[:min(len(bad), 20)])
	}
	fmt.Println()
	if len(bad) > 0 || len(a) == 0 {
		return 3
	}
	return 0
}

// Replay runs a replay file and reports whether it fails as recorded.
func Replay(file string) int {
	self, _ := os.Executable()
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		return 3
	}
	p := &Plan{}
	if err := json.Unmarshal(data, p); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		return 3
	}
	tmp, _ := os.MkdirTemp("", "simreplay")
	defer os.RemoveAll(tmp)
	class, detail, hash, trouble, lines := runOne(self, p, tmp, "p.json")
	for _, l := range lines {
		fmt.Println(l)
	}
	if trouble != "" {
		fmt.Fprintln(os.Stderr, "HARNESS:", trouble)
		return 3
	}
	if class == "" {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("%s: %s\nhash %s (recorded %s)\n", class, detail, hash, p.Hash)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.Prop, file)
	return 1
}
