// simbuild prepares the overlay under which the simulation harness is built:
//   - a Go runtime whose scheduler, select, timers, map iteration and random
//     sources are driven by one seed while a simulation runs;
//   - a cardinal-rpc whose listener and signal handling go through a seam;
//   - the packages under test from /repo, with a scheduling point before every
//     statement.
//
// Nothing outside the output directory is written.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type repl struct{ old, new string }

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simbuild: "+f+"\n", a...)
	os.Exit(3)
}

var overlay = map[string]string{}
var out string

func emit(orig, name string, data []byte) {
	p := filepath.Join(out, name)
	if old, err := os.ReadFile(p); err != nil || string(old) != string(data) {
		if err := os.WriteFile(p, data, 0644); err != nil {
			die("%v", err)
		}
	}
	overlay[orig] = p
}

// patch applies every replacement, each of which must match exactly `want`
// times (1 unless the pattern starts with a count).
func patch(file, name string, rs ...repl) {
	data, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	s := string(data)
	for _, r := range rs {
		if c := strings.Count(s, r.old); c != 1 {
			die("%s: pattern %q found %d times, want 1", file, r.old, c)
		}
		s = strings.Replace(s, r.old, r.new, 1)
	}
	emit(file, name, []byte(s))
}

var rpcOut string
var pending = map[string]string{}

func write(f, data string) { pending[f] = data }

func rewrite(f, old, new string) {
	s, ok := pending[f]
	if !ok || strings.Count(s, old) != 1 {
		die("%s: pattern %q not found once", f, old)
	}
	pending[f] = strings.Replace(s, old, new, 1)
}

// copyTree queues the non-test Go sources and go.mod of a module.
func copyTree(from, to string) {
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		if strings.HasSuffix(p, "_test.go") || !(strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "go.mod") || strings.HasSuffix(p, "go.sum")) {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		write(filepath.Join(to, rel), string(data))
		return nil
	})
	if err != nil {
		die("%v", err)
	}
}

func main() {
	if len(os.Args) < 6 {
		die("usage: simbuild GOROOT RTDIR MODCACHE OUTDIR REPO")
	}
	goroot, rtdir, modcache := os.Args[1], os.Args[2], os.Args[3]
	rpc := filepath.Join(modcache, "github.com/openrelayxyz/cardinal-rpc@v1.1.0")
	sarama := filepath.Join(modcache, "github.com/!shopify/sarama@v1.28.0")
	out = os.Args[4]
	if err := os.MkdirAll(out, 0755); err != nil {
		die("%v", err)
	}
	rt := filepath.Join(goroot, "src/runtime")
	z, err := os.ReadFile(filepath.Join(rtdir, "zsim.go.txt"))
	if err != nil {
		die("%v", err)
	}
	emit(filepath.Join(rt, "zsim.go"), "rt_zsim.go", z)
	patch(filepath.Join(rt, "rand.go"), "rt_rand.go",
		repl{"	seed := &globalRand.seed\n	if len(startupRand)", "	seed := &globalRand.seed\n	startupRand = nil\n	for i := range seed {\n		seed[i] = byte(i*7 + 1)\n	}\n	if true {\n	} else if len(startupRand)"},
		// Creating a map must not consume randomness: caches that are filled
		// once per process would make later choices depend on earlier runs.
		repl{"func rand() uint64 {\n", "func rand() uint64 {\n	if simOn && getg().bubble != nil {\n		return simmix(simOpt.Seed ^ 6)\n	}\n"},
		repl{"func maps_rand() uint64 {\n	return rand()\n", "func maps_rand() uint64 {\n	return simIterRand()\n"},
	)
	patch(filepath.Join(rt, "select.go"), "rt_select.go",
		repl{"		j := cheaprandn(uint32(norder + 1))\n", "		j := cheaprandn(uint32(norder + 1))\n		if simOn && gp.bubble != nil {\n			j = simrandn(&simSel, uint32(norder+1))\n		}\n"},
	)
	patch(filepath.Join(rt, "time.go"), "rt_time.go",
		repl{"	rand    uint32 // randomizes", "	simid   uint64\n	rand    uint32 // randomizes"},
		repl{"		t.isFake = true\n	}\n	t.modify(", "		t.isFake = true\n		if simOn {\n			simTimers++\n			t.simid = simTimers\n		}\n	}\n	t.modify("},
		// Not from a stream: a select adds its timers in an order that depends
		// on addresses.
		repl{"			t.rand = cheaprand()\n", "			t.rand = cheaprand()\n			if simOn {\n				t.rand = simTimerRand(t)\n			}\n"},
	)
	patch(filepath.Join(rt, "sema.go"), "rt_sema.go",
		repl{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if simOn && getg().bubble != nil {\n		return getg().bubble.now\n	}\n"},
	)
	patch(filepath.Join(rt, "runtime2.go"), "rt_runtime2.go",
		// No overflow into the global queue, whose goroutines could not be picked.
		repl{"	runq     [256]guintptr\n", "	runq     [4096]guintptr\n"},
		repl{"	bubble  *synctestBubble\n", "	bubble  *synctestBubble\n	simid   uint64\n"},
		repl{"	waitReasonSyncCondWait:          true,\n", "	waitReasonSyncCondWait:          true,\n	waitReasonSemacquire:            true,\n	waitReasonSyncMutexLock:         true,\n	waitReasonSyncRWMutexRLock:      true,\n	waitReasonSyncRWMutexLock:       true,\n	waitReasonSyncWaitGroupWait:     true,\n"},
	)
	patch(filepath.Join(rt, "proc.go"), "rt_proc.go",
		repl{"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if simOn {\n		next = false\n	}\n"},
		repl{"func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n	if simOn {\n		return simrunqget(pp), false\n	}\n"},
		repl{"	if pp.schedtick%61 == 0 && !sched.runq.empty() {\n		lock(&sched.lock)\n		gp := globrunqget()", "	if !simOn && pp.schedtick%61 == 0 && !sched.runq.empty() {\n		lock(&sched.lock)\n		gp := globrunqget()"},
		repl{"batch *[256]guintptr", "batch *[4096]guintptr"},
		repl{"	var batch [len(pp.runq)/2 + 1]*g\n", "	var batch [128 + 1]*g\n"},
		repl{"	n = n / 2\n	if n != uint32(len(pp.runq)/2) {\n		throw(\"runqputslow: queue is not full\")\n	}\n", "	n = 128\n"},
		repl{"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if simOn {\n		return 0\n	}\n"},
		repl{"	if preempted && sched.gcwaiting.Load() {\n		// If preempted", "	if simOn && gp.bubble != nil {\n		runqput(pp, gp, false)\n	} else if preempted && sched.gcwaiting.Load() {\n		// If preempted"},
		repl{"	newg.goid = pp.goidcache\n	casgstatus(newg, _Gdead, status)\n", "	newg.goid = pp.goidcache\n	simnewg(newg)\n	casgstatus(newg, _Gdead, status)\n"},
	)
	// Seeds drawn when a process-wide table is first used.
	for f, old := range map[string]string{"internal/sync/hashtriemap.go": "ht.seed = uintptr(runtime_rand())", "unique/canonmap.go": "cm.seed = uintptr(runtime_rand())"} {
		patch(filepath.Join(goroot, "src", f), "std_"+strings.ReplaceAll(f, "/", "_"), repl{old, strings.Replace(old, "runtime_rand()", "0x9e3779b97f4a7c15", 1)})
	}
	for _, f := range []string{"math/rand/rand.go", "math/rand/v2/rand.go"} {
		patch(filepath.Join(goroot, "src", f), "std_"+strings.ReplaceAll(f, "/", "_"), repl{"//go:linkname runtime_rand runtime.rand\n", "//go:linkname runtime_rand runtime.simRand\n"})
	}
	maps := filepath.Join(goroot, "src/internal/runtime/maps")
	nmap := 0
	for _, f := range []string{"map.go", "runtime.go", "runtime_fast32.go", "runtime_fast64.go", "runtime_faststr.go"} {
		data, err := os.ReadFile(filepath.Join(maps, f))
		if err != nil {
			die("%v", err)
		}
		const mark = "	m.writing ^= 1 // toggle, see comment on writing\n"
		s := string(data)
		nmap += strings.Count(s, mark)
		s = strings.ReplaceAll(s, mark, mark+"	simMapYield()\n")
		s = strings.ReplaceAll(s, "m.seed = uintptr(rand())", "m.seed = uintptr(simMapSeed())")
		if f == "runtime.go" {
			const m2 = "//go:linkname rand\nfunc rand() uint64\n"
			if strings.Count(s, m2) != 1 {
				die("maps/runtime.go: no rand declaration")
			}
			s = strings.Replace(s, m2, m2+"\n//go:linkname simMapYield\nfunc simMapYield()\n\n//go:linkname simMapSeed\nfunc simMapSeed() uint64\n", 1)
		}
		emit(filepath.Join(maps, f), "maps_"+f, []byte(s))
	}
	if nmap < 6 {
		die("only %d map write sites found", nmap)
	}

	// cardinal-rpc: a copy with a listener and signal seam, which the harness's
	// go.mod points at (the module cache cannot be overlaid).
	rpcOut = filepath.Join(out, "cardinal-rpc")
	copyTree(rpc, rpcOut)
	rewrite(filepath.Join(rpcOut, "transports/websockets.go"), "ws.s.ListenAndServe()", "SimListen(ws.s)")
	rewrite(filepath.Join(rpcOut, "transports/manager.go"), "signal.Notify(sigs, syscall.SIGINT, syscall.SIGTERM)\n", "_, _ = signal.Notify, syscall.SIGINT\n")
	write(filepath.Join(rpcOut, "transports/zsim.go"), `package transports

import "net/http"

// SimListen stands in for (*http.Server).ListenAndServe.
var SimListen = func(s *http.Server) error { return s.ListenAndServe() }
`)
	// Its registry keeps track of subscriptions in maps it does not protect,
	// which crashes servers (see DESIGN.md, known limitations).
	const counter, cancels, gone = "subid := reg.subscriptionCounter[cctx.ctx]\n", "= context.WithCancel(cctx.ctx)\n", "\tdelete(reg.subscriptionCancels, ctx)\n"
	rewrite(filepath.Join(rpcOut, "registry.go"), counter, "simMu.Lock()\n\t"+counter)
	rewrite(filepath.Join(rpcOut, "registry.go"), cancels, cancels+"\tsimMu.Unlock()\n")
	rewrite(filepath.Join(rpcOut, "registry.go"), gone, "\tsimMu.Lock()\n\tdefer simMu.Unlock()\n"+gone)
	write(filepath.Join(rpcOut, "zsim.go"), `package rpc

import "sync"

var simMu sync.Mutex

// SimReset makes call identifiers start over.
func SimReset() { globalId, simMu = 0, sync.Mutex{} }
`)
	// sarama: a copy with a dialling seam.
	sarOut := filepath.Join(out, "sarama")
	copyTree(sarama, sarOut)
	rewrite(filepath.Join(sarOut, "broker.go"), "dialer.Dial(\"tcp\", b.addr)", "SimDial(dialer, \"tcp\", b.addr)")
	// Maps keyed by pointers iterate in an order that depends on addresses.
	cf := filepath.Join(sarOut, "consumer.go")
	const subs = "for child := range bc.subscriptions {"
	if strings.Count(pending[cf], subs) != 5 {
		die("%s: %q not found 5 times", cf, subs)
	}
	write(cf, strings.ReplaceAll(pending[cf], subs, "for _, child := range simChildren(bc.subscriptions) {"))
	sz, err := os.ReadFile(filepath.Join(rtdir, "sarama_zsim.go.txt"))
	if err != nil {
		die("%v", err)
	}
	write(filepath.Join(sarOut, "zsim.go"), string(sz))
	// The parts of cardinal-rpc that a websocket subscription runs through.
	var sites []string
	for _, f := range []string{"registry.go", "transports/websockets.go"} {
		f = filepath.Join(rpcOut, f)
		out, ok := yields(f, []byte(pending[f]), &sites)
		if !ok {
			die("%s: cannot be instrumented", f)
		}
		write(f, string(out))
	}
	for f, data := range pending {
		if old, err := os.ReadFile(f); err == nil && string(old) == data {
			continue
		}
		if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(f, []byte(data), 0644); err != nil {
			die("%v", err)
		}
	}

	// The code under test.
	repo := os.Args[5]
	for _, top := range []string{"delivery", "transports", "waiter"} {
		var files []string
		filepath.Walk(filepath.Join(repo, top), func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				files = append(files, p)
			}
			return nil
		})
		sort.Strings(files)
		for _, f := range files {
			instrument(repo, f, &sites)
		}
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), js, 0644); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("simbuild: %d scheduling points\n", len(sites))
}

func instrument(repo, file string, sites *[]string) {
	src, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	out, ok := yields(file, src, sites)
	if !ok {
		return
	}
	rel, _ := filepath.Rel(repo, file)
	emit(file, "sut_"+strings.ReplaceAll(rel, "/", "_"), out)
}

// yields puts a scheduling point before each statement.
func yields(file string, src []byte, sites *[]string) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		// Leave it to the compiler to report.
		return nil, false
	}
	type ins struct {
		off  int
		text string
	}
	var inss []ins
	add := func(pos token.Pos, tail string) {
		p := fset.Position(pos)
		*sites = append(*sites, fmt.Sprintf("%s:%d", filepath.Base(filepath.Dir(file))+"/"+filepath.Base(file), p.Line))
		inss = append(inss, ins{fset.File(pos).Offset(pos), fmt.Sprintf("simrt_.SimYield(%d);%s", len(*sites), tail)})
	}
	block := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(s.Pos(), " ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt:
			// A switch or select body holds clauses, not statements.
			if len(v.List) > 0 {
				switch v.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			block(v.List)
		case *ast.CaseClause:
			block(v.Body)
		case *ast.CommClause:
			block(v.Body)
		case *ast.ForStmt:
			if len(v.Body.List) == 0 {
				add(v.Body.Lbrace+1, "")
			}
		case *ast.RangeStmt:
			if len(v.Body.List) == 0 {
				add(v.Body.Lbrace+1, "")
			}
		}
		return true
	})
	if len(inss) == 0 {
		return nil, false
	}
	inss = append(inss, ins{fset.File(f.Name.End()).Offset(f.Name.End()), "; import simrt_ \"runtime\""})
	sort.SliceStable(inss, func(i, j int) bool { return inss[i].off < inss[j].off })
	var b strings.Builder
	last := 0
	for _, i := range inss {
		b.Write(src[last:i.off])
		b.WriteString(i.text)
		last = i.off
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}
