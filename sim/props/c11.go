package props

import (
	"fmt"
	"math/big"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	real := append([]string{"waiter.NewOmpWaiter", "delivery.PendingBatch.Done", "delivery.ChainUpdate.Done"}, chainReal...)
	core.Register(&core.Prop{ID: "C11", Title: "Waiting for a block returns when it is applied", Gen: genWait("C11"), Run: runWait,
		Rule: "one run = blocks delivered to a real ordered processor with a waiter attached while many goroutines wait for hashes and numbers and the application applies blocks at its own pace; non-trivial = a wait was in progress when its block was applied; a state = (delivered, applied, outcome of a wait)",
		Real: real, Stub: chainStub, Floors: map[string]int64{"buf": 0, "slow": 0, "subs": 1, "direct": 0, "skip": 0, "content": 0, "pend": 0}})
	core.Register(&core.Prop{ID: "C12", Title: "Marking blocks applied is idempotent and safe from any number of subscribers", Gen: genWait("C12"), Run: runWait,
		Rule: "one run = blocks delivered to a real ordered processor with several subscribers, each of which marks each update and block applied one or more times from one or more goroutines, while others wait; non-trivial = a block was marked by two goroutines; a state = (delivered, applied, outcome of a wait)",
		Real: real, Stub: chainStub, Floors: map[string]int64{"buf": 0, "slow": 0, "subs": 1, "direct": 0, "skip": 0, "content": 0, "pend": 0}})
}

func genWait(id string) func(r *core.Rand, p *core.Plan) {
	return func(r *core.Rand, p *core.Plan) {
		ids := genTree(r, p, r.Pick(1, 3, 6, 10), r.Pick(0, 1, 3), 2, 0)
		p.P["direct"] = int64(r.Pick(0, 0, 1, 2))
		p.P["content"] = int64(r.N(2))
		p.P["buf"] = int64(r.Pick(0, 1, 100))
		p.P["slow"] = int64(r.Pick(0, 7, 150))
		p.P["skip"] = int64(r.Pick(0, 0, 30))
		p.P["pend"] = int64(r.Pick(0, 0, 1, 2)) // who applies: chain updates, batches, both
		p.P["subs"] = 1
		p.P["race"] = 0
		if id == "C12" {
			p.P["subs"] = int64(r.R(1, 4))
			p.P["race"] = int64(r.N(4))
			p.P["skip"] = 0
		}
		sleep := r.Pick(5, 50, 400, 3000)
		order := shuffled(r, ids, r.Pick(0, 0, 1, 3))
		waits := func(i int) {
			for k := r.N(4); k > 0; k-- {
				j := minInt(len(order)-1, maxInt(0, i-2+r.N(5)))
				what := "w"
				if r.P(2, 5) {
					what = "n"
				}
				p.Add(what, int64(order[j]), int64(r.Pick(1, 20, 300, 2000, 20000)))
				if r.P(1, 3) {
					p.Add("s", int64(r.R(1, sleep)))
				}
			}
		}
		stopAt := -1
		if r.P(1, 8) {
			stopAt = r.N(len(order))
		}
		for i, x := range order {
			waits(i)
			if i == stopAt {
				p.Add("x")
			}
			if r.P(1, 3) {
				p.Add("h", int64(x))
				waits(i)
			}
			p.Add("d", int64(x))
			if r.P(1, 2) {
				p.Add("s", int64(r.R(1, sleep)))
			}
			if r.P(1, 4) {
				p.Add("d", int64(order[r.N(i+1)]))
			}
		}
		waits(len(order) - 1)
		p.Add("s", int64(r.Pick(1, 500, 20000)))
		waits(len(order) - 1)
		if r.P(1, 10) {
			p.Add("s", 70000)
			waits(len(order) - 1)
		}
		core.GenSim(r, p, false)
	}
}

func runWait(w *core.World) {
	p := w.Plan
	t := newTree()
	for _, op := range p.Ops {
		if op.K == "b" {
			t.add(int(op.Arg(0)), int(op.Arg(1)), op.Arg(2), 500)
		}
	}
	root := t.byID[0]
	if root == nil {
		return
	}
	omp, err := delivery.NewOrderedMessageProcessor(&delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: 64, TrackedPrefixes: regexps([]string{".*"})})
	if err != nil {
		w.Fail("config", "valid configuration refused: %v", err)
		return
	}
	wt := waiter.NewOmpWaiter(omp)
	stop := make(chan struct{})

	// The history: when each block was announced and applied, in simulated
	// time. Nothing but timers takes simulated time in these runs.
	never := time.Duration(1<<62 - 1)
	ann := map[types.Hash]time.Duration{}     // a message announcing it was accepted
	applied := map[types.Hash]time.Duration{} // it was first marked applied
	stopped := never
	apply := func(pbs []*delivery.PendingBatch) {
		for _, pb := range pbs {
			if _, ok := applied[pb.Hash]; !ok {
				applied[pb.Hash] = w.Now()
				w.Log("applied %s", pbName(t, pb))
			}
		}
	}
	// markAll marks through f, possibly from several goroutines, repeatedly.
	markAll := func(f func()) {
		for i := int64(0); i < p.P["race"]; i++ {
			w.Faults["marked-concurrently"]++
			w.Probes["nontrivial"] = 1
			go f()
		}
		f()
		if p.P["race"] > 1 {
			f()
		}
	}
	skips := func(h types.Hash) bool { return int64(core.Mix(int64(h[1]), int64(h[2]))%100) < p.P["skip"] }
	for s := int64(0); s < p.P["subs"]; s++ {
		s := s
		if p.P["pend"] != 1 {
			ch := make(chan *delivery.ChainUpdate, p.P["buf"])
			omp.Subscribe(ch)
			go func() {
				for {
					select {
					case u := <-ch:
						if p.P["slow"] > 0 {
							time.Sleep(time.Duration(p.P["slow"]*(s+1)) * time.Millisecond)
						}
						if p.P["skip"] > 0 {
							for _, pb := range append(append([]*delivery.PendingBatch(nil), u.Added()...), u.Removed()...) {
								if !skips(pb.Hash) {
									apply([]*delivery.PendingBatch{pb})
									pb.Done()
								}
							}
							continue
						}
						apply(u.Added())
						apply(u.Removed())
						na, nr := len(u.Added()), len(u.Removed())
						markAll(func() { u.Done() })
						if len(u.Added()) != na || len(u.Removed()) != nr {
							w.Fail("changed", "marking an update applied changed it: %d/%d blocks became %d/%d", na, nr, len(u.Added()), len(u.Removed()))
						}
					case <-stop:
						return
					}
				}
			}()
		}
		if p.P["pend"] != 0 {
			ch := make(chan *delivery.PendingBatch, p.P["buf"])
			omp.Subscribe(ch)
			go func() {
				for {
					select {
					case pb := <-ch:
						if p.P["slow"] > 0 {
							time.Sleep(time.Duration(p.P["slow"]*(s+2)) * time.Millisecond)
						}
						if !skips(pb.Hash) {
							apply([]*delivery.PendingBatch{pb})
							markAll(func() { pb.Done() })
						}
					case <-stop:
						return
					}
				}
			}()
		}
	}

	type call struct {
		n          *node
		byNum      bool
		timeout    time.Duration
		start, end time.Duration
		res        waiter.WaitResult
		returned   bool
	}
	var calls []*call
	dp, err := delivery.NewProducer(mainTopic, schemas[1])
	if err != nil {
		panic("refused what has to work: " + err.Error())
	}
	off := int64(0)
	delivered := map[int]bool{}
	announce := func(n *node) {
		if _, ok := ann[n.hash]; !ok {
			ann[n.hash] = w.Now()
		}
	}
	give := func(m *Msg) bool {
		off++
		if err := omp.ProcessMessage(m.at("t:0", off)); err != nil {
			w.Fail("rejected", "a well-formed message was rejected: %v", err)
			return false
		}
		return true
	}
	for _, op := range p.Ops {
		n := t.byID[int(op.Arg(0))]
		switch op.K {
		case "h", "d":
			if n == nil || n == root {
				continue
			}
			direct := p.P["direct"] == 1 || (p.P["direct"] == 2 && (n.id+int(off))%2 == 0)
			if direct && op.K == "h" {
				continue
			}
			if delivered[n.id] {
				w.Faults["duplicate"]++
			}
			w.Step("%s %v", op.K, n)
			w.Log("%s %v", op.K, n)
			if direct {
				announce(n)
				omp.ProcessCompleteBatch(&delivery.PendingBatch{Number: n.num, Weight: new(big.Int).Set(n.weight), ParentHash: n.phash, Hash: n.hash, Values: map[string][]byte{}, Deletes: map[string]struct{}{}})
				off++
				delivered[n.id] = true
				continue
			}
			upd := map[string][]byte{}
			if p.P["content"] > 0 {
				upd["acct/1"] = []byte{byte(n.id)}
			}
			for _, m := range headerMsgs(dp, n, upd) {
				if op.K == "h" && delivery.MessageType(m.key[0]) != delivery.BatchType {
					continue
				}
				announce(n)
				if !give(m) {
					return
				}
			}
			if op.K == "d" {
				delivered[n.id] = true
			}
		case "w", "n":
			if n == nil || n == root {
				continue
			}
			c := &call{n: n, byNum: op.K == "n", timeout: time.Duration(maxInt(1, int(op.Arg(1)))) * time.Millisecond}
			calls = append(calls, c)
			go func() {
				c.start = w.Now()
				switch {
				case c.byNum:
					c.res = wt.WaitForNumberResult(c.n.num, c.timeout)
				default:
					c.res = wt.WaitForHashResult(c.n.hash, c.timeout)
				}
				c.end = w.Now()
				c.returned = true
				w.Log("wait %v %v %v: %v after %v", c.n, c.byNum, c.timeout, c.res, c.end-c.start)
			}()
		case "x":
			if stopped == never {
				stopped = w.Now()
				w.Step("Stop")
				w.Log("stop")
				w.Faults["waiter-stopped"]++
				wt.Stop()
			}
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		}
		if w.Failed() {
			return
		}
	}
	w.Step("waiting for the end of all waits")
	time.Sleep(60 * time.Second)
	for _, c := range calls {
		// When the block, or the first of its height, was announced and applied.
		a, d, late, unknown := never, never, never, c.start >= stopped
		for _, n := range t.nodes {
			if n != c.n && !(c.byNum && n.num == c.n.num) {
				continue
			}
			if x, ok := ann[n.hash]; ok && x < a {
				a = x
			}
			if x, ok := ann[n.hash]; ok && x >= stopped {
				unknown = true
			}
			if x, ok := applied[n.hash]; ok && x < d {
				d = x
			}
		}
		// Finished heights are remembered for a while only.
		for _, n := range t.nodes {
			if x, ok := applied[n.hash]; ok && n.num == c.n.num {
				y := x
				if !c.byNum && ann[c.n.hash] > y {
					y = ann[c.n.hash]
				}
				if y+45*time.Second < late {
					late = y + 45*time.Second
				}
			}
		}
		w.State(core.Mix(int64(len(ann)), int64(len(applied)), int64(c.res)))
		what := fmt.Sprintf("waiting %v for %v", c.timeout, c.n)
		if c.byNum {
			what = fmt.Sprintf("waiting %v for number %d", c.timeout, c.n.num)
		}
		what += fmt.Sprintf(" from %v", c.start)
		if !c.returned {
			w.Fail("never-returned", "%s never returned", what)
			return
		}
		const slack = 500 * time.Millisecond
		if c.end > c.start+c.timeout+slack {
			w.Fail("late-return", "%s returned only at %v", what, c.end)
			return
		}
		if unknown {
			continue
		}
		end := c.start + c.timeout
		var ok bool
		var expect string
		switch {
		case c.start < a:
			expect = "NotFound, it had not been announced"
			ok = c.res == waiter.NotFound && c.end <= c.start+slack
		case d < end:
			expect = fmt.Sprintf("Success, it was applied at %v", d)
			at := d
			if c.start > at {
				at = c.start
			}
			ok = c.res == waiter.Success && c.end >= d && c.end <= at+slack
			if d > c.start {
				w.Probes["nontrivial"] = 1
				w.Probe("applied-while-waiting")
			}
		case d == end:
			expect = "Success or Timeout"
			ok = c.res != waiter.NotFound
		default:
			expect = "Timeout, it was not applied by then"
			ok = c.res == waiter.Timeout && c.end >= end
		}
		if c.start == a || c.start > late {
			ok = ok || c.res == waiter.NotFound
		}
		if !ok {
			w.Fail("wrong-result", "%s returned %v at %v; expected %s (announced %v)", what, []string{"Success", "Timeout", "NotFound"}[c.res], c.end, expect, a)
			return
		}
	}
	close(stop)
	omp.Close()
}
