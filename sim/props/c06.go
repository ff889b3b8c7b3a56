package props

import (
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

var chainReal = []string{"delivery.OrderedMessageProcessor", "delivery.MessageProcessor", "delivery.Producer", "cardinal-types Feed", "golang-lru"}
var chainStub = []string{"broker and network: the harness decides order, duplication and timing of delivery", "clock and scheduler: simulated"}

func init() {
	rule := "one run = a random block tree delivered to a real ordered processor in a random order with duplicates and pauses, under a random goroutine schedule, followed by a reference consumer; non-trivial = a reorg was emitted or a block arrived before its parent; a state = (blocks delivered, blocks emitted, tip)"
	reg := func(id, title string, gen func(r *core.Rand, p *core.Plan), mode string) {
		core.Register(&core.Prop{ID: id, Title: title, Gen: gen, Run: func(w *core.World) { runChain(w, mode) }, Rule: rule, Real: chainReal, Stub: chainStub,
			Floors: map[string]int64{"buf": 0, "slow": 0, "content": 0, "direct": 0, "wbase": 0, "empty": 0}})
	}
	reg("C06", "Chain updates always connect", genChain("C06"), "connect")
	reg("C07", "The consumer converges to the heaviest chain", genChain("C07"), "converge")
	reg("C08", "The head never moves to a lighter chain and reorgs are minimal", genChain("C08"), "weight")
	reg("C09", "Whitelisted heights exclude other branches", genChain("C09"), "whitelist")
}

func genChain(id string) func(r *core.Rand, p *core.Plan) {
	return func(r *core.Rand, p *core.Plan) {
		main := r.Pick(1, 2, 3, 5, 8, 14)
		forks := r.Pick(0, 1, 1, 2, 3, 5)
		maxf := r.Pick(1, 2, 4, 6)
		thr := int64(64)
		long := id != "C09" && r.P(1, 8)
		if long {
			// A long chain with a small threshold, so that eviction happens.
			main, forks, maxf = r.R(20, 60), r.Pick(0, 2, 4), r.Pick(2, 2, 4, 8)
			thr = int64(r.Pick(8, 12, 16))
		}
		start := 0
		if r.P(1, 3) && main > 2 && !long {
			start = r.R(1, minInt(main-1, 4))
		}
		p.P["start"] = int64(start)
		p.P["threshold"] = thr
		p.P["buf"] = int64(r.Pick(0, 0, 1, 100))
		p.P["slow"] = int64(r.Pick(0, 0, 1, 3))
		p.P["content"] = int64(r.Pick(0, 0, 2))
		p.P["direct"] = int64(r.Pick(0, 0, 1))
		p.P["base"] = int64(r.Pick(0, 1, 1000))
		p.P["wbase"] = int64(r.Pick(0, 0, 0, 1, 2, 3, 4, 5))
		ids := genTree(r, p, main, forks, maxf, 0)
		if long && r.P(1, 2) {
			// A fork close to the end that may overtake.
			k := r.R(2, int(thr)/2)
			par := main - k
			for i := r.R(1, k); i > 0; i-- {
				id := len(ids)
				p.Add("b", int64(id), int64(par), int64(r.Pick(1, 3, 10, 25, 25)))
				ids = append(ids, id)
				par = id
			}
		}
		// Delivery. Everything at or below the start is redelivered first or
		// not at all (a restarted consumer rolls back some, or none).
		win := r.Pick(0, 1, 3, len(ids))
		if start == 0 && !long && r.P(1, 4) {
			// Without a starting block; the chain begins with the first block seen.
			p.P["empty"], win = 1, 0
		}
		if long {
			win = r.Pick(0, 1, 3, int(thr)/4, int(thr)/2)
		}
		order := shuffled(r, ids, win)
		if long && r.P(1, 3) {
			// Forks come late, as a whole.
			lag := r.Pick(int(thr)/4, int(thr)/2)
			depth, key := map[int]int{}, map[int]int{}
			for _, op := range p.Ops {
				if op.K == "b" {
					x := int(op.Arg(0))
					if x > 0 {
						depth[x] = depth[int(op.Arg(1))] + 1
					}
					key[x] = depth[x]*16 + r.N(win*8+1)
					if x > main {
						key[x] += lag * 16
					}
				}
			}
			sort.SliceStable(order, func(i, j int) bool { return key[order[i]] < key[order[j]] })
		}
		replay := start > 0 || r.P(1, 2)
		p.P["replay"] = b2i(replay)
		pauses := r.P(1, 3)
		dups := r.Pick(0, 0, 5, 25)
		if id == "C09" {
			k := r.R(1, 3)
			for i := 0; i < k; i++ {
				p.Add("wl", int64(ids[r.N(len(ids))]))
			}
		}
		for i, x := range order {
			p.Add("d", int64(x))
			if r.P(dups, 100) {
				p.Add("d", int64(order[maxInt(0, i-r.N(6))]))
			}
			if pauses && r.P(1, 6) {
				p.Add("s", int64(r.Pick(1, 20, 300, 2000)))
			}
		}
		core.GenSim(r, p, true)
	}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func runChain(w *core.World, mode string) {
	p := w.Plan
	t := newTree()
	t.wbase = weightBase(p.P["wbase"])
	var wl []int
	for _, op := range p.Ops {
		switch op.K {
		case "b":
			t.add(int(op.Arg(0)), int(op.Arg(1)), op.Arg(2), p.P["base"])
		case "wl":
			wl = append(wl, int(op.Arg(0)))
		}
	}
	start := t.byID[int(p.P["start"])]
	if start == nil {
		start = t.byID[0]
	}
	if start == nil {
		return
	}
	white := map[uint64]types.Hash{}
	for _, id := range wl {
		// Whitelist blocks above the start, on one chain only.
		n := t.byID[id]
		if n == nil || n == start || !start.ancestorOf(n) {
			continue
		}
		compatible := true
		for num, h := range white {
			m := t.byHash[h]
			if int64(num) == n.num || !(m.ancestorOf(n) || n.ancestorOf(m)) {
				compatible = false
			}
		}
		if compatible {
			white[uint64(n.num)] = n.hash
			w.Probe("whitelisted")
		}
	}
	allowed := func(n *node) bool {
		h, ok := white[uint64(n.num)]
		return !ok || h == n.hash
	}
	cfg := &delivery.ConsumerConfig{
		LastEmittedNum: start.num, LastHash: start.hash, LastWeight: new(big.Int).Set(start.weight),
		ReorgThreshold: p.P["threshold"], TrackedPrefixes: regexps([]string{".*"}), Whitelist: white,
	}
	empty := p.P["empty"] == 1
	if empty {
		if start != t.byID[0] {
			return
		}
		w.Probe("no-starting-block")
		cfg.LastEmittedNum, cfg.LastHash, cfg.LastWeight = 0, types.Hash{}, new(big.Int)
	}
	omp, err := delivery.NewOrderedMessageProcessor(cfg)
	if err != nil {
		w.Fail("config", "valid configuration refused: %v", err)
		return
	}
	stop := make(chan struct{})
	ch := make(chan *delivery.ChainUpdate, p.P["buf"])
	sub := omp.Subscribe(ch)
	v := newView(t, start)
	if empty {
		v.chain, v.head = []types.Hash{start.phash}, big.NewInt(-1)
	}
	var classes []string
	fol := &follower{v: v, delay: func() time.Duration { return time.Duration(p.P["slow"]) * time.Millisecond }}
	fol.fail = func(c, s string) {
		classes = append(classes, c)
		switch mode {
		case "connect", "converge", "whitelist":
			if c == "weight-decreased" || c == "needless-reorg" {
				return
			}
			if mode == "whitelist" {
				return
			}
		case "weight":
			if c != "weight-decreased" && c != "needless-reorg" {
				return
			}
		}
		if mode == "converge" {
			return
		}
		w.Fail(c, "update %d: %s", v.seen, s)
	}
	go fol.run(ch, stop, true)

	dp, err := delivery.NewProducer(mainTopic, schemas[1])
	if err != nil {
		panic("refused what has to work: " + err.Error())
	}
	delivered := map[int]bool{}
	off := int64(0)
	deliver := func(n *node) bool {
		if p.P["direct"] == 1 {
			omp.ProcessCompleteBatch(&delivery.PendingBatch{Number: n.num, Weight: new(big.Int).Set(n.weight), ParentHash: n.phash, Hash: n.hash, Values: map[string][]byte{}, Deletes: map[string]struct{}{}})
		} else {
			upd := map[string][]byte{}
			for i := int64(0); i < p.P["content"]; i++ {
				upd[fmt.Sprintf("acct/%d", i)] = []byte{byte(n.id)}
			}
			for _, m := range headerMsgs(dp, n, upd) {
				off++
				if err := omp.ProcessMessage(m.at("t:0", off)); err != nil {
					w.Fail("rejected", "a well-formed message was rejected: %v", err)
					return false
				}
			}
		}
		return true
	}
	for _, op := range p.Ops {
		switch op.K {
		case "d":
			n := t.byID[int(op.Arg(0))]
			if n == nil {
				continue
			}
			if empty {
				// Parents first, as nothing else tells which blocks are connected.
				if n != start && (n.parent == nil || !delivered[n.parent.id]) {
					continue
				}
			} else if p.P["replay"] == 0 && !(start.ancestorOf(n) && n != start) {
				continue
			}
			if n.parent != nil && !delivered[n.parent.id] {
				w.Faults["before-parent"]++
				w.Probes["nontrivial"] = 1
			}
			if delivered[n.id] {
				w.Faults["duplicate"]++
			}
			delivered[n.id] = true
			w.Log("deliver %v", n)
			w.Step("deliver %v", n)
			if !deliver(n) {
				return
			}
			w.State(core.Mix(int64(len(delivered)), int64(len(fol.ups)), int64(len(v.chain)), int64(n.id)))
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		}
		if w.Failed() {
			return
		}
	}
	w.Calm()
	time.Sleep(2 * time.Second)
	for _, u := range fol.ups {
		if len(u.Removed()) > 0 {
			w.Probe("reorg")
			w.Probes["nontrivial"] = 1
		}
		if mode == "whitelist" {
			for _, pb := range u.Added() {
				n := t.byHash[pb.Hash]
				for m := n; m != nil && m != start; m = m.parent {
					if start.ancestorOf(m) && !allowed(m) {
						w.Fail("excluded-emitted", "%v was emitted although %v is excluded by the whitelist", n, m)
						return
					}
				}
			}
		}
	}
	w.Probes["updates"] += len(fol.ups)
	if mode == "converge" || mode == "whitelist" {
		// The heaviest chain reachable through what was delivered, starting
		// from the oldest delivered ancestor of the start.
		find := func() *node {
			root := start
			for root.parent != nil && delivered[root.id] && delivered[root.parent.id] {
				root = root.parent
			}
			best := heaviest(root, func(n *node) bool { return (delivered[n.id] || n == start) && (allowed(n) || n.ancestorOf(start)) })
			if best.weight.Cmp(start.weight) < 0 {
				best = start
			}
			return best
		}
		best := find()
		if empty && !delivered[start.id] {
			return
		}
		if !withinThreshold(t, best, int(p.P["threshold"])/2) {
			return
		}
		behind := func() bool {
			tip := t.byHash[v.tip()]
			return tip == nil || tip.weight.Cmp(best.weight) < 0
		}
		// When blocks from before the start were replayed, the processor may
		// need the chain to grow before it switches: grow it by two blocks.
		for k := 0; k < 2 && len(classes) == 0 && behind() && p.P["replay"] == 1; k++ {
			if _, ok := white[uint64(best.num+1)]; ok {
				return
			}
			n := t.add(100000+k, best.id, 1, p.P["base"])
			delivered[n.id] = true
			w.Log("extend %v", n)
			w.Probe("extended")
			if !deliver(n) {
				return
			}
			time.Sleep(2 * time.Second)
			best = find()
		}
		if len(classes) > 0 && mode == "converge" && classes[0] != "weight-decreased" && classes[0] != "needless-reorg" {
			// The updates did not even form a chain: the consumer is not on it.
			w.Fail("not-converged", "updates do not form a chain (%s); heaviest is %v", classes[0], best)
			return
		}
		if behind() {
			w.Fail("not-converged", "everything was delivered and the head stayed at %s; the heaviest chain ends at %v", v.nm(v.tip()), best)
			return
		}
		w.Probe("converged")
	}
	w.Step("Close")
	sub.Unsubscribe()
	close(stop)
	omp.Close()
}

// withinThreshold: every fork off the heaviest chain was settled within thr
// blocks, so that the history its resolution needs is still retained.
func withinThreshold(t *tree, best *node, thr int) bool {
	on := map[*node]bool{}
	var chain []*node
	for n := best; n != nil; n = n.parent {
		on[n] = true
		chain = append([]*node{n}, chain...)
	}
	for _, l := range t.nodes {
		if on[l] {
			continue
		}
		f := l
		for f != nil && !on[f] {
			f = f.parent
		}
		if f == nil {
			continue
		}
		if int(l.num-f.num) > thr {
			return false
		}
		settled := false
		for _, n := range chain {
			if n.num > f.num && n.weight.Cmp(l.weight) > 0 {
				if int(n.num-f.num) > thr {
					return false
				}
				settled = true
				break
			}
		}
		if !settled && l.weight.Cmp(best.weight) != 0 {
			return false
		}
	}
	return true
}
