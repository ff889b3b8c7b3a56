package props

import (
	"bytes"
	"math/big"
	"runtime"
	"time"
	"weak"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C28", Title: "A consumer's memory does not grow with the length of the chain", Gen: genRetain, Run: runRetain,
		Rule: "one run = a block tree with forks, blocks that never become complete and blocks that never arrive, delivered message by message with reordering and late duplicates to a real ordered processor with a small reorg threshold, followed by several thresholds more blocks; afterwards the garbage collector decides which earlier blocks, messages and values are still held; non-trivial = forks, incomplete blocks or orphans were among them; a state = (blocks delivered, blocks handed out)",
		Real: chainReal, Stub: chainStub,
		Floors: map[string]int64{"slow": 0, "buf": 0}})
}

func genRetain(r *core.Rand, p *core.Plan) {
	thr := r.Pick(4, 4, 6, 8)
	p.P["threshold"] = int64(thr)
	p.P["buf"] = int64(r.Pick(0, 0, 1, 100))
	p.P["slow"] = int64(r.Pick(0, 0, 1, 3))
	p.P["base"] = int64(r.Pick(0, 1000))
	p.P["start"] = int64(r.Pick(0, 1, 1))
	ids := genTree(r, p, r.Pick(3, 8, 14, 30), r.Pick(0, 1, 2, 4), thr/2, 0)
	for n := r.Pick(0, 0, 1, 2); n > 0; n-- {
		p.Add("incomplete", int64(ids[r.N(len(ids))]), int64(r.N(8)))
	}
	if r.P(1, 3) {
		p.Add("never", int64(ids[r.N(len(ids))]))
	}
	order := shuffled(r, ids, r.Pick(0, 1, thr/2))
	dup := r.Pick(0, 5, 25)
	for i, x := range order {
		p.Add("d", int64(x), int64(r.N(4)))
		for r.P(dup, 100) {
			p.Add("dup", int64(order[maxInt(0, i-r.N(thr))]), int64(r.N(8)))
		}
		if r.P(1, 10) {
			p.Add("s", int64(r.Pick(1, 20, 300)))
		}
	}
	p.P["tail"] = int64(thr*6 + 10)
	core.GenSim(r, p, true)
}

// kept is what a run's consumer must not lose when its run is over.
var kept *delivery.OrderedMessageProcessor

func init() { core.Resets = append(core.Resets, func() { kept = nil }) }

type held struct {
	id   int
	what string
	live func() bool
}

func runRetain(w *core.World) {
	p := w.Plan
	t := newTree()
	incomplete := map[int]int64{}
	never := map[int]bool{}
	for _, op := range p.Ops {
		switch op.K {
		case "b":
			t.add(int(op.Arg(0)), int(op.Arg(1)), op.Arg(2), p.P["base"])
		case "incomplete":
			incomplete[int(op.Arg(0))] = op.Arg(1)
		case "never":
			never[int(op.Arg(0))] = true
		}
	}
	root := t.byID[0]
	if root == nil {
		return
	}
	delete(incomplete, 0)
	delete(never, 0)
	cfg := &delivery.ConsumerConfig{ReorgThreshold: p.P["threshold"], TrackedPrefixes: regexps([]string{".*"}), LastWeight: new(big.Int)}
	if p.P["start"] == 1 {
		cfg.LastEmittedNum, cfg.LastHash, cfg.LastWeight = root.num, root.hash, new(big.Int).Set(root.weight)
	}
	omp, err := delivery.NewOrderedMessageProcessor(cfg)
	if err != nil {
		w.Fail("config", "valid configuration refused: %v", err)
		return
	}
	dp, err := delivery.NewProducer(mainTopic, map[string]string{"s/[0-9]+/": "state", "r/": "receipts"})
	if err != nil {
		panic("refused what has to work: " + err.Error())
	}
	var helds []held
	handed := 0
	heads := map[types.Hash]bool{}
	stop := make(chan struct{})
	uch := make(chan *delivery.ChainUpdate, p.P["buf"])
	pch := make(chan *delivery.PendingBatch, p.P["buf"])
	omp.Subscribe(uch)
	omp.Subscribe(pch)
	note := func(pb *delivery.PendingBatch) {
		if n := t.byHash[pb.Hash]; n != nil {
			wp := weak.Make(pb)
			helds = append(helds, held{n.id, "block", func() bool { return wp.Value() != nil }})
		}
	}
	go func() {
		for {
			select {
			case u := <-uch:
				for _, pb := range u.Added() {
					handed++
					heads[pb.Hash] = true
				}
				if p.P["slow"] > 0 {
					time.Sleep(time.Duration(p.P["slow"]) * time.Millisecond)
				}
				u.Done()
			case <-stop:
				return
			}
		}
	}()
	go func() {
		for {
			select {
			case pb := <-pch:
				note(pb)
			case <-stop:
				return
			}
		}
	}()
	msgs := func(n *node) []*Msg {
		v := bytes.Repeat([]byte{byte(n.id), 0xaa}, 40)
		return headerMsgs(dp, n, map[string][]byte{"s/1/a": v, "s/1/b": v, "r/x": v, "top": v})
	}
	off := int64(0)
	deliver := func(n *node, m *Msg) {
		off++
		c := m.at("t:0", off)
		c.value = append([]byte(nil), m.value...)
		c.key = append([]byte(nil), m.key...)
		if n.id < 10000 {
			wm := weak.Make(c)
			wv := weak.Make(&c.value[0])
			helds = append(helds, held{n.id, "message", func() bool { return wm.Value() != nil }}, held{n.id, "value", func() bool { return wv.Value() != nil }})
		}
		w.Step("ProcessMessage")
		if err := omp.ProcessMessage(c); err != nil {
			w.Fail("rejected", "a well-formed message was rejected: %v", err)
		}
	}
	sent := map[int]map[int]bool{}
	skip := func(n *node, ms []*Msg, i int) bool {
		k, ok := incomplete[n.id]
		if !ok {
			return false
		}
		// any message but the header
		j := int(k) % (len(ms) - 1)
		for x, m := range ms {
			if delivery.MessageType(m.key[0]) == delivery.BatchType {
				continue
			}
			if j == 0 {
				return x == i
			}
			j--
		}
		return false
	}
	put := func(n *node, rot int) {
		ms := msgs(n)
		if sent[n.id] == nil {
			sent[n.id] = map[int]bool{}
		}
		for k := range ms {
			i := (k + rot) % len(ms)
			if !skip(n, ms, i) {
				sent[n.id][i] = true
				deliver(n, ms[i])
			}
		}
		w.Log("put %d", n.id)
		w.State(core.Mix(int64(len(sent)), int64(handed)))
	}
	for _, op := range p.Ops {
		if w.Failed() {
			return
		}
		n := t.byID[int(op.Arg(0))]
		switch op.K {
		case "d":
			if n == nil || never[n.id] || (n == root && p.P["start"] == 1) {
				if n != nil {
					w.Fault("block-missing")
				}
				continue
			}
			if _, ok := incomplete[n.id]; ok {
				w.Fault("message-lost")
				w.Probes["nontrivial"] = 1
			}
			if n.parent != nil && len(n.parent.kids) > 1 {
				w.Probes["nontrivial"] = 1
			}
			if sent[n.id] == nil {
				put(n, int(op.Arg(1)))
			}
		case "dup":
			if n == nil || sent[n.id] == nil {
				continue
			}
			ms := msgs(n)
			if i := int(op.Arg(1)) % len(ms); sent[n.id][i] {
				w.Fault("duplicate")
				deliver(n, ms[i])
			}
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		}
	}
	w.Calm()
	time.Sleep(2 * time.Second)
	// Everything was delivered; the chain moves on by several thresholds, from
	// the heaviest block that can be part of it.
	best := heaviest(root, func(n *node) bool {
		_, inc := incomplete[n.id]
		return sent[n.id] != nil && !inc && !never[n.id]
	})
	cur := best
	tail := int(p.P["tail"])
	for _, n := range t.nodes {
		if sent[n.id] != nil {
			tail = maxInt(tail, int(p.P["tail"]+n.num-best.num))
		}
	}
	earlier := len(t.nodes)
	for k := 0; k < tail; k++ {
		cur = t.add(10000+k, cur.id, 50, p.P["base"])
		put(cur, k%4)
		time.Sleep(10 * time.Millisecond)
	}
	time.Sleep(2 * time.Second)
	if !heads[cur.hash] && !w.Failed() {
		w.Probe("not-converged") // C07's business
		close(stop)
		return
	}
	close(stop)
	kept = omp
	time.Sleep(time.Second)
	hs := helds
	w.After = func() {
		runtime.GC()
		runtime.GC()
		alive := map[string]int{}
		first := ""
		ids := map[int]bool{}
		for _, h := range hs {
			if h.id < 10000 && h.live() {
				alive[h.what]++
				ids[h.id] = true
				if first == "" {
					first = t.byID[h.id].String() + " (" + h.what + ")"
				}
			}
		}
		if len(ids) > 0 {
			w.Fail("retained", "%d thresholds after the last of %d blocks, the consumer still holds %d blocks, %d messages and %d message values of %d of them, the first being %s", p.P["tail"]/p.P["threshold"], earlier, alive["block"], alive["message"], alive["value"], len(ids), first)
		}
		runtime.KeepAlive(kept)
	}
}
