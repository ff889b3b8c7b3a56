package props

import (
	"fmt"
	"math/big"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C35", Title: "Kafka consumers go through announced reorgs", Gen: genC35, Run: runC35, MaxSim: 6 * time.Hour,
		Rule: "one run = a feed that follows SPEC.md is written to a simulated cluster: a chain, notices of reorgs, each with its own topic holding the new branch, and what follows, while real Kafka consumers start at any time, restart from their tokens and go through broker disturbances; non-trivial = a consumer was reading a reorg's topic while it was being written; a state = (log ends, events received by each consumer)",
		Real: kafkaReal[1:], Stub: append([]string{"producer: messages from a real delivery.Producer appended to the log by the harness, in the order SPEC.md gives"}, kafkaStub...), Floors: map[string]int64{"brokers": 1, "consumers": 1, "parts": 1, "slow": 0, "schema": 0}})
}

func genC35(r *core.Rand, p *core.Plan) {
	p.P["base"] = int64(r.Pick(0, 0, 1, 1000, 1<<40))
	p.P["off"] = int64(r.Pick(0, 0, 1, 7, 1000, 1<<31-4, 1<<40))
	p.P["brokers"] = int64(r.Pick(1, 1, 2, 3))
	p.P["parts"] = 1
	p.P["fetchmax"] = int64(r.Pick(0, 1, 5, 100))
	p.P["maxwait"] = int64(r.Pick(100, 500, 2000))
	p.P["snappy"] = int64(r.Pick(0, 0, 0, 1))
	n := r.Pick(1, 1, 2, 3)
	p.P["consumers"] = int64(n)
	p.P["slow"] = int64(r.Pick(0, 0, 1, 20, 200))
	faults := r.Pick(0, 0, 1)
	p.P["faults"] = int64(faults)
	id, began := 0, 0
	p.Add("b", 0, -1, 1)
	chain := []int{0}
	pause := func() int64 { return int64(r.Pick(0, 0, 1, 100, 900, 1200, 3000, 8000)) }
	fault := func() {
		p.Add("f", 0, int64(r.Pick(0, 1, 3, 4, 5, 6, 7, 8)), int64(r.N(1000)), int64(r.Pick(5, 100, 300, 1500, 4000)))
	}
	between := func() {
		for began < n && r.P(1, 4) {
			p.Add("start", int64(began), int64(r.Pick(0, 0, r.N(20))))
			began++
		}
		switch r.N(10) {
		case 0:
			p.Add("s", pause())
		case 1:
			p.Add("ping", int64(r.N(3)))
		case 2:
			if began > 0 && r.P(1, 3) {
				p.Add("restart", int64(r.N(began)), int64(r.Pick(0, 0, 1, 10)), int64(r.Pick(0, 1, 100, 3000)))
			}
		case 3:
			if faults == 1 {
				fault()
			}
		}
	}
	blocks := func(k int) {
		from := len(chain)
		for ; k > 0; k-- {
			between()
			id++
			p.Add("b", int64(id), int64(chain[len(chain)-1]), int64(r.Pick(1, 2, 5)))
			p.Add("c", int64(id), int64(r.U64()>>1), int64(r.N(3)), int64(r.N(2)), int64(r.Pick(0, 0, 0, 1, 2)))
			p.Add("a", int64(id))
			chain = append(chain, id)
			if r.P(1, 10) {
				p.Add("again", int64(chain[from+r.N(len(chain)-from)]))
			}
		}
	}
	blocks(r.Pick(1, 3, 10))
	for k := r.R(1, 3); k > 0; k-- {
		at := r.N(len(chain))
		if r.P(1, 2) {
			at = maxInt(0, len(chain)-1-r.N(12))
		}
		between()
		if faults == 1 && r.P(1, 3) {
			fault()
			p.Add("g", int64(chain[at]), int64(r.Pick(0, 1, 50)), pause())
		} else {
			p.Add("g", int64(chain[at]), pause(), pause())
		}
		if faults == 1 && r.P(1, 2) {
			fault()
		}
		chain = append([]int(nil), chain[:at+1]...)
		blocks(r.Pick(1, 2, 5, 12))
		if r.P(1, 3) {
			p.Add("s", pause())
		}
		p.Add("done")
		blocks(r.Pick(1, 1, 1, 3, 8))
	}
	for ; began < n; began++ {
		p.Add("start", int64(began), int64(r.Pick(0, 0, r.N(20))))
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

type c35cons struct {
	k         transports.Consumer
	boot      int
	strict    bool // has been given everything from the first block on
	got       []c29ev
	chain     []types.Hash
	tokens    map[types.Hash][]byte
	class     string
	bad       string
	stop      chan struct{}
	delivered int
}

func runC35(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	c := kw.c
	c.onAppend = nil
	c.tokens, c.apart = 1, true
	root := kw.t.byID[0]
	dp, err := delivery.NewProducer(mainTopic, nil)
	if err != nil {
		w.Fail("producer-error", "%v", err)
		return
	}
	all := regexps([]string{".*"})
	ref := newSchemaRef(map[string]string{})
	main := c.topic(mainTopic, 1, p.P["off"]).parts[0]
	side := map[types.Hash]*kpart{}
	out := main // where blocks go
	var reorgTo *node
	head := root
	canon := map[int64]*node{root.num: root}
	var want []c29ev
	type notice struct {
		off int64
		to  *node
	}
	var notices []notice
	plain := 1 // blocks in the default topic since the latest notice
	cons := make([]*c35cons, p.P["consumers"])
	behind := func() int64 {
		k := int64(0)
		for _, x := range cons {
			if x != nil && x.strict {
				k += int64(len(want) - len(x.got))
			}
		}
		return k
	}
	publish := func(n *node) bool {
		b := kw.blks[n.id]
		batches := map[string]types.Hash{}
		for _, s := range b.Subs {
			batches[s.key] = s.id
		}
		ms, err := dp.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.Updates, b.Deletes, batches)
		if err != nil {
			w.Fail("producer-error", "AddBlock(%v): %v", n, err)
			return false
		}
		for _, m := range ms[mainTopic] {
			c.append(out, c.rec(m.Key(), m.Value()))
		}
		for _, s := range b.Subs {
			ms, err := dp.SendBatch(s.id, s.deletes, s.updates)
			if err != nil {
				w.Fail("producer-error", "SendBatch of %v: %v", n, err)
				return false
			}
			for _, m := range ms[mainTopic] {
				c.append(out, c.rec(m.Key(), m.Value()))
			}
		}
		return true
	}
	finish := func() {
		if reorgTo == nil {
			return
		}
		m := dp.ReorgDone(reorgTo.num, reorgTo.hash)
		c.append(out, c.rec(m.Key(), m.Value()))
		out, reorgTo = main, nil
	}
	// open starts a consumer that has the chain up to from.
	open := func(i int64, x *c35cons, from *node, token []byte, rollback int64) bool {
		x.boot++
		_, url := c.proc(fmt.Sprintf("c%d-%d", i, x.boot), "")
		cfg := &delivery.ConsumerConfig{LastEmittedNum: from.num, LastHash: from.hash, LastWeight: new(big.Int).Set(from.weight), ReorgThreshold: 64, TrackedPrefixes: all}
		var err error
		for try := 0; try < 40; try++ {
			if x.k, err = gotC(transports.ResolveConsumer(url, mainTopic, []string{mainTopic}, token, rollback, cfg)); err == nil {
				break
			}
			time.Sleep(time.Second)
		}
		if err != nil {
			w.Fail("consumer-error", "a consumer could not be created: %v", err)
			return false
		}
		cch, rch := make(chan *delivery.ChainUpdate), make(chan map[int64]types.Hash)
		x.k.Subscribe(cch)
		x.k.SubscribeReorg(rch)
		x.stop = make(chan struct{})
		stop := x.stop
		tell := func(class, f string, a ...interface{}) {
			if x.bad == "" {
				x.class, x.bad = class, fmt.Sprintf(f, a...)
			}
		}
		tip := func() types.Hash { return x.chain[len(x.chain)-1] }
		nm := func(h types.Hash) string {
			if n := kw.t.byHash[h]; n != nil {
				return n.String()
			}
			return fmt.Sprintf("unknown %x", h[:4])
		}
		stopped := func() bool {
			select {
			case <-stop:
				return true
			default:
				return false
			}
		}
		go func() {
			for {
				select {
				case u := <-cch:
					if stopped() {
						return
					}
					w.Log("consumer %d: %s for %s", i, names(kw.t, u.Added()), names(kw.t, u.Removed()))
					for _, pb := range u.Removed() {
						if tip() != pb.Hash {
							tell("disconnected", "an update removes %s while %s is the latest", nm(pb.Hash), nm(tip()))
							break
						}
						x.chain = x.chain[:len(x.chain)-1]
						x.strict = false // only when rewound by a restart
					}
					for _, pb := range u.Added() {
						n := kw.t.byHash[pb.Hash]
						if n == nil {
							tell("unknown-block", "an update adds block %x nobody produced", pb.Hash)
							continue
						}
						x.got = append(x.got, c29ev{false, pb.Hash, pb.Number})
						x.delivered++
						if pb.ParentHash != tip() {
							tell("disconnected", "an update adds %v while %s is the latest", n, nm(tip()))
							continue
						}
						x.chain = append(x.chain, pb.Hash)
						x.tokens[pb.Hash] = []byte(pb.Resumption())
						if d := kw.blks[n.id].diffMeta(pb); d != "" {
							tell("metadata", "%v: %s", n, d)
						} else if d := kw.blks[n.id].want(ref, all).diff(pb); d != "" {
							tell("content", "%v: %s", n, d)
						}
					}
					if p.P["slow"] > 0 {
						time.Sleep(time.Duration(p.P["slow"]) * time.Millisecond)
					}
					u.Done()
				case m := <-rch:
					if stopped() {
						return
					}
					w.Log("consumer %d: reorg %v", i, m)
					for n, h := range m {
						x.got = append(x.got, c29ev{true, h, n})
						for j, y := range x.chain {
							if y == h {
								x.chain = x.chain[:j+1]
								h = types.Hash{}
								break
							}
						}
						if (h != types.Hash{}) {
							tell("unknown-ancestor", "a reorg to %s was announced, which is no block of the chain up to %s", nm(h), nm(tip()))
						}
					}
				case <-stop:
					return
				}
			}
		}()
		for try := 0; try < 40; try++ {
			if err = x.k.Start(); err == nil {
				w.Log("consumer %d boot %d started", i, x.boot)
				return true
			}
			time.Sleep(time.Second)
		}
		w.Fail("consumer-error", "a consumer could not be started: %v", err)
		return false
	}
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		n := kw.t.byID[int(op.Arg(0))]
		switch op.K {
		case "start":
			i := op.Arg(0) % int64(len(cons))
			if cons[i] != nil {
				continue
			}
			from := head
			for k := op.Arg(1); k > 0 && from.parent != nil; k-- {
				from = from.parent
			}
			if op.Arg(1) == 0 {
				from = root
			}
			// Whoever knows a block of the present branch has no use for the
			// reorgs before it, and may not know their targets.
			for _, x := range notices {
				if !x.to.ancestorOf(from) {
					from = root
				}
			}
			x := &c35cons{strict: from == root, tokens: map[types.Hash][]byte{}}
			for n := from; n != nil; n = n.parent {
				x.chain = append([]types.Hash{n.hash}, x.chain...)
			}
			cons[i] = x
			if !open(i, x, from, nil, 0) {
				return
			}
		case "restart":
			i := op.Arg(0) % int64(len(cons))
			x := cons[i]
			if x == nil {
				continue
			}
			w.Fault("consumer-restart")
			if reorgTo != nil {
				w.Probe("restart-within-reorg")
			}
			before := w.Now()
			x.k.Close()
			if d := w.Now() - before; d > 9*time.Second && p.P["faults"] == 0 && p.Sim.StallP == 0 && c.maxWait <= 500 {
				w.Fail("close", "closing consumer %d took %v", i, d)
				return
			}
			time.Sleep(time.Second)
			close(x.stop)
			time.Sleep(time.Duration(op.Arg(2)) * time.Millisecond)
			if x.bad != "" {
				break
			}
			from := kw.t.byHash[x.chain[len(x.chain)-1]]
			token := x.tokens[from.hash]
			x.strict = x.strict && len(x.got) == 0
			rollback := op.Arg(1)
			if pos := offsetIn(token, mainTopic); pos >= 0 {
				for _, m := range notices {
					if m.off >= pos-rollback && m.off < pos {
						rollback = 0 // the reorgs before that are none of its chain
					}
				}
			}
			if !open(i, x, from, token, rollback) {
				return
			}
		case "a":
			if n == nil || n.parent != head || kw.blks[n.id] == nil || canon[n.num] == n {
				continue
			}
			head, canon[n.num] = n, n
			want = append(want, c29ev{false, n.hash, n.num})
			if !publish(n) {
				return
			}
			if reorgTo == nil {
				plain++
			}
			if reorgTo != nil && behind() > 0 {
				w.Probes["nontrivial"] = 1
			}
		case "again":
			if n == nil || n == root || canon[n.num] != n || kw.blks[n.id] == nil {
				continue
			}
			w.Fault("duplicate")
			if !publish(n) {
				return
			}
		case "g":
			if n == nil || n == head || reorgTo != nil || canon[n.num] != n || side[n.hash] != nil || plain == 0 {
				continue
			}
			w.Fault("announced-reorg")
			if behind() > 0 {
				w.Fault("announced-while-handling")
			}
			side[n.hash] = c.topic(fmt.Sprintf("%s-re-%x", mainTopic, n.hash[:]), 1, 0).parts[0]
			time.Sleep(time.Duration(op.Arg(1)) * time.Millisecond)
			want = append(want, c29ev{true, n.hash, n.num})
			for k := head; k != n; k = k.parent {
				delete(canon, k.num)
			}
			head, reorgTo, plain = n, n, 0
			m := dp.Reorg(n.num, n.hash)
			off := c.append(main, c.rec(m.Key(), m.Value()))
			notices = append(notices, notice{off, n})
			time.Sleep(time.Duration(op.Arg(2)) * time.Millisecond)
			out = side[n.hash]
			c.append(out, c.rec(m.Key(), m.Value()))
		case "done":
			finish()
		case "ping":
			id := mkHash('P', uint64(op.Arg(0)), 0)
			now, _ := time.Now().MarshalBinary()
			c.append(main, c.rec(delivery.PingType.GetKey(id[:]), now))
		case "f":
			c.chaos(op)
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		}
		if w.Failed() {
			return
		}
		h := []int64{main.next, out.next}
		for _, x := range cons {
			if x != nil {
				h = append(h, int64(len(x.got)), int64(x.boot))
			}
		}
		w.State(core.Mix(h...))
	}
	finish()
	c.calm()
	w.Calm()
	w.Step("waiting for the consumers")
	// One connection serves both topics, so that a record may have to wait
	// until the other topic's request times out.
	total := main.next - main.first
	for _, n := range kw.t.nodes {
		if s := side[n.hash]; s != nil {
			total += s.next
		}
	}
	kw.settle(5*time.Minute+time.Duration(2*total*c.maxWait)*time.Millisecond, func() bool {
		for _, x := range cons {
			if x == nil {
				continue
			}
			if x.bad == "" && (x.chain[len(x.chain)-1] != head.hash || (x.strict && len(x.got) < len(want))) {
				return false
			}
			select {
			case <-x.k.Ready():
			default:
				return false
			}
		}
		return true
	})
	time.Sleep(20 * time.Second)
	for _, n := range kw.t.nodes {
		if s := side[n.hash]; s != nil && s.read > 0 && s.read > w.Now()-10*time.Second {
			w.Fail("still-reading", "the topic of the reorg to %v is still being read", n)
			return
		}
	}
	show := func(e c29ev) string {
		s := "unknown"
		if n := kw.t.byHash[e.hash]; n != nil {
			s = n.String()
		}
		if e.reorg {
			s = "reorg to " + s
		}
		return s
	}
	for i, x := range cons {
		if x == nil {
			continue
		}
		if x.bad != "" {
			w.Fail(x.class, "consumer %d: %s", i, x.bad)
			return
		}
		if x.strict && fmt.Sprint(x.got) != fmt.Sprint(want) {
			w.Fail("sequence", "consumer %d: got %d events, want %d; first difference %s", i, len(x.got), len(want), firstDiff(x.got, want, show))
			return
		}
		if t := x.chain[len(x.chain)-1]; t != head.hash {
			w.Fail("diverged", "consumer %d ended at %v; the feed ends at %v", i, kw.t.byHash[t], head)
			return
		}
		select {
		case <-x.k.Ready():
		default:
			w.Fail("never-ready", "consumer %d is not ready minutes after everything was written", i)
			return
		}
		before := w.Now()
		x.k.Close()
		if d := w.Now() - before; d > 9*time.Second {
			w.Fail("close", "closing consumer %d took %v", i, d)
			return
		}
		close(x.stop)
		w.Probe("consumer-checked")
	}
}

// offsetIn tells where a token stands in the only partition of a topic.
func offsetIn(token []byte, topic string) int64 {
	off := int64(-1)
	for _, x := range splitToken(token) {
		if x[0] == topic+":0" {
			fmt.Sscan(x[1], &off)
		}
	}
	return off
}
