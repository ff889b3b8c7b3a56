package props

import (
	"fmt"
	"math/big"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

var deliveryReal = []string{"delivery.Producer", "delivery.MessageProcessor", "delivery.PendingBatch", "cardinal-types Feed", "hamba/avro", "golang-lru"}

func init() {
	rule := "one run = several blocks of random content split by real producers, every message delivered to a real consumer in a random order with duplicates, losses and redeliveries drawn from the seed; non-trivial = at least two blocks were in assembly at once and a duplicate or reordering took effect; a state = which messages of which blocks the consumer holds"
	core.Register(&core.Prop{ID: "C01", Title: "Reassembled content is exactly what was produced", Gen: genAssembly("C01"), Run: func(w *core.World) { runAssembly(w, "content") }, Rule: rule, Real: deliveryReal, Stub: []string{"broker and network: the harness reorders, duplicates and drops messages"}, Floors: asmFloors})
	core.Register(&core.Prop{ID: "C02", Title: "Every block is emitted once, exactly when complete", Gen: genAssembly("C02"), Run: func(w *core.World) { runAssembly(w, "once") }, Rule: rule, Real: deliveryReal, Stub: []string{"broker and network: the harness reorders, duplicates and drops messages"}, Floors: asmFloors})
}

var asmFloors = map[string]int64{"producers": 1, "schema": 0, "track": 0, "pause": 0}

// genAssembly: blocks of random content, then a delivery order over their
// messages. "blk" ops define blocks, "d" ops deliver one message each.
func genAssembly(id string) func(r *core.Rand, p *core.Plan) {
	return func(r *core.Rand, p *core.Plan) {
		p.P["schema"] = int64(r.N(len(schemas)))
		p.P["track"] = int64(r.Pick(0, 0, 0, 1, 2, 3, 4))
		p.P["producers"] = int64(r.R(1, 3))
		p.P["threshold"] = int64(r.Pick(2, 3, 8, 64))
		p.P["panic"] = int64(r.Pick(0, 0, 1))
		p.P["subs"] = int64(r.R(1, 3))
		p.P["buf"] = int64(r.Pick(0, 1, 200))
		p.P["pause"] = int64(r.Pick(0, 0, 1, 5))
		nb := r.R(1, 6)
		type ref struct{ b, k int64 }
		var all []ref
		for i := 0; i < nb; i++ {
			nu, nd, ns := r.Pick(0, 0, 1, 2, 3, 6, 12), r.Pick(0, 0, 1, 2, 4), r.Pick(0, 0, 1, 1, 2, 3)
			p.Add("blk", int64(i), int64(r.U64()>>1), int64(nu), int64(nd), int64(ns))
			n := 1 + nu + nd + ns*8
			for k := 0; k < n; k++ {
				all = append(all, ref{int64(i), int64(k)})
			}
		}
		// Order of delivery: shuffled, nearly sorted, or block by block.
		order := make([]ref, 0, len(all)*2)
		dup := r.Pick(0, 0, 10, 40)
		drop := r.Pick(0, 0, 0, 10)
		for _, x := range all {
			if !r.P(drop, 100) {
				order = append(order, x)
			}
			for r.P(dup, 100) {
				order = append(order, x)
			}
		}
		switch r.N(4) {
		case 0, 1:
			pm := r.Perm(len(order))
			o2 := make([]ref, len(order))
			for i, j := range pm {
				o2[i] = order[j]
			}
			order = o2
		case 2: // local swaps
			for n := 0; n < len(order); n++ {
				i := r.N(len(order))
				j := minInt(len(order)-1, i+r.N(8))
				order[i], order[j] = order[j], order[i]
			}
		}
		// Redeliver everything once at the end, so that dropped messages arrive.
		if r.P(3, 4) {
			for _, i := range r.Perm(len(all)) {
				order = append(order, all[i])
			}
		}
		for _, x := range order {
			p.Add("d", x.b, int64(r.N(3)), x.k)
		}
		core.GenSim(r, p, false)
	}
}

func runAssembly(w *core.World, mode string) {
	p := w.Plan
	schema := schemas[p.P["schema"]]
	ref := newSchemaRef(schema)
	tracked := regexps(trackSets[p.P["track"]])
	threshold := int(p.P["threshold"])
	mp := delivery.NewMessageProcessor(&delivery.ConsumerConfig{
		ReorgThreshold: int64(threshold), TrackedPrefixes: tracked, LastWeight: new(big.Int),
		FailedReconstructPanic: p.P["panic"] == 1,
	})
	// Subscribers of different speeds.
	stop := make(chan struct{})
	nsub := int(p.P["subs"])
	var cols []*collector
	for i := 0; i < nsub; i++ {
		ch := make(chan *delivery.PendingBatch, p.P["buf"]+int64(i))
		mp.Subscribe(ch)
		c := &collector{}
		cols = append(cols, c)
		go func(i int) {
			for {
				select {
				case pb := <-ch:
					c.got = append(c.got, pb)
					if i == 1 && p.P["pause"] > 0 {
						time.Sleep(time.Duration(p.P["pause"]) * time.Millisecond)
					}
				case <-stop:
					return
				}
			}
		}(i)
	}

	type blkState struct {
		b       *Blk
		msgs    [][]*Msg // per producer, sorted by key
		need    map[string]bool
		have    map[string]bool
		done    bool
		doneAt  int // completions so far when it completed
		started bool
	}
	var blocks []*blkState
	byIdx := map[int]*blkState{}
	byHash := map[types.Hash]*blkState{}
	var prods []*delivery.Producer
	for i := int64(0); i < p.P["producers"]; i++ {
		dp, err := delivery.NewProducer(mainTopic, schema)
		if err != nil {
			panic("refused what has to work: " + err.Error())
		}
		prods = append(prods, dp)
	}
	completions := 0
	offs := map[string]int64{}
	expected := []types.Hash{} // in completion order
	check := func(at string) {
		settle(time.Duration(1+p.P["pause"]*10) * time.Millisecond)
		for ci, c := range cols {
			if mode == "once" {
				if len(c.got) > len(expected) {
					b := c.got[len(c.got)-1]
					if st := byHash[b.Hash]; st != nil && st.done {
						n := 0
						for _, g := range c.got {
							if g.Hash == b.Hash {
								n++
							}
						}
						if n > 1 {
							w.Fail("emitted-twice", "%s: block %s was emitted %d times to subscriber %d", at, hs(b.Hash), n, ci)
							return
						}
					}
					w.Fail("premature", "%s: block %s was emitted to subscriber %d before it was complete", at, hs(b.Hash), ci)
					return
				}
				if len(c.got) < len(expected) {
					w.Fail("not-emitted", "%s: block %s is complete but was not emitted to subscriber %d (%d of %d emitted)", at, hs(expected[len(c.got)]), ci, len(c.got), len(expected))
					return
				}
				for i := range c.got {
					if c.got[i].Hash != expected[i] {
						w.Fail("order", "%s: emission %d to subscriber %d is block %s, want %s (completion order)", at, i, ci, hs(c.got[i].Hash), hs(expected[i]))
						return
					}
				}
			}
		}
	}
	for oi, op := range p.Ops {
		switch op.K {
		case "blk":
			r := core.NewRand(uint64(op.Arg(1)))
			b := &Blk{Idx: int(op.Arg(0)), Num: blockNum(r), Hash: mkHash('B', uint64(op.Arg(1)), uint64(op.Arg(0))), Parent: mkHash('B', r.U64(), 0), Weight: bigWeight(r)}
			fillBlock(b, r, int(op.Arg(2)), int(op.Arg(3)), int(op.Arg(4)))
			st := &blkState{b: b, have: map[string]bool{}}
			for pi, dp := range prods {
				ms, err := produce(dp, b)
				if err != nil {
					w.Fail("producer-error", "producer refused a valid block: %v", err)
					return
				}
				sortMsgs(ms)
				st.msgs = append(st.msgs, ms)
				if pi == 0 {
					st.need = b.needed(ms, ref, tracked)
				}
			}
			blocks = append(blocks, st)
			byIdx[b.Idx] = st
			byHash[b.Hash] = st
		case "d":
			st := byIdx[int(op.Arg(0))]
			if st == nil {
				continue
			}
			if st.done && completions-st.doneAt >= threshold {
				continue // beyond the window in which duplicates are recognised
			}
			ms := st.msgs[int(op.Arg(1))%len(st.msgs)]
			m := ms[int(op.Arg(2))%len(ms)]
			src := fmt.Sprintf("%s:%d", m.topic, op.Arg(1))
			offs[src]++
			if st.have[string(m.key)] {
				w.Faults["duplicate"]++
			} else if !st.started && delivery.MessageType(m.key[0]) != delivery.BatchType {
				w.Faults["reorder-before-header"]++
			}
			if delivery.MessageType(m.key[0]) == delivery.BatchType {
				st.started = true
			}
			if st.done {
				w.Faults["replay-after-emission"]++
			}
			st.have[string(m.key)] = true
			w.Step("ProcessMessage %x", m.key[:minInt(12, len(m.key))])
			if err := mp.ProcessMessage(m.at(src, offs[src])); err != nil {
				w.Fail("rejected", "a well-formed message was rejected: %v (key %x)", err, m.key)
				return
			}
			w.Log("deliver %d %s %x", st.b.Idx, src, m.key)
			if !st.done {
				complete := true
				for k := range st.need {
					if !st.have[k] {
						complete = false
						break
					}
				}
				if complete {
					st.done = true
					completions++
					st.doneAt = completions
					expected = append(expected, st.b.Hash)
					w.Probe("completed")
				}
			}
			open := 0
			h := uint64(0)
			for _, s := range blocks {
				if len(s.have) > 0 && !s.done {
					open++
				}
				h = core.Mix(int64(h), int64(len(s.have)), int64(len(s.need)), b2i(s.done), b2i(s.started))
			}
			w.State(h)
			if open > 1 && (w.Faults["duplicate"] > 0 || w.Faults["reorder-before-header"] > 0) {
				w.Probes["nontrivial"] = 1
			}
			if oi%7 == 0 || st.done {
				check(fmt.Sprintf("after step %d", oi))
				if w.Failed() {
					return
				}
			}
		}
	}
	settle(time.Second)
	check("at the end")
	if mode == "content" {
		for ci, c := range cols {
			for _, pb := range c.got {
				st := byHash[pb.Hash]
				if st == nil {
					w.Fail("unknown-block", "subscriber %d was given block %x which nobody produced", ci, pb.Hash)
					return
				}
				if !st.done {
					continue // premature emission: C02's business
				}
				if d := st.b.diffMeta(pb); d != "" {
					w.Fail("metadata", "block %s: %s", hs(pb.Hash), d)
					return
				}
				if d := st.b.want(ref, tracked).diff(pb); d != "" {
					w.Fail("content", "block %s: %s", hs(pb.Hash), d)
					return
				}
				w.Probe("content-checked")
			}
		}
	}
	close(stop)
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}
