package props

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C27", Title: "A consumer tells truthfully why a block is not there yet", Gen: genWhy, Run: runWhy,
		Rule:   "one run = a tree of blocks with random content split by a real producer, delivered message by message in a random order to a real consumer whose subscriber may be slow or stuck, while other goroutines keep asking what each block is waiting for; non-trivial = questions were answered while blocks were in assembly and out of order; a state = which messages of which blocks the consumer holds",
		Real:   append([]string{"delivery.OrderedMessageProcessor"}, deliveryReal...),
		Stub:   []string{"broker and network: the harness reorders, duplicates and drops messages"},
		Floors: map[string]int64{"producers": 1, "schema": 0, "track": 0, "hold": 0, "askers": 0}})
}

func genWhy(r *core.Rand, p *core.Plan) {
	p.P["schema"] = int64(r.N(len(schemas)))
	p.P["track"] = int64(r.Pick(0, 0, 0, 1, 2, 3, 4))
	p.P["hold"] = int64(r.Pick(0, 0, 3, 200, 20000))
	p.P["askers"] = int64(r.R(0, 3))
	p.P["gap"] = int64(r.Pick(1, 3, 20))
	p.P["seed"] = int64(r.U64() >> 1)
	nb := r.R(1, 6)
	forks := r.P(1, 4)
	type ref struct{ b, k int64 }
	var all []ref
	for i := 0; i < nb; i++ {
		nu, nd, ns := r.Pick(0, 0, 1, 2, 3, 6), r.Pick(0, 0, 1, 2), r.Pick(0, 0, 1, 1, 2)
		parent := i - 1
		if forks && i > 0 && r.P(1, 3) {
			parent = r.N(i+1) - 1
		}
		p.Add("blk", int64(i), int64(r.U64()>>1), int64(nu), int64(nd), int64(ns), int64(parent))
		for k := 0; k < 1+nu+nd+ns*4; k++ {
			all = append(all, ref{int64(i), int64(k)})
		}
	}
	var order []ref
	drop := r.Pick(0, 0, 0, 5, 20)
	for _, x := range all {
		if !r.P(drop, 100) {
			order = append(order, x)
		}
		for r.P(10, 100) {
			order = append(order, x)
		}
	}
	if r.P(2, 3) {
		pm := r.Perm(len(order))
		o2 := make([]ref, len(order))
		for i, j := range pm {
			o2[i] = order[j]
		}
		order = o2
	} else {
		for n := 0; n < len(order); n++ {
			i := r.N(len(order))
			j := minInt(len(order)-1, i+r.N(12))
			order[i], order[j] = order[j], order[i]
		}
	}
	strict := r.Pick(3, 10, 1000)
	for _, x := range order {
		p.Add("d", x.b, x.k)
		if r.P(1, 4) {
			p.Add("nap", int64(r.Pick(1, 2, 10, 300)))
		}
		if r.P(1, strict) {
			p.Add("quiet")
		}
	}
	if r.P(1, 2) {
		for _, i := range r.Perm(len(all)) {
			p.Add("d", all[i].b, all[i].k)
		}
	}
	p.Add("quiet")
	core.GenSim(r, p, false)
}

func runWhy(w *core.World) {
	p := w.Plan
	schema := schemas[p.P["schema"]]
	ref := newSchemaRef(schema)
	tracked := regexps(trackSets[p.P["track"]])
	root := &Blk{Idx: -1, Num: 100, Hash: mkHash('G', uint64(p.P["seed"]), 0), Weight: big.NewInt(1000)}
	omp, err := delivery.NewOrderedMessageProcessor(&delivery.ConsumerConfig{
		ReorgThreshold: 64, TrackedPrefixes: tracked, LastHash: root.Hash, LastEmittedNum: root.Num, LastWeight: root.Weight,
	})
	if err != nil {
		panic("refused what has to work: " + err.Error())
	}
	dp, err := delivery.NewProducer(mainTopic, schema)
	if err != nil {
		panic("refused what has to work: " + err.Error())
	}
	type blk struct {
		b           *Blk
		parent      *blk
		ms          []*Msg
		need        map[string]bool
		sent, acked map[string]bool
		emitted     bool
		fork        bool
	}
	var blocks []*blk
	byIdx := map[int]*blk{}
	byHash := map[types.Hash]*blk{}
	forked := false
	count := func(b *blk, m map[string]bool) bool { // all needed messages in m
		for k := range b.need {
			if !m[k] {
				return false
			}
		}
		return true
	}
	// Subscriber; a slow one holds up the processing of later blocks.
	stop := make(chan struct{})
	ch := make(chan *delivery.ChainUpdate)
	omp.Subscribe(ch)
	go func() {
		for {
			select {
			case u := <-ch:
				for _, pb := range u.Added() {
					if b := byHash[pb.Hash]; b != nil {
						b.emitted = true
					}
				}
				if p.P["hold"] > 0 {
					time.Sleep(time.Duration(p.P["hold"]) * time.Millisecond)
				}
			case <-stop:
				return
			}
		}
	}()
	// missing lists the truthful descriptions of what a block lacks.
	missing := func(b *blk, have map[string]bool) map[string]bool {
		out := map[string]bool{}
		for _, m := range b.ms {
			if !b.need[string(m.key)] || have[string(m.key)] {
				continue
			}
			switch delivery.MessageType(m.key[0]) {
			case delivery.BatchMsgType, delivery.BatchDeleteMsgType:
				e, _ := ref.entry(string(m.key[33:]))
				out[fmt.Sprintf("Pending prefix '%v'", e)] = true
			case delivery.SubBatchHeaderType:
				out["Pending batches"] = true
			case delivery.SubBatchMsgType:
				idx, _ := binary.Varint(m.key[65:])
				out[fmt.Sprintf("Pending batch '%#x'[%v]", types.BytesToHash(m.key[33:65]), idx)] = true
			}
		}
		return out
	}
	header := func(b *blk, have map[string]bool) bool {
		for _, m := range b.ms {
			if delivery.MessageType(m.key[0]) == delivery.BatchType {
				return have[string(m.key)]
			}
		}
		return false
	}
	connected := func(b *blk) bool { // it and all before it may have arrived
		for ; b != nil; b = b.parent {
			if !count(b, b.sent) {
				return false
			}
		}
		return true
	}
	asked, resting := 0, false
	ask := func(b *blk, strict bool, who string) {
		hdrBefore, emittedBefore := header(b, b.acked), b.emitted
		lacking := missing(b, b.acked)
		completeBefore := count(b, b.acked)
		t := time.Now()
		a := omp.WhyNotReady(b.b.Hash)
		if d := time.Since(t); d > 15*time.Second {
			w.Fail("blocked", "%s: WhyNotReady(%s) took %v", who, hs(b.b.Hash), d)
			return
		}
		asked++
		w.Log("why %d %s", b.b.Idx, a)
		complete := count(b, b.sent)
		bad := ""
		switch {
		case a == "not found":
			w.Probe("not-found")
			if hdrBefore && (!complete || emittedBefore || strict) {
				bad = "its header has been received"
				if complete {
					bad = "all of it has been received"
				}
			}
		case a == "ready":
			if !complete {
				bad = "it is not complete"
			} else if emittedBefore || strict {
				bad = "it has been dealt with"
			}
		case a == "pending parent":
			w.Probe("pending-parent")
			if !complete {
				bad = "it is not complete itself"
			} else if (emittedBefore || strict && connected(b)) && !forked {
				bad = "it has been handed out"
			}
		case a == "done, not evicted":
			w.Probe("done")
			if !complete {
				bad = "it is not complete"
			} else if !connected(b) && !forked {
				bad = "blocks before it have not arrived"
			}
		case lacking[a]:
			w.Probe("lacking")
			if !header(b, b.sent) {
				bad = "its header has not been received"
			}
		default:
			switch {
			case completeBefore:
				bad = "it is complete"
			case !header(b, b.sent):
				bad = "its header has not been received"
			default:
				bad = fmt.Sprintf("that is not what it lacks; it lacks %q", core.SortedKeys(lacking))
			}
		}
		if bad != "" {
			w.Fail("untrue", "%s: WhyNotReady(block %d) says %q, but %s", who, b.b.Idx, a, bad)
		}
	}
	for i := int64(0); i < p.P["askers"]; i++ {
		go func(r *core.Rand, i int64) {
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(1+r.N(int(p.P["gap"]))) * time.Millisecond):
				}
				if resting {
					time.Sleep(time.Second)
				}
				if len(blocks) > 0 {
					ask(blocks[r.N(len(blocks))], false, "while messages arrive")
				}
			}
		}(core.NewRand(uint64(p.P["seed"])+uint64(i)), i)
	}
	for _, op := range p.Ops {
		if w.Failed() {
			break
		}
		switch op.K {
		case "blk":
			r := core.NewRand(uint64(op.Arg(1)))
			parent := byIdx[int(op.Arg(5))]
			pb := root
			if parent != nil {
				pb = parent.b
			}
			for _, o := range blocks {
				if o.parent == parent {
					forked = true
				}
			}
			b := &Blk{Idx: int(op.Arg(0)), Num: pb.Num + 1, Hash: mkHash('B', uint64(op.Arg(1)), uint64(op.Arg(0))), Parent: pb.Hash, Weight: new(big.Int).Add(pb.Weight, big.NewInt(int64(r.R(1, 3))))}
			fillBlock(b, r, int(op.Arg(2)), int(op.Arg(3)), int(op.Arg(4)))
			ms, err := produce(dp, b)
			if err != nil {
				w.Fail("producer-error", "producer refused a valid block: %v", err)
				break
			}
			sortMsgs(ms)
			x := &blk{b: b, parent: parent, ms: ms, sent: map[string]bool{}, acked: map[string]bool{}}
			x.need = b.needed(ms, ref, tracked)
			byIdx[b.Idx], byHash[b.Hash] = x, x
			blocks = append(blocks, x)
		case "d":
			b := byIdx[int(op.Arg(0))]
			if b == nil {
				continue
			}
			m := b.ms[int(op.Arg(1))%len(b.ms)]
			if b.sent[string(m.key)] {
				w.Faults["duplicate"]++
			} else if !header(b, b.sent) {
				w.Faults["reorder-before-header"]++
			}
			b.sent[string(m.key)] = true
			w.Step("ProcessMessage %x", m.key[:minInt(12, len(m.key))])
			if err := omp.ProcessMessage(m.at("t:0", int64(asked))); err != nil {
				w.Fail("rejected", "a well-formed message was rejected: %v (key %x)", err, m.key)
			}
			b.acked[string(m.key)] = true
			h := uint64(0)
			for _, s := range blocks {
				h = core.Mix(int64(h), int64(len(s.acked)), b2i(header(s, s.acked)), b2i(s.emitted))
			}
			w.State(h)
		case "nap":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "quiet":
			w.Calm()
			resting = true
			time.Sleep(2*time.Second + time.Duration(len(blocks)+1)*time.Duration(p.P["hold"])*time.Millisecond)
			for _, b := range blocks {
				if !w.Failed() {
					ask(b, true, "at rest")
				}
			}
			if !w.Failed() {
				if a := omp.WhyNotReady(mkHash('X', uint64(asked), 1)); a != "not found" {
					w.Fail("untrue", "at rest: WhyNotReady of a block nobody published says %q", a)
				}
			}
			resting = false
			if asked > 3 && w.Faults["reorder-before-header"] > 0 {
				w.Probes["nontrivial"] = 1
			}
		}
	}
	close(stop)
}
