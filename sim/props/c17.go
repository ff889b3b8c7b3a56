package props

import (
	"bytes"
	"fmt"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C17", Title: "Redundant Kafka producers publish a block unless another did", Gen: genC17, Run: runC17, MaxSim: 2 * time.Hour,
		Rule: "one run = several real Kafka producers start at different times on a cluster with history and are given the same blocks, sub-batches, repeats, purges and unknown batches; non-trivial = a block was given to a producer after another had published it; a state = (log ends, blocks published, calls made)",
		Real: []string{"transports.KafkaProducer", "delivery.Producer", "Shopify/sarama client", "hamba/avro"}, Stub: kafkaStub, Floors: map[string]int64{"parts": 1, "schema": 0, "brokers": 1, "producers": 1}})
}

func genC17(r *core.Rand, p *core.Plan) {
	genKafka(r, p, r.Pick(1, 2, 4, 7))
	p.P["producers"] = int64(r.Pick(1, 2, 2, 3))
	p.P["maxwait"] = int64(r.Pick(50, 500, 2000))
	p.P["faults"] = int64(r.Pick(0, 0, 1))
	p.P["fill"] = int64(r.Pick(0, 0, 50, 99, 100, 101, 130)) // messages after the history
	n := 0
	for _, o := range p.Ops {
		if o.K == "b" {
			n++
		}
	}
	// History from before.
	for i := r.Pick(0, 0, 1, 2); i > 0; i-- {
		p.Add("raw", int64(r.N(n)), int64(r.N(4)))
	}
	np := int(p.P["producers"])
	if np > 1 && r.P(1, 8) {
		// A block with a lot of batches, to everybody.
		x, ns := r.N(n), r.R(20, 160)
		for i, k := 0, 0; i < len(p.Ops); i++ {
			if p.Ops[i].K != "b" {
				continue
			}
			if k == x {
				id := p.Ops[i].Arg(0)
				for j := range p.Ops {
					if p.Ops[j].K == "c" && p.Ops[j].Arg(0) == id {
						p.Ops[j].A[4] = int64(ns)
					}
				}
			}
			k++
		}
		for j := 0; j < 2; j++ {
			p.Add("a", int64(j), int64(x))
			p.Add("s", int64(r.Pick(10, 9000, 9000, 31000)))
		}
		for _, i := range r.Perm(ns) {
			p.Add("sb", int64(r.Pick(0, 1, 1, 1)), int64(x), int64(i))
		}
	}
	steps := r.R(4, 30)
	for i := 0; i < steps; i++ {
		switch r.N(12) {
		case 0, 1, 2, 3:
			p.Add("a", int64(r.N(np)), int64(r.N(n)))
		case 4, 5, 6:
			p.Add("sb", int64(r.N(np)), int64(r.N(n)), int64(r.N(3)))
		case 7:
			// The same blocks to everybody.
			x := r.N(n)
			for j := 0; j < np; j++ {
				p.Add("a", int64(j), int64(x))
				if r.P(1, 3) {
					p.Add("s", int64(r.Pick(1, 500, 9000)))
				}
			}
			for j := 0; j < np; j++ {
				p.Add("sb", int64(j), int64(x), 0)
			}
		case 8:
			p.Add([]string{"P", "raw", "j", "u"}[r.N(4)], int64(r.N(np)), int64(r.N(4)), int64(r.U64()>>1))
		case 9:
			if p.P["faults"] == 1 {
				p.Add("f", 0, int64(r.Pick(0, 1, 1, 2, 3, 4, 5, 6, 7)), int64(r.N(1000)), int64(r.Pick(5, 100, 300)))
			}
		default:
			p.Add("s", int64(r.Pick(1, 10, 300, 9000, 9000, 31000)))
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

// tri is what the model knows about a yes-or-no question.
type tri int

const (
	no tri = iota
	maybe
	yes
)

type hdrCopy struct {
	part int32
	off  int64
	at   time.Duration
}

type mprod struct {
	k        transports.Producer
	from     map[int32]int64 // offsets it must have read from
	maybeOff map[int32]int64 // offsets it may have read from
	up       time.Duration
	purged   time.Duration
	pend     map[types.Hash]tri
	skip     map[types.Hash]tri
}

func runC17(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	c := kw.c
	c.tokens, c.apart = 1, true
	settle := 6*time.Second + time.Duration(c.maxWait)*time.Millisecond
	if p.P["faults"] == 1 {
		settle = 25*time.Second + 4*time.Duration(c.maxWait)*time.Millisecond
	}
	if p.Sim.StallP > 0 {
		settle += 10 * time.Second
	}
	hdrs := map[types.Hash][]hdrCopy{}
	copies := map[string]int{}
	topicOf := map[string]string{}
	valueOf := map[string][]byte{}
	for _, n := range kw.order {
		for _, m := range kw.all[n.hash] {
			topicOf[string(m.key)] = m.topic
			valueOf[string(m.key)] = m.value
		}
	}
	bad := ""
	c.onAppend = func(kp *kpart, off int64, r sarama.SimRec) {
		if len(r.Key) < 33 || r.Key[0] == byte(delivery.PingType) {
			return
		}
		t, ok := topicOf[string(r.Key)]
		if !ok {
			if bad == "" {
				bad = fmt.Sprintf("message %x was never produced", r.Key)
			}
			return
		}
		if t != kp.t.name && bad == "" {
			bad = fmt.Sprintf("message %x was sent to %s; the schema assigns it to %s", r.Key, kp.t.name, t)
		}
		if r.Key[0] != byte(delivery.BatchType) && !bytes.Equal(r.Value, valueOf[string(r.Key)]) && bad == "" {
			bad = fmt.Sprintf("message %x has value %x; %x was produced", r.Key, r.Value, valueOf[string(r.Key)])
		}
		copies[string(r.Key)]++
		if r.Key[0] == byte(delivery.BatchType) && kp.t.name == mainTopic {
			h := types.BytesToHash(r.Key[1:33])
			hdrs[h] = append(hdrs[h], hdrCopy{kp.idx, off, w.Now()})
		}
	}
	lo, hi := map[string]int{}, map[string]int{} // copies there must and may be
	main := func() *ktopic { return c.topics[mainTopic] }
	prods := make([]*mprod, p.P["producers"])
	get := func(i int64) *mprod {
		if i >= int64(len(prods)) {
			return nil
		}
		if prods[i] == nil {
			_, url := c.proc(fmt.Sprintf("p%d", i), "")
			m := &mprod{from: map[int32]int64{}, maybeOff: map[int32]int64{}, pend: map[types.Hash]tri{}, skip: map[types.Hash]tri{}, purged: -1}
			before := map[int32]int64{}
			if t := main(); t != nil {
				for _, kp := range t.parts {
					before[kp.idx] = kp.next
					if kp.next > 100 {
						m.maybeOff[kp.idx] = kp.next - 100
					}
				}
			}
			w.Step("starting producer %d", i)
			var err error
			m.k, err = gotP(transports.ResolveProducer(url, mainTopic, kw.schema))
			for try := 0; err != nil && try < 20 && p.P["faults"] == 1; try++ {
				time.Sleep(time.Second)
				m.k, err = gotP(transports.ResolveProducer(url, mainTopic, kw.schema))
			}
			if err != nil {
				w.Fail("producer-error", "a producer could not be started: %v", err)
				return nil
			}
			for _, kp := range main().parts {
				m.from[kp.idx] = kp.next - 100
				_ = before
			}
			m.up = w.Now()
			prods[i] = m
			w.Log("producer %d is up", i)
		}
		return prods[i]
	}
	saw := func(m *mprod, h types.Hash) tri {
		s := no
		now := w.Now()
		for _, x := range hdrs[h] {
			t := maybe
			switch {
			case x.off < m.maybeOff[x.part]:
				t = no // before its window
			case m.purged >= 0 && x.at+settle < m.purged:
				t = no
			case m.purged >= 0 && x.at <= m.purged:
			case x.off < m.from[x.part]:
			case x.at+settle < now && x.at+settle < m.up+settle && p.P["faults"] == 0 && x.at < m.up-time.Second:
				t = yes // was there before it came up
			case x.at+settle < now:
				t = yes
			}
			if t > s {
				s = t
			}
		}
		return s
	}
	calls := 0
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		switch op.K {
		case "raw":
			if main() == nil {
				break
			}
			if op.Arg(0) >= int64(len(kw.order)) {
				break
			}
			n := kw.order[op.Arg(0)]
			ps := main().parts
			for _, m := range kw.all[n.hash] {
				if delivery.MessageType(m.key[0]) == delivery.BatchType {
					c.append(ps[int(op.Arg(1))%len(ps)], c.rec(m.key, m.value))
					lo[string(m.key)]++
					hi[string(m.key)]++
				}
			}
			if calls == 0 {
				for i := int64(0); i < p.P["fill"]; i++ {
					c.append(ps[int(op.Arg(1))%len(ps)], c.rec(nil, []byte("x")))
				}
			}
			w.Probe("header-from-elsewhere")
		case "j":
			if main() != nil {
				ps := main().parts
				c.append(ps[int(op.Arg(1))%len(ps)], c.rec([]byte{0, 1, 2}[:int(op.Arg(2)%4)], nil))
				w.Fault("foreign-message")
			}
		case "f":
			c.chaos(op)
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "a":
			m := get(op.Arg(0))
			if m == nil || op.Arg(1) >= int64(len(kw.order)) {
				break
			}
			n := kw.order[op.Arg(1)]
			b := kw.blks[n.id]
			batches := map[string]types.Hash{}
			for _, s := range b.Subs {
				batches[s.key] = s.id
			}
			known := saw(m, n.hash)
			calls++
			if err := m.k.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.Updates, b.Deletes, batches); err != nil {
				w.Fail("add-error", "AddBlock(%v): %v", n, err)
				return
			}
			if known == no && saw(m, n.hash) != no {
				known = maybe // it came while the call was in progress
			}
			w.Log("add %v to producer %d: seen before: %d", n, op.Arg(0), known)
			for _, s := range b.Subs {
				if known != yes {
					if m.pend[s.id] < yes-known {
						m.pend[s.id] = yes - known
					}
				}
				if known != no && m.skip[s.id] < known {
					m.skip[s.id] = known
				}
			}
			if known == yes {
				w.Probe("skipped")
				w.Probes["nontrivial"] = 1
				break
			}
			for _, x := range kw.all[n.hash] {
				if t := delivery.MessageType(x.key[0]); t != delivery.SubBatchHeaderType && t != delivery.SubBatchMsgType {
					hi[string(x.key)]++
					if known == no {
						lo[string(x.key)]++
					}
				}
			}
			w.Probe("published")
		case "sb":
			m := get(op.Arg(0))
			if m == nil || op.Arg(1) >= int64(len(kw.order)) {
				break
			}
			n := kw.order[op.Arg(1)]
			b := kw.blks[n.id]
			if op.Arg(2) >= int64(len(b.Subs)) {
				break
			}
			s := b.Subs[op.Arg(2)]
			pend, skip := m.pend[s.id], m.skip[s.id]
			err := m.k.SendBatch(s.id, s.deletes, s.updates)
			calls++
			w.Log("batch of %v to producer %d: pending %d skipped %d: %v", n, op.Arg(0), pend, skip, err)
			if err != nil && err != delivery.ErrUnknownBatch {
				w.Fail("batch-error", "SendBatch of %v: %v", n, err)
				return
			}
			if err != nil && (pend == yes || skip == yes) {
				w.Fail("batch-refused", "a batch of %v, which had been added, was refused: %v", n, err)
				return
			}
			if err == nil && pend == no && skip == no {
				w.Fail("batch-accepted", "a batch of %v, which had never been added to this producer, was accepted", n)
				return
			}
			if pend != no {
				for _, x := range kw.all[n.hash] {
					if t := delivery.MessageType(x.key[0]); (t == delivery.SubBatchHeaderType || t == delivery.SubBatchMsgType) && bytes.Equal(x.key[33:65], s.id[:]) {
						hi[string(x.key)]++
						if pend == yes {
							lo[string(x.key)]++
						}
					}
				}
				w.Probe("batch-published")
			}
			m.pend[s.id] = no
		case "P":
			if m := get(op.Arg(0)); m != nil {
				m.k.PurgeReplayCache()
				m.purged = w.Now()
				m.skip = map[types.Hash]tri{}
				w.Probe("purged")
			}
		case "u":
			if m := get(op.Arg(0)); m != nil {
				if err := m.k.SendBatch(mkHash('U', uint64(op.Arg(2)), 0), nil, nil); err == nil {
					w.Fail("batch-accepted", "a batch nobody announced was accepted")
					return
				}
			}
		}
		if bad != "" {
			w.Fail("wrong-message", "%s", bad)
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(calls)}
		for _, tn := range core.SortedKeys(c.topics) {
			for _, kp := range c.topics[tn].parts {
				h = append(h, kp.next)
			}
		}
		w.State(core.Mix(h...))
	}
	time.Sleep(3 * time.Second)
	c.calm()
	w.Calm()
	time.Sleep(20 * time.Second)
	if bad != "" {
		w.Fail("wrong-message", "%s", bad)
		return
	}
	for _, n := range kw.order {
		sum, first := -1, ""
		amb := false
		for _, m := range kw.all[n.hash] {
			k := string(m.key)
			x := copies[k]
			if x < lo[k] {
				w.Fail("not-published", "message %x of %v is in the log %d times; it was to be published %d times", m.key, n, x, lo[k])
				return
			}
			if x > hi[k] && p.P["faults"] == 0 {
				w.Fail("published-again", "message %x of %v is in the log %d times; at most %d are accounted for", m.key, n, x, hi[k])
				return
			}
			if t := delivery.MessageType(m.key[0]); (t == delivery.BatchMsgType || t == delivery.BatchDeleteMsgType) && p.P["faults"] == 0 {
				if sum >= 0 && sum != x {
					w.Fail("partial", "%v was published partly: %x is in the log %d times, %x %d times", n, first, sum, m.key, x)
					return
				}
				sum, first = x, k
			}
			amb = amb || lo[k] != hi[k]
		}
		if !amb && len(kw.all[n.hash]) > 0 {
			w.Probe("block-checked")
		}
	}
	if len(prods) == 0 {
		return
	}
}
