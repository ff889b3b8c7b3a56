package props

import (
	"math/big"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C16", Title: "A Kafka consumer reports ready exactly when it has caught up", Gen: genC16, Run: runC16, MaxSim: 2 * time.Hour,
		Rule: "one run = a simulated cluster whose partitions are full, empty, emptied by retention or growing, with heartbeats and foreign messages among the blocks; a real Kafka consumer starts, with or without a known last block, and is asked for readiness; non-trivial = there was something to catch up with; a state = (log ends, blocks received, ready)",
		Real: kafkaReal[1:], Stub: append([]string{"producers: messages from real delivery.Producers appended to the log by the harness"}, kafkaStub...), Floors: map[string]int64{"parts": 1, "schema": 0, "brokers": 1, "producers": 1}})
}

func genC16(r *core.Rand, p *core.Plan) {
	genKafka(r, p, r.Pick(1, 2, 4, 7, 30))
	p.P["precreate"] = 1
	p.P["producers"] = int64(r.Pick(1, 1, 2))
	p.P["maxwait"] = int64(r.Pick(50, 100, 500, 2000))
	p.P["empty"] = int64(r.Pick(0, 0, 0, 1))
	p.P["slow"] = int64(r.Pick(0, 0, 0, 5, 300, 2000))
	p.P["late"] = int64(r.Pick(0, 0, 1)) // nobody asks for readiness until late
	if r.P(1, 4) {
		p.P["emptied"] = 1
	}
	total := 0
	for _, o := range p.Ops {
		if o.K == "c" {
			total += 2 + int(o.A[2]+o.A[3]+5*o.A[4])
		}
	}
	pub := func(n int) {
		for n > 0 {
			k := r.R(1, 1+n/3)
			p.Add("p", int64(r.N(int(p.P["producers"]))), int64(k))
			n -= k
			if r.P(1, 12) {
				p.Add("j", int64(r.N(16)), int64(r.N(12)), int64(r.U64()>>1))
			}
		}
	}
	before := r.Pick(0, total/2, total, 2*total)
	pub(before)
	p.Add("start")
	after := r.Pick(0, 0, total/3, total)
	for i := r.N(12); i > 0; i-- {
		switch {
		case r.P(1, 3):
			p.Add("f", 0, int64(r.Pick(0, 1, 3, 4, 5, 6, 7, 8)), int64(r.N(1000)), int64(r.Pick(5, 100, 300)))
		case r.P(1, 3):
			pub(after / 4)
		case r.P(1, 4):
			p.Add("j", int64(r.N(16)), int64(r.N(12)), int64(r.U64()>>1))
		default:
			p.Add("s", int64(r.Pick(1, 30, 200, 500, 900, 1500, 4000, 7000)))
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

// junk appends a message that is no part of a block.
func (kw *kworld) junk(kind, where, x int64) {
	pt := kw.b.parts[int(where)%len(kw.b.parts)]
	r := core.NewRand(uint64(x))
	id := mkHash('P', uint64(x%5), 0)
	now, _ := time.Now().MarshalBinary()
	var key, val []byte
	switch kind {
	case 0, 1, 2, 3: // heartbeat
		key, val = delivery.PingType.GetKey(id[:]), now
		pt = kw.b.byTopic[mainTopic][int(where)%len(kw.b.byTopic[mainTopic])]
	case 4: // tombstone or keyless message
		val = now
	case 5: // heartbeat of another kind
		key, val = delivery.PingType.GetKey([]byte("x")[:r.N(2)]), now
	case 6: // end of a reorg nobody announced
		key, val = delivery.ReorgCompleteType.GetKey(id[:]), delivery.AvroInt(7)
	case 7: // reorg of a kind whose topic is gone
		key, val = delivery.ReorgType.GetKey(id[:]), delivery.AvroInt(7)
	case 8: // unknown type
		key, val = append([]byte{byte(r.R(8, 200))}, id[:]...), now
	default: // other applications' keys
		key, val = []byte("some key of another application")[:r.R(1, 31)], now
	}
	kw.w.Fault("foreign-message")
	// The mirror needs an offset for it too.
	m := &Msg{key: append([]byte{0xff}, make([]byte, 32)...), topic: ""}
	pt.log = append(pt.log, m.at(pt.name, pt.end()))
	kw.c.append(kw.kpart(pt), kw.c.rec(key, val))
}

func runC16(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	root := kw.t.byID[0]
	kw.c.onAppend = nil
	kw.c.tokens, kw.c.apart = 2, true
	tracked := regexps([]string{".*"})
	for _, pt := range kw.b.parts {
		kw.kpart(pt)
	}
	if p.P["emptied"] == 1 && p.P["base"] == 0 {
		// A partition whose messages are all gone.
		pt := kw.b.parts[int(p.Seed%uint64(len(kw.b.parts)))]
		for i := 0; i < 1+int(p.Seed%9); i++ {
			kw.c.append(kw.kpart(pt), kw.c.rec(nil, nil))
		}
		kw.kpart(pt).truncate(1000)
		pt.first = kw.kpart(pt).first
		w.Probe("emptied")
	}
	_, url := kw.c.proc("c", "")
	k := &kconsumer{stop: make(chan struct{})}
	cfg := &delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: 64, TrackedPrefixes: tracked}
	if p.P["empty"] == 1 {
		cfg = &delivery.ConsumerConfig{ReorgThreshold: 64, TrackedPrefixes: tracked}
	}
	start := map[string]int64{}
	var wantBy map[types.Hash]bool // complete when it started
	var startedAt, readyAt time.Duration
	ready := make(chan struct{})
	begun := false
	fullFrom := func() map[types.Hash]bool {
		full := map[types.Hash]bool{}
		have := map[types.Hash]map[string]bool{}
		for _, pt := range kw.b.parts {
			for _, m := range pt.log {
				if m.off >= start[pt.name] {
					h := types.BytesToHash(m.key[1:33])
					if have[h] == nil {
						have[h] = map[string]bool{}
					}
					have[h][string(m.key)] = true
				}
			}
		}
		for _, n := range kw.order {
			ok := true
			for key := range kw.blks[n.id].needed(kw.all[n.hash], kw.ref, tracked) {
				if !have[n.hash][key] {
					ok = false
				}
			}
			full[n.hash] = ok
		}
		return full
	}
	got := map[types.Hash]int{}
	for _, op := range p.Ops {
		switch op.K {
		case "p":
			kw.kpublish(int(op.Arg(0)), int(op.Arg(1)))
		case "j":
			kw.junk(op.Arg(0), op.Arg(1), op.Arg(2))
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "f":
			kw.c.chaos(op)
		case "start":
			if begun {
				break
			}
			w.Step("starting the consumer")
			var err error
			if k.c, err = gotC(transports.ResolveConsumer(url, mainTopic, kw.topics, nil, 0, cfg)); err != nil {
				w.Fail("consumer-error", "a consumer could not be created on a healthy cluster: %v", err)
				return
			}
			for _, pt := range kw.b.parts {
				start[pt.name] = pt.first
				if p.P["empty"] == 1 && pt.end()-1 > pt.first {
					start[pt.name] = pt.end() - 1
				}
			}
			wantBy = fullFrom()
			pch := make(chan *delivery.PendingBatch, int(p.Seed%2))
			k.c.Subscribe(pch)
			go func() {
				for {
					select {
					case pb := <-pch:
						if p.P["slow"] > 0 {
							time.Sleep(time.Duration(w.Rand.N(int(p.P["slow"]))) * time.Millisecond / 10)
						}
						k.pbs = append(k.pbs, pb)
						got[pb.Hash]++
					case <-k.stop:
						return
					}
				}
			}()
			if err := k.c.Start(); err != nil {
				w.Fail("consumer-error", "a consumer could not be started on a healthy cluster: %v", err)
				return
			}
			begun, startedAt = true, w.Now()
			go func() {
				if p.P["late"] == 1 {
					time.Sleep(20 * time.Second)
				}
				<-k.c.Ready()
				readyAt = w.Now()
				for _, n := range kw.order {
					if wantBy[n.hash] && got[n.hash] == 0 {
						w.Fail("ready-early", "the consumer reported ready %v after it was started, before it handed out %v, which was there when it started", readyAt-startedAt, n)
						break
					}
				}
				w.Log("ready")
				close(ready)
			}()
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(len(got)), int64(readyAt)}
		for _, pt := range kw.b.parts {
			h = append(h, pt.end())
		}
		w.State(core.Mix(h...))
	}
	if !begun {
		return
	}
	kw.c.calm()
	w.Calm()
	// Everybody falls silent.
	bound := 40*time.Second + time.Duration(kw.c.maxWait)*time.Duration(4*len(kw.b.parts))*time.Millisecond
	w.Step("waiting for Ready")
	t := time.NewTimer(bound)
	select {
	case <-ready:
		t.Stop()
	case <-t.C:
		w.Fail("never-ready", "the consumer was not ready %v after all messages were there", bound)
		return
	}
	if w.Failed() {
		return
	}
	// Once ready, always ready.
	time.Sleep(time.Second)
	for i := 0; i < 3; i++ {
		select {
		case <-k.c.Ready():
		default:
			w.Fail("ready-once", "the consumer had been ready, but Ready() number %d blocks", i+2)
			return
		}
	}
	kw.kcomplete()
	full := fullFrom()
	kw.settle(60*time.Second, func() bool {
		for _, n := range kw.order {
			if full[n.hash] && got[n.hash] == 0 {
				return false
			}
		}
		return true
	})
	for _, n := range kw.order {
		if full[n.hash] && got[n.hash] == 0 {
			w.Fail("missing", "the consumer was not given %v, all of whose messages lie after where it started", n)
			return
		}
		if !full[n.hash] && got[n.hash] > 0 {
			w.Fail("history", "the consumer was given %v although its messages lie before where it started", n)
			return
		}
		if got[n.hash] > 1 {
			w.Fail("emitted-twice", "the consumer was given %v %d times", n, got[n.hash])
			return
		}
	}
	w.Step("closing the consumer")
	k.c.Close()
	w.Probe("closed")
	if len(wantBy) > 0 {
		w.Probes["nontrivial"] = 1
	}
	n := len(k.pbs)
	for _, nd := range kw.order[:1] {
		for _, m := range kw.all[nd.hash] {
			kw.kput(m, nd.hash)
		}
	}
	time.Sleep(5 * time.Second)
	if len(k.pbs) > n {
		w.Fail("after-close", "a block was handed out after Close had returned")
	}
	close(k.stop)
}
