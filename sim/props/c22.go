package props

import (
	"time"

	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C22", Title: "No websocket subscriber can stop the producer or the others", Gen: genC22, Run: runC22, MaxSim: 6 * time.Hour,
		Rule: "one run = a real websocket producer publishes more blocks than its buffers hold to healthy real consumers and to subscribers that stop reading, disappear, hang up, send nonsense or cannot be resumed, at any point; non-trivial = a subscriber misbehaved; a state = (blocks added, head, subscribers' messages)",
		Real: wsReal, Stub: wsStub, Floors: map[string]int64{"mux": 0, "consumers": 1, "resslow": 0, "resbuf": 0, "cap": 300, "buf": 0, "wbase": 0, "bad": 0, "tail": 1}})
}

func genC22(r *core.Rand, p *core.Plan) {
	ids := genWS(r, p, r.Pick(2, 4, 8, 16))
	p.P["consumers"] = int64(r.Pick(1, 1, 2))
	p.P["bad"] = int64(r.Pick(1, 2, 3))
	p.P["cap"] = int64(r.Pick(300, 300, 2000, 20000))
	p.P["resslow"] = int64(r.Pick(0, 0, 1))
	p.P["tail"] = int64(r.Pick(0, 0, 1))
	bulk := r.P(1, 2) // enough to fill all buffers
	// Resumptions that are longer than all buffers, for those who hang up.
	long := r.P(1, 4)
	if long {
		p.Add("bulk", int64(r.R(300, 700)))
		bulk = false
		p.P["bad"] = int64(r.R(2, 3))
	}
	p.Add("start", 0)
	for b := int64(0); b < p.P["bad"]; b++ {
		if r.P(1, 2) {
			p.Add("bulk", int64(r.Pick(1, 10, 400)))
		}
		if long && r.P(3, 4) {
			p.Add("bad", b, 4, 0, int64(r.U64()>>1))
			continue
		}
		p.Add("bad", b, int64(r.N(8)), int64(r.Pick(0, 1, 5, 400)), int64(r.U64()>>1))
		if bulk && r.P(1, 2) {
			p.Add("bulk", int64(r.Pick(10, 1000, 1500)))
		}
		if r.P(1, 3) {
			p.Add("s", int64(r.Pick(1, 100, 5000, 130000)))
		}
	}
	if p.P["consumers"] > 1 {
		p.Add("start", 1)
	}
	if bulk {
		p.Add("bulk", int64(r.Pick(10, 1300, 1600)))
	}
	for _, id := range ids[1:] {
		p.Add("a", int64(id))
		if r.P(1, 4) {
			p.Add("s", int64(r.Pick(1, 30, 1100)))
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
	p.Sim.StepBudget = 20000000 // thousands of blocks for up to five subscribers
}

func runC22(w *core.World) {
	p := w.Plan
	ww := newWSWorld(w)
	if ww == nil {
		return
	}
	ww.newConsumers(int(p.P["consumers"]))
	ww.newRaws(int(p.P["bad"]))
	if !ww.boot() {
		return
	}
	// A call may wait for a subscriber that stopped reading until the server
	// gives up on it: usually 120 s after the first write that got nowhere, and
	// in any case after 4 minutes.
	const most = 4 * time.Minute
	var worst time.Duration
	add := func(n *node) {
		at := w.Now()
		ww.add(n, 1<<20)
		if d := w.Now() - at; d > worst {
			worst = d
		}
		if d := w.Now() - at; d > most {
			w.Fail("producer-blocked", "publishing %v took %v", n, d)
		}
	}
	last := ww.t.byID[0]
	seq := 1 << 20
	grow := func(k int) {
		// Blocks on top of the head that no block of the plan competes with.
		for ; k > 0 && !w.Failed(); k-- {
			last = ww.head
			seq++
			n := ww.t.add(seq, last.id, 100, p.P["base"])
			ww.blks[n.id] = blkOf(n, content{seed: uint64(seq), nu: seq % 2})
			add(n)
		}
	}
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		switch op.K {
		case "a":
			if n := ww.t.byID[int(op.Arg(0))]; n != nil && n.parent != nil {
				add(n)
			}
		case "bulk":
			grow(int(op.Arg(0)))
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "start":
			c := ww.cons[int(op.Arg(0))%len(ww.cons)]
			if c.c == nil {
				if !c.create(ww.t.byID[0]) {
					return
				}
				c.start()
			}
		case "bad":
			if int(op.Arg(0)) >= len(ww.raws) {
				break
			}
			b := ww.raws[op.Arg(0)]
			if b.conn != nil {
				break
			}
			if err := b.dial(); err != nil {
				w.Fail("refused", "a subscriber could not connect: %v", err)
				return
			}
			w.Probes["nontrivial"] = 1
			r := core.NewRand(uint64(op.Arg(3)))
			root := ww.t.byID[0]
			after := int(op.Arg(2))
			kind := op.Arg(1)
			go func() {
				switch kind {
				case 0: // stops reading
					w.Fault("subscriber-stalls")
					b.subscribe(root.num, root.hash)
					b.read(after)
				case 1: // disappears
					w.Fault("subscriber-vanishes")
					b.subscribe(root.num, root.hash)
					b.read(after)
					b.host.SetCut(true)
				case 2: // hangs up
					w.Fault("subscriber-hangs-up")
					b.subscribe(root.num, root.hash)
					b.read(after)
					b.conn.Close()
				case 3: // connection breaks
					w.Fault("connection-reset")
					b.subscribe(root.num, root.hash)
					b.read(after)
					for _, k := range ww.net.Open(b.name) {
						k.Reset()
					}
				case 4: // hangs up at once
					w.Fault("subscriber-hangs-up")
					b.subscribe(root.num, root.hash)
					b.conn.Close()
				case 5: // sends nonsense
					w.Fault("nonsense")
					for i := 0; i < 1+r.N(5); i++ {
						b.conn.WriteMessage(1+r.N(2), []byte([]string{
							"", "{", "[]", "null", "[{}]", "{\"id\":1}", "\"x\"",
							`{"jsonrpc":"2.0","id":1,"method":"cardinal_subscribe","params":["nothing"]}`,
							`{"jsonrpc":"2.0","id":1,"method":"cardinal_subscribe","params":["streams","0x1"]}`,
							`{"jsonrpc":"2.0","id":1,"method":"cardinal_subscribe","params":["streams",7,{}]}`,
							`{"jsonrpc":"2.0","id":1,"method":"cardinal_streamsBlock","params":["0xffffffffffffffff"]}`,
							`{"jsonrpc":"2.0","id":1,"method":"cardinal_streamsBlock","params":[]}`,
							`{"jsonrpc":"2.0","id":1,"method":"cardinal_nothing","params":["0x1"]}`,
						}[r.N(13)]))
					}
					b.read(after)
				case 6: // far ahead of the chain, then stops reading
					w.Fault("subscriber-stalls")
					b.subscribe(root.num+1000000, root.hash)
					b.read(after)
				case 7: // cannot be resumed
					ww.resErrs++
					b.subscribe(root.num, root.hash)
					b.read(after)
				}
			}()
			if r.P(1, 2) {
				time.Sleep(time.Duration(r.N(20)) * time.Millisecond)
			}
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(len(ww.have)), int64(ww.head.id)}
		for _, b := range ww.raws {
			h = append(h, int64(b.msgs))
		}
		w.State(core.Mix(h...))
	}
	w.Calm()
	w.Step("waiting for the consumers")
	behind := func() *wsConsumer {
		for _, c := range ww.cons {
			if c.c != nil && (c.v.tip() != ww.head.hash || !c.started) {
				return c
			}
		}
		return nil
	}
	wait := func() bool {
		until := w.Now() + 5*time.Minute
		for w.Now() < until && behind() != nil && !w.Failed() {
			time.Sleep(time.Second)
		}
		for _, c := range ww.cons {
			if c.c != nil {
				c.check()
			}
		}
		if c := behind(); c != nil && !w.Failed() {
			w.Fail("others-starved", "consumer %s stayed at %s; the producer's chain ends at %v", c.name, c.v.nm(c.v.tip()), ww.head)
		}
		return !w.Failed()
	}
	if !wait() {
		return
	}
	// Once everybody has left nothing may be left of them: publishing more than
	// all buffers hold must not wait for anybody.
	w.Step("after all subscribers left")
	for _, b := range ww.raws {
		if b.conn != nil {
			for _, k := range ww.net.Open(b.name) {
				k.Reset()
			}
		}
	}
	time.Sleep(10 * time.Minute)
	worst = 0
	if p.P["tail"] == 1 {
		grow(1100)
	}
	if w.Failed() {
		return
	}
	if worst > time.Second {
		w.Fail("producer-blocked", "publishing took %v with nobody but healthy subscribers left", worst)
		return
	}
	if !wait() {
		return
	}
	for _, c := range ww.cons {
		if c.c != nil {
			c.c.Close()
		}
	}
	time.Sleep(10 * time.Minute)
	for i, ctx := range ww.resCtx {
		if ctx.Err() == nil {
			w.Fail("leftover", "the context of resumption %d is still alive 10 minutes after all subscribers left", i)
			return
		}
	}
	if n := len(ww.net.Open("")); n > 0 {
		w.Fail("leftover", "%d connections are still open 10 minutes after all subscribers left", n)
		return
	}
	worst = 0
	if p.P["tail"] == 1 {
		grow(1300)
	}
	if !w.Failed() && worst > time.Second {
		w.Fail("producer-blocked", "publishing took %v with no subscriber left", worst)
	}
}
