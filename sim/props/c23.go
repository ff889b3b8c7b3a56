package props

import (
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C23", Title: "Websocket consumers can be started and closed at any time", Gen: genC23, Run: runC23, MaxSim: 2 * time.Hour,
		Rule: "one run = real websocket consumers are created, started and closed, in any order and at any moment, against a producer that is up, down, unreachable, slow to resume or unable to; non-trivial = a consumer was closed before it had caught up, or started with no producer; a state = (operations done, connections open, consumers started, ready)",
		Real: wsReal, Stub: wsStub, Floors: map[string]int64{"mux": 0, "consumers": 1, "resslow": 0, "resbuf": 0, "cap": 0, "buf": 0, "wbase": 0}})
}

func genC23(r *core.Rand, p *core.Plan) {
	ids := genWS(r, p, r.Pick(1, 3, 8, 20))
	n := int(p.P["consumers"])
	// The producer has some blocks from the beginning.
	k := r.N(len(ids))
	for _, id := range ids[1 : k+1] {
		p.Add("a", int64(id), -1)
	}
	rest := ids[k+1:]
	if r.P(1, 3) {
		p.Add("crash")
	}
	for i := r.R(3, 14); i > 0; i-- {
		c := int64(r.N(n))
		switch r.N(14) {
		case 0, 1, 2:
			p.Add("start", c)
		case 3, 4:
			p.Add("close", c, int64(r.N(2)))
		case 5:
			p.Add("create", c)
		case 6:
			p.Add("crash")
		case 7, 8:
			p.Add("boot")
		case 9:
			p.Add("cut", c)
		case 10:
			p.Add("heal", c)
		case 11:
			p.Add("x", c)
		case 12:
			p.Add("rerr", int64(r.R(1, 3)))
		case 13:
			if len(rest) > 0 {
				p.Add("a", int64(rest[0]), int64(r.Pick(-1, -1, 0, 1)))
				rest = rest[1:]
			}
		}
		if r.P(1, 2) {
			p.Add("s", int64(r.Pick(1, 2, 3, 5, 8, 1000, 3000, 46000)))
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

func runC23(w *core.World) {
	p := w.Plan
	ww := newWSWorld(w)
	if ww == nil {
		return
	}
	ww.newConsumers(int(p.P["consumers"]))
	if !ww.boot() {
		return
	}
	type life struct {
		*wsConsumer
		began, closed bool
		at            time.Duration // of Close
		isReady       bool
		need          []*node // what it has to hand out before it is ready
		served        bool    // a connection was accepted since Start
	}
	var all []*life
	cur := make([]*life, len(ww.cons))
	create := func(i int) *life {
		c := *ww.cons[i]
		l := &life{wsConsumer: &c}
		if !l.create(ww.settled()) {
			return nil
		}
		l.onPB = func(pb *delivery.PendingBatch) {
			if l.closed && w.Now()-l.at > 2*time.Second {
				w.Fail("after-close", "consumer %s handed out a block %v after it had been closed", l.name, w.Now()-l.at)
			}
		}
		cur[i] = l
		all = append(all, l)
		return l
	}
	closeIt := func(l *life, wait bool) {
		if !l.isReady && l.began {
			w.Probes["nontrivial"] = 1
			w.Fault("close-before-ready")
		} else if !l.began {
			w.Fault("close-before-start")
		}
		w.Log("close %s", l.name)
		at := w.Now()
		k := l.c
		done := func() {
			k.Close()
			if d := w.Now() - at; d > time.Second {
				w.Fail("close-slow", "Close of consumer %s took %v", l.name, d)
			}
			if !l.closed {
				l.closed, l.at = true, w.Now()
			}
		}
		if wait {
			done()
		} else {
			go done()
		}
	}
	for i, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		k := 0
		if len(op.A) > 0 {
			k = int(op.Arg(0)) % len(ww.cons)
		}
		switch op.K {
		case "a":
			n := ww.t.byID[int(op.Arg(0))]
			if n == nil || !ww.up {
				break
			}
			steps := 1 << 20
			if op.Arg(1) >= 0 {
				steps = int(op.Arg(1))
			}
			ww.add(n, steps)
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "create":
			if cur[k] == nil && create(k) == nil {
				return
			}
		case "start":
			l := cur[k]
			if l == nil {
				if l = create(k); l == nil {
					return
				}
			}
			if l.began {
				break
			}
			if !ww.up {
				w.Probes["nontrivial"] = 1
			}
			l.began = true
			for m := ww.head; m != nil && m != l.root; m = m.parent {
				l.need = append(l.need, m)
			}
			w.Log("start %s", l.name)
			l.start()
			got, need, ready := l.got, l.need, l.c.Ready()
			go func() {
				<-ready
				l.isReady = true
				// What was handed over before is not counted yet if the
				// goroutine that takes it has not run since.
				time.Sleep(1)
				w.Log("ready %s", l.name)
				for _, m := range need {
					if got[m.hash] == 0 && ww.canon[m.num] == m {
						w.Fail("ready-early", "consumer %s became ready before it had handed out %v, which was there when it was started", l.name, m)
						return
					}
				}
			}()
		case "close":
			l := cur[k]
			if l == nil {
				break
			}
			closeIt(l, op.Arg(1) == 0)
			if op.Arg(1) == 0 {
				cur[k] = nil
			}
		case "crash":
			if ww.up {
				ww.crash()
			}
		case "boot":
			if !ww.up && !ww.boot() {
				return
			}
		case "cut":
			w.Fault("partition")
			ww.cons[k].host.SetCut(true)
		case "heal":
			ww.cons[k].host.SetCut(false)
		case "x":
			for _, c := range ww.net.Open(ww.cons[k].name) {
				w.Fault("connection-reset")
				c.Reset()
			}
		case "rerr":
			ww.resErrs = int(op.Arg(0))
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(i), int64(len(ww.net.Open("")))}
		for _, l := range all {
			h = append(h, b2i(l.started), b2i(l.isReady), b2i(l.closed))
		}
		w.State(core.Mix(h...))
	}
	w.Calm()
	// The producer is there for good.
	ww.resErrs = 0
	for _, c := range ww.cons {
		c.host.SetCut(false)
	}
	if !ww.up && !ww.boot() {
		return
	}
	w.Step("waiting for the consumers that are still open")
	open := func(l *life) bool { return l.began && !l.closed }
	behind := func() *life {
		for _, l := range all {
			if open(l) && (!l.started || !l.isReady || l.v.tip() != ww.head.hash) {
				return l
			}
		}
		return nil
	}
	until := w.Now() + 3*time.Minute
	for w.Now() < until && behind() != nil && !w.Failed() {
		time.Sleep(time.Second)
	}
	for _, l := range all {
		l.wsConsumer.check()
	}
	if w.Failed() {
		return
	}
	if l := behind(); l != nil {
		switch {
		case !l.started:
			w.Fail("never-started", "Start of consumer %s had not returned 3 minutes after the producer was there for good", l.name)
		case l.v.tip() != ww.head.hash:
			w.Fail("not-converged", "consumer %s stayed at %s; the producer's chain ends at %v", l.name, l.v.nm(l.v.tip()), ww.head)
		default:
			w.Fail("never-ready", "consumer %s has everything and is not ready", l.name)
		}
		return
	}
	for _, l := range all {
		switch {
		case open(l) && l.startE != nil:
			w.Fail("consumer-error", "Start of consumer %s, which was not closed, failed: %v", l.name, l.startE)
			return
		case l.began && l.closed && !l.started:
			w.Fail("start-stuck", "Start of consumer %s had not returned minutes after Close", l.name)
			return
		}
		if open(l) {
			// Asking again gives the same answer.
			for i := 0; i < 2; i++ {
				select {
				case <-l.c.Ready():
				default:
					w.Fail("ready-once", "consumer %s had been ready and is not", l.name)
					return
				}
			}
			w.Probe("ready")
		}
	}
	for _, l := range all {
		w.Step("closing %s", l.name)
		if !l.closed {
			closeIt(l, true)
		} else if w.Rand.P(1, 2) {
			l.c.Close() // again
		}
	}
	time.Sleep(time.Minute)
	if n := len(ww.net.Open("")); n > 0 {
		w.Fail("leftover", "%d connections are still open a minute after all consumers were closed", n)
		return
	}
	// Blocks nobody should be given.
	seq := 1 << 20
	for i := 0; i < 2; i++ {
		seq++
		n := ww.t.add(seq, ww.head.id, 100, p.P["base"])
		ww.blks[n.id] = blkOf(n, content{})
		ww.add(n, 1<<20)
	}
	time.Sleep(5 * time.Second)
	for _, l := range all {
		for _, h := range []types.Hash{ww.head.hash, ww.head.phash} {
			if l.got[h] > 0 {
				w.Fail("after-close", "consumer %s handed out a block that was added after it had been closed", l.name)
				return
			}
		}
	}
	if n := len(ww.net.Open("")); n > 0 {
		w.Fail("leftover", "%d connections were opened after all consumers were closed", n)
	}
}
