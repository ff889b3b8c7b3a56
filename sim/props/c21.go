package props

import (
	"time"

	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C21", Title: "Websocket consumers get every block through every interruption", Gen: genC21, Run: runC21, MaxSim: 2 * time.Hour,
		Rule: "one run = a real websocket producer publishes a block tree with forks and sub-batches while real websocket consumers connect, lose their connections, are restarted and reconnect, and the producer's process crashes and comes back; non-trivial = a connection was lost or a consumer started with blocks to catch up; a state = (blocks added, head, each consumer's tip)",
		Real: wsReal, Stub: wsStub, Floors: map[string]int64{"mux": 0, "consumers": 1, "resslow": 0, "resbuf": 0, "cap": 0, "buf": 0, "wbase": 0}})
}

func genC21(r *core.Rand, p *core.Plan) {
	ids := genWS(r, p, r.Pick(2, 4, 8, 16, 30))
	n := int(p.P["consumers"])
	faults := r.Pick(0, 3, 10, 30)
	pauses := r.P(1, 2)
	order := ids[1:]
	if r.P(1, 30) {
		p.P["cap"] = 0
		p.Add("big", int64(ids[r.N(len(ids))]), int64(r.N(3)), int64(r.Pick(100000, 1000000, 4000000)))
	}
	began := 0
	burst := -1 // where a consumer's connection starts to break over and over
	if r.P(1, 10) {
		burst = r.N(len(order))
	}
	for i, id := range order {
		for began < n && r.P(1, 3) {
			p.Add("start", int64(began))
			began++
		}
		cut := int64(-1)
		if r.P(faults, 300) {
			cut = int64(r.N(5))
		}
		p.Add("a", int64(id), cut)
		if pauses && r.P(1, 2) {
			p.Add("s", int64(r.Pick(1, 2, 5, 30, 300, 1100, 3000)))
		}
		if r.P(faults, 100) {
			k := int64(r.N(n))
			switch r.N(8) {
			case 0, 1:
				p.Add("x", k)
			case 2:
				p.Add("cut", k, int64(r.Pick(1, 50, 2000, 20000)))
			case 3:
				p.Add("down", int64(r.Pick(1, 500, 3000)))
			case 4:
				p.Add("crash", int64(r.Pick(1, 500, 3000)))
			case 5:
				p.Add("rerr", int64(r.R(1, 3)))
			case 6:
				p.Add("re", k)
			case 7:
				p.Add("slow", k, int64(r.Pick(0, 1, 20)))
			}
		}
		if i == burst {
			k := int64(r.N(n))
			for j := r.R(9, 25); j > 0; j-- {
				p.Add("x", k)
				p.Add("s", int64(r.Pick(5, 20, 60, 300)))
			}
		}
	}
	for ; began < n; began++ {
		p.Add("start", int64(began))
	}
	if r.P(1, 3) {
		p.Add("s", int64(r.Pick(1, 300, 3000)))
		p.Add("x", int64(r.N(n)))
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

func runC21(w *core.World) {
	p := w.Plan
	ww := newWSWorld(w)
	if ww == nil {
		return
	}
	ww.newConsumers(int(p.P["consumers"]))
	if !ww.boot() {
		return
	}
	wrand := w.Rand
	ww.pause = func() {
		if wrand.P(1, 4) {
			time.Sleep(time.Duration(wrand.N(5000)) * time.Microsecond)
		}
	}
	pick := func(i int64) *wsConsumer { return ww.cons[int(i)%len(ww.cons)] }
	var wake []func() // what ends the faults still going on
	begin := func(c *wsConsumer, root *node) bool {
		if !c.create(root) {
			return false
		}
		if root != ww.head {
			w.Probes["nontrivial"] = 1
		}
		c.start()
		return true
	}
	reboot := func(ms int64) bool {
		time.Sleep(time.Duration(ms) * time.Millisecond)
		return ww.boot()
	}
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		switch op.K {
		case "a":
			n := ww.t.byID[int(op.Arg(0))]
			if n == nil {
				break
			}
			steps := 1 << 20
			if op.Arg(1) >= 0 {
				steps = int(op.Arg(1))
			}
			ww.add(n, steps)
			if !ww.up && !reboot(int64(1+w.Rand.N(2000))) {
				return
			}
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "start":
			if c := pick(op.Arg(0)); c.c == nil && !begin(c, ww.settled()) {
				return
			}
		case "re":
			if c := pick(op.Arg(0)); c.c != nil && c.started {
				w.Fault("consumer-restart")
				c.check()
				c.c.Close()
				close(c.stop)
				c.pbs = nil
				if !begin(c, ww.settled()) {
					return
				}
			}
		case "x":
			for _, k := range ww.net.Open(pick(op.Arg(0)).name) {
				w.Fault("connection-reset")
				w.Probes["nontrivial"] = 1
				k.Reset()
			}
		case "cut":
			h := pick(op.Arg(0)).host
			w.Fault("partition")
			h.SetCut(true)
			d := time.Duration(op.Arg(1)) * time.Millisecond
			wake = append(wake, func() { h.SetCut(false) })
			go func() {
				time.Sleep(d)
				h.SetCut(false)
			}()
		case "down":
			w.Fault("unreachable")
			w.Probes["nontrivial"] = 1
			for _, c := range ww.cons {
				c.host.SetDown(true)
			}
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
			for _, c := range ww.cons {
				c.host.SetDown(false)
			}
		case "crash":
			w.Probes["nontrivial"] = 1
			ww.crash()
			if !reboot(op.Arg(0)) {
				return
			}
		case "rerr":
			ww.resErrs = int(op.Arg(0))
		case "slow":
			pick(op.Arg(0)).slow = op.Arg(1)
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(len(ww.have)), int64(ww.head.id)}
		for _, c := range ww.cons {
			if c.v != nil {
				h = append(h, int64(ww.t.byHash[c.v.tip()].id))
			}
		}
		w.State(core.Mix(h...))
	}
	for _, f := range wake {
		f()
	}
	ww.resErrs = 0
	for _, c := range ww.cons {
		c.slow = 0
	}
	w.Calm()
	w.Step("waiting for the consumers")
	until := w.Now() + 3*time.Minute
	behind := func() *wsConsumer {
		for _, c := range ww.cons {
			if c.c != nil && (c.v.tip() != ww.head.hash || !c.started) {
				return c
			}
		}
		return nil
	}
	for w.Now() < until && behind() != nil && !w.Failed() {
		time.Sleep(time.Second)
	}
	time.Sleep(time.Second)
	for _, c := range ww.cons {
		if c.c != nil {
			c.check()
			if w.Failed() {
				return
			}
		}
	}
	if c := behind(); c != nil {
		if !c.started {
			w.Fail("never-started", "Start of consumer %s had not returned 3 minutes after all faults ended", c.name)
			return
		}
		w.Fail("not-converged", "consumer %s stayed at %s; the producer's chain ends at %v", c.name, c.v.nm(c.v.tip()), ww.head)
		return
	}
	for _, c := range ww.cons {
		if c.c == nil {
			continue
		}
		if c.startE != nil {
			w.Fail("consumer-error", "Start of consumer %s failed: %v", c.name, c.startE)
			return
		}
		select {
		case <-c.c.Ready():
		case <-time.After(10 * time.Second):
			w.Fail("never-ready", "consumer %s has everything and is not ready", c.name)
			return
		}
		w.Probe("converged")
		c.c.Close()
	}
}
