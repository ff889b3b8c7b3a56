package props

import (
	"fmt"
	"math/big"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C29", Title: "Announced reorgs reach websocket consumers once and in order", Gen: genC29, Run: runC29, MaxSim: 6 * time.Hour,
		Rule: "one run = a real websocket producer publishes a chain, announces a reorg to one of its blocks and publishes another branch, repeatedly, to real websocket consumers that start at any time, are slow, and lose their connections between announcements; non-trivial = an announcement was made while earlier blocks were still on their way; a state = (blocks published, announcements, received by each consumer)",
		Real: wsReal, Stub: wsStub, Floors: map[string]int64{"mux": 0, "consumers": 1, "resslow": 0, "resbuf": 0, "cap": 0, "buf": 0, "wbase": 0, "slow": 0}})
}

func genC29(r *core.Rand, p *core.Plan) {
	p.P["base"] = int64(r.Pick(0, 1, 1000, 1<<40))
	p.P["wbase"] = int64(r.Pick(0, 0, 1, 2, 3, 4, 5))
	n := r.Pick(1, 1, 2, 3)
	p.P["consumers"] = int64(n)
	p.P["mux"] = int64(r.Pick(0, 0, 1, 2, 3))
	p.P["threshold"] = int64(r.Pick(8, 64))
	p.P["slow"] = int64(r.Pick(0, 0, 1, 20))
	p.P["resslow"] = int64(r.Pick(0, 0, 1, 5))
	p.P["resbuf"] = int64(r.Pick(0, 0, 1, 100))
	p.P["cap"] = int64(r.Pick(0, 0, 300, 5000))
	big := r.Pick(0, 0, 2, 5)
	faults := r.Pick(0, 0, 1)
	id, began := 0, 0
	p.Add("b", 0, -1, 1)
	chain := []int{0}
	for k := r.R(1, 3) + 1; k > 0; k-- {
		if id > 0 {
			at := r.N(len(chain))
			if r.P(1, 2) {
				at = maxInt(0, len(chain)-1-r.N(12))
			}
			if r.P(1, 5) {
				p.Add("s", int64(r.Pick(1, 300)))
			}
			p.Add("g", int64(chain[at]))
			chain = append([]int(nil), chain[:at+1]...)
			if faults == 1 && r.P(1, 3) {
				p.Add("x", int64(r.N(n)))
			}
		}
		from := len(chain)
		for i := r.Pick(1, 3, 10, 25); i > 0; i-- {
			for began < n && r.P(1, 3) {
				p.Add("start", int64(began), int64(r.N(40)))
				began++
			}
			id++
			p.Add("b", int64(id), int64(chain[len(chain)-1]), int64(r.Pick(1, 2, 5)))
			p.Add("c", int64(id), int64(r.U64()>>1), int64(r.N(2+big)), int64(r.N(1+big)), int64(r.Pick(0, 0, 0, 1, 2)))
			p.Add("a", int64(id))
			chain = append(chain, id)
			if r.P(1, 12) {
				p.Add("again", int64(chain[from+r.N(len(chain)-from)]))
			}
			if r.P(1, 12) {
				p.Add("s", int64(r.Pick(1, 300)))
			}
			if faults == 1 && r.P(1, 12) {
				p.Add("x", int64(r.N(n)))
			}
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

type c29ev struct {
	reorg bool
	hash  types.Hash
	num   int64
}

type c29cons struct {
	wc        *wsConsumer
	k         transports.Consumer
	got, want []c29ev
	bad       string
	started   bool
	err       error
}

func runC29(w *core.World) {
	p := w.Plan
	ww := newWSWorld(w)
	if ww == nil {
		return
	}
	ww.newConsumers(int(p.P["consumers"]))
	if !ww.boot() {
		return
	}
	stop := make(chan struct{})
	defer close(stop)
	cons := make([]*c29cons, len(ww.cons))
	unsettled := time.Duration(0) // until when connections may not be back
	ref := newSchemaRef(map[string]string{})
	all := regexps([]string{".*"})
	create := func(i int64, root *node) bool {
		wc := ww.cons[i]
		cfg := &delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: p.P["threshold"], TrackedPrefixes: all}
		k, err := wsClient(ww, wc.name, cfg)
		if err != nil {
			w.Fail("consumer-error", "a websocket consumer could not be created: %v", err)
			return false
		}
		c := &c29cons{wc: wc, k: k}
		cons[i] = c
		// Unbuffered, so that the order of updates and announcements shows.
		cch, rch := make(chan *delivery.ChainUpdate), make(chan map[int64]types.Hash)
		k.Subscribe(cch)
		k.SubscribeReorg(rch)
		go func() {
			for {
				select {
				case u := <-cch:
					if len(u.Removed()) > 0 && c.bad == "" {
						c.bad = fmt.Sprintf("an update removed %s", names(ww.t, u.Removed()))
					}
					for _, pb := range u.Added() {
						c.got = append(c.got, c29ev{false, pb.Hash, pb.Number})
						if n := ww.t.byHash[pb.Hash]; n != nil && c.bad == "" {
							if d := ww.blks[n.id].diffMeta(pb); d != "" {
								c.bad = fmt.Sprintf("%v: %s", n, d)
							} else if d := ww.blks[n.id].want(ref, all).diff(pb); d != "" {
								c.bad = fmt.Sprintf("%v: %s", n, d)
							}
						}
					}
					if p.P["slow"] > 0 {
						time.Sleep(time.Duration(p.P["slow"]) * time.Millisecond)
					}
					u.Done()
				case m := <-rch:
					for n, h := range m {
						c.got = append(c.got, c29ev{true, h, n})
					}
				case <-stop:
					return
				}
			}
		}()
		var path []*node
		for n := ww.head; n != nil && n != root; n = n.parent {
			path = append([]*node{n}, path...)
		}
		for _, n := range path {
			c.want = append(c.want, c29ev{false, n.hash, n.num})
		}
		go func() {
			c.err = k.Start()
			c.started = true
		}()
		return true
	}
	// settle waits until every consumer follows the producer live.
	settle := func() bool {
		for _, c := range cons {
			if c == nil {
				continue
			}
			select {
			case <-c.k.Ready():
			case <-time.After(5 * time.Minute):
				w.Fail("never-ready", "consumer %s is not ready minutes after its start", c.wc.name)
				return false
			}
		}
		if d := unsettled - w.Now(); d > 0 {
			time.Sleep(d)
		}
		return true
	}
	expect := func(e c29ev) {
		for _, c := range cons {
			if c != nil {
				c.want = append(c.want, e)
			}
		}
	}
	show := func(e c29ev) string {
		s := "unknown"
		if n := ww.t.byHash[e.hash]; n != nil {
			s = n.String()
		}
		if e.reorg {
			s = "reorg to " + s
		}
		return s
	}
	announcements := 0
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		n := ww.t.byID[int(op.Arg(0))]
		switch op.K {
		case "start":
			i := op.Arg(0) % int64(len(cons))
			if cons[i] != nil {
				continue
			}
			// A block of the present branch, not before the latest reorg's target:
			// whoever starts from before it gets the present branch anyway.
			root := ww.head
			for k := op.Arg(1); k > 0 && root.parent != nil; k-- {
				root = root.parent
			}
			if !create(i, root) {
				return
			}
		case "a":
			if n == nil || n.parent == nil || n.parent != ww.head || ww.have[n.hash] != nil {
				continue
			}
			ww.store(n)
			expect(c29ev{false, n.hash, n.num})
			steps := 1 << 20
			w.Log("add %v", n)
			if err := ww.announce(n, &steps); err != nil {
				w.Fail("producer-error", "publishing a block failed: %v", err)
				return
			}
		case "again":
			if n == nil || ww.have[n.hash] == nil || n.parent == nil || !n.ancestorOf(ww.head) {
				continue
			}
			w.Fault("duplicate")
			steps := 1 << 20
			if err := ww.announce(n, &steps); err != nil {
				w.Fail("producer-error", "publishing a block failed: %v", err)
				return
			}
		case "g":
			if n == nil || n == ww.head || ww.canon[n.num] != n {
				continue
			}
			if !settle() {
				return
			}
			w.Fault("announced-reorg")
			for _, c := range cons {
				if c != nil && len(c.got) < len(c.want) {
					w.Fault("announced-while-handling")
					w.Probes["nontrivial"] = 1
				}
			}
			expect(c29ev{true, n.hash, n.num})
			for k := ww.head; k != n; k = k.parent {
				delete(ww.canon, k.num)
			}
			ww.head = n
			announcements++
			w.Log("announce %v", n)
			done, err := ww.prod.Reorg(n.num, n.hash)
			if err != nil || done == nil {
				w.Fail("producer-error", "announcing a reorg failed: %v", err)
				return
			}
			done()
		case "x":
			// Connections break once everything announced has been handed out.
			c := cons[op.Arg(0)%int64(len(cons))]
			if c == nil {
				continue
			}
			for k := 0; k < 600 && len(c.got) < len(c.want); k++ {
				time.Sleep(100 * time.Millisecond)
			}
			for _, k := range ww.net.Open(c.wc.name) {
				w.Fault("connection-reset")
				k.Reset()
				unsettled = w.Now() + time.Minute
			}
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(len(ww.have)), int64(ww.head.id), int64(announcements)}
		for _, c := range cons {
			if c != nil {
				h = append(h, int64(len(c.got)))
			}
		}
		w.State(core.Mix(h...))
	}
	w.Calm()
	w.Step("waiting for the consumers")
	behind := func() bool {
		for _, c := range cons {
			if c != nil && len(c.got) < len(c.want) {
				return true
			}
		}
		return false
	}
	for until := w.Now() + 3*time.Minute; w.Now() < until && behind(); {
		time.Sleep(time.Second)
	}
	time.Sleep(3 * time.Second)
	for _, c := range cons {
		if c == nil {
			continue
		}
		if c.bad != "" {
			w.Fail("wrong", "consumer %s: %s", c.wc.name, c.bad)
			return
		}
		if fmt.Sprint(c.got) != fmt.Sprint(c.want) {
			w.Fail("sequence", "consumer %s: got %d events, want %d; first difference %s", c.wc.name, len(c.got), len(c.want), firstDiff(c.got, c.want, show))
			return
		}
		if c.err != nil || !c.started {
			w.Fail("consumer-error", "Start of consumer %s: returned %v, %v", c.wc.name, c.started, c.err)
			return
		}
		c.k.Close()
	}
}
