package props

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C32", Title: "Applications can wait for blocks through any transport", Gen: genC32, Run: runC32, MaxSim: 2 * time.Hour,
		Rule: "one run = one block tree published over Kafka and over websockets to a real consumer of one transport or a combination, whose waiter is asked for blocks by hash and by number from several goroutines while an application applies what it is given at its own pace; non-trivial = a wait ended because the block was applied during it; a state = (log ends, blocks handed out, blocks applied, result)",
		Real: append([]string{"waiter.NewOmpWaiter", "Waiter of the Kafka, websocket, null and multiplexed consumers"}, append(append([]string{}, wsReal...), kafkaReal[1:]...)...), Stub: append(append([]string{"Kafka producers: messages from real delivery.Producers appended to the log by the harness"}, kafkaStub...), wsStub[:1]...),
		Floors: map[string]int64{"parts": 1, "schema": 0, "brokers": 1, "producers": 1, "resslow": 0, "resbuf": 0, "cap": 0, "buf": 0, "slow": 0}})
}

var waitMixes = []string{"k", "w", "kw", "wk", "wv", "nk", "nw", "wn", "knw", "ab", "n"}

func genC32(r *core.Rand, p *core.Plan) {
	genKafka(r, p, r.Pick(2, 4, 7, 12))
	p.P["precreate"] = 1
	p.P["maxwait"] = int64(r.Pick(50, 100, 500))
	p.P["producers"] = int64(r.Pick(1, 1, 2))
	p.P["buf"] = int64(r.Pick(0, 1, 100))
	p.P["resslow"] = int64(r.Pick(0, 0, 1, 5))
	p.P["resbuf"] = int64(r.Pick(0, 1))
	p.P["slow"] = int64(r.Pick(0, 0, 1, 30, 2000))
	p.P["mix"] = int64(r.N(len(waitMixes)))
	if p.P["mix"] == int64(len(waitMixes)-1) && r.P(3, 4) {
		p.P["mix"] = int64(r.N(len(waitMixes)))
	}
	total := 0
	var ids []int64
	for _, o := range p.Ops {
		if o.K == "c" {
			total += 2 + int(o.A[2]+o.A[3]+5*o.A[4])
			ids = append(ids, o.A[0])
		}
	}
	all := ids
	ids = ids[1:]
	faults := r.Pick(0, 5, 15)
	steps := r.R(2*len(ids)+4, 5*len(ids)+12)
	ahead := r.Pick(1, 3, 8)
	for i := 0; i < steps; i++ {
		switch {
		case len(ids) > 0 && r.P(1, 4):
			p.Add("a", ids[0])
			ids = ids[1:]
		case r.P(1, 3):
			p.Add("p", int64(r.N(int(p.P["producers"]))), int64(r.R(1, 1+total*ahead/steps)))
		case r.P(1, 2):
			// Mostly for blocks that are about to come.
			at := r.N(len(all))
			if k := len(all) - len(ids) + r.N(3) - 1; r.P(2, 3) && k >= 0 && k < len(all) {
				at = k
			}
			p.Add([]string{"wh", "wh", "wn"}[r.N(3)], all[at], int64(r.Pick(1, 100, 3000, 20000)), int64(r.N(2)))
		case r.P(1, 2):
			p.Add("s", int64(r.Pick(1, 3, 30, 300, 1100, 3000, 20000)))
		}
		if r.P(faults, 100) {
			switch r.N(5) {
			case 0:
				p.Add("x", int64(r.N(2)))
			case 1:
				p.Add("crash", int64(r.Pick(1, 500, 3000)))
			default:
				p.Add("f", 0, int64(r.Pick(0, 1, 3, 4, 5, 6, 7, 8)), int64(r.N(1000)), int64(r.Pick(5, 100, 300)))
			}
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(100*time.Millisecond) {
		p.Sim.StallMax = int64(100 * time.Millisecond)
	}
}

func runC32(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	kw.c.onAppend = nil
	kw.c.tokens, kw.c.apart = 1, true
	for _, pt := range kw.b.parts {
		kw.kpart(pt)
	}
	ww := wsOver(w, kw.t, kw.blks)
	ww.newConsumers(2)
	if !ww.boot() {
		return
	}
	mix := waitMixes[int(p.P["mix"])%len(waitMixes)]
	root := kw.t.byID[0]
	m := &muxApp{kw: kw, ww: ww, mix: mix}
	cfg := &delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: 64, TrackedPrefixes: regexps([]string{".*"})}
	var c transports.Consumer
	var err error
	w.Step("creating a %s consumer", mix)
	// By itself, or as the only one of a multiplexed consumer.
	bp := m.params()
	if len(bp) == 1 && p.Seed%2 == 0 {
		c, err = gotC(transports.ResolveConsumer(bp[0].URL, bp[0].DefaultTopic, bp[0].Topics, nil, 0, cfg))
	} else {
		c, err = gotC(transports.ResolveMuxConsumer(bp, nil, cfg))
	}
	if err != nil {
		w.Fail("consumer-error", "%s: the consumer could not be created: %v", mix, err)
		return
	}
	const never = 1 << 62
	handed, applied := map[types.Hash]time.Duration{}, map[types.Hash]time.Duration{}
	stop := make(chan struct{})
	pch := make(chan *delivery.PendingBatch, p.P["buf"])
	cch := make(chan *delivery.ChainUpdate, p.P["buf"])
	c.Subscribe(pch)
	c.Subscribe(cch)
	wt := c.Waiter()
	go func() {
		for {
			select {
			case pb := <-pch:
				if _, ok := handed[pb.Hash]; !ok {
					handed[pb.Hash] = w.Now()
				}
			case <-stop:
				return
			}
		}
	}()
	go func() {
		for {
			select {
			case u := <-cch:
				for _, pb := range u.Added() {
					if _, ok := handed[pb.Hash]; !ok {
						handed[pb.Hash] = w.Now()
					}
				}
				if p.P["slow"] > 0 {
					time.Sleep(time.Duration(p.P["slow"]) * time.Millisecond)
				}
				for _, pb := range append(append([]*delivery.PendingBatch{}, u.Added()...), u.Removed()...) {
					if _, ok := applied[pb.Hash]; !ok {
						applied[pb.Hash] = w.Now()
						w.Log("applied %v", kw.t.byHash[pb.Hash])
					}
				}
				u.Done()
			case <-stop:
				return
			}
		}
	}()
	started := make(chan error, 1)
	go func() { started <- c.Start() }()
	type call struct {
		n          *node
		byNum      bool
		timeout    time.Duration
		start, end time.Duration
		res        waiter.WaitResult
		returned   bool
	}
	var calls []*call
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		n := kw.t.byID[int(op.Arg(0))]
		switch op.K {
		case "p":
			kw.kpublish(int(op.Arg(0)), int(op.Arg(1)))
		case "a":
			if n != nil {
				ww.add(n, 1<<20)
			}
		case "wh", "wn":
			if n == nil || n == root {
				break
			}
			x := &call{n: n, byNum: op.K == "wn", timeout: time.Duration(op.Arg(1)) * time.Millisecond}
			calls = append(calls, x)
			plain := op.Arg(2) == 1
			go func() {
				x.start = w.Now()
				// Applications that do not care for the result look at what
				// they have afterwards.
				switch {
				case x.byNum && plain:
					wt.WaitForNumber(n.num, x.timeout)
				case x.byNum:
					x.res = wt.WaitForNumberResult(n.num, x.timeout)
				case plain:
					wt.WaitForHash(n.hash, x.timeout)
				default:
					x.res = wt.WaitForHashResult(n.hash, x.timeout)
				}
				x.end = w.Now()
				if plain {
					x.res = -1
				}
				x.returned = true
				w.Log("waited for %v %v %v: %v after %v", n, x.byNum, x.timeout, x.res, x.end-x.start)
			}()
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "x":
			for _, k := range ww.net.Open(ww.cons[int(op.Arg(0))%2].name) {
				w.Fault("connection-reset")
				k.Reset()
			}
		case "crash":
			ww.crash()
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
			if !ww.boot() {
				return
			}
		case "f":
			kw.c.chaos(op)
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(len(handed)), int64(len(applied))}
		for _, pt := range kw.b.parts {
			h = append(h, pt.end())
		}
		w.State(core.Mix(h...))
	}
	kw.c.calm()
	w.Step("waiting for the waits to end")
	time.Sleep(25 * time.Second)
	names := []string{"Success", "Timeout", "NotFound"}
	const slack = 500 * time.Millisecond
	for _, x := range calls {
		what := fmt.Sprintf("%s: waiting %v for %v", mix, x.timeout, x.n)
		if x.byNum {
			what = fmt.Sprintf("%s: waiting %v for number %d", mix, x.timeout, x.n.num)
		}
		what += fmt.Sprintf(" from %v", x.start)
		if !x.returned {
			w.Fail("never-returned", "%s never returned", what)
			return
		}
		if x.end > x.start+x.timeout+slack {
			w.Fail("late-return", "%s returned only at %v", what, x.end)
			return
		}
		if !strings.ContainsAny(mix, "kabwv") {
			if x.res >= 0 && x.res != waiter.NotFound {
				w.Fail("wrong-result", "%s returned %s, and there are no blocks", what, names[x.res])
				return
			}
			continue
		}
		// When the block, or the first of its height, was handed out and applied.
		hd, ap, old := time.Duration(never), time.Duration(never), false
		for _, n := range kw.t.nodes {
			y, ok := applied[n.hash]
			if ok && n.num == x.n.num && y < x.start-45*time.Second {
				old = true // finished heights are remembered for a while only
			}
			if n != x.n && !(x.byNum && n.num == x.n.num) {
				continue
			}
			if ok && y < ap {
				ap = y
			}
			if z, ok := handed[n.hash]; ok && z < hd {
				hd = z
			}
		}
		known := hd < x.start-slack && !old
		end := x.start + x.timeout
		w.State(core.Mix(int64(len(handed)), int64(len(applied)), int64(x.res)))
		switch {
		case x.res == waiter.Success && ap > x.end:
			w.Fail("too-early", "%s reported Success at %v, before it was applied", what, x.end)
		case x.res == waiter.NotFound && known:
			w.Fail("not-found", "%s reported NotFound at %v, and it was handed out at %v", what, x.end, hd)
		case x.res == waiter.NotFound && x.end > x.start+slack:
			w.Fail("late-return", "%s reported NotFound only at %v", what, x.end)
		case x.res == waiter.Timeout && x.end < end:
			w.Fail("early-timeout", "%s reported Timeout already at %v", what, x.end)
		case x.res == waiter.Timeout && ap < end-slack && known:
			w.Fail("missed", "%s reported Timeout at %v, and it was applied at %v", what, x.end, ap)
		case x.res == waiter.Success && ap >= x.start && x.end > ap+slack, x.res == waiter.Success && ap < x.start && x.end > x.start+slack:
			w.Fail("late-return", "%s reported Success only at %v, and it was applied at %v", what, x.end, ap)
		case x.res < 0 && known && x.end < end && ap > x.end:
			w.Fail("too-early", "%s returned already at %v, and it was not applied by then", what, x.end)
		case x.res < 0 && known && ap < end-slack && (ap >= x.start && x.end > ap+slack || ap < x.start && x.end > x.start+slack):
			w.Fail("late-return", "%s returned only at %v, and it was applied at %v", what, x.end, ap)
		}
		if w.Failed() {
			return
		}
		if x.res != waiter.NotFound && ap > x.start && ap < end {
			w.Probes["nontrivial"] = 1
			w.Probe("applied-while-waiting")
		}
	}
	close(stop)
	w.Calm()
	c.Close()
}
