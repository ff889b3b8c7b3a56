package props

import (
	"fmt"
	"math/big"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C26", Title: "Kafka consumers can be started and closed at any time", Gen: genC26, Run: runC26, MaxSim: 3 * time.Hour,
		Rule: "one run = real Kafka consumers are created, started, waited for and closed, in any order, at any moment and from several goroutines, against a cluster that holds, receives or loses messages, is disturbed or cannot be reached; timestamp tokens and producers are made meanwhile; non-trivial = a consumer was closed before it was ready, or something could not be created; a state = (operations done, log ends, connections open, consumers started, ready, closed)",
		Real: kafkaReal, Stub: append([]string{"producers of the blocks: messages from real delivery.Producers appended to the log by the harness"}, kafkaStub...), Floors: map[string]int64{"parts": 1, "schema": 0, "brokers": 1, "producers": 1, "consumers": 1, "mux": 0}})
}

func genC26(r *core.Rand, p *core.Plan) {
	genKafka(r, p, r.Pick(1, 2, 4, 7))
	p.P["precreate"] = 1
	p.P["maxwait"] = int64(r.Pick(50, 100, 500, 2000, 5000))
	p.P["consumers"] = int64(r.Pick(1, 1, 2, 3))
	p.P["producers"] = 1
	p.P["mode"] = int64(r.Pick(0, 0, 0, 1, 2))   // 1: disturbances, 2: outages
	p.P["mux"] = int64(r.Pick(0, 0, 0, 2, 2, 3)) // consumers of so many transports
	p.P["buf"] = int64(r.Pick(0, 1, 100))
	p.P["slow"] = int64(r.Pick(0, 0, 0, 20, 400))
	total := 0
	for _, o := range p.Ops {
		if o.K == "c" {
			total += 2 + int(o.A[2]+o.A[3]+5*o.A[4])
		}
	}
	if k := r.Pick(0, total/2, total); k > 0 {
		p.Add("p", int64(k))
	}
	n := int(p.P["consumers"])
	out := false
	for i := r.R(4, 20); i > 0; i-- {
		c := int64(r.N(n))
		switch r.N(12) {
		case 0, 1, 2:
			p.Add("start", c)
		case 3, 4:
			p.Add("close", c, int64(r.N(2)), int64(r.Pick(1, 1, 2, 3)))
		case 5:
			p.Add("create", c)
		case 6:
			p.Add("ready", c, int64(r.R(1, 3)))
		case 7:
			p.Add("p", int64(r.R(1, 1+total/2)))
		case 8:
			p.Add("j", int64(r.N(9)), int64(r.N(12)), int64(r.U64()>>1))
		case 9:
			switch p.P["mode"] {
			case 1:
				p.Add("f", 0, int64(r.Pick(0, 1, 3, 4, 5, 6, 7, 8)), int64(r.N(1000)), int64(r.Pick(5, 100, 300)))
			case 2:
				if out = !out; out {
					p.Add("out", int64(r.N(2)))
				} else {
					p.Add("back")
				}
			}
		case 10:
			p.Add([]string{"tok", "prod", "new"}[r.N(3)], int64(r.N(40)))
		}
		if r.P(1, 2) {
			p.Add("s", int64(r.Pick(1, 2, 5, 20, 100, 500, 1000, 3000, 8000, 46000)))
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

// klife is one Kafka consumer from its creation to its end.
type klife struct {
	c             transports.Consumer
	prs           []*kproc
	v             *view
	pbs           []*delivery.PendingBatch
	stop          chan struct{}
	began         bool // Start was called
	returned      bool // and returned
	err           error
	closing       bool // Close was called
	closed        bool // and returned
	at            time.Duration
	lossy         bool // closed while the cluster could not be reached
	waiting, told int
	class, bad    string
}

func runC26(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	c := kw.c
	c.onAppend = nil
	c.tokens, c.apart = 1, true
	for _, pt := range kw.b.parts {
		kw.kpart(pt)
	}
	mode := p.P["mode"]
	root := kw.t.byID[0]
	cfg := func() *delivery.ConsumerConfig {
		return &delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: 64, TrackedPrefixes: regexps([]string{".*"})}
	}
	// How many goroutines a processor has that nobody closes.
	base := runtime.NumGoroutine()
	if _, err := delivery.NewOrderedMessageProcessor(cfg()); err != nil {
		w.Fail("consumer-error", "%v", err)
		return
	}
	time.Sleep(time.Second)
	perOMP := runtime.NumGoroutine() - base
	base += perOMP
	gone := false
	lastGone := time.Duration(-1 << 60)
	slack := time.Duration(0)
	if p.Sim.StallP > 0 {
		slack = 20 * time.Second
	}
	wait := time.Duration(c.maxWait) * time.Millisecond
	parts := time.Duration(len(kw.b.parts))
	bound := func(since time.Duration) time.Duration {
		switch {
		case gone || lastGone > since-2*time.Minute:
			return 15 * time.Minute
		case mode > 0:
			return 2*time.Minute + 4*parts*wait + slack
		}
		return 10*time.Second + 4*parts*wait + slack
	}
	var all []*klife
	cur := make([]*klife, int(p.P["consumers"]))
	procs, made := 0, 0
	type short struct {
		name  string
		pr    *kproc
		at    time.Duration
		lossy bool
	}
	var shorts []*short // processes that must not keep connections
	busy := 0
	process := func(kind string) (*kproc, string) {
		procs++
		return c.proc(fmt.Sprintf("%s%d", kind, procs), "")
	}
	create := func(i int) *klife {
		l := &klife{stop: make(chan struct{}), v: newView(kw.t, root)}
		var params []transports.BrokerParams
		for len(params) == 0 || len(params) < int(p.P["mux"]) {
			pr, url := process("c")
			l.prs = append(l.prs, pr)
			params = append(params, transports.BrokerParams{URL: "cardinal://" + url, DefaultTopic: mainTopic, Topics: kw.topics})
		}
		t0 := w.Now()
		var k transports.Consumer
		var err error
		if p.P["mux"] > 0 {
			k, err = gotC(transports.ResolveMuxConsumer(params, nil, cfg()))
		} else if p.Seed%3 == 0 {
			k, err = gotC(transports.NewKafkaConsumer(strings.TrimPrefix(params[0].URL, "cardinal://"), mainTopic, kw.topics, nil, 0, cfg()))
		} else {
			k, err = gotC(transports.ResolveConsumer(params[0].URL, mainTopic, kw.topics, nil, 0, cfg()))
		}
		if err != nil {
			if mode == 0 {
				w.Fail("consumer-error", "a consumer could not be created on a healthy cluster: %v", err)
				return nil
			}
			w.Probe("not-created")
			w.Probes["nontrivial"] = 1
			for _, pr := range l.prs {
				shorts = append(shorts, &short{"a consumer that could not be created", pr, w.Now(), gone || lastGone > t0-2*time.Minute})
			}
			return nil
		}
		l.c = k
		pch := make(chan *delivery.PendingBatch, int(p.P["buf"]))
		cch := make(chan *delivery.ChainUpdate, int(p.P["buf"]))
		k.Subscribe(pch)
		k.Subscribe(cch)
		fol := &follower{v: l.v, delay: func() time.Duration { return time.Duration(p.P["slow"]) * time.Millisecond / 10 }, fail: func(cl, s string) {
			if l.bad == "" && cl != "weight-decreased" && cl != "needless-reorg" {
				l.class, l.bad = cl, s
			}
		}}
		go fol.run(cch, l.stop, false)
		go func() {
			for {
				select {
				case pb := <-pch:
					l.pbs = append(l.pbs, pb)
					if l.closed && w.Now()-l.at > 5*time.Second+slack {
						w.Fail("after-close", "a consumer handed out a block %v after it had been closed", w.Now()-l.at)
					}
					if p.P["slow"] > 0 {
						time.Sleep(time.Duration(p.P["slow"]) * time.Millisecond / 10)
					}
				case <-l.stop:
					return
				}
			}
		}()
		cur[i] = l
		all = append(all, l)
		return l
	}
	closeIt := func(l *klife) {
		switch {
		case !l.began:
			w.Fault("close-before-start")
		case !l.returned:
			w.Fault("close-during-start")
		case l.told == 0:
			w.Fault("close-before-ready")
		}
		if !l.began || !l.returned || l.told == 0 {
			w.Probes["nontrivial"] = 1
		}
		t0 := w.Now()
		l.closing = true
		if gone || lastGone > t0-2*time.Minute {
			l.lossy = true
		}
		l.c.Close()
		if d := w.Now() - t0; d > 11*time.Second+slack {
			w.Fail("close-slow", "Close took %v (mode %d)", d, mode)
		}
		if !l.closed {
			l.closed, l.at = true, w.Now()
		}
		if gone || lastGone > t0-2*time.Minute {
			l.lossy = true
		}
	}
	over := false
	var setting sync.Mutex
	setOut := func(on bool, how int64) {
		setting.Lock()
		defer setting.Unlock()
		if on && over {
			return
		}
		if gone && !on {
			lastGone = w.Now()
		}
		gone = on
		for _, b := range c.brokers {
			if how == 0 || !on {
				c.setCut(b, on)
			}
			if how == 1 || !on {
				c.setDown(b, on)
			}
		}
	}
	for i, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		k := 0
		if len(op.A) > 0 {
			k = int(op.Arg(0)) % len(cur)
		}
		switch op.K {
		case "p":
			kw.kpublish(0, int(op.Arg(0)))
		case "j":
			kw.junk(op.Arg(0), op.Arg(1), op.Arg(2))
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "f":
			c.chaos(op)
		case "out":
			w.Fault("outage")
			setOut(true, op.Arg(0))
		case "back":
			setOut(false, 0)
		case "create":
			if cur[k] == nil {
				create(k)
			}
		case "start":
			l := cur[k]
			if l == nil {
				l = create(k)
			}
			if l == nil || l.began {
				break
			}
			l.began = true
			go func() {
				err := l.c.Start()
				l.returned, l.err = true, err
				w.Log("start returned %v", err)
			}()
		case "close":
			l := cur[k]
			if l == nil {
				break
			}
			for j := int64(1); j < op.Arg(2); j++ {
				go closeIt(l)
			}
			if op.Arg(1) == 0 {
				closeIt(l)
				cur[k] = nil
			} else {
				go closeIt(l)
			}
		case "ready":
			l := cur[k]
			if l == nil {
				break
			}
			for j := int64(0); j < op.Arg(1); j++ {
				l.waiting++
				go func() {
					select {
					case <-l.c.Ready():
						l.told++
					case <-l.stop:
					}
				}()
			}
		case "tok":
			pr, url := process("t")
			ts := time.Now().Add(-time.Duration(op.Arg(0)) * time.Second).UnixNano()
			s := &short{name: "a timestamp token", pr: pr}
			busy++
			go func() {
				t0 := w.Now()
				_, err := transports.ResumptionForTimestamp([]transports.BrokerParams{{URL: "cardinal://" + url, Topics: kw.topics}}, ts/1e6)
				if err != nil {
					w.Probe("no-token")
				}
				if err != nil && mode == 0 {
					w.Fail("token-error", "a timestamp token could not be made on a healthy cluster: %v", err)
				}
				s.at, s.lossy = w.Now(), gone || lastGone > t0-2*time.Minute
				shorts = append(shorts, s)
				busy--
			}()
		case "prod":
			// A producer that cannot be created leaves nothing; others cannot be closed.
			if mode == 0 || mode == 1 && gone {
				break
			}
			pr, url := process("p")
			topic, schema := mainTopic, kw.schema
			if mode == 2 {
				// Its topics do not exist yet.
				made++
				topic, schema = fmt.Sprintf("p%d", made), map[string]string{".": fmt.Sprintf("p%d-a", made)}
			}
			if mode == 2 && !gone {
				pr.last = 1 + int(op.Arg(0)/2%20)
				pr.then = func() {
					if !over {
						w.Fault("outage-during-creation")
						setOut(true, op.Arg(0)%2)
					}
				}
			}
			busy++
			go func() {
				t0 := w.Now()
				_, err := gotP(transports.ResolveProducer(url, topic, schema))
				if err != nil {
					w.Probe("no-producer")
					w.Probes["nontrivial"] = 1
					shorts = append(shorts, &short{"a producer that could not be created", pr, w.Now(), gone || lastGone > t0-2*time.Minute})
				} else {
					base += 1 << 20 // it stays: leftovers cannot be counted
				}
				busy--
			}()
		case "new":
			// Creation that fails because of one of several transports.
			pr, url := process("m")
			t0 := w.Now()
			_, err := gotC(transports.ResolveMuxConsumer([]transports.BrokerParams{{URL: "cardinal://" + url, DefaultTopic: mainTopic, Topics: kw.topics}, {URL: "cardinal://nothing://x"}}, nil, cfg()))
			if err == nil {
				w.Fail("created", "a consumer of an unknown transport was created")
				return
			}
			w.Probe("not-created")
			shorts = append(shorts, &short{"a multiplexed consumer that could not be created", pr, w.Now(), gone || lastGone > t0-2*time.Minute})
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(i), int64(len(c.net.Open("")))}
		for _, l := range all {
			h = append(h, b2i(l.returned), int64(l.told), b2i(l.closed))
		}
		for _, pt := range kw.b.parts {
			h = append(h, pt.end())
		}
		w.State(core.Mix(h...))
	}
	over = true
	setOut(false, 0)
	c.calm()
	w.Calm()
	kw.kcomplete()
	w.Step("waiting for consumers that are open")
	for _, l := range all {
		if l.began && !l.closing {
			for j := 0; j < 2; j++ {
				l := l
				l.waiting++
				go func() {
					select {
					case <-l.c.Ready():
						l.told++
					case <-l.stop:
					}
				}()
			}
		}
	}
	best := heaviest(root, func(*node) bool { return true })
	good := func(l *klife) bool { return l.returned && l.err == nil && !l.closing }
	kw.settle(bound(w.Now())+time.Minute, func() bool {
		for _, l := range all {
			if l.began && !l.returned || l.closing && !l.closed || good(l) && (l.told != l.waiting || l.v.tip() != best.hash) {
				return false
			}
		}
		return busy == 0
	})
	for _, l := range all {
		switch {
		case l.bad != "":
			w.Fail(l.class, "%s", l.bad)
		case l.began && !l.returned:
			w.Fail("start-stuck", "Start has not returned (mode %d, closed %v)", mode, l.closed)
		case l.closing && !l.closed:
			w.Fail("close-stuck", "Close has not returned (mode %d)", mode)
		case l.began && !l.closing && l.err != nil && mode == 0:
			w.Fail("start-error", "Start failed on a healthy cluster: %v", l.err)
		case good(l) && kw.t.byHash[l.v.tip()].weight.Cmp(best.weight) != 0:
			w.Fail("not-converged", "a consumer stayed at %s; the heaviest chain ends at %v", l.v.nm(l.v.tip()), best)
		case good(l) && l.told != l.waiting:
			w.Fail("never-ready", "a consumer has everything, and %d of %d waiting for readiness were not told", l.waiting-l.told, l.waiting)
		}
		if w.Failed() {
			return
		}
		if good(l) {
			w.Probe("ready")
			w.Step("asking why a block is not there")
			if s := l.c.WhyNotReady(best.hash); best != root && !strings.HasPrefix(s, "done") {
				w.Fail("why", "a consumer says of %v, which it has handed out: %q", best, s)
				return
			}
			if s := l.c.WhyNotReady(mkHash(0xee, 1, 1)); s != "not found" {
				w.Fail("why", "a consumer says of a block that does not exist: %q", s)
				return
			}
		} else if l.err != nil {
			w.Probe("start-failed")
		}
	}
	if busy > 0 {
		w.Fail("stuck", "making a token or a producer has not returned (mode %d)", mode)
		return
	}
	for _, l := range all {
		if !l.closed || w.Rand.P(1, 3) {
			closeIt(l)
		}
		// Starting it then does nothing.
		if w.Rand.P(1, 4) {
			l := l
			done := make(chan error, 1)
			go func() { done <- l.c.Start() }()
			t := time.NewTimer(bound(w.Now()))
			select {
			case err := <-done:
				if err == nil {
					w.Fail("started-closed", "Start of a closed consumer succeeded")
				}
			case <-t.C:
				w.Fail("start-stuck", "Start of a closed consumer does not return")
			}
			t.Stop()
		}
		close(l.stop)
		if w.Failed() {
			return
		}
	}
	w.Step("waiting for everything to end")
	time.Sleep(3 * time.Minute)
	lossy := false
	for _, l := range all {
		lossy = lossy || l.lossy
	}
	for _, s := range shorts {
		lossy = lossy || s.lossy
	}
	if lossy {
		time.Sleep(40 * time.Minute)
	}
	for _, l := range all {
		for _, pr := range l.prs {
			if n := len(c.net.OpenFrom(pr.name)); n > 0 {
				w.Fail("leak", "%d connections are left minutes after Close (mode %d)", n, mode)
				return
			}
		}
	}
	for _, s := range shorts {
		if n := len(c.net.OpenFrom(s.pr.name)); n > 0 {
			w.Fail("leak", "%s left %d connections (mode %d)", s.name, n, mode)
			return
		}
	}
	if base < 1<<20 {
		want := base + len(all)*perOMP + procs*len(c.brokers)
		if n := runtime.NumGoroutine(); n > want {
			w.Fail("goroutines", "%d goroutines are left of %d consumers minutes after they were closed", n-want, len(all))
			return
		}
		w.Probe("goroutines-checked")
	}
	for _, l := range all {
		seen := map[types.Hash]bool{}
		for _, pb := range l.pbs {
			n := kw.t.byHash[pb.Hash]
			if n == nil {
				w.Fail("unknown-block", "a consumer was given a block nobody produced: %x", pb.Hash)
				return
			}
			if seen[pb.Hash] {
				w.Fail("emitted-twice", "a consumer was given %v twice", n)
				return
			}
			seen[pb.Hash] = true
			if d := kw.blks[n.id].want(kw.ref, regexps([]string{".*"})).diff(pb); d != "" {
				w.Fail("content", "a consumer was given %v: %s", n, d)
				return
			}
		}
	}
}
