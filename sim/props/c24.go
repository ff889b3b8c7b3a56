package props

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C24", Title: "A multiplexed consumer does as well as the best of its transports", Gen: genC24, Run: runC24, MaxSim: 3 * time.Hour,
		Rule: "one run = one block tree published over Kafka (several producers, at their own pace) and over websockets (a real producer, at another pace), to a real multiplexed consumer of some combination of transports that is started, asked for its state, restarted and closed while transports lag, break or disappear for good; non-trivial = blocks came over two transports, or one of them was lost; a state = (log ends, blocks added, consumer's tip)",
		Real: append([]string{"transports.ResolveMuxConsumer"}, append(append([]string{}, wsReal...), kafkaReal[1:]...)...), Stub: append(append([]string{"Kafka producers: messages from real delivery.Producers appended to the log by the harness"}, kafkaStub...), wsStub[:1]...),
		Floors: map[string]int64{"parts": 1, "schema": 0, "brokers": 1, "producers": 1, "resslow": 0, "resbuf": 0, "cap": 0, "buf": 0}})
}

// The combinations of transports: k is Kafka, a and b are its topics split
// over two consumers, w, v, u and t are addresses of the websocket producer.
var muxMixes = []string{"kw", "wk", "wv", "knw", "abw", "wkv", "k", "w", "ab", "nk", "wn", "kkkkw", "wvut"}

func genC24(r *core.Rand, p *core.Plan) {
	genKafka(r, p, r.Pick(2, 4, 7, 12))
	p.P["precreate"] = 1
	p.P["maxwait"] = int64(r.Pick(50, 100, 500, 2000))
	p.P["producers"] = int64(r.Pick(1, 1, 2))
	p.P["buf"] = int64(r.Pick(0, 1, 100))
	p.P["resslow"] = int64(r.Pick(0, 0, 1, 5, 40))
	p.P["resbuf"] = int64(r.Pick(0, 0, 1, 100))
	p.P["cap"] = int64(r.Pick(0, 0, 300, 5000))
	p.P["mix"] = int64(r.N(len(muxMixes)))
	if r.P(1, 2) {
		p.P["mix"] = int64(r.N(6))
	}
	late := r.P(1, 12)
	if late {
		// Transports that can be reached one after the other, and one that can't.
		p.P["mix"] = int64(len(muxMixes) - 1)
		p.P["late1"], p.P["late2"] = int64(r.R(1, 29)), int64(r.Pick(1, 20, 28, 29))
		if r.P(1, 2) {
			p.P["late1"] = int64(r.R(25, 29))
		}
	}
	p.P["mode"] = int64(r.N(3)) // 1: websockets fall behind or disappear, 2: Kafka does
	p.P["how"] = int64(r.N(3))  // 0: never there, 1: disappears, 2: never completes
	total := 0
	var ids []int64
	for _, o := range p.Ops {
		if o.K == "c" {
			total += 2 + int(o.A[2]+o.A[3]+5*o.A[4])
			ids = append(ids, o.A[0])
		}
	}
	ids = ids[1:]
	faults := r.Pick(0, 5, 15)
	if late {
		faults = 0
	}
	steps := r.R(len(ids)+2, 3*len(ids)+8)
	start, die := r.N(steps), r.N(steps)
	ahead := r.Pick(1, 3, 8) // how fast Kafka is
	for i := 0; i < steps; i++ {
		if i == start {
			p.Add("start")
		}
		if i == die {
			p.Add("die")
		}
		switch {
		case len(ids) > 0 && r.P(2, 5):
			p.Add("a", ids[0])
			ids = ids[1:]
		case r.P(1, 2):
			p.Add("p", int64(r.N(int(p.P["producers"]))), int64(r.R(1, 1+total*ahead/steps)))
		case r.P(1, 2):
			p.Add("s", int64(r.Pick(1, 3, 30, 300, 1100, 3000)))
		case r.P(1, 3):
			p.Add("why", int64(r.N(100)))
		case r.P(1, 5):
			p.Add("ready")
		}
		if r.P(faults, 100) {
			switch r.N(8) {
			case 0:
				p.Add("x", int64(r.N(2)))
			case 1:
				p.Add("cut", int64(r.N(2)), int64(r.Pick(1, 50, 2000, 20000)))
			case 2:
				p.Add("down", int64(r.Pick(1, 500, 3000)))
			case 3:
				p.Add("crash", int64(r.Pick(1, 500, 3000)))
			case 4:
				p.Add("re", int64(r.Pick(0, 5, 500)))
			default:
				p.Add("f", 0, int64(r.Pick(0, 1, 3, 4, 5, 6, 7, 8)), int64(r.N(1000)), int64(r.Pick(5, 100, 300)))
			}
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

// muxApp is an application with a multiplexed consumer.
type muxApp struct {
	kw         *kworld
	ww         *wsWorld
	mix        string
	c          transports.Consumer
	proc       *kproc
	root       *node
	gen        int
	stop       chan struct{}
	v          *view
	pbs        []*delivery.PendingBatch
	last       time.Duration // when something was handed out last
	class, bad string

	returned bool
	err      error
	waiting  int // goroutines waiting for readiness
	woken    int
}

func (m *muxApp) params() []transports.BrokerParams {
	kw := m.kw
	m.gen++
	var url string
	m.proc, url = kw.c.proc(fmt.Sprintf("m%d", m.gen), "")
	k := func(ts []string) transports.BrokerParams {
		return transports.BrokerParams{URL: "cardinal://" + url, DefaultTopic: mainTopic, Topics: ts}
	}
	half := (len(kw.topics) + 1) / 2
	var bp []transports.BrokerParams
	for _, t := range m.mix {
		switch t {
		case 'k':
			bp = append(bp, k(kw.topics))
		case 'a':
			bp = append(bp, k(kw.topics[:half]))
		case 'b':
			bp = append(bp, k(kw.topics[half:]))
		case 'n':
			bp = append(bp, transports.BrokerParams{URL: "null://"})
		case 'w', 'v', 'u', 't':
			bp = append(bp, transports.BrokerParams{URL: fmt.Sprintf("cardinal://ws://c%d-srv:8546", strings.IndexRune("wvut", t))})
		}
	}
	return bp
}

// open creates a consumer that knows the chain up to root.
func (m *muxApp) open(root *node) error {
	cfg := &delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: 64, TrackedPrefixes: regexps([]string{".*"})}
	c, err := gotC(transports.ResolveMuxConsumer(m.params(), nil, cfg))
	if err != nil {
		return err
	}
	m.c, m.root, m.returned, m.err, m.pbs, m.waiting, m.woken = c, root, false, nil, nil, 0, 0
	m.stop, m.v = make(chan struct{}), newView(m.kw.t, root)
	buf := int(m.kw.w.Plan.P["buf"])
	pch := make(chan *delivery.PendingBatch, buf)
	cch := make(chan *delivery.ChainUpdate, buf)
	c.Subscribe(pch)
	c.Subscribe(cch)
	gen, stop, w := m.gen, m.stop, m.kw.w
	fol := &follower{v: m.v, delay: func() time.Duration { m.last = w.Now(); return 0 }, fail: func(cl, s string) {
		if cl == "weight-decreased" || cl == "needless-reorg" || m.gen != gen {
			return
		}
		if m.bad == "" {
			m.class, m.bad = cl, s
		}
	}}
	go fol.run(cch, stop, false)
	go func() {
		for {
			select {
			case pb := <-pch:
				m.pbs = append(m.pbs, pb)
				m.last = w.Now()
			case <-stop:
				return
			}
		}
	}()
	return nil
}

func (m *muxApp) start() {
	c, gen := m.c, m.gen
	go func() {
		err := c.Start()
		if m.gen == gen {
			m.returned, m.err = true, err
		}
	}()
}

// await makes another goroutine wait for readiness.
func (m *muxApp) await() {
	c, gen, stop := m.c, m.gen, m.stop
	m.waiting++
	go func() {
		select {
		case <-c.Ready():
			if m.gen == gen {
				m.woken++
			}
		case <-stop:
		}
	}()
}

func (m *muxApp) check() {
	w := m.kw.w
	if m.bad != "" {
		w.Fail(m.class, "%s: %s", m.mix, m.bad)
		return
	}
	all := regexps([]string{".*"})
	for _, pb := range m.pbs {
		n := m.kw.t.byHash[pb.Hash]
		if n == nil {
			w.Fail("unknown-block", "%s: the consumer was given a block nobody produced: %x", m.mix, pb.Hash)
			return
		}
		b := m.kw.blks[n.id]
		if d := b.diffMeta(pb); d != "" {
			w.Fail("metadata", "%s: the consumer was given %v with %s", m.mix, n, d)
			return
		}
		if d := b.want(m.kw.ref, all).diff(pb); d != "" {
			w.Fail("content", "%s: the consumer was given %v: %s", m.mix, n, d)
			return
		}
	}
}

func (m *muxApp) close() {
	w := m.kw.w
	bound := 30 * time.Second
	w.Step("closing the consumer")
	t := w.Now()
	m.c.Close()
	if d := w.Now() - t; d > bound {
		w.Fail("slow-close", "%s: Close took %v", m.mix, d)
	}
	m.check()
	close(m.stop)
	w.Probe("closed")
}

func runC24(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	kw.c.onAppend = nil
	kw.c.tokens, kw.c.apart = 1, true
	for _, pt := range kw.b.parts {
		kw.kpart(pt)
	}
	ww := wsOver(w, kw.t, kw.blks)
	mix := muxMixes[int(p.P["mix"])%len(muxMixes)]
	late := p.P["late1"] > 0 && mix == "wvut"
	if mix == "wvut" {
		ww.newConsumers(4)
	} else {
		ww.newConsumers(2)
	}
	hasK, hasW := strings.ContainsAny(mix, "kab"), strings.ContainsAny(mix, "wv")
	mode, how := p.P["mode"], p.P["how"]
	if mode == 1 && !hasK || mode == 2 && !hasW {
		mode = 0
	}
	kGone, wGone := false, false
	gone := func() {
		w.Fault("transport-gone")
		switch mode {
		case 1:
			wGone = true
			for _, c := range ww.cons {
				if how == 0 {
					c.host.SetCut(true)
				} else {
					c.host.SetDown(true)
				}
			}
		case 2:
			kGone = true
			for _, b := range kw.c.brokers {
				if how == 0 {
					kw.c.setCut(b, true)
				} else {
					kw.c.setDown(b, true)
				}
			}
		}
	}
	boot := func() bool {
		if !ww.boot() {
			return false
		}
		if wGone {
			gone()
		}
		return true
	}
	if !boot() {
		return
	}
	wrand := w.Rand
	ww.pause = func() {
		if wrand.P(1, 4) {
			time.Sleep(time.Duration(wrand.N(5000)) * time.Microsecond)
		}
	}
	if late {
		mode = 0
		for _, c := range ww.cons[1:] {
			w.Fault("transport-late")
			c.host.SetDown(true)
		}
	}
	if mode == 1 && how == 0 {
		gone()
	}
	m := &muxApp{kw: kw, ww: ww, mix: mix}
	begun := false
	// When Kafka is all there is, it has to be there while the consumer starts:
	// a Kafka consumer that fails to start is not started again.
	needK := mode == 1 || !hasW
	var quiet bool
	// Starting takes several requests for each partition, each of which may
	// have to wait for a fetch on the same connection.
	starting := 2*time.Minute + 4*time.Duration(len(kw.b.parts))*time.Duration(kw.c.maxWait)*time.Millisecond
	begin := func(root *node) bool {
		if needK {
			quiet = true
			kw.c.dropBefore, kw.c.dropAfter = map[string]int{}, map[string]int{}
			for k := range kw.c.errs {
				kw.c.errs[k] = nil
			}
			time.Sleep(4 * time.Second)
			defer func() { quiet = false }()
		}
		for try := 0; ; try++ {
			w.Step("creating the consumer, mode %d.%d", mode, how)
			err := m.open(root)
			if err == nil {
				if mode == 2 && how == 0 && !kGone {
					gone() // between creation and start
				}
				if w.Rand.P(1, 2) {
					m.await()
				}
				m.start()
				begun = true
				if late {
					go func() {
						time.Sleep(time.Duration(p.P["late1"]) * time.Second)
						ww.cons[1].host.SetDown(false)
						time.Sleep(time.Duration(p.P["late2"]) * time.Second)
						ww.cons[2].host.SetDown(false)
					}()
					w.Step("starting the consumer")
					for until := w.Now() + 65*time.Second; !m.returned && w.Now() < until; {
						time.Sleep(time.Second)
					}
					if !m.returned || m.err != nil {
						w.Fail("never-started", "%s: one of the transports works, and Start has not returned within a minute (%v)", mix, m.err)
						return false
					}
				}
				if needK {
					w.Step("starting the consumer")
					t0 := w.Now()
					until := t0 + starting
					for !m.returned && w.Now() < until {
						time.Sleep(time.Second)
					}
					if !m.returned {
						w.Fail("never-started", "%s: Start did not return in %v although Kafka is there", mix, starting)
						return false
					}
					if m.err != nil {
						w.Fail("start-error", "%s: Start failed although Kafka is there: %v", mix, m.err)
						return false
					}
					if w.Now() > t0+25*time.Second {
						// Start does not wait for those who take much longer
						// than the first, and Kafka may be among them.
						time.Sleep(until - w.Now())
					}
				}
				return true
			}
			if kGone {
				w.Probe("no-kafka") // it can only be created while all transports can be resolved
				return true
			}
			if try > 30 {
				w.Fail("consumer-error", "%s: the consumer could not be created: %v", mix, err)
				return false
			}
			time.Sleep(time.Second)
		}
	}
	reboot := func(ms int64) bool {
		time.Sleep(time.Duration(ms) * time.Millisecond)
		return boot()
	}
	left := map[int]bool{}
	for _, n := range kw.order[1:] {
		left[n.id] = true
	}
	var wake []func()
	overW := false
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		switch op.K {
		case "p":
			if !kGone {
				kw.kpublish(int(op.Arg(0)), int(op.Arg(1)))
			}
		case "a":
			if n := kw.t.byID[int(op.Arg(0))]; n != nil {
				ww.add(n, 1<<20)
				overW = true
			}
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "start":
			if !begun && !begin(ww.settled()) {
				return
			}
		case "die":
			if mode > 0 && how == 1 && begun {
				gone()
			}
		case "re":
			if begun && !kGone {
				w.Fault("consumer-restart")
				m.close()
				time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
				if w.Failed() || !begin(ww.settled()) {
					return
				}
			}
		case "why":
			if begun {
				n := kw.order[int(op.Arg(0))%len(kw.order)]
				c := m.c
				go func() { c.WhyNotReady(n.hash) }()
			}
		case "ready":
			if begun {
				m.await()
			}
		case "x":
			for _, k := range ww.net.Open(ww.cons[int(op.Arg(0))%2].name) {
				w.Fault("connection-reset")
				k.Reset()
			}
		case "cut":
			if wGone {
				break
			}
			h := ww.cons[int(op.Arg(0))%2].host
			w.Fault("partition")
			h.SetCut(true)
			wake = append(wake, func() { h.SetCut(wGone && how == 0) })
			d := time.Duration(op.Arg(1)) * time.Millisecond
			go func() {
				time.Sleep(d)
				if !wGone {
					h.SetCut(false)
				}
			}()
		case "down":
			if wGone {
				break
			}
			w.Fault("unreachable")
			for _, c := range ww.cons {
				c.host.SetDown(true)
			}
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
			for _, c := range ww.cons {
				c.host.SetDown(false)
			}
		case "crash":
			ww.crash()
			if !reboot(op.Arg(0)) {
				return
			}
		case "f":
			if !quiet && !kGone {
				kw.c.chaos(op)
			}
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(len(ww.have))}
		if begun {
			h = append(h, int64(kw.t.byHash[m.v.tip()].id))
		}
		for _, pt := range kw.b.parts {
			h = append(h, pt.end())
		}
		w.State(core.Mix(h...))
	}
	if !begun && !begin(ww.settled()) || !begun {
		return
	}
	for _, f := range wake {
		f()
	}
	if mode != 2 {
		kw.c.calm()
		if hasK {
			kw.kcomplete()
		}
	}
	if mode > 0 && how == 1 && !kGone && !wGone {
		gone()
	}
	if mode != 1 {
		for _, n := range kw.order {
			ww.add(n, 1<<20)
		}
	}
	w.Calm()
	if mode > 0 || overW && hasK && hasW {
		w.Probes["nontrivial"] = 1
	}
	m.await()
	best := heaviest(kw.t.byID[0], func(n *node) bool { return true })
	at := func() *node { return kw.t.byHash[m.v.tip()] }
	w.Step("waiting for the consumer")
	kw.settle(2*time.Minute+starting, func() bool {
		return w.Failed() || m.returned && m.woken == m.waiting && at().weight.Cmp(best.weight) == 0
	})
	if w.Failed() {
		return
	}
	state := fmt.Sprintf("%s, mode %d.%d", mix, mode, how)
	m.check()
	if w.Failed() {
		return
	}
	if !m.returned {
		w.Fail("never-started", "%s: Start had not returned %v after all faults ended", state, 2*time.Minute+starting)
		return
	}
	if m.err != nil {
		w.Fail("start-error", "%s: Start failed: %v", state, m.err)
		return
	}
	if at().weight.Cmp(best.weight) != 0 {
		w.Fail("not-converged", "%s: the consumer stayed at %v; the heaviest chain ends at %v", state, at(), best)
		return
	}
	if m.woken != m.waiting {
		w.Fail("never-ready", "%s: the consumer has everything, and %d of %d waiting for readiness were not told", state, m.waiting-m.woken, m.waiting)
		return
	}
	seen := map[types.Hash]bool{}
	for _, pb := range m.pbs {
		seen[pb.Hash] = true
	}
	for n := at(); n != nil && n != m.root && m.root.ancestorOf(n); n = n.parent {
		if !seen[n.hash] {
			w.Fail("missing", "%s: %v is part of the chain, and was not handed out by itself", state, n)
			return
		}
	}
	w.Probe("converged")
	m.close()
	time.Sleep(time.Minute)
	if k := len(kw.c.net.OpenFrom(m.proc.name)); k > 0 && !kGone {
		w.Fail("leak", "%s: %d connections to Kafka are left a minute after Close", state, k)
	}
	for _, c := range ww.cons {
		if k := len(ww.net.Open(c.name)); k > 0 {
			w.Fail("leak", "%s: %d connections to %s are left a minute after Close", state, k, c.name)
		}
	}
}
