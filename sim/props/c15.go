package props

import (
	"fmt"
	"math/big"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C15", Title: "A Kafka consumer resumes where its application left off", Gen: genC15, Run: runC15, MaxSim: 2 * time.Hour,
		Rule: "one run = a block tree is written to a simulated cluster by several interleaved producers while a real Kafka consumer reads it; the consumer is closed or killed at arbitrary points and a new one started from the application's last applied block, its token and a rollback, with old messages deleted meanwhile; non-trivial = a restart happened; a state = (log ends, applied blocks, restarts)",
		Real: kafkaReal[1:], Stub: append([]string{"producers: messages from real delivery.Producers appended to the log by the harness"}, kafkaStub...), Floors: map[string]int64{"parts": 1, "schema": 0, "brokers": 1, "producers": 1}})
}

// kput appends a message to the cluster's log and to its mirror.
func (kw *kworld) kput(m *Msg, h types.Hash) {
	ps := kw.b.byTopic[m.topic]
	before := make([]int, len(ps))
	for i, x := range ps {
		before[i] = len(x.log)
	}
	kw.put(m, h)
	for i, x := range ps {
		if len(x.log) > before[i] {
			y := x.log[before[i]]
			kw.c.append(kw.kpart(x), kw.c.rec(y.key, y.value))
		}
	}
}

// kpart finds the cluster's partition of a mirror partition.
func (kw *kworld) kpart(p *part) *kpart {
	for _, tn := range core.SortedKeys(kw.b.byTopic) {
		for i, x := range kw.b.byTopic[tn] {
			if x == p {
				return kw.c.topic(tn, len(kw.b.byTopic[tn]), kw.w.Plan.P["base"]).parts[i]
			}
		}
	}
	panic("HARNESS: no such partition")
}

// kpublish lets a producer append its next k messages.
func (kw *kworld) kpublish(i, k int) {
	for ; k > 0; k-- {
		if i >= len(kw.prods) {
			return
		}
		pr := kw.prods[i]
		if len(pr.queue) == 0 {
			if pr.at >= len(kw.order) {
				return
			}
			n := kw.order[pr.at]
			pr.at++
			ms, err := produce(pr.dp, kw.blks[n.id])
			if err != nil {
				kw.w.Fail("producer-error", "producer refused a valid block: %v", err)
				return
			}
			pr.queue, pr.cur = ms, n.hash
		}
		kw.kput(pr.queue[0], pr.cur)
		pr.queue = pr.queue[1:]
	}
}

func (kw *kworld) kcomplete() {
	for _, n := range kw.order {
		if len(kw.inLog[n.hash]) < len(kw.all[n.hash]) {
			for _, m := range kw.all[n.hash] {
				kw.kput(m, n.hash)
			}
		}
	}
}

func genC15(r *core.Rand, p *core.Plan) {
	genKafka(r, p, r.Pick(2, 4, 7, 10))
	p.P["precreate"] = 1
	p.P["maxwait"] = int64(r.Pick(50, 100, 500, 2000))
	p.P["producers"] = int64(r.Pick(1, 1, 2, 3))
	if p.P["schema"] == 4 {
		p.P["schema"] = 2 // keep partitions apart
	}
	total := 0
	for _, o := range p.Ops {
		if o.K == "c" {
			total += 2 + int(o.A[2]+o.A[3]+5*o.A[4])
		}
	}
	steps := r.R(total/2+1, 2*total+4)
	chaos := r.Pick(0, 3, 8)
	big := r.Pick(1, 3, 10)
	for i := 0; i < steps; i++ {
		switch {
		case r.P(4, 100):
			p.Add("k", int64(r.N(3)), int64(r.Pick(0, 5, 100, 2000)), int64(r.N(2)))
		case r.P(3, 100):
			p.Add("t", int64(r.N(12)), int64(r.N(100)))
		case r.P(2, 100):
			p.Add("x", int64(r.N(4)), int64(r.N(3)), int64(r.R(1, 3)))
		case r.P(chaos, 100):
			p.Add("f", 0, int64(r.Pick(0, 1, 3, 4, 5, 6, 7, 8)), int64(r.N(1000)), int64(r.Pick(5, 100, 300)))
		case r.P(1, 3):
			p.Add("s", int64(r.Pick(1, 3, 10, 30, 300, 2000)))
		default:
			p.Add("p", int64(r.N(int(p.P["producers"]))), int64(r.R(1, big)))
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

func runC15(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	root := kw.t.byID[0]
	kw.c.onAppend = nil // the mirror keeps track
	kw.c.tokens, kw.c.apart = 2, true
	tracked := regexps([]string{".*"})
	dur := &durable{num: root.num, hash: root.hash, weight: root.weight, blk: root}
	app := newView(kw.t, root)
	need := func() map[string]int64 {
		m := map[string]int64{}
		fork := dur.num + 1
		for _, n := range kw.t.nodes {
			if !n.ancestorOf(dur.blk) && n.parent != nil && n.parent != dur.blk && n.parent.ancestorOf(dur.blk) && n.parent.num < fork {
				fork = n.parent.num
			}
		}
		if dur.blk == root {
			fork = 0
		}
		for _, pt := range kw.b.parts {
			m[pt.name] = pt.end()
			for _, x := range pt.log {
				n := kw.t.byHash[types.BytesToHash(x.key[1:33])]
				if (n == dur.blk || n.ancestorOf(dur.blk)) && n.num < fork {
					continue
				}
				m[pt.name] = x.off
				break
			}
		}
		return m
	}
	restarts := 0
	var cur *kconsumer
	var proc *kproc
	var stop, done chan struct{}
	var start map[string]int64
	dead := false
	boot := func() bool {
		proc2, url := kw.c.proc(fmt.Sprintf("c%d", restarts), "")
		proc = proc2
		tok, err := parseToken(dur.token)
		if err != nil {
			w.Fail("token-syntax", "resumption token %q of %v: %v", dur.token, dur.blk, err)
			return false
		}
		rb := int64(0)
		nd := need()
		for _, s := range core.SortedKeys(nd) {
			if o, ok := tok[s]; ok && o-nd[s] > rb {
				rb = o - nd[s]
			}
		}
		start = map[string]int64{}
		for _, pt := range kw.b.parts {
			first := kw.kpart(pt).first
			start[pt.name] = first
			if o, ok := tok[pt.name]; ok {
				if o > pt.end() || o < first {
					w.Fail("token-beyond", "the token %q names %s offset %d; it has %d to %d", dur.token, pt.name, o, first, pt.end())
					return false
				}
				if o-rb > first {
					start[pt.name] = o - rb
				}
			}
		}
		w.Log("start %d at %v token %s rollback %d", restarts, dur.blk, sortedToken(dur.token), rb)
		cfg := &delivery.ConsumerConfig{LastEmittedNum: dur.num, LastHash: dur.hash, LastWeight: new(big.Int).Set(dur.weight), ReorgThreshold: 64, TrackedPrefixes: tracked}
		k := &kconsumer{stop: make(chan struct{})}
		w.Step("starting consumer %d", restarts)
		for try := 0; ; try++ {
			k.c, err = gotC(transports.ResolveConsumer(url, mainTopic, kw.topics, []byte(dur.token), rb, cfg))
			if err == nil {
				break
			}
			if try > 60 {
				w.Fail("consumer-error", "a consumer could not be created: %v", err)
				return false
			}
			time.Sleep(time.Second)
		}
		pch := make(chan *delivery.PendingBatch, 1)
		cch := make(chan *delivery.ChainUpdate, int(p.Seed%3))
		k.c.Subscribe(pch)
		sub := k.c.Subscribe(cch)
		stop, done, dead = make(chan struct{}), make(chan struct{}), false
		st, dn := stop, done
		go func() {
			for {
				select {
				case pb := <-pch:
					k.pbs = append(k.pbs, pb)
				case <-k.stop:
					return
				}
			}
		}()
		go func() {
			defer close(dn)
			for {
				select {
				case u := <-cch:
					if dead {
						return
					}
					if c, s := app.apply(u, false); c != "" && c != "needless-reorg" {
						w.Fail(c, "after %d restarts, update %d: %s", restarts, app.seen, s)
						sub.Unsubscribe()
						return
					}
					for _, pb := range u.Added() {
						if d := kw.blks[kw.t.byHash[pb.Hash].id].want(kw.ref, tracked).diff(pb); d != "" {
							w.Fail("content", "after %d restarts, %s: %s", restarts, pbName(kw.t, pb), d)
							return
						}
					}
					last := u.Added()[len(u.Added())-1]
					dur = &durable{num: last.Number, hash: last.Hash, weight: last.Weight, token: last.Resumption(), blk: kw.t.byHash[last.Hash]}
					w.Log("applied %s", pbName(kw.t, last))
					u.Done()
				case <-st:
					sub.Unsubscribe()
					return
				}
			}
		}()
		if err := k.c.Start(); err != nil {
			// Deployments restart a consumer that cannot start.
			w.Log("start failed: %v", err)
			w.Probe("start-failed")
			dead = true
			close(st)
			<-dn
			close(k.stop)
			kw.c.kill(proc)
			return true
		}
		cur = k
		return true
	}
	start1 := func() bool {
		for i := 0; i < 30; i++ {
			cur = nil
			if !boot() {
				return false
			}
			if cur != nil {
				return true
			}
			restarts++
			time.Sleep(2 * time.Second)
		}
		w.Fail("consumer-error", "a consumer could not be started in a minute")
		return false
	}
	if !start1() {
		return
	}
	end := func(how int64) bool {
		switch how {
		case 0: // the process dies
			dead = true
			close(stop)
			<-done
			kw.c.kill(proc)
			w.Fault("consumer-crash")
		default:
			t := w.Now()
			w.Step("closing consumer %d", restarts)
			cur.c.Close()
			if d := w.Now() - t; d > 60*time.Second+time.Duration(kw.c.maxWait)*time.Duration(2*len(kw.b.parts))*time.Millisecond {
				w.Fail("slow-close", "Close took %v", d)
			}
			if how == 1 {
				time.Sleep(time.Second) // let the application finish what it was given
			}
			dead = true
			close(stop)
			<-done
			kw.c.kill(proc)
			w.Fault("consumer-close")
		}
		close(cur.stop)
		return !w.Failed()
	}
	ends := 0
	for _, op := range p.Ops {
		switch op.K {
		case "p":
			kw.kpublish(int(op.Arg(0)), int(op.Arg(1)))
		case "x":
			kw.crash(int(op.Arg(0)), int(op.Arg(1)), int(op.Arg(2)))
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "f":
			kw.c.chaos(op)
		case "t":
			pt := kw.b.parts[int(op.Arg(0))%len(kw.b.parts)]
			// Deleted are messages no restart from here on needs.
			nd := need()[pt.name]
			kp := kw.kpart(pt)
			if o := start[pt.name]; o < nd {
				nd = o // no token of this incarnation is from before
			}
			to := kp.first + (nd-kp.first)*op.Arg(1)/100
			if to > kp.first {
				kp.truncate(to)
				w.Fault("retention")
			}
		case "k":
			if ends >= 4 {
				break
			}
			ends++
			if !end(op.Arg(0)) {
				return
			}
			time.Sleep(time.Duration(op.Arg(1)) * time.Millisecond)
			restarts++
			w.Probes["nontrivial"] = 1
			if !start1() {
				return
			}
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(len(app.chain)), int64(restarts)}
		for _, pt := range kw.b.parts {
			h = append(h, pt.end())
		}
		w.State(core.Mix(h...))
	}
	time.Sleep(2 * time.Second)
	kw.c.calm()
	w.Calm()
	kw.kcomplete()
	best := heaviest(root, func(n *node) bool { return true })
	behind := func() bool {
		tip := kw.t.byHash[app.tip()]
		return tip.weight.Cmp(best.weight) < 0
	}
	kw.settle(60*time.Second, func() bool { return w.Failed() || !behind() })
	for k := 0; k < 2 && behind() && restarts > 0 && !w.Failed(); k++ {
		n := kw.t.add(100000+k, best.id, 1, 7)
		kw.order = append(kw.order, n)
		kw.blks[n.id] = blkOf(n, content{})
		ms, err := produce(kw.newDP(), kw.blks[n.id])
		if err != nil {
			panic("refused what has to work: " + err.Error())
		}
		kw.all[n.hash] = ms
		for _, m := range ms {
			kw.kput(m, n.hash)
		}
		w.Log("extend %v", n)
		w.Probe("extended")
		best = n
		kw.settle(20*time.Second, func() bool { return w.Failed() || !behind() })
	}
	if w.Failed() {
		return
	}
	// The last incarnation must have been given every block that was there
	// from its starting point on.
	full := map[types.Hash]bool{}
	for _, n := range kw.order {
		have := map[string]bool{}
		for _, pt := range kw.b.parts {
			for _, m := range pt.log {
				if m.off >= start[pt.name] && types.BytesToHash(m.key[1:33]) == n.hash {
					have[string(m.key)] = true
				}
			}
		}
		ok := true
		for key := range kw.blks[n.id].needed(kw.all[n.hash], kw.ref, tracked) {
			if !have[key] {
				ok = false
			}
		}
		full[n.hash] = ok
	}
	seen := map[types.Hash]int{}
	for _, pb := range cur.pbs {
		seen[pb.Hash]++
	}
	for _, n := range kw.order {
		if full[n.hash] && seen[n.hash] == 0 {
			w.Fail("missing", "after %d restarts the consumer was not given %v, all of whose messages lie after where it started", restarts, n)
			return
		}
		if seen[n.hash] > 1 {
			w.Fail("emitted-twice", "after %d restarts the consumer was given %v %d times", restarts, n, seen[n.hash])
			return
		}
		if !full[n.hash] && seen[n.hash] > 0 {
			w.Fail("incomplete-emitted", "after %d restarts the consumer was given %v, not all of whose messages lie after where it started", restarts, n)
			return
		}
	}
	if behind() {
		w.Fail("lost", "after %d restarts and with everything published and read, the application stayed at %s; the heaviest chain ends at %v", restarts, app.nm(app.tip()), best)
		return
	}
	w.Probe("converged")
	end(1)
}
