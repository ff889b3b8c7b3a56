package props

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C25", Title: "A multiplexed producer publishes on every transport", Gen: genC25, Run: runC25, MaxSim: 4 * time.Hour,
		Rule: "one run = an application publishes a block tree through a real multiplexed producer over some combination of Kafka clusters' topics and websockets, asks it, changes its health, is killed and restarted, while transports are disturbed or lost for good and another producer publishes the same blocks; non-trivial = two transports, or one lost; a state = (log ends, blocks added, incarnation)",
		Real: append([]string{"transports.ResolveMuxProducer"}, append(append([]string{}, wsReal...), kafkaReal...)...), Stub: append(append([]string{"the other producer: messages appended to the log by the harness"}, kafkaStub...), wsStub[:1]...),
		Floors: map[string]int64{"parts": 1, "schema": 0, "brokers": 1, "producers": 1, "resslow": 0, "resbuf": 0, "cap": 0, "buf": 0, "cons": 1}})
}

// The combinations: k is Kafka, q is Kafka with other topics, w websockets.
var muxProds = []string{"kw", "wk", "kq", "kqw", "wqk", "k", "w"}

func genC25(r *core.Rand, p *core.Plan) {
	genKafka(r, p, r.Pick(2, 4, 7, 12))
	p.P["precreate"] = 1
	p.P["maxwait"] = int64(r.Pick(50, 100, 500, 2000))
	p.P["buf"] = int64(r.Pick(0, 1, 100))
	p.P["resslow"] = int64(r.Pick(0, 0, 1, 5))
	p.P["resbuf"] = int64(r.Pick(0, 0, 1, 100))
	p.P["cap"] = int64(r.Pick(0, 0, 300, 5000))
	p.P["cons"] = int64(r.Pick(1, 1, 2))
	p.P["mix"] = int64(r.N(len(muxProds)))
	if r.P(1, 2) {
		p.P["mix"] = int64(r.N(5))
	}
	p.P["mode"] = int64(r.Pick(0, 0, 1, 2)) // 1: Kafka is lost, 2: websockets are
	p.P["producers"] = 1
	var ids []int64
	for _, o := range p.Ops {
		if o.K == "c" {
			ids = append(ids, o.A[0])
		}
	}
	ids = ids[1:]
	all := append([]int64(nil), ids...)
	faults := r.Pick(0, 5, 15)
	steps := r.R(len(ids)+2, 3*len(ids)+8)
	die := r.N(steps)
	for i := 0; i < steps; i++ {
		if i == die {
			p.Add("die")
		}
		switch {
		case len(ids) > 0 && r.P(2, 5):
			if r.P(1, 6) {
				p.Add("rival", ids[0], int64(r.Pick(0, 100, 9000)), int64(r.N(2)))
				if r.P(1, 2) {
					p.Add("l")
				}
			}
			p.Add("a", ids[0], int64(r.Pick(1000, 1000, 1000, 1000, 1000, 1000, 1000, 1000, 1000, 0, 1, 2)))
			ids = ids[1:]
		case r.P(1, 3):
			p.Add("s", int64(r.Pick(1, 30, 300, 3000, 9000, 31000)))
		case r.P(1, 4):
			p.Add("wc", int64(r.N(int(p.P["cons"]))))
		case r.P(1, 4):
			p.Add("h", int64(r.N(2)))
		case r.P(1, 4):
			p.Add("q", int64(r.Pick(5, 31, 45, 200, 3600)))
		case r.P(1, 4):
			p.Add("l")
		case r.P(1, 4):
			p.Add("u", int64(r.U64()>>1))
		case r.P(1, 4):
			p.Add("bad", int64(r.N(2)))
		case r.P(1, 4):
			p.Add("re", all[r.N(len(all))], int64(r.N(2)))
		case r.P(1, 4):
			p.Add("ping", int64(r.N(3)), int64(r.N(2)))
		case r.P(1, 6):
			p.Add("crash", int64(r.Pick(1, 500, 3000)))
		}
		if r.P(faults, 100) {
			if r.P(1, 4) {
				p.Add("x")
			} else {
				p.Add("f", 0, int64(r.Pick(0, 1, 1, 2, 3, 4, 5, 6, 7, 8)), int64(r.N(1000)), int64(r.Pick(5, 100, 300)))
			}
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

var feedNames = []string{"", "u-"}

// feed is one Kafka transport of the producer.
type feed struct {
	pre    string // of its topics
	inLog  map[types.Hash]map[string]bool
	hdrs   []hdrAt
	pings  []ping
	copies map[string]int
	broken string
}

type hdrAt struct {
	part     int32
	off, num int64
}

func runC25(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	c := kw.c
	c.tokens, c.apart = 1, true
	mix := muxProds[int(p.P["mix"])%len(muxProds)]
	hasW := strings.Contains(mix, "w")
	mode := p.P["mode"]
	if mode == 1 && (!strings.ContainsAny(mix, "kq") || !hasW) || mode == 2 && (!hasW || len(mix) == 1) {
		mode = 0
	}
	feeds := map[string]*feed{}
	var names []string
	for _, x := range mix {
		if x != 'w' {
			pre := map[rune]string{'k': "", 'q': "u-"}[x]
			names = append(names, pre)
			feeds[pre] = &feed{pre: pre, inLog: map[types.Hash]map[string]bool{}, copies: map[string]int{}}
			for _, t := range kw.topics {
				c.topic(pre+t, int(p.P["parts"]), p.P["base"])
			}
		}
	}
	topicOf, valueOf := map[string]string{}, map[string][]byte{}
	for _, n := range kw.order {
		for _, m := range kw.all[n.hash] {
			topicOf[string(m.key)], valueOf[string(m.key)] = m.topic, m.value
		}
	}
	c.onAppend = func(kp *kpart, off int64, r sarama.SimRec) {
		name, pre := kp.t.name, ""
		if strings.HasPrefix(name, "u-") {
			pre, name = "u-", name[2:]
		}
		f := feeds[pre]
		if f == nil || len(r.Key) == 0 {
			return
		}
		if r.Key[0] == byte(delivery.PingType) {
			f.pings = append(f.pings, ping{c.from + string(r.Key[1:]), kp.t.name, w.Now()})
			return
		}
		k := string(r.Key)
		t, ok := topicOf[k]
		switch {
		case !ok:
			f.broken = fmt.Sprintf("message %x was never produced", r.Key)
			return
		case t != name:
			f.broken = fmt.Sprintf("message %x was sent to %s; the schema assigns it to %s", r.Key, kp.t.name, pre+t)
		case r.Key[0] != byte(delivery.BatchType) && !bytes.Equal(r.Value, valueOf[k]):
			f.broken = fmt.Sprintf("message %x has value %x; %x was produced", r.Key, r.Value, valueOf[k])
		}
		h := types.BytesToHash(r.Key[1:33])
		if f.inLog[h] == nil {
			f.inLog[h] = map[string]bool{}
		}
		f.inLog[h][k] = true
		f.copies[k]++
		if r.Key[0] == byte(delivery.BatchType) && name == mainTopic {
			f.hdrs = append(f.hdrs, hdrAt{kp.idx, off, kw.t.byHash[h].num})
		}
	}
	missing := func(f *feed, n *node) string {
		for _, m := range kw.all[n.hash] {
			if !f.inLog[n.hash][string(m.key)] {
				return fmt.Sprintf("%x", m.key)
			}
		}
		return ""
	}
	ww := wsOver(w, kw.t, kw.blks)
	ww.newConsumers(int(p.P["cons"]))
	ww.noServer = !hasW
	ww.refused = map[types.Hash]bool{}
	wrand := w.Rand
	ww.pause = func() {
		if wrand.P(1, 4) {
			time.Sleep(time.Duration(wrand.N(5000)) * time.Microsecond)
		}
	}
	var proc *kproc
	up := time.Duration(0)
	ww.resolve = func() (transports.Producer, error) {
		var url string
		proc, url = c.proc(fmt.Sprintf("m%d", ww.inc), "")
		var bp []transports.ProducerBrokerParams
		for _, x := range mix {
			if x == 'w' {
				bp = append(bp, transports.ProducerBrokerParams{URL: "cardinal://ws://0.0.0.0:8546"})
				continue
			}
			pre := map[rune]string{'k': "", 'q': "u-"}[x]
			schema := map[string]string{}
			for k, v := range kw.schema {
				schema[k] = pre + v
			}
			bp = append(bp, transports.ProducerBrokerParams{URL: "cardinal://" + url, DefaultTopic: pre + mainTopic, Schema: schema})
		}
		return gotP(transports.ResolveMuxProducer(bp, &wsResumer{ww}))
	}
	kGone, wGone := false, false
	quiet := false
	healthy := true
	purged := time.Duration(-1)
	// boot creates the producer; all its transports have to be there.
	boot := func() bool {
		quiet = true
		c.dropBefore, c.dropAfter = map[string]int{}, map[string]int{}
		for k := range c.errs {
			c.errs[k] = nil
		}
		time.Sleep(4 * time.Second)
		quiet = false
		healthy = true
		if !ww.boot() {
			return false
		}
		if wGone {
			for _, x := range ww.cons {
				x.host.SetDown(true)
			}
		}
		up = w.Now()
		return true
	}
	w.Step("creating the producer %s, mode %d", mix, mode)
	if !boot() {
		return
	}
	slack := 2*time.Second + time.Duration(c.maxWait)*2*time.Millisecond + 20*time.Second
	if p.Sim.StallP > 0 {
		slack += 8 * time.Second
	}
	// announce publishes blocks and tolerates errors while Kafka is away.
	added := map[types.Hash]bool{}
	announce := func(n *node, steps *int) bool {
		t0 := w.Now()
		err := ww.announce(n, steps)
		if err != nil {
			if !kGone {
				w.Fail("producer-error", "%s: publishing a block failed: %v", mix, err)
				return false
			}
			w.Probe("kafka-error")
			// The others got it all the same. The rest of the block is published
			// by applications that carry on.
			for _, s := range ww.blks[n.id].Subs {
				ww.prod.SendBatch(s.id, s.deletes, s.updates)
			}
		}
		if d := w.Now() - t0; d > 10*time.Minute {
			w.Fail("slow", "%s: publishing %v took %v", mix, n, d)
			return false
		}
		added[n.hash] = true
		return true
	}
	add := func(n *node, steps int) bool {
		if ww.have[n.hash] != nil || n.parent == nil || ww.have[n.phash] == nil {
			return true
		}
		old := ww.head
		list := []*node{n}
		if ww.store(n) {
			w.Fault("reorg")
			for m := n.parent; m != nil && !m.ancestorOf(old); m = m.parent {
				list = append([]*node{m}, list...)
			}
		}
		for _, m := range list {
			if !announce(m, &steps) {
				return false
			}
		}
		return true
	}
	// again publishes everything that Kafka lacks.
	again := func() bool {
		time.Sleep(10 * time.Second)
		first := true
		for _, n := range kw.order {
			lacks := false
			for _, pre := range names {
				lacks = lacks || added[n.hash] && missing(feeds[pre], n) != ""
			}
			if !lacks {
				continue
			}
			if first {
				ww.prod.PurgeReplayCache()
				purged = w.Now()
				first = false
				w.Probe("published-again")
			}
			steps := 1 << 20
			if !announce(n, &steps) {
				return false
			}
		}
		return true
	}
	crash := func(ms int64) bool {
		if hasW {
			ww.crash()
		} else {
			w.Fault("producer-crash")
		}
		c.kill(proc)
		time.Sleep(time.Duration(ms) * time.Millisecond)
		if kGone {
			return true // it cannot be created again
		}
		return boot() && again()
	}
	calls := uint64(0)
	left := map[int]bool{}
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		switch op.K {
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "a":
			n := kw.t.byID[int(op.Arg(0))]
			if n == nil {
				break
			}
			left[n.id] = true
			steps := 1 << 20
			if op.Arg(1) < 1000 && !kGone && ww.inc < 6 {
				steps = int(op.Arg(1))
			}
			if !add(n, steps) {
				return
			}
			if steps < 1000 {
				if !crash(200) {
					return
				}
			}
		case "crash":
			if !kGone && ww.inc < 6 && !crash(op.Arg(0)) {
				return
			}
		case "rival":
			if n := kw.t.byID[int(op.Arg(0))]; n != nil && feeds[feedNames[op.Arg(2)%2]] != nil && !kGone {
				c.from = "rival"
				for _, m := range kw.all[n.hash] {
					ps := c.topics[feedNames[op.Arg(2)%2]+m.topic].parts
					c.append(ps[int(hashBytes(m.key)>>8&0xffff)%len(ps)], c.rec(m.key, m.value))
				}
				w.Probe("rival")
				time.Sleep(time.Duration(op.Arg(1)) * time.Millisecond)
			}
		case "ping":
			if pre := feedNames[op.Arg(1)%2]; feeds[pre] != nil {
				ps := c.topics[pre+mainTopic].parts
				c.from = "rival-"
				id := mkHash('P', uint64(op.Arg(0)), 0)
				c.append(ps[int(op.Arg(0))%len(ps)], c.rec(delivery.PingType.GetKey(id[:]), []byte("now")))
			}
		case "wc":
			if x := ww.cons[int(op.Arg(0))%len(ww.cons)]; x.c == nil && hasW {
				if !x.create(ww.settled()) {
					return
				}
				x.start()
			}
		case "x":
			for _, k := range ww.net.Open("") {
				if w.Rand.P(1, 2) {
					w.Fault("connection-reset")
					k.Reset()
				}
			}
		case "die":
			switch mode {
			case 1:
				kGone = true
				w.Fault("kafka-lost")
				for _, b := range c.brokers {
					if w.Rand.P(1, 2) {
						c.setCut(b, true)
					} else {
						c.setDown(b, true)
					}
				}
				c.gone = true
			case 2:
				wGone = true
				w.Fault("websockets-lost")
				for _, x := range ww.cons {
					x.host.SetDown(true)
				}
			}
		case "f":
			if !quiet && !kGone {
				c.chaos(op)
			}
		case "u":
			if err := ww.prod.SendBatch(mkHash('U', uint64(op.Arg(0)), 0), nil, nil); err == nil {
				w.Fail("batch-accepted", "%s: a batch nobody announced was accepted", mix)
				return
			}
		case "bad":
			// Kafka's message format cannot carry it; as its parent is unknown,
			// websocket consumers make nothing of it.
			if len(names) == 0 {
				break
			}
			calls = calls*31 + 7
			h := mkHash('E', calls, uint64(ww.inc))
			ww.refused[h] = true
			b := map[string]types.Hash{"bad/": {}}
			up := map[string][]byte{}
			if op.Arg(0) == 1 {
				b["bad/"], up["bad/"] = mkHash('E', calls, 1), []byte{1}
			}
			if err := ww.prod.AddBlock(kw.t.byID[0].num, h, mkHash('E', calls, 2), big.NewInt(1), up, nil, b); err == nil {
				w.Fail("block-accepted", "%s: a block that Kafka's messages cannot carry (%v) was accepted", mix, b)
				return
			}
			if op.Arg(0) == 1 {
				if err := ww.prod.SendBatch(b["bad/"], nil, map[string][]byte{"bad/x": {1}}); err == nil {
					w.Fail("batch-accepted", "%s: a batch of a block that was refused was accepted", mix)
					return
				}
			}
			w.Probe("refused")
		case "re":
			// After the replay cache is purged, Kafka is given the block again.
			n := kw.t.byID[int(op.Arg(0))]
			if n == nil || !added[n.hash] || kGone || len(names) == 0 {
				break
			}
			time.Sleep(slack)
			purge := op.Arg(1) == 1
			if purge {
				ww.prod.PurgeReplayCache()
				purged = w.Now()
			}
			before := map[string]int{}
			key := ""
			for _, m := range kw.all[n.hash] {
				if m.key[0] == byte(delivery.BatchType) {
					key = string(m.key)
				}
			}
			for _, pre := range names {
				before[pre] = feeds[pre].copies[key]
			}
			steps := 1 << 20
			if !announce(n, &steps) {
				return
			}
			time.Sleep(slack)
			for _, pre := range names {
				if d := feeds[pre].copies[key] - before[pre]; purge && d == 0 {
					w.Fail("not-purged", "%s: after its replay cache was purged, the producer did not publish %v again in %q", mix, n, pre+mainTopic)
					return
				} else if d > 0 {
					w.Probe("purged")
				}
			}
		case "h":
			if kGone {
				break
			}
			healthy = op.Arg(0) == 1
			ww.prod.SetHealth(healthy)
			time.Sleep(slack)
			at := map[string]int{}
			count := func(pre string) (k int) {
				for _, x := range feeds[pre].pings {
					if strings.HasPrefix(x.from, proc.name) {
						k++
					}
				}
				return
			}
			for _, pre := range names {
				at[pre] = count(pre)
			}
			time.Sleep(30*time.Second + slack)
			for _, pre := range names {
				if d := count(pre) - at[pre]; healthy != (d > 0) {
					w.Fail("health", "%s: the producer was marked healthy=%v, and announced itself %d times in %q", mix, healthy, d, pre+mainTopic)
					return
				}
			}
			w.Probe("health-checked")
		case "q":
			if kGone {
				break
			}
			d := time.Duration(op.Arg(0)) * time.Second
			t0 := w.Now()
			n := int(ww.prod.ProducerCount(d))
			t1 := w.Now()
			lo, hi := 0, 0
			for _, pre := range names {
				must, may := map[string]bool{}, map[string]bool{}
				for _, x := range feeds[pre].pings {
					if strings.HasPrefix(x.from, proc.name) {
						continue
					}
					id := x.from[len(x.from)-32:]
					if x.at > t1-d+slack && x.at < t0-slack && x.at > up {
						must[id] = true
					}
					if x.at >= t0-d-slack || up >= t0-d-slack {
						may[id] = true
					}
				}
				lo += len(must)
				hi += len(may)
			}
			if n < lo || n > hi {
				w.Fail("count", "%s: the producer counts %d producers in the last %v; there were at least %d and at most %d", mix, n, d, lo, hi)
				return
			}
			w.Probe("count-checked")
			calls = calls*31 + uint64(n)
		case "l":
			if kGone {
				break
			}
			quiet = true
			time.Sleep(slack)
			ends := func() (e []int64) {
				for _, pre := range names {
					for _, kp := range c.topics[pre+mainTopic].parts {
						e = append(e, kp.next)
					}
				}
				return
			}
			e := fmt.Sprint(ends())
			n, err := ww.prod.LatestBlockFromFeed()
			quiet = false
			if e != fmt.Sprint(ends()) {
				break
			}
			if len(names) == 0 {
				if err == nil {
					w.Fail("latest", "%s: the latest block of the feed is %d, although no transport can tell", mix, n)
					return
				}
				break
			}
			want := int64(-1)
			for _, pre := range names {
				max := int64(0)
				for _, h := range feeds[pre].hdrs {
					if h.off >= c.topics[pre+mainTopic].parts[h.part].next-100 && h.num > max {
						max = h.num
					}
				}
				if want < 0 || max < want {
					want = max
				}
			}
			if err != nil || n != want {
				w.Fail("latest", "%s: the latest block of the feed is said to be %d (%v); it is %d", mix, n, err, want)
				return
			}
			w.Probe("latest-checked")
		}
		for _, pre := range names {
			if s := feeds[pre].broken; s != "" {
				w.Fail("wrong-message", "%s: %s", mix, s)
			}
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(len(ww.have)), int64(ww.inc), int64(calls)}
		for _, tn := range core.SortedKeys(c.topics) {
			for _, kp := range c.topics[tn].parts {
				h = append(h, kp.next)
			}
		}
		w.State(core.Mix(h...))
	}
	_ = purged
	if !kGone {
		c.calm()
	}
	w.Calm()
	for _, n := range kw.order {
		if !add(n, 1<<20) {
			return
		}
	}
	if mode > 0 || len(mix) > 1 {
		w.Probes["nontrivial"] = 1
	}
	w.Step("waiting for everything to arrive")
	if !kGone {
		lack := func() string {
			for _, pre := range names {
				for _, n := range kw.order {
					if !added[n.hash] {
						continue
					}
					if s := missing(feeds[pre], n); s != "" {
						return fmt.Sprintf("message %s of %v in %q", s, n, pre)
					}
				}
			}
			return ""
		}
		kw.settle(time.Minute, func() bool { return lack() == "" })
		if s := lack(); s != "" {
			w.Fail("not-published", "%s, mode %d: %s was given to the producer and is not in the log", mix, mode, s)
			return
		}
	}
	best := heaviest(kw.t.byID[0], func(*node) bool { return true })
	if hasW && !wGone {
		for _, x := range ww.cons {
			if x.c == nil {
				if !x.create(ww.settled()) {
					return
				}
				x.start()
			}
		}
		at := func(x *wsConsumer) *node { return kw.t.byHash[x.v.tip()] }
		kw.settle(4*time.Minute, func() bool {
			for _, x := range ww.cons {
				if at(x).weight.Cmp(best.weight) != 0 {
					return false
				}
			}
			return true
		})
		for _, x := range ww.cons {
			x.check()
			if w.Failed() {
				return
			}
			if at(x).weight.Cmp(best.weight) != 0 {
				w.Fail("not-converged", "%s, mode %d: websocket consumer %s stayed at %v; the heaviest chain ends at %v", mix, mode, x.name, at(x), best)
				return
			}
		}
		w.Probe("ws-converged")
	}
	if kGone {
		// Kafka gets nothing any more, which the application has to hear of.
		ww.prod.PurgeReplayCache()
		var err error
		for i := 0; i < 90 && err == nil; i++ {
			steps := 1 << 20
			err = ww.announce(best, &steps)
			time.Sleep(time.Minute)
		}
		if err == nil {
			w.Fail("silent-loss", "%s: Kafka was lost, and publishing a block succeeded for one and a half hours", mix)
		}
		return
	}
	for _, pre := range names {
		_, url := c.proc("k"+pre, "")
		k := *kw
		k.inLog = feeds[pre].inLog
		k.topics = nil
		for _, t := range kw.topics {
			k.topics = append(k.topics, pre+t)
		}
		root := kw.t.byID[0]
		kc, err := k.consumer(url, root, nil, 0, ".*")
		if err == nil {
			err = kc.c.Start()
		}
		if err != nil {
			w.Fail("consumer-error", "%s: a Kafka consumer could not be started: %v", mix, err)
			return
		}
		time.Sleep(15*time.Second + time.Duration(4*c.maxWait)*time.Millisecond)
		k.check("a consumer of "+pre+mainTopic, kc, root, ".*")
		if w.Failed() {
			return
		}
	}
	w.Probe("complete")
}
