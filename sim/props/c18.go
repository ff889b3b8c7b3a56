package props

import (
	"fmt"
	"math/big"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C18", Title: "Producer counts reflect the heartbeats of live, healthy producers", Gen: genC18, Run: runC18, MaxSim: 4 * time.Hour,
		Rule: "one run = real Kafka producers start, are marked healthy or not, publish and die at any time, while producers and consumers are asked, by several goroutines at once, how many producers there are; non-trivial = an answer was determined and not zero; a state = (log ends, answers)",
		Real: kafkaReal, Stub: kafkaStub, Floors: map[string]int64{"parts": 1, "schema": 0, "brokers": 1, "consumers": 0, "producers": 1, "two": 0}})
	core.Register(&core.Prop{ID: "C19", Title: "The latest block of a feed is found", Gen: genC19, Run: runC19, MaxSim: 2 * time.Hour,
		Rule: "one run = a topic whose partitions hold headers with any numbers, other messages, gaps from retention and growth; real Kafka producers are asked for the latest block at any time; non-trivial = there was a header among the last hundred messages of a partition; a state = (log ends, answer)",
		Real: []string{"transports.KafkaProducer", "delivery (producer, codec)", "Shopify/sarama client", "hamba/avro"}, Stub: kafkaStub, Floors: map[string]int64{"parts": 1, "schema": 0, "brokers": 1, "producers": 1}})
}

func mixC18(r *core.Rand, p *core.Plan, np, nc int) {
	for i, n := 0, r.R(5, 40); i < n; i++ {
		switch r.N(10) {
		case 0, 1:
			p.Add("up", int64(r.N(np)))
		case 2:
			p.Add("h", int64(r.N(np)), int64(r.N(2)))
		case 3:
			p.Add([]string{"kill", "up"}[r.N(2)], int64(r.N(np)))
		case 4:
			if nc > 0 {
				p.Add("cup", int64(r.N(nc)), int64(r.N(3)))
			}
		case 5:
			p.Add("a", int64(r.N(np)), int64(r.N(3)))
		case 6:
			if p.P["faults"] == 1 {
				p.Add("f", 0, int64(r.Pick(0, 1, 1, 2, 3, 4, 5, 6, 7)), int64(r.N(1000)), int64(r.Pick(5, 100, 300)))
			}
		case 7:
			p.Add("q", int64(r.N(np+nc)), int64(r.Pick(5, 29, 31, 45, 70, 200, 3600)), int64(r.R(1, 3)))
		default:
			p.Add("s", int64(r.Pick(1, 10, 500, 3000, 9000, 28000, 31000, 31000, 65000, 200000)))
		}
		if r.P(1, 2) {
			p.Add("q", int64(r.N(np+nc)), int64(r.Pick(5, 29, 31, 45, 70, 200, 3600)), int64(r.R(1, 3)))
		}
	}
}

func genC18(r *core.Rand, p *core.Plan) {
	genKafka(r, p, r.Pick(1, 2))
	p.P["precreate"] = int64(r.Pick(0, 1))
	p.P["producers"] = int64(r.Pick(1, 2, 2, 3, 4))
	p.P["consumers"] = int64(r.Pick(0, 1, 1, 2))
	p.P["maxwait"] = int64(r.Pick(50, 500, 2000))
	p.P["faults"] = int64(r.Pick(0, 0, 1))
	p.P["two"] = int64(r.Pick(0, 0, 1)) // a second feed, and some that use both
	np, nc := int(p.P["producers"]), int(p.P["consumers"])
	if r.P(1, 4) {
		// Somebody falls silent for a long time.
		p.P["maxwait"] = 2000
		for k := r.R(1, np); k > 0; k-- {
			p.Add("up", int64(r.N(np)))
		}
		if nc > 0 && r.P(1, 2) {
			p.Add("cup", int64(r.N(nc)), int64(r.N(3)))
		}
		p.Add("s", int64(r.Pick(500, 28000, 31000)))
		for k := r.R(1, 2); k > 0; k-- {
			p.Add("kill", int64(r.N(np)))
		}
		for k := r.R(1, 4); k > 0; k-- {
			p.Add("s", int64(r.Pick(31000, 200000, 200000, 1000000)))
			if r.P(1, 3) {
				p.Add("up", int64(r.N(np)))
			}
			for m := r.R(1, 3); m > 0; m-- {
				p.Add("q", int64(r.N(np+nc)), int64(r.Pick(45, 200, 600, 1800, 3600)), int64(r.R(1, 3)))
			}
		}
	} else {
		mixC18(r, p, np, nc)
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
	if p.Sim.MapP == 0 && r.P(1, 3) {
		p.Sim.MapP = 1 << 14
	}
}

type ping struct {
	from string
	feed string
	at   time.Duration
}

type hprod struct {
	k        transports.Producer
	prs      []*kproc // one per feed
	feeds    []string
	name     string
	up, died time.Duration
	healthy  bool
	since    time.Duration
	spans    [][2]time.Duration // when it was healthy
}

func runC18(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	c := kw.c
	c.tokens, c.apart = 1, true
	slack := 2*time.Second + time.Duration(c.maxWait)*2*time.Millisecond
	if p.P["faults"] == 1 {
		slack += 20 * time.Second
	}
	if p.Sim.StallP > 0 {
		slack += 8 * time.Second
	}
	var pings []ping
	const feed2 = "v-main"
	feedsOf := func(k int64) []string {
		if p.P["two"] == 0 {
			return []string{mainTopic}
		}
		return [][]string{{mainTopic}, {mainTopic, feed2}, {feed2}}[k%3]
	}
	feedOf := map[string]string{} // process to feed
	ids := map[string]string{}    // identity to process
	procID := map[string]string{} // process to identity
	bad := ""
	c.onAppend = func(kp *kpart, off int64, r sarama.SimRec) {
		if len(r.Key) == 0 || r.Key[0] != byte(delivery.PingType) {
			return
		}
		id := string(r.Key[1:])
		if o, ok := ids[id]; ok && o != c.from && bad == "" {
			bad = fmt.Sprintf("producers %s and %s announce themselves under the same identity %x", o, c.from, id)
		}
		if o, ok := procID[c.from]; ok && o != id && bad == "" {
			bad = fmt.Sprintf("producer %s announces itself under two identities, %x and %x", c.from, o, id)
		}
		if kp.t.name != feedOf[c.from] && bad == "" {
			bad = fmt.Sprintf("producer %s announces itself in %s", c.from, kp.t.name)
		}
		ids[id], procID[c.from] = c.from, id
		pings = append(pings, ping{c.from, kp.t.name, w.Now()})
	}
	np, nc := int(p.P["producers"]), int(p.P["consumers"])
	prods := make([]*hprod, np)
	all := []*hprod{}
	type cons struct {
		c     transports.Consumer
		up    time.Duration
		feeds []string
	}
	consumers := make([]*cons, nc)
	answers := uint64(0)
	stop := func(m *hprod) {
		if m.healthy {
			m.spans = append(m.spans, [2]time.Duration{m.since, w.Now()})
			m.healthy = false
		}
	}
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		switch op.K {
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "f":
			c.chaos(op)
		case "up":
			i := int(op.Arg(0))
			if i >= np || prods[i] != nil {
				break
			}
			time.Sleep(time.Microsecond)
			m := &hprod{name: fmt.Sprintf("p%d-%d", i, len(all)), healthy: true}
			m.feeds = feedsOf(int64(i))
			if p.P["faults"] == 1 {
				m.feeds = m.feeds[:1] // half of one that could not be created would stay
			}
			var params []transports.ProducerBrokerParams
			for j, feed := range m.feeds {
				name := m.name
				if j > 0 {
					name += "v"
				}
				pr, url := c.proc(name, "")
				feedOf[name] = feed
				m.prs = append(m.prs, pr)
				params = append(params, transports.ProducerBrokerParams{URL: url, DefaultTopic: feed, Schema: kw.schema})
			}
			var err error
			m.since = w.Now()
			for try := 0; try < 20; try++ {
				if len(params) > 1 {
					m.k, err = gotP(transports.ResolveMuxProducer(params, nil))
				} else {
					m.k, err = gotP(transports.ResolveProducer(params[0].URL, params[0].DefaultTopic, kw.schema))
				}
				if err == nil || p.P["faults"] == 0 {
					break
				}
				time.Sleep(time.Second)
			}
			if err != nil {
				w.Fail("producer-error", "a producer could not be started: %v", err)
				return
			}
			m.up = w.Now()
			prods[i] = m
			all = append(all, m)
		case "kill":
			if i := int(op.Arg(0)); i < np && prods[i] != nil {
				stop(prods[i])
				prods[i].died = w.Now()
				for _, pr := range prods[i].prs {
					c.kill(pr)
				}
				prods[i] = nil
				w.Fault("producer-killed")
			}
		case "h":
			if i := int(op.Arg(0)); i < np && prods[i] != nil {
				m := prods[i]
				on := op.Arg(1) == 1
				m.k.SetHealth(on)
				if on && !m.healthy {
					m.healthy, m.since = true, w.Now()
				} else if !on {
					stop(m)
					w.Probe("unhealthy")
				}
			}
		case "a":
			if i := int(op.Arg(0)); i < np && prods[i] != nil && int(op.Arg(1)) < len(kw.order) {
				b := kw.blks[kw.order[op.Arg(1)].id]
				batches := map[string]types.Hash{}
				for _, s := range b.Subs {
					batches[s.key] = s.id
				}
				prods[i].k.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.Updates, b.Deletes, batches)
			}
		case "cup":
			i := int(op.Arg(0))
			if i >= nc || consumers[i] != nil {
				break
			}
			feeds := feedsOf(op.Arg(1))
			for _, feed := range feeds {
				if c.topics[feed] == nil {
					feeds = nil
				}
			}
			if feeds == nil {
				break
			}
			root := kw.t.byID[0]
			_, url := c.proc(fmt.Sprintf("c%d", i), "")
			_, url2 := c.proc(fmt.Sprintf("d%d", i), "")
			cfg := &delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: 64, TrackedPrefixes: regexps([]string{".*"})}
			if w.Rand.P(1, 3) {
				cfg = &delivery.ConsumerConfig{ReorgThreshold: 64, TrackedPrefixes: regexps([]string{".*"})}
			}
			var k transports.Consumer
			var err error
			if len(feeds) > 1 {
				k, err = gotC(transports.ResolveMuxConsumer([]transports.BrokerParams{{URL: "cardinal://" + url, DefaultTopic: feeds[0], Topics: feeds[:1]}, {URL: "cardinal://" + url2, DefaultTopic: feeds[1], Topics: feeds[1:]}}, nil, cfg))
				w.Probe("both-feeds")
			} else {
				k, err = gotC(transports.ResolveConsumer(url, feeds[0], feeds, nil, 0, cfg))
			}
			if err == nil {
				if n := k.ProducerCount(time.Hour); n != 0 {
					w.Fail("count", "a consumer that has not been started counts %d producers", n)
					return
				}
				err = k.Start()
			}
			if err != nil {
				if p.P["faults"] == 1 {
					break
				}
				w.Fail("consumer-error", "a consumer could not be started: %v", err)
				return
			}
			consumers[i] = &cons{k, w.Now(), feeds}
			go func() { <-k.Ready() }()
		case "q":
			i, d := int(op.Arg(0)), time.Duration(op.Arg(1))*time.Second
			var o transports.ProducerCounter
			own, who := "", ""
			var feeds []string
			up := time.Duration(0)
			if i < np && prods[i] != nil {
				o, own, up, who = prods[i].k, prods[i].name, prods[i].up, "producer "+prods[i].name
				feeds = prods[i].feeds
			} else if i >= np && i < np+nc && consumers[i-np] != nil {
				o, up, who = consumers[i-np].c, consumers[i-np].up, fmt.Sprintf("consumer %d", i-np)
				feeds = consumers[i-np].feeds
			}
			if o == nil {
				break
			}
			t0 := w.Now()
			res := make(chan uint, 8)
			for j := int64(0); j < op.Arg(2); j++ {
				go func() { res <- o.ProducerCount(d) }()
			}
			for j := int64(0); j < op.Arg(2); j++ {
				n := int(<-res)
				t1 := w.Now()
				must, may := map[string]bool{}, map[string]bool{}
				for _, x := range pings {
					if own != "" && (x.from == own || x.from == own+"v") || x.feed != feeds[0] && x.feed != feeds[len(feeds)-1] {
						continue
					}
					if x.at > t1-d+slack && x.at < t0-slack && x.at > up {
						must[x.from] = true
					}
					if x.at >= t0-d-slack || up >= t0-d-slack {
						may[x.from] = true
					}
				}
				w.Log("%s counts %d producers in %v; %d to %d are right", who, n, d, len(must), len(may))
				answers = answers*31 + uint64(n)
				if n < len(must) || n > len(may) {
					w.Fail("count", "%s counts %d producers in the last %v; there were at least %d and at most %d", who, n, d, len(must), len(may))
					return
				}
				w.Probe("asked")
				if len(must) == len(may) {
					w.Probe("determined")
					if len(must) > 0 {
						w.Probes["nontrivial"] = 1
					}
				}
			}
		}
		if bad != "" {
			w.Fail("identity", "%s", bad)
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(answers)}
		for _, tn := range core.SortedKeys(c.topics) {
			for _, kp := range c.topics[tn].parts {
				h = append(h, kp.next)
			}
		}
		w.State(core.Mix(h...))
	}
	// Heartbeats come when they should and at no other time.
	for _, m := range prods {
		if m != nil {
			stop(m)
		}
	}
	time.Sleep(slack)
	const every = 30 * time.Second
	type feed struct {
		*hprod
		name string
	}
	var announcing []feed
	for _, m := range all {
		for j := range m.feeds {
			announcing = append(announcing, feed{m, m.name + []string{"", "v"}[j]})
		}
	}
	for _, m := range announcing {
		var own []time.Duration
		for _, x := range pings {
			if x.from == m.name {
				own = append(own, x.at)
			}
		}
		for _, s := range m.spans {
			last := s[0]
			if last < m.up {
				last = m.up
			}
			for _, at := range append(append([]time.Duration(nil), own...), s[1]) {
				if at < last || at > s[1] {
					continue
				}
				if at-last > every+slack {
					w.Fail("heartbeat-missing", "producer %s was healthy from %v to %v, but no heartbeat of its arrived between %v and %v", m.name, s[0], s[1], last, at)
					return
				}
				last = at
			}
		}
		for _, at := range own {
			ok := false
			for _, s := range m.spans {
				if at >= s[0] && at <= s[1]+slack {
					ok = true
				}
			}
			if !ok {
				w.Fail("heartbeat-unhealthy", "a heartbeat of producer %s arrived at %v; it was healthy during %v", m.name, at, m.spans)
				return
			}
		}
	}
}

// ---- C19 --------------------------------------------------------------

func genC19(r *core.Rand, p *core.Plan) {
	genKafka(r, p, r.Pick(1, 2, 4, 7))
	p.P["precreate"] = 1
	p.P["producers"] = int64(r.Pick(1, 1, 2))
	p.P["maxwait"] = int64(r.Pick(50, 500, 500, 1000, 2500))
	p.P["slow"] = int64(r.Pick(0, 0, 30, 120))
	p.P["leak"] = int64(r.Pick(0, 0, 0, 1))
	n := 0
	for _, o := range p.Ops {
		if o.K == "b" {
			n++
		}
	}
	var live int
	for i, k := 0, r.R(2, 25); i < k; i++ {
		switch r.N(10) {
		case 0, 1, 2:
			p.Add("hdr", int64(r.N(8)), int64(r.N(n)), int64(r.Pick(0, 0, 1, 5, 1000)))
		case 3:
			p.Add("fill", int64(r.N(8)), int64(r.Pick(1, 3, 50, 97, 98, 99, 100, 101, 250)), int64(r.N(4)))
		case 4:
			p.Add("trim", int64(r.N(8)), int64(r.Pick(1, 50, 100, 1<<40)))
		case 5:
			p.Add("up", int64(r.N(int(p.P["producers"]))))
		case 6:
			p.Add("a", int64(r.N(int(p.P["producers"]))), int64(r.N(n)))
		case 7:
			p.Add("s", int64(r.Pick(1, 100, 2000, 31000)))
		case 8:
			p.Add("grow", int64(r.N(8)), int64(r.Pick(1, 20, 200)), int64(r.Pick(1, 10, 100)), int64(r.N(n)))
			live++
		case 9:
			p.Add("q", int64(r.N(int(p.P["producers"]))))
		}
	}
	p.Add("up", 0)
	p.Add("q", 0)
	core.GenSim(r, p, false)
}

func runC19(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	c := kw.c
	c.tokens, c.apart = 1, true
	if p.P["slow"] > 0 {
		lim := int(p.P["slow"])
		c.fetchMax = 100 // a reader slower than the feed never gets to its end
		c.service = func(string) time.Duration { return time.Duration(c.r.N(lim)) * time.Millisecond }
	}
	type hdr struct {
		part int32
		off  int64
		num  int64
	}
	var hdrs []hdr
	hold := 0 // messages that are being appended
	header := func(n *node, off int64) ([]byte, []byte, int64) {
		b := kw.blks[n.id]
		if off == 0 {
			for _, m := range kw.all[n.hash] {
				if delivery.MessageType(m.key[0]) == delivery.BatchType {
					return m.key, m.value, b.Num
				}
			}
		}
		dp, err := delivery.NewProducer(mainTopic, nil)
		if err != nil {
			panic("refused what has to work: " + err.Error())
		}
		ms, err := dp.AddBlock(b.Num+off, b.Hash, b.Parent, b.Weight, nil, nil, nil)
		if err != nil {
			panic("refused what has to work: " + err.Error())
		}
		for _, m := range ms[mainTopic] {
			if delivery.MessageType(m.Key()[0]) == delivery.BatchType {
				return m.Key(), m.Value(), b.Num + off
			}
		}
		panic("HARNESS: no header")
	}
	numOf := map[string]int64{}
	c.onAppend = func(kp *kpart, off int64, r sarama.SimRec) {
		if kp.t.name != mainTopic || len(r.Key) == 0 || r.Key[0] != byte(delivery.BatchType) {
			return
		}
		if n, ok := numOf[string(r.Value)]; ok {
			hdrs = append(hdrs, hdr{kp.idx, off, n})
		} else if n := kw.t.byHash[types.BytesToHash(r.Key[1:])]; n != nil && len(r.Value) > 2 {
			hdrs = append(hdrs, hdr{kp.idx, off, kw.blks[n.id].Num})
		}
	}
	for _, n := range kw.order {
		_, v, num := header(n, 0)
		numOf[string(v)] = num
	}
	part := func(i int64) *kpart { ps := c.topics[mainTopic].parts; return ps[int(i)%len(ps)] }
	junk := func(kind, i int64) (k, v []byte) {
		id := mkHash('J', uint64(i), uint64(kind))
		switch kind % 4 {
		case 0:
			return nil, []byte("x")
		case 1:
			return delivery.BatchMsgType.GetKey(id[:], []byte("x")), []byte("value")
		case 2:
			return delivery.PingType.GetKey(id[:]), []byte("now")
		}
		// A header that can't be decoded.
		return delivery.BatchType.GetKey(id[:]), []byte{0xff, 1}[:i%3]
	}
	prods := make([]transports.Producer, p.P["producers"])
	get := func(i int64) transports.Producer {
		if i >= int64(len(prods)) {
			return nil
		}
		if prods[i] == nil {
			_, url := c.proc(fmt.Sprintf("p%d", i), "")
			k, err := gotP(transports.ResolveProducer(url, mainTopic, kw.schema))
			if err != nil {
				w.Fail("producer-error", "a producer could not be started: %v", err)
				return nil
			}
			prods[i] = k
		}
		return prods[i]
	}
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		switch op.K {
		case "hdr":
			if int(op.Arg(1)) < len(kw.order) {
				k, v, num := header(kw.order[op.Arg(1)], op.Arg(2))
				numOf[string(v)] = num
				c.append(part(op.Arg(0)), c.rec(k, v))
			}
		case "fill":
			for i := int64(0); i < op.Arg(1); i++ {
				k, v := junk(op.Arg(2), i)
				c.append(part(op.Arg(0)), c.rec(k, v))
			}
		case "trim":
			kp := part(op.Arg(0))
			kp.truncate(kp.first + op.Arg(1))
			w.Fault("retention")
		case "up":
			get(op.Arg(0))
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "a":
			m := get(op.Arg(0))
			if m == nil || int(op.Arg(1)) >= len(kw.order) {
				break
			}
			b := kw.blks[kw.order[op.Arg(1)].id]
			batches := map[string]types.Hash{}
			for _, s := range b.Subs {
				batches[s.key] = s.id
			}
			if err := m.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.Updates, b.Deletes, batches); err != nil {
				w.Fail("add-error", "%v", err)
			}
		case "grow":
			if int(op.Arg(3)) >= len(kw.order) {
				break
			}
			kp := part(op.Arg(0))
			k, v, _ := header(kw.order[op.Arg(3)], 0)
			hold++
			go func() {
				for i := int64(0); i < op.Arg(1); i++ {
					time.Sleep(time.Duration(op.Arg(2)) * time.Millisecond)
					if w.Rand.P(1, 3) {
						c.append(kp, c.rec(k, v))
					} else {
						c.append(kp, c.rec(nil, nil))
					}
				}
				hold--
			}()
		case "q":
			m := get(op.Arg(0))
			if m == nil {
				break
			}
			ps := c.topics[mainTopic].parts
			lo := make([]int64, len(ps)) // from here on it may read
			hi := make([]int64, len(ps)) // up to here it must read
			for i, kp := range ps {
				lo[i], hi[i] = kp.next-100, kp.next
			}
			t0 := w.Now()
			n, err := m.LatestBlockFromFeed()
			took := w.Now() - t0
			if err != nil {
				w.Fail("latest-error", "LatestBlockFromFeed: %v", err)
				return
			}
			must, may := int64(0), map[int64]bool{0: true}
			for _, h := range hdrs {
				end := ps[h.part].next
				if h.off >= end-100 && h.off < hi[h.part] && h.off >= ps[h.part].first && h.num > must {
					must = h.num
				}
				if h.off >= lo[h.part] {
					may[h.num] = true
				}
			}
			w.Log("latest block: %d after %v; at least %d", n, took, must)
			if n < must {
				w.Fail("latest-missed", "LatestBlockFromFeed returned %d; block %d is among the last messages", n, must)
				return
			}
			if !may[n] {
				w.Fail("latest-wrong", "LatestBlockFromFeed returned %d; no block of that number is among the last messages", n)
				return
			}
			if bound := 10*time.Second + time.Duration(len(ps))*time.Duration(4*c.maxWait)*time.Millisecond; took > bound {
				w.Fail("latest-slow", "LatestBlockFromFeed took %v on a healthy cluster", took)
				return
			}
			if must > 0 {
				w.Probes["nontrivial"] = 1
			}
			w.State(core.Mix(n, must, int64(took)))
		}
		if w.Failed() {
			return
		}
	}
	if p.P["leak"] == 0 || len(prods) == 0 || prods[0] == nil {
		return
	}
	// Asking often must not use up connections.
	time.Sleep(5*time.Second + time.Duration(c.maxWait)*time.Millisecond)
	conns := len(c.net.Open(""))
	const times = 6
	for i := 0; i < times; i++ {
		prods[0].LatestBlockFromFeed()
	}
	time.Sleep(5*time.Second + time.Duration(c.maxWait)*time.Millisecond)
	if x := len(c.net.Open("")); x >= conns+times {
		w.Fail("latest-leak", "after %d calls of LatestBlockFromFeed %d more connections to brokers are open", times, x-conns)
	}
	w.Probe("leak-checked")
}
