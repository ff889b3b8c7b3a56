package props

import (
	"fmt"
	"math/big"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

var kafkaReal = []string{"transports.KafkaProducer", "transports.KafkaConsumer", "delivery (all)", "Shopify/sarama client", "drumline", "cardinal-types Feed", "hamba/avro"}
var kafkaStub = []string{"Kafka brokers: wire-protocol model (partition logs, leaders, long polling, error codes)", "network: in-memory connections with latency, resets, partitions", "clock and scheduler: simulated"}

func init() {
	core.Register(&core.Prop{ID: "C14", Title: "Blocks get through Kafka whatever the cluster goes through", Gen: genC14, Run: runC14, MaxSim: 3 * time.Hour,
		Rule: "one run = real Kafka producers publish a block tree to a simulated cluster that loses requests and acknowledgements, returns errors, moves leaders, goes down and is cut off, while real Kafka consumers started at any time read it; non-trivial = a fault hit a request or two producers published; a state = (log ends, updates received)",
		Real: kafkaReal, Stub: kafkaStub, Floors: map[string]int64{"parts": 1, "schema": 0, "brokers": 1, "consumers": 1, "producers": 1}})
}

// kworld is what the Kafka scenarios share: the block tree with contents, the
// cluster, and what every message of a block must be.
type kworld struct {
	*busWorld
	c      *cluster
	topics []string
}

func newKWorld(w *core.World) *kworld {
	bw := newBusWorld(w)
	if bw == nil || len(bw.order) == 0 || bw.t.byID[0] == nil {
		return nil
	}
	p := w.Plan
	kw := &kworld{busWorld: bw}
	kw.c = newCluster(w, core.NewRand(p.Seed^0x6b61), int(p.P["brokers"]), int(p.P["parts"]))
	kw.c.fetchMax = int(p.P["fetchmax"]) + 1
	if p.P["maxwait"] > 0 {
		kw.c.maxWait = p.P["maxwait"]
	}
	if p.P["snappy"] == 1 {
		kw.c.codec = sarama.CompressionSnappy
	}
	ts := map[string]bool{mainTopic: true}
	for _, t := range bw.schema {
		ts[t] = true
	}
	kw.topics = core.SortedKeys(ts)
	if p.P["precreate"] == 1 {
		for _, t := range kw.topics {
			kw.c.topic(t, int(p.P["parts"]), p.P["base"])
		}
	}
	kw.c.onAppend = func(kp *kpart, off int64, r sarama.SimRec) {
		if len(r.Key) < 33 || delivery.MessageType(r.Key[0]) == delivery.PingType {
			return
		}
		h := types.BytesToHash(r.Key[1:33])
		if kw.inLog[h] == nil {
			kw.inLog[h] = map[string]bool{}
		}
		if kw.inLog[h][string(r.Key)] {
			w.Faults["duplicate"]++
		}
		kw.inLog[h][string(r.Key)] = true
	}
	return kw
}

// missing lists how many messages of a block are not in the log.
func (kw *kworld) missing(n *node) int {
	k := 0
	for _, m := range kw.all[n.hash] {
		if !kw.inLog[n.hash][string(m.key)] {
			k++
		}
	}
	return k
}

// lost counts the messages that are not in the log.
func (kw *kworld) lost() int {
	k := 0
	for _, n := range kw.order {
		k += kw.missing(n)
	}
	return k
}

// settle waits for something to become true, and a little longer.
func (kw *kworld) settle(max time.Duration, f func() bool) {
	until := kw.w.Now() + max
	for kw.w.Now() < until && !f() {
		time.Sleep(time.Second)
	}
	time.Sleep(2 * time.Second)
}

// sendBlock publishes a block the way an application does.
func sendBlock(pr transports.Producer, b *Blk, pause func()) error {
	batches := map[string]types.Hash{}
	for _, s := range b.Subs {
		batches[s.key] = s.id
	}
	if err := pr.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.Updates, b.Deletes, batches); err != nil {
		return err
	}
	for _, s := range b.Subs {
		pause()
		if err := pr.SendBatch(s.id, s.deletes, s.updates); err != nil {
			return err
		}
	}
	return nil
}

// kconsumer is a consuming application.
type kconsumer struct {
	c          transports.Consumer
	pbs        []*delivery.PendingBatch
	fol        *follower
	stop       chan struct{}
	class, bad string
}

func (kw *kworld) consumer(url string, root *node, resumption []byte, rollback int64, track string) (*kconsumer, error) {
	k := &kconsumer{stop: make(chan struct{})}
	cfg := &delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: 64, TrackedPrefixes: regexps([]string{track})}
	c, err := gotC(transports.ResolveConsumer(url, mainTopic, kw.topics, resumption, rollback, cfg))
	if err != nil {
		return nil, err
	}
	k.c = c
	k.subscribe(kw.t, root)
	return k, nil
}

func (k *kconsumer) subscribe(t *tree, root *node) {
	pch := make(chan *delivery.PendingBatch, 1)
	cch := make(chan *delivery.ChainUpdate, 2)
	k.c.Subscribe(pch)
	k.c.Subscribe(cch)
	k.fol = &follower{v: newView(t, root), delay: func() time.Duration { return 0 }, fail: func(cl, s string) {
		if k.bad == "" && cl != "weight-decreased" && cl != "needless-reorg" {
			k.class, k.bad = cl, s
		}
	}}
	go k.fol.run(cch, k.stop, true)
	go func() {
		for {
			select {
			case pb := <-pch:
				k.pbs = append(k.pbs, pb)
			case <-k.stop:
				return
			}
		}
	}()
}

// check compares what a consumer was given with what is in the log.
func (kw *kworld) check(who string, k *kconsumer, root *node, track string) {
	w := kw.w
	tracked := regexps([]string{track})
	full := map[types.Hash]bool{}
	for _, n := range kw.order {
		ok := true
		for key := range kw.blks[n.id].needed(kw.all[n.hash], kw.ref, tracked) {
			if !kw.inLog[n.hash][key] {
				ok = false
			}
		}
		full[n.hash] = ok
	}
	seen := map[types.Hash]int{}
	for _, pb := range k.pbs {
		n := kw.t.byHash[pb.Hash]
		if n == nil {
			w.Fail("unknown-block", "%s was given block %x nobody produced", who, pb.Hash)
			return
		}
		seen[pb.Hash]++
		if seen[pb.Hash] > 1 {
			w.Fail("emitted-twice", "%s was given %v %d times", who, n, seen[pb.Hash])
			return
		}
		b := kw.blks[n.id]
		if d := b.diffMeta(pb); d != "" {
			w.Fail("metadata", "%s, %v: %s", who, n, d)
			return
		}
		if d := b.want(kw.ref, tracked).diff(pb); d != "" {
			w.Fail("content", "%s, %v: %s", who, n, d)
			return
		}
	}
	for _, n := range kw.order {
		if full[n.hash] && seen[n.hash] == 0 {
			w.Fail("missing", "%s was never given %v although all its messages are in the log", who, n)
			return
		}
	}
	if k.bad != "" {
		w.Fail(k.class, "%s: %s", who, k.bad)
		return
	}
	best := heaviest(root, func(n *node) bool { return full[n.hash] })
	tip := kw.t.byHash[k.fol.v.tip()]
	if tip == nil || tip.weight.Cmp(best.weight) != 0 {
		w.Fail("diverged", "%s ended at %s; the heaviest complete chain in the log ends at %v", who, k.fol.v.nm(k.fol.v.tip()), best)
		return
	}
	w.Probe("consumer-checked")
}

func genKafka(r *core.Rand, p *core.Plan, blocks int) {
	p.P["schema"] = int64(r.N(len(schemas)))
	p.P["brokers"] = int64(r.Pick(1, 1, 2, 3))
	p.P["parts"] = int64(r.Pick(1, 1, 2, 3, 4))
	p.P["precreate"] = int64(r.Pick(0, 1, 1))
	p.P["base"] = int64(r.Pick(0, 0, 0, 1, 7, 1000, 1<<31-4, 1<<40))
	p.P["fetchmax"] = int64(r.Pick(0, 1, 5, 100))
	p.P["maxwait"] = int64(r.Pick(100, 500, 5000, 5000, 20000))
	p.P["snappy"] = int64(r.Pick(0, 0, 0, 1))
	p.P["track"] = 0
	ids := genTree(r, p, blocks, r.Pick(0, 0, 1, 2), r.R(1, 3), 0)
	for _, x := range ids {
		p.Add("c", int64(x), int64(r.U64()>>1), int64(r.Pick(0, 0, 1, 2, 4, 8)), int64(r.Pick(0, 0, 1, 3)), int64(r.Pick(0, 0, 0, 1, 2)))
	}
}

func genC14(r *core.Rand, p *core.Plan) {
	genKafka(r, p, r.Pick(1, 2, 3, 5, 8))
	p.P["producers"] = int64(r.Pick(1, 1, 2, 3))
	p.P["consumers"] = int64(r.Pick(1, 1, 2))
	p.P["gap"] = int64(r.Pick(0, 20, 300, 1500))
	p.P["heavy"] = int64(r.Pick(0, 0, 1))
	if r.P(1, 12) {
		for _, op := range p.Ops {
			if op.K == "c" && r.P(1, 2) {
				p.Add("big", op.A[0], int64(r.N(3)), int64(r.Pick(900000, 1100000, 3000000, 9900000)))
				break
			}
		}
	}
	span := int(p.P["gap"])*10 + 2000
	for i := int64(0); i < p.P["consumers"]; i++ {
		p.Add("start", i, int64(r.Pick(0, 100, r.N(span), span)))
	}
	for i := int64(0); i < p.P["producers"]; i++ {
		p.Add("prod", i, int64(r.Pick(1, 5, r.N(3000)))+i)
	}
	if !r.P(1, 6) {
		genChaos(r, p, r.Pick(1, 2, 4, 8), span, int(p.P["brokers"]))
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

func runC14(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	root := kw.t.byID[0]
	c := kw.c
	if p.P["heavy"] == 1 {
		c.tokens = 60
	} else {
		c.tokens, c.apart = 1, true
	}
	type prod struct {
		k    transports.Producer
		done chan struct{}
		err  error
		told bool // a call failed
		at   *node
	}
	var prods []*prod
	var cons []*kconsumer
	started := 0
	wait := make(chan error, 16)
	gap := int(p.P["gap"])
	for _, op := range p.Ops {
		op := op
		switch op.K {
		case "prod":
			pr := &prod{done: make(chan struct{})}
			prods = append(prods, pr)
			r := core.NewRand(p.Seed ^ uint64(op.Arg(0)+77))
			_, url := c.proc(fmt.Sprintf("p%d", op.Arg(0)), "")
			go func() {
				defer close(pr.done)
				time.Sleep(time.Duration(op.Arg(1)) * time.Millisecond)
				var k transports.Producer
				for try := 0; ; try++ {
					var err error
					k, err = gotP(transports.ResolveProducer(url, mainTopic, kw.schema))
					if err == nil {
						break
					}
					w.Log("producer %d: %v", op.Arg(0), err)
					if try > 20 {
						pr.err = err
						return
					}
					time.Sleep(time.Second)
				}
				w.Log("producer %d is up", op.Arg(0))
				pr.k = k
				pause := func() {
					if gap > 0 {
						time.Sleep(time.Duration(r.N(gap+1)) * time.Millisecond)
					}
				}
				for _, n := range kw.order {
					pr.at = n
					pause()
					if err := sendBlock(k, kw.blks[n.id], pause); err != nil {
						w.Log("producer %d at %v: %v", op.Arg(0), n, err)
						pr.told = true
						if p.P["heavy"] == 0 {
							pr.err = err
							return
						}
					}
				}
			}()
		case "start":
			started++
			_, url := c.proc(fmt.Sprintf("c%d", op.Arg(0)), "")
			go func() {
				time.Sleep(time.Duration(op.Arg(1)) * time.Millisecond)
				var err error
				for try := 0; try < 120; try++ {
					// The topics may not exist yet.
					var k *kconsumer
					if k, err = kw.consumer(url, root, nil, 0, ".*"); err == nil {
						if err = k.c.Start(); err == nil {
							cons = append(cons, k)
							break
						}
						close(k.stop)
					}
					time.Sleep(time.Second)
				}
				wait <- err
			}()
		case "f":
			go func() {
				time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
				c.chaos(op)
			}()
		}
	}
	if len(prods) == 0 {
		return
	}
	for i, pr := range prods {
		w.Step("producer %d publishing", i)
		<-pr.done
		if pr.err != nil {
			w.Fail("producer-error", "producer %d gave up at %v: %v", i, pr.at, pr.err)
			return
		}
	}
	for i := 0; i < started; i++ {
		w.Step("consumer starting")
		if err := <-wait; err != nil {
			w.Fail("consumer-error", "a consumer could not start: %v", err)
			return
		}
	}
	time.Sleep(5 * time.Second)
	c.calm()
	w.Calm()
	kw.settle(60*time.Second, func() bool { return kw.lost() == 0 })
	// Anything not in the log yet?
	lost := kw.lost()
	if lost > 0 && p.P["heavy"] == 0 {
		for _, n := range kw.order {
			if kw.missing(n) > 0 {
				w.Fail("not-published", "%d of %d messages of %v never reached the log although every call succeeded", kw.missing(n), len(kw.all[n.hash]), n)
				return
			}
		}
	}
	if lost > 0 && len(prods) == 1 {
		// The application publishes what is missing again, with the producer
		// it has. Each of its calls may fail for what was lost earlier.
		w.Probe("republished")
		k, most := prods[0].k, 0
		for _, n := range kw.order {
			most += len(kw.all[n.hash]) + 4
		}
		for i := 0; (kw.lost() > 0 || !prods[0].told) && i < 2*most+100; i++ {
			for _, n := range kw.order {
				if kw.missing(n) > 0 || !prods[0].told {
					k.PurgeReplayCache()
					if err := sendBlock(k, kw.blks[n.id], func() {}); err != nil {
						w.Log("again, %v: %v", n, err)
						prods[0].told = true
						break
					}
				}
			}
			time.Sleep(time.Second)
		}
		if kw.lost() > 0 {
			w.Fail("not-published", "%d messages did not reach the log however often their blocks were published again", kw.lost())
			return
		}
		if !prods[0].told {
			w.Fail("silent-loss", "%d messages were lost, and no call of the producer ever failed", lost)
			return
		}
		lost = 0
	}
	if lost > 0 {
		// Operators replay what is missing.
		w.Probe("replayed")
		_, url := c.proc("replay", "")
		k, err := gotP(transports.ResolveProducer(url, mainTopic, kw.schema))
		if err != nil {
			w.Fail("producer-error", "no producer could be started after all faults ended: %v", err)
			return
		}
		for _, n := range kw.order {
			if kw.missing(n) > 0 {
				k.PurgeReplayCache()
				if err := sendBlock(k, kw.blks[n.id], func() {}); err != nil {
					w.Fail("producer-error", "replaying %v after all faults ended: %v", n, err)
					return
				}
			}
		}
		kw.settle(30*time.Second, func() bool { return kw.lost() == 0 })
		for _, n := range kw.order {
			if kw.missing(n) > 0 {
				w.Fail("not-published", "%d messages of %v did not reach the log when it was replayed", kw.missing(n), n)
				return
			}
		}
	}
	kw.settle(60*time.Second, func() bool {
		for _, k := range cons {
			if len(k.pbs) < len(kw.order) {
				return false
			}
		}
		return true
	})
	for i, k := range cons {
		kw.check(fmt.Sprintf("consumer %d", i), k, root, ".*")
		if w.Failed() {
			return
		}
	}
	if len(w.Faults) > 0 || len(prods) > 1 {
		w.Probes["nontrivial"] = 1
	}
	h := []int64{}
	for _, tn := range core.SortedKeys(c.topics) {
		for _, kp := range c.topics[tn].parts {
			h = append(h, kp.next)
		}
	}
	w.State(core.Mix(h...))
}
