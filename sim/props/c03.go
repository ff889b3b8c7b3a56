package props

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C03", Title: "Redundant producers are interchangeable", Gen: genBus("C03"), Run: runC03,
		Rule: "one run = several real producers publish the same block tree to a partitioned log, crashing in the middle of blocks and restarting, while several real consumers read the partitions in different interleavings with rewinds; non-trivial = a producer crashed mid-block or two producers' messages of one block interleaved; a state = (published, read positions, emitted)",
		Real: []string{"delivery.Producer", "delivery.MessageProcessor", "delivery.OrderedMessageProcessor", "cardinal-types Feed", "hamba/avro"},
		Stub: []string{"broker: an in-memory partitioned log", "clock and scheduler: simulated"}, Floors: map[string]int64{"parts": 1, "schema": 0, "track": 0}})
	core.Register(&core.Prop{ID: "C05", Title: "Resumption after a crash loses nothing", Gen: genBus("C05"), Run: runC05,
		Rule: "one run = real producers publish a block tree to a partitioned log, a real consumer reads it and is killed at arbitrary points; each restart has only the last applied block and its resumption token; non-trivial = at least one restart happened with blocks still to come; a state = (published, read positions, applied, restarts)",
		Real: []string{"delivery.Producer", "delivery.MessageProcessor", "delivery.OrderedMessageProcessor", "delivery.PendingBatch.Resumption", "cardinal-types Feed", "hamba/avro"},
		Stub: []string{"broker: an in-memory partitioned log", "application storage: head and token survive a crash, nothing else", "clock and scheduler: simulated"}, Floors: map[string]int64{"parts": 1, "schema": 0}})
}

func genBus(id string) func(r *core.Rand, p *core.Plan) {
	return func(r *core.Rand, p *core.Plan) {
		p.P["schema"] = int64(r.N(len(schemas)))
		p.P["parts"] = int64(r.R(1, 3))
		p.P["base"] = int64(r.Pick(0, 0, 5, 1000, 1<<31-4, 1<<40))
		p.P["track"] = int64(r.Pick(0, 0, 0, 1, 2, 3, 4))
		main, forks := r.Pick(1, 2, 4, 7, 10), r.Pick(0, 0, 1, 2, 3)
		ids := genTree(r, p, main, forks, r.R(1, 3), 0)
		total := 0
		for _, x := range ids {
			nu, nd, ns := r.Pick(0, 0, 1, 2, 4, 8), r.Pick(0, 0, 1, 3), r.Pick(0, 0, 0, 1, 2)
			p.Add("c", int64(x), int64(r.U64()>>1), int64(nu), int64(nd), int64(ns))
			total += 2 + nu + nd + 5*ns
		}
		prods := r.R(1, 4)
		cons := r.R(1, 3)
		if id == "C05" {
			prods, cons = r.Pick(1, 1, 2, 3), 1
			if p.P["schema"] == 4 {
				p.P["schema"] = 2 // keep partitions apart
			}
		}
		p.P["producers"], p.P["consumers"] = int64(prods), int64(cons)
		steps := r.R(total/2+1, 2*total+4)
		crash := r.Pick(0, 2, 5)
		rew := r.Pick(0, 0, 2)
		big := r.Pick(1, 3, 10)
		// Some partitions may be far behind the others for a while.
		for i := 0; i < steps; i++ {
			switch {
			case r.P(crash, 100):
				p.Add("x", int64(r.N(prods)), int64(r.N(3)), int64(r.R(1, 3)))
			case r.P(rew, 100):
				p.Add("w", int64(r.N(cons)), int64(r.N(12)), int64(r.R(1, 12)))
			case id == "C05" && r.P(3, 100):
				p.Add("k", int64(r.N(4)))
			case r.P(1, 2):
				p.Add("p", int64(r.N(prods)), int64(r.R(1, big*2)))
			case r.P(1, 30):
				p.Add("s", int64(r.Pick(1, 10, 300)))
			default:
				p.Add("r", int64(r.N(cons)), int64(r.N(12)), int64(r.R(1, big)))
			}
		}
		if id == "C03" && r.P(1, 4) {
			p.P["incomplete"] = 1
		}
		core.GenSim(r, p, id == "C05")
	}
}

// busWorld is the part shared by C03 and C05: tree, contents, producers, log.
type busWorld struct {
	w      *core.World
	t      *tree
	blks   map[int]*Blk
	b      *bus
	ref    *schemaRef
	schema map[string]string
	prods  []*busProd
	order  []*node // publication order
	inLog  map[types.Hash]map[string]bool
	all    map[types.Hash][]*Msg
}

type busProd struct {
	dp    *delivery.Producer
	at    int // next block in order
	queue []*Msg
	cur   types.Hash
}

func newBusWorld(w *core.World) *busWorld {
	p := w.Plan
	bw := &busWorld{w: w, t: newTree(), blks: map[int]*Blk{}, schema: schemas[p.P["schema"]], inLog: map[types.Hash]map[string]bool{}, all: map[types.Hash][]*Msg{}}
	bw.ref = newSchemaRef(bw.schema)
	bw.b = busFor(int(p.P["parts"]), bw.schema, p.P["base"])
	for _, op := range p.Ops {
		switch op.K {
		case "b":
			n := bw.t.add(int(op.Arg(0)), int(op.Arg(1)), op.Arg(2), 7)
			bw.order = append(bw.order, n)
		case "c":
			if n := bw.t.byID[int(op.Arg(0))]; n != nil {
				bw.blks[n.id] = blkOf(n, content{uint64(op.Arg(1)), int(op.Arg(2)), int(op.Arg(3)), int(op.Arg(4))})
			}
		case "big":
			if n := bw.t.byID[int(op.Arg(0))]; n != nil && bw.blks[n.id] != nil {
				bigBlock(bw.blks[n.id], op.Arg(1), int(op.Arg(2)))
				w.Probe("big-block")
			}
		}
	}
	for _, n := range bw.order {
		if bw.blks[n.id] == nil {
			bw.blks[n.id] = blkOf(n, content{})
		}
	}
	for i := int64(0); i < p.P["producers"]; i++ {
		bw.prods = append(bw.prods, &busProd{dp: bw.newDP()})
	}
	ref := bw.newDP()
	for _, n := range bw.order {
		ms, err := produce(ref, bw.blks[n.id])
		if err != nil {
			w.Fail("producer-error", "producer refused a valid block: %v", err)
			return nil
		}
		for _, m := range ms {
			m.topic = refTopic(bw.schema, bw.blks[n.id], m.key)
		}
		bw.all[n.hash] = ms
	}
	return bw
}

func (bw *busWorld) newDP() *delivery.Producer {
	dp, err := delivery.NewProducer(mainTopic, bw.schema)
	if err != nil {
		panic("refused what has to work: " + err.Error())
	}
	return dp
}

// publish lets a producer append its next k messages.
func (bw *busWorld) publish(i int, k int) {
	if i >= len(bw.prods) {
		return
	}
	pr := bw.prods[i]
	for ; k > 0; k-- {
		if len(pr.queue) == 0 {
			if pr.at >= len(bw.order) {
				return
			}
			n := bw.order[pr.at]
			pr.at++
			ms, err := produce(pr.dp, bw.blks[n.id])
			if err != nil {
				bw.w.Fail("producer-error", "producer refused a valid block: %v", err)
				return
			}
			pr.queue, pr.cur = ms, n.hash
		}
		bw.put(pr.queue[0], pr.cur)
		pr.queue = pr.queue[1:]
	}
}

func (bw *busWorld) put(m *Msg, h types.Hash) {
	bw.b.publish(m)
	if bw.inLog[h] == nil {
		bw.inLog[h] = map[string]bool{}
	}
	if bw.inLog[h][string(m.key)] {
		bw.w.Faults["duplicate"]++
	}
	bw.inLog[h][string(m.key)] = true
}

// crash kills a producer; how says where it resumes.
func (bw *busWorld) crash(i, how, back int) {
	if i >= len(bw.prods) {
		return
	}
	pr := bw.prods[i]
	if len(pr.queue) > 0 {
		bw.w.Fault("producer-crash-mid-block")
		bw.w.Probes["nontrivial"] = 1
	} else {
		bw.w.Fault("producer-crash")
	}
	pr.dp = bw.newDP()
	if len(pr.queue) > 0 {
		switch how {
		case 0: // emits the block again
			pr.at--
		case 1: // goes on with the next block
		case 2: // goes back some blocks
			pr.at = maxInt(0, pr.at-1-back)
		}
	}
	pr.queue = nil
}

// complete publishes whatever no producer has published fully.
func (bw *busWorld) complete() {
	for _, n := range bw.order {
		h := n.hash
		if len(bw.inLog[h]) < len(bw.all[h]) {
			for _, m := range bw.all[h] {
				bw.put(m, h)
			}
		}
	}
}

type busCons struct {
	omp   *delivery.OrderedMessageProcessor
	rd    *reader
	got   []*delivery.PendingBatch
	fol   *follower
	stop  chan struct{}
	bad   string
	class string
}

func runC03(w *core.World) {
	p := w.Plan
	bw := newBusWorld(w)
	if bw == nil || len(bw.order) == 0 {
		return
	}
	root := bw.t.byID[0]
	if root == nil {
		return
	}
	tracked := regexps(trackSets[p.P["track"]])
	var cons []*busCons
	for i := int64(0); i < p.P["consumers"]; i++ {
		c := &busCons{rd: bw.b.reader(), stop: make(chan struct{})}
		omp, err := delivery.NewOrderedMessageProcessor(&delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: 64, TrackedPrefixes: tracked})
		if err != nil {
			w.Fail("config", "valid configuration refused: %v", err)
			return
		}
		c.omp = omp
		pch := make(chan *delivery.PendingBatch, i)
		omp.Subscribe(pch)
		cch := make(chan *delivery.ChainUpdate, 2)
		omp.Subscribe(cch)
		c.fol = &follower{v: newView(bw.t, root), delay: func() time.Duration { return 0 }, fail: func(cl, s string) {
			if c.bad == "" && cl != "weight-decreased" && cl != "needless-reorg" {
				c.class, c.bad = cl, s
			}
		}}
		go c.fol.run(cch, c.stop, true)
		go func() {
			for {
				select {
				case pb := <-pch:
					c.got = append(c.got, pb)
				case <-c.stop:
					return
				}
			}
		}()
		cons = append(cons, c)
	}
	deliver := func(ci int, part int, k int) {
		c := cons[ci]
		for ; k > 0; k-- {
			m := c.rd.next(part)
			if m == nil {
				return
			}
			w.Step("ProcessMessage %s@%d", m.src, m.off)
			if err := c.omp.ProcessMessage(m); err != nil {
				w.Fail("rejected", "a well-formed message was rejected: %v", err)
				return
			}
			w.Log("c%d %s %d", ci, m.src, m.off)
		}
	}
	for _, op := range p.Ops {
		switch op.K {
		case "p":
			bw.publish(int(op.Arg(0)), int(op.Arg(1)))
		case "x":
			bw.crash(int(op.Arg(0)), int(op.Arg(1)), int(op.Arg(2)))
		case "w":
			if int(op.Arg(0)) < len(cons) {
				c := cons[op.Arg(0)]
				c.rd.rewind(int(op.Arg(1))%len(bw.b.parts), op.Arg(2))
				w.Fault("redelivery")
			}
		case "r":
			if int(op.Arg(0)) < len(cons) {
				deliver(int(op.Arg(0)), int(op.Arg(1))%len(bw.b.parts), int(op.Arg(2)))
			}
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(len(bw.b.parts))}
		for _, c := range cons {
			for _, x := range c.rd.pos {
				h = append(h, x)
			}
			h = append(h, int64(len(c.got)))
		}
		w.State(core.Mix(h...))
	}
	if p.P["incomplete"] == 0 {
		bw.complete()
	}
	for ci, c := range cons {
		for {
			rest := c.rd.rest()
			if len(rest) == 0 || w.Failed() {
				break
			}
			deliver(ci, rest[w.Rand.N(len(rest))], w.Rand.R(1, 5))
		}
	}
	w.Calm()
	time.Sleep(time.Second)
	if w.Failed() {
		return
	}
	// What the log holds completely.
	full := map[types.Hash]bool{}
	for _, n := range bw.order {
		ok := true
		for k := range bw.blks[n.id].needed(bw.all[n.hash], bw.ref, tracked) {
			if !bw.inLog[n.hash][k] {
				ok = false
				break
			}
		}
		full[n.hash] = ok
	}
	best := heaviest(root, func(n *node) bool { return full[n.hash] })
	for ci, c := range cons {
		seen := map[types.Hash]int{}
		for _, pb := range c.got {
			n := bw.t.byHash[pb.Hash]
			if n == nil {
				w.Fail("unknown-block", "consumer %d was given block %x nobody produced", ci, pb.Hash)
				return
			}
			seen[pb.Hash]++
			if seen[pb.Hash] > 1 {
				w.Fail("emitted-twice", "consumer %d was given %v %d times", ci, n, seen[pb.Hash])
				return
			}
			if !full[pb.Hash] {
				w.Fail("incomplete-emitted", "consumer %d was given %v although its messages were never all published", ci, n)
				return
			}
			b := bw.blks[n.id]
			if d := b.diffMeta(pb); d != "" {
				w.Fail("metadata", "consumer %d, %v: %s", ci, n, d)
				return
			}
			if d := b.want(bw.ref, tracked).diff(pb); d != "" {
				w.Fail("content", "consumer %d, %v: %s", ci, n, d)
				return
			}
		}
		for _, n := range bw.order {
			if full[n.hash] && seen[n.hash] == 0 {
				w.Fail("missing", "consumer %d was never given %v although all its messages were published", ci, n)
				return
			}
		}
		if c.bad != "" {
			w.Fail(c.class, "consumer %d: %s", ci, c.bad)
			return
		}
		tip := bw.t.byHash[c.fol.v.tip()]
		if tip == nil || tip.weight.Cmp(best.weight) != 0 {
			w.Fail("diverged", "consumer %d ended at %s; the heaviest complete chain ends at %v", ci, c.fol.v.nm(c.fol.v.tip()), best)
			return
		}
		w.Probe("consumer-checked")
	}
	if len(bw.prods) > 1 && w.Faults["duplicate"] > 0 {
		w.Probes["nontrivial"] = 1
	}
	for _, c := range cons {
		close(c.stop)
	}
}

// durable is what survives a crash of the consuming application.
type durable struct {
	num    int64
	hash   types.Hash
	weight *big.Int
	token  string
	blk    *node
	lim    map[string]int64
}

func parseToken(s string) (map[string]int64, error) {
	m := map[string]int64{}
	if s == "" {
		return m, nil
	}
	for _, f := range strings.Split(s, ";") {
		kv := strings.Split(f, "=")
		if len(kv) != 2 {
			return nil, fmt.Errorf("bad element %q", f)
		}
		n, err := strconv.ParseInt(kv[1], 10, 64)
		if err != nil {
			return nil, err
		}
		if _, dup := m[kv[0]]; dup {
			return nil, fmt.Errorf("%s is named twice", kv[0])
		}
		m[kv[0]] = n
	}
	return m, nil
}

func runC05(w *core.World) {
	p := w.Plan
	bw := newBusWorld(w)
	if bw == nil || len(bw.order) == 0 || bw.t.byID[0] == nil {
		return
	}
	root := bw.t.byID[0]
	tracked := regexps([]string{".*"})
	dur := &durable{num: root.num, hash: root.hash, weight: root.weight, blk: root}
	// The application's own storage: the chain of applied blocks.
	app := newView(bw.t, root)
	type readAt struct {
		seq    int
		src    string
		off    int64
		key    string
		hash   types.Hash
		header bool
	}
	var omp *delivery.OrderedMessageProcessor
	var rd *reader
	var log []readAt // what this incarnation was given
	var stop, done chan struct{}
	dead := false
	restarts := 0
	limit := map[types.Hash]map[string]int64{} // latest sound token of every block completed by this incarnation
	floor := map[types.Hash]map[string]int64{}
	have := map[types.Hash]map[string]bool{}
	checkToken := func(pb *delivery.PendingBatch) {
		n := bw.t.byHash[pb.Hash]
		tok, err := parseToken(pb.Resumption())
		if err != nil {
			w.Fail("token-syntax", "resumption token %q of %v: %v", pb.Resumption(), n, err)
			return
		}
		lim, ok := limit[pb.Hash]
		if !ok {
			return
		}
		for _, s := range core.SortedKeys(lim) {
			v, ok := tok[s]
			if !ok {
				w.Fail("token-incomplete", "the resumption token of %v does not name %s, from which messages had been read", n, s)
				return
			}
			if v > lim[s] {
				w.Fail("token-late", "the resumption token of %v names %s offset %d; reading on from there misses a message of the block, the last copy of which is at %d", n, s, v, lim[s])
				return
			}
			if v < floor[pb.Hash][s] {
				w.Fail("token-early", "the resumption token of %v names %s offset %d, before its first message there (%d)", n, s, v, floor[pb.Hash][s])
				return
			}
		}
		w.Probe("token-checked")
	}
	boot := func(rollback int64) bool {
		cfg := &delivery.ConsumerConfig{LastEmittedNum: dur.num, LastHash: dur.hash, LastWeight: new(big.Int).Set(dur.weight), ReorgThreshold: 64, TrackedPrefixes: tracked}
		var err error
		omp, err = delivery.NewOrderedMessageProcessor(cfg)
		if err != nil {
			w.Fail("config", "valid configuration refused: %v", err)
			return false
		}
		rd = bw.b.reader()
		if dur.blk != root {
			tok, err := parseToken(dur.token)
			if err != nil {
				w.Fail("token-syntax", "resumption token %q: %v", dur.token, err)
				return false
			}
			for i, pt := range bw.b.parts {
				if off, ok := tok[pt.name]; ok && off-rollback > pt.first {
					rd.pos[i] = off - rollback
					if rd.pos[i] > pt.end() {
						w.Fail("token-beyond", "the token names %s offset %d, beyond its end %d", pt.name, off, pt.end())
						return false
					}
				}
			}
		}
		log, limit, floor, have = nil, map[types.Hash]map[string]int64{}, map[types.Hash]map[string]int64{}, map[types.Hash]map[string]bool{}
		stop, done, dead = make(chan struct{}), make(chan struct{}), false
		ch := make(chan *delivery.ChainUpdate, int(p.Seed%3))
		sub := omp.Subscribe(ch)
		st, dn := stop, done
		go func() {
			defer close(dn)
			for {
				select {
				case u := <-ch:
					if dead {
						return
					}
					if c, s := app.apply(u, false); c != "" && c != "needless-reorg" {
						w.Fail(c, "after %d restarts, update %d: %s", restarts, app.seen, s)
						sub.Unsubscribe()
						return
					}
					for _, pb := range u.Added() {
						if d := bw.blks[bw.t.byHash[pb.Hash].id].want(bw.ref, tracked).diff(pb); d != "" {
							w.Fail("content", "after %d restarts, %s: %s", restarts, pbName(bw.t, pb), d)
							return
						}
						checkToken(pb)
						if w.Failed() {
							return
						}
					}
					last := u.Added()[len(u.Added())-1]
					dur = &durable{num: last.Number, hash: last.Hash, weight: last.Weight, token: last.Resumption(), blk: bw.t.byHash[last.Hash], lim: limit[last.Hash]}
					w.Log("applied %s", pbName(bw.t, last))
					u.Done()
				case <-st:
					sub.Unsubscribe()
					return
				}
			}
		}()
		return true
	}
	deliver := func(part, k int) {
		for ; k > 0; k-- {
			m := rd.next(part)
			if m == nil {
				return
			}
			h := types.BytesToHash(m.key[1:33])
			log = append(log, readAt{src: m.src, off: m.off, key: string(m.key), hash: h})
			if have[h] == nil {
				have[h] = map[string]bool{}
			}
			have[h][string(m.key)] = true
			if _, ok := limit[h]; !ok {
				if need := bw.blks[bw.t.byHash[h].id].needed(bw.all[h], bw.ref, tracked); len(have[h]) >= len(need) {
					complete := true
					for x := range need {
						if !have[h][x] {
							complete = false
						}
					}
					if complete {
						// For each partition: the smallest, over the block's
						// keys there, of the offset of the last copy read; or
						// how far it has been read.
						lastCopy := map[string]map[string]int64{}
						fl, maxSeen := map[string]int64{}, map[string]int64{}
						for _, e := range log {
							if o, ok := maxSeen[e.src]; !ok || e.off > o {
								maxSeen[e.src] = e.off
							}
							if e.hash == h {
								if lastCopy[e.src] == nil {
									lastCopy[e.src] = map[string]int64{}
								}
								if o, ok := lastCopy[e.src][e.key]; !ok || e.off > o {
									lastCopy[e.src][e.key] = e.off
								}
								if o, ok := fl[e.src]; !ok || e.off < o {
									fl[e.src] = e.off
								}
							}
						}
						// The header position: partitions first read from
						// after it need not be named.
						hdr := false
						early := map[string]int64{}
						for _, e := range log {
							if !hdr {
								if o, ok := early[e.src]; !ok || e.off > o {
									early[e.src] = e.off
								}
							}
							if e.hash == h && delivery.MessageType(e.key[0]) == delivery.BatchType {
								hdr = true
							}
						}
						lim := map[string]int64{}
						for s, o := range early {
							lim[s] = maxSeen[s]
							if fl[s] == 0 || o < fl[s] {
								if _, ok := fl[s]; !ok {
									fl[s] = o
								}
							}
						}
						for s, ks := range lastCopy {
							first := true
							for _, o := range ks {
								if first || o < lim[s] {
									lim[s] = o
								}
								first = false
							}
						}
						limit[h], floor[h] = lim, fl
					}
				}
			}
			w.Step("ProcessMessage %s@%d", m.src, m.off)
			if err := omp.ProcessMessage(m); err != nil {
				w.Fail("rejected", "a well-formed message was rejected: %v", err)
				return
			}
		}
	}
	kill := func() {
		dead = true
		close(stop)
		<-done
		old := omp
		go old.Close()
	}
	// rollback that lets a restart from a sound token see every block that the
	// application has not applied.
	rollback := func() int64 {
		if dur.blk == root {
			return 0
		}
		lim := dur.lim
		need := map[string]int64{}
		// The lowest point where a branch leaves the applied chain: a reorg to
		// that branch needs the chain from there on.
		fork := dur.num + 1
		for _, n := range bw.t.nodes {
			if !n.ancestorOf(dur.blk) && n.parent != nil && n.parent != dur.blk && n.parent.ancestorOf(dur.blk) && n.parent.num < fork {
				fork = n.parent.num
			}
		}
		for _, pt := range bw.b.parts {
			for _, m := range pt.log {
				h := types.BytesToHash(m.key[1:33])
				n := bw.t.byHash[h]
				if (n == dur.blk || n.ancestorOf(dur.blk)) && n.num < fork {
					continue
				}
				if _, ok := need[pt.name]; !ok {
					need[pt.name] = m.off
				}
			}
		}
		r := int64(0)
		for s, o := range need {
			if l, ok := lim[s]; ok && l-o > r {
				r = l - o
			}
		}
		return r
	}
	w.Step("start")
	if !boot(0) {
		return
	}
	kills := 0
	for _, op := range p.Ops {
		switch op.K {
		case "p":
			bw.publish(int(op.Arg(0)), int(op.Arg(1)))
		case "x":
			bw.crash(int(op.Arg(0)), int(op.Arg(1)), int(op.Arg(2)))
		case "w":
			rd.rewind(int(op.Arg(1))%len(bw.b.parts), op.Arg(2))
			w.Fault("redelivery")
		case "r":
			deliver(int(op.Arg(1))%len(bw.b.parts), int(op.Arg(2)))
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "k":
			if kills >= 4 {
				break
			}
			kills++
			if op.Arg(0) > 0 {
				time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
			}
			kill()
			if w.Failed() {
				return
			}
			rb := rollback()
			w.Fault("consumer-crash")
			w.Log("restart at %v token %s rollback %d", dur.blk, sortedToken(dur.token), rb)
			restarts++
			w.Probes["nontrivial"] = 1
			if !boot(rb) {
				return
			}
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(len(app.chain)), int64(restarts)}
		h = append(h, rd.pos...)
		w.State(core.Mix(h...))
	}
	drain := func() {
		for {
			rest := rd.rest()
			if len(rest) == 0 || w.Failed() {
				break
			}
			deliver(rest[w.Rand.N(len(rest))], w.Rand.R(1, 5))
		}
	}
	bw.complete()
	drain()
	w.Calm()
	time.Sleep(2 * time.Second)
	best := heaviest(root, func(n *node) bool { return true })
	behind := func() bool {
		tip := bw.t.byHash[app.tip()]
		return tip.weight.Cmp(best.weight) < 0
	}
	for k := 0; k < 2 && behind() && restarts > 0 && !w.Failed(); k++ {
		n := bw.t.add(100000+k, best.id, 1, 7)
		bw.blks[n.id] = blkOf(n, content{})
		ms, err := produce(bw.newDP(), bw.blks[n.id])
		if err != nil {
			panic("refused what has to work: " + err.Error())
		}
		bw.all[n.hash] = ms
		for _, m := range ms {
			bw.put(m, n.hash)
		}
		w.Log("extend %v", n)
		w.Probe("extended")
		best = n
		drain()
		time.Sleep(2 * time.Second)
	}
	if w.Failed() {
		return
	}
	if behind() {
		w.Fail("lost", "after %d restarts and with everything published and read, the application stayed at %s; the heaviest chain ends at %v", restarts, app.nm(app.tip()), best)
		return
	}
	w.Probe("converged")
	kill()
}

func sortedToken(s string) string {
	f := strings.Split(s, ";")
	sort.Strings(f)
	return strings.Join(f, ";")
}
