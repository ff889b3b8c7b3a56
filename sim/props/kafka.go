package props

import (
	"crypto/tls"
	"fmt"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/rcrowley/go-metrics"
	"golang.org/x/net/proxy"
	"verif/sim/core"
)

func init() {
	metrics.UseNilMetrics = true
	core.Resets = append(core.Resets, func() {
		sarama.SimDial = func(proxy.Dialer, string, string) (net.Conn, error) {
			panic("HARNESS: dial outside a simulated cluster")
		}
	})
}

// cluster is a simulated Kafka cluster. It speaks the wire protocol to the
// real client library; records, leadership and offsets are a small model.
type cluster struct {
	gone    bool // for good: brokers stay as they are
	w       *core.World
	r       *core.Rand
	net     *core.Net
	brokers []*kbroker
	topics  map[string]*ktopic
	procs   map[string]*kproc
	// topics that exist without having been created by a client
	autoParts int
	grown     chan struct{} // closed and replaced when a record is appended
	fetchMax  int           // batches per fetch response
	service   func(kind string) time.Duration
	codec     sarama.CompressionCodec

	// fault tokens: how many of the next requests of a kind are hit
	dropBefore, dropAfter map[string]int
	errs                  map[string][]sarama.KError
	onAppend              func(p *kpart, off int64, r sarama.SimRec)
	from                  string // process whose request is being carried out
	creates               int
	ended                 bool          // no more faults
	tokens                int           // most requests one fault hits
	apart                 bool          // faults are short and do not overlap
	quiet                 time.Duration // until when there is none, then
	maxWait               int64         // of the clients' fetch requests, ms
	auth                  *kauth        // nil: brokers serve anyone
	tls                   *tls.Config   // nil: in the clear
}

type kbroker struct {
	id   int32
	down bool
	cut  bool
}

type ktopic struct {
	maxBytes int
	name     string
	parts    []*kpart
}

type kpart struct {
	t       *ktopic
	idx     int32
	leader  int32
	batches []sarama.SimBatch
	first   int64
	next    int64
	read    time.Duration // when it was last asked for messages
}

// kproc is an operating-system process that uses the cluster, seen by the
// cluster through its own names for the brokers.
type kproc struct {
	answered, last int // requests answered; after the last one then is called
	then           func()
	impostor       int // 0: the brokers it reaches are the cluster
	name           string
	hosts          []*core.Host
	dead           bool
}

func newCluster(w *core.World, r *core.Rand, brokers, autoParts int) *cluster {
	c := &cluster{w: w, r: r, net: core.NewNet(w, r.Sub()), topics: map[string]*ktopic{}, procs: map[string]*kproc{},
		autoParts: autoParts, grown: make(chan struct{}), fetchMax: 4, tokens: 2, maxWait: 500, codec: sarama.CompressionNone,
		dropBefore: map[string]int{}, dropAfter: map[string]int{}, errs: map[string][]sarama.KError{}}
	for i := 0; i < brokers; i++ {
		c.brokers = append(c.brokers, &kbroker{id: int32(i + 1)})
	}
	c.service = func(string) time.Duration { return 0 }
	sarama.SimDial = func(d proxy.Dialer, network, a string) (net.Conn, error) {
		i := strings.Index(a, ".")
		j := strings.Index(a, ":")
		if i < 0 || j < i {
			return nil, fmt.Errorf("no such host %s", a)
		}
		p := c.procs[a[i+1:j]]
		if p == nil || p.dead {
			select {} // a killed process makes no progress
		}
		return c.net.Dial(p.name, a, 30*time.Second)
	}
	return c
}

// proc registers a process and returns the broker URL it uses.
func (c *cluster) proc(name string, extra string) (*kproc, string) {
	p := &kproc{name: name}
	c.procs[name] = p
	var addrs []string
	for _, b := range c.brokers {
		a := fmt.Sprintf("k%d.%s:9092", b.id, name)
		h := c.net.Host(a)
		if b.down {
			h.SetDown(true)
		}
		if b.cut {
			h.SetCut(true)
		}
		p.hosts = append(p.hosts, h)
		addrs = append(addrs, a)
		b, p := b, p
		go func() {
			for {
				conn, err := h.Accept()
				if err != nil {
					return
				}
				go c.serve(p, b, conn.(*core.Conn))
			}
		}()
	}
	return p, "kafka://" + strings.Join(addrs, ",") + fmt.Sprintf("?compression.codec=none&max.waittime=%d", c.maxWait) + extra
}

// kill ends a process: its connections break and it never gets through again.
func (c *cluster) kill(p *kproc) {
	p.dead = true
	for _, h := range p.hosts {
		h.SetDown(true)
	}
}

func (c *cluster) setDown(b *kbroker, down bool) {
	if c.gone {
		return
	}
	b.down = down
	for _, name := range core.SortedKeys(c.procs) {
		if p := c.procs[name]; !p.dead {
			p.hosts[b.id-1].SetDown(down)
		}
	}
	if down {
		// Another broker takes over its partitions.
		var up []int32
		for _, x := range c.brokers {
			if !x.down {
				up = append(up, x.id)
			}
		}
		for _, tn := range core.SortedKeys(c.topics) {
			for _, p := range c.topics[tn].parts {
				if p.leader == b.id && len(up) > 0 {
					p.leader = up[c.r.N(len(up))]
				}
			}
		}
	}
}

func (c *cluster) setCut(b *kbroker, cut bool) {
	if c.gone {
		return
	}
	b.cut = cut
	for _, name := range core.SortedKeys(c.procs) {
		if p := c.procs[name]; !p.dead {
			p.hosts[b.id-1].SetCut(cut)
		}
	}
}

// topic creates a topic.
func (c *cluster) topic(name string, parts int, base int64) *ktopic {
	if t := c.topics[name]; t != nil {
		return t
	}
	t := &ktopic{name: name, maxBytes: 10000024}
	for i := 0; i < parts; i++ {
		t.parts = append(t.parts, &kpart{t: t, idx: int32(i), leader: c.brokers[c.r.N(len(c.brokers))].id, first: base, next: base})
	}
	c.topics[name] = t
	return t
}

func (c *cluster) part(t string, p int32) *kpart {
	x := c.topics[t]
	if x == nil || p < 0 || int(p) >= len(x.parts) {
		return nil
	}
	return x.parts[p]
}

func (c *cluster) append(p *kpart, recs []sarama.SimRec) int64 {
	base := p.next
	p.batches = append(p.batches, sarama.SimBatch{Offset: base, Recs: recs, Codec: c.codec})
	p.next += int64(len(recs))
	for i, r := range recs {
		c.w.Log("append %s:%d@%d %x", p.t.name, p.idx, base+int64(i), core.Mix(int64(len(r.Value)))^hashBytes(r.Key))
		if c.onAppend != nil {
			c.onAppend(p, base+int64(i), r)
		}
	}
	close(c.grown)
	c.grown = make(chan struct{})
	return base
}

// recsSize is about the size of a batch of records.
func recsSize(recs []sarama.SimRec) int {
	n := 61
	for _, r := range recs {
		n += len(r.Key) + len(r.Value) + 8
	}
	return n
}

// rec makes a record, timestamped now.
func (c *cluster) rec(key, value []byte) []sarama.SimRec {
	return []sarama.SimRec{{Key: key, Value: value, Time: time.Now()}}
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

// truncate drops whole batches from the front, as retention does.
func (p *kpart) truncate(to int64) {
	for len(p.batches) > 0 && p.batches[0].Offset+int64(len(p.batches[0].Recs)) <= to {
		p.first = p.batches[0].Offset + int64(len(p.batches[0].Recs))
		p.batches = p.batches[1:]
	}
}

// each visits every retained record.
func (c *cluster) each(f func(p *kpart, off int64, r sarama.SimRec)) {
	for _, tn := range core.SortedKeys(c.topics) {
		for _, p := range c.topics[tn].parts {
			for _, b := range p.batches {
				for i, r := range b.Recs {
					f(p, b.Offset+int64(i), r)
				}
			}
		}
	}
}

func take(m map[string]int, k string) bool {
	if m[k] > 0 {
		m[k]--
		return true
	}
	if m["any"] > 0 {
		m["any"]--
		return true
	}
	return false
}

func (c *cluster) serve(p *kproc, b *kbroker, conn *core.Conn) {
	defer conn.Close()
	var rw net.Conn = conn
	if c.tls != nil {
		t := tls.Server(conn, c.tls)
		if t.Handshake() != nil {
			return
		}
		rw = t
	}
	var known *login
	if c.auth != nil {
		known = &login{}
	}
	for {
		req, err := sarama.SimReadRequest(rw)
		if err != nil {
			return
		}
		if d := c.service(req.Kind); d > 0 {
			time.Sleep(d)
		}
		if b.down || p.dead {
			conn.Reset()
			return
		}
		if take(c.dropBefore, req.Kind) {
			c.w.Fault("request-lost-" + req.Kind)
			conn.Reset()
			return
		}
		var res []byte
		if known != nil && !known.done {
			res, err = c.login(p, rw, known, req)
			if res == nil {
				return
			}
		} else if req.Kind == "handshake" || req.Kind == "auth" {
			// Nobody asked for that
			conn.Reset()
			return
		} else {
			c.from = p.name
			res, err = c.handle(p, b, req)
		}
		if err != nil {
			panic("HARNESS: encoding a response: " + err.Error())
		}
		if take(c.dropAfter, req.Kind) {
			c.w.Fault("response-lost-" + req.Kind)
			conn.Reset()
			return
		}
		if res == nil {
			continue // no acknowledgement asked for
		}
		if _, err := rw.Write(res); err != nil {
			return
		}
		if p.answered++; p.answered == p.last {
			p.then()
		}
	}
}

func (c *cluster) takeErr(kind string) (sarama.KError, bool) {
	if l := c.errs[kind]; len(l) > 0 {
		c.errs[kind] = l[1:]
		c.w.Fault("error-" + kind)
		return l[0], true
	}
	return 0, false
}

func (c *cluster) handle(p *kproc, b *kbroker, req *sarama.SimRequest) ([]byte, error) {
	switch req.Kind {
	case "metadata":
		var names []string
		var ids []int32
		controller := int32(-1)
		for _, x := range c.brokers {
			if x.down {
				continue
			}
			names = append(names, fmt.Sprintf("k%d.%s:9092", x.id, p.name))
			ids = append(ids, x.id)
			if controller < 0 {
				controller = x.id
			}
		}
		want := req.Topics
		if len(want) == 0 {
			want = core.SortedKeys(c.topics)
		}
		var ts []sarama.SimTopic
		for _, t := range want {
			st := sarama.SimTopic{Name: t}
			if kt := c.topics[t]; kt == nil {
				st.Err = sarama.ErrUnknownTopicOrPartition
			} else {
				for _, kp := range kt.parts {
					l := kp.leader
					if c.brokers[l-1].down {
						l = -1
					}
					st.Leaders = append(st.Leaders, l)
				}
			}
			if e, ok := c.takeErr("metadata"); ok {
				st.Err = e
			}
			ts = append(ts, st)
		}
		return sarama.SimMetadata(req, names, ids, controller, ts)
	case "create":
		errs := map[string]sarama.KError{}
		alive, controller := 0, int32(-1)
		for _, x := range c.brokers {
			if !x.down {
				if alive++; controller < 0 {
					controller = x.id
				}
			}
		}
		for _, t := range req.Topics {
			if c.topics[t] != nil {
				errs[t] = sarama.ErrTopicAlreadyExists
				continue
			}
			if b.id != controller {
				c.w.Fault("not-controller")
				errs[t] = sarama.ErrNotController
				continue
			}
			if int(req.Copies[t]) > alive || req.Copies[t] == 0 {
				c.w.Fault("too-few-brokers")
				errs[t] = sarama.ErrInvalidReplicationFactor
				continue
			}
			n := int(req.Create[t])
			if n <= 0 {
				n = c.autoParts
			}
			c.creates++
			kt := c.topic(t, n, 0)
			kt.maxBytes = 1048588 // Kafka's default
			if s := req.Config[t]["max.message.bytes"]; s != "" {
				kt.maxBytes, _ = strconv.Atoi(s)
			}
			errs[t] = sarama.ErrNoError
		}
		return sarama.SimCreated(req, errs)
	case "offsets":
		var out []sarama.SimPartResult
		for _, sp := range req.Parts {
			r := sarama.SimPartResult{Topic: sp.Topic, Partition: sp.Partition}
			kp := c.part(sp.Topic, sp.Partition)
			if e, ok := c.takeErr("offsets"); ok {
				r.Err = e
			} else if kp == nil {
				r.Err = sarama.ErrUnknownTopicOrPartition
			} else if kp.leader != b.id {
				r.Err = sarama.ErrNotLeaderForPartition
			} else {
				switch sp.Offset {
				case sarama.OffsetNewest:
					r.Offset = kp.next
				case sarama.OffsetOldest:
					r.Offset = kp.first
				default:
					r.Offset = -1
					for _, bt := range kp.batches {
						for i, rec := range bt.Recs {
							if r.Offset < 0 && rec.Time.UnixNano()/1e6 >= sp.Offset {
								r.Offset = bt.Offset + int64(i)
							}
						}
					}
				}
			}
			out = append(out, r)
		}
		return sarama.SimOffsets(req, out)
	case "produce":
		var out []sarama.SimPartResult
		for _, sp := range req.Parts {
			r := sarama.SimPartResult{Topic: sp.Topic, Partition: sp.Partition}
			kp := c.part(sp.Topic, sp.Partition)
			if kp == nil {
				r.Err = sarama.ErrUnknownTopicOrPartition
			} else if kp.leader != b.id {
				r.Err = sarama.ErrNotLeaderForPartition
			} else if recsSize(sp.Recs) > kp.t.maxBytes {
				c.w.Fault("message-too-large")
				r.Err = sarama.ErrMessageSizeTooLarge
			} else if e, ok := c.takeErr("produce"); ok {
				r.Err = e
				if e == sarama.ErrRequestTimedOut || e == sarama.ErrNotEnoughReplicasAfterAppend {
					// Appended all the same.
					c.append(kp, sp.Recs)
				}
			} else if req.Acks != -1 && len(c.brokers) > 1 && !c.ended && c.r.P(1, 10) {
				// The producer does not wait until other brokers have it, and
				// the leader fails before they do.
				r.Offset = kp.next
				c.w.Fault("unreplicated-lost")
				for kp.leader == b.id {
					kp.leader = c.brokers[c.r.N(len(c.brokers))].id
				}
			} else {
				r.Offset = c.append(kp, sp.Recs)
			}
			out = append(out, r)
		}
		if req.Acks == 0 {
			return nil, nil
		}
		return sarama.SimProduced(req, out)
	case "fetch":
		until := time.Now().Add(req.MaxWait)
		for _, sp := range req.Parts {
			if kp := c.part(sp.Topic, sp.Partition); kp != nil {
				kp.read = c.w.Now()
			}
		}
		for {
			grown := c.grown
			var out []sarama.SimPartResult
			any := false
			for _, sp := range req.Parts {
				r := sarama.SimPartResult{Topic: sp.Topic, Partition: sp.Partition}
				kp := c.part(sp.Topic, sp.Partition)
				if kp == nil {
					r.Err = sarama.ErrUnknownTopicOrPartition
				} else if kp.leader != b.id {
					r.Err = sarama.ErrNotLeaderForPartition
				} else if e, ok := c.takeErr("fetch"); ok {
					r.Err = e
				} else if sp.Offset < kp.first || sp.Offset > kp.next {
					r.Err = sarama.ErrOffsetOutOfRange
				} else {
					r.HWM, r.First = kp.next, kp.first
					size := 0
					for _, bt := range kp.batches {
						if bt.Offset+int64(len(bt.Recs)) <= sp.Offset {
							continue
						}
						if len(r.Batches) >= c.fetchMax || (size > 0 && size > int(sp.MaxBytes)) {
							break
						}
						r.Batches = append(r.Batches, bt)
						for _, rec := range bt.Recs {
							size += len(rec.Key) + len(rec.Value) + 10
						}
					}
				}
				if r.Err != 0 || len(r.Batches) > 0 {
					any = true
				}
				out = append(out, r)
			}
			left := time.Until(until)
			if any || left <= 0 {
				return sarama.SimFetched(req, out)
			}
			t := time.NewTimer(left)
			select {
			case <-t.C:
			case <-grown:
			}
			t.Stop()
			if b.down || p.dead {
				return sarama.SimFetched(req, nil)
			}
		}
	}
	panic("HARNESS: request " + req.Kind)
}

// chaos carries out one fault of a plan.
func (c *cluster) chaos(op core.Op) {
	if c.ended {
		return
	}
	if c.apart {
		if c.w.Now() < c.quiet {
			return
		}
		if op.Arg(3) > 300 {
			op.A = append([]int64(nil), op.A...)
			op.A[3] = 300
		}
		c.quiet = c.w.Now() + 3*time.Second
	}
	n := int(op.Arg(2))
	switch op.Arg(1) {
	case 0: // requests lost
		c.dropBefore[[]string{"produce", "fetch", "metadata", "any"}[n%4]] += 1 + n/4%c.tokens
	case 1: // acknowledgements lost
		c.dropAfter[[]string{"produce", "produce", "fetch", "any"}[n%4]] += 1 + n/4%c.tokens
	case 2: // error responses to produce requests
		e := []sarama.KError{sarama.ErrNotLeaderForPartition, sarama.ErrLeaderNotAvailable, sarama.ErrRequestTimedOut, sarama.ErrNotEnoughReplicas, sarama.ErrNotEnoughReplicasAfterAppend, sarama.ErrUnknownTopicOrPartition}
		c.errs["produce"] = append(c.errs["produce"], e[n%len(e)])
	case 3: // error responses to fetch requests
		e := []sarama.KError{sarama.ErrNotLeaderForPartition, sarama.ErrLeaderNotAvailable, sarama.ErrReplicaNotAvailable, sarama.ErrUnknownTopicOrPartition}
		c.errs["fetch"] = append(c.errs["fetch"], e[n%len(e)])
	case 4: // leadership moves
		for _, tn := range core.SortedKeys(c.topics) {
			for _, p := range c.topics[tn].parts {
				if c.r.P(1, 2) {
					l := c.brokers[c.r.N(len(c.brokers))]
					if !l.down && p.leader != l.id {
						p.leader = l.id
						c.w.Fault("leader-moved")
					}
				}
			}
		}
	case 5: // a broker goes down for a while
		b := c.brokers[n%len(c.brokers)]
		if !b.down {
			c.w.Fault("broker-down")
			c.setDown(b, true)
			d := time.Duration(op.Arg(3)) * time.Millisecond
			go func() {
				time.Sleep(d)
				c.setDown(b, false)
			}()
		}
	case 6: // a broker is unreachable for a while
		b := c.brokers[n%len(c.brokers)]
		if !b.cut {
			c.w.Fault("partition")
			c.setCut(b, true)
			d := time.Duration(op.Arg(3)) * time.Millisecond
			go func() {
				time.Sleep(d)
				c.setCut(b, false)
			}()
		}
	case 7: // connections break
		for _, x := range c.net.Open("") {
			if c.r.P(1, 2) {
				c.w.Fault("connection-reset")
				x.Reset()
			}
		}
	case 8: // everything is slow for a while
		lim := 1 + n%400
		c.service = func(string) time.Duration { return time.Duration(c.r.N(lim)) * time.Millisecond }
		c.w.Fault("slow-broker")
		d := time.Duration(op.Arg(3)) * time.Millisecond
		go func() {
			time.Sleep(d)
			c.service = func(string) time.Duration { return 0 }
		}()
	}
}

// calm ends all faults.
func (c *cluster) calm() {
	c.ended = true
	c.dropBefore, c.dropAfter, c.errs = map[string]int{}, map[string]int{}, map[string][]sarama.KError{}
	c.service = func(string) time.Duration { return 0 }
	for _, b := range c.brokers {
		if b.down {
			c.setDown(b, false)
		}
		if b.cut {
			c.setCut(b, false)
		}
	}
}

// genChaos adds fault ops at random times within the given span.
func genChaos(r *core.Rand, p *core.Plan, n int, span int, brokers int) {
	for i := 0; i < n; i++ {
		k := r.Pick(0, 1, 1, 2, 3, 4, 5, 6, 7, 8)
		if brokers == 1 && k == 4 {
			k = 7
		}
		p.Add("f", int64(r.N(span)), int64(k), int64(r.N(1000)), int64(r.Pick(5, 100, 700, 2500)))
	}
}
