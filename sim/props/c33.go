package props

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"github.com/openrelayxyz/cardinal-types/hexutil"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C33", Title: "Websocket subscribers get the stream that is documented", Gen: genC33, Run: runC33, MaxSim: 3 * time.Hour,
		Rule: "one run = a real websocket producer publishes a block tree and announced reorgs to plain websocket clients that subscribe (several times per connection, from blocks on and off the chain), ask for blocks by number, unsubscribe, read at their own pace and lose connections; non-trivial = something was published between a request and its answer; a state = (messages published, messages received by each client)",
		Real: wsReal[:3], Stub: append([]string{"websocket consumers: the harness's own clients (gorilla/websocket)"}, wsStub...), Floors: map[string]int64{"mux": 0, "consumers": 1, "resslow": 0, "resbuf": 0, "cap": 0, "buf": 0, "wbase": 0, "slow": 0}})
}

func genC33(r *core.Rand, p *core.Plan) {
	ids := genWS(r, p, r.Pick(1, 3, 6, 12))
	p.P["slow"] = int64(r.Pick(0, 0, 1, 10, 50))
	n := int(p.P["consumers"])
	left := ids[1:]
	for i, steps := 0, r.R(2*len(ids)+4, 4*len(ids)+16); i < steps; i++ {
		c := int64(r.N(n))
		switch {
		case len(left) > 0 && r.P(1, 3):
			p.Add("a", int64(left[0]))
			left = left[1:]
		case r.P(1, 4):
			p.Add("sub", c, int64(ids[r.N(len(ids)-len(left))]), int64(r.Pick(0, 0, 0, 1, 2)))
		case r.P(1, 4):
			p.Add("ask", c, int64(r.N(len(ids)+2)))
		case r.P(1, 8):
			p.Add("un", c, int64(r.N(3)))
		case r.P(1, 10):
			p.Add("x", c)
		case r.P(1, 10):
			p.Add("res")
		case r.P(1, 6):
			p.Add("g", int64(ids[r.N(len(ids))]))
		case r.P(1, 2):
			p.Add("s", int64(r.Pick(1, 3, 30, 300, 5000)))
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

// A published message, and when its call began and returned.
type c33pub struct {
	s          string
	begin, end time.Duration
}

// c33prod keeps a record of what is published.
type c33prod struct {
	transports.Producer
	w   *core.World
	log []*c33pub
}

func (p *c33prod) rec(s string, f func() error) error {
	x := &c33pub{s: s, begin: p.w.Now(), end: 1 << 62}
	p.log = append(p.log, x)
	err := f()
	x.end = p.w.Now()
	return err
}

func c33msg(kind string, num int64, weight *big.Int, hash, parent types.Hash, values map[string][]byte, deletes []string, batches map[string]types.Hash) string {
	var l []string
	for k, v := range values {
		l = append(l, fmt.Sprintf("%q=%x", k, v))
	}
	for _, k := range deletes {
		l = append(l, fmt.Sprintf("%q deleted", k))
	}
	for k, v := range batches {
		l = append(l, fmt.Sprintf("%q in %x", k, v))
	}
	sort.Strings(l)
	return fmt.Sprintf("%s %d %v %x %x %s", kind, num, weight, hash, parent, strings.Join(l, ","))
}

func (p *c33prod) AddBlock(num int64, hash, parent types.Hash, weight *big.Int, updates map[string][]byte, deletes map[string]struct{}, batches map[string]types.Hash) error {
	return p.rec(c33msg("batch", num, weight, hash, parent, updates, core.SortedKeys(deletes), batches), func() error {
		return p.Producer.AddBlock(num, hash, parent, weight, updates, deletes, batches)
	})
}

func (p *c33prod) SendBatch(id types.Hash, deletes []string, updates map[string][]byte) error {
	return p.rec(c33msg("subbatch", 0, nil, id, types.Hash{}, updates, deletes, nil), func() error { return p.Producer.SendBatch(id, deletes, updates) })
}

func (p *c33prod) Reorg(num int64, hash types.Hash) (f func(), err error) {
	p.rec(c33msg("reorg", num, nil, hash, types.Hash{}, nil, nil, nil), func() error {
		f, err = p.Producer.Reorg(num, hash)
		return err
	})
	return f, err
}

// c33call is a resumption the producer asked for.
type c33call struct {
	num    uint64
	hash   types.Hash
	failed bool
	sent   []string
	ctx    context.Context
}

type c33resumer struct {
	*wsResumer
	w     *core.World
	calls []*c33call
	fails int
}

func c33full(pb *delivery.PendingBatch) string {
	return c33msg("batch", pb.Number, pb.Weight, pb.Hash, pb.ParentHash, pb.Values, core.SortedKeys(pb.Deletes), nil)
}

func (r *c33resumer) BlocksFrom(ctx context.Context, num uint64, hash types.Hash) (chan *delivery.PendingBatch, error) {
	c := &c33call{num: num, hash: hash, ctx: ctx}
	r.calls = append(r.calls, c)
	if r.fails > 0 {
		r.fails--
		r.w.Fault("resumer-error")
		c.failed = true
		return nil, errors.New("database unavailable")
	}
	in, err := r.wsResumer.BlocksFrom(ctx, num, hash)
	if err != nil {
		c.failed = true
		return nil, err
	}
	out := make(chan *delivery.PendingBatch, r.ww.resBuf)
	go func() {
		defer close(out)
		for pb := range in {
			s := c33full(pb)
			select {
			case out <- pb:
				c.sent = append(c.sent, s)
			case <-ctx.Done():
				return
			}
		}
	}()
	return out, nil
}

// c33in is what a client received.
type c33in struct {
	at     time.Duration
	ID     *int64 `json:"id"`
	Method string `json:"method"`
	Params *struct {
		Subscription json.RawMessage `json:"subscription"`
		Result       json.RawMessage `json:"result"`
	} `json:"params"`
	Result json.RawMessage `json:"result"`
	Error  json.RawMessage `json:"error"`
}

type c33req struct {
	id   int64
	conn *c33conn
	kind string // sub, ask, un
	num  int64
	hash types.Hash
	sub  *c33req
	sent time.Duration
	ans  *c33in
	un   *c33req // the request that ended this subscription
}

type c33conn struct {
	c      *websocket.Conn
	reqs   []*c33req
	in     []*c33in
	lost   bool
	broken bool
	bad    string
}

type c33result struct {
	Type  string `json:"type"`
	Batch *struct {
		Number  *hexutil.Uint64          `json:"number"`
		Weight  *hexutil.Big             `json:"weight"`
		Hash    *types.Hash              `json:"hash"`
		Parent  types.Hash               `json:"parent"`
		Values  map[string]hexutil.Bytes `json:"values"`
		Deletes []string                 `json:"deletes"`
		Batches map[string]types.Hash    `json:"batches"`
	} `json:"batch"`
	SubBatch *struct {
		Hash    *types.Hash              `json:"hash"`
		BatchID *types.Hash              `json:"batchid"`
		Values  map[string]hexutil.Bytes `json:"values"`
		Deletes []string                 `json:"deletes"`
	} `json:"subbatch"`
}

// c33parse turns a message into the form of c33msg.
func c33parse(raw []byte, owner func(types.Hash) types.Hash) (string, string) {
	m := &c33result{}
	if err := json.Unmarshal(raw, m); err != nil {
		return "", err.Error()
	}
	vals := func(x map[string]hexutil.Bytes) map[string][]byte {
		o := map[string][]byte{}
		for k, v := range x {
			o[k] = v
		}
		return o
	}
	switch {
	case m.Type == "ready":
		return "ready", ""
	case m.Type == "batch" && m.Batch != nil && m.Batch.Number != nil && m.Batch.Hash != nil && m.Batch.Weight != nil:
		return c33msg("batch", int64(*m.Batch.Number), m.Batch.Weight.ToInt(), *m.Batch.Hash, m.Batch.Parent, vals(m.Batch.Values), m.Batch.Deletes, m.Batch.Batches), ""
	case m.Type == "reorg" && m.Batch != nil && m.Batch.Number != nil && m.Batch.Hash != nil:
		return c33msg("reorg", int64(*m.Batch.Number), nil, *m.Batch.Hash, types.Hash{}, nil, nil, nil), ""
	case m.Type == "subbatch" && m.SubBatch != nil && m.SubBatch.Hash != nil && m.SubBatch.BatchID != nil:
		if o := owner(*m.SubBatch.BatchID); o != *m.SubBatch.Hash {
			return "", fmt.Sprintf("sub-batch %x of block %x is said to be of %x", *m.SubBatch.BatchID, o, *m.SubBatch.Hash)
		}
		return c33msg("subbatch", 0, nil, *m.SubBatch.BatchID, types.Hash{}, vals(m.SubBatch.Values), m.SubBatch.Deletes, nil), ""
	}
	return "", "incomplete message"
}

// c33stream tells how far got is an interleaving of res, then "ready", and
// live, and whether all of them are in it.
func c33stream(got, res, live []string) (int, bool) {
	// The resumed blocks come before "ready", what is live anywhere.
	seq := append(append([]string(nil), res...), "ready")
	cur := map[int]bool{0: true} // how much of seq; the rest is of live
	for k, g := range got {
		next := map[int]bool{}
		for i := 0; i <= len(seq); i++ {
			if !cur[i] {
				continue
			}
			if i < len(seq) && seq[i] == g {
				next[i+1] = true
			}
			if j := k - i; j < len(live) && live[j] == g {
				next[i] = true
			}
		}
		if len(next) == 0 {
			return k, false
		}
		cur = next
	}
	return len(got), cur[len(seq)] && len(got) == len(seq)+len(live)
}

func runC33(w *core.World) {
	p := w.Plan
	ww := newWSWorld(w)
	if ww == nil {
		return
	}
	ww.newRaws(int(p.P["consumers"]))
	rs := &c33resumer{wsResumer: &wsResumer{ww}, w: w}
	pr := &c33prod{w: w}
	ww.resolve = func() (transports.Producer, error) {
		k, err := wsProducer(ww, rs)
		pr.Producer = k
		return pr, err
	}
	if w.Rand.P(1, 8) {
		// Without a resumer nobody could be resumed.
		if _, err := wsProducer(ww, nil); err == nil {
			w.Fail("created", "a websocket producer was created without a resumer")
			return
		}
	}
	if !ww.boot() {
		return
	}
	owner := map[types.Hash]types.Hash{}
	for _, n := range ww.t.nodes {
		for _, s := range ww.blks[n.id].Subs {
			owner[s.id] = n.hash
		}
	}
	ownerOf := func(h types.Hash) types.Hash { return owner[h] }
	// What is on the chain from when on.
	type snap struct {
		at    time.Duration
		canon map[int64]*node
	}
	var snaps []snap
	note := func() {
		c := map[int64]*node{}
		for k, v := range ww.canon {
			c[k] = v
		}
		snaps = append(snaps, snap{w.Now(), c})
	}
	note()
	add := func(n *node) {
		// As ww.add, but with the chain noted as soon as it changes.
		if n == nil || ww.have[n.hash] != nil || n.parent == nil || ww.have[n.phash] == nil {
			return
		}
		old := ww.head
		list := []*node{n}
		if ww.store(n) {
			w.Fault("reorg")
			for m := n.parent; m != nil && !m.ancestorOf(old); m = m.parent {
				list = append([]*node{m}, list...)
			}
		}
		note()
		for _, m := range list {
			steps := 1 << 20
			if err := ww.announce(m, &steps); err != nil {
				w.Fail("producer-error", "publishing a block failed: %v", err)
				return
			}
		}
	}
	conns := make([]*c33conn, len(ww.raws))
	var all []*c33conn
	id := int64(0)
	conn := func(i int) *c33conn {
		i %= len(conns)
		if c := conns[i]; c != nil && !c.lost {
			return c
		}
		k := ww.raws[i]
		if err := k.dial(); err != nil {
			w.Fail("refused", "a client could not connect: %v", err)
			return nil
		}
		c := &c33conn{c: k.conn}
		conns[i] = c
		all = append(all, c)
		ws := k.conn
		go func() {
			for {
				_, data, err := ws.ReadMessage()
				if err != nil {
					c.lost = true
					return
				}
				in := &c33in{at: w.Now()}
				if err := json.Unmarshal(data, in); err != nil {
					c.bad = fmt.Sprintf("%q: %v", data, err)
					return
				}
				c.in = append(c.in, in)
				if p.P["slow"] > 0 {
					time.Sleep(time.Duration(p.P["slow"]) * time.Millisecond)
				}
			}
		}()
		return c
	}
	send := func(c *c33conn, q *c33req, method string, params ...interface{}) {
		id++
		q.id, q.conn, q.sent = id, c, w.Now()
		c.reqs = append(c.reqs, q)
		data, err := json.Marshal(map[string]interface{}{"jsonrpc": "2.0", "id": q.id, "method": method, "params": params})
		if err != nil {
			panic("HARNESS: " + err.Error())
		}
		c.c.WriteMessage(websocket.TextMessage, data)
	}
	answer := func(q *c33req) *c33in {
		for _, in := range q.conn.in {
			if in.ID != nil && *in.ID == q.id {
				return in
			}
		}
		return nil
	}
	root := ww.t.byID[0]
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		switch op.K {
		case "a":
			add(ww.t.byID[int(op.Arg(0))])
		case "g":
			if n := ww.t.byID[int(op.Arg(0))]; n != nil && ww.have[n.hash] != nil {
				w.Fault("announced-reorg")
				done, err := ww.prod.Reorg(n.num, n.hash)
				if err != nil {
					w.Fail("producer-error", "announcing a reorg failed: %v", err)
					return
				}
				done()
			}
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "res":
			rs.fails++
		case "sub":
			n := ww.t.byID[int(op.Arg(1))]
			c := conn(int(op.Arg(0)))
			if n == nil || c == nil {
				break
			}
			q := &c33req{kind: "sub", num: n.num, hash: n.hash}
			switch op.Arg(2) {
			case 1: // a block the producer does not know
				q.hash = mkHash('X', uint64(id), uint64(n.id))
			case 2: // far ahead
				q.num += 100
			}
			send(c, q, "cardinal_subscribe", "streams", hexutil.Uint64(q.num), q.hash)
		case "ask":
			if c := conn(int(op.Arg(0))); c != nil {
				q := &c33req{kind: "ask", num: root.num + op.Arg(1)}
				send(c, q, "cardinal_streamsBlock", hexutil.Uint64(q.num))
			}
		case "un":
			c := conns[int(op.Arg(0))%len(conns)]
			if c == nil || c.lost {
				break
			}
			k := int(op.Arg(1))
			for _, q := range c.reqs {
				if q.kind != "sub" || q.un != nil {
					continue
				}
				if k--; k >= 0 {
					continue
				}
				if a := answer(q); a != nil && len(a.Result) > 0 && string(a.Result) != "null" {
					w.Fault("unsubscribed")
					q.un = &c33req{kind: "un", sub: q}
					send(c, q.un, "cardinal_unsubscribe", a.Result)
				}
				break
			}
		case "x":
			i := int(op.Arg(0)) % len(conns)
			if conns[i] != nil && !conns[i].lost {
				w.Fault("connection-reset")
				conns[i].broken = true
				for _, k := range ww.net.Open(ww.raws[i].name) {
					k.Reset()
				}
				time.Sleep(time.Millisecond)
				conns[i].lost = true
			}
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(len(pr.log))}
		for _, c := range all {
			h = append(h, int64(len(c.in)))
		}
		w.State(core.Mix(h...))
	}
	w.Calm()
	w.Step("waiting for the streams to end")
	time.Sleep(4 * time.Minute)
	for ci, c := range all {
		if c.bad != "" {
			w.Fail("nonsense", "client %d received %s", ci, c.bad)
			return
		}
		if c.lost && !c.broken {
			w.Fail("disconnected", "client %d lost its connection although it did nothing wrong", ci)
			return
		}
		subs := map[string]*c33req{}
		for _, q := range c.reqs {
			q.ans = answer(q)
			if q.ans == nil && !c.broken {
				w.Fail("no-answer", "client %d got no answer to its request %d (%s %d)", ci, q.id, q.kind, q.num)
				return
			}
			if q.ans != nil {
				for _, x := range pr.log {
					if x.begin <= q.ans.at && x.end >= q.sent {
						w.Probes["nontrivial"] = 1
						break
					}
				}
			}
			if q.kind == "sub" && q.ans != nil && len(q.ans.Result) > 0 && string(q.ans.Result) != "null" {
				if subs[string(q.ans.Result)] != nil {
					w.Fail("subscription-id", "two subscriptions of client %d have the identifier %s", ci, q.ans.Result)
					return
				}
				subs[string(q.ans.Result)] = q
			}
		}
		got := map[string][]string{}
		last := map[string]time.Duration{}
		for _, in := range c.in {
			if in.ID != nil {
				continue
			}
			if in.Params == nil || len(in.Params.Subscription) == 0 {
				w.Fail("nonsense", "client %d received a message that is neither an answer nor of a subscription", ci)
				return
			}
			s := string(in.Params.Subscription)
			q := subs[s]
			if q == nil {
				if c.broken {
					continue // the answer may not have come
				}
				w.Fail("unknown-subscription", "client %d received something of subscription %s, which it does not have", ci, s)
				return
			}
			m, e := c33parse(in.Params.Result, ownerOf)
			if e != "" {
				w.Fail("nonsense", "client %d received %s: %s", ci, in.Params.Result, e)
				return
			}
			got[s] = append(got[s], m)
			last[s] = in.at
		}
		for _, q := range c.reqs {
			if q.ans == nil {
				continue
			}
			what := fmt.Sprintf("client %d, request %d (%s %d)", ci, q.id, q.kind, q.num)
			ok := len(q.ans.Result) > 0 && string(q.ans.Result) != "null"
			switch q.kind {
			case "ask":
				good, none := map[string]bool{}, false
				for i, s := range snaps {
					if s.at > q.ans.at || i+1 < len(snaps) && snaps[i+1].at < q.sent {
						continue
					}
					if n := s.canon[q.num]; n != nil {
						good[c33full(ww.full(n))] = true
					} else {
						none = true
					}
				}
				if !ok {
					if !none {
						w.Fail("not-found", "%s: there is a block of that number, and the answer has none", what)
						return
					}
					if len(q.ans.Error) == 0 {
						w.Fail("no-error", "%s: there is no block of that number, and the answer is no error", what)
						return
					}
					break
				}
				m, e := c33parse(q.ans.Result, ownerOf)
				if e != "" || !good[m] {
					w.Fail("wrong-block", "%s: the answer is not the block of that number: %s %s", what, m, e)
					return
				}
				w.Probe("asked")
			case "sub":
				var cand []*c33call
				failed := false
				for _, x := range rs.calls {
					if x.num == uint64(q.num) && x.hash == q.hash {
						if x.failed {
							failed = true
						} else {
							cand = append(cand, x)
						}
					}
				}
				if !ok {
					if !failed {
						w.Fail("refused", "%s: the subscription was refused", what)
						return
					}
					break
				}
				if len(cand) == 0 {
					w.Fail("not-resumed", "%s: nobody was asked for the blocks from there on", what)
					return
				}
				from, to := 0, 0
				for _, x := range pr.log {
					if x.end < q.sent {
						from++
					}
					if x.begin <= q.ans.at {
						to++
					}
				}
				sid := string(q.ans.Result)
				g := got[sid]
				whole := !c.broken && q.un == nil
				best, found := 0, false
				for _, x := range cand {
					for k := from; k <= to && !found; k++ {
						var live []string
						for _, y := range pr.log[k:] {
							live = append(live, y.s)
						}
						n, all := c33stream(g, x.sent, live)
						if n > best {
							best = n
						}
						if n == len(g) && (all || !whole) {
							found = true
						}
					}
				}
				if !found {
					e := "the end"
					if best < len(g) {
						e = g[best]
					}
					w.Fail("stream", "%s: the %d messages received are not the blocks to resume with, \"ready\" and what was published since; at most the first %d are, then came %s (published %d, of which since the request %d)", what, len(g), best, e, len(pr.log), len(pr.log)-from)
					return
				}
				if q.un != nil && q.un.ans != nil && last[sid] > q.un.ans.at+time.Minute {
					w.Fail("unsubscribed", "%s: something came %v after the subscription was ended", what, last[sid]-q.un.ans.at)
					return
				}
				// (When the connection breaks, cardinal-rpc may keep serving what it
				// has read of it; C22 decides what becomes of the stream then.)
				if len(cand) == 1 && q.un != nil && q.un.ans != nil && cand[0].ctx.Err() == nil {
					w.Fail("leftover", "%s: the context of the resumption is alive minutes after the subscription ended", what)
					return
				}
				w.Probe("streams")
			}
		}
	}
}
