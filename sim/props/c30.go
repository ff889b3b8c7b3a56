package props

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	types "github.com/openrelayxyz/cardinal-types"
	"github.com/openrelayxyz/cardinal-types/hexutil"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C30", Title: "Nothing a websocket server sends can crash or mislead a consumer", Gen: genC30, Run: runC30, MaxSim: 6 * time.Hour,
		Rule: "one run = a websocket server of the harness's own sends a real consumer blocks in batches and sub-batches, out of order and repeatedly, mixed with nonsense, over connections it refuses, answers wrongly or breaks; non-trivial = nonsense was sent between messages of a block; a state = (connections, messages sent, blocks complete, handed out)",
		Real: []string{"websocket consumer (transports/websockets.go)", "gorilla/websocket client", "delivery.OrderedMessageProcessor, MessageProcessor"},
		Stub: []string{"websocket producer: the harness's own server", "network: in-memory connections with latency, resets and cuts", "clock and scheduler: simulated"}, Floors: map[string]int64{"consumers": 1, "cap": 0, "buf": 0, "wbase": 0, "slow": 0}})
}

const c30junk = 22

func genC30(r *core.Rand, p *core.Plan) {
	p.P["base"] = int64(r.Pick(0, 1, 1000, 1<<40))
	p.P["wbase"] = int64(r.Pick(0, 0, 0, 1, 2, 3, 4, 5))
	p.P["consumers"] = 1
	p.P["buf"] = int64(r.Pick(0, 1, 100))
	p.P["cap"] = int64(r.Pick(0, 0, 300, 5000))
	p.P["slow"] = int64(r.Pick(0, 0, 1, 20))
	ids := genTree(r, p, r.Pick(1, 2, 5, 12), r.Pick(0, 1, 2, 3), r.Pick(1, 2, 4), 0)
	big := r.Pick(0, 0, 2, 5)
	subs := map[int]int{}
	for _, id := range ids {
		subs[id] = r.Pick(0, 0, 1, 2, 3)
		p.Add("c", int64(id), int64(r.U64()>>1), int64(r.N(2+big)), int64(r.N(1+big)), int64(subs[id]))
	}
	ids = ids[1:]
	junk := r.Pick(0, 1, 3)
	for ph := r.Pick(1, 1, 2, 3); ph > 0; ph-- {
		for r.P(1, 3) {
			p.Add("n", int64(r.N(13)), int64(r.U64()>>1))
		}
		type msg struct{ id, part int }
		var ms []msg
		for copies := r.Pick(1, 1, 2); copies > 0; copies-- {
			for _, id := range ids {
				if r.P(1, 8) {
					continue
				}
				for part := 0; part <= subs[id]; part++ {
					ms = append(ms, msg{id, part})
				}
			}
		}
		idx := make([]int, len(ms))
		for i := range idx {
			idx[i] = i
		}
		for _, i := range shuffled(r, idx, r.Pick(0, 0, 2, 8, 100)) {
			for junk > 0 && r.P(junk, 6) {
				p.Add("j", int64(r.N(c30junk)), int64(r.U64()>>1))
			}
			if r.P(1, 12) {
				p.Add("r")
			}
			p.Add("m", int64(ms[i].id), int64(ms[i].part), int64(r.N(4)))
			if r.P(1, 20) {
				p.Add("s", int64(r.Pick(1, 300)))
			}
		}
		if r.P(1, 3) {
			p.Add("r")
		}
		if ph > 1 {
			p.Add("k", int64(r.N(2)), int64(r.N(2)))
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

// c30conn is a subscribed connection of the server.
type c30conn struct {
	c     *websocket.Conn
	subid uint64
	num   int64
	hash  types.Hash
	pongs chan string
	gone  chan struct{}
	answer string // the response to the subscription, if it is still to be sent
	ahead  int    // messages that go ahead of it
	// What has been sent on it.
	parts map[*node]map[int]bool
	ready bool
}

type c30server struct {
	w     *core.World
	r     *core.Rand
	next  []core.Op
	conns chan *c30conn
	n     uint64
	blk   map[string]interface{} // a block that may be sent ahead of the response
	early func() []byte
}

func (s *c30server) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
	var how core.Op
	if len(s.next) > 0 {
		how, s.next = s.next[0], s.next[1:]
		s.w.Fault("odd-connection")
	} else {
		how.A = []int64{-1, 0}
	}
	if how.Arg(0) == 0 {
		rw.WriteHeader(503)
		return
	}
	up := websocket.Upgrader{}
	c, err := up.Upgrade(rw, req, nil)
	if err != nil {
		return
	}
	if how.Arg(0) == 1 {
		c.Close()
		return
	}
	var call struct {
		ID     json.RawMessage
		Method string
		Params []json.RawMessage
	}
	_, b, err := c.ReadMessage()
	if err != nil {
		c.Close()
		return
	}
	var kind string
	var num hexutil.Uint64
	var hash types.Hash
	if err := json.Unmarshal(b, &call); err != nil || call.Method != "cardinal_subscribe" || len(call.Params) < 3 || json.Unmarshal(call.Params[0], &kind) != nil || kind != "streams" || json.Unmarshal(call.Params[1], &num) != nil || json.Unmarshal(call.Params[2], &hash) != nil {
		s.w.Fail("protocol", "the consumer sent %q", b)
		c.Close()
		return
	}
	send := func(t string) { c.WriteMessage(websocket.TextMessage, []byte(t)) }
	s.n += 1 + uint64(s.r.N(20))
	subid := s.n
	k := &c30conn{c: c, subid: subid, num: int64(num), hash: hash, pongs: make(chan string, 10), gone: make(chan struct{}), parts: map[*node]map[int]bool{}}
	id := string(call.ID)
	switch how.Arg(0) {
	case 2:
		send(`{"jsonrpc":"2.0","id":` + id + `,"error":{"code":-32000,"message":"no"}}`)
	case 3:
		send(`{{{`)
	case 4:
		send(`{"jsonrpc":"2.0","id":` + id + `,"result":7}`)
	case 5:
		send(`{"jsonrpc":"2.0","id":` + id + `,"result":"0xzz"}`)
	case 6:
		send(`{"jsonrpc":"2.0","id":` + id + `}`)
	case 7:
		send(`{"jsonrpc":"2.0","id":"other","result":"0x777"}`)
	case 8:
		send(`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"` + fmt.Sprintf("%#x", subid+1) + `","result":{"type":"ready"}}}`)
	case 9:
		send(`[]`)
	}
	if a := how.Arg(0); a > 1 && a < 7 || a == 9 {
		// The consumer hangs up, and so does everybody else.
		c.SetReadDeadline(time.Now().Add(time.Minute))
		if _, _, err := c.ReadMessage(); err == nil || strings.Contains(err.Error(), "timeout") {
			s.w.Fail("protocol", "the consumer did not hang up after a bad response")
		}
		c.Close()
		return
	}
	k.answer = `{"jsonrpc":"2.0","id":` + id + `,"result":"` + fmt.Sprintf("%#x", subid) + `"}`
	if how.Arg(0) >= 10 {
		s.w.Fault("late-answer")
		k.ahead = int(uint64(how.Arg(1))%6) + 1
	} else {
		k.respond()
	}
	c.SetPongHandler(func(d string) error {
		k.pongs <- d
		return nil
	})
	go func() {
		defer close(k.gone)
		for {
			if _, _, err := c.ReadMessage(); err != nil {
				return
			}
		}
	}()
	s.conns <- k
}

// respond answers the subscription.
func (k *c30conn) respond() {
	if k.answer != "" {
		k.c.WriteMessage(websocket.TextMessage, []byte(k.answer))
		k.answer = ""
	}
}

// send sends a message of the subscription, perhaps ahead of its announcement.
func (k *c30conn) send(m []byte) {
	if k.ahead--; k.ahead < 0 {
		k.respond()
	}
	k.c.WriteMessage(websocket.TextMessage, m)
}

func (k *c30conn) note(result string) []byte {
	return []byte(fmt.Sprintf(`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"%#x","result":%s}}`, k.subid, result))
}

func c30hex(m map[string][]byte) map[string]string {
	o := map[string]string{}
	for k, v := range m {
		o[k] = fmt.Sprintf("0x%x", v)
	}
	return o
}

// c30msg is a message of a block; style varies what may vary in JSON.
func c30msg(b *Blk, part int, style int64) map[string]interface{} {
	if part == 0 {
		d := []string{}
		for _, k := range core.SortedKeys(b.Deletes) {
			d = append(d, k)
		}
		batches := map[string]types.Hash{}
		for _, s := range b.Subs {
			batches[s.key] = s.id
		}
		m := map[string]interface{}{"number": fmt.Sprintf("%#x", b.Num), "weight": fmt.Sprintf("%#x", b.Weight), "hash": b.Hash, "parent": b.Parent, "values": c30hex(b.Updates), "deletes": d, "batches": batches}
		c30style(m, style)
		return map[string]interface{}{"type": "batch", "batch": m}
	}
	s := b.Subs[part-1]
	m := map[string]interface{}{"hash": b.Hash, "batchid": s.id, "values": c30hex(s.updates), "deletes": s.deletes}
	c30style(m, style)
	return map[string]interface{}{"type": "subbatch", "subbatch": m}
}

func c30style(m map[string]interface{}, style int64) {
	for _, k := range []string{"values", "deletes", "batches"} {
		empty := false
		switch v := m[k].(type) {
		case map[string]string:
			empty = len(v) == 0
		case map[string]types.Hash:
			empty = len(v) == 0
		case []string:
			empty = len(v) == 0
		}
		if empty && style == 1 {
			delete(m, k)
		} else if empty && style == 2 {
			m[k] = nil
		}
	}
	if style == 3 {
		m["extra"] = []interface{}{1, "x", nil}
	}
}

func c30json(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return string(b)
}

// junk is nonsense to send instead of a message.
func (k *c30conn) junk(kind int, b *Blk, r *core.Rand) (int, []byte) {
	decoy := func() map[string]interface{} {
		return map[string]interface{}{"type": "batch", "batch": map[string]interface{}{"number": fmt.Sprintf("%#x", b.Num), "weight": fmt.Sprintf("%#x", new(big.Int).Add(b.Weight, big.NewInt(1000))), "hash": mkHash('J', r.U64(), 0), "parent": b.Parent, "values": map[string]string{"decoy": "0x01"}, "deletes": []string{}, "batches": map[string]string{}}}
	}
	part := 0
	if len(b.Subs) > 0 {
		part = r.N(len(b.Subs) + 1)
	}
	sub := part > 0
	body := func(m map[string]interface{}) map[string]interface{} {
		if sub {
			return m["subbatch"].(map[string]interface{})
		}
		return m["batch"].(map[string]interface{})
	}
	txt := websocket.TextMessage
	switch kind {
	case 0:
		return txt, []byte(pickS(r, "", "\x00", "nonsense", `{"jsonrpc":`, `"`, "{}", "[]", "null", "7", `"x"`, "[{}]"))
	case 1:
		return websocket.BinaryMessage, []byte{0, 1, 2, 255}
	case 2: // another method
		return txt, []byte(strings.Replace(string(k.note(c30json(decoy()))), "cardinal_subscribe", pickS(r, "eth_subscription", "cardinal_subscription", ""), 1))
	case 3: // another subscription
		o := &c30conn{subid: k.subid + 1 + uint64(r.N(3))}
		if r.P(1, 3) {
			return txt, o.note(`{"type":"ready"}`)
		}
		return txt, o.note(c30json(decoy()))
	case 4:
		return txt, k.note(pickS(r, "{}", "null", "7", `"ready"`, "[]", `{"type":7}`, `{"type":null}`, `{"type":"other"}`, `{"type":""}`, `{"batch":{}}`))
	case 5:
		return txt, k.note(pickS(r, `{"type":"batch"}`, `{"type":"batch","batch":null}`, `{"type":"batch","subbatch":{}}`, `{"type":"batch","batch":7}`, `{"type":"batch","batch":"x"}`))
	case 6:
		return txt, k.note(pickS(r, `{"type":"subbatch"}`, `{"type":"subbatch","subbatch":null}`, `{"type":"subbatch","batch":{}}`, `{"type":"subbatch","subbatch":[]}`))
	case 7:
		return txt, k.note(pickS(r, `{"type":"reorg"}`, `{"type":"reorg","batch":null}`, `{"type":"reorg","batch":7}`))
	case 8: // no weight
		m := decoy()
		if r.P(1, 2) {
			delete(m["batch"].(map[string]interface{}), "weight")
		} else {
			m["batch"].(map[string]interface{})["weight"] = nil
		}
		return txt, k.note(c30json(m))
	case 9, 10: // a block with a bad value
		m := c30msg(b, part, 0)
		body(m)["values"] = map[string]interface{}{"a": "0x01", "k": pickS(r, "zz", "0x1", "0xzz", "x", "01")}
		return txt, k.note(c30json(m))
	case 11: // with values of another type
		m := c30msg(b, part, 0)
		body(m)["values"] = []interface{}{7, "0x01", []string{"x"}, map[string]interface{}{"a": "0x01", "b": 7}, map[string]interface{}{"a": nil, "b": map[string]string{}}}[r.N(5)]
		return txt, k.note(c30json(m))
	case 12: // with bad deletes
		m := c30msg(b, part, 0)
		body(m)["deletes"] = []interface{}{7, "x", []interface{}{"k", 7}, map[string]string{"a": "b"}}[r.N(4)]
		return txt, k.note(c30json(m))
	case 13: // with a bad hash
		m := c30msg(b, part, 0)
		body(m)["hash"] = []interface{}{7, "0x", "0x12", "0x" + strings.Repeat("z", 64), fmt.Sprintf("0x%x00", b.Hash[:])}[r.N(5)]
		return txt, k.note(c30json(m))
	case 14: // with a bad parent
		m := c30msg(b, 0, 0)
		m["batch"].(map[string]interface{})["parent"] = []interface{}{7, "0x", "0x12", "0x" + strings.Repeat("z", 64)}[r.N(4)]
		return txt, k.note(c30json(m))
	case 15: // with a bad number
		m := c30msg(b, 0, 0)
		m["batch"].(map[string]interface{})["number"] = []interface{}{7, "0x", "x", "0x0123", "0x10000000000000000", -1}[r.N(6)]
		return txt, k.note(c30json(m))
	case 16: // with a bad weight
		m := c30msg(b, 0, 0)
		m["batch"].(map[string]interface{})["weight"] = []interface{}{7, "0x", "x", "-0x1", "0x1" + strings.Repeat("0", 64), []int{}}[r.N(6)]
		return txt, k.note(c30json(m))
	case 17: // with bad batches
		m := c30msg(b, 0, 0)
		m["batch"].(map[string]interface{})["batches"] = []interface{}{7, "x", map[string]interface{}{"p": "0x12"}, map[string]interface{}{"p": 7}, []string{"x"}}[r.N(5)]
		return txt, k.note(c30json(m))
	case 18: // a sub-batch nobody announced
		return txt, k.note(c30json(map[string]interface{}{"type": "subbatch", "subbatch": map[string]interface{}{"hash": []interface{}{b.Hash, mkHash('J', r.U64(), 1)}[r.N(2)], "batchid": mkHash('J', r.U64(), 2), "values": map[string]string{"decoy": "0x01"}}}))
	case 19: // a message cut short
		m := k.note(c30json(c30msg(b, part, 0)))
		return txt, m[:r.N(len(m))]
	case 20: // an envelope with something missing or else
		return txt, []byte(pickS(r, `{"jsonrpc":"2.0","method":"cardinal_subscribe"}`, `{"method":"cardinal_subscribe","params":7}`, `{"method":"cardinal_subscribe","params":{"subscription":7,"result":{"type":"ready"}}}`,
			fmt.Sprintf(`{"method":"cardinal_subscribe","params":{"subscription":"%#x"}}`, k.subid), `{"method":7}`, `{"jsonrpc":"2.0","id":"x","result":"0x1"}`))
	}
	// A long one.
	return txt, []byte(`{"x":"` + strings.Repeat("y", 70000) + `"}`)
}

func pickS(r *core.Rand, xs ...string) string { return xs[r.N(len(xs))] }

func runC30(w *core.World) {
	p := w.Plan
	ww := newWSWorld(w)
	if ww == nil {
		return
	}
	ww.newConsumers(1)
	c := ww.cons[0]
	c.slow = p.P["slow"]
	root := ww.t.byID[0]
	r := core.NewRand(p.Seed ^ 0x6a75)
	s := &c30server{w: w, r: r, conns: make(chan *c30conn, 10)}
	c.host = ww.net.Host(c.name)
	hs := &http.Server{Handler: s}
	go hs.Serve(c.host)
	// Behaviours in place before the first connection.
	ops := p.Ops
	for len(ops) > 0 && (ops[0].K == "b" || ops[0].K == "c" || ops[0].K == "n") {
		if ops[0].K == "n" {
			s.next = append(s.next, ops[0])
		}
		ops = ops[1:]
	}
	if !c.create(root) {
		return
	}
	defer func() { close(c.stop) }()
	c.start()
	var k *c30conn
	maybe, sure := map[*node]bool{root: true}, map[*node]bool{root: true} // complete
	var resumable types.Hash
	resumable = root.hash
	exact := true
	readySent := false
	// connected is the closure of complete blocks from the root.
	connected := func(m map[*node]bool, n *node) bool {
		for ; n != root; n = n.parent {
			if n == nil || !m[n] {
				return false
			}
		}
		return true
	}
	conn := func() bool {
		if k != nil {
			return true
		}
		select {
		case k = <-s.conns:
		case <-time.After(10 * time.Minute):
			w.Fail("stalled", "the consumer does not connect")
			return false
		}
		n := ww.t.byHash[k.hash]
		if n == nil || n.num != k.num || !connected(maybe, n) {
			w.Fail("resumption", "the consumer subscribed from %d %x, which it has not handed out", k.num, k.hash[:4])
			return false
		}
		if exact && k.hash != resumable {
			w.Fail("resumption", "the consumer subscribed from %v, but the last block it handed out is %s", n, c.v.nm(resumable))
			return false
		}
		if n != root {
			w.Probe("resumed-midway")
		}
		return true
	}
	// sync returns once the consumer has read everything sent.
	syncs := 0
	sync := func() bool {
		syncs++
		k.respond()
		id := fmt.Sprint(syncs)
		if err := k.c.WriteControl(websocket.PingMessage, []byte(id), time.Now().Add(time.Minute)); err != nil {
			w.Fail("hung-up", "the consumer hung up on a server that only sends nonsense now and then: %v", err)
			return false
		}
		for {
			select {
			case d := <-k.pongs:
				if d != id {
					continue
				}
			case <-k.gone:
				w.Fail("hung-up", "the consumer hung up on a server that only sends nonsense now and then")
				return false
			case <-time.After(10 * time.Minute):
				w.Fail("stalled", "the consumer does not read what it is sent")
				return false
			}
			for _, n := range ww.t.nodes {
				if n != root && len(k.parts[n]) == len(ww.blks[n.id].Subs)+1 {
					sure[n] = true
				}
			}
			if k.ready {
				readySent = true
			}
			return true
		}
	}
	isReady := func() bool {
		select {
		case <-c.c.Ready():
			return true
		default:
			return false
		}
	}
	mid := func() bool {
		for _, n := range ww.t.nodes {
			if l := len(k.parts[n]); l > 0 && l < len(ww.blks[n.id].Subs)+1 {
				return true
			}
		}
		return false
	}
	everReady := false
	sent := 0
	for _, op := range ops {
		w.Step("%s %v", op.K, op.A)
		switch op.K {
		case "n":
			s.next = append(s.next, op)
		case "m":
			n := ww.t.byID[int(op.Arg(0))]
			if n == nil || !root.ancestorOf(n) || n == root || int(op.Arg(1)) > len(ww.blks[n.id].Subs) {
				continue
			}
			if !conn() {
				return
			}
			part := int(op.Arg(1))
			if k.parts[n] == nil {
				k.parts[n] = map[int]bool{}
			}
			k.parts[n][part] = true
			if len(k.parts[n]) == len(ww.blks[n.id].Subs)+1 {
				maybe[n] = true
			}
			k.send(k.note(c30json(c30msg(ww.blks[n.id], part, op.Arg(2)))))
			sent++
		case "r":
			if !conn() {
				return
			}
			k.ready, everReady = true, true
			k.send(k.note(`{"type":"ready"}`))
		case "j":
			if !conn() {
				return
			}
			jr := core.NewRand(uint64(op.Arg(1)))
			n := ww.t.nodes[jr.N(len(ww.t.nodes))]
			if n == root {
				continue
			}
			if mid() {
				w.Probes["nontrivial"] = 1
			}
			w.Fault("nonsense")
			k.respond()
			kind, b := k.junk(int(op.Arg(0))%c30junk, ww.blks[n.id], jr)
			w.Log("%q", b)
			k.c.WriteMessage(kind, b)
			sent++
		case "k":
			if k == nil {
				continue
			}
			w.Fault("connection-broken")
			exact = false
			if op.Arg(0) == 1 {
				if !sync() {
					return
				}
				time.Sleep(10 * time.Second)
				resumable, exact = c.v.tip(), true
			}
			if op.Arg(1) == 1 {
				k.c.Close()
			} else {
				for _, x := range ww.net.Open(c.name) {
					x.Reset()
				}
			}
			k = nil
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		}
		if w.Failed() {
			return
		}
		if !everReady && isReady() {
			w.Fail("ready", "the consumer is ready though no server said so")
			return
		}
		w.State(core.Mix(int64(s.n), int64(sent), int64(len(maybe)), int64(len(c.pbs))))
	}
	w.Calm()
	w.Step("waiting for the consumer")
	if !conn() || !sync() {
		return
	}
	time.Sleep(10 * time.Second)
	c.check()
	if w.Failed() {
		return
	}
	best := heaviest(root, func(n *node) bool { return sure[n] })
	tip := ww.t.byHash[c.v.tip()]
	if tip == nil || tip.weight.Cmp(best.weight) < 0 {
		w.Fail("missing", "the consumer is at %s, though it got everything up to %v", c.v.nm(c.v.tip()), best)
		return
	}
	if !connected(maybe, tip) {
		w.Fail("invented", "the consumer is at %v, of which not everything was sent", tip)
		return
	}
	for _, pb := range c.pbs {
		if n := ww.t.byHash[pb.Hash]; n == nil || !maybe[n] {
			w.Fail("invented", "the consumer handed out a block of which not everything was sent: %s", pbName(ww.t, pb))
			return
		}
	}
	if readySent && !isReady() {
		w.Fail("ready", "the consumer is not ready though the server said so")
		return
	}
	if !c.started || c.startE != nil {
		w.Fail("start", "Start: returned %v, %v", c.started, c.startE)
		return
	}
	c.c.Close()
}
