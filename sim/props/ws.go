package props

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"reflect"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	rpc "github.com/openrelayxyz/cardinal-rpc"
	rpctransports "github.com/openrelayxyz/cardinal-rpc/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

var wsReal = []string{"websocket producer and consumer (transports/websockets.go)", "cardinal-rpc registry and websocket server", "gorilla/websocket, net/http server", "delivery.OrderedMessageProcessor, MessageProcessor"}
var wsStub = []string{"resumer: the harness's block database", "network: in-memory connections with latency, resets and cuts", "clock and scheduler: simulated"}

func init() {
	core.Resets = append(core.Resets, func() {
		rpc.SimReset()
		websocket.DefaultDialer.NetDial = func(string, string) (net.Conn, error) {
			panic("HARNESS: dial outside a simulated network")
		}
		rpctransports.SimListen = func(*http.Server) error {
			panic("HARNESS: listen outside a simulated network")
		}
	})
}

// wsWorld is a producing application (a chain database and a websocket
// producer), a network and consuming applications.
type wsWorld struct {
	w    *core.World
	p    *core.Plan
	t    *tree
	blks map[int]*Blk
	net  *core.Net

	// The application's database; it survives the application.
	have  map[types.Hash]*node
	head  *node
	canon map[int64]*node

	prod      transports.Producer
	up        bool
	inc       int
	cons      []*wsConsumer
	raws      []*wsRaw
	resErrs   int // how many of the next resumptions fail
	listening chan struct{}
	resuming  int // resumptions going on
	resCtx    []context.Context
	resSlow   int64 // ms per block
	resBuf    int64
	pause     func()
	resolve   func() (transports.Producer, error)
	noServer  bool                // the application has no websocket producer
	refused   map[types.Hash]bool // blocks of which publishing failed
}

func newWSWorld(w *core.World) *wsWorld {
	p := w.Plan
	t, blks := newTree(), map[int]*Blk{}
	t.wbase = weightBase(p.P["wbase"])
	cs := map[int]content{}
	for _, op := range p.Ops {
		switch op.K {
		case "b":
			t.add(int(op.Arg(0)), int(op.Arg(1)), op.Arg(2), p.P["base"])
		case "c":
			cs[int(op.Arg(0))] = content{uint64(op.Arg(1)), int(op.Arg(2)), int(op.Arg(3)), int(op.Arg(4))}
		}
	}
	if t.byID[0] == nil {
		return nil
	}
	for _, n := range t.nodes {
		blks[n.id] = blkOf(n, cs[n.id])
	}
	for _, op := range p.Ops {
		if n := t.byID[int(op.Arg(0))]; op.K == "big" && n != nil {
			bigBlock(blks[n.id], op.Arg(1), int(op.Arg(2)))
			w.Probe("big-block")
		}
	}
	return wsOver(w, t, blks)
}

// wsOver is a wsWorld for existing blocks.
func wsOver(w *core.World, t *tree, blks map[int]*Blk) *wsWorld {
	p := w.Plan
	ww := &wsWorld{w: w, p: p, t: t, blks: blks, have: map[types.Hash]*node{}, canon: map[int64]*node{}}
	root := ww.t.byID[0]
	ww.have[root.hash], ww.head, ww.canon[root.num] = root, root, root
	ww.net = core.NewNet(w, core.NewRand(p.Seed^0x7773))
	if p.P["cap"] > 0 {
		ww.net.Cap = int(p.P["cap"])
	}
	ww.resSlow, ww.resBuf = p.P["resslow"], p.P["resbuf"]
	ww.pause = func() {}
	websocket.DefaultDialer.NetDial = func(_, a string) (net.Conn, error) {
		name := strings.TrimSuffix(a, ":8546")
		return ww.net.Dial("x"+name, name, 0)
	}
	rpctransports.SimListen = func(s *http.Server) error {
		if s.Addr != ":8546" || ww.listening == nil {
			return errors.New("unexpected server")
		}
		var hs []*core.Host
		for _, c := range ww.cons {
			hs = append(hs, c.host)
		}
		for _, c := range ww.raws {
			hs = append(hs, c.host)
		}
		for _, h := range hs {
			h := h
			go s.Serve(h)
		}
		close(ww.listening)
		select {}
	}
	return ww
}

// store puts a block into the application's database.
func (ww *wsWorld) store(n *node) (reorg bool) {
	ww.have[n.hash] = n
	if n.weight.Cmp(ww.head.weight) > 0 {
		reorg = n.parent != ww.head
		ww.head = n
		if !reorg {
			ww.canon[n.num] = n
			return false
		}
		canon := map[int64]*node{}
		for m := n; m != nil; m = m.parent {
			canon[m.num] = m
		}
		ww.canon = canon
	}
	return reorg
}

func (ww *wsWorld) full(n *node) *delivery.PendingBatch {
	b := ww.blks[n.id]
	want := b.want(newSchemaRef(map[string]string{}), regexps([]string{".*"}))
	pb := &delivery.PendingBatch{Number: n.num, Hash: n.hash, ParentHash: n.phash, Weight: new(big.Int).Set(n.weight), Values: map[string][]byte{}, Deletes: map[string]struct{}{}}
	for k, v := range want.Values {
		pb.Values[k] = v
	}
	for k := range want.Deletes {
		pb.Deletes[k] = struct{}{}
	}
	return pb
}

// wsResumer is the application's side of resumption, as its interface and
// websockets.md describe it.
type wsResumer struct{ ww *wsWorld }

func (r *wsResumer) GetBlock(ctx context.Context, num uint64) *delivery.PendingBatch {
	if n := r.ww.canon[int64(num)]; n != nil {
		return r.ww.full(n)
	}
	return nil
}

func (r *wsResumer) BlocksFrom(ctx context.Context, num uint64, hash types.Hash) (chan *delivery.PendingBatch, error) {
	ww := r.ww
	if ww.resErrs > 0 {
		ww.resErrs--
		ww.w.Fault("resumer-error")
		return nil, errors.New("database unavailable")
	}
	if ww.resSlow > 0 && ww.w.Rand.P(1, 2) {
		time.Sleep(time.Duration(ww.w.Rand.N(int(ww.resSlow)+1)) * time.Millisecond)
	}
	from := int64(num)
	if n := ww.canon[from]; n == nil || n.hash != hash {
		ww.w.Probe("resumed-off-chain")
		if from -= 64; from < ww.t.byID[0].num {
			from = ww.t.byID[0].num
		}
	}
	ww.resCtx = append(ww.resCtx, ctx)
	ww.w.Log("resume from %d", from)
	ch := make(chan *delivery.PendingBatch, ww.resBuf)
	ww.resuming++
	go func() {
		defer func() { ww.resuming--; close(ch) }()
		for n := from; ; n++ {
			if ctx.Err() != nil {
				return
			}
			b := ww.canon[n]
			if b == nil {
				return
			}
			if ww.resSlow > 0 {
				time.Sleep(time.Duration(ww.w.Rand.N(int(ww.resSlow)+1)) * time.Millisecond)
			}
			select {
			case ch <- ww.full(b):
			case <-ctx.Done():
				return
			}
		}
	}()
	return ch, nil
}

// boot starts the application's producer.
func (ww *wsWorld) boot() bool {
	ww.inc++
	for _, c := range ww.cons {
		c.host = ww.net.Host(c.name)
	}
	for _, c := range ww.raws {
		c.host = ww.net.Host(c.name)
	}
	ww.listening = make(chan struct{})
	resolve := ww.resolve
	if resolve == nil {
		resolve = func() (transports.Producer, error) {
			return wsProducer(ww, &wsResumer{ww})
		}
	}
	p, err := resolve()
	if err != nil {
		ww.w.Fail("producer-error", "a producer could not be created: %v", err)
		return false
	}
	if ww.noServer {
		ww.prod, ww.up = p, true
		return true
	}
	// A producer of an earlier incarnation must not get this one's hosts.
	select {
	case <-ww.listening:
	case <-time.After(time.Minute):
		ww.w.Fail("producer-error", "a websocket producer did not listen")
		return false
	}
	ww.prod, ww.up = p, true
	ww.w.Log("boot %d", ww.inc)
	return true
}

// crash ends the application; its database stays.
func (ww *wsWorld) crash() {
	ww.w.Fault("producer-crash")
	ww.up = false
	for _, c := range ww.cons {
		c.host.SetDown(true)
	}
	for _, c := range ww.raws {
		c.host.SetDown(true)
	}
}

// announce publishes a block; it stops after some calls when the application
// crashes there.
func (ww *wsWorld) announce(n *node, steps *int) error {
	b := ww.blks[n.id]
	if *steps--; *steps < 0 {
		return nil
	}
	batches := map[string]types.Hash{}
	for _, s := range b.Subs {
		batches[s.key] = s.id
	}
	if err := ww.prod.AddBlock(b.Num, b.Hash, b.Parent, new(big.Int).Set(b.Weight), b.Updates, b.Deletes, batches); err != nil {
		return fmt.Errorf("AddBlock(%v): %v", n, err)
	}
	for _, s := range b.Subs {
		if *steps--; *steps < 0 {
			return nil
		}
		ww.pause()
		if err := ww.prod.SendBatch(s.id, s.deletes, s.updates); err != nil {
			return fmt.Errorf("SendBatch of %v: %v", n, err)
		}
	}
	return nil
}

// add stores a block and publishes it; when it changes the chain, the whole
// new branch is published.
func (ww *wsWorld) add(n *node, steps int) {
	if ww.have[n.hash] != nil || n.parent == nil || ww.have[n.phash] == nil {
		return
	}
	old := ww.head
	list := []*node{n}
	if ww.store(n) {
		ww.w.Fault("reorg")
		for m := n.parent; m != nil && !m.ancestorOf(old); m = m.parent {
			list = append([]*node{m}, list...)
		}
	}
	ww.w.Log("add %v", n)
	for _, m := range list {
		if err := ww.announce(m, &steps); err != nil {
			ww.w.Fail("producer-error", "publishing a block failed: %v", err)
			return
		}
	}
	if steps < 0 {
		ww.crash()
	}
}

// wsConsumer is a consuming application.
type wsConsumer struct {
	ww      *wsWorld
	name    string
	host    *core.Host
	c       transports.Consumer
	root    *node
	v       *view
	fol     *follower
	pbs     []*delivery.PendingBatch
	got     map[types.Hash]int
	stop    chan struct{}
	started bool // Start has returned
	startE  error
	closed  bool
	slow    int64
	startAt *node // head when Start was called
	readyAt time.Duration
	gen     int
	class   string
	bad     string
	onPB    func(*delivery.PendingBatch)
}

func (ww *wsWorld) newConsumers(n int) {
	for i := 0; i < n; i++ {
		c := &wsConsumer{ww: ww, name: fmt.Sprintf("c%d-srv", i)}
		c.host = ww.net.Host(c.name)
		c.host.SetDown(true)
		ww.cons = append(ww.cons, c)
	}
}

// create makes a consumer that knows the chain up to root.
func (c *wsConsumer) create(root *node) bool {
	ww := c.ww
	cfg := &delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: 64, TrackedPrefixes: regexps([]string{".*"})}
	k, err := wsClient(ww, c.name, cfg)
	if err != nil {
		ww.w.Fail("consumer-error", "a websocket consumer could not be created: %v", err)
		return false
	}
	c.gen++
	c.c, c.root, c.closed, c.started, c.startE, c.stop, c.got, c.readyAt = k, root, false, false, nil, make(chan struct{}), map[types.Hash]int{}, 0
	pch := make(chan *delivery.PendingBatch, int(ww.p.P["buf"]))
	cch := make(chan *delivery.ChainUpdate, int(ww.p.P["buf"]))
	k.Subscribe(pch)
	k.Subscribe(cch)
	gen := c.gen
	c.v = newView(ww.t, root)
	c.fol = &follower{v: c.v, delay: func() time.Duration { return time.Duration(c.slow) * time.Millisecond }, fail: func(cl, s string) {
		if cl == "weight-decreased" || cl == "needless-reorg" || c.gen != gen {
			return
		}
		if c.bad == "" {
			c.class, c.bad = cl, s
		}
	}}
	go c.fol.run(cch, c.stop, false)
	stop, got := c.stop, c.got
	go func() {
		for {
			select {
			case pb := <-pch:
				if c.gen == gen {
					c.pbs = append(c.pbs, pb)
				}
				got[pb.Hash]++
				if c.onPB != nil {
					c.onPB(pb)
				}
				if c.slow > 0 {
					time.Sleep(time.Duration(c.slow) * time.Millisecond / 2)
				}
			case <-stop:
				return
			}
		}
	}()
	ww.w.Log("consumer %s from %v", c.name, root)
	return true
}

// start calls Start without waiting for it.
func (c *wsConsumer) start() {
	k, gen := c.c, c.gen
	c.startAt = c.ww.head
	go func() {
		err := k.Start()
		if c.gen == gen {
			c.started, c.startE = true, err
		}
	}()
}

// check compares everything handed out with what was produced.
func (c *wsConsumer) check() {
	w := c.ww.w
	if c.bad != "" {
		w.Fail(c.class, "consumer %s: %s", c.name, c.bad)
		return
	}
	ref := newSchemaRef(map[string]string{})
	all := regexps([]string{".*"})
	for _, pb := range c.pbs {
		n := c.ww.t.byHash[pb.Hash]
		if n == nil && c.ww.refused[pb.Hash] {
			continue
		}
		if n == nil {
			w.Fail("unknown-block", "consumer %s was given a block nobody produced: %x", c.name, pb.Hash)
			return
		}
		b := c.ww.blks[n.id]
		if d := b.diffMeta(pb); d != "" {
			w.Fail("content", "consumer %s was given %v with %s", c.name, n, d)
			return
		}
		if d := b.want(ref, all).diff(pb); d != "" {
			w.Fail("content", "consumer %s was given %v: %s", c.name, n, d)
			return
		}
	}
}

// wsRaw is a client of the harness's own.
type wsRaw struct {
	ww   *wsWorld
	name string
	host *core.Host
	conn *websocket.Conn
	msgs int
}

func (ww *wsWorld) newRaws(n int) {
	for i := 0; i < n; i++ {
		ww.raws = append(ww.raws, &wsRaw{ww: ww, name: fmt.Sprintf("r%d-srv", i)})
	}
}

func (r *wsRaw) dial() error {
	var err error
	r.conn, _, err = websocket.DefaultDialer.Dial("ws://"+r.name+":8546", nil)
	return err
}

func (r *wsRaw) subscribe(num int64, hash types.Hash) error {
	call, err := rpc.NewCall("cardinal_subscribe", "streams", fmt.Sprintf("%#x", num), hash)
	if err != nil {
		panic("HARNESS: " + err.Error())
	}
	return r.conn.WriteJSON(call)
}

// read takes messages until the connection ends or enough were read.
func (r *wsRaw) read(max int) {
	for ; max > 0; max-- {
		if _, _, err := r.conn.ReadMessage(); err != nil {
			return
		}
		r.msgs++
	}
}

// settled is the newest block that no block still to come can displace.
func (ww *wsWorld) settled() *node {
	f := ww.head
	for _, n := range ww.t.nodes {
		for ww.have[n.hash] == nil && f != nil && !f.ancestorOf(n) {
			f = f.parent
		}
	}
	if f == nil {
		return ww.t.byID[0]
	}
	return f
}

// wsProducer creates a producer, which may be a multiplexed one.
func wsProducer(ww *wsWorld, r transports.StreamsResumption) (transports.Producer, error) {
	if ww.p.P["mux"]&1 != 0 {
		return gotP(transports.ResolveMuxProducer([]transports.ProducerBrokerParams{{URL: "cardinal://ws://0.0.0.0:8546"}}, r))
	}
	return gotP(transports.ResolveProducerWithResumer("cardinal://ws://0.0.0.0:8546", mainTopic, nil, r))
}

// wsClient creates a consumer, which may be a multiplexed one.
func wsClient(ww *wsWorld, name string, cfg *delivery.ConsumerConfig) (transports.Consumer, error) {
	if ww.p.P["mux"]&2 != 0 {
		return gotC(transports.ResolveMuxConsumer([]transports.BrokerParams{{URL: "cardinal://ws://" + name + ":8546"}}, nil, cfg))
	}
	return gotC(transports.ResolveConsumer("cardinal://ws://"+name+":8546", mainTopic, nil, nil, 0, cfg))
}

// gotC and gotP make sure that something was created unless there is an error.
func gotC(c transports.Consumer, err error) (transports.Consumer, error) {
	if v := reflect.ValueOf(c); err == nil && (c == nil || v.Kind() == reflect.Ptr && v.IsNil()) {
		return nil, errors.New("no consumer was created, and there was no error")
	}
	return c, err
}

func gotP(p transports.Producer, err error) (transports.Producer, error) {
	if v := reflect.ValueOf(p); err == nil && (p == nil || v.Kind() == reflect.Ptr && v.IsNil()) {
		return nil, errors.New("no producer was created, and there was no error")
	}
	return p, err
}

func genWS(r *core.Rand, p *core.Plan, main int) []int {
	p.P["base"] = int64(r.Pick(0, 1, 1000, 1<<40))
	p.P["wbase"] = int64(r.Pick(0, 0, 0, 1, 2, 3, 4, 5))
	p.P["consumers"] = int64(r.Pick(1, 1, 2, 3))
	p.P["mux"] = int64(r.Pick(0, 0, 0, 1, 2, 3))
	p.P["buf"] = int64(r.Pick(0, 1, 100))
	p.P["resslow"] = int64(r.Pick(0, 0, 1, 5, 40))
	p.P["resbuf"] = int64(r.Pick(0, 0, 1, 100))
	p.P["cap"] = int64(r.Pick(0, 0, 300, 5000))
	ids := genTree(r, p, main, r.Pick(0, 1, 2, 3), r.Pick(1, 2, 4), 0)
	big := r.Pick(0, 0, 2, 5)
	for _, id := range ids {
		p.Add("c", int64(id), int64(r.U64()>>1), int64(r.N(2+big)), int64(r.N(1+big)), int64(r.Pick(0, 0, 0, 1, 2)))
	}
	return ids
}
