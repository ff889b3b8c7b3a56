package props

import (
	"fmt"
	"math/big"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C10", Title: "Large reorgs are announced once and in order", Gen: genLarge, Run: runLarge,
		Rule: "one run = a chain, then an announced reorg to one of its blocks, then another chain from there, possibly repeated, given to a real ordered processor with subscribers of different speeds; non-trivial = the announcement came while earlier blocks were still being handled; a state = (delivered, emitted, announced)",
		Real: chainReal, Stub: chainStub, Floors: map[string]int64{"buf": 0, "rbuf": 0, "slow": 0, "subs": 1}})
}

func genLarge(r *core.Rand, p *core.Plan) {
	p.P["buf"], p.P["rbuf"] = int64(r.Pick(0, 0, 1, 200)), int64(r.Pick(0, 0, 1, 5))
	p.P["slow"] = int64(r.Pick(0, 0, 1, 5))
	p.P["subs"] = int64(r.R(1, 3))
	p.P["threshold"] = int64(r.Pick(3, 8, 64))
	id := 0
	p.Add("b", 0, -1, 1)
	var chain []int
	chain = append(chain, 0)
	first := true
	for k := r.R(1, 3) + 1; k > 0; k-- {
		if !first {
			at := r.N(len(chain))
			if r.P(1, 2) {
				at = maxInt(0, len(chain)-1-r.N(12))
			}
			if r.P(1, 5) {
				p.Add("s", int64(r.Pick(1, 300)))
			}
			p.Add("g", int64(chain[at]))
			chain = append([]int(nil), chain[:at+1]...)
		}
		first = false
		dup := r.Pick(0, 10, 30)
		n := r.Pick(1, 3, 10, 25, 40)
		from := len(chain)
		for i := 0; i < n; i++ {
			id++
			p.Add("b", int64(id), int64(chain[len(chain)-1]), int64(r.Pick(1, 2, 5)))
			p.Add("d", int64(id))
			chain = append(chain, id)
			if r.P(dup, 100) {
				p.Add("d", int64(chain[from+r.N(len(chain)-from)]))
			}
			if r.P(1, 20) {
				p.Add("s", int64(r.Pick(1, 300)))
			}
		}
	}
	p.P["content"] = int64(r.Pick(0, 0, 1, 3))
	if p.P["content"] > 0 && r.P(1, 2) {
		// Parts of some blocks of later branches were sent long before.
		for i := len(p.Ops) - 1; i > 0; i-- {
			if p.Ops[i].K == "g" && r.P(2, 3) {
				// The next "d" is the first block after the reorg.
				for j := i + 1; j < len(p.Ops); j++ {
					if p.Ops[j].K == "d" {
						if r.P(1, 2) {
							at := r.N(i)
							ops := append([]core.Op(nil), p.Ops[:at]...)
							ops = append(ops, core.Op{K: "h", A: []int64{p.Ops[j].Arg(0), int64(r.N(4))}})
							p.Ops = append(ops, p.Ops[at:]...)
							i++
						}
						break
					}
				}
			}
		}
	}
	core.GenSim(r, p, true)
}

func runLarge(w *core.World) {
	p := w.Plan
	t := newTree()
	for _, op := range p.Ops {
		if op.K == "b" {
			t.add(int(op.Arg(0)), int(op.Arg(1)), op.Arg(2), 100)
		}
	}
	root := t.byID[0]
	if root == nil {
		return
	}
	omp, err := delivery.NewOrderedMessageProcessor(&delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: p.P["threshold"], TrackedPrefixes: regexps([]string{".*"})})
	if err != nil {
		w.Fail("config", "valid configuration refused: %v", err)
		return
	}
	stop := make(chan struct{})
	// Each subscriber sees one sequence of updates and announcements. The
	// expected sequence is fixed by the order of delivery.
	type ev struct {
		reorg bool
		hash  types.Hash
		num   int64
	}
	var want []ev
	subs := make([][]ev, p.P["subs"])
	bad := make([]string, p.P["subs"])
	for i := range subs {
		i := i
		// Unbuffered announcements and updates make their order observable.
		cch := make(chan *delivery.ChainUpdate)
		rch := make(chan map[int64]types.Hash)
		if i > 0 {
			cch = make(chan *delivery.ChainUpdate, p.P["buf"])
			rch = make(chan map[int64]types.Hash, p.P["rbuf"])
		}
		omp.Subscribe(cch)
		omp.SubscribeReorg(rch)
		go func() {
			for {
				select {
				case u := <-cch:
					if len(u.Removed()) > 0 && bad[i] == "" {
						bad[i] = fmt.Sprintf("an update removed %s", names(t, u.Removed()))
					}
					for _, pb := range u.Added() {
						subs[i] = append(subs[i], ev{false, pb.Hash, pb.Number})
					}
					if p.P["slow"] > 0 {
						time.Sleep(time.Duration(p.P["slow"]) * time.Millisecond)
					}
					u.Done()
				case m := <-rch:
					for n, h := range m {
						subs[i] = append(subs[i], ev{true, h, n})
					}
				case <-stop:
					return
				}
			}
		}()
	}
	dp, err := delivery.NewProducer(mainTopic, schemas[1])
	if err != nil {
		panic("refused what has to work: " + err.Error())
	}
	tip := root
	off := int64(0)
	send := func(m *Msg) bool {
		off++
		if err := omp.ProcessMessage(m.at("t:0", off)); err != nil {
			w.Fail("rejected", "a well-formed message was rejected: %v", err)
			return false
		}
		return true
	}
	delivered := map[int]bool{}
	upd := func(n *node) map[string][]byte {
		u := map[string][]byte{}
		for i := int64(0); i < p.P["content"]; i++ {
			u[fmt.Sprintf("acct/k%d", i)] = []byte{byte(n.id), byte(i)}
		}
		return u
	}
	for _, op := range p.Ops {
		switch op.K {
		case "d":
			n := t.byID[int(op.Arg(0))]
			if n == nil || n.parent == nil {
				continue
			}
			if !delivered[n.id] {
				if n.parent != tip {
					continue
				}
				tip = n
				delivered[n.id] = true
				want = append(want, ev{false, n.hash, n.num})
			} else {
				// A duplicate, of a block on the current branch only.
				if !n.ancestorOf(tip) {
					continue
				}
				w.Faults["duplicate"]++
			}
			w.Step("deliver %v", n)
			for _, m := range headerMsgs(dp, n, upd(n)) {
				if !send(m) {
					return
				}
			}
		case "h":
			n := t.byID[int(op.Arg(0))]
			if n == nil || n.parent == nil || delivered[n.id] {
				continue
			}
			ms := headerMsgs(dp, n, upd(n))
			skip := int(op.Arg(1)) % len(ms)
			w.Step("deliver %v but for message %d", n, skip)
			for i, m := range ms {
				if i != skip && !send(m) {
					return
				}
			}
			w.Faults["incomplete"]++
		case "g":
			n := t.byID[int(op.Arg(0))]
			if n == nil || n == tip || !n.ancestorOf(tip) || (n != root && !delivered[n.id]) {
				continue
			}
			x := dp.Reorg(n.num, n.hash)
			w.Step("announce reorg to %v", n)
			w.Faults["announced-reorg"]++
			if len(subs[0]) < len(want) {
				w.Faults["announced-while-handling"]++
				w.Probes["nontrivial"] = 1
			}
			want = append(want, ev{true, n.hash, n.num})
			tip = n
			if !send(&Msg{key: x.Key(), value: x.Value()}) {
				return
			}
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		}
		w.State(core.Mix(int64(len(want)), int64(len(subs[0])), int64(w.Faults["announced-reorg"])))
	}
	w.Calm()
	time.Sleep(3 * time.Second)
	for i := range subs {
		got := subs[i]
		if i > 0 {
			// Buffers hide the order between the two kinds of events.
			for _, kind := range []bool{false, true} {
				a, b := pick(got, func(e ev) bool { return e.reorg == kind }), pick(want, func(e ev) bool { return e.reorg == kind })
				if fmt.Sprint(a) != fmt.Sprint(b) {
					w.Fail("sequence", "subscriber %d (reorgs: %v): got %d events, want %d; first difference %s", i, kind, len(a), len(b), firstDiff(a, b, func(e ev) string { return t.byHash[e.hash].String() }))
					return
				}
			}
			continue
		}
		if bad[i] != "" {
			w.Fail("removed", "subscriber %d: %s", i, bad[i])
			return
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			w.Fail("sequence", "subscriber %d: got %d events, want %d; first difference %s", i, len(got), len(want), firstDiff(got, want, func(e ev) string {
				s := "unknown"
				if n := t.byHash[e.hash]; n != nil {
					s = n.String()
				}
				if e.reorg {
					s = "reorg to " + s
				}
				return s
			}))
			return
		}
	}
	close(stop)
	omp.Close()
}

func pick[E any](s []E, f func(E) bool) []E {
	var o []E
	for _, e := range s {
		if f(e) {
			o = append(o, e)
		}
	}
	return o
}

func firstDiff[E comparable](a, b []E, f func(E) string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = f(a[i])
		}
		if i < len(b) {
			y = f(b[i])
		}
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			return fmt.Sprintf("at %d: got %s, want %s", i, x, y)
		}
	}
	return "none"
}
