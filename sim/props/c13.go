package props

import (
	"math/big"
	"runtime"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C13", Title: "Subscribers see the same updates and closing loses none", Gen: genSubs, Run: runSubs,
		Rule: "one run = blocks delivered to a real ordered processor while subscribers of different kinds, buffers and speeds join, stall, leave and the processor is closed; non-trivial = a subscriber left while it was holding up an update; a state = (subscribers present, delivered, received)",
		Real: chainReal, Stub: chainStub, Floors: map[string]int64{"close": 0}})
}

func genSubs(r *core.Rand, p *core.Plan) {
	ids := genTree(r, p, r.Pick(2, 5, 10, 20), r.Pick(0, 0, 1, 3), 2, 0)
	order := shuffled(r, ids, r.Pick(0, 0, 1, 3))
	n := r.R(1, 5)
	p.P["close"] = int64(r.N(2))
	p.P["threshold"] = int64(r.Pick(32, 64))
	p.P["split"] = int64(r.N(2))
	next := 0
	join := func() {
		if next < n {
			// kind, buffer, delay per item (ms)
			p.Add("j", int64(next), int64(r.Pick(0, 0, 0, 1)), int64(r.Pick(0, 0, 1, 5, 100)), int64(r.Pick(0, 0, 3, 40)))
			next++
		}
	}
	if r.P(1, 2) {
		join()
	}
	for i, x := range order {
		for r.P(1, 3) {
			switch r.N(5) {
			case 0, 1:
				join()
			case 2:
				if next > 0 {
					p.Add("l", int64(r.N(next)), int64(r.Pick(0, 0, 3, 50)))
				}
			case 3:
				if next > 0 {
					p.Add("z", int64(r.N(next)), int64(r.Pick(1, 30, 400, 2000)))
				}
			case 4:
				p.Add("s", int64(r.Pick(1, 10, 300)))
			}
		}
		p.Add("d", int64(x))
		if r.P(1, 8) {
			p.Add("d", int64(order[r.N(i+1)]))
		}
	}
	core.GenSim(r, p, true)
}

// tap is one subscriber: what it received and when it was subscribed, in terms
// of the number of blocks delivered.
type tap struct {
	id               int
	kind             int64 // 0 chain updates, 1 batches
	ups              []*delivery.ChainUpdate
	upsAt            []int // blocks in the update when it was received
	pbs              []*delivery.PendingBatch
	joined           int // blocks delivered before Subscribe was called
	leaving, left    int // blocks whose delivery began before Unsubscribe was called, returned
	gone             bool
	sub              types.Subscription
	stalled, stop    bool
	wake             chan struct{}
	unsubbed, reader chan struct{}
}

func runSubs(w *core.World) {
	p := w.Plan
	t := newTree()
	for _, op := range p.Ops {
		if op.K == "b" {
			t.add(int(op.Arg(0)), int(op.Arg(1)), op.Arg(2), 700)
		}
	}
	root := t.byID[0]
	if root == nil {
		return
	}
	base := runtime.NumGoroutine()
	omp, err := delivery.NewOrderedMessageProcessor(&delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: p.P["threshold"], TrackedPrefixes: regexps([]string{".*"})})
	if err != nil {
		w.Fail("config", "valid configuration refused: %v", err)
		return
	}
	began := 0 // blocks whose delivery began, in order of position
	pos := map[types.Hash]int{}
	var all []*tap
	byID := map[int]*tap{}
	join := func(id int, kind, buf, delay int64) *tap {
		tp := &tap{id: id, kind: kind, leaving: 1 << 30, left: 1 << 30, wake: make(chan struct{}), unsubbed: make(chan struct{}), reader: make(chan struct{})}
		all = append(all, tp)
		byID[id] = tp
		quit := tp.unsubbed
		pause := func() bool {
			if tp.stalled {
				<-quit
				return false
			}
			if delay > 0 {
				time.Sleep(time.Duration(delay) * time.Millisecond)
			}
			return true
		}
		tp.joined = began
		if kind == 0 {
			ch := make(chan *delivery.ChainUpdate, buf)
			tp.sub = omp.Subscribe(ch)
			go func() {
				defer close(tp.reader)
				for {
					select {
					case u := <-ch:
						tp.ups = append(tp.ups, u)
						tp.upsAt = append(tp.upsAt, len(u.Added())*1000+len(u.Removed()))
						if !pause() {
							return
						}
					case <-quit:
						return
					}
				}
			}()
		} else {
			ch := make(chan *delivery.PendingBatch, buf)
			tp.sub = omp.Subscribe(ch)
			go func() {
				defer close(tp.reader)
				for {
					select {
					case u := <-ch:
						tp.pbs = append(tp.pbs, u)
						if !pause() {
							return
						}
					case <-quit:
						return
					}
				}
			}()
		}
		if tp.sub == nil {
			w.Fail("no-subscription", "Subscribe returned no subscription")
		}
		tp.joined = began
		return tp
	}
	leave := func(tp *tap) {
		if tp.gone {
			return
		}
		tp.gone = true
		tp.leaving = began
		w.Log("leave %d", tp.id)
		tp.sub.Unsubscribe()
		tp.left = began
		w.Log("left %d", tp.id)
		close(tp.unsubbed)
	}
	cu := join(-1, 0, 0, 0)
	cb := join(-2, 1, 0, 0)
	dp, err := delivery.NewProducer(mainTopic, schemas[1])
	if err != nil {
		panic("refused what has to work: " + err.Error())
	}
	off := int64(0)
	pend := 0
	for _, op := range p.Ops {
		switch op.K {
		case "j":
			if byID[int(op.Arg(0))] == nil {
				w.Log("join %d", op.Arg(0))
				join(int(op.Arg(0)), op.Arg(1), op.Arg(2), op.Arg(3))
			}
		case "l", "z":
			tp := byID[int(op.Arg(0))]
			if tp == nil || tp.gone || tp.stalled || tp.id < 0 {
				continue
			}
			if op.K == "z" {
				// Stops reading, and gives up its subscription later.
				tp.stalled = true
				w.Faults["stalled-subscriber"]++
				w.Probes["nontrivial"] = 1
			} else {
				w.Faults["leaving-subscriber"]++
			}
			d := time.Duration(op.Arg(1)) * time.Millisecond
			if d == 0 {
				leave(tp)
				continue
			}
			pend++
			go func() {
				time.Sleep(d)
				leave(tp)
				pend--
			}()
		case "d":
			n := t.byID[int(op.Arg(0))]
			if n == nil || n == root {
				continue
			}
			w.Step("deliver %v", n)
			w.Log("deliver %v", n)
			began++
			if _, ok := pos[n.hash]; !ok {
				pos[n.hash] = began
			}
			upd := map[string][]byte{}
			if p.P["split"] == 1 {
				upd["acct/1"] = []byte{1}
			}
			for _, m := range headerMsgs(dp, n, upd) {
				off++
				if err := omp.ProcessMessage(m.at("t:0", off)); err != nil {
					w.Fail("rejected", "a well-formed message was rejected: %v", err)
					return
				}
			}
			w.State(core.Mix(int64(len(all)), int64(began), int64(len(cu.ups))))
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		}
		if w.Failed() {
			return
		}
	}
	if p.P["close"] == 1 {
		w.Step("Close")
		w.Faults["close"]++
		at := w.Now()
		omp.Close()
		if p.Sim.StallP == 0 && w.Now() > at+10*time.Second {
			w.Fail("slow-close", "Close took %v", w.Now()-at)
		}
	}
	w.Calm()
	time.Sleep(10 * time.Second)
	if pend > 0 {
		w.Fail("stuck-unsubscribe", "%d calls of Unsubscribe have not returned", pend)
		return
	}
	// Every block that was delivered must have been handed out.
	seen := map[types.Hash]int{}
	for i, pb := range cb.pbs {
		if _, ok := seen[pb.Hash]; ok {
			w.Fail("repeated", "%s was handed out twice", pbName(t, pb))
			return
		}
		seen[pb.Hash] = i
	}
	for _, n := range t.nodes {
		if _, ok := pos[n.hash]; ok {
			if _, ok := seen[n.hash]; !ok {
				w.Fail("lost-batch", "%v was delivered and never handed to a subscriber of batches", n)
				return
			}
		}
	}
	idx := map[*delivery.ChainUpdate]int{}
	maxpos := make([]int, len(cu.ups)) // position of the delivery that caused an update at the earliest
	minpos := make([]int, len(cu.ups))
	v := newView(t, root)
	for i, u := range cu.ups {
		if _, ok := idx[u]; ok {
			w.Fail("repeated", "update %d was sent twice", i)
			return
		}
		idx[u] = i
		minpos[i] = 1 << 30
		for _, pb := range u.Added() {
			if x := pos[pb.Hash]; x > maxpos[i] {
				maxpos[i] = x
			}
			if x := pos[pb.Hash]; x < minpos[i] {
				minpos[i] = x
			}
		}
		if c, s := v.apply(u, false); c != "" {
			w.Fail(c, "update %d: %s", i, s)
			return
		}
	}
	best := heaviest(root, func(n *node) bool { _, ok := pos[n.hash]; return ok })
	if v.head.Cmp(best.weight) < 0 {
		w.Fail("lost-update", "everything was delivered and the subscriber stays at %s, the heaviest is %v", v.nm(v.tip()), best)
		return
	}
	for _, tp := range all {
		for i, u := range tp.ups {
			if len(u.Added())*1000+len(u.Removed()) != tp.upsAt[i] {
				w.Fail("changed", "subscriber %d: update %d changed after it was received", tp.id, i)
				return
			}
		}
		if tp == cu || tp == cb {
			continue
		}
		var got []int
		total := len(cu.ups)
		high, low := maxpos, minpos
		if tp.kind == 0 {
			for _, u := range tp.ups {
				i, ok := idx[u]
				if !ok {
					w.Fail("different", "subscriber %d received an update (adding %s) that another never did", tp.id, names(t, u.Added()))
					return
				}
				got = append(got, i)
			}
		} else {
			total = len(cb.pbs)
			high = nil
			for _, pb := range cb.pbs {
				high = append(high, pos[pb.Hash])
			}
			low = high
			for _, pb := range tp.pbs {
				i, ok := seen[pb.Hash]
				if !ok || cb.pbs[i] != pb {
					w.Fail("different", "subscriber %d received a batch (%s) that another never did", tp.id, pbName(t, pb))
					return
				}
				got = append(got, i)
			}
		}
		for k := 1; k < len(got); k++ {
			if got[k] != got[k-1]+1 {
				w.Fail("gap", "subscriber %d received item %d after item %d", tp.id, got[k], got[k-1])
				return
			}
		}
		first, last := total, -1
		if len(got) > 0 {
			first, last = got[0], got[len(got)-1]
		}
		for i := 0; i < total; i++ {
			// Whatever was delivered after it joined and could be received.
			if high[i] > tp.joined && i < first && !(tp.stalled || tp.gone) {
				w.Fail("missed", "subscriber %d, who joined after %d deliveries, never received item %d, caused by delivery %d", tp.id, tp.joined, i, high[i])
				return
			}
			if high[i] > tp.joined && i < first && last >= 0 {
				w.Fail("missed", "subscriber %d, who joined after %d deliveries, received item %d first, not %d, caused by delivery %d", tp.id, tp.joined, first, i, high[i])
				return
			}
			if i > last && high[i] > tp.joined && !(tp.stalled || tp.gone) {
				w.Fail("missed", "subscriber %d never received item %d of %d", tp.id, i, total)
				return
			}
			if i <= last && i >= first && low[i] > tp.left {
				w.Fail("after-leaving", "subscriber %d received item %d, caused by delivery %d, although it had left after %d", tp.id, i, low[i], tp.left)
				return
			}
		}
	}
	// With nobody left, a closed processor has nothing left to do.
	for _, tp := range all {
		leave(tp)
	}
	if p.P["close"] != 1 {
		w.Step("Close")
		omp.Close()
	}
	time.Sleep(10 * time.Second)
	if n := runtime.NumGoroutine(); n > base {
		w.Fail("goroutines", "%d goroutines are left after everybody has left and the processor was closed", n-base)
	}
	w.Probe("goroutines-checked")
}
