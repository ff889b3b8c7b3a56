package props

import (
	"fmt"
	"math/big"
	"regexp"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C31", Title: "What cannot be carried is refused and leaves no trace", Gen: genC31, Run: runC31, MaxSim: time.Hour,
		Rule: "one run = a real producer is given valid blocks and, anywhere between their calls, blocks that cannot be carried, sub-batches it does not know, and producers and consumers with unusable configurations are created; all valid messages go to a real consumer; the order in which maps are iterated is drawn from the seed; non-trivial = a call was refused between the calls of a valid block; a state = (calls made, calls refused, blocks begun)",
		Real: deliveryReal, Stub: []string{"broker and network: messages are handed on in order"}, Floors: map[string]int64{"schema": 0}})
}

func genC31(r *core.Rand, p *core.Plan) {
	p.P["schema"] = int64(r.N(len(schemas)))
	p.P["base"] = int64(r.Pick(0, 1, 1000))
	nb := r.R(1, 6)
	bad := func() {
		switch r.N(8) {
		case 0:
			p.Add("batch", int64(r.N(nb+2)), int64(r.N(4)))
		case 1:
			p.Add("schema", int64(r.N(7)), int64(r.U64()>>1))
		case 2:
			p.Add("cfg", int64(r.N(4)))
		default:
			p.Add("bad", int64(r.N(nb)), int64(1+r.N(15)), int64(r.U64()>>1))
		}
	}
	for i := 0; i < nb; i++ {
		ns := r.Pick(0, 1, 2, 3)
		p.Add("blk", int64(i), int64(r.U64()>>1), int64(r.Pick(0, 1, 3, 6)), int64(r.Pick(0, 1, 3)), int64(ns))
		for r.P(1, 2) {
			bad()
		}
		p.Add("add", int64(i))
		if r.P(1, 8) {
			p.Add("add", int64(i))
		}
		for _, k := range r.Perm(ns) {
			for r.P(1, 3) {
				bad()
			}
			p.Add("sub", int64(i), int64(k))
		}
	}
	for r.P(1, 2) {
		bad()
	}
	core.GenSim(r, p, false)
}

func runC31(w *core.World) {
	p := w.Plan
	schema := schemas[p.P["schema"]]
	ref := newSchemaRef(schema)
	all := regexps([]string{".*"})
	dp, err := delivery.NewProducer(mainTopic, schema)
	if err != nil {
		w.Fail("producer-error", "a valid schema was refused: %v", err)
		return
	}
	root := mkHash('R', uint64(p.P["base"]), 0)
	omp, err := delivery.NewOrderedMessageProcessor(&delivery.ConsumerConfig{LastEmittedNum: p.P["base"], LastHash: root, LastWeight: big.NewInt(10), ReorgThreshold: 64, TrackedPrefixes: all})
	if err != nil {
		w.Fail("consumer-error", "a valid configuration was refused: %v", err)
		return
	}
	stop := make(chan struct{})
	defer close(stop)
	ch := make(chan *delivery.ChainUpdate)
	omp.Subscribe(ch)
	var got []*delivery.PendingBatch
	go func() {
		for {
			select {
			case u := <-ch:
				got = append(got, u.Added()...)
				u.Done()
			case <-stop:
				return
			}
		}
	}()
	type st struct {
		b     *Blk
		added bool
		done  bool // completely published
		open  map[types.Hash]*sub
	}
	blks := map[int]*st{}
	var order []*st
	prev := root
	off := int64(0)
	calls, refused := 0, 0
	hand := func(ms map[string][]delivery.Message) {
		for _, t := range core.SortedKeys(ms) {
			for _, m := range ms[t] {
				off++
				if err := omp.ProcessMessage((&Msg{key: m.Key(), value: m.Value(), topic: t}).at(t+":0", off)); err != nil {
					w.Fail("rejected", "a message of a valid block was rejected: %v", err)
				}
			}
		}
	}
	pending := func() bool {
		for _, s := range order {
			if s.added && len(s.open) > 0 {
				return true
			}
		}
		return false
	}
	refuse := func(ms map[string][]delivery.Message, err error, what string, allowed ...error) bool {
		calls++
		refused++
		w.Fault("refused")
		if pending() {
			w.Probes["nontrivial"] = 1
		}
		if err == nil {
			w.Fail("accepted", "%s was accepted", what)
			return false
		}
		for _, a := range allowed {
			if err == a {
				if len(ms) > 0 {
					w.Fail("accepted", "%s was refused (%v), but messages were returned", what, err)
					return false
				}
				return true
			}
		}
		w.Fail("error", "%s was refused with %q", what, err)
		return false
	}
	known := func(id types.Hash) bool {
		for _, s := range order {
			if s.open[id] != nil {
				return true
			}
		}
		return false
	}
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		s := blks[int(op.Arg(0))]
		switch op.K {
		case "blk":
			r := core.NewRand(uint64(op.Arg(1)))
			i := len(order)
			b := &Blk{Idx: int(op.Arg(0)), Num: p.P["base"] + int64(i) + 1, Hash: mkHash('B', uint64(op.Arg(1)), uint64(op.Arg(0))), Parent: prev, Weight: big.NewInt(int64(11 + i))}
			fillBlock(b, r, int(op.Arg(2)), int(op.Arg(3)), int(op.Arg(4)))
			s = &st{b: b}
			blks[b.Idx] = s
			order = append(order, s)
			prev = b.Hash
		case "add":
			if s == nil {
				continue
			}
			batches := map[string]types.Hash{}
			s.open = map[types.Hash]*sub{}
			for _, x := range s.b.Subs {
				batches[x.key] = x.id
				s.open[x.id] = x
			}
			ms, err := dp.AddBlock(s.b.Num, s.b.Hash, s.b.Parent, new(big.Int).Set(s.b.Weight), s.b.Updates, s.b.Deletes, batches)
			if err != nil {
				w.Fail("refused-valid", "a valid block was refused: %v", err)
				return
			}
			s.added = true
			calls++
			s.done = s.done || len(s.open) == 0
			hand(ms)
		case "sub":
			if s == nil || !s.added || int(op.Arg(1)) >= len(s.b.Subs) {
				continue
			}
			x := s.b.Subs[op.Arg(1)]
			ms, err := dp.SendBatch(x.id, x.deletes, x.updates)
			if s.open[x.id] == nil {
				if !refuse(ms, err, "a sub-batch that had been sent", delivery.ErrUnknownBatch) {
					return
				}
				continue
			}
			if err != nil {
				w.Fail("refused-valid", "a valid sub-batch was refused: %v", err)
				return
			}
			calls++
			delete(s.open, x.id)
			s.done = s.done || len(s.open) == 0
			hand(ms)
		case "batch": // a sub-batch out of the blue
			id := mkHash('X', uint64(op.Arg(0)), uint64(op.Arg(1)))
			if s != nil && op.Arg(1) < int64(len(s.b.Subs)) {
				id = s.b.Subs[op.Arg(1)].id
			}
			if op.Arg(1) == 3 {
				id = types.Hash{}
			}
			if known(id) {
				continue
			}
			ms, err := dp.SendBatch(id, nil, map[string][]byte{"k": {1}})
			if !refuse(ms, err, "a sub-batch nobody announced", delivery.ErrUnknownBatch) {
				return
			}
		case "bad":
			if s == nil {
				continue
			}
			// The block with something in it that cannot be carried. It may be
			// one that is published correctly before or afterwards.
			r := core.NewRand(uint64(op.Arg(2)))
			upd, del, batches := map[string][]byte{}, map[string]struct{}{}, map[string]types.Hash{}
			for k, v := range s.b.Updates {
				upd[k] = v
			}
			for k := range s.b.Deletes {
				del[k] = struct{}{}
			}
			var ids []types.Hash
			hash := s.b.Hash
			own := r.P(1, 2)
			if !own {
				hash = mkHash('Y', r.U64(), 0)
			}
			for i, x := range s.b.Subs {
				id := x.id
				if !own || known(id) {
					id = mkHash('Z', r.U64(), uint64(i))
				}
				batches[x.key] = id
				ids = append(ids, id)
			}
			more := func(k string) {
				id := mkHash('Z', r.U64(), 100)
				batches[k] = id
				ids = append(ids, id)
			}
			var allowed []error
			what := "a block with"
			if op.Arg(1)&1 != 0 {
				batches[fmt.Sprintf("zero/%d", r.N(100))] = types.Hash{}
				allowed = append(allowed, delivery.ErrInvalidBatch)
				what += " a nameless sub-batch"
			}
			if op.Arg(1)&2 != 0 {
				k := fmt.Sprintf("misc/clash%d", r.N(100))
				upd[k] = []byte("v")
				more(k)
				allowed = append(allowed, delivery.ErrPrefixConflict)
				what += " a sub-batch that is also a key"
			}
			if op.Arg(1)&4 != 0 {
				k := fmt.Sprintf("misc/gone%d", r.N(100))
				del[k] = struct{}{}
				more(k)
				allowed = append(allowed, delivery.ErrPrefixConflict)
				what += " a sub-batch that is also deleted"
			}
			if op.Arg(1)&6 == 6 && r.P(1, 2) {
				k := fmt.Sprintf("misc/both%d", r.N(100))
				upd[k] = []byte("v")
				del[k] = struct{}{}
				more(k)
				allowed = append(allowed, delivery.ErrPrefixConflict)
				what += " a sub-batch that is also set and deleted"
			}
			if op.Arg(1)&8 != 0 {
				k := fmt.Sprintf("acct/%d", r.N(100))
				e, matched := ref.entry(k)
				if matched {
					upd[k] = []byte("v")
					more(e)
					allowed = append(allowed, delivery.ErrPrefixConflict)
					what += " a sub-batch that is also a schema prefix"
				}
			}
			if len(allowed) == 0 {
				continue
			}
			ms, err := dp.AddBlock(s.b.Num, hash, s.b.Parent, new(big.Int).Set(s.b.Weight), upd, del, batches)
			if !refuse(ms, err, what, allowed...) {
				return
			}
			for _, id := range ids {
				if known(id) {
					continue
				}
				ms, err := dp.SendBatch(id, nil, map[string][]byte{"k": {1}})
				if !refuse(ms, err, "a sub-batch of a block that was refused", delivery.ErrUnknownBatch) {
					return
				}
			}
		case "schema":
			r := core.NewRand(uint64(op.Arg(1)))
			sc := map[string]string{}
			for k, v := range schemas[r.N(len(schemas))] {
				sc[k] = v
			}
			overlap, invalid := false, false
			switch op.Arg(0) {
			case 0:
				sc["over/"], sc["over/lap/"] = "a", "b"
				overlap = true
			case 1:
				sc["over/[a-z]+/"], sc["over/"] = "a", "a"
				overlap = true
			case 2:
				sc["bad/[a"] = "a"
				invalid = true
			case 3:
				sc["bad/(a"] = "a"
				invalid = true
			case 4:
				sc["^bad/a{2,1}"] = "a"
				invalid = true
			case 5:
				sc["over/"], sc["over/lap/"], sc["^bad/(x"] = "a", "b", "c"
				overlap, invalid = true, true
			case 6:
				sc["other/"], sc["^more/[0-9]+/"] = "a", "b"
			}
			x, err := delivery.NewProducer(mainTopic, sc)
			calls++
			switch {
			case !overlap && !invalid:
				if err != nil || x == nil {
					w.Fail("refused-valid", "a valid schema was refused: %v", err)
					return
				}
			case err == nil:
				w.Fail("accepted", "an unusable schema was accepted: %v", core.SortedKeys(sc))
				return
			case x != nil:
				w.Fail("accepted", "an unusable schema was refused, but there is a producer")
				return
			case !invalid && err != delivery.ErrPrefixOverlap || !overlap && err == delivery.ErrPrefixOverlap:
				w.Fail("error", "an unusable schema (overlapping %v, invalid %v) was refused with %q", overlap, invalid, err)
				return
			}
			if err != nil {
				refused++
			}
		case "cfg":
			cfg := &delivery.ConsumerConfig{LastEmittedNum: 1, LastHash: root, LastWeight: big.NewInt(10), ReorgThreshold: []int64{0, -1, -1 << 40, 0}[op.Arg(0)%4], TrackedPrefixes: []*regexp.Regexp{regexp.MustCompile(".*")}}
			x, err := delivery.NewOrderedMessageProcessor(cfg)
			calls++
			refused++
			if err == nil {
				w.Fail("accepted", "a reorg threshold of %d was accepted", cfg.ReorgThreshold)
				return
			}
			if x != nil {
				w.Fail("accepted", "a reorg threshold of %d was refused, but there is a consumer", cfg.ReorgThreshold)
				return
			}
		}
		if w.Failed() {
			return
		}
		w.State(core.Mix(int64(calls), int64(refused), int64(len(order)), off))
	}
	w.Calm()
	time.Sleep(time.Second)
	var want []*Blk
	for _, s := range order {
		if !s.done {
			break
		}
		want = append(want, s.b)
	}
	for i, pb := range got {
		if i >= len(want) || pb.Hash != want[i].Hash {
			w.Fail("sequence", "block %d handed out is %s", i, hs(pb.Hash))
			return
		}
		d := want[i].diffMeta(pb)
		if d == "" {
			d = want[i].want(ref, all).diff(pb)
		}
		if d != "" {
			w.Fail("content", "block %s: %s", hs(pb.Hash), d)
			return
		}
	}
	if len(got) != len(want) {
		w.Fail("missing", "%d of %d blocks were handed out", len(got), len(want))
	}
}
