package props

import (
	"bytes"
	"math/big"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C04", Title: "Malformed messages never crash, hang or corrupt", Gen: genMalformed, Run: runMalformed,
		Rule: "one run = the valid messages of several blocks in a random order with malformed ones injected between them, given to a real consumer; non-trivial = at least one malformed message was injected while a block was being assembled; a state = (which valid messages of which blocks arrived, which kinds of malformed messages preceded)",
		Real: deliveryReal, Stub: []string{"broker and network: the harness decides what arrives"}, Floors: map[string]int64{"schema": 0, "track": 0}})
}

const malKinds = 16

func genMalformed(r *core.Rand, p *core.Plan) {
	p.P["schema"] = int64(r.N(len(schemas)))
	p.P["track"] = int64(r.Pick(0, 0, 0, 1, 2, 3))
	nb := r.R(1, 4)
	type ref struct{ b, k int64 }
	var all []ref
	for i := 0; i < nb; i++ {
		nu, nd, ns := r.Pick(0, 1, 2, 5), r.Pick(0, 0, 1, 2), r.Pick(0, 1, 1, 2)
		p.Add("blk", int64(i), int64(r.U64()>>1), int64(nu), int64(nd), int64(ns))
		for k := 0; k < 1+nu+nd+ns*8; k++ {
			all = append(all, ref{int64(i), int64(k)})
		}
	}
	pm := r.Perm(len(all))
	if r.P(1, 3) {
		for i := range pm {
			pm[i] = i
		}
	}
	rate := r.Pick(5, 20, 60)
	only := -1
	if r.P(1, 3) {
		only = r.N(malKinds)
	}
	for _, i := range pm {
		p.Add("d", all[i].b, all[i].k)
		for r.P(rate, 100) {
			k := r.N(malKinds)
			if only >= 0 {
				k = only
			}
			p.Add("m", int64(k), int64(r.N(nb)), int64(r.U64()>>1))
		}
	}
	core.GenSim(r, p, false)
}

// malformed makes a malformed message from the valid ones of a block. clash is
// set when it carries the key of a valid message, in whose place a consumer may
// keep it until the valid one is delivered again.
func malformed(kind int, b *Blk, ms []*Msg, r *core.Rand) (m *Msg, clash bool) {
	pick := func(t delivery.MessageType) *Msg {
		var c []*Msg
		for _, x := range ms {
			if delivery.MessageType(x.key[0]) == t {
				c = append(c, x)
			}
		}
		if len(c) == 0 {
			return nil
		}
		x := c[r.N(len(c))].at("", 0)
		x.key = append([]byte(nil), x.key...)
		x.value = append([]byte(nil), x.value...)
		return x
	}
	cut := func(v []byte) []byte {
		if len(v) == 0 {
			return v
		}
		return v[:r.N(len(v))]
	}
	switch kind {
	case 0: // empty key
		return &Msg{value: []byte{1, 2, 3}}, false
	case 1: // key too short for any message
		x := ms[r.N(len(ms))].at("", 0)
		x.key = append([]byte(nil), x.key[:r.N(33)]...)
		return x, false
	case 2: // key too short for its type
		x := pick(delivery.SubBatchMsgType)
		if r.P(1, 2) {
			x = pick(delivery.SubBatchHeaderType)
		}
		if x == nil {
			return nil, false
		}
		x.key = x.key[:33+r.N(32)]
		return x, false
	case 3: // index out of range
		x := pick(delivery.SubBatchMsgType)
		if x == nil {
			return nil, false
		}
		x.key = append(x.key[:65], delivery.AvroInt(r.Pick(-1, -5, 100, 1000000, 2147483647, -2147483648))...)
		return x, false
	case 4: // index missing or cut
		x := pick(delivery.SubBatchMsgType)
		if x == nil {
			return nil, false
		}
		x.key = x.key[:65]
		if r.P(1, 2) {
			x.key = append(x.key, 0x80)
		}
		return x, false
	case 5: // value of a sub-batch message cut
		x := pick(delivery.SubBatchMsgType)
		if x == nil {
			return nil, false
		}
		x.value = cut(x.value)
		return x, true
	case 6: // header value cut
		x := pick(delivery.BatchType)
		x.value = cut(x.value)
		return x, true
	case 7: // sub-batch header cut or negative
		x := pick(delivery.SubBatchHeaderType)
		if x == nil {
			return nil, false
		}
		x.value = nil
		if r.P(1, 2) {
			x.value = delivery.AvroInt(r.Pick(-1, -100, -2147483648))
		} else if r.P(1, 2) {
			x.value = []byte{0x80, 0x80}
		}
		return x, true
	case 8: // unknown type
		return &Msg{key: delivery.MessageType(r.R(7, 255)).GetKey(b.Hash.Bytes(), []byte("x")), value: []byte("v")}, false
	case 9: // sub-batch nobody announced
		id := mkHash('U', r.U64(), 1)
		if r.P(1, 2) {
			return &Msg{key: delivery.SubBatchHeaderType.GetKey(b.Hash.Bytes(), id.Bytes()), value: delivery.AvroInt(r.N(3))}, false
		}
		return &Msg{key: delivery.SubBatchMsgType.GetKey(b.Hash.Bytes(), id.Bytes(), delivery.AvroInt(r.N(3))), value: (&delivery.SubBatchRecord{Updates: map[string][]byte{"q": {1}}}).EncodeAvro()}, false
	case 10: // update or deletion outside everything the header announces
		k := []string{"", "/", "//", "/a", "/a/b/c", ".", "..", "../..", "a//b", "./x", "zz/", "/zz/./y", "zz/../..", "\x00", "\xff/\xfe"}[r.N(15)]
		t := delivery.BatchMsgType
		if r.P(1, 2) {
			t = delivery.BatchDeleteMsgType
		}
		return &Msg{key: t.GetKey(b.Hash.Bytes(), []byte(k)), value: []byte("v")}, false
	case 11: // reorg notice cut
		return &Msg{key: delivery.ReorgType.GetKey(b.Hash.Bytes()), value: []byte{0x80, 0x80}[:r.N(3)]}, false
	case 12: // a block nobody produced, without a header
		h := mkHash('Z', r.U64(), 2)
		return &Msg{key: delivery.BatchMsgType.GetKey(h.Bytes(), []byte("acct/1")), value: []byte("v")}, false
	case 13: // end of a reorg that never began
		return &Msg{key: delivery.ReorgCompleteType.GetKey(b.Hash.Bytes()), value: delivery.AvroInt(3)}, false
	case 14: // longer key than its type has
		x := pick(delivery.BatchType)
		x.key = append(x.key, 1, 2, 3)
		x.value = cut(x.value)
		return x, true
	case 15: // more updates than the header announces
		x := pick(delivery.BatchMsgType)
		if x == nil {
			return nil, false
		}
		x.key = append(x.key, 'x')
		for _, y := range ms {
			if bytes.Equal(x.key, y.key) {
				return nil, false
			}
		}
		return x, false
	}
	return nil, false
}

func runMalformed(w *core.World) {
	p := w.Plan
	schema := schemas[p.P["schema"]]
	ref := newSchemaRef(schema)
	tracked := regexps(trackSets[p.P["track"]])
	mp := delivery.NewMessageProcessor(&delivery.ConsumerConfig{ReorgThreshold: 64, TrackedPrefixes: tracked, LastWeight: new(big.Int)})
	ch := make(chan *delivery.PendingBatch, 8)
	mp.Subscribe(ch)
	stop := make(chan struct{})
	col := newCollector(ch, stop)
	dp, err := delivery.NewProducer(mainTopic, schema)
	if err != nil {
		panic("refused what has to work: " + err.Error())
	}
	type state struct {
		b     *Blk
		ms    []*Msg
		need  map[string]bool
		have  map[string]bool
		clash bool
	}
	var blocks []*state
	byIdx := map[int]*state{}
	byHash := map[types.Hash]*state{}
	off := int64(0)
	kinds := int64(0)
	give := func(m *Msg, good bool) {
		off++
		w.Step("ProcessMessage key %x value %x", m.key, m.value)
		err := mp.ProcessMessage(m.at("t:0", off))
		w.Log("give %x %v", m.key[:minInt(len(m.key), 4)], err != nil)
		if good && err != nil {
			w.Fail("rejected", "a well-formed message was rejected: %v (key %x)", err, m.key)
		}
	}
	for _, op := range p.Ops {
		switch op.K {
		case "blk":
			r := core.NewRand(uint64(op.Arg(1)))
			b := &Blk{Idx: int(op.Arg(0)), Num: blockNum(r), Hash: mkHash('B', uint64(op.Arg(1)), uint64(op.Arg(0))), Parent: mkHash('B', r.U64(), 0), Weight: bigWeight(r)}
			fillBlock(b, r, int(op.Arg(2)), int(op.Arg(3)), int(op.Arg(4)))
			ms, err := produce(dp, b)
			if err != nil {
				w.Fail("producer-error", "producer refused a valid block: %v", err)
				return
			}
			sortMsgs(ms)
			st := &state{b: b, ms: ms, need: b.needed(ms, ref, tracked), have: map[string]bool{}}
			blocks = append(blocks, st)
			byIdx[b.Idx], byHash[b.Hash] = st, st
		case "d":
			if st := byIdx[int(op.Arg(0))]; st != nil {
				m := st.ms[int(op.Arg(1))%len(st.ms)]
				give(m, true)
				st.have[string(m.key)] = true
				w.State(core.Mix(op.Arg(0), int64(len(st.have)), int64(len(st.ms)), kinds, b2i(st.have[string(delivery.BatchType.GetKey(st.b.Hash.Bytes()))])))
			}
		case "m":
			st := byIdx[int(op.Arg(1))]
			if st == nil {
				continue
			}
			m, clash := malformed(int(op.Arg(0))%malKinds, st.b, st.ms, core.NewRand(uint64(op.Arg(2))))
			if m == nil {
				continue
			}
			if op.Arg(0)%malKinds == 15 {
				// While one that is announced may come, it is taken for that one.
				all := true
				for _, x := range st.ms {
					switch delivery.MessageType(x.key[0]) {
					case delivery.BatchType, delivery.BatchMsgType, delivery.BatchDeleteMsgType:
						all = all && st.have[string(x.key)]
					}
				}
				if !all {
					continue
				}
			}
			if clash {
				st.clash = true
			}
			w.Faults[malName[int(op.Arg(0))%malKinds]]++
			kinds |= 1 << uint(op.Arg(0))
			if len(st.have) > 0 {
				w.Probes["nontrivial"] = 1
			}
			give(m, false)
		}
		if w.Failed() {
			return
		}
	}
	// Everything is delivered by now, or will be.
	for _, st := range blocks {
		for _, m := range st.ms {
			if !st.have[string(m.key)] || st.clash {
				give(m, true)
				st.have[string(m.key)] = true
			}
		}
	}
	time.Sleep(time.Second)
	if w.Failed() {
		return
	}
	seen := map[types.Hash]int{}
	for _, pb := range col.got {
		st := byHash[pb.Hash]
		if st == nil {
			w.Fail("unknown-block", "block %x was emitted, which nobody produced", pb.Hash)
			return
		}
		seen[pb.Hash]++
		if seen[pb.Hash] > 1 {
			w.Fail("emitted-twice", "block %s was emitted twice", hs(pb.Hash))
			return
		}
		if d := st.b.diffMeta(pb); d != "" {
			w.Fail("metadata", "block %s: %s", hs(pb.Hash), d)
			return
		}
		if d := st.b.want(ref, tracked).diff(pb); d != "" {
			w.Fail("content", "block %s: %s", hs(pb.Hash), d)
			return
		}
	}
	for _, st := range blocks {
		if seen[st.b.Hash] == 0 {
			w.Fail("missing", "block %s was never emitted although all its valid messages arrived", hs(st.b.Hash))
			return
		}
	}
	close(stop)
}

var malName = []string{"empty-key", "short-key", "short-sub-batch-key", "index-out-of-range", "index-cut", "sub-batch-value-cut", "header-value-cut", "sub-batch-header-bad", "unknown-type", "unannounced-sub-batch", "unannounced-key", "reorg-cut", "unknown-block", "stray-reorg-end", "long-key-cut-value", "surplus-update"}
