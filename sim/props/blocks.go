// Package props holds the simulated scenarios, one per property.
package props

import (
	"bytes"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"time"

	log "github.com/inconshreveable/log15"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	log.Root().SetHandler(log.DiscardHandler())
}

// ---- blocks ----------------------------------------------------------------

type sub struct {
	id      types.Hash
	key     string
	deletes []string
	updates map[string][]byte
}

// Blk is one block of the workload: the reference for everything a consumer
// may be told about it.
type Blk struct {
	Idx     int
	Num     int64
	Hash    types.Hash
	Parent  types.Hash
	Weight  *big.Int
	Updates map[string][]byte
	Deletes map[string]struct{}
	Subs    []*sub
}

func mkHash(tag byte, a, b uint64) types.Hash {
	var h types.Hash
	h[0] = tag
	x := core.Mix(int64(a), int64(b), int64(tag))
	for i := 1; i < 32; i++ {
		if i%8 == 0 {
			x = core.Mix(int64(x))
		}
		h[i] = byte(x >> (8 * uint(i%8)))
	}
	return h
}

func hs(h types.Hash) string { return fmt.Sprintf("%x", h[:4]) }

// The application schema used by the workloads: regular expression -> topic.
var schemas = []map[string]string{
	{},
	{"acct/": "t-acct"},
	{"acct/": "t-acct", "code/": "t-code", "c/[0-9]+/s/": "t-state"},
	{"acct/": "t-acct", "c/[0-9]+/s/": "t-state", "log/[0-9a-f]+/x/": "t-acct", "head$": "t-code"},
	{"^acct/": "t-main", "code/": "t-main", "c/[0-9]+/": "t-state"},
}

const mainTopic = "t-main"

var trackSets = [][]string{
	{".*"},
	{"^acct/", "^misc"},
	{"^c/", "^code/", "^log/"},
	{"^(acct|c|head|log|top)"},
	{".*", "^acct/"},
}

func regexps(ss []string) []*regexp.Regexp {
	r := make([]*regexp.Regexp, len(ss))
	for i, s := range ss {
		r[i] = regexp.MustCompile(s)
	}
	return r
}

// fill gives a block its content. kind selects sizes.
func fillBlock(b *Blk, r *core.Rand, nUpd, nDel, nSub int) {
	b.Updates = map[string][]byte{}
	b.Deletes = map[string]struct{}{}
	val := func() []byte {
		n := r.Pick(0, 1, 3, 8, 40)
		v := make([]byte, n)
		for i := range v {
			v[i] = byte(r.U64())
		}
		return v
	}
	key := func(i int) string {
		switch r.N(9) {
		case 0:
			return fmt.Sprintf("acct/%x", i)
		case 1:
			return fmt.Sprintf("acct/%x/deep/%d/er", r.N(3), i)
		case 2:
			return fmt.Sprintf("code/%x/c", i)
		case 3:
			return fmt.Sprintf("c/%d/s/%d", r.N(3), i)
		case 4:
			return fmt.Sprintf("log/%x/x/%d", r.N(3)+10, i)
		case 5:
			return fmt.Sprintf("misc/%d", i)
		case 6:
			return fmt.Sprintf("top%d", i)
		case 7:
			return "head"
		}
		return fmt.Sprintf("acct/a%d", i)
	}
	for i := 0; i < nUpd; i++ {
		b.Updates[key(i)] = val()
	}
	for i := 0; i < nDel; i++ {
		k := key(1000 + i)
		if _, ok := b.Updates[k]; !ok {
			b.Deletes[k] = struct{}{}
		}
	}
	if len(b.Updates) > 0 && nDel > 0 && r.P(1, 4) {
		// Something is deleted and set again
		keys := core.SortedKeys(b.Updates)
		for n := r.R(1, 3); n > 0; n-- {
			b.Deletes[keys[r.N(len(keys))]] = struct{}{}
		}
	}
	for i := 0; i < nSub; i++ {
		s := &sub{id: mkHash('S', r.U64(), uint64(i)), updates: map[string][]byte{}}
		s.key = fmt.Sprintf([]string{"c/%d/sb", "misc/sub%d", "acct/sub%d", "stor/%d"}[r.N(4)], 900+i)
		for k := r.Pick(0, 0, 1, 3); k > 0; k-- {
			s.deletes = append(s.deletes, fmt.Sprintf("sub/%d/%d/del%d", b.Idx, i, k))
		}
		for k := r.Pick(0, 1, 2, 5, 9); k > 0; k-- {
			s.updates[fmt.Sprintf("sub/%d/%d/k%d", b.Idx, i, k)] = val()
		}
		if len(s.deletes) > 0 && len(s.updates) > 0 && r.P(1, 4) {
			s.deletes = append(s.deletes, core.SortedKeys(s.updates)[0])
		}
		b.Subs = append(b.Subs, s)
	}
}

// bigBlock gives a block a value of the given size.
func bigBlock(b *Blk, where int64, size int) {
	v := bytes.Repeat([]byte{byte(b.Num), 0xaa, byte(where)}, size/3)
	switch {
	case where%3 == 0:
		b.Updates["acct/big"] = v
	case where%3 == 1 || len(b.Subs) == 0:
		b.Updates["misc/big"] = v
	default:
		b.Subs[0].updates["sub/big"] = v
	}
}

// schemaPrefix is the reference for how the producer splits keys: the topic
// and header entry of a key, or "" when the key travels in the header.
type schemaRef struct {
	exprs []*regexp.Regexp
}

func newSchemaRef(schema map[string]string) *schemaRef {
	s := &schemaRef{}
	for _, k := range core.SortedKeys(schema) {
		e := k
		if !strings.HasPrefix(e, "^") {
			e = "^" + e
		}
		s.exprs = append(s.exprs, regexp.MustCompile(e))
	}
	return s
}

func (s *schemaRef) entry(k string) (string, bool) {
	for _, e := range s.exprs {
		if p := e.FindString(k); p != "" {
			return p, true
		}
	}
	return k, false
}

func matchAny(res []*regexp.Regexp, s string) bool {
	for _, r := range res {
		if r.MatchString(s) {
			return true
		}
	}
	return false
}

// Want is what a consumer tracking some prefixes must be given for a block.
type Want struct {
	Values  map[string][]byte
	Deletes map[string]struct{}
}

func (b *Blk) want(s *schemaRef, tracked []*regexp.Regexp) *Want {
	w := &Want{map[string][]byte{}, map[string]struct{}{}}
	for k, v := range b.Updates {
		if e, _ := s.entry(k); matchAny(tracked, e) {
			w.Values[k] = v
		}
	}
	for k := range b.Deletes {
		if e, _ := s.entry(k); matchAny(tracked, e) {
			w.Deletes[k] = struct{}{}
		}
	}
	for _, sb := range b.Subs {
		if matchAny(tracked, sb.key) {
			for k, v := range sb.updates {
				w.Values[k] = v
			}
			for _, k := range sb.deletes {
				w.Deletes[k] = struct{}{}
			}
		}
	}
	return w
}

// diff describes how what was emitted differs from what was produced.
func (w *Want) diff(pb *delivery.PendingBatch) string {
	for _, k := range core.SortedKeys(w.Values) {
		v, ok := pb.Values[k]
		if !ok {
			return fmt.Sprintf("value %q is missing", k)
		}
		if !bytes.Equal(v, w.Values[k]) {
			return fmt.Sprintf("value %q is %x, produced %x", k, v, w.Values[k])
		}
	}
	for _, k := range core.SortedKeys(pb.Values) {
		if _, ok := w.Values[k]; !ok {
			return fmt.Sprintf("value %q was never produced", k)
		}
	}
	for _, k := range core.SortedKeys(w.Deletes) {
		if _, ok := pb.Deletes[k]; !ok {
			return fmt.Sprintf("delete %q is missing", k)
		}
	}
	for _, k := range core.SortedKeys(pb.Deletes) {
		if _, ok := w.Deletes[k]; !ok {
			return fmt.Sprintf("delete %q was never produced", k)
		}
	}
	return ""
}

func (b *Blk) diffMeta(pb *delivery.PendingBatch) string {
	switch {
	case pb.Hash != b.Hash:
		return fmt.Sprintf("hash %x, produced %x", pb.Hash, b.Hash)
	case pb.Number != b.Num:
		return fmt.Sprintf("number %d, produced %d", pb.Number, b.Num)
	case pb.ParentHash != b.Parent:
		return fmt.Sprintf("parent %x, produced %x", pb.ParentHash, b.Parent)
	case pb.Weight == nil || pb.Weight.Cmp(b.Weight) != 0:
		return fmt.Sprintf("weight %v, produced %v", pb.Weight, b.Weight)
	}
	return ""
}

// ---- messages --------------------------------------------------------------

// Msg is a message in flight; it implements delivery.ResumptionMessage.
type Msg struct {
	key, value []byte
	off        int64
	src        string
	blk        int
	topic      string
	when       time.Time
}

func (m *Msg) Key() []byte     { return m.key }
func (m *Msg) Value() []byte   { return m.value }
func (m *Msg) Offset() int64   { return m.off }
func (m *Msg) Source() string  { return m.src }
func (m *Msg) Time() time.Time { return m.when }

func (m *Msg) at(src string, off int64) *Msg {
	c := *m
	c.src, c.off, c.when = src, off, time.Now()
	return &c
}

// produce asks a real producer for all messages of a block, in the order an
// application would send them, grouped by topic.
func produce(p *delivery.Producer, b *Blk) ([]*Msg, error) {
	batches := map[string]types.Hash{}
	for _, s := range b.Subs {
		batches[s.key] = s.id
	}
	var out []*Msg
	add := func(m map[string][]delivery.Message) {
		for _, t := range core.SortedKeys(m) {
			for _, x := range m[t] {
				out = append(out, &Msg{key: x.Key(), value: x.Value(), blk: b.Idx, topic: t})
			}
		}
	}
	m, err := p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.Updates, b.Deletes, batches)
	if err != nil {
		return nil, err
	}
	add(m)
	for _, s := range b.Subs {
		m, err := p.SendBatch(s.id, s.deletes, s.updates)
		if err != nil {
			return nil, err
		}
		add(m)
	}
	return out, nil
}

// refTopic is the reference for where a message belongs.
func refTopic(schema map[string]string, b *Blk, key []byte) string {
	path := ""
	switch delivery.MessageType(key[0]) {
	case delivery.BatchMsgType, delivery.BatchDeleteMsgType:
		path = string(key[33:])
	case delivery.SubBatchHeaderType, delivery.SubBatchMsgType:
		for _, s := range b.Subs {
			if bytes.Equal(s.id[:], key[33:65]) {
				path = s.key
			}
		}
	default:
		return mainTopic
	}
	for _, e := range core.SortedKeys(schema) {
		x := e
		if !strings.HasPrefix(x, "^") {
			x = "^" + x
		}
		if regexp.MustCompile(x).FindString(path) != "" {
			return schema[e]
		}
	}
	return mainTopic
}

func sortMsgs(ms []*Msg) {
	sort.SliceStable(ms, func(i, j int) bool { return bytes.Compare(ms[i].key, ms[j].key) < 0 })
}

// needed lists the keys of the messages a consumer has to have received before
// the block is complete, given what it tracks.
func (b *Blk) needed(ms []*Msg, s *schemaRef, tracked []*regexp.Regexp) map[string]bool {
	n := map[string]bool{}
	for _, m := range ms {
		switch delivery.MessageType(m.key[0]) {
		case delivery.BatchType:
			n[string(m.key)] = true
		case delivery.BatchMsgType, delivery.BatchDeleteMsgType:
			if e, _ := s.entry(string(m.key[33:])); matchAny(tracked, e) {
				n[string(m.key)] = true
			}
		case delivery.SubBatchHeaderType, delivery.SubBatchMsgType:
			for _, sb := range b.Subs {
				if bytes.Equal(sb.id[:], m.key[33:65]) && matchAny(tracked, sb.key) {
					n[string(m.key)] = true
				}
			}
		}
	}
	return n
}

// collector drains a subscription and keeps what arrived, in order.
type collector struct {
	got []*delivery.PendingBatch
}

func newCollector(ch chan *delivery.PendingBatch, stop chan struct{}) *collector {
	c := &collector{}
	go func() {
		for {
			select {
			case pb := <-ch:
				c.got = append(c.got, pb)
			case <-stop:
				return
			}
		}
	}()
	return c
}

// settle lets everything that can run without time passing further than d run.
func settle(d time.Duration) { time.Sleep(d) }

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func bigWeight(r *core.Rand) *big.Int {
	b := make([]byte, r.Pick(0, 1, 2, 8, 9, 31, 32))
	for i := range b {
		b[i] = byte(r.U64())
	}
	return new(big.Int).SetBytes(b)
}

func blockNum(r *core.Rand) int64 {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return int64(r.U64() >> 1)
	}
	return int64(r.N(1 << 20))
}
