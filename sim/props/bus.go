package props

import (
	"fmt"
	"hash/fnv"

	"verif/sim/core"
)

// bus is a partitioned log, the reference model of the message broker used by
// the scenarios that run the delivery layer without Kafka: per partition,
// messages are kept in order for ever.
type bus struct {
	parts   []*part
	byTopic map[string][]*part
	nparts  int
}

type part struct {
	idx   int
	name  string // topic:partition, as the consumer names it
	log   []*Msg
	first int64 // offset of log[0]
}

func newBus(nparts int) *bus {
	if nparts < 1 {
		nparts = 1
	}
	return &bus{byTopic: map[string][]*part{}, nparts: nparts}
}

func (b *bus) topic(name string, base int64) {
	if _, ok := b.byTopic[name]; ok {
		return
	}
	for i := 0; i < b.nparts; i++ {
		p := &part{idx: len(b.parts), name: fmt.Sprintf("%s:%d", name, i), first: base}
		b.parts = append(b.parts, p)
		b.byTopic[name] = append(b.byTopic[name], p)
	}
}

// busFor has the topics of a schema.
func busFor(nparts int, schema map[string]string, base int64) *bus {
	b := newBus(nparts)
	b.topic(mainTopic, base)
	ts := map[string]bool{}
	for _, t := range schema {
		ts[t] = true
	}
	for _, t := range core.SortedKeys(ts) {
		b.topic(t, base)
	}
	return b
}

func (b *bus) publish(m *Msg) *Msg {
	ps := b.byTopic[m.topic]
	h := fnv.New32a()
	h.Write(m.key)
	p := ps[int(h.Sum32())%len(ps)]
	c := m.at(p.name, p.first+int64(len(p.log)))
	p.log = append(p.log, c)
	return c
}

func (p *part) end() int64 { return p.first + int64(len(p.log)) }

// reader is a consumer's position in every partition.
type reader struct {
	b   *bus
	pos []int64
}

func (b *bus) reader() *reader {
	r := &reader{b: b}
	for _, p := range b.parts {
		r.pos = append(r.pos, p.first)
	}
	return r
}

// next returns the next message of a partition, or nil.
func (r *reader) next(i int) *Msg {
	if i < 0 || i >= len(r.b.parts) {
		return nil
	}
	p := r.b.parts[i]
	if r.pos[i] >= p.end() {
		return nil
	}
	m := p.log[r.pos[i]-p.first]
	r.pos[i]++
	return m
}

func (r *reader) rewind(i int, k int64) {
	r.pos[i] -= k
	if r.pos[i] < r.b.parts[i].first {
		r.pos[i] = r.b.parts[i].first
	}
}

// rest lists the partitions that have unread messages.
func (r *reader) rest() []int {
	var o []int
	for i, p := range r.b.parts {
		if r.pos[i] < p.end() {
			o = append(o, i)
		}
	}
	return o
}

// content is what a block of a tree carries.
type content struct {
	seed       uint64
	nu, nd, ns int
}

// blkOf makes the block of a tree node.
func blkOf(n *node, c content) *Blk {
	b := &Blk{Idx: n.id, Num: n.num, Hash: n.hash, Parent: n.phash, Weight: n.weight}
	fillBlock(b, core.NewRand(c.seed), c.nu, c.nd, c.ns)
	return b
}

// inTopic sorts messages the way one application run emits them: topic by
// topic, and within a topic in the order the producer returned them.
func byTopicOrder(ms []*Msg, r *core.Rand) []*Msg {
	ts := map[string][]*Msg{}
	for _, m := range ms {
		ts[m.topic] = append(ts[m.topic], m)
	}
	names := core.SortedKeys(ts)
	var out []*Msg
	for _, i := range r.Perm(len(names)) {
		out = append(out, ts[names[i]]...)
	}
	return out
}
