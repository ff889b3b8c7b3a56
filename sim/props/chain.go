package props

import (
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

// node is one block of a simulated block tree.
type node struct {
	id     int
	parent *node // nil for the root
	num    int64
	weight *big.Int
	hash   types.Hash
	phash  types.Hash
	kids   []*node
	depth  int
}

type tree struct {
	nodes  []*node
	byID   map[int]*node
	byHash map[types.Hash]*node
	wbase  *big.Int // total difficulty of the root
}

// weightBases are total difficulties of root blocks: small, and about to cross
// the sizes of machine integers.
func weightBase(i int64) *big.Int {
	one := big.NewInt(1)
	switch i {
	case 1:
		return new(big.Int)
	case 2:
		return new(big.Int).Sub(new(big.Int).Lsh(one, 63), big.NewInt(6))
	case 3:
		return new(big.Int).Sub(new(big.Int).Lsh(one, 64), big.NewInt(6))
	case 4:
		return new(big.Int).Sub(new(big.Int).Lsh(one, 128), big.NewInt(6))
	case 5:
		return big.NewInt(250)
	}
	return big.NewInt(1000)
}

func newTree() *tree {
	return &tree{byID: map[int]*node{}, byHash: map[types.Hash]*node{}, wbase: big.NewInt(1000)}
}

// add attaches a block to its parent (by id); an unknown parent makes a root.
func (t *tree) add(id, parent int, inc int64, base int64) *node {
	n := &node{id: id, hash: mkHash('N', uint64(id), uint64(base))}
	if p := t.byID[parent]; p != nil && parent != id {
		n.parent, n.phash, n.num = p, p.hash, p.num+1
		n.weight = new(big.Int).Add(p.weight, big.NewInt(inc))
		n.depth = p.depth + 1
		p.kids = append(p.kids, n)
	} else {
		n.phash = mkHash('G', uint64(parent), uint64(base))
		n.num = base
		n.weight = new(big.Int).Set(t.wbase)
	}
	t.nodes = append(t.nodes, n)
	t.byID[id] = n
	t.byHash[n.hash] = n
	return n
}

func (n *node) String() string { return fmt.Sprintf("#%d(n%d,w%s)", n.id, n.num, n.weight) }

func (n *node) ancestorOf(m *node) bool {
	for ; m != nil; m = m.parent {
		if m == n {
			return true
		}
	}
	return false
}

func pbName(t *tree, pb *delivery.PendingBatch) string {
	if n := t.byHash[pb.Hash]; n != nil {
		return n.String()
	}
	return fmt.Sprintf("unknown %x", pb.Hash[:4])
}

func names(t *tree, pbs []*delivery.PendingBatch) string {
	s := "["
	for i, pb := range pbs {
		if i > 0 {
			s += " "
		}
		s += pbName(t, pb)
	}
	return s + "]"
}

// view is the reference consumer: it follows chain updates and checks each
// against the chain it has.
type view struct {
	t     *tree
	chain []types.Hash // from the oldest known ancestor to the tip
	head  *big.Int
	seen  int
}

func newView(t *tree, start *node) *view {
	v := &view{t: t}
	for n := start; n != nil; n = n.parent {
		v.chain = append([]types.Hash{n.hash}, v.chain...)
	}
	v.head = start.weight
	return v
}

func (v *view) tip() types.Hash { return v.chain[len(v.chain)-1] }

// apply returns the class and text of the first thing wrong with an update.
func (v *view) apply(u *delivery.ChainUpdate, weights bool) (string, string) {
	v.seen++
	add, rem := u.Added(), u.Removed()
	if len(add) == 0 {
		return "empty-update", fmt.Sprintf("an update adds nothing (removes %s)", names(v.t, rem))
	}
	if len(rem) > len(v.chain) {
		return "removed-not-suffix", fmt.Sprintf("removes %d blocks of a chain of %d", len(rem), len(v.chain))
	}
	off := len(v.chain) - len(rem)
	for i, pb := range rem {
		if v.chain[off+i] != pb.Hash {
			return "removed-not-suffix", fmt.Sprintf("removed %s is not the end of the current chain, whose tip is %s", names(v.t, rem), v.nm(v.tip()))
		}
	}
	if off == 0 {
		return "removed-not-suffix", "the whole known chain was removed"
	}
	v.chain = v.chain[:off]
	inRem := map[types.Hash]bool{}
	for _, pb := range rem {
		inRem[pb.Hash] = true
	}
	for i, pb := range add {
		if pb.ParentHash != v.tip() {
			return "disconnected", fmt.Sprintf("added %s: element %d does not extend %s", names(v.t, add), i, v.nm(v.tip()))
		}
		n := v.t.byHash[pb.Hash]
		if n == nil {
			return "unknown-block", fmt.Sprintf("added block %x was never sent", pb.Hash)
		}
		if pb.Number != n.num || pb.Weight == nil || pb.Weight.Cmp(n.weight) != 0 || pb.ParentHash != n.phash {
			return "altered-block", fmt.Sprintf("added block %s was altered: number %d weight %v", n, pb.Number, pb.Weight)
		}
		if inRem[pb.Hash] {
			return "needless-reorg", fmt.Sprintf("%s is both removed and added by one update", n)
		}
		v.chain = append(v.chain, pb.Hash)
	}
	last := add[len(add)-1]
	if weights {
		if last.Weight.Cmp(v.head) <= 0 {
			return "weight-decreased", fmt.Sprintf("head moved to %s with weight %v, was %v (added %s removed %s)", pbName(v.t, last), last.Weight, v.head, names(v.t, add), names(v.t, rem))
		}
	}
	v.head = last.Weight
	return "", ""
}

func (v *view) nm(h types.Hash) string {
	if n := v.t.byHash[h]; n != nil {
		return n.String()
	}
	return fmt.Sprintf("%x", h[:4])
}

// heaviest returns the largest weight among blocks that descend from root
// through delivered, allowed blocks only.
func heaviest(root *node, ok func(n *node) bool) *node {
	best := root
	var walk func(n *node)
	walk = func(n *node) {
		if n.weight.Cmp(best.weight) > 0 {
			best = n
		}
		for _, k := range n.kids {
			if ok(k) {
				walk(k)
			}
		}
	}
	walk(root)
	return best
}

// headerMsgs makes the messages of a block without content.
func headerMsgs(dp *delivery.Producer, n *node, upd map[string][]byte) []*Msg {
	m, err := dp.AddBlock(n.num, n.hash, n.phash, n.weight, upd, nil, nil)
	if err != nil {
		panic("refused what has to work: " + err.Error())
	}
	var out []*Msg
	for _, t := range core.SortedKeys(m) {
		for _, x := range m[t] {
			out = append(out, &Msg{key: x.Key(), value: x.Value(), blk: n.id, topic: t})
		}
	}
	sortMsgs(out)
	return out
}

// genTree adds "b" ops describing a block tree: a main chain from block 0 with
// forks. Returns the ids in creation order. maxFork bounds fork length.
func genTree(r *core.Rand, p *core.Plan, main, forks, maxFork int, first int) []int {
	type nd struct {
		id, parent, depth int
		inc               int
	}
	var nodes []nd
	depth := map[int]int{}
	par := map[int]int{0: -1}
	nodes = append(nodes, nd{0, -1, 0, 1})
	id := 1
	prev := 0
	for i := 0; i < main; i++ {
		inc := r.Pick(1, 2, 2, 3, 10)
		nodes = append(nodes, nd{id, prev, i + 1, inc})
		depth[id] = i + 1
		par[id] = prev
		prev = id
		id++
	}
	for f := 0; f < forks; f++ {
		from := nodes[r.N(len(nodes))].id
		if from < first {
			from = first
		}
		if _, ok := par[from]; !ok {
			from = 0
		}
		l := r.R(1, maxFork)
		cur := from
		for k := 0; k < l; k++ {
			inc := r.Pick(1, 2, 2, 3, 10, 25)
			nodes = append(nodes, nd{id, cur, depth[cur] + 1, inc})
			depth[id] = depth[cur] + 1
			par[id] = cur
			cur = id
			id++
		}
	}
	sort.SliceStable(nodes, func(i, j int) bool { return nodes[i].depth < nodes[j].depth })
	var ids []int
	for _, n := range nodes {
		p.Add("b", int64(n.id), int64(n.parent), int64(n.inc))
		ids = append(ids, n.id)
	}
	return ids
}

// shuffled displaces elements by at most about win positions.
func shuffled(r *core.Rand, ids []int, win int) []int {
	o := append([]int(nil), ids...)
	type kv struct{ k, i int }
	ks := make([]kv, len(o))
	for i := range o {
		ks[i] = kv{i*16 + r.N(win*16+1), o[i]}
	}
	sort.SliceStable(ks, func(i, j int) bool { return ks[i].k < ks[j].k })
	for i := range ks {
		o[i] = ks[i].i
	}
	return o
}

// follower drains chain updates into a view.
type follower struct {
	v     *view
	ups   []*delivery.ChainUpdate
	fail  func(class, text string)
	delay func() time.Duration
}

func (f *follower) run(ch chan *delivery.ChainUpdate, stop chan struct{}, weights bool) {
	for {
		select {
		case u := <-ch:
			f.ups = append(f.ups, u)
			if c, t := f.v.apply(u, weights); c != "" {
				f.fail(c, t)
			}
			if d := f.delay(); d > 0 {
				time.Sleep(d)
			}
			u.Done()
		case <-stop:
			return
		}
	}
}
