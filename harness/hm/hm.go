// Package hm: sharded directories (hash array mapped tries).
package hm

import (
	"context"
	"errors"
	"os"
	"sort"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/hamt"
	"github.com/ipfs/go-unixfs/internal"
	pb "github.com/ipfs/go-unixfs/pb"

	mh "github.com/multiformats/go-multihash"

	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

var ctx = context.Background()

// Keys are names of different lengths, one a prefix of another.
var Keys = []string{"a", "bb", "a.txt", "longer name", "z"}

// World is a set of names with arbitrary hashes, the values they may have,
// and the entries a directory must hold.
type World struct {
	// Loose tells Ref to put a lone name into a sub-directory of its own, Empty
	// where to put a sub-directory without entries.
	Loose func(name, level int) bool
	Empty func(level int) int
	DS    *kit.DS
	Fan   int
	Lg    int
	N     int // names in use
	Depth int // digits of the hash
	Dig   [][]int
	Val   []ipld.Node
	// Builder of the identifiers, nil for the default
	Builder cid.Builder
	M       []int // value of each name, -1 when absent
}

// NewWorld makes n names whose hashes have depth digits for the fan-out. Each
// digit is one of two values; digit number wide (-1: none) of the first name
// has any value.
func NewWorld(fan, n, depth, wide int) *World {
	var dig [][]int
	lo, hi := fan/2-1, fan-2
	// in the second mode all names share the first group, and in the last group
	// each has a common value or one of its own
	spread := sym.Choice("spread", sym.Param("spreads", 1)) == 1
	if sym.Param("spreads", 1) == 3 {
		spread = true
	}
	for i := 0; i < n; i++ {
		var d []int
		for j := 0; j < depth; j++ {
			if spread && j < depth-1 {
				d = append(d, lo)
			} else if spread {
				d = append(d, sym.Ite(sym.Bool("digit"), []int{hi, 0, lo + 1, 1, fan - 1}[i], lo))
			} else if i == 0 && j == wide {
				d = append(d, sym.Choice("wide-digit", fan))
			} else {
				d = append(d, sym.Ite(sym.Bool("digit"), hi, lo))
			}
		}
		dig = append(dig, d)
	}
	return NewWorldOf(fan, dig)
}

// NewWorldOf makes names whose hashes have the given digits.
func NewWorldOf(fan int, dig [][]int) *World {
	n, depth := len(dig), len(dig[0])
	w := &World{DS: kit.NewDS(), Fan: fan, N: n, Depth: depth, Dig: dig}
	for 1<<uint(w.Lg) < fan {
		w.Lg++
	}
	for range dig {
		w.M = append(w.M, -1)
	}
	// the hash of each name has these digits, most significant bit first
	hash := map[string][]byte{}
	for i := 0; i < n; i++ {
		nb := (depth*w.Lg + 7) / 8
		b := make([]byte, nb)
		for j := 0; j < depth; j++ {
			for k := 0; k < w.Lg; k++ {
				pos := j*w.Lg + k
				bit := byte(w.Dig[i][j]>>uint(w.Lg-1-k)) & 1
				b[pos/8] |= bit << uint(7-pos%8)
			}
		}
		hash[Keys[i]] = b
	}
	internal.HAMTHashFunction = func(v []byte) []byte {
		h, ok := hash[string(v)]
		if !ok {
			sym.Fail("hash/unknown-name")
		}
		return append([]byte{}, h...)
	}
	for i := 0; i < 3; i++ {
		nd := mdag.NodeWithData(ft.FilePBData([]byte("v0 of another length")[:2+9*(2-i)], uint64(2+9*(2-i))))
		if i == 2 {
			// a large file
			nd = mdag.NodeWithData(ft.FilePBData(nil, 1<<40))
			kit.Must(nd.AddRawLink("", &ipld.Link{Cid: w.Val[0].Cid(), Size: 1<<40 + 300}), "world")
		}
		kit.Must(w.DS.Add(ctx, nd), "world")
		w.Val = append(w.Val, nd)
	}
	return w
}

// Shard is a new empty directory.
func (w *World) Shard() *hamt.Shard {
	s, err := hamt.NewShard(w.DS, w.Fan)
	kit.Must(err, "new")
	if w.Builder != nil {
		s.SetCidBuilder(w.Builder)
	}
	return s
}

// Load is the directory as read back from the store.
func (w *World) Load(s *hamt.Shard) *hamt.Shard {
	nd, err := s.Node()
	kit.Must(err, "node")
	r, err := hamt.NewHamtFromDag(w.DS, w.DS.Reload(nd))
	kit.Must(err, "reload")
	return r
}

// Set adds or replaces a name.
func (w *World) Set(s *hamt.Shard, i, v int) {
	kit.Must(s.Set(ctx, Keys[i], w.Val[v]), "set/error")
	w.M[i] = v
}

// Fill inserts the names of the mask, in rising or falling order.
func (w *World) Fill(s *hamt.Shard, mask int, rev bool) {
	for k := 0; k < w.N; k++ {
		i := k
		if rev {
			i = w.N - 1 - k
		}
		if mask>>uint(i)&1 == 1 {
			w.Set(s, i, i%2)
		}
	}
}

// Step is one operation with the result the map model gives.
func (w *World) Step(s *hamt.Shard, op, i int) {
	name := Keys[i]
	old := w.M[i]
	switch op {
	case 0: // replace with a new value
		l, err := s.Swap(ctx, name, w.Val[2])
		kit.Must(err, "swap/error")
		w.was(l, old, "swap/old")
		w.M[i] = 2
	case 1:
		l, err := s.Take(ctx, name)
		if old < 0 {
			sym.Assert(err == os.ErrNotExist, "take/missing")
			return
		}
		kit.Must(err, "take/error")
		w.was(l, old, "take/old")
		w.M[i] = -1
	case 2:
		lnk, err := ipld.MakeLink(w.Val[1])
		kit.Must(err, "link")
		lnk.Name = "ignored"
		kit.Must(s.SetLink(ctx, name, lnk), "setlink/error")
		w.M[i] = 1
	case 3:
		err := s.Remove(ctx, name)
		if old < 0 {
			sym.Assert(err == os.ErrNotExist, "remove/missing")
			return
		}
		kit.Must(err, "remove/error")
		w.M[i] = -1
	case 4:
		w.Find(s, i, "find")
	}
}

func (w *World) was(l *ipld.Link, v int, id string) {
	if v < 0 {
		sym.Assert(l == nil, id+"/none")
		return
	}
	sym.Assert(l != nil && l.Cid == w.Val[v].Cid(), id+"/value")
}

// Find: a lookup gives the value of the model.
func (w *World) Find(s *hamt.Shard, i int, id string) {
	l, err := s.Find(ctx, Keys[i])
	if w.M[i] < 0 {
		sym.Assert(err == os.ErrNotExist, id+"/missing")
		return
	}
	kit.Must(err, id+"/error")
	sym.Assert(l.Cid == w.Val[w.M[i]].Cid(), id+"/value")
	sz, _ := w.Val[w.M[i]].Size()
	sym.Assert(l.Size == sz, id+"/size")
}

// Same: the links are the entries of the model, each once.
func (w *World) Same(ls []*ipld.Link, id string) {
	n := 0
	for i := 0; i < w.N; i++ {
		if w.M[i] >= 0 {
			n++
		}
	}
	sym.Observe(id, len(ls))
	sym.Assert(len(ls) == n, id+"/count")
	for i := 0; i < w.N; i++ {
		if w.M[i] < 0 {
			continue
		}
		k := 0
		for _, l := range ls {
			if l.Name == Keys[i] {
				k++
				sym.Assert(l.Cid == w.Val[w.M[i]].Cid(), id+"/value")
				sz, _ := w.Val[w.M[i]].Size()
				sym.Assert(l.Size == sz, id+"/size")
			}
		}
		sym.Assert(k == 1, id+"/once")
	}
}

// Each is the sequential enumeration.
func (w *World) Each(s *hamt.Shard, id string) {
	var ls []*ipld.Link
	kit.Must(s.ForEachLink(ctx, func(l *ipld.Link) error {
		ls = append(ls, &ipld.Link{Name: l.Name, Cid: l.Cid, Size: l.Size})
		return nil
	}), id+"/error")
	w.Same(ls, id)
	if len(ls) > 0 {
		// it stops at the first error and returns it
		stop, n := errors.New("stop"), 0
		at := (len(ls) + 1) / 2
		err := s.ForEachLink(ctx, func(*ipld.Link) error {
			if n++; n >= at {
				return stop
			}
			return nil
		})
		sym.Assert(err == stop && n == at, id+"/stop")
	}
}

// Enum is the parallel enumeration.
func (w *World) Enum(s *hamt.Shard, id string) {
	ls, err := s.EnumLinks(ctx)
	kit.Must(err, id+"/error")
	w.Same(ls, id)
}

const hex = "0123456789ABCDEF"

func (w *World) prefix(d int) string {
	n := 1
	for 1<<uint(4*n) < w.Fan {
		n++
	}
	p := ""
	for ; n > 0; n-- {
		p = hex[d&15:d&15+1] + p
		d >>= 4
	}
	return p
}

// Ref builds the canonical trie of the entries from its definition: in each
// node one link per occupied digit, in digit order, to the value when one
// name has the digit and to a sub-trie when several have.
func (w *World) Ref() *mdag.ProtoNode {
	var ks []int
	for i := 0; i < w.N; i++ {
		if w.M[i] >= 0 {
			ks = append(ks, i)
		}
	}
	return w.ref(ks, 0)
}

func (w *World) ref(ks []int, level int) *mdag.ProtoNode {
	nd := new(mdag.ProtoNode)
	nd.SetCidBuilder(w.Builder)
	bits := make([]byte, w.Fan/8)
	digs := map[int][]int{}
	var order []int
	for _, i := range ks {
		d := sym.Concretize(w.Dig[i][level])
		if digs[d] == nil {
			order = append(order, d)
		}
		digs[d] = append(digs[d], i)
	}
	if w.Empty != nil {
		if d := w.Empty(level); d >= 0 && digs[d] == nil {
			order = append(order, d)
		}
	}
	sort.Ints(order)
	for _, d := range order {
		bits[len(bits)-1-d/8] |= 1 << uint(d%8)
		in := digs[d]
		var l *ipld.Link
		name := w.prefix(d)
		if len(in) == 1 && (w.Loose == nil || !w.Loose(in[0], level)) {
			l, _ = ipld.MakeLink(w.Val[w.M[in[0]]])
			name += Keys[in[0]]
		} else {
			sub := w.ref(in, level+1)
			if w.Loose != nil {
				kit.Must(w.DS.Add(ctx, sub), "ref")
			}
			l, _ = ipld.MakeLink(sub)
		}
		if nd.AddRawLink(name, l) != nil {
			sym.Fail("ref")
		}
	}
	for len(bits) > 0 && bits[0] == 0 {
		bits = bits[1:]
	}
	if len(bits) == 0 {
		bits = nil
	}
	d, err := ft.HAMTShardData(bits, uint64(w.Fan), hamt.HashMurmur3)
	kit.Must(err, "ref")
	nd.SetData(d)
	return nd
}

// Canonical: the stored root is the canonical trie.
func (w *World) Canonical(s *hamt.Shard, id string) ipld.Node {
	nd, err := s.Node()
	kit.Must(err, id+"/node")
	sym.Assert(nd.Cid() == w.Ref().Cid(), id+"/root")
	return nd
}

// Stored: every sub-shard of the root can be read.
func (w *World) Stored(c cid.Cid, id string) {
	nd, err := w.DS.Get(ctx, c)
	kit.Must(err, id)
	pn, ok := nd.(*mdag.ProtoNode)
	sym.Assert(ok, id+"/type")
	fsn, err := ft.FSNodeFromBytes(pn.Data())
	kit.Must(err, id)
	if fsn.Type() != pb.Data_HAMTShard {
		return
	}
	for _, l := range pn.Links() {
		w.Stored(l.Cid, id)
	}
}

func (w *World) distinct() {
	// names with the same hash cannot share a directory; see Exhaust
	for i := 0; i < w.N; i++ {
		for j := 0; j < i; j++ {
			same := true
			for k := 0; k < w.Depth; k++ {
				same = sym.And(same, w.Dig[i][k] == w.Dig[j][k])
			}
			sym.Assume(!same)
		}
	}
}

// start is a directory with any of the names, freshly built or read back, in
// the latter case with some of its sub-shards loaded.
func (w *World) start() *hamt.Shard {
	s := w.Shard()
	mask := 1<<uint(w.N) - 1
	if sym.Param("full", 0) == 0 {
		mask = sym.Choice("mask", 1<<uint(w.N))
	}
	w.Fill(s, mask, sym.Choice("order", sym.Param("orders", 1)) == 1)
	switch sym.Choice("reload", 3) {
	case 1:
		s = w.Load(s)
	case 2:
		s = w.Load(s)
		w.Find(s, sym.Choice("loaded", w.N), "start/find")
	}
	return s
}

func fan() int { return []int{8, 16, 256}[sym.Choice("fan", sym.Param("fans", 1))] }

func world() *World {
	w := NewWorld(fan(), sym.Param("names", 3), sym.Param("depth", 3), -1)
	w.distinct()
	if sym.Choice("builder", sym.Param("builders", 1)) == 1 {
		w.Builder = cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: -1}
	}
	return w
}

// Map: operations return what a map returns, and leave what a map holds.
func Map() {
	w := world()
	s := w.start()
	for k := 0; k < sym.Param("ops", 2); k++ {
		w.Step(s, sym.Choice("op", sym.Param("kinds", 5)), sym.Choice("name", w.N))
	}
	for i := 0; i < w.N; i++ {
		w.Find(s, i, "final")
	}
	w.Each(s, "each")
	if len(w.Dig) > 1 && w.M[0] >= 0 && w.M[1] >= 0 {
		sym.Reach("two-entries")
	}
}

// Canon: whatever the history, the stored root is the canonical trie of the
// entries, and all of it is stored.
func Canon() {
	w := world()
	s := w.start()
	for k := 0; k < sym.Param("ops", 2); k++ {
		w.Step(s, sym.Choice("op", 2), sym.Choice("name", w.N))
	}
	nd := w.Canonical(s, "canon")
	w.Stored(nd.Cid(), "stored")
	// and again, now that sub-shards were written
	w.Canonical(s, "again")
	if len(nd.Links()) > 0 && len(nd.Links()[0].Name) == len(w.prefix(0)) {
		sym.Reach("sub-shard")
	}
}

// Persist: a directory read back from its stored root has the entries it had,
// and later changes leave the stored version readable as it was.
func Persist() {
	w := world()
	s := w.start()
	nd, err := s.Node()
	kit.Must(err, "node")
	m1 := append([]int{}, w.M...)
	held := nd
	if sym.Choice("continue", 2) == 0 {
		held = w.DS.Reload(nd)
		s, err = hamt.NewHamtFromDag(w.DS, held)
		kit.Must(err, "reload")
		if sym.Choice("listed", 2) == 1 {
			w.Each(s, "each")
		}
	}
	for k := 0; k < sym.Param("ops", 1); k++ {
		w.Step(s, sym.Choice("op", 2), sym.Choice("name", w.N))
	}
	r := w.Load(s)
	for i := 0; i < w.N; i++ {
		w.Find(r, i, "new")
	}
	w.Each(w.Load(s), "new/each")
	w.Enum(w.Load(s), "new/enum")
	// the earlier version; a copy is encoded afresh
	w.M = m1
	sym.Assert(held.Copy().Cid() == nd.Cid(), "held")
	r, err = hamt.NewHamtFromDag(w.DS, w.DS.Reload(nd))
	kit.Must(err, "old/reload")
	for i := 0; i < w.N; i++ {
		w.Find(r, i, "old")
	}
	w.Enum(r, "old/enum")
}

// one is a directory read back from the store with all names, the first two of
// them in one sub-shard.
func (w *World) one() *hamt.Shard {
	sym.Assume(w.Dig[0][0] == 0+w.Fan/2-1)
	sym.Assume(w.Dig[0][0] == w.Dig[1][0])
	sym.Assume(w.Dig[0][1] < w.Dig[1][1])
	s := w.Shard()
	w.Fill(s, 1<<uint(w.N)-1, false)
	return w.Load(s)
}

// drain collects an asynchronous enumeration.
func drain(ch <-chan ft.LinkResult) ([]*ipld.Link, error) {
	var ls []*ipld.Link
	var err error
	for r := range ch {
		if r.Err != nil {
			err = r.Err
			continue
		}
		ls = append(ls, r.Link)
	}
	return ls, err
}

// Enumerate: every enumeration lists exactly the entries, in any schedule,
// and leaves nothing running.
func Enumerate() {
	w := world()
	var s *hamt.Shard
	hows := 3
	if sym.Param("fixed", 0) == 1 {
		s = w.one()
		hows = 2
	} else {
		s = w.start()
	}
	w.DS.Async = sym.Param("async", 1) == 1
	w.DS.Rev = sym.Choice("reverse", 2) == 1
	how := sym.Choice("how", hows)
	sym.Sched(sym.Param("delays", 0))
	if sym.Param("race", 0) == 1 {
		sym.Race()
	}
	switch how {
	case 0:
		w.Enum(s, "enum")
	case 1:
		ls, err := drain(s.EnumLinksAsync(ctx))
		kit.Must(err, "async/error")
		w.Same(ls, "async")
	case 2:
		w.Each(s, "each")
	}
	sym.Sched(0)
	sym.Assert(sym.Quiesce() == 0, "leak")
	// enumerating changes nothing
	w.DS.Async = false
	w.Canonical(s, "after")
}

// subset: no link that is not an entry, and none twice.
func (w *World) subset(ls []*ipld.Link, id string) {
	for i, l := range ls {
		ok := false
		for k := 0; k < w.N; k++ {
			if w.M[k] >= 0 && l.Name == Keys[k] && l.Cid == w.Val[w.M[k]].Cid() {
				ok = true
			}
		}
		sym.Assert(ok, id+"/entry")
		for j := 0; j < i; j++ {
			sym.Assert(ls[j].Name != l.Name, id+"/twice")
		}
	}
}

// Count is the number of entries.
func (w *World) Count() int { return w.count() }

func (w *World) count() int {
	n := 0
	for i := 0; i < w.N; i++ {
		if w.M[i] >= 0 {
			n++
		}
	}
	return n
}

// Cancel: an enumeration that is cancelled at any point ends, leaves nothing
// running, lists only entries, and never passes off part of the directory as
// all of it.
func Cancel() {
	w := world()
	var s *hamt.Shard
	if sym.Param("fixed", 0) == 1 {
		s = w.one()
	} else {
		s = w.Shard()
		w.Fill(s, 1<<uint(w.N)-1, false)
		s = w.Load(s)
	}
	w.DS.Async = sym.Choice("async", 2) == 1
	c, cancel := context.WithCancel(ctx)
	at := sym.Choice("at", sym.Param("at", 4))
	base := w.DS.Gets
	w.DS.OnGet = func(k int) {
		if k-base+1 == at {
			cancel()
		}
	}
	if at == 0 {
		cancel()
	}
	how := sym.Choice("how", 4)
	sym.Sched(sym.Param("delays", 0))
	if sym.Param("race", 0) == 1 {
		sym.Race()
	}
	switch how {
	case 0:
		ls, err := s.EnumLinks(c)
		w.subset(ls, "enum")
		sym.Assert(err != nil || len(ls) == w.count(), "enum/partial")
	case 1:
		ls, _ := drain(s.EnumLinksAsync(c))
		w.subset(ls, "async")
	case 2:
		n := 0
		err := s.ForEachLink(c, func(l *ipld.Link) error { n++; return nil })
		sym.Assert(err != nil || n == w.count(), "each/partial")
	case 3:
		// the consumer leaves
		ch := s.EnumLinksAsync(c)
		for k := sym.Choice("taken", 2); k > 0; k-- {
			<-ch
		}
		cancel()
		for range ch {
		}
	}
	cancel()
	sym.Sched(0)
	sym.Assert(sym.Quiesce() == 0, "leak")
}

// Faults: an operation that meets a storage fault reports an error; without an
// error its result is right. The entries are untouched by a failed operation.
func Faults() {
	w := world()
	s := w.Shard()
	w.Fill(s, sym.Choice("mask", 1<<uint(w.N)), false)
	s = w.Load(s)
	if sym.Choice("warm", 2) == 1 {
		w.Find(s, sym.Choice("loaded", w.N), "start/find")
	}
	if sym.Choice("kind", 2) == 0 {
		w.DS.FailGet = w.DS.Gets + sym.Choice("at", sym.Param("faults", 3))
	} else {
		w.DS.FailAdd = w.DS.Adds + sym.Choice("at", sym.Param("faults", 3))
	}
	i := sym.Choice("name", w.N)
	old := w.M[i]
	var err error
	switch op := sym.Choice("op", 6); op {
	case 0:
		var l *ipld.Link
		l, err = s.Swap(ctx, Keys[i], w.Val[2])
		if err == nil {
			w.was(l, old, "swap/old")
			w.M[i] = 2
		}
	case 1:
		var l *ipld.Link
		l, err = s.Take(ctx, Keys[i])
		if err == nil {
			sym.Assert(old >= 0, "take/missing")
			w.was(l, old, "take/old")
			w.M[i] = -1
		} else if err == os.ErrNotExist {
			sym.Assert(old < 0, "take/lost")
		}
	case 2:
		var l *ipld.Link
		l, err = s.Find(ctx, Keys[i])
		if err == nil {
			sym.Assert(old >= 0 && l.Cid == w.Val[old].Cid(), "find/value")
		} else if err == os.ErrNotExist {
			sym.Assert(old < 0, "find/lost")
		}
	case 3:
		var nd ipld.Node
		nd, err = s.Node()
		if err == nil {
			sym.Assert(nd.Cid() == w.Ref().Cid(), "node/root")
			f := w.DS.Faults
			w.DS.FailGet = -1
			w.Stored(nd.Cid(), "node/stored")
			w.DS.Faults = f
		}
	case 4:
		var ls []*ipld.Link
		ls, err = s.EnumLinks(ctx)
		if err == nil {
			w.Same(ls, "enum")
		} else {
			w.subset(ls, "enum")
		}
	case 5:
		n := 0
		err = s.ForEachLink(ctx, func(l *ipld.Link) error { n++; return nil })
		sym.Assert(err != nil || n == w.count(), "each/partial")
	}
	if w.DS.Faults > 0 {
		sym.Reach("fault")
		sym.Assert(err != nil && err != os.ErrNotExist, "hidden")
	}
	w.DS.FailGet, w.DS.FailAdd = -1, -1
	for k := 0; k < w.N; k++ {
		w.Find(s, k, "after")
	}
	w.Canonical(s, "after")
}

// Exhaust: a name whose hash cannot be told apart from that of an entry is
// refused, and the directory is as before.
func Exhaust() {
	w := NewWorld(fan(), sym.Param("names", 3), sym.Param("depth", 2), -1)
	s := w.Shard()
	// the last name may collide with one of the others, which are distinct
	w.N--
	w.distinct()
	w.Fill(s, sym.Choice("mask", 1<<uint(w.N)), false)
	if sym.Choice("reload", 2) == 1 {
		s = w.Load(s)
	}
	w.N++
	x := w.N - 1
	full := false
	for i := 0; i < x; i++ {
		same := w.M[i] >= 0
		for k := 0; k < w.Depth; k++ {
			same = sym.And(same, w.Dig[i][k] == w.Dig[x][k])
		}
		full = sym.Or(full, same)
	}
	if sym.Choice("remove", 2) == 1 {
		// removing or looking up a colliding name that is not there
		err := s.Remove(ctx, Keys[x])
		sym.Assert(err != nil, "remove")
		_, err = s.Find(ctx, Keys[x])
		sym.Assert(err != nil, "find")
	} else {
		old, err := s.Swap(ctx, Keys[x], w.Val[2])
		if full {
			sym.Reach("collision")
			sym.Assert(err != nil && err != os.ErrNotExist, "accepted")
		} else {
			kit.Must(err, "refused")
			sym.Assert(old == nil, "old")
			w.M[x] = 2
		}
	}
	for i := 0; i < w.N; i++ {
		if w.M[i] >= 0 {
			w.Find(s, i, "after")
		}
	}
	w.Each(s, "each")
	w.Canonical(s, "canon")
}

// Place: names are placed by groups of bits of their hash, whatever the hash.
func Place() {
	f := []int{8, 16, 32, 64, 128, 256, 512, 1024}[sym.Param("fanfrom", 0)+sym.Choice("fan", sym.Param("fans", 6))]
	w := NewWorld(f, sym.Param("names", 2), sym.Param("depth", 2), sym.Choice("wide", sym.Param("depth", 2)))
	w.distinct()
	s := w.Shard()
	w.Fill(s, 1<<uint(w.N)-1, false)
	w.Canonical(s, "root")
	s = w.Load(s)
	for i := 0; i < w.N; i++ {
		w.Find(s, i, "find")
	}
	w.Enum(s, "enum")
	w.Canonical(s, "again")
}

func rotl(x uint64, r uint) uint64 { return x<<r | x>>(64-r) }

func fmix(k uint64) uint64 {
	k ^= k >> 33
	k *= 0xff51afd7ed558ccd
	k ^= k >> 33
	k *= 0xc4ceb9fe1a85ec53
	k ^= k >> 33
	return k
}

// murmur is the first half of the 128-bit MurmurHash3 (x64 variant, seed 0),
// most significant byte first, from its published definition.
func murmur(b []byte) [8]byte {
	const c1, c2 = 0x87c37b91114253d5, 0x4cf5ad432745937f
	word := func(o, n int) uint64 {
		var v uint64
		for i := n - 1; i >= 0; i-- {
			v ^= uint64(b[o+i]) << uint(8*i)
		}
		return v
	}
	var h1, h2 uint64
	n, o := len(b), 0
	for ; o+16 <= n; o += 16 {
		k1, k2 := word(o, 8), word(o+8, 8)
		h1 ^= rotl(k1*c1, 31) * c2
		h1 = (rotl(h1, 27)+h2)*5 + 0x52dce729
		h2 ^= rotl(k2*c2, 33) * c1
		h2 = (rotl(h2, 31)+h1)*5 + 0x38495ab5
	}
	if n-o > 8 {
		h2 ^= rotl(word(o+8, n-o-8)*c2, 33) * c1
	}
	if n-o > 0 {
		m := n - o
		if m > 8 {
			m = 8
		}
		h1 ^= rotl(word(o, m)*c1, 31) * c2
	}
	h1 ^= uint64(n)
	h2 ^= uint64(n)
	h1 += h2
	h2 += h1
	h1 = fmix(h1)
	h2 = fmix(h2)
	h1 += h2
	var out [8]byte
	for i := range out {
		out[i] = byte(h1 >> uint(56-8*i))
	}
	return out
}

// Hash: names are hashed with MurmurHash3.
func Hash() {
	n := sym.Choice("length", sym.Param("max", 16))
	b := sym.Bytes("name", n)
	want := murmur(b)
	got := internal.HAMTHashFunction(append([]byte{}, b...))
	sym.Assert(len(got) == 8, "length")
	for i := range want {
		sym.Assert(got[i] == want[i], "byte")
	}
}

// Malformed: whatever a stored node claims to be, reading it as a sharded
// directory and using it returns results or errors; it never panics.
func Malformed() {
	ds := kit.NewDS()
	val := mdag.NodeWithData(ft.FilePBData([]byte("v"), 1))
	kit.Must(ds.Add(ctx, val), "setup")
	// the hash of a name starts with any byte of the list
	hs := map[string]byte{}
	for _, n := range []string{"a", "b"} {
		hs[n] = byte(sym.Ite(sym.Bool("hash"), 0x02, 0x21))
	}
	internal.HAMTHashFunction = func(v []byte) []byte {
		h, ok := hs[string(v)]
		if !ok {
			h = 0x21
		}
		return []byte{h, 0x12, h, 0}
	}
	var sub ipld.Node = val
	fans := []uint64{8, 256, 16, 1024, 0, 1, 12, 2048, 1 << 63}
	mk := func(top bool) ipld.Node {
		fan := fans[sym.Choice("fanout", sym.Param("fans", 3))]
		max := int(fan/8) + 1
		if max > 3 {
			max = 3
		}
		var bits []byte
		for k := sym.Choice("bytes", max+1); k > 0; k-- {
			bits = append(bits, byte(sym.Ite(sym.Bool("bits"), 0x02, sym.Ite(sym.Bool("bits"), 0x21, 0))))
		}
		typ := pb.Data_HAMTShard
		d := &pb.Data{Type: &typ, Data: bits, Fanout: &fan}
		h := uint64(hamt.HashMurmur3)
		switch sym.Choice("header", sym.Param("headers", 3)) {
		case 1:
			d.Fanout = nil
		case 2:
			d.HashType = &h
			d.Data = nil
		default:
			d.HashType = &h
		}
		nd := kit.PB(d)
		for k := sym.Choice("links", 3); k > 0; k-- {
			names := []string{"1a", "2", "01b", "21", "0", ""}
			l, err := ipld.MakeLink(val)
			kit.Must(err, "setup")
			switch sym.Choice("target", 2) {
			case 1:
				l, err = ipld.MakeLink(sub)
				kit.Must(err, "setup")
			}
			kit.Must(nd.AddRawLink(names[sym.Choice("label", sym.Param("labels", 4))], l), "setup")
		}
		kit.Must(ds.Add(ctx, nd), "setup")
		return nd
	}
	if sym.Choice("block", 2) == 1 {
		// no directory
		nd := []ipld.Node{ds.MkLeaf(kit.RawLeaf, []byte("x")), val, mdag.NodeWithData([]byte{8, 5, 0xff})}[sym.Choice("no-shard", 3)]
		_, err := hamt.NewHamtFromDag(ds, nd)
		sym.Assert(err != nil, "malformed/refused")
		return
	}
	if sym.Param("nested", 0) == 1 {
		sub = mk(false)
	}
	nd := mk(true)
	s, err := hamt.NewHamtFromDag(ds, ds.Reload(nd))
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("opened")
	switch sym.Choice("first", 7) {
	case 0:
		s.Node()
	case 1:
		s.Find(ctx, "a")
	case 2:
		s.Set(ctx, "a", val)
	case 3:
		s.Remove(ctx, "a")
	case 4:
		s.EnumLinks(ctx)
	case 5:
		s.ForEachLink(ctx, func(*ipld.Link) error { return nil })
	case 6:
		s.Link()
	}
	// and what the first operation left
	switch sym.Choice("second", 4) {
	case 0:
		s.Node()
	case 1:
		s.Set(ctx, "b", val)
		s.Node()
	case 2:
		s.Remove(ctx, "b")
		s.EnumLinks(ctx)
	case 3:
		s.ForEachLink(ctx, func(*ipld.Link) error { return nil })
	}
}
