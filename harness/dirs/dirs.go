// Package dirs: directories in either form, switching between the forms, and
// path resolution through them.
package dirs

import (
	"context"
	"errors"
	"os"

	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	uio "github.com/ipfs/go-unixfs/io"
	pb "github.com/ipfs/go-unixfs/pb"

	"github.com/ipfs/go-unixfs/zzverif/hm"
	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

var ctx = context.Background()

// World is a world of names with a directory over it.
type World struct {
	*hm.World
	T int // threshold
	// the model of the form of the directory
	Sharded bool
	Net     int // net change of size since the sharded form was taken
}

// world has names some of which share the first digit of their hashes, values
// with identifiers of different lengths, and any threshold.
func world(fixed bool) *World {
	n := sym.Param("names", 3)
	fan := []int{8, 16, 64}[sym.Choice("fan", sym.Param("fans", 1))]
	var dig [][]int
	for i := 0; i < n; i++ {
		d := []int{fan - 2, 1, 0, fan - 1}[i]
		if i > 0 && (sym.Param("clashes", 2) == 3 || sym.Choice("clash", sym.Param("clashes", 2)) == 1) {
			d = fan - 2
		}
		dig = append(dig, []int{d, []int{1, 0, fan - 1, 2}[i]})
	}
	return worldOf(hm.NewWorldOf(fan, dig), fixed)
}

func worldOf(h *hm.World, fixed bool) *World {
	w := &World{World: h}
	// an identifier of version 1 is longer
	v1 := mdag.NodeWithData(ft.FilePBData([]byte("v1 value"), 8))
	v1.SetCidBuilder(mdag.V1CidPrefix())
	kit.Must(w.DS.Add(ctx, v1), "world")
	w.Val[1] = v1
	uio.DefaultShardWidth = w.Fan
	hi := 0
	for i := 0; i < w.N; i++ {
		hi += w.size(i, 1) + 1
	}
	if fixed {
		w.T = []int{0, 1, 1 << 20}[sym.Choice("form", 3)]
	} else {
		w.T = sym.Int("threshold", 0, hi)
	}
	uio.HAMTShardingSize = w.T
	return w
}

// size is the documented estimate: the lengths of the name and the identifier.
func (w *World) size(i, v int) int { return len(hm.Keys[i]) + w.Val[v].Cid().ByteLen() }

func (w *World) total() int {
	s := 0
	for i, v := range w.M {
		if v >= 0 {
			s += w.size(i, v)
		}
	}
	return s
}

// form is the stored form of the directory.
func form(d uio.Directory, id string) bool {
	nd, err := d.GetNode()
	kit.Must(err, id+"/node")
	fsn, err := ft.ExtractFSNode(nd)
	kit.Must(err, id+"/format")
	switch fsn.Type() {
	case ft.TDirectory:
		return false
	case ft.THAMTShard:
		return true
	}
	sym.Fail(id + "/type")
	return false
}

// Add puts a value under a name, in the directory and the model.
func (w *World) Add(d uio.Directory, i, v int) {
	kit.Must(d.AddChild(ctx, hm.Keys[i], w.Val[v]), "add/error")
	w.moved(i, v)
}

// Remove removes a name.
func (w *World) Remove(d uio.Directory, i int) {
	err := d.RemoveChild(ctx, hm.Keys[i])
	if w.M[i] < 0 {
		sym.Assert(err == os.ErrNotExist, "remove/missing")
		return
	}
	kit.Must(err, "remove/error")
	w.moved(i, -1)
}

// moved updates the model: entries and form.
func (w *World) moved(i, v int) {
	delta := 0
	if w.M[i] >= 0 {
		delta -= w.size(i, w.M[i])
	}
	if v >= 0 {
		delta += w.size(i, v)
	}
	w.M[i] = v
	if w.T == 0 {
		w.Net += delta
		return
	}
	if !w.Sharded {
		if v >= 0 && w.total() >= w.T {
			w.Sharded = true
			w.Net = delta
		}
		return
	}
	w.Net += delta
	if w.Net < 0 && w.total() < w.T {
		w.Sharded = false
	}
}

// Check compares every way of looking at the directory with the model.
func (w *World) Check(d uio.Directory, id string) {
	for i := 0; i < w.N; i++ {
		nd, err := d.Find(ctx, hm.Keys[i])
		if w.M[i] < 0 {
			sym.Assert(err == os.ErrNotExist, id+"/find-missing")
			continue
		}
		kit.Must(err, id+"/find-error")
		sym.Assert(nd.Cid() == w.Val[w.M[i]].Cid(), id+"/find-value")
	}
	var ls []*ipld.Link
	kit.Must(d.ForEachLink(ctx, func(l *ipld.Link) error {
		ls = append(ls, &ipld.Link{Name: l.Name, Cid: l.Cid, Size: l.Size})
		return nil
	}), id+"/each-error")
	w.Same(ls, id+"/each")
	if len(ls) > 0 {
		// it stops at the first error and returns it
		stop, n := errors.New("stop"), 0
		at := (len(ls) + 1) / 2
		err := d.ForEachLink(ctx, func(*ipld.Link) error {
			if n++; n >= at {
				return stop
			}
			return nil
		})
		sym.Assert(err == stop && n == at, id+"/each-stop")
	}
	ls, err := d.Links(ctx)
	kit.Must(err, id+"/links-error")
	w.Same(ls, id+"/links")
	ls = nil
	for r := range d.EnumLinksAsync(ctx) {
		kit.Must(r.Err, id+"/async-error")
		ls = append(ls, r.Link)
	}
	w.Same(ls, id+"/async")
}

// Store stores the directory as a user does and returns the root.
func (w *World) Store(d uio.Directory, id string) ipld.Node {
	nd, err := d.GetNode()
	kit.Must(err, id+"/node")
	kit.Must(w.DS.Add(ctx, nd), id+"/store")
	return nd
}

// Open opens a stored directory.
func (w *World) Open(c cid.Cid, id string) uio.Directory {
	nd, err := w.DS.Get(ctx, c)
	kit.Must(err, id+"/stored")
	d, err := uio.NewDirectoryFromNode(w.DS, nd)
	kit.Must(err, id+"/open")
	w.Net = 0
	return d
}

// start is a directory with some entries, made in memory or opened from the
// store, with everything or little loaded.
func (w *World) start() uio.Directory {
	d := uio.NewDirectory(w.DS)
	mask := sym.Choice("mask", 1<<uint(w.N))
	if sym.Param("full", 0) == 1 {
		mask = 1<<uint(w.N) - 1
	}
	for i := 0; i < w.N; i++ {
		if mask>>uint(i)&1 == 1 {
			w.Add(d, i, i%2)
		}
	}
	if sym.Param("reopen", 0) == 1 || sym.Choice("opened", 2) == 1 {
		d = w.Open(w.Store(d, "start").Cid(), "start")
	}
	return d
}

// Map: a directory is a map from names to entries in whatever form it is.
func Map() {
	w := world(false)
	d := w.start()
	for k := sym.Param("ops", 2); k > 0; k-- {
		i := sym.Choice("name", w.N)
		switch sym.Choice("op", 3) {
		case 0:
			w.Add(d, i, 2)
		case 1:
			w.Add(d, i, 1)
		case 2:
			w.Remove(d, i)
		}
	}
	w.Check(d, "map")
	if form(d, "map") {
		sym.Reach("sharded")
	} else {
		sym.Reach("basic")
	}
	d = w.Open(w.Store(d, "map").Cid(), "map")
	w.Check(d, "reopened")
}

// Concurrent: what an operation leaves running does not touch the directory
// any more, under every schedule.
func Concurrent() {
	w := world(false)
	d := w.start()
	w.DS.Async = sym.Param("async", 0) == 1 || sym.Choice("async", 2) == 1
	if sym.Param("race", 1) == 1 {
		sym.Race()
	}
	sym.Sched(sym.Param("delays", 0))
	for k := sym.Param("ops", 2); k > 0; k-- {
		i := sym.Choice("name", w.N)
		switch sym.Choice("op", sym.Param("opkinds", 2)) {
		case 1:
			w.Add(d, i, 2)
		case 0:
			w.Remove(d, i)
		}
	}
	sym.Sched(0)
	sym.Assert(sym.Quiesce() == 0, "leak")
	w.Check(d, "map")
}

// Switch: the form of the directory follows its size.
func Switch() {
	w := world(false)
	d := w.start()
	was := w.Sharded
	sym.Assert(form(d, "switch/start") == w.Sharded, "switch/start")
	switch sym.Choice("threshold", sym.Param("changes", 3)) {
	case 1: // no longer sharding by size
		w.T = 0
	case 2:
		w.T = sym.Int("other-threshold", 0, 2*w.T)
	}
	uio.HAMTShardingSize = w.T
	for k := sym.Param("ops", 2); k > 0; k-- {
		i := sym.Choice("name", w.N)
		switch sym.Choice("op", 3) {
		case 0:
			w.Add(d, i, 2)
		case 1:
			w.Add(d, i, 1)
		case 2:
			w.Remove(d, i)
		}
		f := form(d, "switch")
		sym.Observe("sharded", sym.Ite(f, 1, 0))
		sym.Assert(f == w.Sharded, "switch/form")
		if f && !was {
			sym.Reach("to-sharded")
		}
		if !f && was {
			sym.Reach("to-basic")
		}
		was = f
	}
}

// ref is the root a directory with these entries has in its form.
func (w *World) root(b cid.Builder) cid.Cid {
	if w.Sharded {
		w.Builder = b
		nd := w.Ref()
		return nd.Cid()
	}
	nd := ft.EmptyDirNode()
	nd.SetCidBuilder(b)
	for i := 0; i < w.N; i++ {
		if w.M[i] >= 0 {
			kit.Must(nd.AddNodeLink(hm.Keys[i], w.Val[w.M[i]]), "ref")
		}
	}
	return nd.Cid()
}

// Canon: the stored directory depends on its entries, its form and its
// identifier options only; conversions keep the options, storing it leaves
// nothing out, and nodes it was opened from do not change.
func Canon() {
	w := world(false)
	var b cid.Builder = []cid.Builder{nil, mdag.V1CidPrefix()}[sym.Choice("builder", 2)]
	d := uio.NewDirectory(w.DS)
	d.SetCidBuilder(b)
	mask := sym.Choice("mask", 1<<uint(w.N))
	for i := 0; i < w.N; i++ {
		if mask>>uint(i)&1 == 1 {
			w.Add(d, i, i%2)
		}
	}
	var held ipld.Node
	var before []byte
	if sym.Choice("opened", 2) == 1 {
		nd, err := w.DS.Get(ctx, w.Store(d, "start").Cid())
		kit.Must(err, "start/stored")
		held, before = nd, append([]byte{}, nd.RawData()...)
		d, err = uio.NewDirectoryFromNode(w.DS, nd)
		kit.Must(err, "start/open")
		w.Net = 0
	}
	for k := sym.Param("ops", 1); k > 0; k-- {
		i := sym.Choice("name", w.N)
		if sym.Choice("op", 2) == 0 {
			w.Add(d, i, 2)
		} else {
			w.Remove(d, i)
		}
	}
	f := form(d, "canon")
	sym.Assert(f == w.Sharded, "canon/form")
	nd := w.Store(d, "canon")
	sym.Assert(nd.Cid() == w.root(b), "canon/root")
	if b != nil {
		sym.Assert(d.GetCidBuilder() != nil && nd.Cid().Version() == 1, "canon/version")
	}
	if f {
		w.Stored(nd.Cid(), "canon/stored")
	}
	if held != nil {
		sym.AssertEqBytes(held.RawData(), before, "canon/held")
		nd, err := mdag.DecodeProtobuf(held.RawData())
		kit.Must(err, "canon/held-decode")
		sym.Assert(len(held.Links()) == len(nd.Links()), "canon/held-links")
	}
}

// Reject: only directories open as directories.
func Reject() {
	ds := kit.NewDS()
	uio.HAMTShardingSize = sym.Int("threshold", 0, 100)
	t := pb.Data_DataType(sym.Int("type", -1, 8))
	var nd ipld.Node
	k := sym.Choice("node", 4)
	switch k {
	case 0:
		nd = kit.PB(&pb.Data{Type: &t, Data: sym.Bytes("data", sym.Int("len", 0, 3))})
	case 1:
		nd = mdag.NewRawNode(sym.Bytes("data", sym.Int("len", 0, 3)))
	case 2:
		nd = mdag.NodeWithData(nil)
	case 3:
		nd = mdag.NodeWithData([]byte{0xff, 0x01})
	}
	d, err := uio.NewDirectoryFromNode(ds, nd)
	if err != nil {
		sym.Assert(d == nil, "reject/nil")
		sym.Assert(k != 0 || t != ft.TDirectory, "reject/directory")
		sym.Reach("refused")
		return
	}
	sym.Reach("opened")
	sym.Assert(k == 0 && t == ft.TDirectory, "reject/other")
}

// Faults: a failed store operation or a cancelled context is reported by the
// operation it hits, and the directory stays as it was.
func Faults() {
	w := world(false)
	d := w.start()
	i := sym.Choice("name", w.N)
	op := sym.Choice("op", 8)
	c, cancel := context.WithCancel(ctx)
	defer cancel()
	w.DS.Gets, w.DS.Adds = 0, 0
	at := sym.Choice("at", sym.Param("at", 3))
	switch sym.Choice("fault", 4) {
	case 0:
		w.DS.FailGet = at
	case 1:
		w.DS.FailAdd = at
	case 2:
		cancel()
	case 3:
		w.DS.OnGet = func(k int) {
			if k == at {
				cancel()
			}
		}
	}
	var err error
	old := w.M[i]
	switch op {
	case 0, 1:
		err = d.AddChild(c, hm.Keys[i], w.Val[op+1])
		if err == nil {
			w.moved(i, op+1)
		}
	case 2:
		err = d.RemoveChild(c, hm.Keys[i])
		if err == nil {
			sym.Assert(old >= 0, "remove/missing")
			w.moved(i, -1)
		} else if err == os.ErrNotExist {
			sym.Assert(old < 0, "remove/hidden")
		}
	case 3:
		var nd ipld.Node
		nd, err = d.Find(c, hm.Keys[i])
		if err == nil {
			sym.Assert(old >= 0 && nd.Cid() == w.Val[old].Cid(), "find/value")
		} else if err == os.ErrNotExist {
			sym.Assert(old < 0, "find/hidden")
		}
	case 4:
		var ls []*ipld.Link
		ls, err = d.Links(c)
		if err == nil {
			w.Same(ls, "links")
		}
	case 5:
		var ls []*ipld.Link
		err = d.ForEachLink(c, func(l *ipld.Link) error {
			ls = append(ls, &ipld.Link{Name: l.Name, Cid: l.Cid, Size: l.Size})
			return nil
		})
		if err == nil {
			w.Same(ls, "each")
		}
	case 7:
		var ls []*ipld.Link
		for r := range d.EnumLinksAsync(c) {
			if r.Err != nil {
				err = r.Err
			} else {
				ls = append(ls, r.Link)
			}
		}
		if err == nil && c.Err() == nil {
			w.Same(ls, "async")
		}
		sym.Assert(len(ls) <= w.Count(), "async/extra")
		sym.Assert(sym.Quiesce() == 0, "async/leak")
	case 6:
		var nd ipld.Node
		nd, err = d.GetNode()
		if err == nil && w.Sharded {
			fg, fa := w.DS.FailGet, w.DS.FailAdd
			w.DS.FailGet, w.DS.FailAdd, w.DS.OnGet = -1, -1, nil
			w.Stored(nd.Cid(), "node/stored")
			w.DS.FailGet, w.DS.FailAdd = fg, fa
		}
	}
	if err != nil {
		sym.Reach("failed")
	}
	if w.DS.Faults > 0 {
		sym.Reach("fault")
		// a read that only served to estimate the size may be given up
		sym.Assert(err != nil || op <= 2 && w.DS.FailGet >= 0, "faults/hidden")
	}
	w.DS.FailGet, w.DS.FailAdd, w.DS.OnGet = -1, -1, nil
	w.Check(d, "after")
	if op <= 2 && err == nil {
		sym.Assert(form(d, "after") == w.Sharded, "after/form")
	}
	w.Check(w.Open(w.Store(d, "after").Cid(), "after"), "reopened")
}
