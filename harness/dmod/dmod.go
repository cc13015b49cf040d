// Package dmod: writing, seeking and truncating files in place.
package dmod

import (
	"context"
	"io"

	chunk "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	"github.com/ipfs/go-unixfs/importer/balanced"
	help "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	"github.com/ipfs/go-unixfs/mod"

	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

var ctx = context.Background()

func splitter(n int) chunk.SplitterGen {
	return func(r io.Reader) chunk.Splitter { return chunk.NewSizeSplitter(r, int64(n)) }
}

// base is an initial file: its root in the store and its content.
func base(ds *kit.DS) (ipld.Node, []byte, bool) {
	max := sym.Param("leafmax", 3)
	raws := []int{kit.RawLeaf}
	pbs := []int{kit.DataLeaf}
	switch sym.Param("basefrom", 0) + sym.Choice("base", sym.Param("bases", 6)) {
	case 0: // empty file
		n, f := ds.Shape("L", 0, 0, []int{kit.FileLeaf})
		return n, f, false
	case 1: // inline data
		n, f := ds.Shape("L", 1, max, []int{kit.FileLeaf})
		return n, f, false
	case 2:
		n, f := ds.Shape("(LL)", 1, max, raws)
		return n, f, false
	case 3:
		n, f := ds.Shape("((LL)L)", 1, max, pbs)
		return n, f, false
	case 4: // one raw block
		n, f := ds.Shape("L", 1, max, raws)
		return n, f, true
	case 5: // what the importers build
		k := 2 + sym.Choice("chunks", 3)
		spl, f := kit.SymChunks(k, max)
		p := help.DagBuilderParams{Maxlinks: 2, RawLeaves: sym.Choice("raw", 2) == 1, Dagserv: ds}
		db, err := p.New(spl)
		kit.Must(err, "base")
		var n ipld.Node
		if k%2 == 0 {
			n, err = balanced.Layout(db)
		} else {
			n, err = trickle.Layout(db)
		}
		kit.Must(err, "base")
		return n, f, false
	case 6: // many leaves
		n, f := ds.Shape("(LLLLLLLLLLLLL)", 3, 3, pbs)
		return n, f, false
	case 7:
		n, f := ds.Shape("((LLLL)((LLL)(LL)L)(LLL)L)", 3, 3, raws)
		return n, f, false
	case 8:
		spl, f := kit.SymChunksFixed(13, 3)
		p := help.DagBuilderParams{Maxlinks: 2, RawLeaves: true, Dagserv: ds}
		db, err := p.New(spl)
		kit.Must(err, "base")
		n, err := trickle.Layout(db)
		kit.Must(err, "base")
		return n, f, false
	}
	panic("base")
}

// file is the modifier under test with the byte array it must behave as.
type file struct {
	ds  *kit.DS
	dm  *mod.DagModifier
	m   []byte
	pos int
	raw bool // a single raw block: cannot grow
	// lossy: the store has a fault planned, so an operation may fail
	lossy bool
	err   error
}

func open() *file {
	help.DefaultLinksPerBlock = sym.Param("links", 2)
	ds := kit.NewDS()
	n, content, raw := base(ds)
	dm, err := mod.NewDagModifier(ctx, ds.Reload(n), ds, splitter(sym.Param("split", 2)))
	kit.Must(err, "open")
	if sym.Choice("leaves", 2) == 1 {
		dm.RawLeaves = true
	}
	return &file{ds: ds, dm: dm, m: append([]byte{}, content...), raw: raw}
}

// put writes b over the model at off, zero-filling a gap.
func (f *file) put(b []byte, off int) {
	end := off + len(b)
	n := len(f.m)
	if end > n {
		n = end
	}
	x := make([]byte, n)
	copy(x, f.m)
	copy(x[off:], b)
	f.m = x
}

func (f *file) resize(n int) {
	x := make([]byte, n)
	copy(x, f.m)
	f.m = x
}

func (f *file) data() []byte {
	n := sym.Int("len", sym.Param("wmin", 1), sym.Param("wmax", 3))
	return sym.Bytes("data", n)
}

const (
	opWrite = iota
	opWriteAt
	opSeek
	opRead
	opTruncate
	opNode
	opSync
)

func (f *file) step(op int) {
	max := sym.Param("offmax", 6)
	switch op {
	case opWrite:
		b := f.data()
		f.grow(f.pos + len(b))
		n, err := f.dm.Write(append([]byte{}, b...))
		if f.failed(err, "write/error") {
			return
		}
		sym.Assert(n == len(b), "write/count")
		f.put(b, f.pos)
		f.pos += n
	case opWriteAt:
		b := f.data()
		off := sym.Int("off", -1, max)
		f.grow(off + len(b))
		n, err := f.dm.WriteAt(append([]byte{}, b...), int64(off))
		if off < 0 {
			sym.Assert(err != nil, "writeat/negative")
			sym.Reach("negative")
			return
		}
		if f.failed(err, "writeat/error") {
			return
		}
		sym.Assert(n == len(b), "writeat/count")
		if off > len(f.m) {
			sym.Reach("gap")
		}
		f.put(b, off)
		f.pos = off + n
	case opSeek:
		whence := sym.Choice("whence", 4)
		off := sym.Int("off", -max, max)
		p := off
		switch whence {
		case io.SeekCurrent:
			p += f.pos
		case io.SeekEnd:
			p += len(f.m)
		}
		f.grow(p)
		got, err := f.dm.Seek(int64(off), whence)
		if whence == 3 || p < 0 {
			sym.Assert(err != nil, "seek/invalid")
			return
		}
		if f.failed(err, "seek/error") {
			return
		}
		sym.Assert(got == int64(p), "seek/result")
		f.pos = p
		if p > len(f.m) {
			f.resize(p)
		}
	case opRead:
		n := sym.Int("len", 1, sym.Param("rmax", 4))
		b := make([]byte, n)
		var got int
		var err error
		if sym.Choice("full", 2) == 1 {
			got, err = f.dm.CtxReadFull(ctx, b)
		} else {
			got, err = f.dm.Read(b)
		}
		if err != nil && err != io.EOF && f.failed(err, "read/failed") {
			return
		}
		avail := sym.Ite(f.pos < len(f.m), len(f.m)-f.pos, 0)
		sym.Assert(got == sym.Ite(n < avail, n, avail), "read/count")
		if got < n {
			sym.Assert(err == io.EOF, "read/eof")
		} else {
			sym.Assert(err == nil || (err == io.EOF && got == avail), "read/error")
		}
		if got > 0 {
			sym.AssertEqBytes(b[:got], f.m[f.pos:f.pos+got], "read/content")
			f.pos += got
		}
	case opTruncate:
		n := sym.Int("size", -1, max)
		f.grow(n)
		err := f.dm.Truncate(int64(n))
		if n < 0 {
			sym.Assert(err != nil, "truncate/negative")
			return
		}
		if f.failed(err, "truncate/error") {
			return
		}
		f.resize(n)
	case opNode:
		f.node()
	case opSync:
		if f.failed(f.dm.Sync(), "sync/error") {
			return
		}
		sym.Assert(!f.dm.HasChanges(), "sync/changes")
	}
}

// failed: the operation reported an error; without a planned fault that is a
// violation.
func (f *file) failed(err error, id string) bool {
	if err == nil {
		return false
	}
	if !f.lossy {
		kit.Must(err, id)
	}
	f.err = err
	return true
}

// size: the size the modifier reports is that of the model.
func (f *file) size() {
	s, err := f.dm.Size()
	kit.Must(err, "size/error")
	sym.Assert(s == int64(len(f.m)), "size")
}

// node: the node the modifier hands out holds the model.
func (f *file) node() ipld.Node {
	nd, err := f.dm.GetNode()
	kit.Must(err, "node/error")
	st := f.ds.Reload(nd)
	c := f.ds.Content(st, "node")
	sym.Observe("size", len(c))
	sym.AssertEqBytes(c, f.m, "node/content")
	return nd
}

// grow prunes operations that would make a single raw block grow, which the
// modifier refuses.
func (f *file) grow(n int) {
	if f.raw && n > len(f.m) {
		sym.Skip()
	}
}

func run(ops ...int) {
	f := open()
	for i := 0; i < sym.Param("ops", 3); i++ {
		f.step(ops[sym.Choice("op", len(ops))])
		f.size()
	}
	f.node()
	f.size()
}

// Writes: writes and positioned writes.
func Writes() { run(opWrite, opWriteAt, opSync) }

// Ops: any sequence of operations.
func Ops() { run(opWrite, opWriteAt, opSeek, opRead, opTruncate, opNode) }

// Truncates: truncation and growth before and after other operations.
func Truncates() {
	f := open()
	if k := sym.Choice("pre", 3); k > 0 {
		f.step([]int{opWriteAt, opRead}[k-1])
		f.size()
	}
	f.step(opTruncate)
	f.size()
	if k := sym.Choice("post", sym.Param("posts", 4)); k > 0 {
		f.step([]int{opWriteAt, opRead, opTruncate}[k-1])
		f.size()
	}
	f.node()
}

// Faults: one store operation fails. When no operation reports an error the
// file is what was written, and all of it is stored.
func Faults() {
	f := open()
	k := sym.Choice("fault", sym.Param("faults", 8))
	if sym.Choice("kind", 2) == 0 {
		f.ds.FailGet = f.ds.Gets + k
	} else {
		f.ds.FailAdd = f.ds.Adds + k
	}
	f.lossy = true
	for i := 0; i < sym.Param("ops", 2); i++ {
		f.step([]int{opWriteAt, opRead, opTruncate, opSync}[sym.Choice("op", 4)])
		if f.err != nil {
			break
		}
	}
	var nd ipld.Node
	if f.err == nil {
		nd, f.err = f.dm.GetNode()
	}
	if f.ds.Faults == 0 {
		kit.Must(f.err, "fault/spurious")
	} else {
		sym.Reach("fault")
	}
	if f.err != nil {
		sym.Reach("reported")
		return
	}
	f.ds.FailGet, f.ds.FailAdd = -1, -1
	sym.AssertEqBytes(f.ds.Content(f.ds.Reload(nd), "fault"), f.m, "fault/content")
}

// Snapshots: the node the modifier was made from, and those it handed out,
// stay as they were.
func Snapshots() {
	help.DefaultLinksPerBlock = sym.Param("links", 2)
	ds := kit.NewDS()
	n, content, raw := base(ds)
	src := ds.Reload(n)
	dm, err := mod.NewDagModifier(ctx, src, ds, splitter(sym.Param("split", 2)))
	kit.Must(err, "open")
	f := &file{ds: ds, dm: dm, m: append([]byte{}, content...), raw: raw}
	nodes := []ipld.Node{src}
	conts := [][]byte{append([]byte{}, content...)}
	for i := 0; i < sym.Param("ops", 2); i++ {
		f.step([]int{opWriteAt, opTruncate}[sym.Choice("op", 2)])
		nodes = append(nodes, f.node())
		conts = append(conts, append([]byte{}, f.m...))
	}
	for i, n := range nodes {
		// a copy is encoded afresh: it shows what the node holds now
		sym.AssertEqBytes(ds.Content(n.Copy(), "snapshot"), conts[i], "snapshot/content")
	}
}
