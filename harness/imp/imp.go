// Package imp: importing a chunked file, the DAG it leaves in the store, and
// reading it back.
package imp

import (
	"context"
	"io"
	"os"

	proto "github.com/gogo/protobuf/proto"
	cid "github.com/ipfs/go-cid"
	chunk "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	"github.com/ipfs/go-unixfs/importer/balanced"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	pb "github.com/ipfs/go-unixfs/pb"
	mh "github.com/multiformats/go-multihash"

	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

var ctx = context.Background()

type layout struct {
	build    func(*h.DagBuilderHelper) (ipld.Node, error)
	shape    func(k, links int) *tree
	leafType pb.Data_DataType
}

var bal = layout{balanced.Layout, balancedShape, pb.Data_File}
var tri = layout{trickle.Layout, trickleShape, pb.Data_Raw}

func build(l layout, ds *kit.DS, spl chunk.Splitter, links int, raw bool, b cid.Builder) (ipld.Node, error) {
	p := h.DagBuilderParams{Maxlinks: links, RawLeaves: raw, CidBuilder: b, Dagserv: ds}
	db, err := p.New(spl)
	if err != nil {
		return nil, err
	}
	return l.build(db)
}

// tree is the expected DAG: kids == nil is leaf number leaf.
type tree struct {
	leaf int
	kids []*tree
	node bool
}

// balancedShape: all leaves at one depth, every node but the rightmost full.
func balancedShape(k, m int) *tree {
	if k <= 1 {
		return &tree{leaf: k - 1}
	}
	c := 1
	for c < k {
		c *= m
	}
	next := 0
	var rec func(cap int) *tree
	rec = func(cap int) *tree {
		if cap == 1 {
			next++
			return &tree{leaf: next - 1}
		}
		t := &tree{node: true}
		for i := 0; i < m && next < k; i++ {
			t.kids = append(t.kids, rec(cap/m))
		}
		return t
	}
	return rec(c)
}

// trickleShape: m leaves first, then four subtrees of each depth 1, 2, 3 ...
func trickleShape(k, m int) *tree {
	next := 0
	var rec func(max int) *tree
	rec = func(max int) *tree {
		t := &tree{node: true}
		for i := 0; i < m && next < k; i++ {
			t.kids = append(t.kids, &tree{leaf: next})
			next++
		}
		for d := 1; (max < 0 || d < max) && next < k; d++ {
			for r := 0; r < 4 && next < k; r++ {
				t.kids = append(t.kids, rec(d))
			}
		}
		return t
	}
	return rec(-1)
}

func decode(nd *mdag.ProtoNode) *pb.Data {
	d := new(pb.Data)
	if err := proto.Unmarshal(nd.Data(), d); err != nil {
		sym.Fail("structure/decode")
	}
	return d
}

// verify checks a stored node against the expected tree and returns the number
// of file bytes below it and the cumulative block size.
func verify(ds *kit.DS, nd ipld.Node, t *tree, parts [][]byte, raw bool, leaf pb.Data_DataType) (uint64, uint64) {
	if !t.node {
		var part []byte
		if t.leaf >= 0 {
			part = parts[t.leaf]
		}
		if raw {
			rn, ok := nd.(*mdag.RawNode)
			sym.Assert(ok, "structure/leaf-kind")
			sym.AssertEqBytes(rn.RawData(), part, "structure/leaf-bytes")
			return uint64(len(part)), uint64(len(part))
		}
		pn, ok := nd.(*mdag.ProtoNode)
		sym.Assert(ok, "structure/leaf-kind")
		d := decode(pn)
		sym.Assert(d.GetType() == leaf, "structure/leaf-type")
		sym.Assert(len(pn.Links()) == 0 && len(d.Blocksizes) == 0, "structure/leaf-links")
		sym.AssertEqBytes(d.GetData(), part, "structure/leaf-bytes")
		sym.Assert(d.Filesize != nil && d.GetFilesize() == uint64(len(part)), "structure/leaf-size")
		return uint64(len(part)), uint64(len(pn.RawData()))
	}
	pn, ok := nd.(*mdag.ProtoNode)
	sym.Assert(ok, "structure/node-kind")
	d := decode(pn)
	sym.Assert(d.GetType() == pb.Data_File, "structure/node-type")
	sym.Assert(len(d.GetData()) == 0, "structure/node-data")
	ls := pn.Links()
	sym.Assert(len(ls) == len(t.kids), "structure/fanout")
	sym.Assert(len(d.Blocksizes) == len(ls), "structure/blocksizes")
	cum := uint64(len(pn.RawData()))
	var tot uint64
	for i, l := range ls {
		sym.Assert(l.Name == "", "structure/link-name")
		c, err := ds.Get(ctx, l.Cid)
		kit.Must(err, "structure/child-stored")
		fs, cs := verify(ds, c, t.kids[i], parts, raw, leaf)
		sym.Assert(d.Blocksizes[i] == fs, "structure/blocksize")
		sym.Assert(l.Size == cs, "structure/link-size")
		tot += fs
		cum += cs
	}
	sym.Assert(d.GetFilesize() == tot, "structure/filesize")
	return tot, cum
}

func input() (k, links int, raw bool, spl *kit.Chunks, file []byte) {
	k = sym.Choice("chunks", sym.Param("chunks", 7)+1)
	raw = sym.Choice("raw", 2) == 1
	links = sym.Param("minlinks", 2) + sym.Choice("links", sym.Param("links", 2))
	if m := sym.Param("fixed", 0); m > 0 {
		spl, file = kit.SymChunksFixed(k*sym.Param("step", 1), m)
		return k * sym.Param("step", 1), links, raw, spl, file
	}
	spl, file = kit.SymChunks(k, sym.Param("chunkmax", 1<<20))
	return
}

func readBack(ds *kit.DS, root ipld.Node, file []byte) {
	rd, err := uio.NewDagReader(ctx, root, ds)
	kit.Must(err, "reader/error")
	sym.Assert(rd.Size() == uint64(len(file)), "size")
	buf := make([]byte, len(file)+1)
	n, err := rd.CtxReadFull(ctx, buf)
	sym.Assert(err == io.EOF || err == io.ErrUnexpectedEOF || err == nil, "read/error")
	sym.Observe("n", n)
	sym.AssertEqBytes(buf[:n], file, "read/content")
}

func roundTrip(l layout) {
	ds := kit.NewDS()
	k, links, raw, spl, file := input()
	nd, err := build(l, ds, spl, links, raw, nil)
	kit.Must(err, "import/error")
	readBack(ds, ds.Reload(nd), file)
	if k > 2*links {
		sym.Reach("deep")
	}
}

func BalancedRoundTrip() { roundTrip(bal) }
func TrickleRoundTrip()  { roundTrip(tri) }

func structure(l layout) {
	ds := kit.NewDS()
	k, links, raw, spl, file := input()
	nd, err := build(l, ds, spl, links, raw, nil)
	kit.Must(err, "import/error")
	root := ds.Reload(nd)
	t := l.shape(k, links)
	fs, cum := verify(ds, root, t, spl.Parts, raw, l.leafType)
	sym.Assert(fs == uint64(len(file)), "structure/total")
	sz, err := nd.Size()
	kit.Must(err, "structure/size-error")
	sym.Assert(sz == cum, "structure/root-size")
	if k > 2*links {
		sym.Reach("deep")
	}
}

func BalancedStructure() { structure(bal) }
func TrickleStructure()  { structure(tri) }

// Append adds chunks to a trickle DAG.
func Append() {
	ds := kit.NewDS()
	k := sym.Choice("base", sym.Param("base", 7)+1)
	k2 := sym.Choice("extra", sym.Param("extra", 7)+1)
	raw := sym.Choice("raw", 2) == 1
	links := 2 + sym.Choice("links", sym.Param("links", 2))
	spl, file := kit.SymChunks(k+k2, sym.Param("chunkmax", 1<<20))
	parts := spl.Parts
	spl.Parts = parts[:k]
	nd, err := build(tri, ds, spl, links, raw, nil)
	kit.Must(err, "import/error")
	p := h.DagBuilderParams{Maxlinks: links, RawLeaves: raw, Dagserv: ds}
	db, err := p.New(&kit.Chunks{Parts: parts[k:], FailAt: -1})
	kit.Must(err, "append/new")
	out, err := trickle.Append(ctx, ds.Reload(nd), db)
	kit.Must(err, "append/error")
	kit.Must(ds.Add(ctx, out), "append/add")
	root := ds.Reload(out)
	readBack(ds, root, file)
	verify(ds, root, trickleShape(k+k2, links), parts, raw, pb.Data_Raw)
	if k > links && k2 > links {
		sym.Reach("partial")
	}
}

// AppendFlat appends to a file that is a single node with inline data.
func AppendFlat() {
	ds := kit.NewDS()
	k2 := sym.Choice("extra", sym.Param("extra", 7)+1)
	raw := sym.Choice("raw", 2) == 1
	links := 2 + sym.Choice("links", sym.Param("links", 2))
	spl, file := kit.SymChunks(1+k2, sym.Param("chunkmax", 1<<20))
	parts := spl.Parts
	spl.Parts = parts[:1]
	nd, err := build(bal, ds, spl, links, false, nil)
	kit.Must(err, "import/error")
	p := h.DagBuilderParams{Maxlinks: links, RawLeaves: raw, Dagserv: ds}
	db, err := p.New(&kit.Chunks{Parts: parts[1:], FailAt: -1})
	kit.Must(err, "append/new")
	out, err := trickle.Append(ctx, ds.Reload(nd), db)
	kit.Must(err, "append/error")
	kit.Must(ds.Add(ctx, out), "append/add")
	readBack(ds, ds.Reload(out), file)
}

func faults(l layout) {
	ds := kit.NewDS()
	k, links, raw, spl, file := input()
	n := len(balancedCount(l.shape(k, links)))
	switch sym.Choice("fault", 3) {
	case 0:
		spl.FailAt = sym.Choice("at", k+1)
	case 1:
		ds.FailAdd = sym.Choice("at", n+1)
	case 2:
		// one chunk is larger than a block may be
		if k == 0 {
			sym.Skip()
		}
		i := sym.Choice("at", k)
		over := sym.Int("over", 1, 64)
		big := sym.Bytes("big", h.BlockSizeLimit+over)
		spl.Parts[i] = big
		_, err := build(l, ds, spl, links, raw, nil)
		sym.Assert(err == h.ErrSizeLimitExceeded, "oversized/error")
		sym.Reach("oversized")
		return
	}
	nd, err := build(l, ds, spl, links, raw, nil)
	if spl.FailAt >= 0 {
		sym.Assert(err != nil, "chunker/error")
		sym.Reach("chunker")
		return
	}
	if ds.Faults > 0 {
		sym.Assert(err != nil, "storage/error")
		sym.Reach("storage")
		return
	}
	kit.Must(err, "import/error")
	readBack(ds, ds.Reload(nd), file)
	sym.Reach("no-fault")
}

// balancedCount lists the nodes of a tree.
func balancedCount(t *tree) []*tree {
	out := []*tree{t}
	for _, c := range t.kids {
		out = append(out, balancedCount(c)...)
	}
	return out
}

func BalancedFaults() { faults(bal) }
func TrickleFaults()  { faults(tri) }

// AppendFaults: an append that meets a fault reports it.
func AppendFaults() {
	ds := kit.NewDS()
	k := sym.Choice("base", sym.Param("base", 7)+1)
	k2 := 1 + sym.Choice("extra", sym.Param("extra", 7))
	links := 2 - sym.Choice("links", 2)
	spl, file := kit.SymChunks(k+k2, 1<<20)
	parts := spl.Parts
	spl.Parts = parts[:k]
	l, raw := tri, true
	if k == 1 && sym.Choice("flat", 2) == 1 {
		// a single node with its data
		l, raw = bal, false
	}
	nd, err := build(l, ds, spl, links, raw, nil)
	kit.Must(err, "import/error")
	base := ds.Reload(nd)
	ds.Adds, ds.Gets = 0, 0
	p := h.DagBuilderParams{Maxlinks: links, RawLeaves: true, Dagserv: ds}
	sp := &kit.Chunks{Parts: parts[k:], FailAt: -1}
	switch sym.Choice("fault", 4) {
	case 0:
		sp.FailAt = sym.Choice("at", k2+1)
	case 1:
		ds.FailAdd = sym.Choice("at", 2*k2)
	case 2:
		ds.FailGet = sym.Choice("at", 4)
	case 3:
		// one chunk is larger than a block may be
		big := sym.Bytes("big", h.BlockSizeLimit+sym.Int("over", 1, 64))
		sp.Parts = append([][]byte{}, sp.Parts...)
		sp.Parts[sym.Choice("at", k2)] = big
		db, err := p.New(sp)
		kit.Must(err, "append/new")
		_, err = trickle.Append(ctx, base, db)
		sym.Assert(err == h.ErrSizeLimitExceeded, "append/oversized")
		sym.Reach("oversized")
		return
	}
	db, err := p.New(sp)
	kit.Must(err, "append/new")
	out, err := trickle.Append(ctx, base, db)
	if ds.Faults > 0 || sp.Hit {
		sym.Assert(err != nil, "append/fault-hidden")
		sym.Reach("fault")
		return
	}
	kit.Must(err, "append/error")
	ds.FailAdd, ds.FailGet = -1, -1
	kit.Must(ds.Add(ctx, out), "append/add")
	readBack(ds, ds.Reload(out), file)
}

type fileInfoReader struct{ io.Reader }

func (fileInfoReader) AbsPath() string      { return "/data/file" }
func (fileInfoReader) Stat() os.FileInfo    { return nil }
func (fileInfoReader) Close() error         { return nil }
func (fileInfoReader) Size() (int64, error) { return 0, nil }

type fileChunks struct {
	*kit.Chunks
	with bool
}

func (f fileChunks) Reader() io.Reader {
	if f.with {
		return fileInfoReader{}
	}
	return nil
}

func options(l layout) {
	ds := kit.NewDS()
	k, links, raw, spl, file := input()
	var b cid.Builder
	var pref cid.Prefix
	switch sym.Choice("builder", 4) {
	case 0:
		pref = cid.Prefix{Version: 0, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: -1}
	case 1:
		pref = cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: -1}
		b = pref
	case 2:
		pref = cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.SHA2_512, MhLength: -1}
		b = pref
	case 3:
		pref = cid.Prefix{Version: 0, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: -1}
		b = pref
	}
	nocopy := sym.Choice("nocopy", 2) == 1
	with := !nocopy || sym.Choice("path", 2) == 1
	p := h.DagBuilderParams{Maxlinks: links, RawLeaves: raw, CidBuilder: b, Dagserv: ds, NoCopy: nocopy}
	db, err := p.New(fileChunks{spl, with})
	if !with {
		sym.Assert(err == h.ErrMissingFsRef, "nocopy/without-path")
		sym.Reach("no-path")
		return
	}
	kit.Must(err, "import/new")
	nd, err := l.build(db)
	kit.Must(err, "import/error")
	raws := 0
	for c, blk := range ds.B {
		q := c.Prefix()
		want := pref
		if q.Codec == cid.Raw {
			raws++
			want.Codec = cid.Raw
			want.Version = 1
			sym.Assert(raw, "options/raw-leaf-unasked")
		}
		sym.Assert(q.Codec == want.Codec && q.Version == want.Version && q.MhType == want.MhType, "options/cid")
		s, err := want.Sum(blk.RawData())
		kit.Must(err, "options/sum")
		sym.Assert(s == c, "options/cid-of-content")
	}
	if raw {
		sym.Assert(raws > 0 || k == 0, "options/raw-leaves")
	}
	if nocopy && raw {
		n := 0
		for _, a := range ds.Log {
			if a.Pos == nil {
				continue
			}
			n++
			off := a.Pos.Offset
			sym.Assert(a.Pos.FullPath == "/data/file", "nocopy/path")
			sym.Assert(off <= uint64(len(file)) && uint64(len(a.Data)) <= uint64(len(file))-off, "nocopy/range")
			sym.AssertEqBytes(a.Data, file[off:off+uint64(len(a.Data))], "nocopy/bytes")
		}
		sym.Assert(n == k, "nocopy/every-leaf")
		sym.Reach("filestore")
	} else {
		for _, a := range ds.Log {
			sym.Assert(a.Pos == nil, "nocopy/unasked")
		}
	}
	readBack(ds, ds.Reload(nd), file)
}

func BalancedOptions() { options(bal) }
func TrickleOptions()  { options(tri) }
