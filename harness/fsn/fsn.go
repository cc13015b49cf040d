// Package fsn: the UnixFS message and its helpers, and malformed file nodes.
package fsn

import (
	"context"
	"io"

	proto "github.com/gogo/protobuf/proto"
	chunk "github.com/ipfs/go-ipfs-chunker"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	help "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	uio "github.com/ipfs/go-unixfs/io"
	"github.com/ipfs/go-unixfs/mod"
	pb "github.com/ipfs/go-unixfs/pb"

	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

var ctx = context.Background()

var types = []pb.Data_DataType{pb.Data_Raw, pb.Data_Directory, pb.Data_File, pb.Data_Metadata, pb.Data_Symlink, pb.Data_HAMTShard}

// model is what an FSNode must hold.
type model struct {
	t     pb.Data_DataType
	data  []byte
	sizes []uint64
	total uint64
}

// known is the size that FileSize and DataSize report.
func (m *model) known() (uint64, bool) {
	switch m.t {
	case pb.Data_File, pb.Data_Raw:
		return m.total, true
	case pb.Data_Symlink:
		return uint64(len(m.data)), true
	}
	return 0, false
}

func (m *model) same(n *ft.FSNode, id string) {
	sym.Assert(n.Type() == m.t, id+"/type")
	sym.Assert(n.IsDir() == (m.t == pb.Data_Directory || m.t == pb.Data_HAMTShard), id+"/dir")
	sym.AssertEqBytes(n.Data(), m.data, id+"/data")
	sym.Assert(n.NumChildren() == len(m.sizes), id+"/children")
	sym.Assert(len(n.BlockSizes()) == len(m.sizes), id+"/sizes")
	for i, s := range m.sizes {
		sym.Assert(n.BlockSize(i) == s && n.BlockSizes()[i] == s, id+"/size")
	}
	sz, _ := m.known()
	sym.Assert(n.FileSize() == sz, id+"/filesize")
}

// FSNode: the accounting of a node under any edits, and its round trip.
func FSNode() {
	m := &model{t: types[sym.Choice("type", len(types))]}
	n := ft.NewFSNode(m.t)
	for k := sym.Choice("start", sym.Param("start", 0)+1); k > 0; k-- {
		s := sym.Uint64("size")
		n.AddBlockSize(s)
		m.sizes = append(m.sizes, s)
		m.total += s
	}
	for k := sym.Param("ops", 3); k > 0; k-- {
		switch sym.Choice("op", 5) {
		case 0:
			s := sym.Uint64("size")
			n.AddBlockSize(s)
			m.sizes = append(m.sizes, s)
			m.total += s
		case 1:
			if len(m.sizes) == 0 {
				sym.Skip()
			}
			i := sym.Choice("index", len(m.sizes))
			n.RemoveBlockSize(i)
			m.total -= m.sizes[i]
			var r []uint64
			for j, s := range m.sizes {
				if j != i {
					r = append(r, s)
				}
			}
			m.sizes = r
		case 2:
			b := sym.Bytes("data", sym.Int("len", 0, 1<<20))
			n.SetData(b)
			m.total += uint64(len(b)) - uint64(len(m.data))
			m.data = b
		case 3:
			n.RemoveAllBlockSizes()
			m.sizes = nil
			m.total = uint64(len(m.data))
		case 4:
			d := sym.AnyInt64("diff")
			n.UpdateFilesize(d)
			m.total += uint64(d)
		}
		m.same(n, "fsnode")
	}
	b, err := n.GetBytes()
	kit.Must(err, "fsnode/encode")
	// every field is there once: type, data if ever set, total, child sizes
	want := 2 + 1 + ulen(m.total)
	if m.data != nil {
		want += 1 + ulen(uint64(len(m.data))) + len(m.data)
	}
	for _, s := range m.sizes {
		want += 1 + ulen(s)
	}
	if sym.Param("length", 0) == 1 {
		sym.Assert(len(b) == want, "fsnode/length")
	}
	r, err := ft.FSNodeFromBytes(b)
	kit.Must(err, "fsnode/decode")
	m.same(r, "decoded")
	x, err := ft.ExtractFSNode(mdag.NodeWithData(b))
	kit.Must(err, "fsnode/extract")
	m.same(x, "extracted")
	u, err := ft.UnwrapData(b)
	kit.Must(err, "fsnode/unwrap")
	sym.AssertEqBytes(u, m.data, "unwrapped")
	sz, err := ft.DataSize(b)
	total, ok := m.known()
	sym.Assert(ok == (err == nil), "datasize/error")
	sym.Assert(sz == total, "datasize")
	// the same message again
	c, err := r.GetBytes()
	kit.Must(err, "fsnode/reencode")
	sym.AssertEqBytes(c, b, "fsnode/stable")
}

// ulen is the length of the varint of x, without branching.
func ulen(x uint64) int {
	n := 1
	for k := uint(7); k < 64; k += 7 {
		n += sym.Ite(x>>k != 0, 1, 0)
	}
	return n
}

func uv(b []byte, x uint64) []byte {
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}

// wire is the reference encoding: fields in order, absent ones left out,
// sizes of children not packed.
func wire(t int, data []byte, has bool, filesize *uint64, sizes []uint64, hash, fan *uint64) []byte {
	b := uv([]byte{0x08}, uint64(t))
	if has {
		b = uv(append(b, 0x12), uint64(len(data)))
		b = append(b, data...)
	}
	if filesize != nil {
		b = uv(append(b, 0x18), *filesize)
	}
	for _, s := range sizes {
		b = uv(append(b, 0x20), s)
	}
	if hash != nil {
		b = uv(append(b, 0x28), *hash)
	}
	if fan != nil {
		b = uv(append(b, 0x30), *fan)
	}
	return b
}

// Helpers: the constructors encode what the format prescribes and the
// accessors give it back.
func Helpers() {
	n := sym.Concretize(sym.Int("len", 0, sym.Param("max", 3)))
	data := sym.Bytes("data", n)
	num := func(name string) uint64 {
		// one value per length of a varint
		return []uint64{0, 1, 127, 128, 300, 16383, 16384, 1 << 21, 1<<35 + 5, 1<<63 + 1}[sym.Choice(name, sym.Param("nums", 10))]
	}
	ref := func(x uint64) *uint64 { return &x }
	switch sym.Choice("kind", 8) {
	case 0:
		t := num("total")
		b := ft.FilePBData(data, t)
		sym.AssertEqBytes(b, wire(2, data, true, ref(t), nil, nil, nil), "file")
		same(b, &model{t: pb.Data_File, data: data, total: t})
		r, err := ft.ReadUnixFSNodeData(mdag.NodeWithData(b))
		kit.Must(err, "file/read")
		sym.AssertEqBytes(r, data, "file/read")
	case 1:
		b := ft.FolderPBData()
		sym.AssertEqBytes(b, wire(1, nil, false, nil, nil, nil, nil), "folder")
		same(b, &model{t: pb.Data_Directory})
		sym.AssertEqBytes(ft.EmptyDirNode().Data(), b, "folder/node")
		_, err := ft.ReadUnixFSNodeData(ft.EmptyDirNode())
		sym.Assert(err != nil, "folder/read")
		// a new node every time
		x := ft.EmptyDirNode()
		kit.Must(x.AddNodeLink("a", ft.EmptyFileNode()), "folder/link")
		sym.Assert(len(ft.EmptyDirNode().Links()) == 0, "folder/shared")
	case 2:
		b := ft.WrapData(data)
		sym.AssertEqBytes(b, wire(0, data, true, ref(uint64(n)), nil, nil, nil), "raw")
		same(b, &model{t: pb.Data_Raw, data: data, total: uint64(n)})
		r, err := ft.ReadUnixFSNodeData(mdag.NodeWithData(b))
		kit.Must(err, "raw/read")
		sym.AssertEqBytes(r, data, "raw/read")
	case 3:
		b, err := ft.SymlinkData(string(data))
		kit.Must(err, "symlink")
		sym.AssertEqBytes(b, wire(4, data, true, nil, nil, nil, nil), "symlink")
		same(b, &model{t: pb.Data_Symlink, data: data})
		_, err = ft.ReadUnixFSNodeData(mdag.NodeWithData(b))
		sym.Assert(err != nil, "symlink/read")
	case 4:
		fan, h := num("fan"), num("hash")
		b, err := ft.HAMTShardData(data, fan, h)
		kit.Must(err, "shard")
		sym.AssertEqBytes(b, wire(5, data, true, nil, nil, ref(h), ref(fan)), "shard")
		same(b, &model{t: pb.Data_HAMTShard, data: data})
		x, err := ft.FSNodeFromBytes(b)
		kit.Must(err, "shard/decode")
		sym.Assert(x.Fanout() == fan && x.HashType() == h, "shard/header")
	case 5:
		t := num("total")
		md := &ft.Metadata{MimeType: string(data), Size: t}
		b, err := ft.BytesForMetadata(md)
		kit.Must(err, "metadata")
		in := append(uv([]byte{0x0a}, uint64(n)), data...)
		sym.AssertEqBytes(b, wire(3, in, true, ref(t), nil, nil, nil), "metadata")
		r, err := ft.MetadataFromBytes(b)
		kit.Must(err, "metadata/decode")
		sym.Assert(r.MimeType == md.MimeType, "metadata/mime")
		sym.Assert(r.Size == t, "metadata/size")
		_, err = ft.DataSize(b)
		sym.Assert(err != nil, "metadata/datasize")
		_, err = ft.ReadUnixFSNodeData(mdag.NodeWithData(b))
		sym.Assert(err != nil, "metadata/read")
	case 6:
		b := ft.EmptyFileNode().Data()
		sym.Assert(string(b) == string(ft.FilePBData(nil, 0)), "empty")
		same(b, &model{t: pb.Data_File})
		// other types are not metadata
		_, err := ft.MetadataFromBytes(b)
		sym.Assert(err != nil, "empty/metadata")
		r, err := ft.ReadUnixFSNodeData(mdag.NewRawNode(data))
		kit.Must(err, "leaf/read")
		sym.AssertEqBytes(r, data, "leaf/read")
		_, err = ft.ExtractFSNode(mdag.NewRawNode(data))
		sym.Assert(err != nil, "leaf/extract")
	case 7:
		// a node with children
		x := ft.NewFSNode(pb.Data_File)
		var sizes []uint64
		tot := uint64(n)
		for k := sym.Choice("children", 3); k > 0; k-- {
			s := num("size")
			x.AddBlockSize(s)
			sizes = append(sizes, s)
			tot += s
		}
		if n > 0 {
			x.SetData(data)
		}
		b, err := x.GetBytes()
		kit.Must(err, "node")
		sym.AssertEqBytes(b, wire(2, data, n > 0, ref(tot), sizes, nil, nil), "node")
	}
}

func same(b []byte, m *model) {
	x, err := ft.FSNodeFromBytes(b)
	kit.Must(err, "decode")
	m.same(x, "decoded")
	u, err := ft.UnwrapData(b)
	kit.Must(err, "unwrap")
	sym.AssertEqBytes(u, m.data, "unwrapped")
	sz, err := ft.DataSize(b)
	want, ok := m.known()
	sym.Assert(ok == (err == nil), "datasize/error")
	sym.Assert(sz == want, "datasize")
	y, err := ft.FromBytes(b)
	kit.Must(err, "decode")
	sym.Assert(y.GetType() == m.t, "frombytes")
}

// bad is a file node whose recorded sizes, number of recorded sizes, type and
// inline data need not fit its children.
func bad(ds *kit.DS, level int) ipld.Node {
	num := func(name string) uint64 {
		if sym.Param("anysize", 0) == 1 {
			return sym.Uint64(name)
		}
		return sym.Ite64(sym.Bool(name+"?"), []uint64{1 << 63, 1<<64 - 1, 5}[sym.Choice(name+"big", sym.Param("bigs", 2))], uint64(sym.Int(name, 0, 4)))
	}
	if level == 0 {
		var n ipld.Node
		switch sym.Choice("leaf", sym.Param("leaves", 4)) {
		case 0:
			n = mdag.NewRawNode(sym.Bytes("leaf", sym.Int("leaflen", 0, 2)))
		case 1:
			n = kit.PB(&pb.Data{Type: pb.Data_File.Enum(), Data: sym.Bytes("leaf", sym.Int("leaflen", 0, 2)), Filesize: proto.Uint64(num("leafsize"))})
		case 2: // nothing
			n = mdag.NodeWithData(nil)
		case 3:
			n = kit.PB(&pb.Data{Type: pb.Data_Directory.Enum()})
		}
		kit.Must(ds.Add(ctx, n), "bad")
		return n
	}
	m := &pb.Data{Type: []*pb.Data_DataType{pb.Data_File.Enum(), pb.Data_Raw.Enum(), pb.Data_Symlink.Enum(), pb.Data_Directory.Enum()}[sym.Choice("type", sym.Param("types", 2))]}
	if sym.Choice("total", 2) == 1 {
		m.Filesize = proto.Uint64(num("total"))
	}
	for k := sym.Choice("sizes", sym.Param("sizes", 3)); k > 0; k-- {
		m.Blocksizes = append(m.Blocksizes, num("size"))
	}
	if sym.Choice("inline", 2) == 1 {
		m.Data = sym.Bytes("inline", 1)
	}
	n := kit.PB(m)
	for k := sym.Choice("links", sym.Param("links", 3)); k > 0; k-- {
		kit.Must(n.AddNodeLink("", bad(ds, level-1)), "bad")
	}
	kit.Must(ds.Add(ctx, n), "bad")
	return n
}

// badRoot is a malformed file, or no file at all.
func badRoot(ds *kit.DS) (ipld.Node, bool) {
	var n ipld.Node
	switch sym.Choice("garbage", 3) {
	case 0:
		return bad(ds, sym.Param("levels", 1)), false
	case 1:
		n = mdag.NodeWithData(nil)
	case 2:
		n = mdag.NodeWithData([]byte{8, 2, 0xff})
	}
	kit.Must(ds.Add(ctx, n), "bad")
	return n, true
}

// MalformedRead: reading a malformed file gives an error or some bytes; it
// neither panics nor goes on for ever.
func MalformedRead() {
	ds := kit.NewDS()
	n, garbage := badRoot(ds)
	r, err := uio.NewDagReader(ctx, ds.Reload(n), ds)
	sym.Assert(err != nil || !garbage, "read/garbage")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.Reach("opened")
	b := make([]byte, 3)
	for k := sym.Param("ops", 2); k > 0; k-- {
		switch sym.Choice("op", 4) {
		case 0:
			m, err := r.Read(b[:sym.Choice("want", 4)])
			sym.Assert(m >= 0 && m <= 3, "read/count")
			_ = err
		case 1:
			off := int64(sym.Int("off", -5, 8))
			m, err := r.Seek(off, sym.Choice("whence", 3))
			sym.Assert(err != nil || m >= 0, "seek/negative")
		case 2:
			w := &counter{}
			m, err := r.WriteTo(w)
			sym.Assert(err != nil || m == int64(w.n), "writeto/count")
			sym.Assert(w.n <= 64, "writeto/endless")
		case 3:
			m, err := r.CtxReadFull(ctx, b)
			sym.Assert(m >= 0 && m <= 3, "readfull/count")
			_ = err
		}
	}
	r.Close()
	sym.Assert(sym.Quiesce() == 0, "leak")
}

type counter struct{ n int }

func (c *counter) Write(b []byte) (int, error) {
	c.n += len(b)
	return len(b), nil
}

// MalformedModify: so does modifying or appending to it.
func MalformedModify() {
	help.DefaultLinksPerBlock = 2
	ds := kit.NewDS()
	n, garbage := badRoot(ds)
	op := sym.Choice("op", 5)
	if op == 4 {
		spl := &kit.Chunks{FailAt: -1, Parts: [][]byte{sym.Bytes("more", 1), sym.Bytes("more", 1)}}
		p := help.DagBuilderParams{Maxlinks: 2, Dagserv: ds}
		db, err := p.New(spl)
		kit.Must(err, "append")
		if !garbage && sym.Choice("block", 2) == 1 {
			n, garbage = ds.MkLeaf(kit.RawLeaf, sym.Bytes("leaf", 1)), true
		}
		_, err = trickle.Append(ctx, ds.Reload(n), db)
		sym.Assert(err != nil || !garbage, "append/garbage")
		return
	}
	dm, err := mod.NewDagModifier(ctx, ds.Reload(n), ds, func(r io.Reader) chunk.Splitter { return chunk.NewSizeSplitter(r, 2) })
	if err != nil {
		sym.Reach("refused")
		return
	}
	switch op {
	case 0:
		b := sym.Bytes("data", sym.Choice("len", 3))
		var k int
		k, err = dm.WriteAt(b, int64(sym.Int("off", 0, 4)))
		sym.Assert(k == len(b) || err != nil, "write/short")
	case 1:
		err = dm.Truncate(int64(sym.Int("to", 0, 4)))
	case 2:
		_, err = dm.Seek(int64(sym.Int("off", 0, 4)), sym.Choice("whence", 3))
	case 3:
		_, err = dm.Read(make([]byte, 2))
	}
	if err == nil {
		_, err = dm.GetNode()
	}
	if err == nil {
		_, err = dm.Size()
	}
	if err != nil {
		sym.Reach("failed")
	} else {
		sym.Assert(!garbage, "modify/garbage")
		sym.Reach("worked")
	}
}
