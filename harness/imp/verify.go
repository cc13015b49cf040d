package imp

import (
	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer"
	h "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	pb "github.com/ipfs/go-unixfs/pb"
	mh "github.com/multiformats/go-multihash"

	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

// conforms: at depth 0 a leaf, deeper first direct leaves and then repeat
// subtrees of each depth 1, 2, ... below its own (any for the root, depth -1).
func conforms(t *tree, depth, direct, repeat int) bool {
	if depth == 0 || !t.node {
		return depth == 0 && !t.node
	}
	for i, k := range t.kids {
		d := 0
		if i >= direct {
			d = (i-direct)/repeat + 1
			if depth > 0 && d >= depth {
				return false
			}
		}
		if !conforms(k, d, direct, repeat) {
			return false
		}
	}
	return true
}

func nodes(t *tree) []*tree {
	l := []*tree{t}
	for _, k := range t.kids {
		l = append(l, nodes(k)...)
	}
	return l
}

// hand stores a DAG of this shape; odd, with its kind, is built differently.
func hand(ds *kit.DS, t, odd *tree, kind int, raw bool) ipld.Node {
	leaf := kit.DataLeaf
	if raw {
		leaf = kit.RawLeaf
	}
	if t == odd {
		switch kind {
		case oddEncoding:
			leaf = kit.DataLeaf + kit.RawLeaf - leaf
		case oddType, oddLinks:
			if !t.node {
				ty, sz := pb.Data_Raw, uint64(2)
				if kind == oddType {
					ty = []pb.Data_DataType{pb.Data_File, pb.Data_Directory, pb.Data_Metadata, pb.Data_Symlink, pb.Data_HAMTShard}[sym.Choice("type", 5)]
				}
				p := kit.PB(&pb.Data{Type: &ty, Data: []byte{byte(t.leaf), 'x'}, Filesize: &sz})
				if kind == oddLinks {
					kit.Must(p.AddNodeLink("", ds.MkLeaf(leaf, []byte("more"))), "hand")
				}
				kit.Must(ds.Add(ctx, p), "hand")
				return p
			}
		}
	}
	if t == odd && kind == oddGarbage {
		p := mdag.NodeWithData([][]byte{nil, {8, 2, 0xff}}[sym.Choice("garbage", 2)])
		for _, k := range t.kids {
			kit.Must(p.AddNodeLink("", hand(ds, k, odd, kind, raw)), "hand")
		}
		kit.Must(ds.Add(ctx, p), "hand")
		return p
	}
	other := cid.Prefix{Version: 1, Codec: cid.DagProtobuf, MhType: mh.SHA2_512, MhLength: 64}
	if !t.node {
		data := []byte{byte(t.leaf), 'x'}
		if t == odd && kind == oddPrefix {
			ty, sz := pb.Data_Raw, uint64(2)
			p := kit.PB(&pb.Data{Type: &ty, Data: data, Filesize: &sz})
			p.SetCidBuilder(other)
			var n ipld.Node = p
			if raw {
				r, err := mdag.NewRawNodeWPrefix(data, other.WithCodec(cid.Raw))
				kit.Must(err, "hand")
				n = r
			}
			kit.Must(ds.Add(ctx, n), "hand")
			return n
		}
		return ds.MkLeaf(leaf, data)
	}
	var kids []ipld.Node
	var sizes []int
	for _, k := range t.kids {
		kids = append(kids, hand(ds, k, odd, kind, raw))
		sizes = append(sizes, 2)
	}
	if t != odd || kind == oddMissing {
		return ds.MkNode(kids, sizes)
	}
	ty := pb.Data_File
	d := &pb.Data{Type: &ty}
	if kind != oddData || sym.Choice("sizes", 2) == 1 {
		tot := uint64(0)
		for _, s := range sizes {
			d.Blocksizes = append(d.Blocksizes, uint64(s))
			tot += uint64(s)
		}
		d.Filesize = &tot
	}
	switch kind {
	case oddData:
		d.Data = []byte("data")
	case oddType:
		ty = []pb.Data_DataType{pb.Data_Raw, pb.Data_Directory, pb.Data_Metadata, pb.Data_Symlink, pb.Data_HAMTShard}[sym.Choice("type", 5)]
	}
	n := kit.PB(d)
	if kind == oddPrefix {
		n.SetCidBuilder(other)
	}
	for _, k := range kids {
		kit.Must(n.AddNodeLink("", k), "hand")
	}
	kit.Must(ds.Add(ctx, n), "hand")
	return n
}

// ways to build a node differently
const (
	oddNot      = iota
	oddEncoding // leaf: raw instead of wrapped or the reverse
	oddType     // other type
	oddData     // inner node with data
	oddMissing  // not in the store
	oddDeeper   // below a node of its own
	oddLeaf     // inner node replaced by a leaf
	oddMore     // a further leaf below it
	oddPrefix   // identifier with another hash function
	oddLinks    // leaf with a link
	oddGarbage  // no UnixFS node
	odds
)

// Verifier: the trickle verifier accepts what the trickle importer makes and
// nothing else.
func Verifier() {
	k := sym.Choice("chunks", sym.Param("chunks", 12)+1)
	raw := sym.Choice("raw", 2) == 1
	links := 1 + sym.Choice("links", sym.Param("links", 3))
	ds := kit.NewDS()
	kind := sym.Choice("odd", odds)
	p := trickle.VerifyParams{Getter: ds, Direct: links, LayerRepeat: 4, RawLeaves: raw}
	good := true
	var nd ipld.Node
	t := trickleShape(k, links)
	if kind == oddNot {
		var b cid.Builder
		pref := cid.Prefix{Version: 0, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: 32}
		if v := sym.Choice("builder", 3); v > 0 {
			pref.Version = 1
			if v == 2 {
				pref.MhType, pref.MhLength = mh.SHA2_512, 64
			}
			b = pref
		}
		spl, _ := kit.SymChunks(k, 1<<20)
		var err error
		nd, err = build(tri, ds, spl, links, raw, b)
		kit.Must(err, "import")
		// any parameters
		switch sym.Choice("param", 5) {
		case 1:
			p.Direct = sym.Int("direct", 1, 6)
			p.LayerRepeat = sym.Int("repeat", 1, 6)
			good = conforms(t, -1, p.Direct, p.LayerRepeat)
		case 2:
			p.RawLeaves = !raw
			good = k == 0
		case 3: // the prefix used
			q := pref
			if sym.Choice("length", 2) == 1 {
				q.MhLength = -1
			}
			p.Prefix = &q
		case 4: // another one
			q := pref
			if sym.Choice("other", 2) == 1 {
				q.Version = 1 - q.Version
			} else {
				q.MhType = mh.SHA2_256 + mh.SHA2_512 - q.MhType
				q.MhLength = -1
			}
			p.Prefix = &q
			good = false
		}
	} else {
		all := nodes(t)
		i := sym.Choice("node", len(all))
		o := all[i]
		good = false
		switch kind {
		case oddEncoding, oddLinks:
			if o.node {
				sym.Skip()
			}
		case oddData:
			if !o.node {
				sym.Skip()
			}
		case oddMissing:
			if i == 0 {
				sym.Skip()
			}
		case oddDeeper:
			c := *o
			*o = tree{node: true, kids: []*tree{&c}}
			good = conforms(t, -1, links, 4)
		case oddLeaf:
			if !o.node {
				sym.Skip()
			}
			*o = tree{leaf: 100}
			good = conforms(t, -1, links, 4)
		case oddMore:
			if !o.node {
				sym.Skip()
			}
			o.kids = append(o.kids, &tree{leaf: 101})
			good = conforms(t, -1, links, 4)
		}
		nd = hand(ds, t, o, kind, raw)
		if kind == oddPrefix {
			p.Prefix = &cid.Prefix{Version: 0, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: 32}
			if sym.Choice("length", 2) == 1 {
				p.Prefix.MhLength = -1
			}
			if sym.Choice("any", 2) == 1 {
				p.Prefix = nil
				good = true
			}
		}
		if kind == oddMissing {
			// the copy of the node that only this place refers to
			m := hand(ds, o, o, kind, raw)
			ds.Missing[m.Cid()], ds.MissErr = true, ipld.ErrNotFound
		}
	}
	err := trickle.VerifyTrickleDagStructure(nd, p)
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("refused")
	}
	sym.Assert(good == (err == nil), "verifier")
}

// Defaults: the importers without options.
func Defaults() {
	old := h.DefaultLinksPerBlock
	defer func() { h.DefaultLinksPerBlock = old }()
	sym.Assert(old == 174, "defaults/links")
	h.DefaultLinksPerBlock = 2 + sym.Choice("links", sym.Param("links", 2))
	k := sym.Choice("chunks", sym.Param("chunks", 7)+1)
	spl, file := kit.SymChunks(k, sym.Param("chunkmax", 1<<20))
	ds := kit.NewDS()
	l, f := bal, importer.BuildDagFromReader
	if sym.Choice("trickle", 2) == 1 {
		l, f = tri, importer.BuildTrickleDagFromReader
	}
	fault := sym.Choice("fault", 3)
	switch fault {
	case 1:
		spl.FailAt = sym.Choice("at", k+1)
	case 2:
		ds.FailAdd = sym.Choice("at", k+1)
	}
	nd, err := f(ds, spl)
	if err != nil {
		sym.Reach("fault")
		sym.Assert(spl.Hit || ds.Faults > 0, "defaults/error")
		return
	}
	sym.Assert(!spl.Hit && ds.Faults == 0, "defaults/hidden")
	root := ds.Reload(nd)
	for c := range ds.B {
		sym.Assert(c.Version() == 0, "defaults/version")
	}
	fs, _ := verify(ds, root, l.shape(k, h.DefaultLinksPerBlock), spl.Parts, false, l.leafType)
	sym.Assert(fs == uint64(len(file)), "defaults/size")
	readBack(ds, root, file)
}

// ulen is the length of the varint of x.
func ulen(x uint64) int {
	n := 1
	for k := uint(7); k < 64; k += 7 {
		n += sym.Ite(x>>k != 0, 1, 0)
	}
	return n
}

// Over: a file node under construction keeps links and sizes together.
func Over() {
	ds := kit.NewDS()
	var b cid.Builder
	if sym.Choice("builder", 2) == 1 {
		b = mdag.V1CidPrefix()
	}
	p := h.DagBuilderParams{Maxlinks: 2, Dagserv: ds, CidBuilder: b}
	db, err := p.New(&kit.Chunks{FailAt: -1})
	kit.Must(err, "over/new")
	sym.Assert(db.Maxlinks() == 2 && db.GetDagServ() == ipld.DAGService(ds), "over/params")
	n := db.NewFSNodeOverDag(ft.TFile)
	var kids []cid.Cid
	var sizes []uint64
	var sub []bool
	start := sym.Choice("start", sym.Param("start", 2)+1)
	for j := sym.Param("ops", 4) + start; j > 0; j-- {
		op := 0
		if j <= sym.Param("ops", 4) {
			op = sym.Choice("op", 3)
		}
		switch op {
		case 0:
			var c ipld.Node
			s := sym.Uint64("size")
			wrapped := sym.Choice("wrapped", 2) == 1
			if wrapped {
				f := ft.NewFSNode(ft.TFile)
				f.AddBlockSize(s)
				x, err := f.GetBytes()
				kit.Must(err, "over/kid")
				c = mdag.NodeWithData(x)
			} else {
				// some children are the same block
				c = mdag.NewRawNode([]byte{byte(j & 1)})
			}
			kit.Must(n.AddChild(c, s, db), "over/add")
			kids, sizes, sub = append(kids, c.Cid()), append(sizes, s), append(sub, wrapped)
		case 1:
			if len(kids) == 0 {
				sym.Skip()
			}
			i := sym.Choice("index", len(kids))
			n.RemoveChild(i, db)
			var k2 []cid.Cid
			var s2 []uint64
			var w2 []bool
			for x := range kids {
				if x != i {
					k2, s2, w2 = append(k2, kids[x]), append(s2, sizes[x]), append(w2, sub[x])
				}
			}
			kids, sizes, sub = k2, s2, w2
		case 2: // stored and read back
			nd, err := n.Commit()
			kit.Must(err, "over/commit")
			kit.Must(ds.Add(ctx, nd), "over/store")
			n, err = db.NewFSNFromDag(ds.Reload(nd).(*mdag.ProtoNode))
			kit.Must(err, "over/reopen")
		}
		sym.Assert(n.NumChildren() == len(kids), "over/children")
		var tot uint64
		for _, s := range sizes {
			tot += s
		}
		sym.Assert(n.FileSize() == tot, "over/total")
	}
	nd, err := n.Commit()
	kit.Must(err, "over/commit")
	g, err := n.GetDagNode()
	kit.Must(err, "over/node")
	sym.Assert(g == nd, "over/node")
	if b != nil {
		sym.Assert(nd.Cid().Version() == 1, "over/version")
	}
	d := decode(nd.(*mdag.ProtoNode))
	sym.Assert(d.GetType() == pb.Data_File && len(d.GetData()) == 0, "over/type")
	sym.Assert(len(nd.Links()) == len(kids) && len(d.Blocksizes) == len(kids), "over/links")
	var tot uint64
	for i, l := range nd.Links() {
		sym.Assert(l.Cid == kids[i] && l.Name == "", "over/link")
		sym.Assert(d.Blocksizes[i] == sizes[i], "over/size")
		_, stored := ds.B[l.Cid]
		sym.Assert(stored, "over/stored")
		tot += sizes[i]
		c, err := n.GetChild(ctx, i, ds)
		if sub[i] {
			// two nested messages: a type and the size twice
			m := 2 + 2*(1+ulen(sizes[i]))
			sym.Assert(l.Size == uint64(2+m), "over/link-size")
		} else {
			sym.Assert(l.Size == 1, "over/link-size")
		}
		if !sub[i] {
			sym.Assert(err == mdag.ErrNotProtobuf, "over/raw-child")
			continue
		}
		kit.Must(err, "over/child")
		sym.Assert(c.FileSize() == sizes[i], "over/child-size")
	}
	sym.Assert(d.GetFilesize() == tot, "over/filesize")
}
