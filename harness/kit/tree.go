package kit

import (
	"context"

	proto "github.com/gogo/protobuf/proto"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	pb "github.com/ipfs/go-unixfs/pb"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

// Leaf kinds of a hand-made file DAG.
const (
	RawLeaf  = iota // raw block
	FileLeaf        // unixfs File node with inline data
	DataLeaf        // unixfs Raw node with inline data
)

// PB stores a unixfs message as the data of a dag-pb node.
func PB(d *pb.Data) *mdag.ProtoNode {
	b, err := proto.Marshal(d)
	if err != nil {
		sym.Fail("kit/marshal")
	}
	return mdag.NodeWithData(b)
}

func typ(t pb.Data_DataType) *pb.Data_DataType { return &t }

// MkLeaf stores a leaf.
func (d *DS) MkLeaf(kind int, data []byte) ipld.Node {
	var n ipld.Node
	switch kind {
	case RawLeaf:
		n = mdag.NewRawNode(data)
	case FileLeaf:
		n = PB(&pb.Data{Type: typ(pb.Data_File), Data: data, Filesize: proto.Uint64(uint64(len(data)))})
	default:
		n = PB(&pb.Data{Type: typ(pb.Data_Raw), Data: data, Filesize: proto.Uint64(uint64(len(data)))})
	}
	if d.Add(context.Background(), n) != nil {
		sym.Fail("kit/add")
	}
	return n
}

// MkNode stores an internal file node over children of the given file sizes.
func (d *DS) MkNode(kids []ipld.Node, sizes []int) ipld.Node {
	m := &pb.Data{Type: typ(pb.Data_File)}
	tot := 0
	for _, s := range sizes {
		m.Blocksizes = append(m.Blocksizes, uint64(s))
		tot += s
	}
	m.Filesize = proto.Uint64(uint64(tot))
	n := PB(m)
	for _, k := range kids {
		if n.AddNodeLink("", k) != nil {
			sym.Fail("kit/link")
		}
	}
	if d.Add(context.Background(), n) != nil {
		sym.Fail("kit/add")
	}
	return n
}

// File builds one of several tree shapes over leaves of arbitrary sizes in
// [min,max] and content, and returns the root and the content.
func (d *DS) File(shape, min, max int, kinds []int) (ipld.Node, []byte) {
	return d.Shape(Shapes[shape], min, max, kinds)
}

// Shapes: a string of leaves and parentheses, e.g. "(L(LL)L)".
var Shapes = []string{"L", "(L)", "(LL)", "((LL)L)", "(LLL)", "(L(LL))", "((LL)(LL))", "((L)((LL)L))", "(LL(LL)(L(L)))", "()", "(()L)"}

func (d *DS) Shape(s string, min, max int, kinds []int) (ipld.Node, []byte) {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == 'L' {
			n++
		}
	}
	lens := make([]int, n)
	tot := 0
	for i := range lens {
		lens[i] = sym.Int("leaf", min, max)
		tot += lens[i]
	}
	file := sym.Bytes("file", tot)
	pos, leaf, off := 0, 0, 0
	var rec func() (ipld.Node, int)
	rec = func() (ipld.Node, int) {
		ch := s[pos]
		pos++
		if ch == 'L' {
			l := lens[leaf]
			data := append([]byte{}, file[off:off+l]...)
			nd := d.MkLeaf(kinds[leaf%len(kinds)], data)
			off += l
			leaf++
			return nd, l
		}
		var kids []ipld.Node
		var sizes []int
		sum := 0
		for s[pos] != ')' {
			k, sz := rec()
			kids = append(kids, k)
			sizes = append(sizes, sz)
			sum += sz
		}
		pos++
		return d.MkNode(kids, sizes), sum
	}
	root, _ := rec()
	return root, file
}

// Content reads a stored file DAG without the code under test, and checks the
// sizes it records on the way.
func (d *DS) Content(nd ipld.Node, id string) []byte {
	b, _ := d.content(nd, id)
	return b
}

func (d *DS) content(nd ipld.Node, id string) ([]byte, uint64) {
	if rn, ok := nd.(*mdag.RawNode); ok {
		return rn.RawData(), uint64(len(rn.RawData()))
	}
	pn, ok := nd.(*mdag.ProtoNode)
	sym.Assert(ok, id+"/kind")
	cum := uint64(len(pn.RawData()))
	m := new(pb.Data)
	if proto.Unmarshal(pn.Data(), m) != nil {
		sym.Fail(id + "/decode")
	}
	t := m.GetType()
	sym.Assert(t == pb.Data_File || t == pb.Data_Raw, id+"/type")
	if len(pn.Links()) == 0 {
		sym.Assert(len(m.Blocksizes) == 0, id+"/blocksizes")
		sym.Assert(m.GetFilesize() == uint64(len(m.GetData())), id+"/filesize")
		return m.GetData(), cum
	}
	sym.Assert(len(m.GetData()) == 0, id+"/inner-data")
	sym.Assert(len(m.Blocksizes) == len(pn.Links()), id+"/blocksizes")
	var out []byte
	for i, l := range pn.Links() {
		k := d.B[l.Cid]
		if k == nil {
			sym.Fail(id + "/child-not-stored")
		}
		c, err := decode(k)
		if err != nil {
			sym.Fail(id + "/child-decode")
		}
		b, cs := d.content(c, id)
		sym.Assert(m.Blocksizes[i] == uint64(len(b)), id+"/blocksize")
		sym.Assert(l.Size == cs, id+"/link-size")
		cum += cs
		out = append(out, b...)
	}
	sym.Assert(m.GetFilesize() == uint64(len(out)), id+"/filesize")
	return out, cum
}
