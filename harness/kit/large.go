package kit

import (
	"context"

	"github.com/gogo/protobuf/proto"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	pb "github.com/ipfs/go-unixfs/pb"

	"github.com/ipfs/go-unixfs/zzverif/sym"
)

// Huge is a file of many gigabytes that consists of few blocks: Leaf repeated
// 1<<Doubled times, and Tail.
type Huge struct {
	Root ipld.Node
	Leaf []byte
	Tail []byte
	// Big is the size of the repeated part.
	Big int
}

// MkHuge stores such a file.
func (d *DS) MkHuge(doubled, leafmin, leafmax, tailmax int) *Huge {
	h := &Huge{}
	l := sym.Int("leaf", leafmin, leafmax)
	t := sym.Int("tail", 1, tailmax)
	h.Leaf = sym.Bytes("big", l)
	h.Tail = sym.Bytes("end", t)
	nd := d.MkLeaf(RawLeaf, h.Leaf)
	size := l
	for i := 0; i < doubled; i++ {
		nd = d.MkNode([]ipld.Node{nd, nd}, []int{size, size})
		size *= 2
	}
	h.Big = size
	h.Root = d.MkNode([]ipld.Node{nd, d.MkLeaf(DataLeaf, h.Tail)}, []int{size, t})
	return h
}

// Size of the whole file.
func (h *Huge) Size() int { return h.Big + len(h.Tail) }

// Window is a piece of the file and where it starts: around the end (0), at the
// beginning (1), in the middle (2).
func (h *Huge) Window(k int) (int, []byte) {
	switch k {
	case 0:
		return h.Big - len(h.Leaf), append(append([]byte{}, h.Leaf...), h.Tail...)
	case 1:
		return 0, append(append([]byte{}, h.Leaf...), h.Leaf...)
	}
	return h.Big/2 - len(h.Leaf), append(append([]byte{}, h.Leaf...), h.Leaf...)
}

// At reads n bytes at off of a stored file by the sizes it records, without the
// code under test.
func (d *DS) At(nd ipld.Node, off, n int, id string) []byte {
	if rn, ok := nd.(*mdag.RawNode); ok {
		b := rn.RawData()
		sym.Assert(off+n <= len(b), id+"/short")
		return b[off : off+n]
	}
	pn := nd.(*mdag.ProtoNode)
	m := new(pb.Data)
	if proto.Unmarshal(pn.Data(), m) != nil {
		sym.Fail(id + "/decode")
	}
	if len(pn.Links()) == 0 {
		b := m.GetData()
		sym.Assert(off+n <= len(b), id+"/short")
		return b[off : off+n]
	}
	sym.Assert(len(m.Blocksizes) == len(pn.Links()), id+"/blocksizes")
	var out []byte
	at := 0
	for i, l := range pn.Links() {
		s := int(m.Blocksizes[i])
		if n > 0 && off < at+s {
			k := n
			if off+n > at+s {
				k = at + s - off
			}
			c, err := d.Get(context.Background(), l.Cid)
			Must(err, id+"/missing")
			out = append(out, d.At(c, off-at, k, id)...)
			off += k
			n -= k
		}
		at += s
	}
	sym.Assert(n == 0, id+"/short")
	return out
}

// FileSize of a stored file as its root records it.
func FileSize(nd ipld.Node, id string) int {
	if rn, ok := nd.(*mdag.RawNode); ok {
		return len(rn.RawData())
	}
	m := new(pb.Data)
	if proto.Unmarshal(nd.(*mdag.ProtoNode).Data(), m) != nil {
		sym.Fail(id + "/decode")
	}
	return int(m.GetFilesize())
}
