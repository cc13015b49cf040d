// Package kit holds what the harnesses share: an in-memory DAG service that
// stores encoded blocks and decodes them on every read, fault injection, and
// chunkers whose chunk sizes are inputs.
package kit

import (
	"context"
	"errors"
	"io"

	blocks "github.com/ipfs/go-block-format"
	cid "github.com/ipfs/go-cid"
	posinfo "github.com/ipfs/go-ipfs-posinfo"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"

	"github.com/ipfs/go-unixfs/zzverif/sym"
)

// ErrFault is what an injected storage fault returns.
var ErrFault = errors.New("injected fault")

// Fault is the error of a fault that is being delivered: one of several kinds.
func Fault() error {
	return []error{ErrFault, io.ErrUnexpectedEOF, ipld.ErrNotFound, context.DeadlineExceeded, context.Canceled}[sym.Choice("error", sym.Param("errors", 3))]
}

// DS is a DAG service over a map of encoded blocks.
type DS struct {
	B map[cid.Cid]blocks.Block
	// fault plan: the operation with this index fails (-1: none)
	FailGet, FailAdd, FailRemove int
	Gets, Adds, Removes          int
	// Missing blocks always answer with the same error
	Missing map[cid.Cid]bool
	MissErr error
	Removed []cid.Cid
	Log     []Added
	// Faults counts the faults that were delivered
	Faults int
	// Block makes Get wait for the context
	Block bool
	// Async makes GetMany answer from a goroutine
	Async bool
	// Rev makes GetMany answer in reverse order
	Rev bool
	// OnGet is called before the k'th read
	OnGet func(k int)
}

// Added is one accepted Add.
type Added struct {
	Cid  cid.Cid
	Data []byte
	Pos  *posinfo.PosInfo
}

func NewDS() *DS {
	return &DS{B: map[cid.Cid]blocks.Block{}, FailGet: -1, FailAdd: -1, FailRemove: -1, Missing: map[cid.Cid]bool{}}
}

func decode(b blocks.Block) (ipld.Node, error) {
	switch b.Cid().Type() {
	case cid.Raw:
		return mdag.DecodeRawBlock(b)
	case cid.DagProtobuf:
		return mdag.DecodeProtobufBlock(b)
	}
	return nil, errors.New("kit: codec")
}

func (d *DS) Get(ctx context.Context, c cid.Cid) (ipld.Node, error) {
	if d.OnGet != nil {
		d.OnGet(d.Gets)
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if d.Block {
		<-ctx.Done()
		return nil, ctx.Err()
	}
	k := d.Gets
	d.Gets++
	if k == d.FailGet {
		d.Faults++
		return nil, Fault()
	}
	b, ok := d.B[c]
	if !ok {
		return nil, ipld.ErrNotFound
	}
	if d.Missing[c] {
		if d.MissErr == nil {
			d.MissErr = Fault()
		}
		return nil, d.MissErr
	}
	return decode(b)
}

func (d *DS) GetMany(ctx context.Context, cs []cid.Cid) <-chan *ipld.NodeOption {
	ch := make(chan *ipld.NodeOption, len(cs))
	send := func() {
		for i := range cs {
			k := i
			if d.Rev {
				k = len(cs) - 1 - i
			}
			n, err := d.Get(ctx, cs[k])
			if err != nil {
				ch <- &ipld.NodeOption{Err: err}
				// a store reports the error of one key and goes on
				continue
			}
			ch <- &ipld.NodeOption{Node: n}
		}
		close(ch)
	}
	if d.Async {
		go send()
	} else {
		send()
	}
	return ch
}

func (d *DS) Add(ctx context.Context, n ipld.Node) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	k := d.Adds
	d.Adds++
	if k == d.FailAdd {
		d.Faults++
		return Fault()
	}
	b, err := blocks.NewBlockWithCid(n.RawData(), n.Cid())
	if err != nil {
		return err
	}
	d.B[n.Cid()] = b
	a := Added{Cid: n.Cid(), Data: b.RawData()}
	if f, ok := n.(*posinfo.FilestoreNode); ok {
		a.Pos = f.PosInfo
	}
	d.Log = append(d.Log, a)
	return nil
}

func (d *DS) AddMany(ctx context.Context, ns []ipld.Node) error {
	for _, n := range ns {
		if err := d.Add(ctx, n); err != nil {
			return err
		}
	}
	return nil
}

func (d *DS) Remove(ctx context.Context, c cid.Cid) error {
	k := d.Removes
	d.Removes++
	if k == d.FailRemove {
		d.Faults++
		return Fault()
	}
	d.Removed = append(d.Removed, c)
	delete(d.B, c)
	return nil
}

func (d *DS) RemoveMany(ctx context.Context, cs []cid.Cid) error {
	for _, c := range cs {
		if err := d.Remove(ctx, c); err != nil {
			return err
		}
	}
	return nil
}

// Reload returns the node as a later reader gets it from the store.
func (d *DS) Reload(n ipld.Node) ipld.Node {
	r, err := d.Get(context.Background(), n.Cid())
	if err != nil {
		sym.Fail("stored/root")
	}
	return r
}

// Chunks is a chunker over given chunks.
type Chunks struct {
	Parts [][]byte
	// FailAt: reading this chunk fails (-1: none)
	FailAt int
	Hit    bool
	pos    int
}

func (c *Chunks) Reader() io.Reader { return nil }
func (c *Chunks) NextBytes() ([]byte, error) {
	if c.pos == c.FailAt {
		c.Hit = true
		return nil, Fault()
	}
	if c.pos >= len(c.Parts) {
		return nil, io.EOF
	}
	p := c.Parts[c.pos]
	c.pos++
	b := make([]byte, len(p))
	copy(b, p)
	return b, nil
}

// SymChunks is a file of k chunks, each of 1..max arbitrary bytes, and the
// whole content.
func SymChunks(k, max int) (*Chunks, []byte) {
	lens := make([]int, k)
	tot := 0
	for i := range lens {
		lens[i] = sym.Int("chunk", 1, max)
		tot += lens[i]
	}
	f := sym.Bytes("file", tot)
	c := &Chunks{FailAt: -1}
	off := 0
	for _, l := range lens {
		c.Parts = append(c.Parts, f[off:off+l])
		off += l
	}
	return c, f
}

// SymChunksFixed is a file of k chunks of max arbitrary bytes each, the last of
// any smaller size.
func SymChunksFixed(k, max int) (*Chunks, []byte) {
	last := max
	if max > 1 && k > 0 {
		last = sym.Int("last", 1, max)
	}
	tot := 0
	if k > 0 {
		tot = (k-1)*max + last
	}
	f := sym.Bytes("file", tot)
	c := &Chunks{FailAt: -1}
	for i := 0; i < k; i++ {
		e := (i + 1) * max
		if i == k-1 {
			e = tot
		}
		c.Parts = append(c.Parts, f[i*max:e])
	}
	return c, f
}

// Must fails the check on an unexpected error.
func Must(err error, id string) {
	if err != nil {
		sym.ObserveStr(id, err.Error())
		sym.Fail(id)
	}
}
