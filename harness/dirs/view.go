package dirs

import (
	"context"
	"io"
	"os"

	files "github.com/ipfs/go-ipfs-files"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	unixfile "github.com/ipfs/go-unixfs/file"
	uio "github.com/ipfs/go-unixfs/io"
	pb "github.com/ipfs/go-unixfs/pb"

	"github.com/ipfs/go-unixfs/internal"
	"github.com/ipfs/go-unixfs/zzverif/hm"
	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

// Resolve: one step of a path through any node.
func Resolve() {
	w := world(true)
	d := uio.NewDirectory(w.DS)
	mask := sym.Choice("mask", 1<<uint(w.N))
	for i := 0; i < w.N; i++ {
		if mask>>uint(i)&1 == 1 {
			w.Add(d, i, i%2)
		}
	}
	nd := w.DS.Reload(w.Store(d, "start"))
	// any name of some length, and any hash if it is none of the known names
	n := sym.Choice("len", sym.Param("len", 3)) + 1
	name := string(sym.Bytes("name", n))
	hash := internal.HAMTHashFunction
	i := -1
	for j := 0; j < w.N; j++ {
		if name == hm.Keys[j] {
			i = j
		}
	}
	internal.HAMTHashFunction = func(b []byte) []byte {
		if i >= 0 {
			return hash([]byte(hm.Keys[i]))
		}
		h := hash([]byte(hm.Keys[0]))
		return sym.Bytes("hash", len(h))
	}
	var path []string
	for k := sym.Choice("depth", 3); k > 0; k-- {
		path = append(path, name)
		name = "rest"
	}
	kind := sym.Choice("node", 4)
	switch kind {
	case 1: // a file or another node with named links
		t := []pb.Data_DataType{pb.Data_File, pb.Data_Raw, pb.Data_Symlink, pb.Data_Metadata}[sym.Choice("type", 4)]
		p := kit.PB(&pb.Data{Type: &t, Data: sym.Bytes("data", 2)})
		for _, l := range nd.Links() {
			kit.Must(p.AddRawLink(l.Name, l), "start")
		}
		nd = p
	case 2: // not a unixfs node
		p := mdag.NodeWithData([]byte{0xff, 0xff})
		for _, l := range nd.Links() {
			kit.Must(p.AddRawLink(l.Name, l), "start")
		}
		nd = p
	case 3:
		nd = mdag.NewRawNode(sym.Bytes("data", 2))
	}
	if kind != 0 && w.Sharded {
		sym.Skip()
	}
	has := i >= 0 && w.M[i] >= 0
	c, cancel := context.WithCancel(ctx)
	defer cancel()
	w.DS.Gets, w.DS.Adds = 0, 0
	switch sym.Choice("fault", 3) {
	case 1:
		w.DS.FailGet = sym.Choice("at", 2)
	case 2:
		cancel()
	}
	l, rest, err := uio.ResolveUnixfsOnce(c, w.DS, nd, path)
	sym.Assert(w.DS.Adds == 0 && w.DS.Removes == 0, "resolve/writes")
	if len(path) == 0 || kind == 3 {
		sym.Assert(err != nil, "resolve/nothing")
		return
	}
	if err != nil {
		sym.Reach("error")
		if w.DS.Faults > 0 || c.Err() != nil {
			sym.Assert(!has || err != os.ErrNotExist && err != mdag.ErrLinkNotFound, "resolve/hidden")
			return
		}
		sym.Assert(!has, "resolve/lost")
		return
	}
	sym.Reach("found")
	sym.Assert(w.DS.Faults == 0, "resolve/fault-hidden")
	sym.Assert(has, "resolve/extra")
	sym.Assert(l.Cid == w.Val[w.M[i]].Cid(), "resolve/value")
	sym.Assert(len(rest) == len(path)-1, "resolve/rest")
	for k := range rest {
		sym.Assert(rest[k] == path[k+1], "resolve/rest-names")
	}
}

// entry is what a name of the directory stands for in View.
type entry struct {
	nd      ipld.Node
	content []byte
	target  string
	dir     bool
	bad     bool // refused
}

// entries makes a file, a symlink, a directory and a node that is none of them.
func entries(ds *kit.DS) []entry {
	var es []entry
	n, f := ds.Shape("(LL)", 0, sym.Param("leafmax", 64), []int{kit.RawLeaf})
	es = append(es, entry{nd: n, content: f})
	b, err := ft.SymlinkData("to/where")
	kit.Must(err, "entries")
	s := mdag.NodeWithData(b)
	kit.Must(ds.Add(ctx, s), "entries")
	es = append(es, entry{nd: s, target: "to/where"})
	e := ft.EmptyDirNode()
	kit.Must(ds.Add(ctx, e), "entries")
	es = append(es, entry{nd: e, dir: true})
	x := mdag.NodeWithData([]byte{0xff, 0xff})
	kit.Must(ds.Add(ctx, x), "entries")
	es = append(es, entry{nd: x, bad: true})
	return es
}

func (e *entry) view(f files.Node, id string) {
	switch {
	case e.dir:
		d, ok := f.(files.Directory)
		sym.Assert(ok, id+"/directory")
		it := d.Entries()
		sym.Assert(!it.Next() && it.Err() == nil, id+"/empty")
	case e.target != "":
		l, ok := f.(*files.Symlink)
		sym.Assert(ok, id+"/symlink")
		sym.Assert(l.Target == e.target, id+"/target")
	default:
		x, ok := f.(files.File)
		sym.Assert(ok, id+"/file")
		n, err := x.Size()
		kit.Must(err, id+"/size")
		sym.Assert(n == int64(len(e.content)), id+"/size")
		b := make([]byte, len(e.content)+1)
		m, err := io.ReadFull(x, b)
		sym.Assert(m == len(e.content), id+"/read")
		sym.Assert(err == io.ErrUnexpectedEOF || m == 0 && err == io.EOF, id+"/eof")
		sym.AssertEqBytes(b[:m], e.content, id+"/content")
		kit.Must(x.Close(), id+"/close")
	}
}

// View: the file tree view of a node shows what the node holds.
func View() {
	w := world(true)
	es := entries(w.DS)
	k := sym.Choice("top", 6)
	if k < 4 {
		f, err := unixfile.NewUnixfsFile(ctx, w.DS, es[k].nd)
		if es[k].bad {
			sym.Assert(err != nil && f == nil, "top/refused")
			return
		}
		kit.Must(err, "top")
		es[k].view(f, "top")
		return
	}
	if k == 4 {
		t := pb.Data_DataType(sym.Int("type", -1, 8))
		nd := kit.PB(&pb.Data{Type: &t})
		f, err := unixfile.NewUnixfsFile(ctx, w.DS, nd)
		_, dir := f.(files.Directory)
		_, lnk := f.(*files.Symlink)
		sym.Assert(dir == (err == nil && t == ft.TDirectory), "type/directory")
		sym.Assert(lnk == (err == nil && t == ft.TSymlink), "type/symlink")
		sym.Assert(err == nil || t != ft.TDirectory && t != ft.TSymlink && t != ft.TFile && t != ft.TRaw, "type/refused")
		return
	}
	// a directory with some of the entries
	d := uio.NewDirectory(w.DS)
	w.viewDir(d, es, sym.Choice("mask", 1<<uint(w.N)), sym.Choice("shift", sym.Param("shifts", 2)))
}

// ViewWide: a directory of many entries, more than are prefetched.
func ViewWide() {
	w := worldOf(hm.WideWorld(sym.Param("names", 9)), true)
	es := entries(w.DS)
	if sym.Choice("bad", 2) == 0 {
		es = es[:3]
	}
	w.viewDir(uio.NewDirectory(w.DS), es, 1<<uint(w.N)-1, sym.Choice("shift", sym.Param("shifts", 1)))
}

// viewDir: the view of a directory of these entries shows them.
func (w *World) viewDir(d uio.Directory, es []entry, mask, shift int) {
	has := map[string]*entry{}
	for i := 0; i < w.N; i++ {
		if mask>>uint(i)&1 == 1 {
			e := &es[(i+shift)%len(es)]
			kit.Must(d.AddChild(ctx, hm.Keys[i], e.nd), "start")
			has[hm.Keys[i]] = e
		}
	}
	nd := w.DS.Reload(w.Store(d, "start"))
	c, cancel := context.WithCancel(ctx)
	defer cancel()
	f, err := unixfile.NewUnixfsFile(c, w.DS, nd)
	kit.Must(err, "view")
	v, ok := f.(files.Directory)
	sym.Assert(ok, "view/directory")
	sz, err := v.Size()
	kit.Must(err, "view/size")
	want, _ := nd.Size()
	sym.Assert(uint64(sz) == want, "view/size")
	w.DS.Gets = 0
	fault := sym.Choice("fault", 3)
	at := -1
	switch fault {
	case 1:
		at = sym.Choice("at", sym.Param("at", 3))
		w.DS.FailGet = at
	case 2:
		at = sym.Choice("at", sym.Param("at", 3))
		w.DS.OnGet = func(k int) {
			if k == at {
				cancel()
			}
		}
	}
	sym.Sched(sym.Param("delays", 0))
	it := v.Entries()
	seen := map[string]int{}
	bad := false
	for it.Next() {
		e := has[it.Name()]
		sym.Assert(e != nil, "view/extra")
		seen[it.Name()]++
		sym.Assert(seen[it.Name()] == 1, "view/twice")
		sym.Assert(!e.bad, "view/bad")
		if fault == 0 {
			e.view(it.Node(), "entry")
		} else {
			sym.Assert(it.Node() != nil, "entry/nil")
		}
	}
	for _, e := range has {
		bad = bad || e.bad
	}
	sym.Assert(!it.Next(), "view/again")
	if it.Err() == nil {
		sym.Reach("complete")
		sym.Assert(len(seen) == len(has), "view/lost")
		sym.Assert(!bad, "view/hidden")
		sym.Assert(w.DS.Faults == 0, "view/fault-hidden")
	} else {
		sym.Reach("error")
		sym.Assert(bad || w.DS.Faults > 0 || c.Err() != nil, "view/error")
	}
	cancel()
	sym.Sched(0)
	sym.Assert(sym.Quiesce() == 0, "leak")
}
