package dmod

import (
	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	mdag "github.com/ipfs/go-merkledag"
	ft "github.com/ipfs/go-unixfs"
	"github.com/ipfs/go-unixfs/importer/balanced"
	help "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/importer/trickle"
	"github.com/ipfs/go-unixfs/mod"
	mh "github.com/multiformats/go-multihash"

	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

// Identifiers: the blocks a modification makes have identifiers and leaves
// like those of the file.
func Identifiers() {
	old := help.DefaultLinksPerBlock
	defer func() { help.DefaultLinksPerBlock = old }()
	help.DefaultLinksPerBlock = 2
	ds := kit.NewDS()
	pref := cid.Prefix{Version: 0, Codec: cid.DagProtobuf, MhType: mh.SHA2_256, MhLength: 32}
	var b cid.Builder
	switch sym.Choice("builder", 3) {
	case 1:
		pref.Version = 1
		b = pref
	case 2:
		pref.Version, pref.MhType, pref.MhLength = 1, mh.SHA2_512, 64
		b = pref
	}
	raw := sym.Choice("raw", 2) == 1
	k := sym.Choice("chunks", 6)
	spl, content := kit.SymChunks(k, sym.Param("leafmax", 2))
	p := help.DagBuilderParams{Maxlinks: 2, RawLeaves: raw, Dagserv: ds, CidBuilder: b}
	db, err := p.New(spl)
	kit.Must(err, "base")
	var n ipld.Node
	if sym.Choice("layout", 2) == 0 {
		n, err = balanced.Layout(db)
	} else {
		n, err = trickle.Layout(db)
	}
	kit.Must(err, "base")
	single := len(n.Links()) == 0
	_, rawRoot := n.(*mdag.RawNode)
	was := map[cid.Cid]bool{}
	for c := range ds.B {
		was[c] = true
	}
	dm, err := mod.NewDagModifier(ctx, ds.Reload(n), ds, splitter(sym.Param("split", 2)))
	kit.Must(err, "open")
	sym.Assert(dm.RawLeaves == (n.Cid().Version() > 0), "identifiers/inherited-leaves")
	sym.Assert(dm.Prefix.Version == n.Cid().Version() && dm.Prefix.MhType == pref.MhType && dm.Prefix.Codec == cid.DagProtobuf, "identifiers/inherited-prefix")
	if rawRoot {
		// raw blocks always have version 1
		pref.Version = 1
	}
	switch sym.Choice("leaves", 3) {
	case 1:
		dm.RawLeaves = true
	case 2:
		dm.RawLeaves = false
	}
	f := &file{ds: ds, dm: dm, m: append([]byte{}, content...), raw: rawRoot}
	// how many of the leaves are left
	keep := k
	for i := sym.Param("ops", 1); i > 0; i-- {
		was := len(f.m)
		switch sym.Choice("op", 3) {
		case 0:
			f.step(opWriteAt)
		case 1:
			f.step(opTruncate)
		case 2: // by more than a block of zeros
			n := len(f.m) + 4095 + sym.Choice("more", 3)
			if f.raw {
				sym.Skip()
			}
			kit.Must(dm.Truncate(int64(n)), "identifiers/extend")
			f.m = append(f.m, make([]byte, n-len(f.m))...)
		}
		left, start := 0, 0
		for _, c := range spl.Parts {
			left += sym.Ite(start <= len(f.m), 1, 0)
			start += len(c)
		}
		keep = sym.Ite(len(f.m) < was && left < keep, left, keep)
	}
	nd := f.node()
	var leaves []ipld.Node
	var walk func(ipld.Node)
	walk = func(x ipld.Node) {
		q, want := x.Cid().Prefix(), pref
		if _, ok := x.(*mdag.RawNode); ok {
			want.Codec, want.Version = cid.Raw, 1
		}
		sym.Assert(q == want, "identifiers/prefix")
		if len(x.Links()) == 0 {
			leaves = append(leaves, x)
		}
		for _, l := range x.Links() {
			c, err := ds.Get(ctx, l.Cid)
			kit.Must(err, "identifiers/stored")
			walk(c)
		}
	}
	walk(ds.Reload(nd))
	changed := false
	for i, l := range leaves {
		_, isRaw := l.(*mdag.RawNode)
		if !isRaw {
			fsn, err := ft.ExtractFSNode(l)
			kit.Must(err, "identifiers/leaf")
			sym.Assert(fsn.Type() == ft.TRaw || fsn.Type() == ft.TFile, "identifiers/leaf-type")
		}
		if !single {
			// leaves that are left keep their encoding, others have that of the option
			sym.Assert(sym.Implies(i < keep, isRaw == raw), "identifiers/kept-leaf")
			sym.Assert(sym.Implies(i >= keep, isRaw == dm.RawLeaves), "identifiers/added-leaf")
		} else if len(leaves) == 1 && len(nd.Links()) == 0 {
			sym.Assert(isRaw == rawRoot, "identifiers/root")
		} else if i > 0 {
			sym.Assert(isRaw == dm.RawLeaves, "identifiers/grown")
		}
		changed = changed || !was[l.Cid()]
	}
	if changed {
		sym.Reach("new-leaf")
	}
}
