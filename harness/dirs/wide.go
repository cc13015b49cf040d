package dirs

import (
	"github.com/ipfs/go-unixfs/zzverif/hm"
	"github.com/ipfs/go-unixfs/zzverif/sym"

	uio "github.com/ipfs/go-unixfs/io"
)

// Wide: directories of many entries grow and shrink, at any threshold.
func Wide() {
	n := sym.Param("names", 12)
	w := worldOf(hm.WideWorld(n), false)
	var d uio.Directory = uio.NewDirectory(w.DS)
	rev := sym.Choice("order", 2) == 1
	same := func(id string) {
		f := form(d, id)
		sym.Assert(f == w.Sharded, id+"/form")
		nd, err := d.GetNode()
		sym.Assert(err == nil && nd.Cid() == w.root(nil), id+"/root")
	}
	for k := 0; k < n; k++ {
		i := k
		if rev {
			i = n - 1 - k
		}
		w.Add(d, i, i%2)
		if k%3 == 2 {
			same("wide/grow")
		}
	}
	w.Check(d, "wide/grown")
	if sym.Choice("opened", 2) == 1 {
		d = w.Open(w.Store(d, "wide").Cid(), "wide")
	}
	if sym.Choice("replace", 2) == 1 {
		w.Add(d, n/2, 2)
		w.Add(d, 1, 0)
	}
	up := sym.Choice("removal", 2) == 1
	for k := 0; k < n; k++ {
		i := k
		if up {
			i = n - 1 - k
		}
		w.Remove(d, i)
		if k%3 == 2 || k >= n-2 {
			same("wide/shrink")
		}
		if k == n/2 {
			w.Check(d, "wide/half")
			if sym.Choice("reopened", 2) == 1 {
				d = w.Open(w.Store(d, "wide").Cid(), "wide")
			}
		}
	}
	w.Check(d, "wide/empty")
	if w.Sharded {
		sym.Reach("sharded")
	} else {
		sym.Reach("basic")
	}
}
