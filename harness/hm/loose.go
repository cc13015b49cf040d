package hm

import (
	"github.com/ipfs/go-unixfs/hamt"

	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

// Loose: a directory whose sub-directories are deeper than its entries need, or
// empty, as another implementation may have left them, is a map like others.
func Loose() {
	w := world()
	for i := 0; i < w.N; i++ {
		if sym.Choice("present", 2) == 1 {
			w.M[i] = i % 2
		}
	}
	depths := make([]int, w.N)
	for i := range depths {
		if w.M[i] >= 0 {
			depths[i] = sym.Choice("deep", w.Depth)
		}
	}
	w.Loose = func(i, level int) bool { return level < depths[i] }
	if sym.Choice("empty", 2) == 1 {
		at := sym.Choice("empty-level", w.Depth-1)
		w.Empty = func(level int) int {
			if level == at {
				return w.Fan - 2
			}
			return -1
		}
	}
	nd := w.Ref()
	w.Loose, w.Empty = nil, nil
	kit.Must(w.DS.Add(ctx, nd), "loose")
	s, err := hamt.NewHamtFromDag(w.DS, w.DS.Reload(nd))
	kit.Must(err, "loose/open")
	switch sym.Choice("loaded", 3) {
	case 1:
		w.Each(s, "loose/each")
	case 2:
		w.Enum(s, "loose/enum")
	}
	for k := 0; k < sym.Param("ops", 2); k++ {
		w.Step(s, sym.Choice("op", sym.Param("kinds", 2)), sym.Choice("name", w.N))
	}
	for i := 0; i < w.N; i++ {
		w.Find(s, i, "loose/find")
	}
	w.Enum(s, "loose/enumerated")
	s = w.Load(s)
	w.Each(s, "loose/reopened")
	for i := 0; i < w.N; i++ {
		w.Find(s, i, "loose/found")
	}
	sym.Reach("loose")
}
