package hm

import (
	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

func init() {
	for i := 0; i < 40; i++ {
		n := "entry-" + string(rune('a'+i/8)) + string(rune('0'+i%8))
		if i%5 == 0 {
			n += " with a longer name.tar.gz"
		}
		Keys = append(Keys, n)
	}
}

// WideWorld is a directory of many names whose hashes are spread in one of
// several ways.
func WideWorld(n int) *World {
	fan := []int{16, 8, 256, 64}[sym.Choice("fan", sym.Param("fans", 2))]
	how := sym.Choice("spread", sym.Param("spreads", 4))
	var dig [][]int
	for i := 0; i < n; i++ {
		var d []int
		switch how {
		case 0: // every slot of the root taken, then again
			d = []int{i % fan, i / fan % fan, i % 2, i % fan}
		case 1: // groups of three
			d = []int{(i / 3 * 5) % fan, i % 3, i / fan, i % fan}
		case 2: // all in one sub-shard
			d = []int{fan - 1, (i * 3) % fan, i % fan, i / fan}
		case 3: // mixed depths
			d = []int{i % 3, (i / 3) % 2, (i / 6) % fan, i % fan}
		}
		dig = append(dig, append(d, i/fan))
	}
	// the first name may be among any of the others
	dig[0][0] = sym.Ite(sym.Bool("digit"), dig[n-1][0], sym.Ite(sym.Bool("digit"), dig[n/2][0], (dig[1][0]+1)%fan))
	dig[0][1] = sym.Ite(sym.Bool("digit"), dig[n-1][1], sym.Ite(sym.Bool("digit"), dig[n/2][1], (dig[1][1]+1)%fan))
	dig[0][4] = fan - 1
	return NewWorldOf(fan, dig)
}

// Wide: directories of many entries.
func Wide() {
	n := sym.Param("names", 20)
	w := WideWorld(n)
	s := w.Shard()
	mask := 1<<uint(n) - 1
	if sym.Choice("present", 2) == 0 {
		mask-- // all but the first
	}
	w.Fill(s, mask, sym.Choice("order", 2) == 1)
	w.Canonical(s, "wide/built")
	if sym.Choice("reload", 2) == 1 {
		s = w.Load(s)
	}
	w.DS.Async = true
	w.Enum(s, "wide/enum")
	w.Find(s, 0, "wide/find")
	w.Step(s, sym.Choice("op", 2), 0)
	w.Canonical(s, "wide/changed")
	ls, err := drain(s.EnumLinksAsync(ctx))
	kit.Must(err, "wide/async")
	w.Same(ls, "wide/async")
	sym.Assert(sym.Quiesce() == 0, "wide/leak")
	// down to a few entries, one after the other
	left := 1
	rev := sym.Choice("removal", 2) == 1
	for k := 0; k < n && w.count() > left; k++ {
		j := k
		if rev {
			j = n - 1 - k
		}
		if w.M[j] >= 0 {
			w.Step(s, 3, j)
			w.Canonical(s, "wide/removed")
		}
	}
	w.Each(s, "wide/each")
	sym.Reach("wide")
}
