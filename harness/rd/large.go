package rd

import (
	"bytes"
	"io"

	uio "github.com/ipfs/go-unixfs/io"

	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

// Huge: files of many gigabytes.
func Huge() {
	ds := kit.NewDS()
	h := ds.MkHuge(sym.Param("doubled", 16), 1<<17, 1<<18, 4096)
	rd, err := uio.NewDagReader(ctx, ds.Reload(h.Root), ds)
	kit.Must(err, "open")
	size := h.Size()
	sym.Assert(rd.Size() == uint64(size), "huge/size")
	pos := 0
	for i := 0; i < sym.Param("ops", 2); i++ {
		k := sym.Choice("window", 3)
		start, win := h.Window(k)
		e := sym.Int("at", 0, 1<<18+4096)
		sym.Assume(e <= len(win))
		to := start + e
		var got int64
		switch sym.Choice("whence", 3) {
		case 0:
			got, err = rd.Seek(int64(to), io.SeekStart)
		case 1:
			got, err = rd.Seek(int64(to-pos), io.SeekCurrent)
		case 2:
			got, err = rd.Seek(int64(to-size), io.SeekEnd)
		}
		kit.Must(err, "huge/seek")
		sym.Assert(got == int64(to), "huge/seek")
		pos = to
		if k == 0 && sym.Choice("all", 2) == 1 {
			var w bytes.Buffer
			n, err := rd.WriteTo(&w)
			kit.Must(err, "huge/writeto")
			sym.Assert(n == int64(size-to), "huge/writeto-count")
			sym.AssertEqBytes(w.Bytes(), win[e:], "huge/writeto-content")
			pos = size
			sym.Reach("writeto")
			continue
		}
		want := sym.Int("want", 1, 1<<12)
		if k != 0 {
			sym.Assume(e+want <= len(win))
		}
		exp := sym.Ite(want < len(win)-e, want, len(win)-e)
		buf := make([]byte, want)
		n, err := rd.Read(buf)
		sym.Assert(n == exp, "huge/count")
		sym.Assert((err == nil && n == want) || (err == io.EOF && to+n == size), "huge/error")
		if n > 0 {
			sym.AssertEqBytes(buf[:n], win[e:e+n], "huge/content")
			sym.Reach("read")
		}
		pos += n
	}
	p, err := rd.Seek(0, io.SeekCurrent)
	sym.Assert(err == nil && p == int64(pos), "huge/tell")
}
