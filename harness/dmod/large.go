package dmod

import (
	"io"

	help "github.com/ipfs/go-unixfs/importer/helpers"
	"github.com/ipfs/go-unixfs/mod"

	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

// Huge: files of many gigabytes.
func Huge() {
	help.DefaultLinksPerBlock = 2
	ds := kit.NewDS()
	h := ds.MkHuge(sym.Param("doubled", 16), 1<<17, 1<<18, 4096)
	dm, err := mod.NewDagModifier(ctx, ds.Reload(h.Root), ds, splitter(1<<20))
	kit.Must(err, "open")
	size := h.Size()
	k := sym.Choice("window", 3)
	start, win := h.Window(k)
	e := sym.Int("at", 0, 1<<18+4096)
	sym.Assume(e <= len(win))
	at := start + e
	pos := -1
	switch sym.Choice("op", 4) {
	case 0, 1: // write
		b := sym.Bytes("data", sym.Int("len", 1, 4096))
		if k != 0 {
			sym.Assume(e+len(b) <= len(win))
		}
		var n int
		if sym.Choice("seek", 2) == 1 {
			var p int64
			if sym.Choice("end", 2) == 1 {
				p, err = dm.Seek(int64(at-size), io.SeekEnd)
			} else {
				p, err = dm.Seek(int64(at), io.SeekStart)
			}
			kit.Must(err, "huge/seek")
			sym.Assert(p == int64(at), "huge/seek")
			n, err = dm.Write(append([]byte{}, b...))
		} else {
			n, err = dm.WriteAt(append([]byte{}, b...), int64(at))
		}
		kit.Must(err, "huge/write")
		sym.Assert(n == len(b), "huge/write-count")
		w := make([]byte, sym.Ite(e+n > len(win), e+n, len(win)))
		copy(w, win)
		copy(w[e:], b)
		win = w
		if k == 0 {
			size = start + len(win)
		}
		pos = at + n
		sym.Reach("write")
	case 2: // truncate
		kit.Must(dm.Truncate(int64(at)), "huge/truncate")
		win = win[:e]
		size = at
		sym.Reach("truncate")
	case 3: // read
		_, err := dm.Seek(int64(at), io.SeekStart)
		kit.Must(err, "huge/seek")
		want := sym.Int("want", 1, 4096)
		if k != 0 {
			sym.Assume(e+want <= len(win))
		}
		buf := make([]byte, want)
		n, err := dm.Read(buf)
		sym.Assert(n == sym.Ite(want < len(win)-e, want, len(win)-e), "huge/read-count")
		sym.Assert(err == nil || err == io.EOF, "huge/read")
		if n > 0 {
			sym.AssertEqBytes(buf[:n], win[e:e+n], "huge/read-content")
		}
		pos = at + n
	}
	if pos >= 0 {
		p, err := dm.Seek(0, io.SeekCurrent)
		kit.Must(err, "huge/tell")
		sym.Assert(p == int64(pos), "huge/tell")
	}
	s, err := dm.Size()
	kit.Must(err, "huge/size")
	sym.Assert(s == int64(size), "huge/size")
	nd, err := dm.GetNode()
	kit.Must(err, "huge/node")
	st := ds.Reload(nd)
	sym.Assert(kit.FileSize(st, "huge") == size, "huge/filesize")
	if len(win) > 0 {
		sym.AssertEqBytes(ds.At(st, start, len(win), "huge/at"), win, "huge/content")
	}
	// another part of the file is as it was
	if k != 1 {
		s, w := h.Window(1)
		if size >= s+len(w) {
			sym.AssertEqBytes(ds.At(st, s, len(w), "huge/other"), w, "huge/other-content")
		}
	}
}

// Buffered: writes that fill the buffer of the modifier, in one go or several.
func Buffered() {
	f := open()
	f.step([]int{opWrite, opWriteAt, opSeek}[sym.Choice("first", 3)])
	f.size()
	f.step(opWrite)
	f.size()
	switch sym.Choice("then", 4) {
	case 1:
		f.step(opWrite)
	case 2:
		f.step(opWriteAt)
	case 3:
		f.step(opTruncate)
	}
	f.size()
	f.node()
	f.size()
	if len(f.m) > 1<<21 {
		sym.Reach("full")
	}
}
