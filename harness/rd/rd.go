// Package rd: reading and seeking file DAGs.
package rd

import (
	"bytes"
	"context"
	"io"
	"runtime"

	"github.com/gogo/protobuf/proto"
	cid "github.com/ipfs/go-cid"
	ipld "github.com/ipfs/go-ipld-format"
	uio "github.com/ipfs/go-unixfs/io"
	pb "github.com/ipfs/go-unixfs/pb"

	"github.com/ipfs/go-unixfs/zzverif/kit"
	"github.com/ipfs/go-unixfs/zzverif/sym"
)

var ctx = context.Background()

func kinds() []int {
	switch sym.Choice("kinds", sym.Param("kinds", 3)) {
	case 0:
		return []int{kit.RawLeaf}
	case 1:
		return []int{kit.FileLeaf, kit.DataLeaf}
	}
	return []int{kit.DataLeaf, kit.RawLeaf}
}

// step runs one reader operation against the reference position.
func step(rd uio.DagReader, file []byte, pos int) int {
	size := len(file)
	avail := sym.Ite(pos < size, size-pos, 0)
	op := sym.Choice("op", 5)
	switch op {
	case 0, 1:
		want := sym.Int("want", 0, sym.Param("want", 1<<21))
		buf := make([]byte, want)
		var n int
		var err error
		if op == 1 {
			n, err = rd.CtxReadFull(ctx, buf)
		} else {
			n, err = rd.Read(buf)
		}
		exp := sym.Ite(want < avail, want, avail)
		sym.Assert(n == exp, "read/count")
		if n < want {
			sym.Assert(err == io.EOF, "read/short-without-eof")
			sym.Reach("eof")
		} else {
			sym.Assert(err == nil || (err == io.EOF && pos+n >= size), "read/error")
		}
		if n > 0 {
			sym.AssertEqBytes(buf[:n], file[pos:pos+n], "read/content")
			pos += n
		}
		sym.Observe("n", n)
	case 2:
		whence := sym.Choice("whence", 4)
		off := sym.Int("off", -sym.Param("off", 1<<23), sym.Param("off", 1<<23))
		base := 0
		switch whence {
		case io.SeekCurrent:
			base = pos
		case io.SeekEnd:
			base = size
		}
		got, err := rd.Seek(int64(off), whence)
		if whence == 3 {
			sym.Assert(err != nil, "seek/whence")
			return pos
		}
		if base+off < 0 {
			sym.Assert(err != nil, "seek/negative")
			sym.Reach("negative")
			return pos
		}
		kit.Must(err, "seek/error")
		sym.Assert(got == int64(base+off), "seek/result")
		pos = base + off
		if pos > size {
			sym.Reach("beyond")
		}
	case 3:
		var w bytes.Buffer
		n, err := rd.WriteTo(&w)
		kit.Must(err, "writeto/error")
		sym.Assert(n == int64(avail), "writeto/count")
		if avail > 0 {
			sym.AssertEqBytes(w.Bytes(), file[pos:], "writeto/content")
			pos = size
		} else {
			sym.Assert(w.Len() == 0, "writeto/nothing")
		}
		sym.Reach("writeto")
	case 4:
		sym.Assert(rd.Size() == uint64(size), "size")
	}
	return pos
}

func ops(lo, hi int) {
	ds := kit.NewDS()
	shape := lo + sym.Choice("shape", hi-lo)
	root, file := ds.File(shape, 0, sym.Param("leafmax", 1<<20), kinds())
	opsOn(ds, root, file)
}

func opsOn(ds *kit.DS, root ipld.Node, file []byte) {
	rd, err := uio.NewDagReader(ctx, ds.Reload(root), ds)
	kit.Must(err, "open")
	pos := 0
	for i := 0; i < sym.Param("ops", 3); i++ {
		pos = step(rd, file, pos)
	}
	p, err := rd.Seek(0, io.SeekCurrent)
	sym.Assert(err == nil && p == int64(pos), "tell")
	// wherever the operations left it, the rest of the file follows
	if pos <= len(file) {
		rest := make([]byte, len(file)-pos+1)
		n, err := rd.CtxReadFull(ctx, rest)
		sym.Assert(err == io.EOF, "rest/eof")
		sym.AssertEqBytes(rest[:n], file[pos:], "rest/content")
	} else {
		n, err := rd.Read(make([]byte, 2))
		sym.Assert(n == 0 && err == io.EOF, "rest/beyond")
	}
}

// Ops: a few operations on files of up to three leaves.
func Ops() { ops(0, sym.Param("shapes", 6)) }

// OpsWide: files of many leaves.
func OpsWide() {
	ds := kit.NewDS()
	shape := []string{"(LLLLLLLLLLLLLL)", "((LLLL)((LLL)(LL)L)(LLLLLLLLLLLL)L)"}[sym.Choice("shape", 2)]
	root, file := ds.Shape(shape, 3, 3, kinds())
	opsOn(ds, root, file)
}

// OpsDeep: nested and empty shapes.
func OpsDeep() { ops(4, len(kit.Shapes)) }

// limited fails after the given number of bytes.
type limited struct {
	buf  []byte
	left int
	hit  bool
}

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.left {
		n := l.left
		l.buf = append(l.buf, p[:n]...)
		l.left = 0
		l.hit = true
		return n, kit.ErrFault
	}
	l.buf = append(l.buf, p...)
	l.left -= len(p)
	return len(p), nil
}

// position: the reported position is where the next bytes come from.
func position(rd uio.DagReader, file []byte, id string) {
	p, err := rd.Seek(0, io.SeekCurrent)
	kit.Must(err, id+"/tell")
	sym.Assert(p >= 0 && p <= int64(len(file)), id+"/range")
	rest := make([]byte, len(file)-int(p)+1)
	n := 0
	// children fetched ahead before the fault was cleared may still fail, once
	for k := 0; ; k++ {
		m, err := rd.CtxReadFull(ctx, rest[n:])
		n += m
		if err == io.EOF {
			break
		}
		sym.Assert(err != nil && k < 4, id+"/eof")
	}
	sym.AssertEqBytes(rest[:n], file[p:], id+"/content")
}

// Faults: a block that cannot be read, or a writer that fails, is reported,
// and never looks like the end of the file; the position stays true.
func Faults() {
	ds := kit.NewDS()
	root, file := ds.File(sym.Choice("shape", sym.Param("shapes", 7)), 0, sym.Param("leafmax", 64), kinds())
	rn := ds.Reload(root)
	rd, err := uio.NewDagReader(ctx, rn, ds)
	kit.Must(err, "open")
	pos := 0
	if sym.Choice("moved", 2) == 1 {
		pos = sym.Int("start", 0, len(file))
		_, err := rd.Seek(int64(pos), io.SeekStart)
		kit.Must(err, "start")
	}
	w := &limited{left: 1 << 30}
	switch sym.Choice("kind", 3) {
	case 0:
		ds.FailGet = ds.Gets + sym.Choice("at", sym.Param("faults", 3))
	case 1:
		// a block is gone
		i := sym.Choice("block", sym.Param("blocks", 4))
		if i >= len(ds.Log) {
			sym.Skip()
		}
		ds.Missing[ds.Log[i].Cid] = true
	case 2:
		w.left = sym.Int("space", 0, sym.Param("space", 200))
	}
	switch sym.Choice("op", 3) {
	case 0:
		want := sym.Int("want", 0, len(file)+1)
		buf := make([]byte, want)
		n, err := rd.Read(buf)
		sym.Assert(n <= len(file)-pos, "read/count")
		if n > 0 {
			sym.AssertEqBytes(buf[:n], file[pos:pos+n], "read/content")
		}
		if err == io.EOF {
			sym.Assert(pos+n == len(file), "read/eof")
		} else if err == nil {
			sym.Assert(n == want, "read/short")
		} else {
			sym.Reach("read-fault")
		}
		if err == nil || err == io.EOF {
			pos += n
		} else {
			pos = -1
		}
	case 1:
		to := sym.Int("to", 0, len(file))
		got, err := rd.Seek(int64(to), io.SeekStart)
		if err == nil {
			sym.Assert(got == int64(to), "seek/result")
			pos = to
		} else {
			sym.Reach("seek-fault")
			pos = -1
		}
	case 2:
		n, err := rd.WriteTo(w)
		sym.Assert(n == int64(len(w.buf)), "writeto/count")
		sym.Assert(int(n) <= len(file)-pos, "writeto/much")
		if n > 0 {
			sym.AssertEqBytes(w.buf, file[pos:pos+int(n)], "writeto/content")
		}
		if err == nil {
			sym.Assert(pos+int(n) == len(file), "writeto/partial")
			sym.Assert(!w.hit, "writeto/hidden")
			pos = len(file)
		} else {
			if w.hit {
				sym.Reach("writer-fault")
				sym.Assert(err == kit.ErrFault, "writeto/error")
				pos += int(n)
			} else {
				pos = -1
			}
		}
	}
	ds.FailGet = -1
	ds.Missing = map[cid.Cid]bool{}
	if pos >= 0 {
		p, err := rd.Seek(0, io.SeekCurrent)
		sym.Assert(err == nil && p == int64(pos), "tell")
	}
	position(rd, file, "after")
}

// Reject: only files can be read, and a metadata node is read through.
func Reject() {
	ds := kit.NewDS()
	t := sym.Int("type", 0, 7)
	m := &pb.Data{}
	dt := pb.Data_DataType(t)
	m.Type = &dt
	if sym.Choice("data", 2) == 1 {
		m.Data = sym.Bytes("data", sym.Int("datalen", 0, 20))
	}
	if sym.Choice("size", 2) == 1 {
		m.Filesize = proto.Uint64(uint64(len(m.Data)))
	}
	if t == 5 && sym.Choice("fanout", 2) == 1 {
		m.HashType = proto.Uint64(0x22)
		m.Fanout = proto.Uint64(256)
	}
	nd := kit.PB(m)
	var file []byte
	links := 0
	if t == int(pb.Data_Metadata) {
		links = sym.Choice("links", 3)
		var kid ipld.Node
		if links == 1 {
			file = sym.Bytes("file", sym.Int("len", 0, 20))
			kid = ds.MkLeaf(kit.FileLeaf, file)
		} else if links == 2 {
			kid, file = ds.File(3, 0, 20, []int{kit.RawLeaf})
		}
		if kid != nil {
			kit.Must(nd.AddNodeLink("", kid), "link")
		}
	}
	kit.Must(ds.Add(ctx, nd), "add")
	rd, err := uio.NewDagReader(ctx, ds.Reload(nd), ds)
	switch pb.Data_DataType(t) {
	case pb.Data_Directory, pb.Data_HAMTShard:
		sym.Assert(err == uio.ErrIsDir, "directory")
		return
	case pb.Data_Symlink:
		sym.Assert(err == uio.ErrCantReadSymlinks, "symlink")
		return
	case pb.Data_Raw, pb.Data_File:
		kit.Must(err, "file")
		file = m.Data
	case pb.Data_Metadata:
		if links == 0 {
			sym.Assert(err != nil, "metadata/no-child")
			return
		}
		kit.Must(err, "metadata")
		sym.Reach("through")
	default:
		sym.Assert(err != nil, "unknown")
		sym.Reach("unknown")
		return
	}
	sym.Assert(t == int(pb.Data_Metadata) || m.Filesize == nil || rd.Size() == uint64(len(file)), "size")
	got := make([]byte, len(file)+1)
	n, err := rd.CtxReadFull(ctx, got)
	sym.Assert(err == io.EOF, "eof")
	sym.AssertEqBytes(got[:n], file, "content")
}

// Cancel: a cancelled call returns promptly, with a correct prefix; a later
// call with a live context goes on from the true position; after Close nothing
// is read and no goroutine stays behind.
func Cancel() {
	ds := kit.NewDS()
	root, file := ds.File(sym.Choice("shape", sym.Param("shapes", 5))+sym.Param("from", 2), 1, sym.Param("leafmax", 64), []int{kit.RawLeaf})
	rn := ds.Reload(root)
	own, stop := context.WithCancel(ctx)
	rd, err := uio.NewDagReader(own, rn, ds)
	kit.Must(err, "open")
	how := sym.Choice("how", 3)
	at := sym.Choice("at", sym.Param("at", 4))
	base := ds.Gets
	call, cancel := context.WithCancel(ctx)
	end := func() {
		switch how {
		case 0:
			cancel()
		case 1:
			stop()
		case 2:
			rd.Close()
		}
	}
	if at == 0 {
		end()
	}
	ds.OnGet = func(k int) {
		if k-base+1 == at {
			end()
		}
	}
	pos := 0
	if sym.Choice("block", 2) == 1 {
		// no answer ever comes; the call is cut from elsewhere
		ds.Block = true
		if at > 0 {
			go end()
		}
	}
	sym.Sched(sym.Param("delays", 0))
	want := sym.Int("want", 1, len(file)+1)
	buf := make([]byte, want)
	var n int
	if how == 0 {
		n, err = rd.CtxReadFull(call, buf)
	} else if sym.Choice("copy", 2) == 1 {
		var m int64
		w := new(bytes.Buffer)
		m, err = rd.WriteTo(w)
		n = w.Len()
		sym.Assert(m == int64(n), "copy/count")
		buf, want = w.Bytes(), n
		if err == nil {
			sym.Assert(n == len(file), "copy/short")
			sym.Reach("copied")
		}
	} else {
		n, err = rd.Read(buf)
	}
	sym.Sched(0)
	sym.Assert(n <= len(file), "count")
	sym.AssertEqBytes(buf[:n], file[:n], "content")
	pos = n
	if err == io.EOF {
		sym.Assert(pos == len(file), "eof")
	} else if err == nil {
		sym.Assert(n == want, "short")
		sym.Reach("done")
	} else {
		sym.Reach("cut")
	}
	ds.OnGet = nil
	ds.Block = false
	if how == 0 {
		// the reader itself still works, when the read was cut and when its
		// context ends after it
		clean := err == nil && call.Err() == nil
		sym.Quiesce()
		cancel()
		p, err := rd.Seek(0, io.SeekCurrent)
		sym.Assert(err == nil && p == int64(pos), "tell")
		rest := make([]byte, len(file)-pos+1)
		m := 0
		for k := 0; ; k++ {
			l, err := rd.CtxReadFull(ctx, rest[m:])
			m += l
			if err == io.EOF {
				break
			}
			sym.Assert(err != nil && k < 4, "resume/eof")
			sym.Assert(!clean, "resume/late-cancel")
		}
		sym.AssertEqBytes(rest[:m], file[pos:], "resume/content")
		sym.Reach("resumed")
	}
	rd.Close()
	cancel()
	stop()
	sym.Assert(sym.Quiesce() == 0, "leak")
	g := ds.Gets
	more := make([]byte, 1)
	rd.Read(more)
	sym.Assert(ds.Gets == g, "read-after-close")
}

// Turns: two readers of one node, used in turns, do not affect each other.
func Turns() {
	a, b, file, _ := pair()
	rds, pos := [2]uio.DagReader{a, b}, [2]int{}
	for i := sym.Param("ops", 2); i > 0; i-- {
		w := sym.Choice("who", 2)
		pos[w] = step(rds[w], file, pos[w])
	}
	closed := sym.Choice("close", 2) == 1
	if closed {
		sym.Assert(a.Close() == nil, "turns/close")
		sym.Reach("closed")
	}
	for w, r := range rds {
		if w == 0 && closed {
			continue
		}
		p, err := r.Seek(0, io.SeekCurrent)
		sym.Assert(err == nil && p == int64(pos[w]), "turns/position")
		if pos[w] <= len(file) {
			position(r, file, "turns")
		}
	}
}

func pair() (a, b uio.DagReader, file []byte, ds *kit.DS) {
	ds = kit.NewDS()
	root, content := ds.File(sym.Choice("shape", sym.Param("shapes", 4))+sym.Param("from", 0), 1, sym.Param("leafmax", 16), kinds())
	file = content
	rn := ds.Reload(root)
	a, err := uio.NewDagReader(ctx, rn, ds)
	kit.Must(err, "open")
	b, err = uio.NewDagReader(ctx, rn, ds)
	kit.Must(err, "open")
	return a, b, file, ds
}

// pausing lets others run before it takes the bytes.
type pausing struct{ bytes.Buffer }

func (w *pausing) Write(b []byte) (int, error) {
	runtime.Gosched()
	return w.Buffer.Write(b)
}

// Readers: two readers of one node, at the same time, both see the file.
func Readers() {
	a, b, file, _ := pair()
	sym.Reach("concurrent")
	sym.Race()
	from := sym.Int("from", 0, len(file))
	write := sym.Choice("write", 3)
	read := func(rd uio.DagReader, at int, write bool) {
		p, err := rd.Seek(int64(at), io.SeekStart)
		sym.Assert(err == nil && p == int64(at), "concurrent/seek")
		if write {
			w := new(pausing)
			n, err := rd.WriteTo(w)
			sym.Assert(err == nil && n == int64(len(file)-at), "concurrent/written")
			sym.AssertEqBytes(w.Bytes(), file[at:], "concurrent/write-content")
			return
		}
		buf := make([]byte, len(file)+1)
		n, err := rd.CtxReadFull(ctx, buf)
		sym.Assert(err == io.EOF || err == nil, "concurrent/error")
		sym.Assert(n == len(file)-at, "concurrent/count")
		sym.AssertEqBytes(buf[:n], file[at:], "concurrent/content")
	}
	done := make(chan bool)
	sym.Sched(sym.Param("delays", 0))
	go func() {
		read(a, 0, write > 0)
		done <- true
	}()
	read(b, from, write > 1)
	<-done
	sym.Sched(0)
}
