// Package c17: reads and writes of files.
package c17

import (
	"io"

	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

// setup is a session with file f of n arbitrary bytes open.
func setup(n int, mode uint8) (*S, uint32, *vos.Node, []byte) {
	Tree()
	node := vos.Find("/r/f")
	node.Data = BigBytes("content", n)
	want := append([]byte{}, node.Data...)
	s := Sized("/r", 1<<17)
	fid := Distinct(1)[0]
	s.Attach(fid, "").OK("attach")
	s.Walk(fid, fid, "f").OK("walk")
	s.Open(fid, mode).OK("open")
	return s, fid, node, want
}

// expect is what a read should return.
func expect(data []byte, off uint64, n int) []byte {
	if off >= uint64(len(data)) {
		return nil
	}
	o := int(vnd.Pin(off))
	e := o + n
	if e > len(data) {
		e = len(data)
	}
	return data[o:e]
}

func checkRead(s *S, fid uint32, data []byte, off uint64, n int) {
	r := s.Read(fid, off, uint32(n))
	if off >= 1<<63 {
		vnd.Assert(r.Bad || len(r.F[0].B) == 0, "a read at an impossible offset returns data")
		vnd.Cover("impossible offset")
		return
	}
	r.OK("read")
	w := expect(data, off, n)
	g := r.F[0].B
	vnd.Assert(len(g) == len(w), "a read returns another number of bytes than asked for or left")
	vnd.Assert(vnd.BytesEq(g, w), "a read returns other bytes than the file has there")
	switch {
	case len(w) == 0:
		vnd.Cover("read nothing")
	case len(w) < n:
		vnd.Cover("read to the end")
	default:
		vnd.Cover("read all asked for")
	}
}

func same(n *vos.Node, data []byte, what string) {
	vnd.Assert(len(n.Data) == len(data), what+": the file has another length")
	vnd.Assert(vnd.BytesEq(n.Data, data), what+": the file has other contents")
}

// C17_Read: one read.
func C17_Read() {
	vnd.Bound("file server: a file of 0, 1 or 6 arbitrary bytes (also 9000), any 64-bit offset, counts 0 to 8, 8168, 8192, 8193 and 65536; opened for reading, both or execution; messages of up to 128 KB agreed on")
	n := []int{0, 1, 6, 9000}[vnd.Choose("len", 4)]
	mode := []uint8{OREAD, ORDWR, OEXEC}[vnd.Choose("mode", 3)]
	s, fid, node, want := setup(n, mode)
	off := vnd.U64("off")
	var c int
	if n == 9000 {
		vnd.Assume(vnd.Or(off < 3, off >= 8998))
		c = []int{1, 8168, 8192, 8193, 65536}[vnd.Choose("count", 5)]
	} else {
		c = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 8192}[vnd.Choose("count", 10)]
	}
	checkRead(s, fid, want, off, c)
	same(node, want, "a read")
}

// apply is what the file should hold after a write.
func apply(data []byte, off int, b []byte) []byte {
	out := append([]byte{}, data...)
	if len(b) == 0 {
		return out
	}
	for len(out) < off+len(b) {
		out = append(out, 0)
	}
	copy(out[off:], b)
	return out
}

func checkWrite(s *S, fid uint32, node *vos.Node, data []byte, off uint64, b []byte) []byte {
	at := len(vos.Log)
	r := s.Write(fid, off, b)
	if off >= 1<<63 {
		vnd.Assert(r.Bad || len(b) == 0, "a write at an impossible offset succeeds")
		same(node, data, "a write at an impossible offset")
		return data
	}
	r.OK("write")
	vnd.Assert(r.F[0].U == uint64(len(b)), "a write reports another number of bytes than it was given")
	if off > 4096 {
		if len(b) > 0 {
			done := 0
			for _, c := range vos.Log[at:] {
				if c.Op == "writeat" {
					n := len(c.Data)
					vnd.Assert(c.H.Node == node && done+n <= len(b) && vnd.And(uint64(c.Off) == off+uint64(done), vnd.BytesEq(c.Data, b[done:done+n])), "a write goes elsewhere or has other bytes")
					done += n
				}
			}
			vnd.Assert(done == len(b), "a write is not done exactly once")
		}
		vnd.Cover("far write")
		return data
	}
	w := apply(data, int(vnd.Pin(off)), b)
	same(node, w, "a write")
	vnd.Cover("near write")
	return w
}

// C17_Write: one write.
func C17_Write() {
	vnd.Bound("file server: a file of 0, 1 or 6 arbitrary bytes, writes of 0, 1, 4 and 9000 arbitrary bytes at any offset up to 8 or above 4096; opened for writing or both; other files unchanged")
	n := []int{0, 1, 6}[vnd.Choose("len", 3)]
	mode := []uint8{OWRITE, ORDWR}[vnd.Choose("mode", 2)]
	s, fid, node, want := setup(n, mode)
	off := vnd.U64("off")
	vnd.Assume(vnd.Or(off <= 8, off > 4096))
	b := BigBytes("data", []int{0, 1, 4, 9000}[vnd.Choose("count", 4)])
	checkWrite(s, fid, node, want, off, b)
	same(vos.Find("/r/g"), []byte("gg"), "a write to another file")
	same(vos.Find("/r/d/x"), []byte("xx"), "a write to another file")
}

// C17_Mixed: reads and writes through two fids of the same file or two files.
func C17_Mixed() {
	k := 2
	if vnd.Config("tier", 0) > 0 {
		k = 3
	}
	vnd.Bound("file server: every sequence of 2 (thorough: 3) reads and writes at any offset up to 3 through two fids of the same file or of two files, with arbitrary bytes")
	s, fid, node, want := setup(3, ORDWR)
	two := fid ^ 1
	nodes := []*vos.Node{node, node}
	data := []*[]byte{&want, &want}
	vnd.Assume(two != NOFID)
	s.Attach(two, "").OK("attach")
	if vnd.Choose("files", 2) == 0 {
		s.Walk(two, two, "f").OK("walk")
	} else {
		s.Walk(two, two, "g").OK("walk")
		o := []byte("gg")
		nodes[1] = vos.Find("/r/g")
		data[1] = &o
	}
	s.Open(two, ORDWR).OK("open")
	for i := 0; i < k; i++ {
		w := vnd.Choose("who", 2)
		f := []uint32{fid, two}[w]
		off := vnd.U64("off")
		vnd.Assume(off <= 3)
		if vnd.Choose("write", 2) == 1 {
			*data[w] = checkWrite(s, f, nodes[w], *data[w], off, vnd.Bytes("data", 1+vnd.Choose("n", 2)))
		} else {
			checkRead(s, f, *data[w], off, 1+2*vnd.Choose("n", 2))
		}
		for j := range nodes {
			same(nodes[j], *data[j], "another read or write")
		}
	}
	vnd.Cover("mixed")
}

// C17_Long: a long session, then any read or write.
func C17_Long() {
	n, k := 60, 3
	if vnd.Config("tier", 0) > 0 {
		n, k = 600, 8
	}
	vnd.Bound("file server: sessions of 60 (3 of them; thorough: 600, 8 of them) reads and writes of up to 300 bytes at offsets up to 2000 through three fids of two files, one of which is closed and opened again now and then; then a read or write of any one byte at any offset below 3, from 255 to 257 or at the end of the file")
	Tree()
	nodes := []*vos.Node{vos.Find("/r/f"), vos.Find("/r/f"), vos.Find("/r/g")}
	f, g := []byte("hello"), []byte("gg")
	data := []*[]byte{&f, &f, &g}
	s := New("/r")
	open := func(i int) {
		s.Attach(uint32(i), []string{"/f", "/f", "/g"}[i]).OK("attach")
		s.Open(uint32(i), ORDWR).OK("open")
	}
	for i := range nodes {
		open(i)
	}
	x := uint32(vnd.Choose("session", k))*7919 + 12345
	next := func(n int) int {
		x = x*1664525 + 1013904223
		return int(x>>12) % n
	}
	for i := 0; i < n; i++ {
		w := next(3)
		off := next([]int{3, 300, 2000}[next(3)])
		size := next([]int{3, 20, 300}[next(3)])
		switch next(5) {
		case 0, 1:
			b := make([]byte, size)
			for j := range b {
				b[j] = byte(i + j)
			}
			*data[w] = checkWrite(s, uint32(w), nodes[w], *data[w], uint64(off), b)
		case 2:
			if i%3 == 0 {
				s.Clunk(uint32(w)).OK("clunk")
				open(w)
			}
		default:
			checkRead(s, uint32(w), *data[w], uint64(off), size)
		}
	}
	w := vnd.Choose("who", 3)
	off := vnd.U64("off")
	l := uint64(len(*data[w]))
	vnd.Assume(vnd.Or(off < 3, vnd.And(off >= 255, off <= 257), vnd.And(off+2 > l, off < l+2)))
	if vnd.Choose("write", 2) == 1 {
		*data[w] = checkWrite(s, uint32(w), nodes[w], *data[w], off, vnd.Bytes("data", 1))
		vnd.Cover("last write")
	} else {
		checkRead(s, uint32(w), *data[w], off, 1)
		vnd.Cover("last read")
	}
	for i := range nodes {
		same(nodes[i], *data[i], "another read or write")
	}
}

// C17_Anywhere: a read or write of any size at any offset of a large file.
func C17_Anywhere() {
	vnd.Bound("file server: one read or write at every 64-bit offset below 2^63 of a file of any contents, sizes 0-34, 2^6 to 2^16 and one more or less, 8168-8194, 10000, 50000, 100000 and 131048, of which the file has all, none, half, or all but one byte")
	s, fid, node, _ := setup(5, ORDWR)
	off := vnd.U64("off")
	vnd.Assume(off < 1<<63)
	l := append(Sweep(), 65536, 65537, 100000, 131048)
	n := l[vnd.Choose("count", len(l))]
	var data []byte
	done := 0
	eof := false
	if vnd.Choose("write", 2) == 1 {
		data = BigBytes("data", n)
		vos.Anywhere = func(c *vos.Call, b []byte) (int, error) {
			vnd.Assert(c.Op == "writeat" && c.H.Node == node, "a write does something else")
			vnd.Assert(done+len(b) <= n && vnd.And(uint64(c.Off) == off+uint64(done), vnd.BytesEq(b, data[done:done+len(b)])), "a write goes elsewhere or has other bytes")
			done += len(b)
			return len(b), nil
		}
		r := s.Write(fid, off, data).OK("write")
		vnd.Assert(done == n, "a write is not done exactly once")
		vnd.Assert(r.F[0].U == uint64(n), "a write reports another number of bytes than it was given")
		vnd.Cover("written")
		return
	}
	has := []int{n, 0, n - 1, n / 2}[vnd.Choose("has", 4)]
	if has < 0 {
		has = 0
	}
	data = BigBytes("content", has)
	vos.Anywhere = func(c *vos.Call, b []byte) (int, error) {
		vnd.Assert(c.Op == "readat" && c.H.Node == node, "a read does something else")
		if eof {
			return 0, io.EOF
		}
		vnd.Assert(vnd.And(uint64(c.Off) == off+uint64(done), len(b) <= n-done), "a read is of other bytes of the file")
		k := copy(b, data[done:])
		done += k
		if k < len(b) {
			eof = true
			return k, io.EOF
		}
		return k, nil
	}
	r := s.Read(fid, off, uint32(n)).OK("read")
	vnd.Assert(vnd.BytesEq(r.F[0].B, data), "a read returns other bytes than the file has there")
	vnd.Cover("read")
}

// C17_Refused: reads and writes that are not allowed.
func C17_Refused() {
	vnd.Bound("file server: reads of a file open for writing only or not open, writes to one open for reading or execution or not open, counts of 2^31 and more, any offset and any 3 bytes")
	Tree()
	s := New("/r")
	fid := Distinct(1)[0]
	s.Attach(fid, "/f").OK("attach")
	off := vnd.U64("off")
	node := vos.Find("/r/f")
	switch vnd.Choose("what", 5) {
	case 0:
		s.Read(fid, off, 3).Refused("a read of a fid that is not open")
	case 1:
		s.Write(fid, off, vnd.Bytes("data", 3)).Refused("a write to a fid that is not open")
	case 2:
		s.Open(fid, OWRITE).OK("open")
		s.Read(fid, off, 3).Refused("a read of a file open for writing")
	case 3:
		s.Open(fid, []uint8{OREAD, OEXEC}[vnd.Choose("mode", 2)]).OK("open")
		s.Write(fid, off, vnd.Bytes("data", 3)).Refused("a write to a file open for reading")
	case 4:
		s.Open(fid, OREAD).OK("open")
		c := vnd.U32("count")
		vnd.Assume(c >= 0x80000000)
		r := s.Read(fid, off, c)
		vnd.Assert(r.Bad || vnd.BytesEq(r.F[0].B, expect([]byte("hello"), off, 100)), "a read with a huge count returns other data")
	}
	same(node, []byte("hello"), "a refused read or write")
	vnd.Cover("refused")
}

// C17_Fault: the host fails in the middle.
func C17_Fault() {
	vnd.Bound("file server: reads and writes of 1 to 5 bytes of which the host transfers any part and then fails, or fails at once, with an error of 20 kinds")
	s, fid, node, want := setup(5, ORDWR)
	n := 1 + vnd.Choose("n", 5)
	k := vnd.Choose("part", n)
	err := HostErr()
	fault := func(int) (int, error) { return k, err }
	write := vnd.Choose("write", 2) == 1
	switch vnd.Choose("how", 2) {
	case 0:
		vos.ReadFault, vos.ShortWrite = fault, fault
	case 1:
		vos.Fail = func(c *vos.Call) error {
			if c.Op == "readat" || c.Op == "writeat" {
				return err
			}
			return nil
		}
	}
	if write {
		s.Write(fid, 0, vnd.Bytes("data", n)).Refused("a write that failed on the host")
	} else {
		s.Read(fid, 0, uint32(n)).Refused("a read that failed on the host")
		same(node, want, "a failed read")
	}
	vos.ReadFault, vos.ShortWrite, vos.Fail = nil, nil, nil
	if !write {
		checkRead(s, fid, want, 0, n)
	}
	vnd.Cover("failed")
}

// C17_Changes: the file changes by other means between reads and writes.
func C17_Changes() {
	k := 2 + vnd.Config("tier", 0)
	vnd.Bound("file server: a file of 6 arbitrary bytes read and written through two fids 2 (thorough: 3) times at offset 0 or 4, or cut or made longer by a wstat through either fid or one that is not open, emptied by an open with OTRUNC, or changed by another program; then read through either")
	s, fid, node, want := setup(6, ORDWR)
	two, three, four := fid^1, fid^2, fid^3
	for _, f := range []uint32{two, three, four} {
		vnd.Assume(f != NOFID)
		s.Attach(f, "/f").OK("attach")
	}
	s.Open(two, ORDWR).OK("open")
	opened := false
	for i := 0; i < k; i++ {
		w := []uint32{fid, two}[vnd.Choose("who", 2)]
		off := uint64(4 * vnd.Choose("off", 2))
		switch vnd.Choose("step", 6) {
		case 0:
			checkRead(s, w, want, off, 4)
		case 1:
			want = checkWrite(s, w, node, want, off, vnd.Bytes("data", 3))
		case 2, 3:
			f := w
			if off == 4 {
				f = three
			}
			n := []int{2, 9}[vnd.Choose("length", 2)]
			d := DontTouch()
			d.Length = uint64(n)
			s.Wstat(f, d).OK("wstat of the length")
			for len(want) < n {
				want = append(want, 0)
			}
			want = want[:n:n]
		case 4:
			vnd.Assume(!opened)
			opened = true
			s.Open(four, OWRITE|OTRUNC).OK("open")
			want = nil
		case 5:
			node.Data = vnd.Bytes("other", 3+int(off))
			want = append([]byte{}, node.Data...)
		}
		same(node, want, "a read or write")
	}
	checkRead(s, []uint32{fid, two}[vnd.Choose("who", 2)], want, uint64(3*vnd.Choose("off", 2)), 8)
	vnd.Cover("changed")
}
