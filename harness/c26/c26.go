// Package c26: replies to reads and the message size.
package c26

import (
	p9 "github.com/Harvey-OS/ninep/protocol"
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

const (
	header = 11 // of a read reply
	ioHdr  = 24
	sane   = 256 // a message size below it need not allow reading
)

// agree makes a version request and returns the size that was answered.
func agree(s *S, m uint32) uint32 {
	r := s.Req(Tversion, U32F(m), StrF("9P2000")).OK("version")
	return uint32(r.F[0].U)
}

// read returns what a read gives, which fits; nil when it is refused.
func read(s *S, fid uint32, off uint64, count, m uint32) []byte {
	r := s.Read(fid, off, count)
	if r.Bad {
		vnd.Assert(m < sane, "a read is refused although messages are large enough")
		vnd.Cover("refused")
		return nil
	}
	b := r.F[0].B
	vnd.Assert(uint64(len(b))+header <= uint64(m), "a reply to a read is longer than the message size")
	vnd.Assert(uint64(len(b)) <= uint64(count), "a read returns more than was asked for")
	if b == nil {
		b = []byte{}
	}
	return b
}

// whole reads a file to its end, count bytes at a time.
func whole(s *S, fid uint32, want []byte, count, m uint32) {
	off := 0
	for {
		b := read(s, fid, uint64(off), count, m)
		if b == nil {
			return
		}
		vnd.Assert(off+len(b) <= len(want), "a read returns bytes beyond the end of the file")
		vnd.Assert(vnd.BytesEq(b, want[off:off+len(b)]), "a read returns other bytes than the file has there")
		left := uint64(len(want) - off)
		// no shorter than it has to be
		full := vnd.Or(uint64(len(b)) == uint64(count), uint64(len(b)) == left, uint64(len(b))+ioHdr >= uint64(m))
		vnd.Assert(vnd.Or(m < sane, full), "a read returns less than what is there, was asked for and fits")
		if len(b) == 0 {
			vnd.Assert(vnd.Or(left == 0, m < sane), "a file ends early")
			vnd.Cover("end")
			return
		}
		off += len(b)
		vnd.Cover("data")
	}
}

func file(n int) (*S, []byte) {
	return Connect(listener()), content(n)
}

func content(n int) []byte {
	Tree()
	node := vos.Find("/r/f")
	node.Data = BigBytes("content", n)
	return append([]byte{}, node.Data...)
}

func listener() *p9.Listener { return Listener("/r", vnd.Choose("debug", 2) == 1, false) }

func open(s *S, path string) {
	s.Attach(1, path).OK("attach")
	s.Open(1, OREAD).OK("open")
}

// C26_Small: any small size.
func C26_Small() {
	vnd.Bound("file server: every message size from 0 to 44, a file of 0, 1, 9 or 30 arbitrary bytes read to its end with counts of 1, 9, 30, 31 and 2^31-1; debug layer on and off")
	s, want := file([]int{0, 1, 9, 30}[vnd.Choose("len", 4)])
	m := vnd.U32("msize")
	vnd.Assume(m <= 44)
	m = agree(s, m)
	open(s, "/f")
	whole(s, 1, want, []uint32{1, 9, 30, 31, 1<<31 - 1}[vnd.Choose("count", 5)], m)
}

// C26_Large: sizes that are used.
func C26_Large() {
	vnd.Bound("file server: every message size from 8160 to 8230, and 256, 4096, 65536, a file of 0, 8150 or 20000 bytes read to its end with counts of 8168, 8192, 8206 and 65536; debug layer on and off")
	s, want := file([]int{0, 8150, 20000}[vnd.Choose("len", 3)])
	m := uint32(65536)
	switch vnd.Choose("range", 4) {
	case 0:
		m = vnd.U32("msize")
		vnd.Assume(vnd.And(m >= 8160, m <= 8230))
	case 1:
		m = 256
	case 2:
		m = 4096
	}
	m = agree(s, m)
	open(s, "/f")
	whole(s, 1, want, []uint32{8168, 8192, 8206, 65536}[vnd.Choose("count", 4)], m)
}

// C26_Dir: directories.
func C26_Dir() {
	vnd.Bound("file server: every message size from 0 to 160, and 256, 512, 8192; a directory of 0 to 3 entries with names of 1 to 60 bytes, read to its end with counts of 20, 100, 8192 and 2^31-1")
	vos.Reset()
	d := vos.Top.AddDir("r").AddDir("dir")
	n := vnd.Choose("entries", 4)
	for i := 0; i < n; i++ {
		nm := []byte{'a' + byte(i)}
		for len(nm) < []int{1, 60, 20}[i] {
			nm = append(nm, 'x')
		}
		d.AddFile(string(nm), "1")
	}
	s := Connect(Listener("/r", false, false))
	var m uint32
	if k := vnd.Choose("range", 4); k > 0 {
		m = []uint32{256, 512, 8192}[k-1]
	} else {
		m = vnd.U32("msize")
		vnd.Assume(m <= 160)
	}
	m = agree(s, m)
	open(s, "/dir")
	count := []uint32{20, 100, 8192, 1<<31 - 1}[vnd.Choose("count", 4)]
	off, got := 0, 0
	for {
		b := read(s, 1, uint64(off), count, m)
		if b == nil {
			return
		}
		if len(b) == 0 {
			break
		}
		off += len(b)
		for len(b) > 0 {
			vnd.Assert(len(b) >= 2, "a directory read returns part of an entry")
			k := int(vnd.Pin(uint64(DirSize(b))))
			vnd.Assert(k <= len(b), "a directory read returns part of an entry")
			_, ok := DecodeDir(b[:k])
			vnd.Assert(ok, "a directory entry is malformed")
			b = b[k:]
			got++
		}
	}
	vnd.Assert(got <= n, "a directory has more entries than there are")
	vnd.Assert(vnd.Or(got == n, m < sane, count < sane), "a directory entry is lost")
	vnd.Cover("listed")
}

// C26_Unit: what open and create announce.
func C26_Unit() {
	vnd.Bound("file server: any message size; open of a file and a directory in each mode, create of a file and a directory; debug layer on and off")
	Tree()
	s := Connect(Listener("/r", vnd.Choose("debug", 2) == 1, false))
	m := agree(s, vnd.U32("msize"))
	var r R
	switch vnd.Choose("what", 4) {
	case 0:
		s.Attach(1, "/f").OK("attach")
		r = s.Open(1, []uint8{OREAD, OWRITE, ORDWR}[vnd.Choose("mode", 3)]).OK("open")
	case 1:
		s.Attach(1, "/d").OK("attach")
		r = s.Open(1, OREAD).OK("open")
	case 2:
		s.Attach(1, "").OK("attach")
		r = s.Create(1, "new", 0644, ORDWR).OK("create")
	case 3:
		s.Attach(1, "").OK("attach")
		r = s.Create(1, "new", DMDIR|0755, OREAD).OK("create")
	}
	u := r.F[1].U
	vnd.Assert(vnd.Or(u == 0, u+ioHdr <= uint64(m)), "the announced size does not leave room for the header")
	vnd.Cover("announced")
}

// C26_Again: the last accepted size counts.
func C26_Again() {
	vnd.Bound("file server: a version request with any message size, then one with any size that is accepted or refused, then a file of 300 bytes read with counts of 100 and 4000 where the agreed size is from 256 to 290 or 4024 and more; other connections of the listener with other sizes at the same time or not")
	want, l := content(300), listener()
	s := Connect(l)
	m := agree(s, vnd.U32("first"))
	k := vnd.U32("second")
	if vnd.Choose("accepted", 2) == 1 {
		m = agree(s, k)
	} else {
		s.Req(Tversion, U32F(k), StrF("9P2001")).Refused("a version that does not exist")
	}
	if vnd.Choose("other", 2) == 1 {
		o := Connect(l)
		agree(o, vnd.U32("third"))
	}
	vnd.Assume(vnd.Or(m >= 4024, vnd.And(m >= 256, m <= 290)))
	open(s, "/f")
	whole(s, 1, want, []uint32{100, 4000}[vnd.Choose("count", 2)], m)
}

// C26_Huge: sizes of megabytes.
func C26_Huge() {
	vnd.Bound("file server: message sizes of 1 MB, 2 MB, 2 MB + 24, 4 MB and 2^32-1, a read of 3 MB of a file of 2.5 MB of zeros")
	Tree()
	n := 5 << 19
	vos.Find("/r/f").Data = make([]byte, n)
	s := Connect(Listener("/r", false, false))
	m := agree(s, []uint32{1 << 20, 1 << 21, 1<<21 + 24, 1 << 22, 1<<32 - 1}[vnd.Choose("msize", 5)])
	open(s, "/f")
	b := read(s, 1, 0, 3<<20, m)
	vnd.Assert(vnd.Or(len(b) == n, uint64(len(b))+ioHdr >= uint64(m)), "a read returns less than what is there, was asked for and fits")
}
