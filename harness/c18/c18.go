// Package c18: reading directories.
package c18

import (
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

var names = []string{"a", "name-of-thirty-bytes-01234567x", "c", "dd", "e"}

// setup makes a directory of n entries, open as fid 1, and what stat says of
// each entry.
func setup(n int) (*S, [][]byte) {
	vos.Reset()
	vos.Top.AddDir("r").AddDir("o").AddFile("other", "x")
	d := vos.Find("/r").AddDir("dir")
	for i := 0; i < n; i++ {
		k := &vos.Node{Name: names[i], Perm: uint32(i*53) & 0777, Ino: uint64(1000 + i*i), Sec: int64(i * 12345)}
		if i < 5 {
			k.Perm, k.Ino, k.Sec = uint32(vnd.U16("perm"))&0777, vnd.U64("ino"), int64(vnd.U32("sec"))
			vnd.Assume(k.Ino != 0)
		}
		switch i % 3 {
		case 0:
			k.Data = []byte("0123456789"[:i%7+2])
		case 1:
			k.Dir = true
		case 2:
			k.Link = true
			k.Data = []byte("a")
		}
		d.Add(k)
	}
	s := New("/r")
	s.Attach(1, "/dir").OK("attach")
	var st [][]byte
	for i := 0; i < n; i++ {
		s.Walk(1, 2, names[i]).OK("walk to an entry")
		st = append(st, s.Stat(2).OK("stat of an entry").F[0].B)
		s.Clunk(2).OK("clunk")
	}
	s.Open(1, OREAD).OK("open of the directory")
	return s, st
}

// reader reads a directory as a client does.
type reader struct {
	s    *S
	fid  uint32
	st   [][]byte
	seen []bool
	off  uint64
	left int
	next int // where to look for a name first
}

func newReader(s *S, fid uint32, st [][]byte) *reader {
	return &reader{s: s, fid: fid, st: st, seen: make([]bool, len(st)), left: len(st)}
}

func (r *reader) restart() {
	r.off, r.seen, r.left = 0, make([]bool, len(r.st)), len(r.st)
}

// take checks what a read returned.
func (r *reader) take(b []byte) {
	r.off += uint64(len(b))
	for len(b) > 0 {
		vnd.Assert(len(b) >= 2, "a directory read returns part of an entry")
		n := int(vnd.Pin(uint64(DirSize(b))))
		vnd.Assert(n <= len(b), "a directory read returns part of an entry")
		e := b[:n]
		b = b[n:]
		d, ok := DecodeDir(e)
		vnd.Assert(ok, "a directory entry is malformed")
		hit := -1
		for k := range r.st {
			i := (r.next + k) % len(r.st)
			if d.Name == names[i] {
				hit, r.next = i, i+1
				break
			}
		}
		vnd.Assert(hit >= 0, "a directory read returns an entry that is not there")
		vnd.Assert(!r.seen[hit], "a directory read returns an entry twice")
		vnd.Assert(vnd.BytesEq(e, r.st[hit]), "a directory entry differs from the stat of that file")
		r.seen[hit] = true
		r.left--
	}
}

// read reads with any count.
func (r *reader) read(count uint32) int {
	x := r.s.Read(r.fid, r.off, count)
	if r.off == 0 {
		r.restart()
	}
	if x.Bad {
		// a count too small for any entry left, or one that cannot be, may be refused
		vnd.Assert(vnd.Or(r.left > 0 && count < 200, count >= 0x80000000), "a directory read is refused")
		vnd.Cover("refused")
		return -1
	}
	b := x.F[0].B
	vnd.Assert(uint64(len(b)) <= uint64(count), "a directory read returns more than was asked for")
	if len(b) == 0 {
		max := 0
		for i := range r.st {
			if !r.seen[i] && len(r.st[i]) > max {
				max = len(r.st[i])
			}
		}
		vnd.Assert(vnd.Or(count < uint32(max), r.left == 0, count >= 0x80000000), "a directory read ends before every entry was returned")
		if r.left > 0 {
			vnd.Cover("did not fit")
		}
	}
	r.take(b)
	return len(b)
}

// rest reads what is left with counts that are large enough.
func (r *reader) rest(count uint32) {
	for i := 0; ; i++ {
		vnd.Assert(i < len(r.st)+2, "a directory read does not end")
		if r.read(count) <= 0 {
			break
		}
	}
	vnd.Assert(r.left == 0, "a directory entry is lost")
}

// C18_Counts: reads with arbitrary counts, then the rest.
func C18_Counts() {
	k := 3
	if vnd.Config("tier", 0) > 0 {
		k = 5
	}
	vnd.Bound("file server: directories of 0 to 3 entries (a file, a directory, a symbolic link; arbitrary permission bits, inode numbers and times), 3 (thorough: 5) reads with any 32-bit counts at the offsets a client uses, then reads of 8192 bytes until nothing comes")
	s, st := setup(vnd.Choose("entries", 4))
	r := newReader(s, 1, st)
	for i := 0; i < k; i++ {
		r.read(vnd.U32("count"))
	}
	r.rest(8192)
	vnd.Cover("read all")
}

// C18_Restart: starting over at offset 0.
func C18_Restart() {
	vnd.Bound("file server: directories of 0 to 5 entries, 0 to 6 reads of 8192 bytes or of too little, then starting over at offset 0, twice; the last counts just fit each entry")
	s, st := setup(vnd.Choose("entries", 6))
	r := newReader(s, 1, st)
	for t := 0; t < 2; t++ {
		n := vnd.Choose("reads", len(st)+2)
		for i := 0; i < n; i++ {
			r.read(8192)
		}
		if vnd.Choose("small", 2) == 1 {
			r.read(10)
		}
		r.off = 0
	}
	// the smallest count that fits every entry
	max := 0
	for _, e := range st {
		if len(e) > max {
			max = len(e)
		}
	}
	r.rest(uint32(max + vnd.Choose("extra", 2)))
	vnd.Cover("read all")
}

// C18_Two: two fids read the same or another directory at the same time.
func C18_Two() {
	vnd.Bound("file server: two fids reading the same directory of 1 to 3 entries in any interleaving of 4 reads of which any may be too small, then each to the end")
	s, st := setup(1 + vnd.Choose("entries", 3))
	s.Attach(2, "/dir").OK("attach")
	s.Open(2, OREAD).OK("open of the directory")
	rs := []*reader{newReader(s, 1, st), newReader(s, 2, st)}
	for i := 0; i < 4; i++ {
		rs[vnd.Choose("who", 2)].read([]uint32{8192, 10}[vnd.Choose("count", 2)])
	}
	rs[0].rest(8192)
	rs[1].rest(8192)
	vnd.Cover("read all")
}

// C18_Fault: the host fails to list.
func C18_Fault() {
	vnd.Bound("file server: a directory of 2 entries of which listing fails on the host at any read with an error of 20 kinds: an error, never the end of the directory")
	s, st := setup(2)
	r := newReader(s, 1, st)
	n := vnd.Choose("reads", 3)
	for i := 0; i < n; i++ {
		r.read(8192)
	}
	err := HostErr()
	vos.Fail = func(c *vos.Call) error { return err }
	x := s.Read(1, r.off, 8192)
	vnd.Assert(x.Bad, "a directory read that failed on the host is not an error")
	vos.Fail = nil
	vnd.Cover("failed")
}

// C18_Many: a directory of many entries.
func C18_Many() {
	n := vnd.Config("n", 300)
	if vnd.Config("tier", 0) > 0 {
		n = 550
	}
	vnd.Bound("file server: a directory of 300 (thorough: 550) entries (5 of them with arbitrary permission bits, inode numbers and times) with names of 1 to 255 bytes, read with a count of 8192, 65536 or just enough for the largest entry, started over after 0, 1, 17 or all entries")
	names = nil
	for i := 0; i < n; i++ {
		b := make([]byte, 1+(i*37)%255)
		for j := range b {
			b[j] = byte('a' + (i+j)%26)
		}
		b[0] = byte('A' + i%26)
		if len(b) > 1 {
			b[1] = byte('A' + i/26%26)
		}
		if len(b) > 2 {
			b[2] = byte('A' + i/676)
		}
		names = append(names, string(b))
	}
	s, st := setup(n)
	r := newReader(s, 1, st)
	max := 0
	for _, e := range st {
		if len(e) > max {
			max = len(e)
		}
	}
	count := []uint32{8192, 65536, uint32(max)}[vnd.Choose("count", 3)]
	for k := []int{0, 1, 17, n + 1}[vnd.Choose("before", 4)]; k > 0; k-- {
		if r.read(count) <= 0 {
			break
		}
	}
	r.off = 0
	r.rest(count)
	vnd.Cover("read all")
}

// C18_Names: entries of any name.
func C18_Names() {
	vnd.Bound("file server: a directory of 2 entries, one of any name (1 to 3 arbitrary bytes, or 255 of which 4 are arbitrary), read with any 32-bit count and then of 8192 bytes")
	names = []string{"second", AnyName("name")}
	vnd.Assume(names[0] != names[1])
	s, st := setup(2)
	r := newReader(s, 1, st)
	r.read(vnd.U32("count"))
	r.rest(8192)
	vnd.Cover("read all")
}

// C18_Changes: the directory changes between two times it is listed.
func C18_Changes() {
	vnd.Bound("file server: a directory of 0 to 3 entries read in whole, in part or not at all, through one fid or two; an entry is then made, removed, renamed or changed by the server or by another program on the host; then it is listed from the start, through either fid or a new one")
	n := vnd.Choose("entries", 4)
	s, st := setup(n)
	s.Attach(2, "/dir").OK("attach")
	s.Open(2, OREAD).OK("open of the directory")
	for f := uint32(1); f <= 2; f++ {
		r := newReader(s, f, st)
		k := 0
		if f == 1 {
			k = vnd.Choose("reads", n+2)
		} else {
			k = []int{0, 1, n + 1}[vnd.Choose("reads", 3)]
		}
		for ; k > 0; k-- {
			r.read(8192)
		}
		if vnd.Choose("small", 2) == 1 {
			r.read(10)
		}
	}
	d := vos.Find("/r/dir")
	list := append([]string{}, names[:n]...)
	s.Attach(3, "/dir").OK("attach")
	switch k := vnd.Choose("change", 7); k {
	case 0:
		s.Create(3, "made", 0644, OREAD).OK("create")
		s.Clunk(3).OK("clunk")
		list = append(list, "made")
	case 1:
		d.Add(&vos.Node{Name: "made", Ino: 99999, Perm: 0600})
		list = append(list, "made")
	case 2, 3, 4, 5, 6:
		vnd.Assume(n > 0)
		i := vnd.Choose("which", n)
		s.Walk(3, 3, names[i]).OK("walk")
		w := DontTouch()
		switch k {
		case 2:
			s.Remove(3).OK("remove")
			list = append(list[:i:i], list[i+1:]...)
		case 3:
			Gone("/r/dir", names[i])
			list = append(list[:i:i], list[i+1:]...)
		case 4:
			w.Name = "renamed"
			s.Wstat(3, w).OK("rename")
			list[i] = "renamed"
		case 5:
			vnd.Assume(i != 2) // a symbolic link has no mode of its own
			w.Mode = 0123
			s.Wstat(3, w).OK("wstat of the mode")
		case 6:
			x := d.Kid(names[i])
			x.Sec += 77
			if !x.Dir && !x.Link {
				x.Data = append(x.Data, '!')
			}
		}
	}
	// what stat says now
	s.Attach(4, "/dir").OK("attach")
	st = nil
	for _, nm := range list {
		s.Walk(4, 5, nm).OK("walk to an entry")
		st = append(st, s.Stat(5).OK("stat of an entry").F[0].B)
		s.Clunk(5).OK("clunk")
	}
	s.Open(4, OREAD).OK("open of the directory")
	old := names
	names = list
	newReader(s, []uint32{1, 2, 4}[vnd.Choose("by", 3)], st).rest(8192)
	names = old
	vnd.Cover("read all")
}
