// Package c19: stat and qids.
package c19

import (
	"flag"
	"io/fs"

	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

// kinds of files of the host.
const (
	regular = iota
	dir
	link
	device
	kinds
)

// file makes a file with arbitrary attributes under /r.
func file(name string, kind int) *vos.Node {
	n := &vos.Node{Name: name, Perm: uint32(vnd.U16("perm")) & 0777, Ino: vnd.U64("ino")}
	vnd.Assume(n.Ino != 0)
	// setuid, setgid and sticky are not permission bits of the protocol
	n.Extra = []fs.FileMode{0, fs.ModeSetuid, fs.ModeSetgid | fs.ModeSticky}[vnd.Choose("extra", 3)]
	switch kind {
	case regular:
		n.Big, n.SizeOf = true, int64(vnd.U64("size")>>1)
	case dir:
		n.Dir = true
	case link:
		n.Link, n.Data, n.Extra = true, []byte("f"), 0
	case device:
		n.Extra = fs.ModeDevice | fs.ModeCharDevice
	}
	return vos.Find("/r").Add(n)
}

var times = [][2]int64{{0, 0}, {0, 999999}, {0, 1000000}, {1, 999999999}, {1500000000, 123456789}, {4294967295, 5}, {4294967296, 999000000}, {1 << 33, 1}}

func qidOf(n *vos.Node) Qid {
	q := Qid{V: uint32((n.Sec*1000000000 + n.Nsec) / 1000000), P: n.Ino}
	if n.Dir {
		q.T |= QTDIR
	}
	if n.Link {
		q.T |= QTLINK
	}
	return q
}

func checkDir(d Dir, n *vos.Node, what string) {
	vnd.Assert(d.Name == n.Name, what+": another name")
	size := uint64(n.SizeOf)
	if !n.Big {
		size = uint64(len(n.Data))
	}
	if !n.Dir {
		vnd.Assert(d.Length == size, what+": another length")
	}
	vnd.Assert(d.Mtime == uint32(n.Sec), what+": another modification time")
	vnd.Assert(d.Mode&0777 == n.Perm, what+": other permission bits")
	vnd.Assert((d.Mode&DMDIR != 0) == n.Dir, what+": the directory bit is wrong")
	vnd.Assert(EqQ(d.Q, qidOf(n)), what+": another qid")
	vnd.Assert(d.User == owner && d.Group == owner, what+": another owner or group than the server's user")
}

// owner is the user name the server is started with (-user).
var owner = "harvey"

func setOwner() {
	owner = []string{"harvey", "glenda", ""}[vnd.Choose("owner", 3)]
	if owner != "harvey" {
		vnd.Assert(flag.Set("user", owner) == nil, "the server has no -user flag")
	}
}

// C19_Stat: the stat of any file.
func C19_Stat() {
	vnd.Bound("file server: stat of a regular file, directory, symbolic link or device with any permission bits, setuid/setgid/sticky, inode number and size below 2^63, and 8 modification times from 0 to 2^33 s with nanoseconds")
	vos.Reset()
	vos.Top.AddDir("r")
	kind := vnd.Choose("kind", kinds)
	name := []string{"f", "a name with spaces", "\xff\x01"}[vnd.Choose("name", 3)]
	n := file(name, kind)
	t := times[vnd.Choose("time", len(times))]
	n.Sec, n.Nsec = t[0], t[1]
	setOwner()
	s := New("/r")
	s.Attach(1, "").OK("attach")
	q := s.Walk(1, 2, name).OK("walk").F[0].QQ
	vnd.Assert(len(q) == 1, "walk: not one qid")
	vnd.Assert(EqQ(q[0], qidOf(n)), "walk: another qid")
	checkDir(s.Stat(2).OK("stat").Dir(), n, "stat")
	vnd.Cover("stat")
}

// C19_Same: the same qid from everywhere.
func C19_Same() {
	vnd.Bound("file server: the qid of a file or directory with any inode number, permission bits and modification time (any second from 0 to 2^32, any nanosecond) from attach, walk, open, stat and a directory read")
	vos.Reset()
	vos.Top.AddDir("r")
	n := file("n", []int{regular, dir}[vnd.Choose("kind", 2)])
	n.Sec, n.Nsec = int64(vnd.U32("sec")), int64(vnd.U32("nsec"))
	vnd.Assume(n.Nsec < 1000000000)
	s := New("/r")
	want := s.Attach(1, "/n").OK("attach").F[0].Q
	vnd.Assert(want.P == n.Ino, "attach: the qid path is not the inode number")
	vnd.Assert((want.T&QTDIR != 0) == n.Dir && want.T&^QTDIR == 0, "attach: another qid type")
	s.Attach(2, "").OK("attach")
	q := s.Walk(2, 3, "n").OK("walk").F[0].QQ
	vnd.Assert(EqQ(q[0], want), "walk gives another qid than attach")
	d := s.Stat(3).OK("stat").Dir()
	vnd.Assert(EqQ(d.Q, want), "stat gives another qid than attach")
	s.Open(2, OREAD).OK("open")
	e, ok := DecodeDir(s.Read(2, 0, 8192).OK("directory read").F[0].B)
	vnd.Assert(ok, "a directory entry is malformed")
	vnd.Assert(EqQ(e.Q, want), "a directory read gives another qid than attach")
	o := s.Open([]uint32{1, 3}[vnd.Choose("fid", 2)], OREAD).OK("open").F[0].Q
	vnd.Assert(EqQ(o, want), "open gives another qid than attach")
	s.Walk(1, 4).OK("clone")
	o = s.Open(4, OREAD).OK("open").F[0].Q
	vnd.Assert(EqQ(o, want), "open of a clone gives another qid than attach")
	vnd.Cover("same")
}

// C19_Create: the qid of what is created.
func C19_Create() {
	vnd.Bound("file server: the qid in the reply to a create of a file or directory, against that of a stat, a walk and an open of it")
	Tree()
	vos.Now = []int64{5, 1600000000}[vnd.Choose("now", 2)]
	isDir := vnd.Choose("dir", 2) == 1
	perm := uint32(0640)
	if isDir {
		perm |= DMDIR
	}
	s := New("/r")
	s.Attach(1, "").OK("attach")
	s.Walk(1, 2).OK("clone")
	q := s.Create(2, "new", perm, OREAD).OK("create").F[0].Q
	n := vos.Find("/r/new")
	vnd.Assert(n != nil, "create: no file")
	vnd.Assert(EqQ(q, qidOf(n)), "create: another qid")
	vnd.Assert(EqQ(s.Stat(2).OK("stat").Dir().Q, q), "stat gives another qid than create")
	w := s.Walk(1, 3, "new").OK("walk").F[0].QQ
	vnd.Assert(EqQ(w[0], q), "walk gives another qid than create")
	vnd.Assert(EqQ(s.Open(3, OREAD).OK("open").F[0].Q, q), "open gives another qid than create")
	vnd.Cover("created")
}

// C19_Distinct: two different files have different qid paths, a changed file
// another version.
func C19_Distinct() {
	vnd.Bound("file server: two files with any two different inode numbers; a file whose modification time changes by any whole number of seconds below 2^22")
	vos.Reset()
	vos.Top.AddDir("r")
	a := file("a", vnd.Choose("kind", kinds))
	b := file("b", vnd.Choose("kind", kinds))
	vnd.Assume(a.Ino != b.Ino)
	s := New("/r")
	s.Attach(1, "").OK("attach")
	qa := s.Walk(1, 2, "a").OK("walk").F[0].QQ[0]
	qb := s.Walk(1, 3, "b").OK("walk").F[0].QQ[0]
	vnd.Assert(qa.P != qb.P, "two files share a qid path")
	by := vnd.U32("by") & 0x3fffff
	vnd.Assume(by != 0)
	a.Sec += int64(by)
	qc := s.Stat(2).OK("stat").Dir().Q
	vnd.Assert(vnd.And(qc.P == qa.P, qc.T == qa.T), "the qid path or type changes with the modification time")
	vnd.Assert(qc.V != qa.V, "the qid version does not change with the modification time")
	vnd.Cover("distinct")
}

// C19_Names: the stat of a file of any name.
func C19_Names() {
	vnd.Bound("file server: stat of a file or directory of any name (1 to 3 arbitrary bytes, or 255 of which 4 are arbitrary) by attach and by walk")
	vos.Reset()
	vos.Top.AddDir("r")
	nm := AnyName("name")
	n := file(nm, []int{regular, dir}[vnd.Choose("kind", 2)])
	n.Sec = 1234567
	s := New("/r")
	s.Attach(1, "").OK("attach")
	s.Walk(1, 2, nm).OK("walk")
	checkDir(s.Stat(2).OK("stat").Dir(), n, "stat")
	s.Attach(3, "/"+nm).OK("attach to the file")
	checkDir(s.Stat(3).OK("stat").Dir(), n, "stat")
	vnd.Cover("stat")
}

// C19_Changes: stats while the file changes.
func C19_Changes() {
	k := 3 + vnd.Config("tier", 0)
	vnd.Bound("file server: a file or directory (any permission bits and inode number) with a fid that is open and one that is not, looked at or changed 3 (thorough: 4) times: stat through either, read, write, wstat of mode, length or times, a create in the directory, or another program changing mode, size and time; then its stat through either fid, its entry in its directory, and the qids of a walk, an attach and an open (truncating or not) of it")
	vos.Reset()
	vos.Top.AddDir("r")
	isDir := vnd.Choose("dir", 2) == 1
	n := file("n", map[bool]int{true: dir, false: regular}[isDir])
	n.Big, n.Data = false, nil
	if !isDir {
		n.Data = []byte("abc")
	}
	vos.Now = 1000
	s := New("/r")
	s.Attach(1, "/n").OK("attach")
	s.Attach(2, "").OK("attach")
	s.Walk(2, 3, "n").OK("walk")
	mode := uint8(ORDWR)
	if isDir {
		mode = OREAD
	}
	s.Open(1, mode).OK("open")
	look := func() {
		for _, f := range []uint32{1, 3} {
			checkDir(s.Stat(f).OK("stat").Dir(), n, "stat")
		}
	}
	for i := 0; i < k; i++ {
		vos.Now += 3
		d := DontTouch()
		switch vnd.Choose("step", 8) {
		case 0:
			look()
		case 1:
			s.Read(1, 0, 100).OK("read")
		case 2:
			if isDir {
				s.Walk(3, 4).OK("clone")
				s.Create(4, "new"+string(rune('0'+i)), 0644, OREAD).OK("create")
				s.Clunk(4).OK("clunk")
			} else {
				s.Write(1, uint64(i), []byte("xyz")).OK("write")
			}
		case 3:
			d.Mode = uint32(0700 + i)
			s.Wstat(3, d).OK("wstat of the mode")
		case 4:
			vnd.Assume(!isDir)
			d.Length = uint64(i)
			s.Wstat([]uint32{1, 3}[vnd.Choose("by", 2)], d).OK("wstat of the length")
		case 5:
			d.Mtime = uint32(500 + i)
			s.Wstat(1, d).OK("wstat of the time")
		case 6: // another program
			n.Sec, n.Perm = vos.Now+1, uint32(0500+i)
			if !isDir {
				n.Data = append(n.Data, 'z')
			}
		case 7:
			q := s.Walk(2, 5, "n").OK("walk").F[0].QQ
			vnd.Assert(EqQ(q[0], qidOf(n)), "walk: another qid")
			s.Clunk(5).OK("clunk")
		}
	}
	look()
	q := s.Walk(2, 5, "n").OK("walk").F[0].QQ
	vnd.Assert(EqQ(q[0], qidOf(n)), "walk: another qid")
	checkDir(s.Stat(5).OK("stat").Dir(), n, "stat after a walk")
	vnd.Assert(EqQ(s.Attach(6, "/n").OK("attach").F[0].Q, qidOf(n)), "attach: another qid")
	s.Open(2, OREAD).OK("open")
	e, ok := DecodeDir(s.Read(2, 0, 8192).OK("directory read").F[0].B)
	vnd.Assert(ok, "a directory entry is malformed")
	checkDir(e, n, "directory entry")
	vos.Now += 3
	if mode == ORDWR && vnd.Choose("trunc", 2) == 1 {
		mode |= OTRUNC
	}
	vnd.Assert(EqQ(s.Open(3, mode).OK("open").F[0].Q, qidOf(n)), "open: another qid")
	vnd.Cover("changed")
}

// C19_Link: symbolic links that are attached to, and a root that is one.
func C19_Link() {
	vnd.Bound("file server: an attach to a symbolic link to a file or directory is to what it points to (any inode numbers and permission bits), for stat, a clone, open and read as well, while a walk to it is to the link itself; the root a symbolic link or not, walked to from itself or from below it with ..")
	vos.Reset()
	real := "/r"
	if vnd.Choose("linked root", 2) == 1 {
		real = "/real"
		vos.Top.Add(&vos.Node{Name: "r", Link: true, Data: []byte("/real"), Perm: 0777})
	}
	root := vos.Top.AddDir(real[1:])
	root.Ino = vnd.U64("root ino")
	root.Sec = 77
	n := root.AddFile("f", "hello")
	isDir := vnd.Choose("dir", 2) == 1
	if isDir {
		n = root.AddDir("k")
		n.AddFile("x", "xx")
	}
	root.AddDir("d").AddDir("e")
	l := root.Add(&vos.Node{Name: "l", Link: true, Data: []byte(real + "/" + n.Name), Perm: 0777})
	n.Ino, n.Perm, n.Sec = vnd.U64("ino"), uint32(vnd.U16("perm"))&0777, 1234
	l.Ino, l.Sec = vnd.U64("link ino"), 99
	vnd.Assume(n.Ino != l.Ino)
	s := New("/r")
	same := func(fid uint32, q, want Qid, what string) {
		vnd.Assert(EqQ(q, want), what+": another qid")
		vnd.Assert(EqQ(s.Stat(fid).OK("stat").Dir().Q, want), what+": stat gives another qid")
		s.Walk(fid, fid+100).OK("clone")
		vnd.Assert(EqQ(s.Stat(fid+100).OK("stat").Dir().Q, want), what+": stat of a clone gives another qid")
		vnd.Assert(EqQ(s.Open(fid, OREAD).OK("open").F[0].Q, want), what+": open gives another qid")
		vnd.Assert(EqQ(s.Stat(fid).OK("stat").Dir().Q, want), what+": stat of the open file gives another qid")
	}
	same(1, s.Attach(1, "/l").OK("attach to a link").F[0].Q, qidOf(n), "attach to a link")
	d := s.Stat(1).OK("stat").Dir()
	vnd.Assert(vnd.And(d.Mode&0777 == n.Perm, (d.Mode&DMDIR != 0) == isDir), "attach to a link: the stat is not that of its file")
	if isDir {
		e, ok := DecodeDir(s.Read(1, 0, 1000).OK("read").F[0].B)
		vnd.Assert(ok && e.Name == "x", "attach to a link: another directory is read")
	} else {
		vnd.Assert(string(s.Read(1, 0, 1000).OK("read").F[0].B) == "hello", "attach to a link: another file is read")
	}
	same(2, s.Attach(2, "").OK("attach").F[0].Q, qidOf(root), "attach to the root")
	s.Attach(3, "").OK("attach")
	same(4, s.Walk(3, 4, "..").OK("walk").F[0].QQ[0], qidOf(root), "walk up from the root")
	s.Walk(3, 5, "d", "e").OK("walk")
	same(6, s.Walk(5, 6, "..", "..").OK("walk").F[0].QQ[1], qidOf(root), "walk up to the root")
	same(7, s.Walk(5, 7, "..", "..", "..").OK("walk").F[0].QQ[2], qidOf(root), "walk up from the root")
	same(8, s.Walk(6+100, 8, "l").OK("walk").F[0].QQ[0], qidOf(l), "walk to a link")
	vnd.Cover("links")
}

// C19_Fault: a file that cannot be looked at.
func C19_Fault() {
	vnd.Bound("file server: stat, attach, walk, clone, open or create of a file of any attributes, on a fid that is open or not, any one of the first 3 host calls of which fails with an error of 20 kinds, the first time it is looked at or after it has changed since: an error, or the right attributes; then the attributes once the host answers again")
	vos.Reset()
	vos.Top.AddDir("r")
	n := file("n", []int{regular, dir}[vnd.Choose("kind", 2)])
	n.Extra = 0
	n.Sec, n.Nsec = 1234567, 7654321
	s := New("/r")
	s.Attach(1, "").OK("attach")
	s.Walk(1, 2, "n").OK("walk")
	if vnd.Choose("open", 2) == 1 {
		s.Open(2, OREAD).OK("open")
	}
	if vnd.Choose("seen", 2) == 1 {
		// another program changes what the server has told already
		s.Stat(2).OK("stat")
		s.Walk(2, 9).OK("clone")
		n.Perm ^= 0111
		n.Sec += 5
	}
	what := vnd.Choose("what", 6)
	k, err := vnd.Choose("fails", 3), HostErr()
	i, failed := 0, false
	vos.Fail = func(c *vos.Call) error {
		i++
		if i-1 == k {
			failed = true
			return err
		}
		return nil
	}
	var r R
	switch what {
	case 0:
		r = s.Stat(2)
	case 1:
		r = s.Attach(3, "/n")
	case 2:
		r = s.Walk(1, 3, "n")
	case 3:
		r = s.Walk(2, 3)
	case 4:
		r = s.Open(2, OREAD)
	case 5:
		r = s.Create(1, "new", 0644, OREAD)
	}
	vos.Fail = nil
	vnd.Assume(failed)
	if !r.Bad {
		switch what {
		case 0:
			checkDir(r.Dir(), n, "stat")
		case 1, 4:
			vnd.Assert(EqQ(r.F[0].Q, qidOf(n)), "another qid where the host refuses a call")
		case 2:
			vnd.Assert(EqQ(r.F[0].QQ[0], qidOf(n)), "walk: another qid where the host refuses a call")
		case 5:
			vnd.Assert(EqQ(r.F[0].Q, qidOf(vos.Find("/r/new"))), "create: another qid where the host refuses a call")
		}
		vnd.Cover("answered")
	} else {
		vnd.Cover("refused")
	}
	if what == 5 {
		return
	}
	checkDir(s.Stat(2).OK("stat once the host answers again").Dir(), n, "stat once the host answers again")
	q := s.Walk(1, 4, "n").OK("walk once the host answers again").F[0].QQ[0]
	vnd.Assert(EqQ(q, qidOf(n)), "walk: another qid once the host answers again")
}
