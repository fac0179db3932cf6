// Package c21: open, create and remove.
package c21

import (
	"os"

	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

func access(flag int) int { return flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR) }

// want is the access a mode asks for.
func want(mode uint8) int {
	switch mode & 3 {
	case OWRITE:
		return os.O_WRONLY
	case ORDWR:
		return os.O_RDWR
	}
	return os.O_RDONLY
}

func same(n *vos.Node, data string, what string) {
	vnd.Assert(string(n.Data) == data, what)
}

// handle is the only open handle.
func handle(what string) *vos.File {
	var h *vos.File
	for _, x := range vos.Handles {
		if !x.Closed {
			vnd.Assert(h == nil, what+": more than one file is opened")
			h = x
		}
	}
	vnd.Assert(h != nil, what+": no file is opened")
	return h
}

// mode is any open mode.
func mode() uint8 {
	m := vnd.U8("mode")
	vnd.Assume(m&^0x73 == 0)
	return uint8(vnd.Pin(uint64(m)))
}

// C21_Open: open with every mode.
func C21_Open() {
	vnd.Bound("file server: open of a file or directory with every mode (access, truncate, remove on close and undefined bit 5)")
	Tree()
	s := New("/r")
	f := Distinct(1)[0]
	name := []string{"f", "d"}[vnd.Choose("file", 2)]
	s.Attach(f, "/"+name).OK("attach")
	n := vos.Find("/r/" + name)
	m := mode()
	r := s.Open(f, m)
	if n.Dir {
		if want(m) != os.O_RDONLY || m&OTRUNC != 0 {
			r.Refused("opening a directory for writing")
			vnd.Assert(vos.OpenHandles() == 0, "a refused open leaves a file open")
			vnd.Cover("directory refused")
			return
		}
	}
	r.OK("open")
	h := handle("open")
	vnd.Assert(h.Node == n, "another file is opened")
	vnd.Assert(access(h.Flag) == want(m), "the file is opened with another access than asked for")
	if m&OTRUNC != 0 {
		same(n, "", "the file is not truncated")
		vnd.Cover("truncated")
	} else if !n.Dir {
		same(n, "hello", "the file is truncated")
	}
	vnd.Assert(r.F[0].Q.P == n.Ino, "open answers with another qid")
	same(vos.Find("/r/g"), "gg", "another file changes")
	vnd.Cover("opened")
}

// C21_Create: create of a file or directory.
func C21_Create() {
	vnd.Bound("file server: create in the root or a subdirectory, names of 1 to 3 arbitrary bytes (or 255, of which 4 are arbitrary) that do not exist, any permission word, every mode; then stat, write and read through the fid")
	Tree()
	s := New("/r")
	f := Distinct(2)
	in := []string{"", "/d"}[vnd.Choose("in", 2)]
	s.Attach(f[0], in).OK("attach")
	s.Attach(f[1], in).OK("attach")
	dir := vos.Find("/r" + in)
	nm := Fresh("name")
	perm := vnd.U32("perm")
	isDir := perm&DMDIR != 0
	m := uint8(vnd.Choose("access", 4) | OTRUNC*vnd.Choose("trunc", 2))
	r := s.Create(f[0], nm, perm, m)
	r.OK("create")
	var n *vos.Node
	for _, k := range dir.Kids {
		if k.Ino > 100+6 && k.Name == nm {
			n = k
		}
	}
	vnd.Assert(n != nil, "create: no file of that name in the directory")
	vnd.Assert(n.Dir == isDir, "create: a file for a directory or the other way round")
	vnd.Assert(n.Perm == perm&0777, "create: other permission bits")
	vnd.Assert(len(n.Data) == 0, "create: the file is not empty")
	vnd.Assert(r.F[0].Q.P == n.Ino, "create answers with another qid")
	vnd.Assert((r.F[0].Q.T&QTDIR != 0) == isDir, "create answers with another qid type")
	d := s.Stat(f[0]).OK("stat").Dir()
	vnd.Assert(vnd.And(d.Q.P == n.Ino, d.Name == nm), "create: the fid does not stand for the new file")
	vnd.Assert(s.Stat(f[1]).OK("stat").Dir().Q.P == dir.Ino, "create moves another fid")
	if !isDir {
		h := handle("create")
		vnd.Assert(h.Node == n && access(h.Flag) == want(m), "create: opened with another access than asked for")
		b := vnd.Bytes("data", 2)
		w := s.Write(f[0], 0, b)
		if want(m) == os.O_RDONLY {
			w.Refused("a write to a file created for reading")
		} else {
			w.OK("write")
			vnd.Assert(vnd.BytesEq(n.Data, b), "a write to a created file goes elsewhere")
			vnd.Cover("created for writing")
		}
		vnd.Cover("created file")
	} else {
		s.Walk(f[0], f[0]).OK("a walk from a created directory")
		vnd.Cover("created directory")
	}
}

// C21_Nowhere: create where it cannot be.
func C21_Nowhere() {
	vnd.Bound("file server: create in a file, in an open fid, of a directory that exists: refused, nothing changes")
	Tree()
	s := New("/r")
	f := Distinct(1)[0]
	perm := uint32(0644)
	if vnd.Choose("dir", 2) == 1 {
		perm = DMDIR | 0755
	}
	var n *vos.Node
	handles := 0
	switch vnd.Choose("where", 3) {
	case 0:
		s.Attach(f, "/f").OK("attach")
		n = vos.Find("/r/f")
		s.Create(f, "new", perm, ORDWR).Refused("a create in a file")
	case 1:
		s.Attach(f, "").OK("attach")
		n = vos.Find("/r")
		s.Open(f, OREAD).OK("open")
		handles = 1
		s.Create(f, "new", perm, ORDWR).Refused("a create in an open fid")
	case 2:
		s.Attach(f, "").OK("attach")
		n = vos.Find("/r")
		s.Create(f, "d", perm, ORDWR).Refused("a create of a directory that exists")
	}
	vnd.Assert(vos.Find("/r/new") == nil && vos.Find("/r/f/new") == nil && len(vos.Find("/r/d").Kids) == 2, "a refused create makes a file")
	vnd.Assert(s.Stat(f).OK("stat").Dir().Q.P == n.Ino, "a refused create moves the fid")
	vnd.Assert(vos.OpenHandles() == handles, "a refused create leaves a file open")
	vnd.Cover("refused")
}

// C21_Remove: remove of a file, an empty and a full directory.
func C21_Remove() {
	vnd.Bound("file server: remove of a file or directory, open or not, empty or not")
	Tree()
	s := New("/r")
	f := Distinct(1)[0]
	path := []string{"/f", "/d/x", "/d/e", "/d"}[vnd.Choose("file", 4)]
	s.Attach(f, path).OK("attach")
	n := vos.Find("/r" + path)
	if vnd.Choose("open", 2) == 1 {
		s.Open(f, OREAD).OK("open")
	}
	r := s.Remove(f)
	if path == "/d" {
		r.Refused("remove of a directory that is not empty")
		vnd.Assert(vos.Find("/r/d") == n, "a refused remove removes")
	} else {
		r.OK("remove")
		vnd.Assert(vos.Find("/r"+path) == nil, "remove does not remove")
		vnd.Cover("removed")
	}
	s.Stat(f).Refused("stat of a removed fid")
	vnd.Assert(vos.OpenHandles() == 0, "remove leaves the file open")
	for _, p := range []string{"/r/f", "/r/g", "/r/d", "/r/d/x", "/r/d/e", "/o/secret"} {
		if p != "/r"+path {
			vnd.Assert(vos.Find(p) != nil, "remove removes another file")
		}
	}
}

// C21_Fault: the host refuses.
func C21_Fault() {
	vnd.Bound("file server: open, create of a file or directory (with and without OTRUNC), and remove of which any host call fails with an error of 20 kinds: an error (an open may go on without a stat of the file), the fid is unchanged (remove: gone), no other file changes, nothing is left open")
	Tree()
	s := New("/r")
	f := Distinct(1)[0]
	op := vnd.Choose("op", 4)
	path := []string{"/f", "", "", "/f"}[op]
	mode := uint8(ORDWR)
	if op < 2 {
		mode = []uint8{ORDWR, OWRITE | OTRUNC, OREAD | OTRUNC}[vnd.Choose("mode", 3)]
	}
	s.Attach(f, path).OK("attach")
	n := vos.Find("/r" + path)
	k := vnd.Choose("fails", 3)
	i := 0
	failed, look := false, false
	err := HostErr()
	vos.Fail = func(c *vos.Call) error {
		if c.Op == "close" {
			return nil
		}
		i++
		if i-1 == k {
			failed = true
			look = c.Op == "stat" || c.Op == "lstat" || c.Op == "fstat"
			return err
		}
		return nil
	}
	var r R
	what := []string{"open", "create of a file", "create of a directory", "remove"}[op]
	switch op {
	case 0:
		r = s.Open(f, mode)
	case 1:
		r = s.Create(f, "new", 0644, mode)
	case 2:
		r = s.Create(f, "new", DMDIR|0755, OREAD)
	case 3:
		r = s.Remove(f)
	}
	vos.Fail = nil
	if !failed {
		r.OK(what)
		vnd.Cover("not failed")
		return
	}
	if look && op == 0 && !r.Bad {
		// The open has been done, and only a look at the file failed.
		s.Clunk(f).OK("clunk")
		vnd.Assert(vos.OpenHandles() == 0, what+" leaves a file open")
		return
	}
	r.Refused(what + " that failed on the host")
	vnd.Cover(what + " failed")
	if look && mode&OTRUNC != 0 {
		n.Data = []byte("hello")
	}
	for p, text := range map[string]string{"/r/f": "hello", "/r/g": "gg", "/r/d/x": "xx", "/o/secret": "secret"} {
		o := vos.Find(p)
		vnd.Assert(o != nil && string(o.Data) == text, what+" that failed on the host changes a file")
	}
	if op == 3 {
		s.Stat(f).Refused("stat after a failed remove")
		vnd.Assert(vos.Find("/r/f") == n, "a failed remove removes")
	} else {
		vnd.Assert(s.Stat(f).OK("stat").Dir().Q.P == n.Ino, what+" that failed: the fid stands for another file")
		s.Read(f, 0, 10).Refused(what + " that failed: read")
		s.Open(f, OREAD).OK("open after a failed " + what)
		s.Clunk(f).OK("clunk")
	}
	vnd.Assert(vos.OpenHandles() == 0, what+" that failed leaves a file open")
}

// C21_Again: files that come and go.
func C21_Again() {
	k := 3 + vnd.Config("tier", 0)
	vnd.Bound("file server: 3 (thorough: 4) times a create, open or remove of one of 2 names in the root (one of which exists), or its appearance, removal or replacement by another program; each does what was asked to the tree as it is")
	Tree()
	s := New("/r")
	s.Attach(1, "").OK("attach")
	dir := vos.Find("/r")
	fid := uint32(10)
	for i := 0; i < k; i++ {
		nm := []string{"f", "n"}[vnd.Choose("name", 2)]
		n := dir.Kid(nm)
		fid++
		open := vos.OpenHandles()
		text := string(rune('0'+i)) + "text"
		what := vnd.Choose("step", 6)
		if what > 0 && what < 3 {
			w := s.Walk(1, fid, nm)
			if n == nil {
				w.Refused("a walk to a file that does not exist")
				continue
			}
			w.OK("walk")
		}
		switch what {
		case 0:
			vnd.Assume(n == nil)
			s.Walk(1, fid).OK("clone")
			isDir := vnd.Choose("dir", 2) == 1
			perm := uint32(0600 + i)
			if isDir {
				perm |= DMDIR
			}
			s.Create(fid, nm, perm, OREAD).OK("create")
			x := dir.Kid(nm)
			vnd.Assert(x != nil && x.Dir == isDir && x.Perm == perm&0777 && len(x.Data) == 0, "create makes no such file")
			vnd.Assert(s.Stat(fid).OK("stat").Dir().Q.P == x.Ino, "create: the fid stands for another file")
			if !isDir {
				vnd.Assert(vos.OpenHandles() == open+1, "create: not one file is opened")
				open++
			}
		case 1:
			m := []uint8{OREAD, OREAD | OTRUNC}[vnd.Choose("mode", 2)]
			r := s.Open(fid, m)
			if n.Dir && m != OREAD {
				r.Refused("an open of a directory with OTRUNC")
				break
			}
			q := r.OK("open").F[0].Q
			vnd.Assert(q.P == n.Ino, "open answers with another qid")
			open++
			h := vos.Handles[len(vos.Handles)-1]
			vnd.Assert(h.Node == n && !h.Closed, "another file is opened")
			if m != OREAD {
				vnd.Assert(len(n.Data) == 0, "the file is not truncated")
			} else if !n.Dir {
				vnd.Assert(string(s.Read(fid, 0, 100).OK("read").F[0].B) == string(n.Data), "a read returns other bytes than the file has")
			}
		case 2:
			s.Remove(fid).OK("remove")
			vnd.Assert(dir.Kid(nm) == nil, "remove does not remove")
		case 3:
			vnd.Assume(n == nil)
			dir.AddFile(nm, text)
		case 4:
			vnd.Assume(n != nil)
			Gone("/r", nm)
		case 5:
			vnd.Assume(n != nil)
			Gone("/r", nm)
			if vnd.Choose("dir", 2) == 1 {
				dir.AddDir(nm)
			} else {
				dir.AddFile(nm, text)
			}
		}
		vnd.Assert(vos.OpenHandles() == open, "another number of files is open")
		vnd.Assert(vos.Find("/r/g") != nil && string(vos.Find("/r/g").Data) == "gg", "another file changes")
	}
	vnd.Cover("again")
}
