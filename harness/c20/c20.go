// Package c20: changing attributes.
package c20

import (
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

const no32 = 0xffffffff
const no64 = 0xffffffffffffffff

// snap is what the tree looks like.
type snap struct {
	path          string
	n             *vos.Node
	perm          uint32
	sec, nsec, at int64
	data          []byte
	big           bool
	size          int64
}

func take() []snap {
	var out []snap
	var walk func(n *vos.Node)
	walk = func(n *vos.Node) {
		out = append(out, snap{vos.PathOf(n), n, n.Perm, n.Sec, n.Nsec, n.ASec, append([]byte{}, n.Data...), n.Big, n.SizeOf})
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(vos.Top)
	return out
}

// unchanged compares the tree with before, but for one file.
func unchanged(before []snap, but *vos.Node, what string) {
	for _, s := range before {
		if s.n == but {
			continue
		}
		inside := false
		for p := s.n; p != nil; p = p.Parent {
			inside = inside || p == but
		}
		vnd.Assert(inside || vos.PathOf(s.n) == s.path, what+": a file moves")
		vnd.Assert(vnd.And(s.n.Perm == s.perm, s.n.Sec == s.sec, s.n.Nsec == s.nsec, s.n.ASec == s.at, s.n.Big == s.big), what+": the attributes of a file change")
		vnd.Assert(len(s.n.Data) == len(s.data) && vnd.BytesEq(s.n.Data, s.data), what+": the contents of a file change")
	}
}

func setup(path string) (*S, *vos.Node) {
	Tree()
	n := vos.Find("/r" + path)
	n.Perm = uint32(vnd.U16("perm")) & 0777
	n.Sec, n.Nsec, n.ASec = 1111, 222, 3333
	s := New("/r")
	s.Attach(1, "").OK("attach")
	s.Attach(2, path).OK("attach")
	return s, n
}

var files = []string{"/f", "/d/x", "/d", "/d/e"}

// C20_Fields: each field given or not.
func C20_Fields() {
	vnd.Bound("file server: wstat of 2 files and 2 directories with any combination of: mode (any value or don't touch), name (4 values or don't touch), length (0 to 7 or any above 16384, or don't touch; files only), modification and access time (any values or don't touch), on a file with any permission bits, open or not")
	path := files[vnd.Choose("file", len(files))]
	s, n := setup(path)
	if vnd.Choose("open", 2) == 1 {
		s.Open(2, OREAD).OK("open")
	}
	ino, data := n.Ino, append([]byte{}, n.Data...)
	perm := n.Perm
	d := DontTouch()
	d.Mode = vnd.U32("mode")
	d.Mtime = vnd.U32("mtime")
	d.Atime = vnd.U32("atime")
	where := vos.PathOf(n)
	switch vnd.Choose("name", 4) {
	case 1:
		d.Name = "new"
		where = Join("/r", Join("/r", where, ".."), "new")
	case 2:
		d.Name = "/new"
		where = "/r/new"
	case 3:
		d.Name = n.Name
	}
	if n.Dir && vnd.Choose("same", 2) == 1 && d.Name == n.Name {
		d.Name = ""
	}
	if !n.Dir {
		d.Length = vnd.U64("length")
		vnd.Assume(vnd.Or(d.Length < 8, d.Length > 16384))
	}
	before := take()
	at := len(vos.Log)
	self := n.Dir && d.Name == n.Name
	r := s.Wstat(2, d)
	if self {
		r.Refused("a rename onto an existing directory")
		unchanged(before, nil, "a refused wstat")
		return
	}
	if d.Length != no64 && d.Length >= 1<<63 {
		r.Refused("a length that cannot be")
		return
	}
	r.OK("wstat")
	if d.Mode != no32 {
		vnd.Assert(n.Perm == d.Mode&0777, "wstat of the mode: other permission bits")
	} else {
		vnd.Assert(n.Perm == perm, "wstat: the permission bits change")
	}
	vnd.Assert(vos.PathOf(n) == where, "wstat of the name: the file is elsewhere")
	switch {
	case d.Length == no64:
		vnd.Assert(!n.Big && len(n.Data) == len(data) && vnd.BytesEq(n.Data, data), "wstat: the contents change")
	case d.Length > 16384:
		vnd.Assert(n.Big && uint64(n.SizeOf) == d.Length, "wstat of the length: another length")
		vnd.Cover("long")
	default:
		l := int(vnd.Pin(d.Length))
		w := append([]byte{}, data...)
		for len(w) < l {
			w = append(w, 0)
		}
		vnd.Assert(!n.Big && len(n.Data) == l && vnd.BytesEq(n.Data, w[:l]), "wstat of the length: another length or other contents")
	}
	if d.Mtime != no32 {
		vnd.Assert(vnd.And(n.Sec == int64(d.Mtime), n.Nsec == 0), "wstat of the modification time: another time")
	} else {
		vnd.Assert(vnd.And(n.Sec == 1111, n.Nsec == 222), "wstat: the modification time changes")
	}
	if d.Atime != no32 {
		vnd.Assert(n.ASec == int64(d.Atime), "wstat of the access time: another time")
	} else {
		vnd.Assert(n.ASec == 3333, "wstat: the access time changes")
	}
	unchanged(before, n, "wstat")
	if d.Name == "" && d.Mode == no32 && d.Length == no64 && d.Mtime == no32 && d.Atime == no32 {
		vnd.Assert(Muts(at) == 0, "a wstat that changes nothing changes something")
		vnd.Cover("nothing")
	}
	e := s.Stat(2).OK("stat after wstat").Dir()
	vnd.Assert(vnd.And(e.Q.P == ino, e.Name == n.Name), "after a wstat the fid stands for another file")
	vnd.Cover("changed")
}

// C20_Refused: what is refused changes nothing.
func C20_Refused() {
	vnd.Bound("file server: wstat with an owner or group of 1 arbitrary byte, a rename onto an existing directory by relative or absolute name or out of the root, or an entry cut short at every length, along with any mode, length and times: refused, nothing changes")
	path := files[vnd.Choose("file", len(files))]
	s, n := setup(path)
	ino := n.Ino
	d := DontTouch()
	d.Mode = vnd.U32("mode")
	d.Mtime = vnd.U32("mtime")
	d.Length = vnd.U64("length")
	var b []byte
	what := ""
	switch vnd.Choose("what", 4) {
	case 0:
		d.User = vnd.Str("user", 1)
		d.Name = []string{"", "new"}[vnd.Choose("name", 2)]
		b, what = DirBytes(d), "a change of owner"
	case 1:
		d.Group = vnd.Str("group", 1)
		d.Name = []string{"", "new"}[vnd.Choose("name", 2)]
		b, what = DirBytes(d), "a change of group"
	case 2:
		d.Name = []string{"/d", "/d/e", "/", "d", "e"}[vnd.Choose("name", 5)]
		if d.Name[0] != '/' && vos.Find(Join("/r", Join("/r", "/r"+path, ".."), d.Name)) == nil {
			vnd.Assume(false)
		}
		b, what = DirBytes(d), "a rename onto an existing directory"
	case 3:
		d.Name = "new"
		b = DirBytes(d)
		cut := vnd.Choose("cut", len(b))
		b, what = b[:cut], "a malformed entry"
	}
	before := take()
	r := s.Req(Twstat, U32F(2), D16F(b))
	r.Refused(what)
	unchanged(before, nil, what)
	e := s.Stat(2).OK("stat").Dir()
	vnd.Assert(e.Q.P == ino, "after a refused wstat the fid stands for another file")
	vnd.Cover(what)
}

// C20_Rename: the fid follows its file.
func C20_Rename() {
	vnd.Bound("file server: a rename of a file (open or not) or directory to a new name or onto a file, then stat, read, another rename, walk and remove through the fid; other fids keep their files")
	path := []string{"/f", "/d/x", "/d/e"}[vnd.Choose("file", 3)]
	s, n := setup(path)
	ino := n.Ino
	s.Attach(3, "/g").OK("attach")
	open := !n.Dir && vnd.Choose("open", 2) == 1
	if open {
		s.Open(2, ORDWR).OK("open")
	}
	for i := 0; i < 1+vnd.Choose("times", 2); i++ {
		d := DontTouch()
		d.Name = []string{"moved", "/d/moved", "/m"}[vnd.Choose("to", 3)]
		if n.Dir && vos.Find("/r/d/moved") == n {
			vnd.Assume(d.Name == "/m")
		}
		if n.Dir && vos.Find("/r/m") == n {
			vnd.Assume(d.Name != "/m")
		}
		s.Wstat(2, d).OK("rename")
		e := s.Stat(2).OK("stat after a rename").Dir()
		vnd.Assert(vnd.And(e.Q.P == ino, e.Name == n.Name), "after a rename the fid stands for another file")
		switch d.Name {
		case "/d/moved":
			vnd.Assert(vos.Find("/r/d/moved") == n, "a rename puts the file elsewhere")
		case "/m":
			vnd.Assert(vos.Find("/r/m") == n, "a rename puts the file elsewhere")
		}
	}
	vnd.Assert(s.Stat(3).OK("stat").Dir().Name == "g", "a rename changes another fid")
	if open {
		s.Write(2, 0, []byte("W")).OK("write after a rename")
		vnd.Assert(n.Data[0] == 'W', "a write after a rename goes elsewhere")
	} else if !n.Dir {
		s.Open(2, OREAD).OK("open after a rename")
		vnd.Assert(vnd.BytesEq(s.Read(2, 0, 100).OK("read after a rename").F[0].B, n.Data), "a read after a rename is of another file")
	}
	s.Remove(2).OK("remove after a rename")
	vnd.Assert(n.Parent == nil, "a remove after a rename removes another file")
	vnd.Cover("renamed")
}

// C20_Fault: the host refuses one of the changes.
func C20_Fault() {
	vnd.Bound("file server: wstat of mode, name, length and times of which any one call fails on the host: an error; the fid still stands for its file")
	s, n := setup("/f")
	ino := n.Ino
	d := DontTouch()
	switch vnd.Choose("what", 6) {
	case 0:
		d.Mode = 0600
	case 1:
		d.Name = "new"
	case 2:
		d.Length = 2
	case 3:
		d.Mtime = 5
	case 4:
		d.Atime = 5
	case 5:
		d.Mode, d.Name, d.Length, d.Mtime = 0600, "new", 2, 5
	}
	k := vnd.Choose("fails", 4)
	i := 0
	failed := false
	err := HostErr()
	vos.Fail = func(c *vos.Call) error {
		if !c.Mut {
			return nil
		}
		i++
		if i-1 == k {
			failed = true
			return err
		}
		return nil
	}
	r := s.Wstat(2, d)
	vos.Fail = nil
	if failed {
		r.Refused("a wstat that failed on the host")
		vnd.Cover("failed")
	} else {
		r.OK("wstat")
	}
	e := s.Stat(2).OK("stat after a failed wstat").Dir()
	vnd.Assert(e.Q.P == ino, "after a failed wstat the fid stands for another file")
}

// C20_Names: any new name.
func C20_Names() {
	vnd.Bound("file server: a rename of a file or directory in the root or a subdirectory to any name not in use (1 to 3 arbitrary bytes, or 255 of which 4 are arbitrary), given alone or as an absolute path")
	path := files[vnd.Choose("file", len(files))]
	s, n := setup(path)
	where := Join("/r", vos.PathOf(n), "..")
	nm := Fresh("name")
	d := DontTouch()
	d.Name = nm
	if vnd.Choose("absolute", 2) == 1 {
		where = "/r"
		d.Name = "/" + nm
	}
	before := take()
	s.Wstat(2, d).OK("rename")
	vnd.Assert(n.Name == nm && n.Parent == vos.Find(where), "wstat of the name: the file is elsewhere")
	unchanged(before, n, "a rename")
	e := s.Stat(2).OK("stat after a rename").Dir()
	vnd.Assert(vnd.And(e.Q.P == n.Ino, e.Name == nm), "after a rename the fid stands for another file")
	s.Remove(2)
	vnd.Cover("renamed")
}

// C20_Again: one wstat after another.
func C20_Again() {
	k := 3
	vnd.Bound("file server: 3 times a wstat of the mode, length, modification or access time of a file (2 values each) through one of two fids (one of them open), a write, a stat, or a change by another program; each has its effect whatever came before")
	s, n := setup("/f")
	s.Attach(3, "/f").OK("attach")
	s.Open(2, ORDWR).OK("open")
	for i := 0; i < k; i++ {
		d := DontTouch()
		sec, nsec, at, perm := n.Sec, n.Nsec, n.ASec, n.Perm
		data := append([]byte{}, n.Data...)
		steps := 7
		if i == k-1 {
			steps = 4
		}
		what := vnd.Choose("step", steps)
		f, v := uint32(2), 0
		if what < 6 {
			f += uint32(vnd.Choose("by", 2))
		}
		if what != 5 {
			v = vnd.Choose("value", 2)
		}
		if what == 4 && f == 3 {
			vnd.Assume(false)
		}
		switch what {
		case 0:
			d.Mode = []uint32{0640, 0400}[v]
			perm = d.Mode
		case 1:
			d.Length = uint64(2 + 4*v)
			for len(data) < int(d.Length) {
				data = append(data, 0)
			}
			data = data[:d.Length]
		case 2:
			d.Mtime = []uint32{1111, 70000}[v]
			sec, nsec = int64(d.Mtime), 0
		case 3:
			d.Atime = []uint32{3333, 70000}[v]
			at = int64(d.Atime)
		case 4:
			s.Write(2, uint64(v), []byte("zz")).OK("write")
			continue
		case 5:
			s.Stat(f).OK("stat")
			continue
		case 6:
			n.Perm, n.Sec, n.ASec = 0505, 999, 998
			n.Data = []byte("other"[:2+v])
			continue
		}
		s.Wstat(f, d).OK("wstat")
		vnd.Assert(n.Perm == perm, "wstat: other permission bits")
		vnd.Assert(!n.Big && len(n.Data) == len(data) && vnd.BytesEq(n.Data, data), "wstat: another length or other contents")
		vnd.Assert(what == 1 || n.Sec == sec && n.Nsec == nsec, "wstat: another modification time")
		vnd.Assert(what == 1 || n.ASec == at, "wstat: another access time")
	}
	vnd.Cover("again")
}

// C20_Sync: a wstat that changes nothing commits what was written.
func C20_Sync() {
	vnd.Bound("file server: a wstat with all don't-touch values on a file or directory opened in any way or just created, after 0 to 2 writes through it, of which the host's sync works or fails with an error of 20 kinds; debug layer on and off")
	Tree()
	l := Listener("/r", vnd.Choose("debug", 2) == 1, false)
	s := Connect(l)
	s.Version().OK("version")
	s.Attach(1, "").OK("attach")
	p, w := "/r/f", true
	switch vnd.Choose("how", 5) {
	case 0:
		s.Walk(1, 2, "f").OK("walk")
		s.Open(2, ORDWR).OK("open")
	case 1:
		s.Walk(1, 2, "f").OK("walk")
		s.Open(2, OWRITE).OK("open")
	case 2:
		s.Walk(1, 2, "f").OK("walk")
		s.Open(2, OREAD).OK("open")
		w = false
	case 3:
		s.Walk(1, 2).OK("clone")
		s.Create(2, "new", 0644, ORDWR).OK("create")
		p = "/r/new"
	case 4:
		s.Walk(1, 2, "d").OK("walk")
		s.Open(2, OREAD).OK("open")
		p, w = "/r/d", false
	}
	n := vos.Find(p)
	if w {
		for i := vnd.Choose("writes", 3); i > 0; i-- {
			s.Write(2, uint64(i), []byte("W")).OK("write")
		}
	}
	before := take()
	bad := vnd.Choose("fails", 2) == 1
	at, err := len(vos.Log), error(nil)
	if bad {
		err = HostErr()
	}
	vos.Fail = func(c *vos.Call) error {
		if c.Op == "sync" {
			return err
		}
		return nil
	}
	r := s.Wstat(2, DontTouch())
	vos.Fail = nil
	unchanged(before, nil, "a wstat that changes nothing")
	synced := false
	for _, c := range vos.Log[at:] {
		synced = synced || c.Op == "sync" && c.Err == nil && c.H != nil && c.H.Node == n
	}
	if bad {
		r.Refused("a wstat for which the host has not committed the file")
		vnd.Cover("refused")
	} else {
		r.OK("wstat")
		vnd.Assert(synced, "a wstat that changes nothing does not commit the open file")
		vnd.Cover("committed")
	}
	vnd.Assert(s.Stat(2).OK("stat").Dir().Q.P == n.Ino, "after a wstat that changes nothing the fid stands for another file")
}
