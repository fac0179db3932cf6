// Package c16: walks.
package c16

import (
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

const root = "/r"

var starts = []string{"/r", "/r/d", "/r/f", "/r/d/e"}

func tree() {
	Tree()
	r := vos.Find("/r")
	r.Add(&vos.Node{Name: "l", Link: true, Perm: 0777, Data: []byte("d")})
	for i, p := range []string{"/r", "/r/f", "/r/g", "/r/d", "/r/d/x", "/r/d/e", "/r/l"} {
		n := vos.Find(p)
		n.Sec, n.Nsec = int64(1000+i), 5000000
	}
}

// qidOf is the qid a file should have.
func qidOf(n *vos.Node) Qid {
	q := Qid{V: uint32((n.Sec*1000000000 + n.Nsec) / 1000000), P: n.Ino}
	if n.Dir {
		q.T |= QTDIR
	}
	if n.Link {
		q.T |= QTLINK
	}
	return q
}

// name is one of the names in the tree, of none, or one arbitrary byte.
func name() string {
	ns := []string{"..", ".", "d", "f", "x", "nope", "l", ""}
	k := vnd.Choose("name", len(ns)+1)
	if k < len(ns) {
		return ns[k]
	}
	s := vnd.Str("byte", 1)
	vnd.Assume(vnd.And(s[0] != '/', s[0] != '.', s[0] != 0))
	return s
}

// begin attaches fid a and walks it to one of the starting points.
func begin(s *S, a uint32) string {
	s.Attach(a, "").OK("attach")
	p := starts[vnd.Choose("start", len(starts))]
	switch p {
	case "/r/d":
		s.Walk(a, a, "d").OK("walk")
	case "/r/f":
		s.Walk(a, a, "f").OK("walk")
	case "/r/d/e":
		s.Walk(a, a, "d", "e").OK("walk")
	}
	return p
}

// walk checks one walk of names from fid a (at p) to b.
func walk(s *S, a, b uint32, same, inUse bool, p string, names []string) {
	start := vos.Find(p)
	want := []Qid{}
	at := p
	all := true
	for _, nm := range names {
		if n := vos.Find(at); !n.Dir && (nm == "" || nm == "." || nm == "..") {
			vnd.Assume(false) // a name in what is not a directory: unspecified
		}
		if at == "/r/l" && nm == ".." {
			vnd.Assume(false) // the parent of a link: unspecified
		}
		at = Join(root, at, nm)
		n := vos.Find(at)
		if n == nil {
			all = false
			break
		}
		want = append(want, qidOf(n))
	}
	r := s.Walk(a, b, names...)
	stands := func(fid uint32, n *vos.Node, what string) {
		d := s.Stat(fid).OK("stat of " + what).Dir()
		vnd.Assert(d.Q.P == n.Ino, what+" stands for another file")
	}
	target := start
	switch {
	case len(names) > 0 && len(want) == 0:
		r.Refused("a walk whose first name does not exist")
	case inUse && all:
		r.Refused("a walk to a fid in use")
	case inUse && r.Bad:
	default:
		r.OK("walk")
		vnd.Assert(EqQQ(r.F[0].QQ, want), "a walk does not answer with the qids of the files visited")
		if all {
			target = vos.Find(at)
			vnd.Cover("walked all")
		} else {
			vnd.Cover("walked some")
		}
	}
	if same {
		stands(a, target, "a fid walked to itself")
		return
	}
	stands(a, start, "the starting fid")
	if inUse {
		stands(b, vos.Find("/r/g"), "the fid in use")
		return
	}
	if all && !r.Bad {
		stands(b, target, "the new fid")
		s.Clunk(b).OK("clunk of the new fid")
		stands(a, start, "the starting fid after a clunk of the new one")
	} else {
		s.Stat(b).Refused("the new fid of a walk that did not get there")
		s.Clunk(b).Refused("clunk of the new fid of a walk that did not get there")
	}
}

// C16_Walk: walks of some names.
func C16_Walk() {
	vnd.Bound("file server: from 4 starting files, walks of 0 to 2 names (thorough: 3), each one of 8 (., .., the empty name, existing and missing ones, a symbolic link) or any single byte, to the fid itself, a new fid or a fid in use; arbitrary different fids; tree of 8 files")
	k := 3
	if vnd.Config("tier", 0) > 0 {
		k = 4
	}
	tree()
	s := New(root)
	f := Distinct(3)
	p := begin(s, f[0])
	var names []string
	n := vnd.Choose("count", k)
	for i := 0; i < n; i++ {
		names = append(names, name())
	}
	switch vnd.Choose("to", 3) {
	case 0:
		walk(s, f[0], f[0], true, false, p, names)
	case 1:
		walk(s, f[0], f[1], false, false, p, names)
	case 2:
		s.Attach(f[1], "/g").OK("attach")
		walk(s, f[0], f[1], false, true, p, names)
	}
}

// C16_Long: walks of many names.
func C16_Long() {
	vnd.Bound("file server: walks of 3 to 16 names, of which the k-th does not exist (every k) or all do")
	tree()
	s := New(root)
	f := Distinct(2)
	s.Attach(f[0], "").OK("attach")
	n := []int{3, 4, 8, 15, 16}[vnd.Choose("count", 5)]
	miss := vnd.Choose("missing", n+1)
	var names []string
	in := false
	for i := 0; i < n; i++ {
		nm := "d"
		if in {
			nm = ".."
		}
		if i == miss {
			nm = "nope"
		}
		in = !in
		names = append(names, nm)
	}
	walk(s, f[0], f[1], false, false, "/r", names)
}

// C16_Unknown: a walk from a fid that does not exist.
func C16_Unknown() {
	vnd.Bound("file server: walks of 0 and 1 name from any fid that does not exist, to any fid")
	tree()
	s := New(root)
	f := Distinct(2)
	s.Attach(f[0], "").OK("attach")
	to := vnd.U32("to")
	at := len(vos.Log)
	if vnd.Choose("count", 2) == 0 {
		s.Walk(f[1], to).Refused("a walk from no fid")
	} else {
		s.Walk(f[1], to, "d").Refused("a walk from no fid")
	}
	vnd.Assert(Muts(at) == 0, "a refused walk changes files")
	s.Stat(f[1]).Refused("a fid that a refused walk started from")
	vnd.Assert(s.Stat(f[0]).OK("stat").Dir().Q.P == vos.Find("/r").Ino, "a refused walk changes another fid")
	vnd.Cover("refused")
}

// C16_Fault: the host fails to look at one of the files.
func C16_Fault() {
	vnd.Bound("file server: walks of 1 to 3 existing names of which looking at any one fails on the host with an error of 20 kinds")
	tree()
	s := New(root)
	f := Distinct(2)
	s.Attach(f[0], "").OK("attach")
	names := []string{"d", "e", "..", "x"}[:1+vnd.Choose("count", 3)]
	k := vnd.Choose("fails", len(names))
	i := 0
	err := HostErr()
	vos.Fail = func(c *vos.Call) error {
		i++
		if i-1 == k {
			return err
		}
		return nil
	}
	r := s.Walk(f[0], f[1], names...)
	vos.Fail = nil
	vnd.Assert(r.Bad || len(r.F[0].QQ) < len(names), "a walk gets past a file that cannot be looked at")
	vnd.Assert(k > 0 || r.Bad, "a walk whose first step fails is not an error")
	s.Stat(f[1]).Refused("the new fid of a walk that did not get there")
	vnd.Assert(s.Stat(f[0]).OK("stat").Dir().Q.P == vos.Find("/r").Ino, "a failed walk changes the starting fid")
	vnd.Cover("failed")
}

// C16_Names: files of any name.
func C16_Names() {
	vnd.Bound("file server: a walk to a file of any name (1 to 3 arbitrary bytes, or 255 of which 4 are arbitrary), directly or through a directory, beside a file of any other name of one byte; a walk to any missing name of 1 to 3 arbitrary bytes or 255 in a directory of 3 files")
	Tree()
	r := vos.Find("/r")
	nm := Fresh("name")
	dir := vnd.Choose("in", 2) == 1
	at := r
	if dir {
		at = vos.Find("/r/d")
	}
	s := New(root)
	s.Attach(1, "").OK("attach")
	var names []string
	var want []Qid
	if dir {
		names, want = []string{"d"}, []Qid{qidOf(at)}
	}
	names = append(names, nm)
	if vnd.Choose("miss", 2) == 1 {
		w := s.Walk(1, 3, names...)
		if dir {
			vnd.Assert(EqQQ(w.OK("walk").F[0].QQ, want), "a walk does not answer with the qids of the files visited")
		} else {
			w.Refused("a walk whose first name does not exist")
		}
		s.Stat(3).Refused("the new fid of a walk that did not get there")
		vnd.Cover("missing")
		return
	}
	n := at.AddFile(nm, "x")
	other := vnd.Str("other", 1)
	vnd.Assume(vnd.And(other[0] != '/', other[0] != '.', other[0] != 0, other != nm))
	for _, k := range []string{"f", "g", "d", "x", "e"} {
		vnd.Assume(other != k)
	}
	o := at.AddFile(other, "y")
	n.Sec, o.Sec = 1001, 1002
	want = append(want, qidOf(n))
	w := s.Walk(1, 3, names...).OK("walk")
	vnd.Assert(EqQQ(w.F[0].QQ, want), "a walk does not answer with the qids of the files visited")
	d := s.Stat(3).OK("stat of the new fid").Dir()
	vnd.Assert(vnd.And(d.Q.P == n.Ino, d.Name == n.Name), "the new fid stands for another file")
	vnd.Cover("walked")
}

// C16_Changes: the tree changes between walks.
func C16_Changes() {
	k := 2 + vnd.Config("tier", 0)
	vnd.Bound("file server: 2 (thorough: 3) times a walk to one of 5 names (f, d, new, d/x, d/new) or the appearance, removal, renaming or replacement of one by the server or by another program on the host; then a walk to any of the names: it answers for the tree as it is")
	tree()
	paths := [][]string{{"f"}, {"d"}, {"new"}, {"d", "x"}, {"d", "new"}}
	pick := func() (names []string, dir, last string) {
		names = paths[vnd.Choose("path", len(paths))]
		dir = root
		if len(names) > 1 {
			dir += "/" + names[0]
		}
		return names, dir, names[len(names)-1]
	}
	s := New(root)
	s.Attach(1, "").OK("attach")
	ino := uint64(5000)
	fresh := func(last string, isDir bool) *vos.Node {
		ino++
		return &vos.Node{Name: last, Dir: isDir, Ino: ino, Perm: 0755, Sec: int64(ino)}
	}
	for i := 0; i < k; i++ {
		what := vnd.Choose("what", 7)
		names, dir, last := pick()
		n := vos.Find(dir + "/" + last)
		vnd.Assume(vos.Find(dir) != nil && vos.Find(dir).Dir)
		vos.Now += 7
		switch what {
		case 0:
			walk(s, 1, 2, false, false, root, names)
		case 1, 3:
			vnd.Assume(n != nil && (!n.Dir || len(n.Kids) == 0))
			s.Walk(1, 3, names...).OK("walk")
			if what == 1 {
				s.Remove(3).OK("remove")
			} else {
				d := DontTouch()
				d.Name = "new"
				vnd.Assume(vos.Find(dir+"/new") == nil)
				s.Wstat(3, d).OK("rename")
				s.Clunk(3).OK("clunk")
			}
		case 2:
			vnd.Assume(n == nil)
			s.Walk(1, 3, names[:len(names)-1]...).OK("walk")
			s.Create(3, last, 0644, OREAD).OK("create")
			s.Clunk(3).OK("clunk")
		case 4:
			vnd.Assume(n != nil)
			Gone(dir, last)
		case 5:
			vnd.Assume(n == nil)
			vos.Find(dir).Add(fresh(last, vnd.Choose("dir", 2) == 1))
		case 6:
			vnd.Assume(n != nil)
			Gone(dir, last)
			vos.Find(dir).Add(fresh(last, vnd.Choose("dir", 2) == 1))
		}
	}
	names, _, _ := pick()
	walk(s, 1, 2, false, false, root, names)
	vnd.Cover("changed")
}
