// Package c14: containment in the exported root.
package c14

import (
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

// full is the path seen from /.
func full(p string) string {
	if len(p) > 0 && p[0] == '/' {
		return p
	}
	return vos.Cwd + "/" + p
}

// clean is the elements of a path without . and .., and whether it is absolute.
// Elements that go above where a relative path starts stay as "..".
func clean(p string) (es []string, abs bool) {
	abs = len(p) > 0 && p[0] == '/'
	st := 0
	for i := 0; i <= len(p); i++ {
		if i < len(p) && p[i] != '/' {
			continue
		}
		e := p[st:i]
		st = i + 1
		switch {
		case len(e) == 0 || e == ".":
		case e == "..":
			if len(es) > 0 && es[len(es)-1] != ".." {
				es = es[:len(es)-1]
			} else if !abs {
				es = append(es, "..")
			}
		default:
			es = append(es, e)
		}
	}
	return es, abs
}

// inside tells whether p is the root or below it.
func inside(r []string, p string) bool {
	e, _ := clean(full(p))
	if len(e) < len(r) {
		return false
	}
	for i := range r {
		if e[i] != r[i] {
			return false
		}
	}
	for _, x := range e[len(r):] {
		if x == ".." {
			return false
		}
	}
	return true
}

func contained(root string, what string) {
	r, _ := clean(full(root))
	for _, c := range vos.Log {
		vnd.Assert(inside(r, c.Path), what+": the server looks at or changes a file outside the root ("+c.Op+")")
		if c.Op == "rename" {
			vnd.Assert(inside(r, c.To), what+": a file is moved out of the root")
		}
	}
	vnd.Assert(len(vos.Log) > 0, what+": no host call seen")
}

// Roots: none is below another's sibling by accident ("/r" and "/r2").
var roots = []string{"/r", "/", "/r/s/", "rel", ".", "/a/../r", "//r//s", "../up", "/r/."}

func begin(root string, dir bool) *S {
	vos.Reset()
	vos.Universe, vos.UniverseDir, vos.Cwd = true, dir, "/w/d"
	return New(root)
}

// arb is an arbitrary name of up to n bytes.
func arb(n int) string { return vnd.Str("name", vnd.Choose("len", n+1)) }

// apply uses the names in one kind of request on fid 1 (which stands for
// something under the root) and looks at the result.
func apply(s *S, op int, names []string) {
	all := ""
	for i, n := range names {
		if i > 0 {
			all += "/"
		}
		all += n
	}
	switch op {
	case 0:
		s.Attach(2, all)
	case 1:
		s.Walk(1, 2, names...)
	case 2:
		s.Create(1, all, 0644, ORDWR)
	case 3:
		s.Create(1, all, DMDIR|0755, OREAD)
	case 4:
		d := DontTouch()
		d.Name = all
		s.Wstat(1, d)
	case 5:
		s.Walk(1, 1, names...)
	}
}

func look(s *S, fid uint32) {
	s.Stat(fid)
	d := DontTouch()
	d.Mode = 0600
	s.Wstat(fid, d)
	s.Open(fid, OREAD)
	s.Remove(fid)
}

var opNames = []string{"attach", "walk", "create", "create of a directory", "rename", "walk of a fid to itself"}

// C14_Bytes: names of arbitrary bytes.
func C14_Bytes() {
	n, k, nr := 4, 2, 6
	if vnd.Config("tier", 0) > 0 {
		n, k, nr = 6, 3, len(roots)
	}
	vnd.Bound("file server: names of up to 4 (thorough: 6) arbitrary bytes in attach, walk (also 2 names of up to 2 (thorough: 3) bytes each), create and rename requests on the root or a file below it, for 6 (thorough: 9) spellings of the root (absolute, relative, with dots and slashes), with every path existing as a file or as a directory; then stat, chmod, open and remove of the result. Symbolic links on the host are not followed here: what they lead to is the host's business")
	root := roots[vnd.Choose("root", nr)]
	s := begin(root, vnd.Choose("dir", 2) == 1)
	s.Attach(1, []string{"", "sub"}[vnd.Choose("at", 2)]).OK("attach")
	op := vnd.Choose("op", len(opNames))
	var names []string
	if (op == 1 || op == 5) && vnd.Choose("two", 2) == 1 {
		names = []string{arb(k), arb(k)}
	} else {
		names = []string{arb(n)}
	}
	apply(s, op, names)
	look(s, 2)
	look(s, 1)
	contained(root, opNames[op])
	vnd.Cover(opNames[op])
}

var nasty = []string{"..", "../..", "../../..", "../r2", "../rel2", "a/../..", "a/../../b", "/..", "/../x", "./..", "..//..", "../r/../o", "...", "..a", "/o/secret", "a/b/../../../../o", "../up2", "../../up", "/", "."}

// C14_Steps: names used one after another.
func C14_Steps() {
	vnd.Bound("file server: every 2 requests (attach, walk, create, rename) with each of 20 names that try to get out, for 2 roots (thorough: 9), on the root")
	k := 2
	if vnd.Config("tier", 0) > 0 {
		k = len(roots)
	}
	root := []string{"/r", "rel", "/r/s/", "/", ".", "/a/../r", "//r//s", "../up", "/r/."}[vnd.Choose("root", k)]
	s := begin(root, true)
	s.Attach(1, "").OK("attach")
	op := 0
	for i := 0; i < 2; i++ {
		op = vnd.Choose("op", len(opNames))
		apply(s, op, []string{nasty[vnd.Choose("name", len(nasty))]})
	}
	look(s, 2)
	look(s, 1)
	contained(root, opNames[op])
	vnd.Cover("steps")
}

// C14_Up: walking up from the root stays at the root.
func C14_Up() {
	vnd.Bound("file server: on a real tree with /r exported, 0 to 2 steps down, then 1 to 4 steps up, in one walk or several: never above the root; the qids are those of the directories on the way")
	Tree()
	s := New([]string{"/r", "/r/", "/r/d/.."}[vnd.Choose("root", 3)])
	s.Attach(1, "").OK("attach")
	rootIno := vos.Find("/r").Ino
	var names []string
	down := vnd.Choose("down", 3)
	names = append(names, []string{"d", "e"}[:down]...)
	up := 1 + vnd.Choose("up", 4)
	for i := 0; i < up; i++ {
		names = append(names, "..")
	}
	want := []uint64{rootIno, vos.Find("/r/d").Ino, vos.Find("/r/d/e").Ino}
	depth := 0
	one := vnd.Choose("one", 2) == 1
	var got []Qid
	if one {
		got = s.Walk(1, 1, names...).OK("walk").F[0].QQ
		vnd.Assert(len(got) == len(names), "a walk up does not get there")
	}
	for i, n := range names {
		if n == ".." {
			if depth > 0 {
				depth--
			}
		} else {
			depth++
		}
		var q Qid
		if one {
			q = got[i]
		} else {
			g := s.Walk(1, 1, n).OK("walk").F[0].QQ
			vnd.Assert(len(g) == 1, "a walk up does not get there")
			q = g[0]
		}
		vnd.Assert(q.P == want[depth], "walking up from the root does not stay at the root")
	}
	vnd.Assert(s.Stat(1).OK("stat").Dir().Q.P == want[depth], "after walking up the fid stands for another file")
	vnd.Cover("up")
}
