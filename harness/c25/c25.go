// Package c25: a version request starts a new session.
package c25

import (
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

// state brings a fid into one of the states a fid can be in.
func state(s *S, f uint32) string {
	k := vnd.Choose("state", 6)
	s.Attach(f, []string{"", "", "/f", "/d", "/d", "/d"}[k]).OK("attach")
	switch k {
	case 1:
		s.Walk(f, f, "g").OK("walk")
	case 2:
		s.Open(f, ORDWR).OK("open")
	case 3:
		s.Open(f, OREAD).OK("open")
		s.Read(f, 0, 10)
	case 4:
		s.Create(f, "new", 0644, ORDWR).OK("create")
	case 5:
		s.Create(f, "newdir", DMDIR|0755, OREAD).OK("create")
	}
	return []string{"r", "g", "f", "d", "new", "newdir"}[k]
}

// C25_Reset: the fids before a version request.
func C25_Reset() {
	vnd.Bound("file server: 0 to 2 arbitrary different fids (thorough: 3) in each of 6 states (attached, walked, open file, open directory partly read, created file, created directory), then a version request that is accepted or refused (any 4-byte version); with the debug layer and without")
	k := 3
	if vnd.Config("tier", 0) > 0 {
		k = 4
	}
	Tree()
	s := Debug("/r", vnd.Choose("debug", 2) == 1, false)
	n := vnd.Choose("fids", k)
	f := Distinct(n)
	var names []string
	for i := range f {
		if i > 0 {
			vos.Find("/r/d").Kids = vos.Find("/r/d").Kids[:2]
		}
		names = append(names, state(s, f[i]))
	}
	open := vos.OpenHandles()
	if vnd.Choose("refused", 2) == 1 {
		v := vnd.Str("version", 4)
		s.Req(Tversion, U32F(vnd.U32("msize")), StrF(v)).Refused("a version that does not exist")
		for i := range f {
			if vos.Find("/r/"+names[i]) != nil || vos.Find("/r/d/"+names[i]) != nil || names[i] == "r" {
				vnd.Assert(s.Stat(f[i]).OK("stat after a refused version request").Dir().Name == names[i], "a refused version request changes a fid")
			}
		}
		vnd.Assert(vos.OpenHandles() == open, "a refused version request closes files")
		vnd.Cover("refused")
		return
	}
	s.Version().OK("version")
	vnd.Assert(vos.OpenHandles() == 0, "a version request leaves files of the old session open")
	for _, c := range vos.Log {
		vnd.Assert(!(c.Op == "close" && c.Err != nil), "an open file is closed twice")
	}
	for i := range f {
		switch vnd.Choose("look", 4) {
		case 0:
			s.Stat(f[i]).Refused("stat of a fid of the old session")
		case 1:
			s.Clunk(f[i]).Refused("clunk of a fid of the old session")
		case 2:
			s.Read(f[i], 0, 10).Refused("read of a fid of the old session")
		case 3:
			s.Walk(f[i], f[i]).Refused("walk from a fid of the old session")
		}
	}
	for i := range f {
		s.Attach(f[i], "/g").OK("attach to a fid of the old session")
		vnd.Assert(s.Stat(f[i]).OK("stat").Dir().Name == "g", "a fid of the new session stands for another file")
		s.Read(f[i], 0, 10).Refused("read of a fid of the new session that is not open")
		s.Open(f[i], OREAD).OK("open in the new session")
		vnd.Assert(string(s.Read(f[i], 0, 10).OK("read in the new session").F[0].B) == "gg", "a fid of the new session reads another file")
	}
	vnd.Cover("reset")
}

// C25_Many: many fids, and files that cannot be closed properly.
func C25_Many() {
	n := 300
	if vnd.Config("tier", 0) > 0 {
		n = 1500
	}
	vnd.Bound("file server: 300 (thorough: 1500) fids spread over all numbers of which three in five are open, then a version request, the closing of none, one (4 of them) or all of the files failing on the host; then an arbitrary other fid is tried as well; with the debug layer and without")
	Tree()
	s := Debug("/r", vnd.Choose("debug", 2) == 1, false)
	bad := -1
	switch vnd.Choose("fail", 3) {
	case 1:
		bad = []int{0, 1, 31, n/5*3 - 1}[vnd.Choose("one", 4)]
	case 2:
		bad = -2
	}
	fids := s.Many(n, func(i int) bool { return bad == -2 || i == bad })
	s.Version().OK("version")
	vnd.Assert(vos.OpenHandles() == 0, "a version request leaves files of the old session open")
	other := vnd.U32("other")
	vnd.Assume(other != NOFID)
	for _, f := range append(fids, other) {
		s.Stat(f).Refused("stat of a fid of the old session")
	}
	for _, f := range fids {
		s.Attach(f, "/g").OK("attach to a fid of the old session")
		s.Read(f, 0, 10).Refused("read of a fid of the new session that is not open")
	}
	vnd.Cover("reset")
}

// C25_Others: another connection keeps its fids.
func C25_Others() {
	vnd.Bound("file server: a version request on one of two connections with the same fid number in use on both")
	Tree()
	l := Listener("/r", false, false)
	a, b := Connect(l), Connect(l)
	a.Version().OK("version")
	b.Version().OK("version")
	f := Distinct(1)[0]
	a.Attach(f, "/f").OK("attach")
	a.Open(f, OREAD).OK("open")
	b.Attach(f, "/g").OK("attach")
	b.Open(f, OREAD).OK("open")
	a.Version().OK("version")
	a.Stat(f).Refused("stat of a fid of the old session")
	vnd.Assert(string(b.Read(f, 0, 10).OK("read on the other connection").F[0].B) == "gg", "a version request affects another connection")
	vnd.Cover("others")
}

// C25_Sequence: several sessions on one connection.
func C25_Sequence() {
	n := 4
	if vnd.Config("tier", 0) > 0 {
		n = 5
	}
	vnd.Bound("file server: sequences of 4 (thorough: 5) of: attach of one of 2 arbitrary fids, walk of the one to the other, open of the first, clunk of one, a version request that is accepted (with 2 sizes) or refused: each is answered as the fids of the session say, and the open files are those of its open fids")
	Tree()
	s := New("/r")
	f := Distinct(2)
	var in, open [2]bool
	want := func(r R, ok bool, what string) {
		if ok {
			r.OK(what)
		} else {
			r.Refused(what)
		}
	}
	for i := 0; i < n; i++ {
		switch k := vnd.Choose("step", 9); k {
		case 0, 1:
			want(s.Attach(f[k], []string{"/f", "/g"}[k]), !in[k], "attach in a sequence")
			in[k] = true
		case 2:
			vnd.Assume(!open[0]) // not claimed either way
			want(s.Walk(f[0], f[1]), in[0] && !in[1], "walk in a sequence")
			in[1] = in[1] || in[0]
		case 3:
			want(s.Open(f[0], ORDWR), in[0] && !open[0], "open in a sequence")
			open[0] = in[0]
		case 4, 5:
			want(s.Clunk(f[k-4]), in[k-4], "clunk in a sequence")
			in[k-4], open[k-4] = false, false
		case 6, 7:
			s.Req(Tversion, U32F([]uint32{8192, 300}[k-6]), StrF("9P2000")).OK("version")
			in, open = [2]bool{}, [2]bool{}
		case 8:
			s.Req(Tversion, U32F(8192), StrF("9P2001")).Refused("another version")
		}
		k := 0
		if open[0] {
			k = 1
		}
		vnd.Assert(Handles(nil) == k, "other files are open than those of the session's open fids")
	}
	for i := range f {
		want(s.Stat(f[i]), in[i], "stat after a sequence")
		want(s.Read(f[i], 0, 10), open[i], "read after a sequence")
	}
	vnd.Cover("sequence")
}
