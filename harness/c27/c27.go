// Package c27: what is left when a connection has ended.
package c27

import (
	"errors"
	"syscall"

	p9 "github.com/Harvey-OS/ninep/protocol"
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

func session(l *p9.Listener) *S {
	s := Connect(l)
	s.Version().OK("version")
	return s
}

// use brings a fid into some state; the fid root is attached.
func use(s *S, root, fid uint32) {
	switch vnd.Choose("state", 11) {
	case 0:
	case 1:
		s.Walk(root, fid, "f").OK("walk")
	case 2:
		s.Walk(root, fid, "f").OK("walk")
		s.Open(fid, []uint8{OREAD, OWRITE, ORDWR}[vnd.Choose("mode", 3)]).OK("open")
	case 3:
		s.Walk(root, fid, "d").OK("walk")
		s.Open(fid, OREAD).OK("open")
		s.Read(fid, 0, 200).OK("read")
	case 4:
		s.Walk(root, fid, "d").OK("walk")
		s.Create(fid, "new", 0644, ORDWR).OK("create")
		s.Write(fid, 0, []byte("1")).OK("write")
	case 5:
		s.Walk(root, fid, "d").OK("walk")
		s.Create(fid, "dir", DMDIR|0755, OREAD).OK("create")
	case 6:
		s.Walk(root, fid, "g").OK("walk")
		s.Open(fid, ORDWR).OK("open")
		s.Remove(fid).OK("remove")
	case 7:
		s.Walk(root, fid, "f").OK("walk")
		s.Open(fid, OREAD).OK("open")
		d := DontTouch()
		d.Name = "moved"
		s.Wstat(fid, d)
	case 8:
		s.Walk(root, fid, "f").OK("walk")
		s.Open(fid, OREAD).OK("open")
		s.Version().OK("version")
		s.Attach(root, "").OK("attach")
		s.Walk(root, fid, "d", "x").OK("walk")
		s.Open(fid, OREAD).OK("open")
	case 9:
		s.Walk(root, fid, "g").OK("walk")
		s.Open(fid, ORDWR).OK("open")
		Gone("/r", "g")
	case 10:
		other := uint32(0x7fffffff)
		vnd.Assume(other != root && other != fid)
		s.Walk(root, fid, "g").OK("walk")
		s.Open(fid, ORDWR).OK("open")
		s.Walk(root, other, "g").OK("walk")
		s.Remove(other).OK("remove")
	}
}

// neterr, when set, is how the network fails.
var neterr error

// C27_Errors: the network fails in every way.
func C27_Errors() {
	vnd.Bound("file server: an open file and an open directory, the connection ending in the middle of a message or with a reply that cannot be sent, by an error of 16 kinds (end of file before its time, closed, timeout, temporary, interrupted, wrapped, ...)")
	Tree()
	s := New("/r")
	s.Attach(1, "").OK("attach")
	s.Attach(2, "/f").OK("attach")
	s.Open(2, ORDWR).OK("open")
	s.Attach(3, "/d").OK("attach")
	s.Open(3, OREAD).OK("open")
	neterr = NetError()
	at := len(vos.Log)
	end(s, 1, 2)
	vnd.Quiesce()
	vnd.Assert(Handles(nil) == 0, "a file is left open after the connection has ended")
	closed()
	vnd.Assert(Muts(at) == 0, "the end of a connection changes the file tree")
	vnd.Cover("ended")
}

// end ends the connection in one of the ways it can.
func end(s *S, root, fid uint32) {
	m := Encode(Tread, 7, []F{U32F(root), U64F(0), U32F(5)})
	how := vnd.Choose("how", 7)
	if neterr != nil {
		s.C.EndErr = neterr
		vnd.Assume(how > 0)
	} else if how < 5 && vnd.Choose("err", 2) == 1 {
		s.C.EndErr = errors.New("connection reset")
	}
	switch how {
	case 0:
	case 1:
		s.C.Send(m[:3])
	case 2:
		s.C.Send(m[:7])
	case 3:
		s.C.Send(m[:len(m)-1])
	case 4: // a last message that does not make sense
		m[4] = vnd.U8("type")
		vnd.Assume(m[4]&1 == 1)
		s.C.Send(m)
	default: // the reply to a last request cannot be sent
		k := vnd.Choose("sent", 2) * 4
		err := errors.New("broken pipe")
		if neterr != nil {
			err = neterr
		}
		s.C.WriteErr = func(n int) (int, error) { return k, err }
		if how == 5 {
			m = Encode(Topen, 7, []F{U32F(root), U8F(OREAD)})
		}
		s.C.Send(m)
		s.C.WaitClosed()
		return
	}
	s.C.End()
	s.C.WaitClosed()
}

func closed() {
	for _, c := range vos.Log {
		vnd.Assert(!(c.Op == "close" && c.Err != nil), "an open file is closed twice")
	}
}

// C27_Files: the files of the fids.
func C27_Files() {
	vnd.Bound("file server: a root fid, a fid in one of 11 states (none, walked, open for reading, writing or both, open directory being read, created file and directory, removed while open, removed by another program or through another fid, renamed while open, opened after a second version request) and one more open file, directory or none, then the stream ends at a message, in a header, after one, in a body, after a message of a reply type, with end of file or an error, or the reply to an open or read cannot be written (in whole or in part); debug layer on and off")
	Tree()
	s := session(Listener("/r", vnd.Choose("debug", 2) == 1, false))
	fs := Distinct(3)
	s.Attach(fs[0], "").OK("attach")
	use(s, fs[0], fs[1])
	if !s.Stat(fs[0]).Bad && s.Walk(fs[0], fs[2], "d").Bad == false {
		s.Clunk(fs[2]).OK("clunk")
		more(s, fs[0], fs[2])
	}
	before := Handles(nil)
	at := len(vos.Log)
	end(s, fs[0], fs[1])
	vnd.Quiesce()
	vnd.Assert(Handles(nil) == 0, "a file is left open after the connection has ended")
	closed()
	vnd.Assert(Muts(at) == 0, "the end of a connection changes the file tree")
	if before > 0 {
		vnd.Cover("closed")
	}
	vnd.Cover("ended")
}

// more uses a third fid.
func more(s *S, root, fid uint32) {
	switch vnd.Choose("third", 3) {
	case 1:
		s.Walk(root, fid, "d", "x").OK("walk")
		s.Open(fid, ORDWR).OK("open")
	case 2:
		s.Walk(root, fid, "d").OK("walk")
		s.Open(fid, OREAD).OK("open")
	}
}

// C27_Others: the files of other connections.
func C27_Others() {
	vnd.Bound("file server: two connections of one listener, each with a fid (arbitrary, the same or not) open on the same file or on two; one ends (as above), the other goes on, then ends as well")
	Tree()
	l := Listener("/r", false, false)
	a, b := session(l), session(l)
	fs := Distinct(2)
	fb := fs
	if vnd.Choose("same", 2) == 0 {
		fb = Distinct(2)
	}
	a.Attach(fs[0], "").OK("attach")
	b.Attach(fb[0], "").OK("attach")
	a.Walk(fs[0], fs[1], "f").OK("walk")
	a.Open(fs[1], ORDWR).OK("open")
	b.Walk(fb[0], fb[1], []string{"f", "g"}[vnd.Choose("file", 2)]).OK("walk")
	b.Open(fb[1], ORDWR).OK("open")
	end(a, fs[0], fs[1])
	vnd.Quiesce()
	vnd.Assert(Handles(nil) == 1, "the end of a connection does not close exactly its own files")
	b.Read(fb[1], 0, 5).OK("a read on the other connection")
	b.Write(fb[1], 0, []byte("1")).OK("a write on the other connection")
	b.Clunk(fb[0]).OK("a clunk on the other connection")
	b.C.End()
	b.C.WaitClosed()
	vnd.Quiesce()
	vnd.Assert(Handles(nil) == 0, "a file is left open after its connection has ended")
	closed()
	vnd.Cover("both ended")
}

// C27_Many: many fids, and files that cannot be closed properly.
func C27_Many() {
	n := 100
	if vnd.Config("tier", 0) > 0 {
		n = 1500
	}
	large := vnd.Choose("large", 2) == 1
	if large {
		n = max(n, 600)
	}
	vnd.Bound("file server: 100 (thorough: 1500) fids spread over all numbers of which three in five are open, then the stream ends (as above), or 600 (1500) and it ends at a message, the closing of none, one (4 of them) or all of the files failing on the host; debug layer on and off")
	Tree()
	s := session(Listener("/r", vnd.Choose("debug", 2) == 1, false))
	bad := -1
	switch vnd.Choose("fail", 3) {
	case 1:
		bad = []int{0, 1, 31, n/5*3 - 1}[vnd.Choose("one", 4)]
	case 2:
		bad = -2
	}
	fids := s.Many(n, func(i int) bool { return bad == -2 || i == bad })
	at := len(vos.Log)
	if large {
		s.C.End()
		s.C.WaitClosed()
	} else {
		end(s, fids[3], fids[0])
	}
	vnd.Quiesce()
	vnd.Assert(Handles(nil) == 0, "a file is left open after the connection has ended")
	vnd.Assert(Muts(at) == 0, "the end of a connection changes the file tree")
	vnd.Cover("ended")
}

// C27_Sequence: what happened before the end.
func C27_Sequence() {
	n := 3
	if vnd.Config("tier", 0) > 0 {
		n = 4
	}
	vnd.Bound("file server: sequences of 3 (thorough: 4) of: open of one of 2 arbitrary fids, clunk, remove, walk of the fid elsewhere, create, rename, a version request, an open or create that the host refuses, a clunk whose close fails; then the stream ends; then an open or create on a second connection with the same fids, which ends as well")
	Tree()
	l := Listener("/r", false, false)
	f := Distinct(2)
	d := vos.Find("/r/d")
	for c := 0; c < 2; c++ {
		s := session(l)
		for i := 0; i < n; i++ {
			k, step := 0, 2*i
			if c == 0 {
				k, step = vnd.Choose("fid", 2), vnd.Choose("step", 8)
			} else if i > 1 {
				break
			}
			x := f[k]
			switch step {
			case 0:
				s.Attach(x, []string{"/d/x", "/g"}[k])
				s.Open(x, ORDWR)
			case 1:
				s.Clunk(x)
			case 2:
				s.Attach(x, "/d")
				s.Create(x, "n"+string(rune('a'+len(d.Kids))), 0644, ORDWR)
			case 3:
				s.Remove(x)
			case 4:
				s.Walk(x, x, "..")
				s.Open(x, OREAD)
			case 5:
				s.Version().OK("version")
			case 6:
				vos.Fail = func(c *vos.Call) error {
					if c.Op == "open" {
						return syscall.EACCES
					}
					return nil
				}
				s.Attach(x, "/g")
				s.Open(x, OREAD)
				vos.Fail = nil
			case 7:
				vos.Fail = func(c *vos.Call) error {
					if c.Op == "close" {
						return syscall.EIO
					}
					return nil
				}
				s.Clunk(x)
				vos.Fail = nil
			}
		}
		at := len(vos.Log)
		s.C.End()
		s.C.WaitClosed()
		vnd.Quiesce()
		vnd.Assert(Handles(nil) == 0, "a file is left open after the connection has ended")
		closed2(at)
		vnd.Assert(Muts(at) == 0, "the end of a connection changes the file tree")
	}
	vnd.Cover("ended twice")
}

// closed2 is closed for the part of the log from at on.
func closed2(at int) {
	for _, c := range vos.Log[at:] {
		vnd.Assert(!(c.Op == "close" && c.Err != nil), "an open file is closed twice")
	}
}
