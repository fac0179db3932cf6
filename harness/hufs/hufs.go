// Package hufs drives the real file server (NewUFS and everything below it)
// over a scripted connection, on the modelled host file tree of vos.
package hufs

import (
	"flag"
	"syscall"

	ufs "github.com/Harvey-OS/ninep/filesystem"
	p9 "github.com/Harvey-OS/ninep/protocol"
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

// NOFID is the fid that is none.
const NOFID = 0xffffffff

// Modes and bits of open(5) and stat(5).
const (
	OREAD  = 0
	OWRITE = 1
	ORDWR  = 2
	OEXEC  = 3
	OTRUNC = 0x10
	DMDIR  = 0x80000000
	QTDIR  = 0x80
	QTLINK = 0x02
)

// S is a session with the file server.
type S struct {
	C   *Conn
	tag uint16
}

// Listener makes a file server listener.
func Listener(root string, debug, trace bool) *p9.Listener {
	d := "0"
	if debug {
		d = "1"
	}
	vnd.Assert(flag.Set("root", root) == nil && flag.Set("debug", d) == nil, "the root and debug flags cannot be set")
	l, err := ufs.NewUFS(func(l *p9.Listener) error {
		if trace {
			l.Trace = Trace
		}
		return nil
	})
	vnd.Assert(err == nil && l != nil, "NewUFS fails")
	return l
}

// Connect makes a session on l.
func Connect(l *p9.Listener) *S {
	s := &S{C: NewConn()}
	vnd.Assert(l.Accept(s.C) == nil, "Accept fails")
	return s
}

// New is a connection to a file server that has agreed on the version.
func New(root string) *S { return Sized(root, 8192) }

// Sized is New with a message size.
func Sized(root string, msize uint32) *S {
	s := Connect(Listener(root, false, false))
	vnd.Assert(!s.Req(Tversion, U32F(msize), StrF("9P2000")).Bad, "the version request is refused")
	return s
}

// Debug is New with the debug layer or tracing.
func Debug(root string, debug, trace bool) *S {
	s := Connect(Listener(root, debug, trace))
	r := s.Req(Tversion, U32F(8192), StrF("9P2000"))
	vnd.Assert(!r.Bad, "the version request is refused")
	return s
}

// R is a reply.
type R struct {
	F   []F
	Err string
	Bad bool
	Typ int
}

// Req performs a request: there is exactly one reply, of its type or an error.
func (s *S) Req(typ int, f ...F) R {
	s.tag++
	s.C.Send(Encode(typ, s.tag, f))
	m := s.C.Recv()
	nm := Name(typ)
	vnd.Assert(m != nil, nm+": the connection is closed instead of a reply")
	vnd.Assert(TagOf(m) == s.tag, nm+": the reply has another tag")
	if m[4] == Rerror {
		e, ok := Decode(Rerror, m[7:])
		vnd.Assert(ok, nm+": the error reply is malformed")
		return R{Bad: true, Err: e[0].S, Typ: typ}
	}
	vnd.Assert(m[4] == byte(typ+1), nm+": the reply has the wrong type")
	r, ok := Decode(typ+1, m[7:])
	vnd.Assert(ok, nm+": the reply is malformed")
	return R{F: r, Typ: typ}
}

// OK asserts success.
func (r R) OK(what string) R {
	vnd.Assert(!r.Bad, what+": refused: "+r.Err)
	return r
}

// Refused asserts an error.
func (r R) Refused(what string) R {
	vnd.Assert(r.Bad, what+": not refused")
	return r
}

func (s *S) Attach(fid uint32, aname string) R {
	return s.Req(Tattach, U32F(fid), U32F(NOFID), StrF("u"), StrF(aname))
}
func (s *S) Walk(fid, newfid uint32, names ...string) R {
	return s.Req(Twalk, U32F(fid), U32F(newfid), StrsF(names...))
}
func (s *S) Open(fid uint32, mode uint8) R { return s.Req(Topen, U32F(fid), U8F(mode)) }
func (s *S) Create(fid uint32, name string, perm uint32, mode uint8) R {
	return s.Req(Tcreate, U32F(fid), StrF(name), U32F(perm), U8F(mode))
}
func (s *S) Read(fid uint32, off uint64, n uint32) R {
	return s.Req(Tread, U32F(fid), U64F(off), U32F(n))
}
func (s *S) Write(fid uint32, off uint64, b []byte) R {
	return s.Req(Twrite, U32F(fid), U64F(off), DataF(b))
}
func (s *S) Clunk(fid uint32) R  { return s.Req(Tclunk, U32F(fid)) }
func (s *S) Remove(fid uint32) R { return s.Req(Tremove, U32F(fid)) }
func (s *S) Stat(fid uint32) R   { return s.Req(Tstat, U32F(fid)) }
func (s *S) Wstat(fid uint32, d Dir) R {
	return s.Req(Twstat, U32F(fid), D16F(DirBytes(d)))
}
func (s *S) Version() R { return s.Req(Tversion, U32F(8192), StrF("9P2000")) }

// DontTouch is the entry of a wstat that changes nothing.
func DontTouch() Dir {
	return Dir{Type: 0xffff, Dev: 0xffffffff, Q: Qid{0xff, 0xffffffff, 0xffffffffffffffff},
		Mode: 0xffffffff, Atime: 0xffffffff, Mtime: 0xffffffff, Length: 0xffffffffffffffff}
}

// Dir is the entry in a stat reply.
func (r R) Dir() Dir {
	d, ok := DecodeDir(r.F[0].B)
	vnd.Assert(ok, "stat: the entry is malformed")
	return d
}

// Tree makes the host tree used by most harnesses: /r is exported, /o is not.
//
//	/r/f "hello"   /r/g "gg"   /r/d/x "xx"   /r/d/e/   /o/secret
func Tree() {
	vos.Reset()
	r := vos.Top.AddDir("r")
	r.AddFile("f", "hello")
	r.AddFile("g", "gg")
	d := r.AddDir("d")
	d.AddFile("x", "xx")
	d.AddDir("e")
	vos.Top.AddDir("o").AddFile("secret", "secret")
}

// Distinct makes n arbitrary fids that are all different.
func Distinct(n int) []uint32 {
	var fs []uint32
	for i := 0; i < n; i++ {
		v := vnd.U32("fid")
		vnd.Assume(v != NOFID)
		for _, o := range fs {
			vnd.Assume(v != o)
		}
		fs = append(fs, v)
	}
	return fs
}

// Handles counts the open handles of a node (of any when n is nil).
func Handles(n *vos.Node) int {
	k := 0
	for _, h := range vos.Handles {
		if !h.Closed && (n == nil || h.Node == n) {
			k++
		}
	}
	return k
}

// Muts counts the calls since log position at that could change the tree.
func Muts(at int) int {
	k := 0
	for _, c := range vos.Log[at:] {
		if c.Mut {
			k++
		}
	}
	return k
}

// Join is dir/name, where .. of the root is the root.
func Join(root, dir, name string) string {
	switch name {
	case "", ".":
		return dir
	case "..":
		if dir == root {
			return root
		}
		for i := len(dir) - 1; i > 0; i-- {
			if dir[i] == '/' {
				return dir[:i]
			}
		}
		return "/"
	}
	if dir == "/" {
		return "/" + name
	}
	return dir + "/" + name
}

// AnyName is an arbitrary name of a file: 1 to 3 arbitrary bytes, or 255 of
// which the first two, one in the middle and the last are arbitrary.
func AnyName(label string) string {
	n := []int{1, 2, 3, 255}[vnd.Choose(label+" length", 4)]
	b := vnd.Bytes(label, min(n, 4))
	for _, c := range b {
		vnd.Assume(vnd.And(c != '/', c != 0))
	}
	if n > 4 {
		l := make([]byte, n)
		for i := range l {
			l[i] = byte('a' + i%26)
		}
		l[0], l[1], l[100], l[n-1] = b[0], b[1], b[2], b[3]
		b = l
	}
	s := string(b)
	vnd.Assume(vnd.And(s != ".", s != ".."))
	return s
}

// Fresh is AnyName, other than the names in use in Tree.
func Fresh(label string) string {
	s := AnyName(label)
	for _, k := range []string{"f", "g", "d", "x", "e"} {
		vnd.Assume(s != k)
	}
	return s
}

// Many uses n fids spread over all numbers: of each 5 one is attached, one
// walked, one an open file, one an open directory and one a created file. The
// files of a new session are closed with an error when fail says so.
func (s *S) Many(n int, fail func(i int) bool) []uint32 {
	d := vos.Find("/r/d")
	var fids []uint32
	for i := 0; i < n; i++ {
		f := uint32(i) * 0x9e3779b1
		fids = append(fids, f)
		s.Attach(f, []string{"/f", "/d", "/g", "", "/d"}[i%5]).OK("attach")
		switch i % 5 {
		case 1:
			s.Walk(f, f, "x").OK("walk")
		case 2:
			s.Open(f, ORDWR).OK("open")
		case 3:
			s.Open(f, OREAD).OK("open")
			s.Read(f, 0, 70).OK("read")
		case 4:
			s.Create(f, "n"+string(rune('a'+i/5%26))+string(rune('a'+i/130%26)), 0644, ORDWR).OK("create")
		}
	}
	vnd.Assert(len(d.Kids) == 2+n/5 && Handles(nil) == n/5*3, "harness: other files are open than expected")
	k := 0
	vos.Fail = func(c *vos.Call) error {
		if c.Op != "close" {
			return nil
		}
		k++
		if fail(k - 1) {
			return syscall.EIO
		}
		return nil
	}
	return fids
}

// HostErr chooses a kind of error of the host.
func HostErr() error {
	l := []syscall.Errno{syscall.EACCES, syscall.ENOENT, syscall.EEXIST, syscall.EIO, syscall.EPERM, syscall.ENOSPC, syscall.EROFS, syscall.EBUSY, syscall.ENOTEMPTY, syscall.EMFILE, syscall.EISDIR, syscall.ENOTDIR, syscall.EXDEV, syscall.ESTALE, syscall.ENOTSUP, syscall.ELOOP, syscall.ENAMETOOLONG, syscall.EINVAL, syscall.EBADF, syscall.EDQUOT}
	return l[vnd.Choose("errno", len(l))]
}

// Gone takes a file away from the host's tree, as another program might.
func Gone(dir, name string) {
	d := vos.Find(dir)
	var l []*vos.Node
	for _, n := range d.Kids {
		if n.Name != name {
			l = append(l, n)
		}
	}
	d.Kids = l
}
