// Package c08: nothing a client sends crashes the file server.
package c08

import (
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

// begin is a session with fids in several states: 1 the root, 2 an open
// directory, 3 an open file, 4 a file that is not open.
func begin(debug, trace bool) *S {
	Tree()
	s := Debug("/r", debug, trace)
	s.Attach(1, "").OK("attach")
	s.Attach(2, "/d").OK("attach")
	s.Open(2, OREAD).OK("open")
	s.Attach(3, "/f").OK("attach")
	s.Open(3, ORDWR).OK("open")
	s.Attach(4, "/g").OK("attach")
	return s
}

// answered checks that a message is answered once, or the connection closed,
// and that the server still serves in the first case.
func answered(s *S, m []byte) {
	s.C.Send(m)
	r := s.C.Recv()
	if r == nil {
		vnd.Assert(s.C.IsClosed(), "a message is neither answered nor the connection closed")
		vnd.Cover("closed")
		return
	}
	vnd.Assert(len(m) < 7 || vnd.And(r[5] == m[5], r[6] == m[6]), "the reply has another tag")
	vnd.Assert(len(s.C.Rest()) == 0, "a message is answered twice")
	s.C.Send(Encode(Tversion, 77, []F{U32F(8192), StrF("9P2000")}))
	WantReply(s.C.Recv(), Rversion, 77, []F{U32F(8192), StrF("9P2000")}, "a version request after it")
	vnd.Cover("answered")
}

// C08_Bytes: any message body.
func C08_Bytes() {
	vnd.Bound("file server with fids open and not: one message of any type (all 256) with up to 12 arbitrary bytes after the tag; debug layer and Trace off, and on")
	on := vnd.Choose("on", 2) == 1
	s := begin(on, on)
	n := vnd.Choose("len", 13)
	typ := vnd.U8("type")
	body := vnd.Bytes("body", n)
	answered(s, Frame(typ, vnd.U16("tag"), body))
}

// Frame is a message with a correct size.
func Frame(typ uint8, tag uint16, body []byte) []byte {
	n := 7 + len(body)
	m := []byte{byte(n), byte(n >> 8), byte(n >> 16), 0, typ, byte(tag), byte(tag >> 8)}
	return append(m, body...)
}

// C08_Typed: longer bodies of each type.
func C08_Typed() {
	vnd.Bound("file server: each request type with 13 to 16 (thorough: 20) arbitrary bytes after the tag; debug layer and Trace off, and on")
	k := 4
	if vnd.Config("tier", 0) > 0 {
		k = 8
	}
	on := vnd.Choose("on", 2) == 1
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	n := 13 + vnd.Choose("len", k)
	s := begin(on, on)
	answered(s, Frame(uint8(typ), vnd.U16("tag"), vnd.Bytes("body", n)))
}

// C08_Size: any size field.
func C08_Size() {
	vnd.Bound("file server: any value of the size field with 6 (thorough: 9) arbitrary bytes following, then the end of the stream; before and after the version request; debug layer and Trace off, and on")
	on := vnd.Choose("on", 2) == 1
	Tree()
	s := Connect(Listener("/r", on, on))
	if vnd.Choose("versioned", 2) == 1 {
		s.Version().OK("version")
	}
	n := 10
	if vnd.Config("tier", 0) > 0 {
		n = 13
	}
	m := vnd.Bytes("bytes", n)
	s.C.Send(m)
	s.C.End()
	s.C.WaitClosed()
	vnd.Cover("ended")
}

// req is an arbitrary well-formed request.
func req(s *S) []byte {
	return reqOn(func() F {
		f := vnd.U32("fid")
		vnd.Assume(f < 7)
		return U32F(uint32(vnd.Pin(uint64(f))))
	})
}

func reqOn(fid func() F) []byte {
	typ := TTypes[1+vnd.Choose("type", len(TTypes)-1)]
	name := func() F {
		ns := []string{"", "x", "..", "e", "new", "/d/x", "\x00"}
		return StrF(ns[vnd.Choose("name", len(ns))])
	}
	var f []F
	switch typ {
	case Tattach:
		f = []F{fid(), U32F(vnd.U32("afid")), StrF(vnd.Str("uname", 1)), name()}
	case Tflush:
		f = []F{U16F(vnd.U16("oldtag"))}
	case Twalk:
		f = []F{fid(), fid(), StrsF(name().S)}
	case Topen:
		f = []F{fid(), U8F(vnd.U8("mode"))}
	case Tcreate:
		f = []F{fid(), name(), U32F(vnd.U32("perm")), U8F(vnd.U8("mode"))}
	case Tread:
		f = []F{fid(), U64F(vnd.U64("off")), U32F(vnd.U32("count"))}
	case Twrite:
		o := vnd.U64("off")
		vnd.Assume(vnd.Or(o < 3, o > 4096))
		f = []F{fid(), U64F(o), DataF(vnd.Bytes("data", 2))}
	case Tclunk, Tremove, Tstat:
		f = []F{fid()}
	case Twstat:
		d := DontTouch()
		d.Name = name().S
		d.Mode = vnd.U32("dmode")
		d.Length = vnd.U64("length")
		vnd.Assume(vnd.Or(d.Length < 3, d.Length > 16384))
		d.Mtime = vnd.U32("mtime")
		f = []F{fid(), D16F(DirBytes(d))}
	}
	return Encode(typ, vnd.U16("tag"), f)
}

// C08_Requests: sequences of well-formed requests with arbitrary values.
func C08_Requests() {
	vnd.Bound("file server: every well-formed request with arbitrary values (any fid of 0 to 6 of which 4 exist, 7 names, any mode, permission, offset, count, tag and attributes); thorough: every 2 of them; with any host call failing in the first")
	n := 1
	if vnd.Config("tier", 0) > 0 {
		n = 2
	}
	on := n == 1 && vnd.Choose("on", 2) == 1
	s := begin(on, on)
	fail := vnd.Choose("fail", 3)
	err := error(ErrNet)
	if n == 1 && !on && fail > 0 {
		err = HostErr()
	}
	i := 0
	vos.Fail = func(*vos.Call) error {
		i++
		if i == fail {
			return err
		}
		return nil
	}
	for k := 0; k < n-1; k++ {
		s.C.Send(req(s))
		vnd.Assert(s.C.Recv() != nil, "the connection is closed instead of a reply")
		vos.Fail = nil
	}
	answered(s, req(s))
}

// first is one of the usual requests on a fid, with usual values.
func first(fid uint32) []byte {
	f := U32F(fid)
	wst := func(ch func(d *Dir)) []byte {
		d := DontTouch()
		ch(&d)
		return Encode(Twstat, 9, []F{f, D16F(DirBytes(d))})
	}
	switch vnd.Choose("first", 20) {
	case 0:
		return Encode(Topen, 9, []F{f, U8F(OREAD)})
	case 1:
		return Encode(Topen, 9, []F{f, U8F(ORDWR | OTRUNC)})
	case 2:
		return Encode(Tcreate, 9, []F{f, StrF("new"), U32F(0644), U8F(ORDWR)})
	case 3:
		return Encode(Tcreate, 9, []F{f, StrF("new"), U32F(0x800001ed), U8F(OREAD)})
	case 4:
		return Encode(Tread, 9, []F{f, U64F(0), U32F(10)})
	case 5:
		return Encode(Tread, 9, []F{f, U64F(0), U32F(8192)})
	case 6:
		return Encode(Tread, 9, []F{f, U64F(100), U32F(8192)})
	case 7:
		return Encode(Twrite, 9, []F{f, U64F(1), DataF([]byte("ab"))})
	case 8:
		return Encode(Tclunk, 9, []F{f})
	case 9:
		return Encode(Tremove, 9, []F{f})
	case 10:
		return Encode(Tstat, 9, []F{f})
	case 11:
		return wst(func(d *Dir) { d.Name = "moved" })
	case 12:
		return wst(func(d *Dir) { d.Name = "/moved" })
	case 13:
		return wst(func(d *Dir) { d.Mode = 0 })
	case 14:
		return wst(func(d *Dir) { d.Length = 1 })
	case 15:
		return wst(func(d *Dir) {})
	case 16:
		return Encode(Twalk, 9, []F{f, f, StrsF("..")})
	case 17:
		return Encode(Twalk, 9, []F{f, f, StrsF("d", "x")})
	case 18:
		return Encode(Twalk, 9, []F{f, U32F(5), StrsF()})
	}
	return Encode(Tversion, 9, []F{U32F(8192), StrF("9P2000")})
}

// C08_Pairs: two requests on the same file.
func C08_Pairs() {
	vnd.Bound("file server: one of 20 usual requests on each of 4 fids (root, open directory, open file, file), with no host call, the first or the second one failing, then a well-formed request of any type with arbitrary values on the same fid, or on fid 5 that may be its clone")
	s := begin(false, false)
	fail := vnd.Choose("fail", 3)
	i := 0
	vos.Fail = func(*vos.Call) error {
		i++
		if i == fail {
			return ErrNet
		}
		return nil
	}
	fid := uint32(1 + vnd.Choose("on", 4))
	s.C.Send(first(fid))
	r := s.C.Recv()
	vnd.Assert(r != nil, "the connection is closed instead of a reply")
	vnd.Assume(fail <= i)
	vos.Fail = nil
	if r[4] == Rwalk && vnd.Choose("clone", 2) == 1 {
		fid = 5
	}
	answered(s, reqOn(func() F { return U32F(fid) }))
}

// text is a string of n bytes of one of some kinds.
func text(n, kind int) string {
	pat := []string{"a", "../", "\xff"}[kind]
	b := make([]byte, n)
	for i := range b {
		b[i] = pat[i%len(pat)]
	}
	return string(b)
}

// C08_Lengths: long fields.
func C08_Lengths() {
	vnd.Bound("file server with fids open and not, debug layer and Trace off, and on: every request with its strings, names, data and attribute strings in turn of 40 lengths from 0 to 65535 (letters, ../ repeated, or bytes 0xff), walks of 0 to 1025 names (d, .., or the empty one), other values arbitrary")
	lens := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 8168, 8192, 65534, 65535}
	on := vnd.Choose("on", 2) == 1
	n := lens[vnd.Choose("len", len(lens))]
	what := vnd.Choose("what", 10)
	kind := 0
	if what != 3 && what != 5 {
		kind = vnd.Choose("kind", 3)
	}
	s := begin(on, on)
	vos.Anywhere = func(c *vos.Call, b []byte) (int, error) { return len(b), nil }
	fid := func() F { return U32F(uint32(1 + vnd.Choose("fid", 4))) }
	var m []byte
	switch what {
	case 0:
		m = Encode(Tversion, 9, []F{U32F(vnd.U32("msize")), StrF(text(n, kind))})
	case 1:
		m = Encode(Tattach, 9, []F{U32F(5), U32F(NOFID), StrF(text(n, kind)), StrF("")})
	case 2:
		m = Encode(Tattach, 9, []F{U32F(5), U32F(NOFID), StrF(""), StrF(text(n, kind))})
	case 3:
		m = Encode(Twrite, 9, []F{fid(), U64F(vnd.U64("off")), DataF([]byte(text(n, 2)))})
	case 4:
		m = Encode(Twalk, 9, []F{U32F(1), U32F(5), StrsF("d", text(n, kind), "e")})
	case 5: // many names
		if n > 1100 {
			vnd.Assume(false)
		}
		nm := []string{"", "..", "d"}[vnd.Choose("name", 3)]
		ss := make([]string, n)
		for i := range ss {
			ss[i] = nm
		}
		m = Encode(Twalk, 9, []F{U32F(uint32(1 + vnd.Choose("from", 4))), U32F(5), StrsF(ss...)})
	case 6:
		m = Encode(Tcreate, 9, []F{U32F(1), StrF(text(n, kind)), U32F(vnd.U32("perm")), U8F(vnd.U8("mode"))})
	case 7:
		m = Encode(Twstat, 9, []F{fid(), D16F([]byte(text(n, kind)))})
	default:
		if n > 65400 {
			n = 65400
		}
		d := DontTouch()
		t := text(n, kind)
		switch vnd.Choose("string", 3) {
		case 0:
			d.Name = t
		case 1:
			d.User = t
		case 2:
			d.ModUser = t
		}
		if what == 9 {
			d.Mode = 0600
		}
		m = Encode(Twstat, 9, []F{fid(), D16F(DirBytes(d))})
	}
	answered(s, m)
}

// C08_Long: any request after a long session.
func C08_Long() {
	n := 60
	if vnd.Config("tier", 0) > 0 {
		n = 1500
	}
	vnd.Bound("file server with 60 (thorough: 1500) fids in use, 3 in 5 of them open, and a directory of 14 files: a well-formed request of any type with arbitrary values on any of 5 of the fids, closing files failing on the host or not; debug layer and Trace off, and on")
	on := vnd.Choose("on", 2) == 1
	bad := on
	Tree()
	s := Debug("/r", on, on)
	fids := s.Many(n, func(int) bool { return bad })
	k := vnd.Choose("fid", 5)
	answered(s, reqOn(func() F { return U32F(fids[len(fids)-5+k]) }))
}
