// Package c24: version negotiation.
package c24

import (
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

func one(s *S, v string) {
	m := vnd.U32("msize")
	r := s.Req(Tversion, U32F(m), StrF(v))
	if v == "9P2000" {
		r.OK("version 9P2000")
		vnd.Assert(r.F[1].S == "9P2000", "another version is answered")
		vnd.Assert(uint32(r.F[0].U) <= m, "the message size is above the one offered")
		vnd.Cover("accepted")
		return
	}
	r.Refused("another version than 9P2000")
	vnd.Cover("refused")
}

// C24_Any: any version string.
func C24_Any() {
	vnd.Bound("file server: version requests with every string of 0 to 8 bytes, 9P2000 followed by up to 3 arbitrary bytes, and any message size; with the debug layer and without; as the first request")
	Tree()
	s := Connect(Listener("/r", vnd.Choose("debug", 2) == 1, false))
	if vnd.Choose("suffix", 2) == 1 {
		one(s, "9P2000"+vnd.Str("suffix", vnd.Choose("n", 4)))
	} else {
		one(s, vnd.Str("version", vnd.Choose("len", 9)))
	}
}

// C24_Again: whatever came before.
func C24_Again() {
	vnd.Bound("file server: sequences of 2 version requests (strings of 6 arbitrary bytes, 9P2000.u or 9P2000, any message size), with an attach and an open between them or not")
	Tree()
	s := Connect(Listener("/r", false, false))
	ver := func() string {
		switch vnd.Choose("which", 3) {
		case 0:
			return "9P2000"
		case 1:
			return "9P2000.u"
		}
		return vnd.Str("version", 6)
	}
	one(s, ver())
	if vnd.Choose("between", 2) == 1 {
		if !s.Attach(1, "/f").Bad {
			s.Open(1, OREAD).OK("open")
		}
	}
	one(s, ver())
	vnd.Cover("again")
}

// C24_Long: version requests after other things.
func C24_Long() {
	n := 3
	if vnd.Config("tier", 0) > 0 {
		n = 4
	}
	vnd.Bound("file server: sequences of 3 (thorough: 4) of: version requests with 9P2000, 9P2000.u or a string of 6 arbitrary bytes and any message size, a malformed one, an attach, an open, a read or a message of an unknown type; on the first connection or on one accepted after another ended; debug layer on and off; then 9P2000 and another version")
	Tree()
	l := Listener("/r", vnd.Choose("debug", 2) == 1, false)
	s := Connect(l)
	if vnd.Choose("second", 2) == 1 {
		s.Version().OK("version")
		s.C.End()
		s.C.WaitClosed()
		vnd.Quiesce()
		s = Connect(l)
	}
	for i := 0; i < n; i++ {
		switch vnd.Choose("step", 8) {
		case 0:
			one(s, "9P2000")
		case 1:
			one(s, "9P2000.u")
		case 2:
			one(s, vnd.Str("version", 6))
		case 3:
			s.C.Send([]byte{10, 0, 0, 0, Tversion, 1, 0, 1, 2, 3})
			WantError(s.C.Recv(), 1, "a malformed version request")
		case 4:
			s.Attach(1, "/f")
		case 5:
			s.Open(1, OREAD)
		case 6:
			s.Read(1, 0, 10)
		case 7:
			s.C.Send([]byte{7, 0, 0, 0, 99, 1, 0})
			WantError(s.C.Recv(), 1, "a message of an unknown type")
		}
	}
	one(s, []string{"9P2000", "9P2001"}[vnd.Choose("last", 2)])
	vnd.Cover("after others")
}

// C24_Wide: long version strings.
func C24_Wide() {
	vnd.Bound("file server: version requests with a string of 9 to 20, 30, 64, 255, 256, 262, 1000, 6000 bytes that begins with 9P2000 or 8 arbitrary bytes, ends in 9P2000 or an arbitrary byte and has blanks, zeros or letters between, and any message size; then 9P2000")
	Tree()
	s := Connect(Listener("/r", vnd.Choose("debug", 2) == 1, false))
	lens := []int{9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 30, 64, 255, 256, 262, 1000, 6000}
	n := lens[vnd.Choose("len", len(lens))]
	v := "9P2000"
	if vnd.Choose("head", 2) == 1 {
		v = vnd.Str("head", 8)
	}
	tail := "9P2000"
	if n < 14 || vnd.Choose("tail", 2) == 1 {
		tail = vnd.Str("tail", 1)
	}
	c := []byte{' ', 0, '.', 'u'}[vnd.Choose("between", 4)]
	var b []byte
	for len(b) < n-len(v)-len(tail) {
		b = append(b, c)
	}
	one(s, v+string(b)+tail)
	one(s, "9P2000")
	vnd.Cover("refused")
}
