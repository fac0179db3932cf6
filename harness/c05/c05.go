// Package c05: nothing is served before the version is agreed.
package c05

import (
	p9 "github.com/Harvey-OS/ninep/protocol"
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

var tiny = Lens{Str: []int{2}, Data: []int{3}, N: []int{1}, Elem: []int{2}}

// any is an arbitrary complete message that is not a version request.
func any(tag uint16, lens ...int) []byte {
	if vnd.Choose("wellformed", 2) == 1 {
		typ := TTypes[1+vnd.Choose("type", len(TTypes)-1)]
		return Encode(typ, tag, Gen(typ, "t", tiny))
	}
	t := vnd.U8("t")
	vnd.Assume(t != Tversion)
	n := lens[vnd.Choose("len", len(lens))]
	b := append([]byte{byte(n + 7), 0, 0, 0, t, byte(tag), byte(tag >> 8)}, vnd.Bytes("body", n)...)
	return b
}

// C05_Before: messages before the first version request.
func C05_Before() {
	n := 2
	if vnd.Config("tier", 0) > 0 {
		n = 3
	}
	vnd.Bound("server: 1 to 2 (thorough: 3) messages before the version request, each well-formed of any type with arbitrary values, or of an arbitrary type byte with 0, 1, 4, 10 or 19 (after the first: 4) arbitrary bytes; with and without Trace; then the version request (after 1 message: any size and text) and a Tclunk")
	ns := &Rec{}
	c := Serve(ns, vnd.Choose("trace", 2) == 1)
	k := 1 + vnd.Choose("n", n)
	for i := 0; i < k; i++ {
		tag := vnd.U16("tag")
		if i == 0 {
			c.Send(any(tag, 0, 1, 4, 10, 19))
		} else {
			c.Send(any(tag, 4))
		}
		WantError(c.Recv(), tag, "a message before the version request")
		vnd.Assert(len(ns.Ops) == 0, "an operation is performed before the version request")
	}
	vnd.Cover("refused")
	if k == 1 {
		c.Send(Encode(Tversion, vnd.U16("vtag"), Gen(Tversion, "v", tiny)))
	} else {
		c.Send(Version())
	}
	r := c.Recv()
	vnd.Assert(r != nil && r[4] == Rversion, "the version request is not answered after others were refused")
	tag := vnd.U16("tag")
	req := Gen(Tclunk, "t", tiny)
	c.Send(Encode(Tclunk, tag, req))
	WantReply(c.Recv(), Rclunk, tag, nil, "a request after the version request")
	c.End()
	c.WaitClosed()
	vnd.Assert(len(ns.Ops) == 2 && ns.Ops[0].Typ == Tversion && ns.Ops[1].Typ == Tclunk, "what was refused before the version request is performed later")
	vnd.Assert(len(c.Rest()) == 0, "more replies than requests")
	vnd.Cover("served after")
}

// C05_Other: the version request of one connection does not lift it on another.
func C05_Other() {
	vnd.Bound("two connections of one listener: a version request on one, before or after the other was accepted, or on two that have ended by then, and arbitrary messages (as above) on the other")
	nss := []*Rec{}
	l, err := p9.NewListener(func() p9.NineServer {
		ns := &Rec{}
		nss = append(nss, ns)
		return ns
	})
	vnd.Assert(err == nil, "NewListener fails")
	late := vnd.Choose("late", 3)
	used := 1
	if late == 2 {
		used = 2
		for i := 0; i < 2; i++ {
			a := NewConn()
			vnd.Assert(l.Accept(a) == nil, "Accept fails")
			Versioned(a)
			a.End()
			a.WaitClosed()
			vnd.Quiesce()
		}
	}
	a, b := NewConn(), NewConn()
	if late < 2 {
		vnd.Assert(l.Accept(a) == nil, "Accept fails")
	}
	if late != 1 {
		vnd.Assert(l.Accept(b) == nil, "Accept fails")
	}
	if late < 2 {
		Versioned(a)
	}
	if late == 1 {
		vnd.Assert(l.Accept(b) == nil, "Accept fails")
	}
	tag := vnd.U16("tag")
	b.Send(any(tag, 0, 1, 4, 10, 19))
	WantError(b.Recv(), tag, "a message before the version request of its own connection")
	n := 0
	for _, ns := range nss {
		n += len(ns.Ops)
	}
	vnd.Assert(n == used, "an operation is performed on a connection without a version request")
	vnd.Cover("other")
}

// C05_Many: many messages, and large ones.
func C05_Many() {
	n := 120
	if vnd.Config("tier", 0) > 0 {
		n = 1200
	}
	vnd.Bound("server: 120 (thorough: 1200) well-formed and malformed messages of all types and arbitrary tags before the version request, one by one or 30 at a time, among them ones of 300, 8192, 65536 and 70000 bytes; then the version request lifts it for all 11 other types")
	ns := &Rec{}
	c := Serve(ns, false)
	batch := []int{1, 30}[vnd.Choose("batch", 2)]
	for i := 0; i < n; i += batch {
		var m []byte
		var tags []uint16
		for j := i; j < i+batch; j++ {
			tag := vnd.U16("tag")
			tags = append(tags, tag)
			typ := TTypes[1+j%(len(TTypes)-1)]
			x := Encode(typ, tag, Gen(typ, "t", tiny))
			switch {
			case j%29 == 28:
				x = Encode(Twrite, tag, []F{U32F(vnd.U32("fid")), U64F(0), DataF(BigBytes("data", []int{300, 8192, 65536, 70000}[j/29%4]))})
			case j%7 == 6:
				x[0]--
				x = x[:len(x)-1]
			case j%13 == 12:
				x[4] = []byte{0, 99, 102, 106, 107, 128, 255}[j/13%7]
			}
			m = append(m, x...)
		}
		c.Send(m)
		for _, tag := range tags {
			WantError(c.Recv(), tag, "a message before the version request")
		}
		vnd.Assert(len(ns.Ops) == 0, "an operation is performed before the version request")
	}
	Versioned(c)
	for i, typ := range TTypes[1:] {
		tag := vnd.U16("tag")
		req := Gen(typ, "t", tiny)
		c.Send(Encode(typ, tag, req))
		WantReply(c.Recv(), typ+1, tag, Zero(typ+1), "a request after the version request")
		vnd.Assert(len(ns.Ops) == i+2 && ns.Ops[i+1].Typ == typ && EqFs(ns.Ops[i+1].F, req), "a request after the version request is not performed as sent")
	}
	c.End()
	c.WaitClosed()
	vnd.Assert(len(c.Rest()) == 0, "more replies than requests")
	vnd.Cover("many")
}
