// Package c06: malformed and unknown requests.
package c06

import (
	"errors"

	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

func size(typ int) int {
	n := 0
	for _, k := range Spec(typ) {
		n += [...]int{1, 2, 4, 8, 2, 4, 2, 2, 13, 2}[k]
	}
	return n
}

func supported(t int) bool {
	for _, x := range TTypes {
		if x == t {
			return true
		}
	}
	return false
}

// after checks that the connection goes on working.
func after(c *Conn, ns *Rec, ops int) {
	tag := vnd.U16("tag2")
	fid := vnd.U32("fid2")
	c.Send(Encode(Tclunk, tag, []F{U32F(fid)}))
	WantReply(c.Recv(), Rclunk, tag, nil, "the request after a refused one")
	c.End()
	c.WaitClosed()
	vnd.Assert(len(ns.Ops) == ops+1 && ns.Ops[ops].Typ == Tclunk && ns.Ops[ops].F[0].U == uint64(fid), "the request after a refused one is not performed as sent")
	vnd.Assert(len(c.Rest()) == 0, "a refused request is answered more than once")
}

func refuse(msg []byte, tag uint16, what string, trace bool) {
	ns := &Rec{}
	c := Serve(ns, trace)
	Versioned(c)
	c.Send(msg)
	WantError(c.Recv(), tag, what)
	vnd.Assert(len(ns.Ops) == 1, what+": an operation is performed")
	after(c, ns, 1)
}

func msg(typ byte, tag uint16, body []byte) []byte {
	b := []byte{0, 0, 0, 0, typ, byte(tag), byte(tag >> 8)}
	b = append(b, body...)
	n := len(b)
	b[0], b[1], b[2], b[3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
	return b
}

var counts = []int{0, 1, 2, 3, 16, 17, 256, 4096, 65535}

// C06_Malformed: bodies that do not decode.
func C06_Malformed() {
	extra := 4
	if vnd.Config("tier", 0) > 0 {
		extra = 7
	}
	vnd.Bound("server: requests of all 12 types with every body from 0 bytes to the fixed part + 4 (thorough: 7) bytes that is not a well-formed one; numbers of names 0-3, 16, 17, 256, 4096, 65535")
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	b := vnd.Bytes("b", vnd.Choose("len", size(typ)+extra+1))
	if typ == Twalk && len(b) >= 10 {
		n := counts[vnd.Choose("names", len(counts))]
		b[8], b[9] = byte(n), byte(n>>8)
	}
	_, ok := Decode(typ, b)
	vnd.Assume(!ok)
	tag := vnd.U16("tag")
	refuse(msg(byte(typ), tag, b), tag, Name(typ)+" malformed", false)
	vnd.Cover(Name(typ))
}

// C06_Changed: a well-formed request cut short, lengthened, or with one byte
// of its body changed such that it is malformed.
func C06_Changed() {
	vnd.Bound("server: well-formed requests (strings of 3 bytes, data of 4, 2 names) cut at every length, or with 1 to 3 bytes appended; with and without Trace")
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	tag := vnd.U16("tag")
	body := Encode(typ, tag, Gen(typ, "t", Lens{Str: []int{3}, Data: []int{4}, N: []int{2}, Elem: []int{3}}))[7:]
	if vnd.Choose("longer", 2) == 1 {
		body = append(body, vnd.Bytes("more", 1+vnd.Choose("nmore", 3))...)
		vnd.Cover("longer")
	} else {
		body = body[:vnd.Choose("cut", len(body))]
		vnd.Cover("shorter")
	}
	refuse(msg(byte(typ), tag, body), tag, Name(typ)+" cut or lengthened", vnd.Choose("trace", 2) == 1)
}

// C06_Unknown: types that are not requests the server supports.
func C06_Unknown() {
	vnd.Bound("server: every type byte that is not one of the 12 requests, with 0, 2, 13 or 20 arbitrary bytes; with and without Trace")
	t := vnd.U8("t")
	for _, x := range TTypes {
		vnd.Assume(t != byte(x))
	}
	tag := vnd.U16("tag")
	n := []int{0, 2, 13, 20}[vnd.Choose("len", 4)]
	refuse(msg(t, tag, vnd.Bytes("b", n)), tag, "a message of an unsupported type", vnd.Choose("trace", 2) == 1)
	vnd.Cover("unknown")
}

// C06_Two: two bad requests in a row.
func C06_Two() {
	vnd.Bound("server: two malformed or unsupported requests in a row")
	ns := &Rec{}
	c := Serve(ns, false)
	Versioned(c)
	for i := 0; i < 2; i++ {
		tag := vnd.U16("tag")
		if vnd.Choose("kind", 2) == 0 {
			t := []byte{0, 99, Tauth, Rerror, Ropen, Rwstat, 128, 255}[vnd.Choose("t", 8)]
			c.Send(msg(t, tag, vnd.Bytes("b", 4)))
		} else {
			typ := TTypes[vnd.Choose("type", len(TTypes))]
			b := vnd.Bytes("b", []int{0, 1, size(typ) - 1}[vnd.Choose("len", 3)])
			c.Send(msg(byte(typ), tag, b))
		}
		WantError(c.Recv(), tag, "one of several bad requests")
		vnd.Assert(len(ns.Ops) == 1, "a bad request performs an operation")
	}
	after(c, ns, 1)
	vnd.Cover("two")
}

// C06_Size: a size that cannot be: the message is never acted on.
func C06_Size() {
	vnd.Bound("server: sizes 0 to 6 with every type byte: an error reply or a closed connection, and nothing performed")
	ns := &Rec{}
	c := Serve(ns, false)
	Versioned(c)
	t := vnd.U8("t")
	tag := vnd.U16("tag")
	c.Send([]byte{byte(vnd.Choose("size", 7)), 0, 0, 0, t, byte(tag), byte(tag >> 8)})
	c.End()
	if r := c.Recv(); r != nil {
		WantError(r, tag, "a message with an impossible size")
		vnd.Cover("answered")
	}
	c.WaitClosed()
	vnd.Assert(len(ns.Ops) == 1, "a message with an impossible size performs an operation")
	vnd.Assert(len(c.Rest()) == 0, "a message with an impossible size is answered more than once")
}

// bad is a message that is malformed or of a type that is not supported.
func bad(k int, tag uint16) []byte {
	b := vnd.Bytes("bad", 4)
	switch k {
	case 0: // cut short
		return msg(Twalk, tag, b)
	case 1: // a count past the end
		return msg(Twrite, tag, append([]byte{1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 0}, b...))
	case 2: // too long
		return msg(Tclunk, tag, append(b, 1))
	case 3:
		return msg(Tauth, tag, append(b, 0, 0, 0, 0))
	}
	return msg(Rerror, tag, []byte{2, 0, b[0], b[1]})
}

// C06_Mixed: good and bad requests in turn.
func C06_Mixed() {
	n := 3
	if vnd.Config("tier", 0) > 0 {
		n = 4
	}
	vnd.Bound("server: sequences of 3 (thorough: 4) messages, each a good request of one of 5 types (performed with or without an error) or bad in one of 5 ways, sent one by one or all at once: each is performed or refused as if it were alone")
	ns := &Rec{}
	c := Serve(ns, false)
	Versioned(c)
	ns.Ops = nil
	type x struct {
		typ  int
		tag  uint16
		f, r []F
		err  error
	}
	var xs []x
	var good []x
	var all []byte
	once := vnd.Choose("atonce", 2) == 1
	k := 0
	ns.Do = func(int, []F) ([]F, error) { k++; return good[k-1].r, good[k-1].err }
	one := func(v x) {
		m := c.Recv()
		switch {
		case v.typ == 0:
			WantError(m, v.tag, "a bad request among others")
		case v.err != nil:
			vnd.Assert(WantError(m, v.tag, "a failing request among others") == v.err.Error(), "another error text")
		default:
			WantReply(m, v.typ+1, v.tag, v.r, "a good request among others")
		}
	}
	tiny := Lens{Str: []int{2}, Data: []int{3}, N: []int{1}, Elem: []int{2}}
	for i := 0; i < n; i++ {
		v := x{tag: vnd.U16("tag")}
		var m []byte
		if g := vnd.Choose("kind", 15); g < 10 {
			v.typ = []int{Tattach, Twalk, Tread, Twrite, Tclunk}[g/2]
			v.f, v.r = Gen(v.typ, "t", tiny), Gen(v.typ+1, "r", tiny)
			if g%2 == 1 {
				v.err = errors.New(vnd.Str("err", 3))
			}
			good = append(good, v)
			m = Encode(v.typ, v.tag, v.f)
		} else {
			m = bad(g-10, v.tag)
		}
		xs = append(xs, v)
		if once {
			all = append(all, m...)
			continue
		}
		c.Send(m)
		one(v)
	}
	if once {
		c.Send(all)
		for _, v := range xs {
			one(v)
		}
	}
	c.End()
	c.WaitClosed()
	vnd.Assert(len(c.Rest()) == 0, "more replies than requests")
	vnd.Assert(len(ns.Ops) == len(good), "not exactly the good requests are performed")
	for i, v := range good {
		vnd.Assert(ns.Ops[i].Typ == v.typ && EqFs(ns.Ops[i].F, v.f), "a good request among bad ones is performed with other arguments than sent")
	}
	vnd.Cover("mixed")
}

// C06_Large: large bad messages.
func C06_Large() {
	vnd.Bound("server: messages with a body of 250, 505, 4096, 8192, 65529, 65536, 70000, 131072 and 2^24 bytes (arbitrary at both ends and in the middle) that are of an unsupported type (any byte) or a request of any type that is malformed: a Twrite whose count is one less or more, a Twstat or Twalk whose count is one less, any other request")
	n := []int{250, 505, 4096, 8192, 65529, 65536, 70000, 131072, 1 << 24}[vnd.Choose("size", 9)]
	b := BigBytes("b", n)
	t := vnd.U8("t")
	switch vnd.Choose("what", 4) {
	case 0:
		for _, x := range TTypes {
			vnd.Assume(t != byte(x))
		}
	case 1:
		t = Twrite
		k := n - 16 + []int{-1, 1}[vnd.Choose("count", 2)]
		b[12], b[13], b[14], b[15] = byte(k), byte(k>>8), byte(k>>16), byte(k>>24)
	case 2:
		t = []byte{Twstat, Twalk}[vnd.Choose("t", 2)]
		vnd.Assume(n < 65536)
		k := n - 7
		if t == Twalk {
			k = 1
			b[10], b[11] = byte((n-13)&255), byte((n-13)>>8)
		}
		b[4], b[5] = byte(k), byte(k>>8)
		if t == Twalk {
			b[8], b[9] = 1, 0
		}
	case 3:
		t = []byte{Tflush, Topen, Tread, Tclunk, Tremove, Tstat}[vnd.Choose("t", 6)]
	}
	tag := vnd.U16("tag")
	refuse(msg(t, tag, b), tag, "a large bad message", false)
	vnd.Cover("large")
}

// C06_Many: many bad messages.
func C06_Many() {
	n := 300
	if vnd.Config("tier", 0) > 0 {
		n = 3000
	}
	vnd.Bound("server: 300 (thorough: 3000) bad messages, each of one of 5 kinds or all 5 in turn, with a good one after every one, every 40 or none, one by one or 20 at a time")
	ns := &Rec{}
	c := Serve(ns, false)
	Versioned(c)
	ns.Ops = nil
	every := []int{1, 40, n + 1}[vnd.Choose("every", 3)]
	batch := []int{1, 20}[vnd.Choose("batch", 2)]
	kind := vnd.Choose("kind", 6)
	k := 0
	for i := 0; i < n; i += batch {
		var m []byte
		var tags []uint16
		for j := i; j < i+batch; j++ {
			tag := vnd.U16("tag")
			tags = append(tags, tag)
			x := kind
			if kind == 5 {
				x = j % 5
			}
			m = append(m, bad(x, tag)...)
			if j%every == every-1 {
				m = append(m, Encode(Tclunk, tag, []F{U32F(uint32(j))})...)
			}
		}
		c.Send(m)
		for j := i; j < i+batch; j++ {
			WantError(c.Recv(), tags[j-i], "one of many bad requests")
			if j%every == every-1 {
				WantReply(c.Recv(), Rclunk, tags[j-i], nil, "a good request among many bad ones")
				k++
			}
			vnd.Assert(batch > 1 || len(ns.Ops) == k, "not exactly the good requests are performed")
		}
	}
	vnd.Assert(len(ns.Ops) == k, "not exactly the good requests are performed")
	after(c, ns, k)
	vnd.Cover("many")
}
