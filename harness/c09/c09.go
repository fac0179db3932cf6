// Package c09: client calls and their replies.
package c09

import (
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

var small = Lens{Str: []int{0, 1, 5}, Data: []int{0, 1, 6}, N: []int{0, 1, 2}, Elem: []int{0, 3}}
var large = Lens{Str: []int{255, 256, 65535}, Data: []int{255, 256, 8192, 65535, 65536, 70000, 1<<24 + 3}, N: []int{16, 17, 300}, Elem: []int{2}}
var tiny = Lens{Str: []int{2}, Data: []int{3}, N: []int{1}, Elem: []int{2}}

func size(typ int) int {
	n := 0
	for _, k := range Spec(typ) {
		n += [...]int{1, 2, 4, 8, 2, 4, 2, 2, 13, 2}[k]
	}
	return n
}

func good(typ int, lt, lr Lens, trace bool) {
	with(typ, Gen(typ, "t", lt), Gen(typ+1, "r", lr), []int{0, 4}, trace, false)
}

func with(typ int, req, res []F, errs []int, trace, again bool) {
	nm := Name(typ)
	cl, c := Dial(trace, 3)
	ch := Go(cl, typ, req)
	tag := WantRequest(c.Recv(), typ, req)
	fails := len(errs) > 0 && vnd.Choose("fails", 2) == 1
	if fails {
		text := BigStr("err", errs[vnd.Choose("errlen", len(errs))])
		c.Send(Encode(Rerror, tag, []F{StrF(text)}))
		r := <-ch
		vnd.Assert(r.Err != nil, nm+": an error reply is taken as success")
		vnd.Assert(r.Err.Error() == text, nm+": the error has another text than the error reply")
		vnd.Cover(nm + " failed")
	} else {
		c.Send(Encode(typ+1, tag, res))
		r := <-ch
		vnd.Assert(r.Err == nil, nm+": fails although the reply is good")
		vnd.Assert(EqFs(r.F, res), nm+": returns other values than the reply's")
		if again {
			ch := Go(cl, typ, req)
			tag := WantRequest(c.Recv(), typ, req)
			next := Cp(res)
			for i := range next {
				if len(next[i].B) > 0 {
					next[i].B[0] ^= 0xff
				}
				for j := range next[i].QQ {
					next[i].QQ[j].P ^= 0xff
				}
			}
			c.Send(Encode(typ+1, tag, next))
			r2 := <-ch
			vnd.Assert(r2.Err == nil && EqFs(r2.F, next), nm+": the second time returns other values than the reply's")
			still([]held{of(nm, r.F, res)})
			vnd.Cover(nm + " again")
		}
		vnd.Cover(nm + " done")
	}
	vnd.Assert(len(c.Rest()) == 0, nm+": more than one request is sent")
}

// C09_Good: every call with arbitrary arguments and replies.
func C09_Good() {
	vnd.Bound("client: every call, every value of every number, strings of 0, 1 and 5 bytes, data of 0, 1 and 6 bytes, 0-2 names and qids in requests and replies; error replies of 0 and 4 bytes; with and without Trace")
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	if vnd.Choose("vary", 2) == 0 {
		good(typ, small, tiny, vnd.Choose("trace", 2) == 1)
	} else {
		good(typ, tiny, small, false)
	}
}

// C09_Big: large arguments and replies.
func C09_Big() {
	vnd.Bound("client: strings of 255, 256 and 65535 bytes, data of 255 to 70000 and 2^24+3 bytes, 16, 17 and 300 names and qids")
	if vnd.Choose("what", 2) == 0 {
		ts := []int{Tattach, Twalk, Tcreate, Twrite, Twstat}
		good(ts[vnd.Choose("type", len(ts))], large, tiny, false)
	} else {
		ts := []int{Tversion, Twalk, Tread, Tstat}
		good(ts[vnd.Choose("type", len(ts))], tiny, large, false)
	}
}

// C09_Lengths: one field at a time, of many lengths.
func C09_Lengths() {
	vnd.Bound("client: every variable field of every request and reply in turn: strings and data of 0-34 bytes, 2^6 to 2^15 and one more or less, 8168-8194, 65534 and 65535; each name likewise; numbers of names and qids likewise up to 1025, and 65535; error texts likewise; each call but those made twice, with another reply the second time")
	sw := Sweep()
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	n := sw[vnd.Choose("len", len(sw))]
	req, res := Gen(typ, "t", tiny), Gen(typ+1, "r", tiny)
	var errs []int
	switch vnd.Choose("what", 3) {
	case 0:
		req = GenOne(typ, "t", vnd.Choose("field", 10), n)
		vnd.Assume(req != nil)
	case 1:
		res = GenOne(typ+1, "r", vnd.Choose("field", 2), n)
		vnd.Assume(res != nil)
	case 2:
		vnd.Assume(typ == Tstat)
		errs = []int{n}
	}
	with(typ, req, res, errs, false, errs == nil)
}

var counts = []int{0, 1, 2, 3, 16, 17, 256, 4096, 65535}

// C09_Any: replies of arbitrary type and content.
func C09_Any() {
	extra := 6
	if vnd.Config("tier", 0) > 0 {
		extra = 20
	}
	vnd.Bound("client: every call, answered by a message of its own reply type, Rerror, or any other type byte, with every body from 0 bytes to the fixed part + 6 (thorough: 20) bytes; numbers of qids 0-3, 16, 17, 256, 4096, 65535")
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	nm := Name(typ)
	req := Gen(typ, "t", tiny)
	cl, c := Dial(false, 3)
	ch := Go(cl, typ, req)
	tag := WantRequest(c.Recv(), typ, req)
	rt := typ + 1
	t := byte(rt)
	switch vnd.Choose("reply", 3) {
	case 1:
		rt, t = Rerror, Rerror
	case 2:
		t = vnd.U8("t")
		vnd.Assume(vnd.And(t != byte(typ+1), t != Rerror))
	}
	b := vnd.Bytes("b", vnd.Choose("len", size(rt)+extra+1))
	if rt == Rwalk && len(b) >= 2 {
		n := counts[vnd.Choose("qids", len(counts))]
		b[0], b[1] = byte(n), byte(n>>8)
	}
	c.Send(append([]byte{byte(len(b) + 7), 0, 0, 0, t, byte(tag), byte(tag >> 8)}, b...))
	r := <-ch
	if t == Rerror {
		vnd.Assert(r.Err != nil, nm+": an error reply is taken as success")
		if f, ok := Decode(Rerror, b); ok {
			vnd.Assert(r.Err.Error() == f[0].S, nm+": the error has another text than the error reply")
			vnd.Cover("error")
		} else {
			vnd.Cover("malformed error")
		}
		return
	}
	if t != byte(typ+1) {
		vnd.Assert(r.Err != nil, nm+": a reply of another type is taken as success")
		vnd.Cover("wrong type")
		return
	}
	if f, ok := Decode(typ+1, b); ok {
		vnd.Assert(r.Err == nil, nm+": fails although the reply is good")
		vnd.Assert(EqFs(r.F, f), nm+": returns other values than the reply's")
		vnd.Cover(nm + " good")
	} else {
		vnd.Assert(r.Err != nil, nm+": a malformed reply is taken as success")
		vnd.Cover(nm + " malformed")
	}
}

// C09_Size: a reply with an impossible size.
func C09_Size() {
	vnd.Bound("client: every call, answered by its own reply type with a size of 0 to 6")
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	req := Gen(typ, "t", tiny)
	cl, c := Dial(false, 3)
	ch := Go(cl, typ, req)
	tag := WantRequest(c.Recv(), typ, req)
	c.Send([]byte{byte(vnd.Choose("size", 7)), 0, 0, 0, byte(typ + 1), byte(tag), byte(tag >> 8)})
	c.End()
	r := <-ch
	vnd.Assert(r.Err != nil, Name(typ)+": a reply with a size below 7 is taken as success")
	vnd.Cover("size")
}

// held are the results of a call, and what they were.
type held struct {
	nm       string
	got, res []F
}

func of(nm string, got, res []F) held { return held{nm, got, res} }

// still checks that results are still what they were.
func still(hs []held) {
	for _, h := range hs {
		vnd.Assert(EqFs(h.got, h.res), h.nm+": what the call returned changes when other replies come")
	}
}

// C09_Sequence: calls one after another.
func C09_Sequence() {
	n := 3
	if vnd.Config("tier", 0) > 0 {
		n = 4
	}
	vnd.Bound("client: sequences of 3 (thorough: 4) calls of any types, one after the other, with a pool of 2 tags; each succeeding or failing")
	cl, c := Dial(false, 2)
	var held []held
	for i := 0; i < n; i++ {
		typ := TTypes[vnd.Choose("type", len(TTypes))]
		nm := Name(typ)
		req := Gen(typ, "t", tiny)
		res := Gen(typ+1, "r", tiny)
		ch := Go(cl, typ, req)
		tag := WantRequest(c.Recv(), typ, req)
		if vnd.Choose("fails", 2) == 1 {
			s := vnd.Str("err", 2)
			c.Send(Encode(Rerror, tag, []F{StrF(s)}))
			r := <-ch
			vnd.Assert(r.Err != nil && r.Err.Error() == s, nm+": the error reply is not what the call returns")
		} else {
			c.Send(Encode(typ+1, tag, res))
			r := <-ch
			vnd.Assert(r.Err == nil && EqFs(r.F, res), nm+": the call does not return the reply's values")
			held = append(held, of(nm, r.F, res))
		}
	}
	vnd.Assert(len(c.Rest()) == 0, "more requests than calls")
	still(held)
	vnd.Cover("sequence")
}

// C09_Long: many calls on one client.
func C09_Long() {
	n := 200
	if vnd.Config("tier", 0) > 0 {
		n = 2000
	}
	vnd.Bound("client: 200 (thorough: 2000) calls, of all types in turn or all of one type, one after another, with a pool of 2 or (in turn) 65534 tags; every third of the first half fails")
	one := vnd.Choose("type", len(TTypes)+1)
	tags := 2
	if one == len(TTypes) && vnd.Choose("tags", 2) == 1 {
		tags = 65534
	}
	cl, c := Dial(false, tags)
	var held []held
	for i := 0; i < n; i++ {
		typ := TTypes[i%len(TTypes)]
		if one < len(TTypes) {
			typ = TTypes[one]
		}
		nm := Name(typ)
		req := Gen(typ, "t", tiny)
		res := Gen(typ+1, "r", tiny)
		ch := Go(cl, typ, req)
		tag := WantRequest(c.Recv(), typ, req)
		if i%3 == 2 && i < n/2 {
			c.Send(Encode(Rerror, tag, []F{StrF("no")}))
			r := <-ch
			vnd.Assert(r.Err != nil && r.Err.Error() == "no", nm+": the error reply is not what the call returns")
		} else {
			c.Send(Encode(typ+1, tag, res))
			r := <-ch
			vnd.Assert(r.Err == nil && EqFs(r.F, res), nm+": the call does not return the reply's values")
			held = append(held, of(nm, r.F, res))
		}
	}
	still(held)
	vnd.Cover("many calls")
}
