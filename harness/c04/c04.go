// Package c04: requests are performed once, as sent, and answered once.
package c04

import (
	"errors"

	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

var small = Lens{Str: []int{0, 1, 5}, Data: []int{0, 1, 6}, N: []int{0, 1, 2}, Elem: []int{0, 3}}
var large = Lens{Str: []int{255, 256, 65535}, Data: []int{255, 256, 8192, 65535, 65536, 70000, 1<<24 + 3}, N: []int{16, 17, 300}, Elem: []int{2}}
var tiny = Lens{Str: []int{2}, Data: []int{3}, N: []int{1}, Elem: []int{2}}

// one performs one request on a versioned connection.
func one(typ int, lt, lr Lens, errs []int, trace bool) {
	with(typ, Gen(typ, "t", lt), Gen(typ+1, "r", lr), errs, trace)
}

func with(typ int, req, res []F, errs []int, trace bool) {
	nm := Name(typ)
	tag := vnd.U16("tag")
	var opErr error
	text := ""
	if len(errs) > 0 && vnd.Choose("fails", 2) == 1 {
		text = BigStr("err", errs[vnd.Choose("errlen", len(errs))])
		opErr = errors.New(text)
	}
	ns := &Rec{}
	c := Serve(ns, trace)
	Versioned(c)
	vnd.Assert(len(ns.Ops) == 1 && ns.Ops[0].Typ == Tversion, "the version request is not performed exactly once")
	ns.Do = func(int, []F) ([]F, error) { return res, opErr }
	c.Send(Encode(typ, tag, req))
	got := c.Recv()
	if opErr != nil {
		if len(text) > 65535 {
			text = text[:65535]
		}
		s := WantError(got, tag, nm)
		vnd.Assert(s == text, nm+": the error reply has another text than the error")
		vnd.Cover(nm + " failed")
	} else {
		WantReply(got, typ+1, tag, res, nm)
		vnd.Cover(nm + " done")
	}
	c.End()
	c.WaitClosed()
	vnd.Assert(len(ns.Ops) == 2, nm+": not performed exactly once")
	vnd.Assert(ns.Ops[1].Typ == typ, nm+": another operation is performed")
	vnd.Assert(EqFs(ns.Ops[1].F, req), nm+": performed with other arguments than sent")
	vnd.Assert(len(c.Rest()) == 0, nm+": more than one reply")
}

// C04_One: every request type, small sizes, all results and errors.
func C04_One() {
	vnd.Bound("server: one request of each of the 12 types, every value of every number, strings of 0, 1 and 5 bytes, data of 0, 1 and 6 bytes, 0-2 names and qids; operation results likewise; error texts of 0 and 4 bytes; with and without a Trace function")
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	one(typ, small, small, []int{0, 4}, vnd.Choose("trace", 2) == 1)
}

// C04_Big: large requests, results and error texts.
func C04_Big() {
	vnd.Bound("server: strings of 255, 256 and 65535 bytes, data of 255 to 70000 and 2^24+3 bytes, 16, 17 and 300 names and qids, error texts of 65535, 65536 and 70000 bytes (arbitrary bytes at both ends and in the middle)")
	switch vnd.Choose("what", 3) {
	case 0:
		ts := []int{Tattach, Twalk, Tcreate, Twrite, Twstat}
		one(ts[vnd.Choose("type", len(ts))], large, tiny, nil, false)
	case 1:
		ts := []int{Tversion, Twalk, Tread, Tstat}
		one(ts[vnd.Choose("type", len(ts))], tiny, large, nil, false)
	case 2:
		one(TTypes[vnd.Choose("type", len(TTypes))], tiny, tiny, []int{65535, 65536, 70000}, false)
	}
}

// C04_Lengths: one field at a time, of many lengths.
func C04_Lengths() {
	vnd.Bound("server: every variable field of every request and result in turn: strings and data of 0-34 bytes, 2^6 to 2^15 and one more or less, 8168-8194, 65534 and 65535; each name likewise; numbers of names and qids likewise up to 1025, and 65535; error texts likewise")
	sw := Sweep()
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	n := sw[vnd.Choose("len", len(sw))]
	req, res := Gen(typ, "t", tiny), Gen(typ+1, "r", tiny)
	var errs []int
	switch vnd.Choose("what", 3) {
	case 0:
		req = GenOne(typ, "t", vnd.Choose("field", 10), n)
		vnd.Assume(req != nil)
	case 1:
		res = GenOne(typ+1, "r", vnd.Choose("field", 2), n)
		vnd.Assume(res != nil)
	case 2:
		vnd.Assume(typ == Tstat)
		errs = []int{n}
	}
	with(typ, req, res, errs, false)
}

// C04_Errors: operations that fail with errors of every kind.
func C04_Errors() {
	vnd.Bound("server: one request of each of the 12 types whose operation fails with an error of 33 kinds (end of file, not found, closed, timeout, cancelled, wrapped, joined, not comparable, empty text, a text of format verbs, ...) together with any or no results; with and without a Trace function")
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	nm := Name(typ)
	tag := vnd.U16("tag")
	req := Gen(typ, "t", tiny)
	var res []F
	if vnd.Choose("results", 2) == 1 {
		res = Gen(typ+1, "r", tiny)
	}
	err := AnyError()
	ns := &Rec{}
	c := Serve(ns, vnd.Choose("trace", 2) == 1)
	Versioned(c)
	ns.Do = func(int, []F) ([]F, error) { return res, err }
	c.Send(Encode(typ, tag, req))
	vnd.Assert(WantError(c.Recv(), tag, nm) == err.Error(), nm+": the error reply has another text than the error")
	c.End()
	c.WaitClosed()
	vnd.Assert(len(ns.Ops) == 2, nm+": not performed exactly once")
	vnd.Assert(len(c.Rest()) == 0, nm+": more than one reply")
	vnd.Cover("failed")
}

// C04_Sequence: several requests, one by one or all at once: replies in order,
// each with its own results.
func C04_Sequence() {
	n := 2
	if vnd.Config("tier", 0) > 0 {
		n = 3
	}
	vnd.Bound("server: sequences of 2 (thorough: 3) requests of any types after the version request, sent one by one or all at once, each operation failing or not, replies compared one by one")
	ns := &Rec{}
	c := Serve(ns, false)
	type want struct {
		typ int
		tag uint16
		f   []F
	}
	var ws []want
	var reqs []Op
	var resF [][]F
	var resE []error
	for i := 0; i < n; i++ {
		typ := TTypes[vnd.Choose("type", len(TTypes))]
		req := Gen(typ, "t", tiny)
		tag := vnd.U16("tag")
		res := Gen(typ+1, "r", tiny)
		reqs = append(reqs, Op{typ, req})
		resF = append(resF, res)
		if vnd.Choose("fails", 2) == 1 {
			s := vnd.Str("err", 2)
			resE = append(resE, errors.New(s))
			ws = append(ws, want{Rerror, tag, []F{StrF(s)}})
		} else {
			resE = append(resE, nil)
			ws = append(ws, want{typ + 1, tag, res})
		}
	}
	Versioned(c)
	k := 0
	ns.Do = func(int, []F) ([]F, error) {
		i := k
		k++
		if i >= n {
			return nil, nil
		}
		return resF[i], resE[i]
	}
	atOnce := vnd.Choose("atonce", 2) == 1
	if atOnce {
		var all []byte
		for i := range reqs {
			all = append(all, Encode(reqs[i].Typ, ws[i].tag, reqs[i].F)...)
		}
		c.Send(all)
	}
	for i := range reqs {
		if !atOnce {
			c.Send(Encode(reqs[i].Typ, ws[i].tag, reqs[i].F))
		}
		WantReply(c.Recv(), ws[i].typ, ws[i].tag, ws[i].f, "one of several requests")
	}
	c.End()
	c.WaitClosed()
	vnd.Assert(len(ns.Ops) == n+1, "several requests: not each performed exactly once")
	for i := range reqs {
		vnd.Assert(ns.Ops[i+1].Typ == reqs[i].Typ && EqFs(ns.Ops[i+1].F, reqs[i].F), "several requests: performed out of order or with other arguments")
	}
	vnd.Assert(len(c.Rest()) == 0, "several requests: more replies than requests")
	vnd.Cover("sequence")
}

// C04_Long: a long session.
func C04_Long() {
	n := 300
	if vnd.Config("tier", 0) > 0 {
		n = 1500
	}
	vnd.Bound("server: a session of 300 (thorough: 1500) requests, of all types in turn or all of one type, with an arbitrary tag each (every third operation of the first half failing), sent one by one, or 30 at a time")
	ns := &Rec{}
	c := Serve(ns, false)
	Versioned(c)
	batch := []int{1, 30}[vnd.Choose("batch", 2)]
	type pend struct {
		typ  int
		tag  uint16
		f    []F
		res  []F
		fail bool
	}
	var all []pend
	one := vnd.Choose("type", len(TTypes)+1)
	k := 0
	ns.Do = func(typ int, f []F) ([]F, error) {
		p := all[k]
		vnd.Assert(p.typ == typ && EqFs(p.f, f), "not the next request in order is performed")
		k++
		if p.fail {
			return Zero(typ + 1), errors.New("no")
		}
		return p.res, nil
	}
	for i := 0; i < n; i += batch {
		var m []byte
		for j := 0; j < batch; j++ {
			typ := TTypes[(i+j)%len(TTypes)]
			if one < len(TTypes) {
				typ = TTypes[one]
			}
			p := pend{typ, vnd.U16("tag"), Gen(typ, "t", tiny), Gen(typ+1, "r", tiny), (i+j)%3 == 2 && i < n/2}
			all = append(all, p)
			m = append(m, Encode(typ, p.tag, p.f)...)
		}
		c.Send(m)
		for j := 0; j < batch; j++ {
			p := all[i+j]
			if p.fail {
				vnd.Assert(WantError(c.Recv(), p.tag, Name(p.typ)) == "no", "another error text")
			} else {
				WantReply(c.Recv(), p.typ+1, p.tag, p.res, Name(p.typ))
			}
		}
	}
	vnd.Assert(k == n, "not every request is performed once")
	vnd.Assert(len(c.Rest()) == 0, "more replies than requests")
	vnd.Cover("long session")
}
