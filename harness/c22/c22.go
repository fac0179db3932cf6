// Package c22: the debug layer.
package c22

import (
	"errors"

	"github.com/Harvey-OS/ninep/pkg/debugfs"
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

var tiny = Lens{Str: []int{2}, Data: []int{3}, N: []int{1}, Elem: []int{2}}
var lens = Lens{Str: []int{0, 1, 4}, Data: []int{0, 1, 5, 51}, N: []int{0, 1, 2}, Elem: []int{0, 3}}

// C22_Pass: every operation, arguments, results and errors.
func C22_Pass() {
	vnd.Bound("debug layer: each of the 12 operations with every value of every number, strings of 0, 1 and 4 arbitrary bytes, data of 0, 1, 5 and 51 arbitrary bytes, 0-2 names and qids; results likewise; failing with an error of 3 arbitrary bytes or not")
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	var opErr error
	if vnd.Choose("fails", 2) == 1 {
		opErr = errors.New(vnd.Str("err", 3))
	}
	pass(typ, Gen(typ, "t", lens), Gen(typ+1, "r", lens), opErr)
}

// C22_Errors: errors of every kind.
func C22_Errors() {
	vnd.Bound("debug layer: each of the 12 operations failing with an error of 32 kinds (end of file, not found, closed, timeout, cancelled, wrapped, joined, empty text, a text of format verbs, ...) together with arbitrary results: the very error comes back")
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	l := Comparable(AnyErrs())
	pass(typ, Gen(typ, "t", tiny), Gen(typ+1, "r", tiny), l[vnd.Choose("anyerr", len(l))])
}

// C22_Lengths: one field at a time, of many lengths.
func C22_Lengths() {
	vnd.Bound("debug layer: every variable field of every operation's arguments and results in turn: strings and data of 0-34 bytes, 2^6 to 2^15 and one more or less, 8168-8194, 65534 and 65535; each name likewise; numbers of names and qids likewise up to 1025, and 65535")
	sw := Sweep()
	typ := TTypes[vnd.Choose("type", len(TTypes))]
	n := sw[vnd.Choose("len", len(sw))]
	req, res := Gen(typ, "t", tiny), Gen(typ+1, "r", tiny)
	if vnd.Choose("what", 2) == 0 {
		req = GenOne(typ, "t", vnd.Choose("field", 10), n)
		vnd.Assume(req != nil)
	} else {
		res = GenOne(typ+1, "r", vnd.Choose("field", 2), n)
		vnd.Assume(res != nil)
	}
	// stat data is fixed: an entry with a long name, or not an entry
	for _, f := range [][]F{req, res} {
		for i := range f {
			if f[i].K != KData16 {
				continue
			}
			name := make([]byte, n)
			for j := range name {
				name[j] = byte('a' + j%26)
			}
			f[i].B = name
			if n < 65000 && vnd.Choose("entry", 2) == 1 {
				f[i].B = DirBytes(Dir{Name: string(name), User: "u", Group: "g"})
			}
		}
	}
	pass(typ, req, res, nil)
}

func pass(typ int, req, res []F, opErr error) {
	nm := Name(typ)
	ns := &Rec{}
	ns.Do = func(int, []F) ([]F, error) { return res, opErr }
	d := &debugfs.DebugFileServer{FileServer: ns}
	got, err := CallNS(d, typ, req)
	vnd.Assert(len(ns.Ops) == 1, nm+": not passed on exactly once")
	vnd.Assert(ns.Ops[0].Typ == typ, nm+": passed on as another operation")
	vnd.Assert(EqFs(ns.Ops[0].F, req), nm+": passed on with other arguments")
	vnd.Assert(err == opErr, nm+": another error comes back")
	vnd.Assert(EqFs(got, res), nm+": other results come back")
	vnd.Cover(nm)
}

// C22_Stat: stat and wstat data that are entries or almost.
func C22_Stat() {
	vnd.Bound("debug layer: stat results and wstat arguments that are a directory entry with arbitrary numbers and 4 strings of 0 and 2 arbitrary bytes, cut short at every length")
	e := Dir{Type: vnd.U16("type"), Dev: vnd.U32("dev"), Q: GenQid("q"), Mode: vnd.U32("mode"), Atime: vnd.U32("atime"), Mtime: vnd.U32("mtime"), Length: vnd.U64("length")}
	for _, p := range []*string{&e.Name, &e.User, &e.Group, &e.ModUser} {
		*p = vnd.Str("s", 2*vnd.Choose("n", 2))
	}
	b := DirBytes(e)
	b = b[:len(b)-vnd.Choose("cut", len(b)+1)]
	ns := &Rec{}
	d := &debugfs.DebugFileServer{FileServer: ns}
	if vnd.Choose("op", 2) == 0 {
		ns.Do = func(int, []F) ([]F, error) { return []F{D16F(append([]byte{}, b...))}, nil }
		got, err := d.Rstat(7)
		vnd.Assert(err == nil && len(got) == len(b) && vnd.BytesEq(got, b), "Tstat: other results come back")
		vnd.Cover("stat")
	} else {
		vnd.Assert(d.Rwstat(7, append([]byte{}, b...)) == nil, "Twstat: an error comes back that was not given")
		vnd.Assert(len(ns.Ops) == 1 && len(ns.Ops[0].F[1].B) == len(b) && vnd.BytesEq(ns.Ops[0].F[1].B, b), "Twstat: passed on with other arguments")
		vnd.Cover("wstat")
	}
}

// C22_Server: the file server behaves the same with and without.
func C22_Server() {
	vnd.Bound("file server: every sequence of 2 (thorough: 3) requests out of 12 kinds after an attach, with the debug flag on and off: the same replies byte for byte and the same host calls")
	n := 2
	if vnd.Config("tier", 0) > 0 {
		n = 3
	}
	var ops []int
	for i := 0; i < n; i++ {
		ops = append(ops, vnd.Choose("op", 12))
	}
	run := func(debug bool) (reps [][]byte, calls []*vos.Call) {
		Tree()
		s := Debug("/r", debug, false)
		s.Attach(1, "").OK("attach")
		tag := uint16(500)
		req := func(typ int, f ...F) {
			tag++
			s.C.Send(Encode(typ, tag, f))
			m := s.C.Recv()
			vnd.Assert(m != nil, Name(typ)+": the connection is closed instead of a reply")
			reps = append(reps, m)
		}
		for _, o := range ops {
			switch o {
			case 0:
				req(Tattach, U32F(2), U32F(NOFID), StrF(""), StrF("/d"))
			case 1:
				req(Twalk, U32F(1), U32F(2), StrsF("f"))
			case 2:
				req(Twalk, U32F(1), U32F(1), StrsF("d", "nope"))
			case 3:
				req(Topen, U32F(2), U8F(ORDWR))
			case 4:
				req(Topen, U32F(1), U8F(OREAD))
			case 5:
				req(Tcreate, U32F(1), StrF("n"), U32F(0644), U8F(ORDWR))
			case 6:
				req(Tread, U32F(1), U64F(0), U32F(100))
			case 7:
				req(Twrite, U32F(2), U64F(1), DataF([]byte("ab")))
			case 8:
				req(Tclunk, U32F(2))
			case 9:
				req(Tremove, U32F(1))
			case 10:
				req(Tstat, U32F(1))
			case 11:
				d := DontTouch()
				d.Mode = 0600
				req(Twstat, U32F(1), D16F(DirBytes(d)))
			}
		}
		return reps, vos.Log
	}
	a, la := run(false)
	b, lb := run(true)
	for i := range a {
		vnd.Assert(len(a[i]) == len(b[i]) && vnd.BytesEq(a[i], b[i]), "with the debug layer a reply is different")
	}
	vnd.Assert(len(la) == len(lb), "with the debug layer the server does something else")
	for i := range la {
		vnd.Assert(la[i].Op == lb[i].Op && la[i].Path == lb[i].Path && la[i].Flag == lb[i].Flag && la[i].Mode == lb[i].Mode && la[i].N == lb[i].N, "with the debug layer the server does something else")
	}
	vnd.Cover("same")
}

// C22_Sequence: one operation after another.
func C22_Sequence() {
	k := 2 + vnd.Config("tier", 0)
	vnd.Bound("debug layer: sequences of 2 (thorough: 3) operations of any types through one layer, all arguments and results arbitrary (strings of 2 bytes, data of 3, one name or qid), each failing or not")
	ns := &Rec{}
	d := &debugfs.DebugFileServer{FileServer: ns}
	for i := 0; i < k; i++ {
		typ := TTypes[vnd.Choose("type", len(TTypes))]
		nm := Name(typ)
		req, res := Gen(typ, "t", tiny), Gen(typ+1, "r", tiny)
		var opErr error
		if vnd.Choose("fails", 2) == 1 {
			opErr = errors.New("no")
		}
		ns.Ops = nil
		ns.Do = func(int, []F) ([]F, error) { return res, opErr }
		got, err := CallNS(d, typ, req)
		vnd.Assert(len(ns.Ops) == 1 && ns.Ops[0].Typ == typ, nm+": not passed on exactly once")
		vnd.Assert(EqFs(ns.Ops[0].F, req), nm+": passed on with other arguments")
		vnd.Assert(err == opErr, nm+": another error comes back")
		vnd.Assert(EqFs(got, res), nm+": other results come back")
	}
	vnd.Cover("sequence")
}

// C22_Long: many operations.
func C22_Long() {
	n := 400
	if vnd.Config("tier", 0) > 0 {
		n = 4000
	}
	vnd.Bound("debug layer: 400 (thorough: 4000) operations, of all types in turn or all of one type, through one layer, every third of the first half failing, arguments and results arbitrary; the results are looked at again at the end")
	ns := &Rec{}
	d := &debugfs.DebugFileServer{FileServer: ns}
	var all, want [][]F
	one := vnd.Choose("type", len(TTypes)+1)
	for i := 0; i < n; i++ {
		typ := TTypes[(i+i/len(TTypes))%len(TTypes)]
		if one < len(TTypes) {
			typ = TTypes[one]
		}
		req, res := Gen(typ, "t", tiny), Gen(typ+1, "r", tiny)
		var opErr error
		if i%3 == 1 && i < n/2 {
			opErr = errors.New("no")
		}
		ns.Do = func(int, []F) ([]F, error) { return res, opErr }
		got, err := CallNS(d, typ, req)
		vnd.Assert(len(ns.Ops) == i+1 && ns.Ops[i].Typ == typ && EqFs(ns.Ops[i].F, req), "one of many operations is not passed on exactly once as it was called")
		vnd.Assert(err == opErr && EqFs(got, res), "one of many operations has other results")
		all, want = append(all, got), append(want, res)
	}
	for i := range all {
		vnd.Assert(EqFs(all[i], want[i]), "later operations change the results of an earlier one")
	}
	vnd.Cover("many")
}
