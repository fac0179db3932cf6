package hlib

import (
	"fmt"

	p9 "github.com/Harvey-OS/ninep/protocol"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

// Op is an operation a file server was asked to perform.
type Op struct {
	Typ int
	F   []F
}

// Rec is a file server that records what it is asked to do and answers what
// Do says (by default: success with zero values).
type Rec struct {
	Ops []Op
	Do  func(typ int, f []F) ([]F, error)
}

// Zero are zero values for the fields of a message.
func Zero(typ int) []F {
	var fs []F
	for _, k := range Spec(typ) {
		fs = append(fs, F{K: k})
	}
	return fs
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

// Cp are fields that share no memory with f: what is called gets these, so
// that the ones to compare with stay as they are whatever it does.
func Cp(f []F) []F {
	var r []F
	for _, x := range f {
		if x.B != nil {
			x.B = cp(x.B)
		}
		if x.SS != nil {
			x.SS = append([]string{}, x.SS...)
		}
		if x.QQ != nil {
			x.QQ = append([]Qid{}, x.QQ...)
		}
		r = append(r, x)
	}
	return r
}

func (r *Rec) do(typ int, f ...F) ([]F, error) {
	r.Ops = append(r.Ops, Op{typ, f})
	if r.Do != nil {
		if o, err := r.Do(typ, f); o != nil || err != nil {
			if o == nil {
				o = Zero(typ + 1)
			}
			return Cp(o), err
		}
	}
	return Zero(typ + 1), nil
}

func (r *Rec) Rversion(m p9.MaxSize, v string) (p9.MaxSize, string, error) {
	o, err := r.do(Tversion, u32(uint32(m)), str(v))
	return p9.MaxSize(o[0].U), o[1].S, err
}
func (r *Rec) Rattach(a, b p9.FID, u, n string) (p9.QID, error) {
	o, err := r.do(Tattach, u32(uint32(a)), u32(uint32(b)), str(u), str(n))
	return ToQ(o[0].Q), err
}
func (r *Rec) Rwalk(a, b p9.FID, s []string) ([]p9.QID, error) {
	o, err := r.do(Twalk, u32(uint32(a)), u32(uint32(b)), strs(append([]string{}, s...)))
	return ToQQ(o[0].QQ), err
}
func (r *Rec) Ropen(a p9.FID, m p9.Mode) (p9.QID, p9.MaxSize, error) {
	o, err := r.do(Topen, u32(uint32(a)), u8(uint64(m)))
	return ToQ(o[0].Q), p9.MaxSize(o[1].U), err
}
func (r *Rec) Rcreate(a p9.FID, n string, p p9.Perm, m p9.Mode) (p9.QID, p9.MaxSize, error) {
	o, err := r.do(Tcreate, u32(uint32(a)), str(n), u32(uint32(p)), u8(uint64(m)))
	return ToQ(o[0].Q), p9.MaxSize(o[1].U), err
}
func (r *Rec) Rstat(a p9.FID) ([]byte, error) {
	o, err := r.do(Tstat, u32(uint32(a)))
	return o[0].B, err
}
func (r *Rec) Rwstat(a p9.FID, b []byte) error {
	_, err := r.do(Twstat, u32(uint32(a)), d16(cp(b)))
	return err
}
func (r *Rec) Rclunk(a p9.FID) error {
	_, err := r.do(Tclunk, u32(uint32(a)))
	return err
}
func (r *Rec) Rremove(a p9.FID) error {
	_, err := r.do(Tremove, u32(uint32(a)))
	return err
}
func (r *Rec) Rread(a p9.FID, o p9.Offset, c p9.Count) ([]byte, error) {
	x, err := r.do(Tread, u32(uint32(a)), u64(uint64(o)), u32(uint32(c)))
	return x[0].B, err
}
func (r *Rec) Rwrite(a p9.FID, o p9.Offset, b []byte) (p9.Count, error) {
	x, err := r.do(Twrite, u32(uint32(a)), u64(uint64(o)), data(cp(b)))
	return p9.Count(x[0].U), err
}
func (r *Rec) Rflush(t p9.Tag) error {
	_, err := r.do(Tflush, u16(uint64(t)))
	return err
}

// CallNS calls a file server's function for typ directly.
func CallNS(s p9.NineServer, typ int, f []F) ([]F, error) {
	f = Cp(f)
	switch typ {
	case Tversion:
		m, v, e := s.Rversion(p9.MaxSize(f[0].U), f[1].S)
		return []F{u32(uint32(m)), str(v)}, e
	case Tattach:
		q, e := s.Rattach(p9.FID(f[0].U), p9.FID(f[1].U), f[2].S, f[3].S)
		return []F{qid(q)}, e
	case Tflush:
		return nil, s.Rflush(p9.Tag(f[0].U))
	case Twalk:
		q, e := s.Rwalk(p9.FID(f[0].U), p9.FID(f[1].U), f[2].SS)
		return []F{qids(q)}, e
	case Topen:
		q, m, e := s.Ropen(p9.FID(f[0].U), p9.Mode(f[1].U))
		return []F{qid(q), u32(uint32(m))}, e
	case Tcreate:
		q, m, e := s.Rcreate(p9.FID(f[0].U), f[1].S, p9.Perm(f[2].U), p9.Mode(f[3].U))
		return []F{qid(q), u32(uint32(m))}, e
	case Tread:
		d, e := s.Rread(p9.FID(f[0].U), p9.Offset(f[1].U), p9.Count(f[2].U))
		return []F{data(d)}, e
	case Twrite:
		n, e := s.Rwrite(p9.FID(f[0].U), p9.Offset(f[1].U), f[2].B)
		return []F{u32(uint32(n))}, e
	case Tclunk:
		return nil, s.Rclunk(p9.FID(f[0].U))
	case Tremove:
		return nil, s.Rremove(p9.FID(f[0].U))
	case Tstat:
		d, e := s.Rstat(p9.FID(f[0].U))
		return []F{d16(d)}, e
	case Twstat:
		return nil, s.Rwstat(p9.FID(f[0].U), f[1].B)
	}
	panic("hlib: no operation")
}

// Trace is a tracer that formats what it is given.
func Trace(f string, a ...interface{}) { _ = fmt.Sprintf(f, a...) }

// Serve starts a connection to a server with ns behind it.
func Serve(ns p9.NineServer, trace bool) *Conn {
	c := NewConn()
	l, err := p9.NewListener(func() p9.NineServer { return ns }, func(l *p9.Listener) error {
		if trace {
			l.Trace = Trace
		}
		return nil
	})
	vnd.Assert(err == nil, "NewListener fails")
	vnd.Assert(l.Accept(c) == nil, "Accept fails")
	return c
}

// Version is a version request for 9P2000.
func Version() []byte { return Encode(Tversion, 0xffff, []F{u32(8192), str("9P2000")}) }

// Versioned gets the version request of a connection out of the way.
func Versioned(c *Conn) {
	c.Send(Version())
	r := c.Recv()
	vnd.Assert(r != nil && len(r) > 4 && r[4] == Rversion, "the version request is not answered")
}

// WantReply compares a reply with the one expected.
func WantReply(got []byte, typ int, tag uint16, f []F, what string) {
	vnd.Assert(got != nil, what+": no reply")
	w := Encode(typ, tag, f)
	vnd.Assert(got[4] == byte(typ), what+": the reply has the wrong type")
	vnd.Assert(vnd.And(got[5] == byte(tag), got[6] == byte(tag>>8)), what+": the reply has another tag than the request")
	vnd.Assert(len(got) == len(w), what+": the reply has the wrong length")
	vnd.Assert(vnd.BytesEq(got, w), what+": the reply does not carry the operation's results")
}

// WantError checks that a reply is an Rerror.
func WantError(got []byte, tag uint16, what string) string {
	vnd.Assert(got != nil, what+": no reply")
	vnd.Assert(got[4] == Rerror, what+": the reply is not an error")
	vnd.Assert(vnd.And(got[5] == byte(tag), got[6] == byte(tag>>8)), what+": the error reply has another tag than the request")
	f, ok := Decode(Rerror, got[7:])
	vnd.Assert(ok, what+": the error reply is malformed")
	return f[0].S
}
