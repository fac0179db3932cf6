package hlib

import (
	"bytes"

	p9 "github.com/Harvey-OS/ninep/protocol"
)

func u8(v uint64) F     { return F{K: KU8, U: v} }
func u16(v uint64) F    { return F{K: KU16, U: v} }
func u32(v uint32) F    { return F{K: KU32, U: uint64(v)} }
func u64(v uint64) F    { return F{K: KU64, U: v} }
func str(s string) F    { return F{K: KStr, S: s} }
func strs(s []string) F { return F{K: KStrs, SS: s} }
func data(b []byte) F   { return F{K: KData, B: b} }
func d16(b []byte) F    { return F{K: KData16, B: b} }
func qid(q p9.QID) F       { return F{K: KQid, Q: FromQ(q)} }
func qids(q []p9.QID) F    { return F{K: KQids, QQ: FromQQ(q)} }

// Exported constructors.
func U8F(v uint8) F       { return u8(uint64(v)) }
func U16F(v uint16) F     { return u16(uint64(v)) }
func U32F(v uint32) F     { return u32(v) }
func U64F(v uint64) F     { return u64(v) }
func StrF(s string) F     { return str(s) }
func StrsF(s ...string) F { return strs(s) }
func DataF(b []byte) F    { return data(b) }
func D16F(b []byte) F     { return d16(b) }

// Marshal calls the real encoder of typ.
func Marshal(typ int, tag uint16, f []F) []byte {
	var b bytes.Buffer
	MarshalTo(&b, typ, tag, f)
	return b.Bytes()
}

// MarshalTo calls the real encoder of typ.
func MarshalTo(b *bytes.Buffer, typ int, tag uint16, f []F) {
	f = Cp(f)
	t := p9.Tag(tag)
	switch typ {
	case Tversion:
		p9.MarshalTversionPkt(b, t, p9.MaxSize(f[0].U), f[1].S)
	case Rversion:
		p9.MarshalRversionPkt(b, t, p9.MaxSize(f[0].U), f[1].S)
	case Tattach:
		p9.MarshalTattachPkt(b, t, p9.FID(f[0].U), p9.FID(f[1].U), f[2].S, f[3].S)
	case Rattach:
		p9.MarshalRattachPkt(b, t, ToQ(f[0].Q))
	case Rerror:
		p9.MarshalRerrorPkt(b, t, f[0].S)
	case Tflush:
		p9.MarshalTflushPkt(b, t, p9.Tag(f[0].U))
	case Rflush:
		p9.MarshalRflushPkt(b, t)
	case Twalk:
		p9.MarshalTwalkPkt(b, t, p9.FID(f[0].U), p9.FID(f[1].U), f[2].SS)
	case Rwalk:
		p9.MarshalRwalkPkt(b, t, ToQQ(f[0].QQ))
	case Topen:
		p9.MarshalTopenPkt(b, t, p9.FID(f[0].U), p9.Mode(f[1].U))
	case Ropen:
		p9.MarshalRopenPkt(b, t, ToQ(f[0].Q), p9.MaxSize(f[1].U))
	case Tcreate:
		p9.MarshalTcreatePkt(b, t, p9.FID(f[0].U), f[1].S, p9.Perm(f[2].U), p9.Mode(f[3].U))
	case Rcreate:
		p9.MarshalRcreatePkt(b, t, ToQ(f[0].Q), p9.MaxSize(f[1].U))
	case Tread:
		p9.MarshalTreadPkt(b, t, p9.FID(f[0].U), p9.Offset(f[1].U), p9.Count(f[2].U))
	case Rread:
		p9.MarshalRreadPkt(b, t, f[0].B)
	case Twrite:
		p9.MarshalTwritePkt(b, t, p9.FID(f[0].U), p9.Offset(f[1].U), f[2].B)
	case Rwrite:
		p9.MarshalRwritePkt(b, t, p9.Count(f[0].U))
	case Tclunk:
		p9.MarshalTclunkPkt(b, t, p9.FID(f[0].U))
	case Rclunk:
		p9.MarshalRclunkPkt(b, t)
	case Tremove:
		p9.MarshalTremovePkt(b, t, p9.FID(f[0].U))
	case Rremove:
		p9.MarshalRremovePkt(b, t)
	case Tstat:
		p9.MarshalTstatPkt(b, t, p9.FID(f[0].U))
	case Rstat:
		p9.MarshalRstatPkt(b, t, f[0].B)
	case Twstat:
		p9.MarshalTwstatPkt(b, t, p9.FID(f[0].U), f[1].B)
	case Rwstat:
		p9.MarshalRwstatPkt(b, t)
	default:
		panic("hlib: no encoder")
	}
}

// Unmarshal calls the real decoder of typ on the bytes from the tag on.
func Unmarshal(typ int, p []byte) (f []F, tag uint16, err error) {
	b := bytes.NewBuffer(p)
	var t p9.Tag
	switch typ {
	case Tversion:
		m, v, tt, e := p9.UnmarshalTversionPkt(b)
		f, t, err = []F{u32(uint32(m)), str(v)}, tt, e
	case Rversion:
		m, v, tt, e := p9.UnmarshalRversionPkt(b)
		f, t, err = []F{u32(uint32(m)), str(v)}, tt, e
	case Tattach:
		a, c, u, n, tt, e := p9.UnmarshalTattachPkt(b)
		f, t, err = []F{u32(uint32(a)), u32(uint32(c)), str(u), str(n)}, tt, e
	case Rattach:
		q, tt, e := p9.UnmarshalRattachPkt(b)
		f, t, err = []F{qid(q)}, tt, e
	case Rerror:
		s, tt, e := p9.UnmarshalRerrorPkt(b)
		f, t, err = []F{str(s)}, tt, e
	case Tflush:
		o, tt, e := p9.UnmarshalTflushPkt(b)
		f, t, err = []F{u16(uint64(o))}, tt, e
	case Rflush:
		t, err = p9.UnmarshalRflushPkt(b)
	case Twalk:
		a, n, s, tt, e := p9.UnmarshalTwalkPkt(b)
		f, t, err = []F{u32(uint32(a)), u32(uint32(n)), strs(s)}, tt, e
	case Rwalk:
		q, tt, e := p9.UnmarshalRwalkPkt(b)
		f, t, err = []F{qids(q)}, tt, e
	case Topen:
		a, m, tt, e := p9.UnmarshalTopenPkt(b)
		f, t, err = []F{u32(uint32(a)), u8(uint64(m))}, tt, e
	case Ropen:
		q, m, tt, e := p9.UnmarshalRopenPkt(b)
		f, t, err = []F{qid(q), u32(uint32(m))}, tt, e
	case Tcreate:
		a, n, p, m, tt, e := p9.UnmarshalTcreatePkt(b)
		f, t, err = []F{u32(uint32(a)), str(n), u32(uint32(p)), u8(uint64(m))}, tt, e
	case Rcreate:
		q, m, tt, e := p9.UnmarshalRcreatePkt(b)
		f, t, err = []F{qid(q), u32(uint32(m))}, tt, e
	case Tread:
		a, o, c, tt, e := p9.UnmarshalTreadPkt(b)
		f, t, err = []F{u32(uint32(a)), u64(uint64(o)), u32(uint32(c))}, tt, e
	case Rread:
		d, tt, e := p9.UnmarshalRreadPkt(b)
		f, t, err = []F{data(d)}, tt, e
	case Twrite:
		a, o, d, tt, e := p9.UnmarshalTwritePkt(b)
		f, t, err = []F{u32(uint32(a)), u64(uint64(o)), data(d)}, tt, e
	case Rwrite:
		c, tt, e := p9.UnmarshalRwritePkt(b)
		f, t, err = []F{u32(uint32(c))}, tt, e
	case Tclunk:
		a, tt, e := p9.UnmarshalTclunkPkt(b)
		f, t, err = []F{u32(uint32(a))}, tt, e
	case Rclunk:
		t, err = p9.UnmarshalRclunkPkt(b)
	case Tremove:
		a, tt, e := p9.UnmarshalTremovePkt(b)
		f, t, err = []F{u32(uint32(a))}, tt, e
	case Rremove:
		t, err = p9.UnmarshalRremovePkt(b)
	case Tstat:
		a, tt, e := p9.UnmarshalTstatPkt(b)
		f, t, err = []F{u32(uint32(a))}, tt, e
	case Rstat:
		d, tt, e := p9.UnmarshalRstatPkt(b)
		f, t, err = []F{d16(d)}, tt, e
	case Twstat:
		a, d, tt, e := p9.UnmarshalTwstatPkt(b)
		f, t, err = []F{u32(uint32(a)), d16(d)}, tt, e
	case Rwstat:
		t, err = p9.UnmarshalRwstatPkt(b)
	default:
		panic("hlib: no decoder")
	}
	return f, uint16(t), err
}

// CallT calls the real client's function for typ.
func CallT(c *p9.Client, typ int, f []F) (r []F, err error) {
	f = Cp(f)
	switch typ {
	case Tversion:
		m, v, e := c.CallTversion(p9.MaxSize(f[0].U), f[1].S)
		return []F{u32(uint32(m)), str(v)}, e
	case Tattach:
		q, e := c.CallTattach(p9.FID(f[0].U), p9.FID(f[1].U), f[2].S, f[3].S)
		return []F{qid(q)}, e
	case Tflush:
		return nil, c.CallTflush(p9.Tag(f[0].U))
	case Twalk:
		q, e := c.CallTwalk(p9.FID(f[0].U), p9.FID(f[1].U), f[2].SS)
		return []F{qids(q)}, e
	case Topen:
		q, m, e := c.CallTopen(p9.FID(f[0].U), p9.Mode(f[1].U))
		return []F{qid(q), u32(uint32(m))}, e
	case Tcreate:
		q, m, e := c.CallTcreate(p9.FID(f[0].U), f[1].S, p9.Perm(f[2].U), p9.Mode(f[3].U))
		return []F{qid(q), u32(uint32(m))}, e
	case Tread:
		d, e := c.CallTread(p9.FID(f[0].U), p9.Offset(f[1].U), p9.Count(f[2].U))
		return []F{data(d)}, e
	case Twrite:
		n, e := c.CallTwrite(p9.FID(f[0].U), p9.Offset(f[1].U), f[2].B)
		return []F{u32(uint32(n))}, e
	case Tclunk:
		return nil, c.CallTclunk(p9.FID(f[0].U))
	case Tremove:
		return nil, c.CallTremove(p9.FID(f[0].U))
	case Tstat:
		d, e := c.CallTstat(p9.FID(f[0].U))
		return []F{d16(d)}, e
	case Twstat:
		return nil, c.CallTwstat(p9.FID(f[0].U), f[1].B)
	}
	panic("hlib: no call")
}
