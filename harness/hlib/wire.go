// Package hlib holds what the harnesses share: an encoder and decoder of the
// 9P2000 wire format written from the manual pages (independently of the code
// under test), a scripted network connection, and a recording file server.
package hlib

import (
	"github.com/Harvey-OS/ninep/protocol"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

// Kinds of fields of a message, as in intro(5).
const (
	KU8 = iota
	KU16
	KU32
	KU64
	KStr    // s[n]
	KData   // count[4] data
	KData16 // n[2] data
	KStrs   // nwname[2] s[n]...
	KQid    // 13 bytes
	KQids   // nwqid[2] qid...
)

// Qid is type[1] version[4] path[8].
type Qid struct {
	T uint8
	V uint32
	P uint64
}

// F is the value of a field.
type F struct {
	K  int
	U  uint64
	S  string
	B  []byte
	SS []string
	Q  Qid
	QQ []Qid
}

// Message types of intro(5).
const (
	Tversion = 100
	Rversion = 101
	Tauth    = 102
	Tattach  = 104
	Rattach  = 105
	Rerror   = 107
	Tflush   = 108
	Rflush   = 109
	Twalk    = 110
	Rwalk    = 111
	Topen    = 112
	Ropen    = 113
	Tcreate  = 114
	Rcreate  = 115
	Tread    = 116
	Rread    = 117
	Twrite   = 118
	Rwrite   = 119
	Tclunk   = 120
	Rclunk   = 121
	Tremove  = 122
	Rremove  = 123
	Tstat    = 124
	Rstat    = 125
	Twstat   = 126
	Rwstat   = 127
)

// TTypes are the requests a server answers.
var TTypes = []int{Tversion, Tattach, Tflush, Twalk, Topen, Tcreate, Tread, Twrite, Tclunk, Tremove, Tstat, Twstat}

// AllTypes are the messages with a codec.
var AllTypes = []int{Tversion, Rversion, Tattach, Rattach, Rerror, Tflush, Rflush, Twalk, Rwalk, Topen, Ropen, Tcreate, Rcreate,
	Tread, Rread, Twrite, Rwrite, Tclunk, Rclunk, Tremove, Rremove, Tstat, Rstat, Twstat, Rwstat}

// Spec lists the fields of a message after size[4] type[1] tag[2].
func Spec(typ int) []int {
	switch typ {
	case Tversion, Rversion:
		return []int{KU32, KStr}
	case Tattach:
		return []int{KU32, KU32, KStr, KStr}
	case Rattach:
		return []int{KQid}
	case Rerror:
		return []int{KStr}
	case Tflush:
		return []int{KU16}
	case Twalk:
		return []int{KU32, KU32, KStrs}
	case Rwalk:
		return []int{KQids}
	case Topen:
		return []int{KU32, KU8}
	case Ropen, Rcreate:
		return []int{KQid, KU32}
	case Tcreate:
		return []int{KU32, KStr, KU32, KU8}
	case Tread:
		return []int{KU32, KU64, KU32}
	case Rread:
		return []int{KData}
	case Twrite:
		return []int{KU32, KU64, KData}
	case Rwrite:
		return []int{KU32}
	case Tclunk, Tremove, Tstat:
		return []int{KU32}
	case Rstat:
		return []int{KData16}
	case Twstat:
		return []int{KU32, KData16}
	}
	return nil
}

// Name of a message type, for messages.
func Name(typ int) string {
	n := [...]string{"version", "auth", "attach", "error", "flush", "walk", "open", "create", "read", "write", "clunk", "remove", "stat", "wstat"}
	if typ < 100 || typ > 127 {
		return "unknown"
	}
	if typ%2 == 0 {
		return "T" + n[(typ-100)/2]
	}
	return "R" + n[(typ-100)/2]
}

// P8 and friends append little-endian integers.
func P8(b []byte, v uint64) []byte  { return append(b, byte(v)) }
func P16(b []byte, v uint64) []byte { return append(b, byte(v), byte(v>>8)) }
func P32(b []byte, v uint64) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
func P64(b []byte, v uint64) []byte { return P32(P32(b, v), v>>32) }
func PStr(b []byte, s string) []byte {
	return append(P16(b, uint64(len(s))), s...)
}
func PQid(b []byte, q Qid) []byte { return P64(P32(P8(b, uint64(q.T)), uint64(q.V)), q.P) }

// PField appends a field.
func PField(b []byte, f F) []byte {
	switch f.K {
	case KU8:
		return P8(b, f.U)
	case KU16:
		return P16(b, f.U)
	case KU32:
		return P32(b, f.U)
	case KU64:
		return P64(b, f.U)
	case KStr:
		return PStr(b, f.S)
	case KData:
		return append(P32(b, uint64(len(f.B))), f.B...)
	case KData16:
		return append(P16(b, uint64(len(f.B))), f.B...)
	case KStrs:
		b = P16(b, uint64(len(f.SS)))
		for _, s := range f.SS {
			b = PStr(b, s)
		}
		return b
	case KQid:
		return PQid(b, f.Q)
	case KQids:
		b = P16(b, uint64(len(f.QQ)))
		for _, q := range f.QQ {
			b = PQid(b, q)
		}
		return b
	}
	return b
}

// Encode is the reference encoding of a message.
func Encode(typ int, tag uint16, fs []F) []byte {
	b := make([]byte, 7)
	for _, f := range fs {
		b = PField(b, f)
	}
	n := len(b)
	b[0], b[1], b[2], b[3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
	b[4] = byte(typ)
	b[5], b[6] = byte(tag), byte(tag>>8)
	return b
}

// Dec is a strict reader of the wire format. Counts are read with Pin: each
// value of a count is explored as its own path.
type Dec struct {
	B   []byte
	Bad bool
}

func (d *Dec) take(n int) []byte {
	if d.Bad || n < 0 || n > len(d.B) {
		d.Bad = true
		return nil
	}
	r := d.B[:n]
	d.B = d.B[n:]
	return r
}

func (d *Dec) Int(n int) uint64 {
	b := d.take(n)
	var v uint64
	for i := len(b) - 1; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}

// count reads a count, split into "more than is there" and each value that fits.
func (d *Dec) count(n int) int {
	v := d.Int(n)
	if d.Bad {
		return 0
	}
	if v > uint64(len(d.B)) {
		return -1
	}
	return int(vnd.Pin(v))
}

func (d *Dec) Str() string { return string(d.take(d.count(2))) }

func (d *Dec) Qid() Qid {
	t := uint8(d.Int(1))
	v := uint32(d.Int(4))
	return Qid{t, v, d.Int(8)}
}

// Field reads a field.
func (d *Dec) Field(k int) F {
	f := F{K: k}
	switch k {
	case KU8:
		f.U = d.Int(1)
	case KU16:
		f.U = d.Int(2)
	case KU32:
		f.U = d.Int(4)
	case KU64:
		f.U = d.Int(8)
	case KStr:
		f.S = d.Str()
	case KData:
		f.B = d.take(d.count(4))
	case KData16:
		f.B = d.take(d.count(2))
	case KStrs:
		n := d.count(2)
		if n < 0 {
			d.Bad = true
		}
		for i := 0; i < n && !d.Bad; i++ {
			f.SS = append(f.SS, d.Str())
		}
	case KQid:
		f.Q = d.Qid()
	case KQids:
		n := d.count(2)
		if n < 0 {
			d.Bad = true
		}
		for i := 0; i < n && !d.Bad; i++ {
			f.QQ = append(f.QQ, d.Qid())
		}
	}
	return f
}

// Decode is the reference decoding of what follows the tag; ok is false when
// the bytes are too few or too many.
func Decode(typ int, body []byte) (fs []F, ok bool) {
	d := &Dec{B: body}
	for _, k := range Spec(typ) {
		fs = append(fs, d.Field(k))
		if d.Bad {
			return nil, false
		}
	}
	return fs, len(d.B) == 0
}

// EqF compares two fields without forking.
func EqF(a, b F) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case KU8, KU16, KU32, KU64:
		return a.U == b.U
	case KStr:
		return a.S == b.S
	case KData, KData16:
		return vnd.BytesEq(a.B, b.B)
	case KStrs:
		if len(a.SS) != len(b.SS) {
			return false
		}
		r := true
		for i := range a.SS {
			r = vnd.And(r, a.SS[i] == b.SS[i])
		}
		return r
	case KQid:
		return EqQ(a.Q, b.Q)
	case KQids:
		return EqQQ(a.QQ, b.QQ)
	}
	return false
}

// EqQ compares qids.
func EqQ(a, b Qid) bool { return vnd.And(a.T == b.T, a.V == b.V, a.P == b.P) }

// EqQQ compares lists of qids.
func EqQQ(a, b []Qid) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vnd.And(r, EqQ(a[i], b[i]))
	}
	return r
}

// EqFs compares field lists.
func EqFs(a, b []F) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vnd.And(r, EqF(a[i], b[i]))
	}
	return r
}

// Lens tells Gen what lengths to choose from.
type Lens struct {
	Str  []int // lengths of strings
	Data []int // lengths of data
	N    []int // numbers of names and qids
	Elem []int // lengths of the names of a walk
}

func pick(name string, l []int) int { return l[vnd.Choose(name, len(l))] }

// Sweep lists the lengths tried one field at a time.
func Sweep() []int {
	var l []int
	add := func(a, b int) {
		for ; a <= b; a++ {
			l = append(l, a)
		}
	}
	add(0, 34)
	for n := 64; n < 65536; n *= 2 {
		add(n-1, n+1)
	}
	add(8168, 8194)
	return append(l, 1000, 10000, 50000, 65534, 65535)
}

// GenOne makes arbitrary fields for a message, the k-th with the given length
// (of a string or data) or number (of names or qids) and the others short. It
// returns nil if that field has none.
// From the 5th on k counts the fields again for the length of each name.
func GenOne(typ int, pre string, k, n int) []F {
	var fs []F
	each := k >= 5
	if each {
		k -= 5
	}
	for i, kind := range Spec(typ) {
		l := Lens{Str: []int{1}, Data: []int{2}, N: []int{1}, Elem: []int{2}}
		if i == k {
			if each && kind != KStrs {
				return nil
			}
			switch kind {
			case KStr:
				l.Str[0] = n
			case KData, KData16:
				l.Data[0] = n
			case KStrs, KQids:
				if each {
					l.N[0], l.Elem[0] = 2, n
					break
				}
				l.N[0], l.Elem[0] = n, 1
				if n > 1100 {
					l.Elem[0] = 0
					if n != 65535 || kind == KQids {
						return nil
					}
				}
			default:
				return nil
			}
		}
		fs = append(fs, GenF(kind, pre, l))
	}
	if k >= len(fs) {
		return nil
	}
	return fs
}

// Gen makes arbitrary fields for a message.
func Gen(typ int, pre string, l Lens) []F {
	var fs []F
	for _, k := range Spec(typ) {
		fs = append(fs, GenF(k, pre, l))
	}
	return fs
}

// GenQid makes an arbitrary qid.
func GenQid(pre string) Qid {
	return Qid{vnd.U8(pre + ".qt"), vnd.U32(pre + ".qv"), vnd.U64(pre + ".qp")}
}

// GenF makes an arbitrary field.
func GenF(k int, pre string, l Lens) F {
	f := F{K: k}
	switch k {
	case KU8:
		f.U = uint64(vnd.U8(pre + ".u8"))
	case KU16:
		f.U = uint64(vnd.U16(pre + ".u16"))
	case KU32:
		f.U = uint64(vnd.U32(pre + ".u32"))
	case KU64:
		f.U = vnd.U64(pre + ".u64")
	case KStr:
		f.S = BigStr(pre+".s", pick(pre+".sl", l.Str))
	case KData, KData16:
		ls := l.Data
		if k == KData16 {
			ls = nil
			for _, n := range l.Data {
				if n < 65536 {
					ls = append(ls, n)
				}
			}
		}
		f.B = BigBytes(pre+".d", pick(pre+".dl", ls))
	case KStrs:
		n := pick(pre+".n", l.N)
		f.SS = []string{}
		for i := 0; i < n; i++ {
			if len(l.Elem) == 1 || n > 3 {
				f.SS = append(f.SS, vnd.Str(pre+".e", l.Elem[0]))
			} else {
				f.SS = append(f.SS, vnd.Str(pre+".e", pick(pre+".el", l.Elem)))
			}
		}
	case KQid:
		f.Q = GenQid(pre)
	case KQids:
		n := pick(pre+".n", l.N)
		for i := 0; i < n; i++ {
			f.QQ = append(f.QQ, GenQid(pre))
		}
	}
	return f
}

// BigBytes is n bytes: all arbitrary when few, arbitrary at both ends and in
// the middle otherwise.
func BigBytes(name string, n int) []byte {
	if n <= 64 {
		return vnd.Bytes(name, n)
	}
	b := make([]byte, n)
	if n < 1<<20 { // else zeros, which cost nothing
		for i := range b {
			b[i] = byte(i*7) ^ byte(i>>6)
		}
	}
	for i := range [4]int{} {
		v := vnd.Bytes(name, 2)
		at := [4]int{0, n / 2, n - 2, n / 3}[i]
		b[at], b[at+1] = v[0], v[1]
	}
	return b
}

// BigStr is BigBytes as a string.
func BigStr(name string, n int) string { return string(BigBytes(name, n)) }

// ToQ and FromQ convert qids.
func ToQ(q Qid) protocol.QID   { return protocol.QID{Type: q.T, Version: q.V, Path: q.P} }
func FromQ(q protocol.QID) Qid { return Qid{q.Type, q.Version, q.Path} }

func ToQQ(q []Qid) []protocol.QID {
	r := make([]protocol.QID, len(q))
	for i := range q {
		r[i] = ToQ(q[i])
	}
	return r
}

func FromQQ(q []protocol.QID) []Qid {
	var r []Qid
	for i := range q {
		r = append(r, FromQ(q[i]))
	}
	return r
}
