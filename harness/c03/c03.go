// Package c03: decoding of arbitrary bytes.
package c03

import (
	"bytes"

	"github.com/Harvey-OS/ninep/protocol"
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

// decode compares the real decoder with the reference on the same bytes.
func decode(typ int, body []byte) {
	fs, ok := Decode(typ, body)
	tag := vnd.U16("tag")
	p := append([]byte{byte(tag), byte(tag >> 8)}, body...)
	// The bytes are the end of a longer allocation: nothing beyond them may be read.
	back := append(append([]byte{}, p...), vnd.Bytes("beyond", 12)...)
	got, t, err := Unmarshal(typ, back[:len(p)])
	if ok {
		vnd.Assert(err == nil, Name(typ)+": well-formed bytes are refused")
		vnd.Assert(t == tag, Name(typ)+": tag wrong")
		vnd.Assert(EqFs(got, fs), Name(typ)+": fields are not what the bytes say")
		vnd.Cover(Name(typ) + " accepted")
	} else {
		vnd.Assert(err != nil, Name(typ)+": malformed bytes (too short, a count past the end, or left-over bytes) are accepted")
		vnd.Cover(Name(typ) + " refused")
	}
}

func size(typ int) int {
	n := 0
	for _, k := range Spec(typ) {
		n += [...]int{1, 2, 4, 8, 2, 4, 2, 2, 13, 2}[k]
	}
	return n
}

// names are the numbers of names or qids considered (a decoder may allocate
// that many before it finds they are not there).
var names = []int{0, 1, 2, 3, 4, 5, 16, 17, 255, 256, 4096, 32768, 65535}

// pinCount sets the number of names or qids of a walk to one of names.
func pinCount(typ int, b []byte) {
	at := -1
	if typ == Twalk {
		at = 8
	}
	if typ == Rwalk {
		at = 0
	}
	if at >= 0 && len(b) >= at+2 {
		n := names[vnd.Choose("names", len(names))]
		b[at], b[at+1] = byte(n), byte(n>>8)
	}
}

// C03_Bytes: any bytes, of every length from none to some more than the
// message's fixed part needs.
func C03_Bytes() {
	typ := AllTypes[vnd.Choose("type", len(AllTypes))]
	extra := 6
	if vnd.Config("tier", 0) > 0 {
		extra = 9
	}
	vnd.Bound("decoders: all 25 message types on every byte string from 0 to the length of the message's fixed part + 6 (thorough: 9) bytes, with 12 arbitrary bytes after it in memory; numbers of names and qids 0-5, 16, 17, 255, 256, 4096, 32768, 65535")
	n := vnd.Choose("len", size(typ)+extra+1)
	b := vnd.Bytes("b", n)
	pinCount(typ, b)
	decode(typ, b)
}

// C03_Short: not even a tag.
func C03_Short() {
	typ := AllTypes[vnd.Choose("type", len(AllTypes))]
	vnd.Bound("decoders: all 25 message types on every byte string of 0 or 1 byte")
	p := vnd.Bytes("b", vnd.Choose("len", 2))
	_, _, err := Unmarshal(typ, append([]byte{}, p...))
	vnd.Assert(err != nil, Name(typ)+": bytes without a whole tag are accepted")
	vnd.Cover("short")
}

// C03_Count: data counts near and past what follows, up to the largest.
func C03_Count() {
	ts := []int{Rread, Twrite, Rstat, Twstat, Tversion, Rerror, Twalk, Rwalk}
	typ := ts[vnd.Choose("type", len(ts))]
	vnd.Bound("decoders: every count of the last variable field with 0, 1, 14 or 40 bytes after it")
	var b []byte
	sp := Spec(typ)
	for _, k := range sp[:len(sp)-1] {
		b = PField(b, GenF(k, "m", Lens{Str: []int{2}, Data: []int{2}}))
	}
	cnt := vnd.U32("count")
	if typ == Twalk || typ == Rwalk {
		cnt = uint32(names[vnd.Choose("names", len(names))])
	}
	k := sp[len(sp)-1]
	if k == KData {
		b = P32(b, uint64(cnt))
	} else {
		b = P16(b, uint64(uint16(cnt)))
	}
	rest := []int{0, 1, 14, 40}[vnd.Choose("rest", 4)]
	if typ == Twalk || typ == Rwalk {
		// elements of zero length keep the number of paths down
		b = append(b, make([]byte, rest)...)
	} else {
		b = append(b, vnd.Bytes("r", rest)...)
	}
	decode(typ, b)
}

// C03_Dir: directory entries (whose leading size may be anything).
func C03_Dir() {
	extra := 3
	if vnd.Config("tier", 0) > 0 {
		extra = 6
	}
	vnd.Bound("directory entry decoder on every byte string from 0 to 49+3 (thorough: 6) bytes: never crashes, and what it accepts is what the bytes say")
	n := vnd.Choose("len", 49+extra+1)
	b := vnd.Bytes("b", n)
	back := append(append([]byte{}, b...), vnd.Bytes("beyond", 12)...)
	d, err := protocol.Unmarshaldir(bytes.NewBuffer(back[:n]))
	r, ok := DecodeDir(b)
	if !ok {
		vnd.Assert(err != nil, "directory entry: bytes that end too soon are accepted")
		vnd.Cover("refused")
		return
	}
	vnd.Assert(err == nil, "directory entry: well-formed bytes are refused")
	vnd.Assert(vnd.And(d.Type == r.Type, d.Dev == r.Dev, EqQ(FromQ(d.QID), r.Q), d.Mode == r.Mode, d.Atime == r.Atime, d.Mtime == r.Mtime, d.Length == r.Length), "directory entry: a number is not what the bytes say")
	vnd.Assert(vnd.And(d.Name == r.Name, d.User == r.User, d.Group == r.Group, d.ModUser == r.ModUser), "directory entry: a string is not what the bytes say")
	vnd.Cover("accepted")
}
