// Package c02: what is encoded has the layout of the 9P2000 manual pages.
package c02

import (
	"bytes"

	"github.com/Harvey-OS/ninep/protocol"
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

func layout(typ int, l Lens) {
	tag := vnd.U16("tag")
	fs := Gen(typ, "m", l)
	b := Marshal(typ, tag, fs)
	want := Encode(typ, tag, fs)
	vnd.Assert(len(b) == len(want), Name(typ)+": encoded length is not that of the manual's layout")
	vnd.Assert(vnd.BytesEq(b, want), Name(typ)+": encoded bytes are not those of the manual's layout")
	vnd.Cover(Name(typ))
}

func decoding(typ int, l Lens) {
	tag := vnd.U16("tag")
	fs := Gen(typ, "m", l)
	got, t, err := Unmarshal(typ, Encode(typ, tag, fs)[5:])
	vnd.Assert(err == nil, Name(typ)+": a message laid out as in the manual does not decode")
	vnd.Assert(t == tag, Name(typ)+": tag decoded wrong")
	vnd.Assert(EqFs(got, fs), Name(typ)+": fields decoded wrong")
	vnd.Cover(Name(typ))
}

var small = Lens{Str: []int{0, 1, 2, 5}, Data: []int{0, 1, 2, 5}, N: []int{0, 1, 2, 3}, Elem: []int{0, 1, 3}}
var big = Lens{Str: []int{255, 256, 257, 65535}, Data: []int{255, 256, 257, 65535, 65536, 70000, 1<<24 + 3}, N: []int{16, 17, 256, 300}, Elem: []int{1}}

// C02_Encode: small messages of every type.
func C02_Encode() {
	vnd.Bound("encoding: all 25 message types; every value of every integer; strings and data of 0, 1, 2 and 5 arbitrary bytes; 0 to 3 names of 0, 1 or 3 bytes or qids")
	layout(AllTypes[vnd.Choose("type", len(AllTypes))], small)
}

// C02_EncodeBig: counts that need their higher bytes.
func C02_EncodeBig() {
	vnd.Bound("encoding of long fields: strings of 255, 256, 257 and 65535 bytes, data of 255 to 70000 and 2^24+3 bytes, 16, 17, 256 and 300 names or qids")
	ts := []int{Tversion, Rversion, Rerror, Tattach, Tcreate, Rread, Twrite, Rstat, Twstat, Twalk, Rwalk}
	layout(ts[vnd.Choose("type", len(ts))], big)
}

// C02_Decode: the decoders read that layout.
func C02_Decode() {
	vnd.Bound("decoding of messages laid out as in the manual: same sizes as encoding")
	if vnd.Bool("big") {
		ts := []int{Tversion, Rversion, Rerror, Tattach, Tcreate, Rread, Twrite, Rstat, Twstat, Twalk, Rwalk}
		decoding(ts[vnd.Choose("type", len(ts))], big)
		return
	}
	decoding(AllTypes[vnd.Choose("type", len(AllTypes))], small)
}

// C02_Lengths: one field at a time, of many lengths.
func C02_Lengths() {
	vnd.Bound("encoding and decoding, every variable field of every message in turn: strings and data of 0-34 bytes, 2^6 to 2^15 and one more or less, 8168-8194, 65534 and 65535; each name likewise; numbers of names and qids likewise up to 1025, and 65535")
	sw := Sweep()
	typ := AllTypes[vnd.Choose("type", len(AllTypes))]
	tag := vnd.U16("tag")
	fs := GenOne(typ, "m", vnd.Choose("field", 10), sw[vnd.Choose("len", len(sw))])
	vnd.Assume(fs != nil)
	want := Encode(typ, tag, fs)
	vnd.Assert(vnd.BytesEq(Marshal(typ, tag, fs), want), Name(typ)+": encoded bytes are not those of the manual's layout")
	got, t, err := Unmarshal(typ, want[5:])
	vnd.Assert(err == nil, Name(typ)+": a message laid out as in the manual does not decode")
	vnd.Assert(t == tag, Name(typ)+": tag decoded wrong")
	vnd.Assert(EqFs(got, fs), Name(typ)+": fields decoded wrong")
	vnd.Cover(Name(typ))
}

// C02_Dir: a directory entry is size[2] type[2] dev[4] qid[13] mode[4]
// atime[4] mtime[4] length[8] name[s] uid[s] gid[s] muid[s].
func C02_Dir() {
	vnd.Bound("directory entries: every value of every integer; strings of 0, 1, 3 and 300 bytes")
	l := Lens{Str: []int{0, 1, 3, 300}}
	var d protocol.Dir
	q := GenQid("q")
	d.Type, d.Dev, d.QID, d.Mode, d.Atime, d.Mtime, d.Length = vnd.U16("type"), vnd.U32("dev"), ToQ(q), vnd.U32("mode"), vnd.U32("atime"), vnd.U32("mtime"), vnd.U64("length")
	d.Name, d.User, d.Group, d.ModUser = GenF(KStr, "name", l).S, GenF(KStr, "user", l).S, GenF(KStr, "group", l).S, GenF(KStr, "muser", l).S
	want := DirBytes(Dir{d.Type, d.Dev, q, d.Mode, d.Atime, d.Mtime, d.Length, d.Name, d.User, d.Group, d.ModUser})
	var b bytes.Buffer
	protocol.Marshaldir(&b, d)
	vnd.Assert(vnd.BytesEq(b.Bytes(), want), "directory entry: encoded bytes are not those of the manual's layout")
	g, err := protocol.Unmarshaldir(bytes.NewBuffer(want))
	vnd.Assert(err == nil, "directory entry: the manual's layout does not decode")
	vnd.Assert(vnd.And(g.Type == d.Type, g.Dev == d.Dev, EqQ(FromQ(g.QID), q), g.Mode == d.Mode, g.Atime == d.Atime, g.Mtime == d.Mtime, g.Length == d.Length), "directory entry: a number decoded wrong")
	vnd.Assert(vnd.And(g.Name == d.Name, g.User == d.User, g.Group == d.Group, g.ModUser == d.ModUser), "directory entry: a string decoded wrong")
	vnd.Cover("dir")
}

// C02_Constants: the numbers the protocol fixes.
func C02_Constants() {
	vnd.Bound("the protocol's constants")
	for _, c := range []struct {
		got  uint64
		want uint64
		n    string
	}{
		{uint64(protocol.Tversion), 100, "Tversion"}, {uint64(protocol.Rversion), 101, "Rversion"},
		{uint64(protocol.Tauth), 102, "Tauth"}, {uint64(protocol.Rauth), 103, "Rauth"},
		{uint64(protocol.Tattach), 104, "Tattach"}, {uint64(protocol.Rattach), 105, "Rattach"},
		{uint64(protocol.Rerror), 107, "Rerror"}, {uint64(protocol.Tflush), 108, "Tflush"}, {uint64(protocol.Rflush), 109, "Rflush"},
		{uint64(protocol.Twalk), 110, "Twalk"}, {uint64(protocol.Rwalk), 111, "Rwalk"}, {uint64(protocol.Topen), 112, "Topen"}, {uint64(protocol.Ropen), 113, "Ropen"},
		{uint64(protocol.Tcreate), 114, "Tcreate"}, {uint64(protocol.Rcreate), 115, "Rcreate"}, {uint64(protocol.Tread), 116, "Tread"}, {uint64(protocol.Rread), 117, "Rread"},
		{uint64(protocol.Twrite), 118, "Twrite"}, {uint64(protocol.Rwrite), 119, "Rwrite"}, {uint64(protocol.Tclunk), 120, "Tclunk"}, {uint64(protocol.Rclunk), 121, "Rclunk"},
		{uint64(protocol.Tremove), 122, "Tremove"}, {uint64(protocol.Rremove), 123, "Rremove"}, {uint64(protocol.Tstat), 124, "Tstat"}, {uint64(protocol.Rstat), 125, "Rstat"},
		{uint64(protocol.Twstat), 126, "Twstat"}, {uint64(protocol.Rwstat), 127, "Rwstat"},
		{uint64(protocol.NOTAG), 0xFFFF, "NOTAG"}, {uint64(protocol.NOFID), 0xFFFFFFFF, "NOFID"},
		{protocol.QTDIR, 0x80, "QTDIR"}, {protocol.QTSYMLINK, 0x02, "QTSYMLINK"}, {protocol.DMDIR, 0x80000000, "DMDIR"},
		{protocol.OREAD, 0, "OREAD"}, {protocol.OWRITE, 1, "OWRITE"}, {protocol.ORDWR, 2, "ORDWR"}, {protocol.OEXEC, 3, "OEXEC"}, {protocol.OTRUNC, 0x10, "OTRUNC"},
	} {
		vnd.Assert(c.got == c.want, "constant "+c.n+" is not the protocol's")
	}
	vnd.Cover("constants")
}
