// Package c01: decode(encode(m)) is m.
package c01

import (
	"bytes"

	"github.com/Harvey-OS/ninep/protocol"
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

func roundtrip(typ int, l Lens) {
	tag := vnd.U16("tag")
	fs := Gen(typ, "m", l)
	b := Marshal(typ, tag, fs)
	vnd.Assert(len(b) >= 7, Name(typ)+": encoding shorter than a header")
	got, t, err := Unmarshal(typ, append([]byte{}, b[5:]...))
	vnd.Assert(err == nil, Name(typ)+": what was encoded does not decode")
	vnd.Assert(t == tag, Name(typ)+": tag changed")
	vnd.Assert(EqFs(got, fs), Name(typ)+": fields changed in a round trip")
	vnd.Cover(Name(typ))
}

// C01_Small: every message, every integer, all string contents of small lengths.
func C01_Small() {
	typ := AllTypes[vnd.Choose("type", len(AllTypes))]
	vnd.Bound("round trip: all 25 message types; every value of every integer; strings and data of 0, 1, 2 and 5 arbitrary bytes; 0 to 3 names of 0, 1 or 3 bytes or qids")
	roundtrip(typ, Lens{Str: []int{0, 1, 2, 5}, Data: []int{0, 1, 2, 5}, N: []int{0, 1, 2, 3}, Elem: []int{0, 1, 3}})
}

// C01_Big: lengths around the places where a count changes size.
func C01_Big() {
	ts := []int{Tversion, Rerror, Tattach, Tcreate, Rread, Twrite, Rstat, Twstat}
	typ := ts[vnd.Choose("type", len(ts))]
	vnd.Bound("round trip of long fields: strings of 255, 256, 257 and 65535 bytes, data of 255, 256, 65535, 65536, 70000 and 2^24+3 bytes (8 of the bytes arbitrary)")
	roundtrip(typ, Lens{Str: []int{255, 256, 257, 65535}, Data: []int{255, 256, 65535, 65536, 70000, 1<<24 + 3}})
}

// C01_Walk: up to more names than the protocol allows in one walk.
func C01_Walk() {
	ts := []int{Twalk, Rwalk}
	typ := ts[vnd.Choose("type", len(ts))]
	vnd.Bound("round trip of walks with 15, 16, 17, 256 and 300 names (1 byte each) or qids, and of names of 255, 256 and 65535 bytes")
	if vnd.Bool("long") {
		fs := []F{U32F(vnd.U32("a")), U32F(vnd.U32("b")), StrsF(BigStr("n", []int{255, 256, 65535}[vnd.Choose("nl", 3)]), vnd.Str("o", 2))}
		tag := vnd.U16("tag")
		b := Marshal(Twalk, tag, fs)
		got, t, err := Unmarshal(Twalk, b[5:])
		vnd.Assert(err == nil && t == tag, "Twalk: long names do not decode")
		vnd.Assert(EqFs(got, fs), "Twalk: long names changed")
		vnd.Cover("long")
		return
	}
	roundtrip(typ, Lens{N: []int{15, 16, 17, 256, 300}, Elem: []int{1}})
}

// C01_Lengths: one field at a time, of many lengths.
func C01_Lengths() {
	vnd.Bound("round trip, every variable field of every message in turn: strings and data of 0-34 bytes, 2^6 to 2^15 and one more or less, 8168-8194, 65534 and 65535; each name likewise; numbers of names and qids likewise up to 1025, and 65535")
	sw := Sweep()
	typ := AllTypes[vnd.Choose("type", len(AllTypes))]
	tag := vnd.U16("tag")
	fs := GenOne(typ, "m", vnd.Choose("field", 10), sw[vnd.Choose("len", len(sw))])
	vnd.Assume(fs != nil)
	got, t, err := Unmarshal(typ, Marshal(typ, tag, fs)[5:])
	vnd.Assert(err == nil, Name(typ)+": what was encoded does not decode")
	vnd.Assert(t == tag, Name(typ)+": tag changed")
	vnd.Assert(EqFs(got, fs), Name(typ)+": fields changed in a round trip")
	vnd.Cover(Name(typ))
}

// C01_Reuse: encoding into a buffer that held something else gives the same.
func C01_Reuse() {
	typ := AllTypes[vnd.Choose("type", len(AllTypes))]
	vnd.Bound("every message encoded into a buffer holding 0, 3 or 40 bytes of something else")
	l := Lens{Str: []int{3}, Data: []int{3}, N: []int{2}, Elem: []int{2}}
	tag := vnd.U16("tag")
	fs := Gen(typ, "m", l)
	b := bytes.NewBuffer(vnd.Bytes("junk", []int{0, 3, 40}[vnd.Choose("jl", 3)]))
	MarshalTo(b, typ, tag, fs)
	vnd.Assert(vnd.BytesEq(b.Bytes(), Encode(typ, tag, fs)), Name(typ)+": encoding depends on what the buffer held")
	vnd.Cover(Name(typ))
}

func genDir(l Lens) protocol.Dir {
	var d protocol.Dir
	d.Type = vnd.U16("type")
	d.Dev = vnd.U32("dev")
	d.QID = ToQ(GenQid("q"))
	d.Mode = vnd.U32("mode")
	d.Atime = vnd.U32("atime")
	d.Mtime = vnd.U32("mtime")
	d.Length = vnd.U64("length")
	d.Name = GenF(KStr, "name", l).S
	d.User = GenF(KStr, "user", l).S
	d.Group = GenF(KStr, "group", l).S
	d.ModUser = GenF(KStr, "muser", l).S
	return d
}

func dirRT(l Lens) {
	d := genDir(l)
	var b bytes.Buffer
	protocol.Marshaldir(&b, d)
	g, err := protocol.Unmarshaldir(bytes.NewBuffer(append([]byte{}, b.Bytes()...)))
	vnd.Assert(err == nil, "directory entry does not decode")
	vnd.Assert(vnd.And(g.Type == d.Type, g.Dev == d.Dev, g.QID.Type == d.QID.Type, g.QID.Version == d.QID.Version, g.QID.Path == d.QID.Path,
		g.Mode == d.Mode, g.Atime == d.Atime, g.Mtime == d.Mtime, g.Length == d.Length), "directory entry: a number changed in a round trip")
	vnd.Assert(vnd.And(g.Name == d.Name, g.User == d.User, g.Group == d.Group, g.ModUser == d.ModUser), "directory entry: a string changed in a round trip")
	vnd.Cover("dir")
}

// C01_Dir: directory entries.
func C01_Dir() {
	vnd.Bound("round trip of directory entries: every value of every integer, four strings of 0, 1 or 4 arbitrary bytes each")
	dirRT(Lens{Str: []int{0, 1, 4}})
}

// C01_DirBig: directory entries with long strings.
func C01_DirBig() {
	vnd.Bound("round trip of directory entries with strings of 1, 255 and 256 bytes, and one of 60000")
	if vnd.Bool("one") {
		dirRT(Lens{Str: []int{60000 / 4}})
		return
	}
	dirRT(Lens{Str: []int{1, 255, 256}})
}
