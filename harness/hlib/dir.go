package hlib

// Dir is a directory entry as in stat(5).
type Dir struct {
	Type                       uint16
	Dev                        uint32
	Q                          Qid
	Mode, Atime, Mtime         uint32
	Length                     uint64
	Name, User, Group, ModUser string
}

// DirBytes is the reference encoding, with its leading size[2].
func DirBytes(d Dir) []byte {
	b := []byte{0, 0}
	b = P16(b, uint64(d.Type))
	b = P32(b, uint64(d.Dev))
	b = PQid(b, d.Q)
	b = P32(b, uint64(d.Mode))
	b = P32(b, uint64(d.Atime))
	b = P32(b, uint64(d.Mtime))
	b = P64(b, d.Length)
	b = PStr(PStr(PStr(PStr(b, d.Name), d.User), d.Group), d.ModUser)
	n := len(b) - 2
	b[0], b[1] = byte(n), byte(n>>8)
	return b
}

// DecodeDir reads a directory entry, whatever its leading size says; ok is
// false when there are too few bytes.
func DecodeDir(b []byte) (d Dir, ok bool) {
	r := &Dec{B: b}
	r.Int(2)
	d.Type = uint16(r.Int(2))
	d.Dev = uint32(r.Int(4))
	d.Q = r.Qid()
	d.Mode = uint32(r.Int(4))
	d.Atime = uint32(r.Int(4))
	d.Mtime = uint32(r.Int(4))
	d.Length = r.Int(8)
	if r.Bad {
		return d, false
	}
	for _, p := range []*string{&d.Name, &d.User, &d.Group, &d.ModUser} {
		*p = r.Str()
		if r.Bad {
			return d, false
		}
	}
	return d, true
}

// DirSize is the size of the first entry in b, with its size field.
func DirSize(b []byte) int { return (int(b[0]) | int(b[1])<<8) + 2 }
