// Package c15: what a fid stands for and how long.
package c15

import (
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

// slot is what a fid should be.
type slot struct {
	fid    uint32
	live   bool
	path   string
	node   *vos.Node // of the open file
	rd, wr bool
}

func (s *slot) open() bool { return s.node != nil }
func (s *slot) close()     { s.node, s.rd, s.wr = nil, false, false }

type model struct {
	s  *S
	sl []*slot
}

func start(n int) *model {
	Tree()
	m := &model{s: New("/r")}
	for _, f := range Distinct(n) {
		m.sl = append(m.sl, &slot{fid: f})
	}
	return m
}

var walks = [][]string{{}, {"f"}, {"d"}, {"d", "x"}, {"nope"}, {"d", "nope"}, {".."}}

// resolve follows the names: the files that exist on the way and whether all do.
func resolve(p string, names []string) (string, int) {
	for i, n := range names {
		p = Join("/r", p, n)
		if vos.Find(p) == nil {
			return p, i
		}
	}
	return p, len(names)
}

func (m *model) attach(a *slot, aname string) {
	r := m.s.Attach(a.fid, aname)
	if a.live {
		r.Refused("attach to a fid in use")
		return
	}
	if vos.Find("/r"+aname) == nil {
		r.Refused("attach to a file that does not exist")
		return
	}
	r.OK("attach")
	a.live, a.path = true, "/r"+aname
	vnd.Cover("attached")
}

func (m *model) walk(a, b *slot, names []string) {
	wasOpen := a.live && a.open()
	r := m.s.Walk(a.fid, b.fid, names...)
	if !a.live {
		r.Refused("walk from a fid that does not exist")
		return
	}
	p, n := resolve(a.path, names)
	if n < len(names) {
		if n == 0 {
			r.Refused("walk to a name that does not exist")
		} else if !(b.live && b != a) && !wasOpen {
			r.OK("walk some of the way")
		}
		return
	}
	if b.live && b != a {
		r.Refused("walk to a fid in use")
		return
	}
	if wasOpen && r.Bad {
		return // an open fid need not be walkable
	}
	r.OK("walk")
	if a == b {
		if len(names) == 0 {
			return
		}
		b.close()
		vnd.Cover("walked itself")
	}
	b.live, b.path = true, p
	vnd.Cover("walked")
}

func (m *model) openFid(a *slot, mode uint8) {
	r := m.s.Open(a.fid, mode)
	if !a.live {
		r.Refused("open of a fid that does not exist")
		return
	}
	if a.open() {
		r.Refused("opening a fid twice")
		return
	}
	n := vos.Find(a.path)
	if n == nil || n.Dir && mode != OREAD {
		r.Refused("open of what cannot be opened")
		return
	}
	r.OK("open")
	a.node, a.rd, a.wr = n, mode != OWRITE, mode != OREAD
	vnd.Cover("opened")
}

func (m *model) create(a *slot, name string, dir bool) {
	perm := uint32(0644)
	if dir {
		perm = DMDIR | 0755
	}
	before := Handles(nil)
	there := a.live && vos.Find(Join("/r", a.path, name)) != nil
	r := m.s.Create(a.fid, name, perm, ORDWR)
	if !a.live {
		r.Refused("create in a fid that does not exist")
		return
	}
	if a.open() {
		r.Refused("create in an open fid")
		return
	}
	if n := vos.Find(a.path); n == nil || !n.Dir {
		r.Refused("create in what is not a directory")
		return
	}
	if there && r.Bad {
		return // what exists may be refused or taken
	}
	r.OK("create")
	a.path = Join("/r", a.path, name)
	if Handles(nil) > before {
		a.node, a.rd, a.wr = vos.Find(a.path), true, !dir
	} else {
		vnd.Assert(dir, "a created file is not open")
	}
	vnd.Cover("created")
}

func (m *model) clunk(a *slot) {
	r := m.s.Clunk(a.fid)
	if !a.live {
		r.Refused("clunk of a fid that does not exist")
		return
	}
	r.OK("clunk")
	a.live = false
	a.close()
	vnd.Cover("clunked")
}

func (m *model) remove(a *slot) {
	n := (*vos.Node)(nil)
	if a.live {
		n = vos.Find(a.path)
	}
	r := m.s.Remove(a.fid)
	if !a.live {
		r.Refused("remove of a fid that does not exist")
		return
	}
	if n == nil || n.Dir && len(n.Kids) > 0 {
		r.Refused("remove of what cannot be removed")
		vnd.Cover("removal failed")
	} else {
		r.OK("remove")
		vnd.Cover("removed")
	}
	a.live = false
	a.close()
}

func (m *model) read(a *slot) {
	r := m.s.Read(a.fid, 0, 200)
	if !a.live || !a.open() || !a.rd {
		r.Refused("read of a fid that is not open for reading")
		return
	}
	r.OK("read")
	vnd.Cover("read")
}

func (m *model) write(a *slot) {
	r := m.s.Write(a.fid, 0, []byte{1})
	if !a.live || !a.open() || !a.wr {
		r.Refused("write to a fid that is not open for writing")
		return
	}
	r.OK("write")
	vnd.Cover("written")
}

func (m *model) stat(a *slot) {
	r := m.s.Stat(a.fid)
	if !a.live {
		r.Refused("stat of a fid that does not exist")
		return
	}
	n := vos.Find(a.path)
	if n == nil {
		r.Refused("stat of a file that is gone")
		return
	}
	r.OK("stat")
	vnd.Assert(r.Dir().Q.P == n.Ino, "a fid stands for another file than the one it was walked to")
}

func (m *model) rename(a *slot, to string) {
	d := DontTouch()
	d.Name = to
	r := m.s.Wstat(a.fid, d)
	if !a.live {
		r.Refused("wstat of a fid that does not exist")
		return
	}
	if !r.Bad {
		np := Join("/r", Join("/r", a.path, ".."), to)
		vnd.Assert(vos.Find(np) != nil && a.path != "/r", "a rename succeeds but the file is not there")
		a.path = np
		vnd.Cover("renamed")
	}
}

// pick makes the choices of a step.
type pick func(what string, n int) int

// step performs an arbitrary operation.
func (m *model) step() { m.perform(vnd.Choose) }

func (m *model) perform(choose pick) {
	any := func(what string) *slot { return m.sl[choose(what, len(m.sl))] }
	switch choose("op", 11) {
	case 0:
		m.attach(any("a"), []string{"", "/d", "/nope"}[choose("aname", 3)])
	case 1:
		m.walk(any("a"), any("b"), walks[choose("names", len(walks))])
	case 2:
		m.openFid(any("a"), []uint8{OREAD, OWRITE, ORDWR}[choose("mode", 3)])
	case 3:
		m.create(any("a"), "new", choose("dir", 2) == 1)
	case 4:
		m.clunk(any("a"))
	case 5:
		m.remove(any("a"))
	case 6:
		m.read(any("a"))
	case 7:
		m.write(any("a"))
	case 8:
		m.stat(any("a"))
	case 9:
		m.rename(any("a"), "moved")
	case 10:
		r := m.s.Req(Tversion, U32F(8192), StrF("9P2001"))
		r.Refused("a version that does not exist")
	}
}

// handles compares what is open on the host with what should be.
func (m *model) handles() {
	n := 0
	for _, x := range m.sl {
		if x.live && x.open() {
			n++
			vnd.Assert(Handles(x.node) > 0, "the file of an open fid is closed")
		}
	}
	vnd.Assert(Handles(nil) >= n, "open fids share an open file")
	vnd.Assert(Handles(nil) <= n, "a file is left open although its fid is gone")
	for _, c := range vos.Log {
		vnd.Assert(!(c.Op == "close" && c.Err != nil), "an open file is closed twice")
	}
}

// look checks every fid.
func (m *model) look() {
	m.handles()
	for _, x := range m.sl {
		m.stat(x)
		m.read(x)
	}
}

// C15_Sequences: arbitrary sequences of requests on three fids.
func C15_Sequences() {
	vnd.Bound("file server: attach, then every sequence of 2 requests (thorough: 3) out of 11 kinds on 2 arbitrary different fids (any 32-bit values but NOFID), on a host tree of 7 files; then every fid is looked at")
	n := 2
	if vnd.Config("tier", 0) > 0 {
		n = 3
	}
	n = vnd.Config("n", n)
	m := start(2)
	m.attach(m.sl[0], "")
	for i := 0; i < n; i++ {
		m.step()
		m.handles()
	}
	m.look()
	vnd.Cover("sequence")
}

// setup brings the second fid into one of the states a fid can be in.
func (m *model) setup(b *slot) {
	a := m.sl[0]
	switch vnd.Choose("state", 9) {
	case 0: // none
	case 1:
		m.walk(a, b, nil)
	case 2:
		m.walk(a, b, []string{"f"})
	case 3:
		m.walk(a, b, []string{"f"})
		m.openFid(b, ORDWR)
	case 4:
		m.walk(a, b, []string{"d"})
		m.openFid(b, OREAD)
	case 5:
		m.walk(a, b, []string{"d"})
		m.create(b, "c", false)
	case 6:
		m.walk(a, b, []string{"d"})
		m.create(b, "c", true)
	case 7:
		m.walk(a, b, []string{"f"})
		m.openFid(b, OWRITE)
		m.clunk(b)
	case 8:
		m.walk(a, b, []string{"f"})
		m.rename(b, "h")
	}
}

// C15_States: arbitrary requests when a fid is in each of the states.
func C15_States() {
	vnd.Bound("file server: with a second fid in each of 9 states (none, clone, walked, open for both, open directory, created file, created directory, clunked, renamed), every 2 requests of 11 kinds on 2 (thorough: 3) arbitrary different fids; then every fid is looked at")
	k := 2
	if vnd.Config("tier", 0) > 0 {
		k = 3
	}
	m := start(k)
	m.attach(m.sl[0], "")
	m.setup(m.sl[1])
	for i := 0; i < 2; i++ {
		m.step()
		m.handles()
	}
	m.look()
	vnd.Cover("state")
}

// C15_Long: arbitrary requests after a long session.
func C15_Long() {
	n, k := 100, 2
	if vnd.Config("tier", 0) > 0 {
		n, k = 1000, 16
	}
	vnd.Bound("file server: sessions of 100 requests (2 of them; thorough: 1000, 16 of them) of 11 kinds on 24 fids (0, 0xfffffffe and others spread over 32 bits) of which up to all are in use, files made and removed at any time; then any request on 8 of the fids or on an arbitrary other; then every fid is looked at")
	Tree()
	vos.Find("/r").AddFile("keep", "k")
	m := &model{s: New("/r")}
	fids := []uint32{0, 1, 2, 0xfffffffe, 0x7fffffff, 0x80000000, 0xff, 0x100, 0xffff, 0x10000}
	for i := len(fids); i < 24; i++ {
		fids = append(fids, uint32(i)*0x9e3779b1)
	}
	for _, f := range fids {
		m.sl = append(m.sl, &slot{fid: f})
	}
	x := uint32(vnd.Choose("session", k))*7919 + 12345
	next := func(what string, n int) int {
		x = x*1664525 + 1013904223
		return int(x>>12) % n
	}
	live := 0
	for i := 0; i < n; i++ {
		if i%3 == 0 { // more fids come than go
			s := m.sl[next("a", len(m.sl))]
			m.attach(s, []string{"", "/d", "/keep"}[next("aname", 3)])
		} else {
			m.perform(next)
		}
		if i%10 == 0 {
			m.handles()
		}
	}
	m.look()
	for _, s := range m.sl {
		if s.live {
			live++
		}
	}
	vnd.Assert(live > 5, "harness: few fids are in use")
	all := m.sl
	a := []int{1, 3, 10, 20}[vnd.Choose("fid", 4)]
	o := &slot{fid: vnd.U32("fid")}
	vnd.Assume(o.fid != NOFID)
	for _, s := range all {
		vnd.Assume(o.fid != s.fid)
	}
	m.sl = []*slot{all[a], o}
	if vnd.Choose("two", 2) == 1 {
		m.sl = []*slot{all[a], all[(a+7)%len(all)]}
	}
	m.step()
	m.sl = append(all, o)
	m.look()
	vnd.Cover("long")
}

// C15_Many: many fids in use at the same time.
func C15_Many() {
	n := 600
	if vnd.Config("tier", 0) > 0 {
		n = 2000
	}
	vnd.Bound("file server: 600 (thorough: 2000) fids (in sequence from an arbitrary start, or spread over all numbers) in use at the same time, attached, walked to or cloned, every second one open; each stands for its file; then every third is clunked and every other one looked at again, the old numbers are used anew, and an arbitrary other fid is refused")
	vos.Reset()
	r := vos.Top.AddDir("r")
	name := func(i int) string { return "n" + string(rune('a'+i%23)) }
	for i := 0; i < 23; i++ {
		r.AddFile(name(i), "contents of "+name(i))
	}
	s := New("/r")
	fid := func(i int) uint32 { return uint32(i) * 0x9e3779b1 }
	if vnd.Choose("sequence", 2) == 1 {
		start := []uint32{0, 1000, 0x7fffff00, 0xffff0000}[vnd.Choose("start", 4)]
		fid = func(i int) uint32 { return start + uint32(i) }
	}
	if fid(n) == NOFID {
		vnd.Assume(false)
	}
	root := fid(n)
	s.Attach(root, "").OK("attach")
	use := func(i, at int) {
		switch i % 3 {
		case 0:
			s.Attach(fid(i), "/"+name(at)).OK("attach")
		case 1:
			s.Walk(root, fid(i), name(at)).OK("walk")
		case 2:
			s.Walk(root, fid(i)).OK("clone")
			s.Walk(fid(i), fid(i), name(at)).OK("walk")
		}
		if i%2 == 0 {
			s.Open(fid(i), ORDWR).OK("open")
		}
	}
	look := func(i, at int) {
		vnd.Assert(s.Stat(fid(i)).OK("stat of one of many fids").Dir().Name == name(at), "one of many fids stands for another file")
		rd := s.Read(fid(i), 0, 100)
		if i%2 == 0 {
			vnd.Assert(string(rd.OK("read").F[0].B) == "contents of "+name(at), "one of many fids reads another file")
		} else {
			rd.Refused("read of a fid that is not open")
		}
	}
	for i := 0; i < n; i++ {
		use(i, i)
	}
	vnd.Assert(Handles(nil) == n/2, "other files are open than those of the open fids")
	for i := 0; i < n; i++ {
		look(i, i)
		s.Attach(fid(i), "").Refused("attach to one of many fids")
	}
	for i := 0; i < n; i += 3 {
		s.Clunk(fid(i)).OK("clunk")
	}
	vnd.Assert(Handles(nil) == n/2-n/6, "other files are open than those of the open fids")
	for i := 0; i < n; i++ {
		if i%3 == 0 {
			s.Stat(fid(i)).Refused("stat of a clunked fid")
		} else {
			look(i, i)
		}
	}
	for i := 0; i < n; i += 3 {
		use(i, i+5)
		look(i, i+5)
	}
	o := vnd.U32("other")
	vnd.Assume(vnd.And(o != NOFID, o != root))
	for i := 0; i < n; i++ {
		vnd.Assume(o != fid(i))
	}
	s.Stat(o).Refused("stat of a fid that does not exist")
	s.Clunk(o).Refused("clunk of a fid that does not exist")
	vnd.Cover("many")
}

// C15_Fault: requests that fail on the host.
func C15_Fault() {
	vnd.Bound("file server: one of 12 requests (attach, walk to a new fid and to the fid itself, open, create of a file and of a directory, read, write, stat, wstat, clunk, remove) on a fid that is open or not, any one of the first 3 host calls of which fails with an error of 20 kinds; then what the fid, and the one it should have made, stand for")
	Tree()
	s := New("/r")
	f := Distinct(3)
	s.Attach(f[0], "").OK("attach")
	kind := vnd.Choose("kind", 12)
	dir := vnd.Choose("dir", 2) == 1
	open := vnd.Choose("open", 2) == 1
	path, name := "/r/f", "f"
	if dir {
		path, name = "/r/d", "d"
	}
	ino := vos.Find(path).Ino
	s.Walk(f[0], f[1], name).OK("walk")
	if open {
		if dir {
			s.Open(f[1], OREAD).OK("open")
		} else {
			s.Open(f[1], ORDWR).OK("open")
		}
	}
	k, err := vnd.Choose("fails", 3), HostErr()
	i, failed := 0, false
	vos.Fail = func(c *vos.Call) error {
		i++
		if i-1 == k {
			failed = true
			return err
		}
		return nil
	}
	var r R
	d := DontTouch()
	d.Mode = 0700
	switch kind {
	case 0:
		r = s.Attach(f[2], "/"+name)
	case 1:
		r = s.Walk(f[1], f[2])
	case 2:
		r = s.Walk(f[1], f[1], "x")
	case 3:
		r = s.Open(f[1], OREAD)
	case 4:
		r = s.Create(f[1], "new", 0644, ORDWR)
	case 5:
		r = s.Create(f[1], "new", DMDIR|0755, OREAD)
	case 6:
		r = s.Read(f[1], 0, 200)
	case 7:
		r = s.Write(f[1], 0, []byte("HE"))
	case 8:
		r = s.Stat(f[1])
	case 9:
		r = s.Wstat(f[1], d)
	case 10:
		r = s.Clunk(f[1])
	case 11:
		r = s.Remove(f[1])
	}
	vos.Fail = nil
	vnd.Assume(failed)
	if kind >= 10 {
		// gone, whatever became of the file
		s.Stat(f[1]).Refused("stat of a fid that was given up")
		s.Read(f[1], 0, 10).Refused("read of a fid that was given up")
		s.Clunk(f[1]).Refused("clunk of a fid that was given up")
		s.Attach(f[1], "").OK("attach to a fid that was given up")
		vnd.Assert(s.Stat(f[1]).OK("stat").Dir().Q.P == vos.Find("/r").Ino, "a fid made again stands for its old file")
		vnd.Assert(s.Stat(f[0]).OK("stat").Dir().Q.P == vos.Find("/r").Ino, "another fid is gone as well")
		vnd.Cover("given up")
		return
	}
	if !r.Bad {
		// the call was not needed
		vnd.Cover("done all the same")
		return
	}
	vnd.Assert(s.Stat(f[1]).OK("stat of the fid of a request that failed").Dir().Q.P == ino, "after a request that failed, the fid stands for another file")
	if kind <= 1 {
		s.Stat(f[2]).Refused("stat of the new fid of a request that failed")
		s.Clunk(f[2]).Refused("clunk of the new fid of a request that failed")
		s.Attach(f[2], "").OK("attach to the new fid of a request that failed")
	}
	b := s.Read(f[1], 0, 200)
	if !open {
		b.Refused("read of a fid whose opening failed")
		s.Write(f[1], 0, []byte("X")).Refused("write to a fid whose opening failed")
		s.Open(f[1], OREAD).OK("open of the fid of a request that failed")
		b = s.Read(f[1], 0, 200)
	}
	if dir {
		e, ok := DecodeDir(b.OK("directory read").F[0].B)
		vnd.Assert(vnd.And(ok, vnd.Or(e.Name == "x", e.Name == "e")), "after a request that failed, another directory is read")
	} else {
		vnd.Assert(string(b.OK("read").F[0].B) == "hello", "after a request that failed, another file is read")
		if open {
			s.Write(f[1], 0, []byte("HE")).OK("write to an open file after a request that failed")
		} else {
			s.Write(f[1], 0, []byte("HE")).Refused("write to a file opened for reading")
		}
	}
	vnd.Cover("as it was")
}
