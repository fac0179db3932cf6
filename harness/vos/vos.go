// Package vos stands in for package os in the code under test: an in-memory
// file tree with the semantics of the Linux calls the file server relies on,
// a log of every call, and fault injection. It never touches the host.
package vos

import (
	"io"
	"io/fs"
	std "os"
	"path"
	"syscall"
	"time"

	"github.com/Harvey-OS/ninep/zzverif/vacc"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

// Node is a file, directory or symbolic link of the model.
type Node struct {
	Name   string
	Dir    bool
	Link   bool
	Perm   uint32 // permission bits, setuid etc.
	Extra  fs.FileMode
	Data   []byte
	SizeOf int64 // reported size when BigSize
	Big    bool
	Kids   []*Node
	Parent *Node
	Ino    uint64
	Sec    int64
	Nsec   int64
	ASec   int64
	NoSys  bool
}

// Call is one logged call.
type Call struct {
	Op     string
	Path   string
	To     string
	Flag   int
	Mode   fs.FileMode
	Off    int64
	N      int
	Data   []byte
	At, Mt time.Time
	Err    error
	H      *File
	Mut    bool // changes the tree
}

var (
	// Top is the host's root directory.
	Top = &Node{Name: "/", Dir: true, Perm: 0755, Ino: 1}
	// Log has every call made.
	Log []*Call
	// Fail, when set, may make a call fail before it has any effect.
	Fail func(c *Call) error
	// Hook, when set, sees every call before it runs.
	Hook func(c *Call)
	// Universe makes every path exist (as a directory when UniverseDir).
	Universe    bool
	UniverseDir bool
	// Cwd is the current directory: "/" or, with Universe, any.
	Cwd = "/"
	// Now stamps created and written files.
	Now int64 = 1000
	// ShortWrite, when set, bounds how much a write transfers.
	ShortWrite func(n int) (int, error)
	// ReadFault, when set, may cut a read short with an error.
	ReadFault func(n int) (int, error)
	// Anywhere, when set, does the reads and writes of files that are allowed.
	Anywhere func(c *Call, b []byte) (int, error)
	// CloseErr, when set, is returned by Close after closing.
	CloseErr error

	// Concurrent makes every call a step of its own among those of other
	// goroutines.
	Concurrent bool

	nextIno uint64 = 100
	// Handles lists every handle ever opened.
	Handles []*File
)

// Reset empties the model.
func Reset() {
	Top = &Node{Name: "/", Dir: true, Perm: 0755, Ino: 1}
	Log, Fail, Hook, Universe, UniverseDir, Cwd = nil, nil, nil, false, false, "/"
	Concurrent = false
	Now, ShortWrite, ReadFault, Anywhere, CloseErr, nextIno, Handles = 1000, nil, nil, nil, nil, 100, nil
}

// Add creates a node under d.
func (d *Node) Add(n *Node) *Node {
	n.Parent = d
	if n.Ino == 0 {
		nextIno++
		n.Ino = nextIno
	}
	d.Kids = append(d.Kids, n)
	return n
}

// AddDir creates a directory under d.
func (d *Node) AddDir(name string) *Node { return d.Add(&Node{Name: name, Dir: true, Perm: 0755}) }

// AddFile creates a file under d.
func (d *Node) AddFile(name string, data string) *Node {
	return d.Add(&Node{Name: name, Perm: 0644, Data: []byte(data)})
}

// Kid finds a child by name.
func (d *Node) Kid(name string) *Node {
	for _, k := range d.Kids {
		if k.Name == name {
			return k
		}
	}
	return nil
}

func (d *Node) unlink(n *Node) {
	for i, k := range d.Kids {
		if k == n {
			d.Kids = append(append([]*Node{}, d.Kids[:i]...), d.Kids[i+1:]...)
			n.Parent = nil
			return
		}
	}
}

// Open counts handles not closed.
func OpenHandles() int {
	n := 0
	for _, h := range Handles {
		if !h.Closed {
			n++
		}
	}
	return n
}

// enter begins a call.
func enter() func() {
	if !Concurrent {
		return func() {}
	}
	vnd.Atomic(&Log)
	return vnd.AtomicEnd
}

func begin(c *Call) error {
	Log = append(Log, c)
	if Hook != nil {
		Hook(c)
	}
	if Fail != nil {
		if err := Fail(c); err != nil {
			if n, ok := err.(syscall.Errno); ok { // as the os package does
				err = &fs.PathError{Op: c.Op, Path: c.Path, Err: n}
				if c.To != "" {
					err = &std.LinkError{Op: c.Op, Old: c.Path, New: c.To, Err: n}
				}
			}
			c.Err = err
			return err
		}
	}
	return nil
}

func perr(c *Call, e error) error {
	err := &fs.PathError{Op: c.Op, Path: c.Path, Err: e}
	c.Err = err
	return err
}

// split cuts an absolute path in its elements.
func split(p string) []string {
	var out []string
	st := 0
	for i := 0; i <= len(p); i++ {
		if i == len(p) || p[i] == '/' {
			if i > st {
				out = append(out, p[st:i])
			}
			st = i + 1
		}
	}
	return out
}

func lookup(p string, follow bool, depth int) (*Node, error) {
	if p == "" {
		return nil, syscall.ENOENT
	}
	for i := 0; i < len(p); i++ {
		if p[i] == 0 {
			return nil, syscall.EINVAL
		}
	}
	if Universe {
		es := split(p)
		name := "/"
		if len(es) > 0 {
			name = es[len(es)-1]
		}
		return &Node{Name: name, Dir: UniverseDir, Perm: 0755, Ino: 7}, nil
	}
	n := Top
	es := split(p)
	for i, e := range es {
		if e == "." {
			continue
		}
		if !n.Dir {
			return nil, syscall.ENOTDIR
		}
		if e == ".." {
			if n.Parent != nil {
				n = n.Parent
			}
			continue
		}
		if len(e) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		k := n.Kid(e)
		if k == nil {
			return nil, syscall.ENOENT
		}
		if k.Link && (follow || i < len(es)-1) {
			if depth > 8 {
				return nil, syscall.ELOOP
			}
			t := string(k.Data)
			if t == "" || t[0] != '/' {
				t = PathOf(n) + "/" + t
			}
			r, err := lookup(t, true, depth+1)
			if err != nil {
				return nil, err
			}
			k = r
		}
		n = k
	}
	if p[len(p)-1] == '/' && !n.Dir {
		return nil, syscall.ENOTDIR
	}
	return n, nil
}

// PathOf is the absolute path of a node.
func PathOf(n *Node) string {
	if n.Parent == nil {
		return "/"
	}
	p := PathOf(n.Parent)
	if p == "/" {
		return "/" + n.Name
	}
	return p + "/" + n.Name
}

// Find returns the node at p (nil when absent).
func Find(p string) *Node {
	n, err := lookup(p, false, 0)
	if err != nil {
		return nil
	}
	return n
}

func parentOf(p string) (*Node, string, error) {
	es := split(p)
	if len(es) == 0 {
		return nil, "", syscall.EEXIST
	}
	last := es[len(es)-1]
	d := "/"
	for _, e := range es[:len(es)-1] {
		d += e + "/"
	}
	n, err := lookup(d, true, 0)
	if err != nil {
		return nil, "", err
	}
	if !n.Dir {
		return nil, "", syscall.ENOTDIR
	}
	return n, last, nil
}

type info struct {
	name string
	n    Node
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64 {
	if i.n.Big {
		return i.n.SizeOf
	}
	return int64(len(i.n.Data))
}
func (i *info) Mode() fs.FileMode {
	m := fs.FileMode(i.n.Perm) | i.n.Extra
	if i.n.Dir {
		m |= fs.ModeDir
	}
	if i.n.Link {
		m |= fs.ModeSymlink
	}
	return m
}
func (i *info) ModTime() time.Time { return time.Unix(i.n.Sec, i.n.Nsec) }
func (i *info) IsDir() bool        { return i.n.Dir }
func (i *info) Sys() interface{} {
	if i.n.NoSys {
		return nil
	}
	st := &syscall.Stat_t{Ino: i.n.Ino}
	st.Mtim.Sec, st.Mtim.Nsec = i.n.Sec, i.n.Nsec
	st.Atim.Sec = i.n.ASec
	return st
}

func mkInfo(n *Node, name string) fs.FileInfo { return &info{name, *n} }

func base(p string) string {
	es := split(p)
	if len(es) == 0 {
		return "/"
	}
	return es[len(es)-1]
}

// Stat follows links.
func Stat(name string) (fs.FileInfo, error) {
	defer enter()()
	c := &Call{Op: "stat", Path: name}
	if err := begin(c); err != nil {
		return nil, err
	}
	n, err := lookup(name, true, 0)
	if err != nil {
		return nil, perr(c, err)
	}
	return mkInfo(n, base(name)), nil
}

// Lstat does not follow links.
func Lstat(name string) (fs.FileInfo, error) {
	defer enter()()
	c := &Call{Op: "lstat", Path: name}
	if err := begin(c); err != nil {
		return nil, err
	}
	n, err := lookup(name, false, 0)
	if err != nil {
		return nil, perr(c, err)
	}
	return mkInfo(n, base(name)), nil
}

// File is an open file.
type File struct {
	Node   *Node
	name   string
	Flag   int
	cur    int
	list   []*Node
	pos    int64
	Closed bool
	ID     int
}

// OpenFile is the general open call.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	defer enter()()
	c := &Call{Op: "open", Path: name, Flag: flag, Mode: perm}
	c.Mut = flag&(std.O_CREATE|std.O_TRUNC) != 0
	if err := begin(c); err != nil {
		return nil, err
	}
	n, err := lookup(name, true, 0)
	if err == syscall.ENOENT && flag&std.O_CREATE != 0 {
		d, last, err2 := parentOf(name)
		if err2 != nil {
			return nil, perr(c, err2)
		}
		n = d.Add(&Node{Name: last, Perm: uint32(perm) & 0777, Sec: Now})
	} else if err != nil {
		return nil, perr(c, err)
	} else {
		if flag&std.O_CREATE != 0 && flag&std.O_EXCL != 0 {
			return nil, perr(c, syscall.EEXIST)
		}
		if n.Dir && (flag&(std.O_WRONLY|std.O_RDWR|std.O_CREATE|std.O_TRUNC) != 0) {
			return nil, perr(c, syscall.EISDIR)
		}
		if flag&std.O_TRUNC != 0 {
			n.Data = nil
		}
	}
	h := &File{Node: n, name: name, Flag: flag, ID: len(Handles) + 1}
	c.H = h
	Handles = append(Handles, h)
	return h, nil
}

// Open opens for reading.
func Open(name string) (*File, error) { return OpenFile(name, std.O_RDONLY, 0) }

// Create creates or truncates.
func Create(name string) (*File, error) {
	return OpenFile(name, std.O_RDWR|std.O_CREATE|std.O_TRUNC, 0666)
}

// Mkdir makes a directory.
func Mkdir(name string, perm fs.FileMode) error {
	defer enter()()
	c := &Call{Op: "mkdir", Path: name, Mode: perm, Mut: true}
	if err := begin(c); err != nil {
		return err
	}
	if Universe {
		return nil
	}
	if _, err := lookup(name, false, 0); err == nil {
		return perr(c, syscall.EEXIST)
	}
	d, last, err := parentOf(name)
	if err != nil {
		return perr(c, err)
	}
	d.Add(&Node{Name: last, Dir: true, Perm: uint32(perm) & 0777, Sec: Now})
	return nil
}

// MkdirAll makes a directory and its parents.
func MkdirAll(name string, perm fs.FileMode) error {
	if n, err := lookup(name, true, 0); err == nil && n.Dir && !Universe {
		return nil
	}
	if p := path.Dir(name); p != name && p != "/" && p != "." {
		if err := MkdirAll(p, perm); err != nil {
			return err
		}
	}
	return Mkdir(name, perm)
}

// Remove unlinks a file or empty directory.
func Remove(name string) error {
	defer enter()()
	c := &Call{Op: "remove", Path: name, Mut: true}
	if err := begin(c); err != nil {
		return err
	}
	if Universe {
		return nil
	}
	n, err := lookup(name, false, 0)
	if err != nil {
		return perr(c, err)
	}
	if n.Parent == nil {
		return perr(c, syscall.EBUSY)
	}
	if n.Dir && len(n.Kids) > 0 {
		return perr(c, syscall.ENOTEMPTY)
	}
	n.Parent.unlink(n)
	return nil
}

// RemoveAll unlinks a tree.
func RemoveAll(name string) error {
	defer enter()()
	c := &Call{Op: "removeall", Path: name, Mut: true}
	if err := begin(c); err != nil {
		return err
	}
	if Universe {
		return nil
	}
	n, err := lookup(name, false, 0)
	if err != nil {
		return nil
	}
	if n.Parent != nil {
		n.Parent.unlink(n)
	}
	return nil
}

// LinkError mirrors os.LinkError.
type LinkError = std.LinkError

// Rename moves a file.
func Rename(from, to string) error {
	defer enter()()
	c := &Call{Op: "rename", Path: from, To: to, Mut: true}
	if err := begin(c); err != nil {
		return err
	}
	if Universe {
		return nil
	}
	fail := func(e error) error {
		err := &LinkError{Op: "rename", Old: from, New: to, Err: e}
		c.Err = err
		return err
	}
	n, err := lookup(from, false, 0)
	if err != nil {
		return fail(err)
	}
	if n.Parent == nil {
		return fail(syscall.EBUSY)
	}
	d, last, err := parentOf(to)
	if err != nil {
		return fail(err)
	}
	for a := d; a != nil; a = a.Parent {
		if a == n {
			return fail(syscall.EINVAL)
		}
	}
	if old := d.Kid(last); old != nil {
		if old == n {
			return nil
		}
		if old.Dir {
			if !n.Dir {
				return fail(syscall.EEXIST)
			}
			if len(old.Kids) > 0 {
				return fail(syscall.ENOTEMPTY)
			}
		} else if n.Dir {
			return fail(syscall.ENOTDIR)
		}
		d.unlink(old)
	}
	n.Parent.unlink(n)
	n.Name = last
	n.Parent = d
	d.Kids = append(d.Kids, n)
	return nil
}

// Chmod changes permission bits.
func Chmod(name string, mode fs.FileMode) error {
	defer enter()()
	c := &Call{Op: "chmod", Path: name, Mode: mode, Mut: true}
	if err := begin(c); err != nil {
		return err
	}
	n, err := lookup(name, true, 0)
	if err != nil {
		return perr(c, err)
	}
	n.Perm = uint32(mode) & 0777
	n.Extra = mode & (fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky)
	return nil
}

// Chown changes the owner.
func Chown(name string, uid, gid int) error {
	return begin(&Call{Op: "chown", Path: name, Mut: true})
}

// Lchown changes the owner.
func Lchown(name string, uid, gid int) error {
	return begin(&Call{Op: "chown", Path: name, Mut: true})
}

// Chtimes sets the times.
func Chtimes(name string, at, mt time.Time) error {
	defer enter()()
	c := &Call{Op: "chtimes", Path: name, At: at, Mt: mt, Mut: true}
	if err := begin(c); err != nil {
		return err
	}
	n, err := lookup(name, true, 0)
	if err != nil {
		return perr(c, err)
	}
	// a zero time leaves that time alone
	if !mt.IsZero() {
		n.Sec, n.Nsec = mt.Unix(), int64(mt.Nanosecond())
	}
	if !at.IsZero() {
		n.ASec = at.Unix()
	}
	return nil
}

func resize(n *Node, size int64) {
	if size > 16384 {
		n.Big, n.SizeOf = true, size
		return
	}
	if size <= int64(len(n.Data)) {
		n.Data = n.Data[:size]
		return
	}
	for int64(len(n.Data)) < size {
		n.Data = append(n.Data, 0)
	}
}

// Truncate sets the length.
func Truncate(name string, size int64) error {
	defer enter()()
	c := &Call{Op: "truncate", Path: name, Off: size, Mut: true}
	if err := begin(c); err != nil {
		return err
	}
	n, err := lookup(name, true, 0)
	if err != nil {
		return perr(c, err)
	}
	if n.Dir {
		return perr(c, syscall.EISDIR)
	}
	if size < 0 {
		return perr(c, syscall.EINVAL)
	}
	resize(n, size)
	return nil
}

// Readlink reads a link.
func Readlink(name string) (string, error) {
	defer enter()()
	c := &Call{Op: "readlink", Path: name}
	if err := begin(c); err != nil {
		return "", err
	}
	n, err := lookup(name, false, 0)
	if err != nil {
		return "", perr(c, err)
	}
	if !n.Link {
		return "", perr(c, syscall.EINVAL)
	}
	return string(n.Data), nil
}

// Symlink makes a link.
func Symlink(old, name string) error {
	defer enter()()
	c := &Call{Op: "symlink", Path: name, To: old, Mut: true}
	if err := begin(c); err != nil {
		return err
	}
	d, last, err := parentOf(name)
	if err != nil {
		return perr(c, err)
	}
	if d.Kid(last) != nil {
		return perr(c, syscall.EEXIST)
	}
	d.Add(&Node{Name: last, Link: true, Perm: 0777, Data: []byte(old)})
	return nil
}

// Link is not modelled beyond its log entry.
func Link(old, name string) error {
	return begin(&Call{Op: "link", Path: old, To: name, Mut: true})
}

// ReadDir lists a directory.
func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return append([]byte{}, f.Node.Data...), nil
}

// WriteFile writes a whole file.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, std.O_WRONLY|std.O_CREATE|std.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	f.Close()
	return err
}

// Getuid and friends are constants of the model.
// Getwd is the current directory.
func Getwd() (string, error) { return Cwd, nil }

func Getuid() int { return 0 }

// Getgid is a constant of the model.
func Getgid() int { return 0 }

// Geteuid is a constant of the model.
func Geteuid() int { return 0 }

// Getenv knows no variables.
func Getenv(string) string { return "" }

// SameFile compares inode numbers.
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.n.Ino == y.n.Ino
}

// ---- handles

func (f *File) chk(op string) (*Call, error) {
	if f == nil {
		return nil, fs.ErrInvalid
	}
	c := &Call{Op: op, Path: f.name, H: f}
	if f.Closed {
		Log = append(Log, c)
		return c, perr(c, fs.ErrClosed)
	}
	return c, nil
}

// Name is the name given to open.
func (f *File) Name() string { return f.name }

// Fd is a fake descriptor.
func (f *File) Fd() uintptr { return uintptr(f.ID + 2) }

// Close closes.
func (f *File) Close() error {
	defer enter()()
	if f == nil {
		return fs.ErrInvalid
	}
	c, err := f.chk("close")
	if err != nil {
		return err
	}
	f.Closed = true
	if err := begin(c); err != nil {
		return err
	}
	return CloseErr
}

// Stat describes the open file.
func (f *File) Stat() (fs.FileInfo, error) {
	defer enter()()
	c, err := f.chk("fstat")
	if err != nil {
		return nil, err
	}
	if err := begin(c); err != nil {
		return nil, err
	}
	return mkInfo(f.Node, base(f.name)), nil
}

// Sync flushes.
func (f *File) Sync() error {
	defer enter()()
	c, err := f.chk("sync")
	if err != nil {
		return err
	}
	return begin(c)
}

func (f *File) readable() bool { return f.Flag&(std.O_WRONLY|std.O_RDWR) != std.O_WRONLY }
func (f *File) writable() bool { return f.Flag&(std.O_WRONLY|std.O_RDWR) != 0 }

// ReadAt reads len(b) bytes at off or up to the end of the file.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if !Concurrent {
		return f.readAt(b, off)
	}
	t := make([]byte, len(b))
	n, err := f.readAt(t, off)
	vacc.Copy(b, t[:n])
	return n, err
}

func (f *File) readAt(b []byte, off int64) (int, error) {
	defer enter()()
	c, err := f.chk("readat")
	if err != nil {
		return 0, err
	}
	c.Off, c.N = off, len(b)
	if off < 0 {
		Log = append(Log, c)
		return 0, perr(c, syscall.EINVAL)
	}
	if err := begin(c); err != nil {
		return 0, err
	}
	if f.Node.Dir {
		return 0, perr(c, syscall.EISDIR)
	}
	if !f.readable() {
		return 0, perr(c, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if Anywhere != nil {
		return Anywhere(c, b)
	}
	size := int64(len(f.Node.Data))
	if off >= size {
		return 0, io.EOF
	}
	off = int64(vnd.Pin(uint64(off)))
	avail := int(size - off)
	n := avail
	if len(b) < avail {
		n = len(b)
	}
	if ReadFault != nil {
		if k, err := ReadFault(n); err != nil {
			if k < n {
				n = k
			}
			copy(b, f.Node.Data[off:int(off)+n])
			return n, perr(c, err)
		}
	}
	copy(b, f.Node.Data[off:int(off)+n])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// Read reads sequentially.
func (f *File) Read(b []byte) (int, error) {
	n, err := f.ReadAt(b, f.pos)
	f.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

// WriteAt writes b at off.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if Concurrent {
		t := make([]byte, len(b))
		vacc.Copy(t, b)
		b = t
	}
	return f.writeAt(b, off)
}

func (f *File) writeAt(b []byte, off int64) (int, error) {
	defer enter()()
	c, err := f.chk("writeat")
	if err != nil {
		return 0, err
	}
	c.Off, c.N, c.Data, c.Mut = off, len(b), append([]byte{}, b...), true
	if off < 0 {
		Log = append(Log, c)
		return 0, perr(c, syscall.EINVAL)
	}
	if err := begin(c); err != nil {
		return 0, err
	}
	if !f.writable() {
		return 0, perr(c, syscall.EBADF)
	}
	if Anywhere != nil {
		return Anywhere(c, b)
	}
	n := len(b)
	var werr error
	if ShortWrite != nil {
		if k, err := ShortWrite(n); err != nil {
			if k < n {
				n = k
			}
			werr = perr(c, err)
		}
	}
	if n == 0 {
		return 0, werr
	}
	if off > 4096 {
		// a sparse write far out: logged, not materialised
		return n, werr
	}
	off = int64(vnd.Pin(uint64(off)))
	if int64(len(f.Node.Data)) < off+int64(n) {
		resize(f.Node, off+int64(n))
	}
	if !f.Node.Big {
		copy(f.Node.Data[off:], b[:n])
	}
	return n, werr
}

// Write writes sequentially.
func (f *File) Write(b []byte) (int, error) {
	off := f.pos
	if f != nil && f.Flag&std.O_APPEND != 0 {
		off = int64(len(f.Node.Data))
	}
	n, err := f.WriteAt(b, off)
	f.pos = off + int64(n)
	return n, err
}

// WriteString writes sequentially.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Seek moves the position; on a directory offset 0 rewinds the listing.
func (f *File) Seek(off int64, whence int) (int64, error) {
	defer enter()()
	c, err := f.chk("seek")
	if err != nil {
		return 0, err
	}
	c.Off = off
	if err := begin(c); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.Node.Data))
	}
	if off < 0 {
		return 0, perr(c, syscall.EINVAL)
	}
	f.pos = off
	if f.Node.Dir {
		f.list, f.cur = nil, 0
	}
	return off, nil
}

// Readdir lists the directory from the current position.
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	defer enter()()
	c, err := f.chk("readdir")
	if err != nil {
		return nil, err
	}
	c.N = n
	if err := begin(c); err != nil {
		return nil, err
	}
	if !f.Node.Dir {
		return nil, perr(c, syscall.ENOTDIR)
	}
	if f.list == nil {
		f.list = append([]*Node{}, f.Node.Kids...)
		f.cur = 0
	}
	var out []fs.FileInfo
	for f.cur < len(f.list) && (n <= 0 || len(out) < n) {
		k := f.list[f.cur]
		f.cur++
		out = append(out, mkInfo(k, k.Name))
	}
	if n > 0 && len(out) == 0 {
		return nil, io.EOF
	}
	return out, nil
}

// Readdirnames lists names.
func (f *File) Readdirnames(n int) ([]string, error) {
	is, err := f.Readdir(n)
	var out []string
	for _, i := range is {
		out = append(out, i.Name())
	}
	return out, err
}

type dirEntry struct{ fs.FileInfo }

func (d dirEntry) Type() fs.FileMode          { return d.Mode().Type() }
func (d dirEntry) Info() (fs.FileInfo, error) { return d.FileInfo, nil }
func (d dirEntry) String() string             { return d.Name() }

// ReadDir lists entries.
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	is, err := f.Readdir(n)
	var out []fs.DirEntry
	for _, i := range is {
		out = append(out, dirEntry{i})
	}
	return out, err
}

// Truncate sets the length.
func (f *File) Truncate(size int64) error {
	defer enter()()
	c, err := f.chk("truncate")
	if err != nil {
		return err
	}
	c.Off, c.Mut = size, true
	if err := begin(c); err != nil {
		return err
	}
	if size < 0 || !f.writable() {
		return perr(c, syscall.EINVAL)
	}
	resize(f.Node, size)
	return nil
}

// Chmod changes permission bits.
func (f *File) Chmod(mode fs.FileMode) error {
	defer enter()()
	c, err := f.chk("chmod")
	if err != nil {
		return err
	}
	c.Mode, c.Mut = mode, true
	if err := begin(c); err != nil {
		return err
	}
	f.Node.Perm = uint32(mode) & 0777
	return nil
}

// Chown changes the owner.
func (f *File) Chown(uid, gid int) error {
	defer enter()()
	c, err := f.chk("chown")
	if err != nil {
		return err
	}
	c.Mut = true
	return begin(c)
}
