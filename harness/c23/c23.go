// Package c23: listeners and independent connections.
package c23

import (
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	p9 "github.com/Harvey-OS/ninep/protocol"
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	. "github.com/Harvey-OS/ninep/zzverif/hufs"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
	"github.com/Harvey-OS/ninep/zzverif/vtime"
)

type tempErr struct{ temp bool }

func (e tempErr) Error() string   { return "accept failed" }
func (e tempErr) Temporary() bool { return e.temp }
func (e tempErr) Timeout() bool   { return false }

func opErr(e error) error { return &net.OpError{Op: "accept", Net: "tcp", Err: e} }

// temps are temporary errors, lasts are others.
func temps() []error {
	return []error{tempErr{true}, &NetErr{"timeout", true, true}, opErr(syscall.EMFILE), opErr(&os.SyscallError{Syscall: "accept4", Err: syscall.ENFILE}), opErr(syscall.ECONNABORTED), syscall.EINTR, os.ErrDeadlineExceeded}
}

func lasts() []error {
	return []error{errPlain, tempErr{false}, &NetErr{"timeout", true, false}, opErr(net.ErrClosed), opErr(syscall.EINVAL), net.ErrClosed, io.EOF, syscall.EBADF, errors.New("accept tcp: temporary failure, timeout")}
}

// C23_Kinds: accept errors of every kind.
func C23_Kinds() {
	vnd.Bound("listener: two temporary errors, a connection, a temporary error and one that is not, the temporary ones of 7 kinds (net.Error with and without timeout, too many open files, aborted, interrupted, deadline), the last of 9 (net.Error that says it is not, closed, end of file, a text that says temporary)")
	vtime.Slept = nil
	var ns *Rec
	l, err := p9.NewListener(func() p9.NineServer { ns = &Rec{}; return ns })
	vnd.Assert(err == nil, "NewListener fails")
	x := newLn()
	t, e := temps(), lasts()
	a, b := t[vnd.Choose("a", len(t))], t[vnd.Choose("b", len(t))]
	last := e[vnd.Choose("last", len(e))]
	c := NewConn()
	for _, r := range []accepted{{nil, a}, {nil, b}, {c, nil}, {nil, b}, {nil, last}} {
		x.next <- r
	}
	got := l.Serve(x)
	vnd.Assert(len(x.next) == 0, "serving ends before the listener fails")
	vnd.Assert(got == last, "serving ends with another error than the accept error")
	vnd.Assert(x.Closes >= 1, "serving ends without closing the listener")
	vnd.Assert(len(vtime.Slept) == 3, "not one pause for each temporary accept error")
	for i, w := range []time.Duration{5, 10, 5} {
		vnd.Assert(vtime.Slept[i] == w*time.Millisecond, "a pause has the wrong length")
	}
	c.Send(Encode(Tversion, 3, []F{U32F(8192), StrF("9P2000")}))
	WantReply(c.Recv(), Rversion, 3, []F{U32F(0), StrF("")}, "version on an accepted connection")
	vnd.Cover("served")
}

var errPlain = errors.New("accept failed for good")

type accepted struct {
	c   net.Conn
	err error
}

// ln is a scripted listener.
type ln struct {
	next   chan accepted
	closed chan struct{}
	Closes int
	cerr   error
}

func newLn() *ln { return &ln{next: make(chan accepted, 50), closed: make(chan struct{})} }

func (l *ln) Accept() (net.Conn, error) {
	select {
	case a := <-l.next:
		return a.c, a.err
	case <-l.closed:
		return nil, errors.New("use of closed network connection")
	}
}
func (l *ln) Close() error {
	l.Closes++
	if l.Closes == 1 {
		close(l.closed)
	}
	return l.cerr
}
func (l *ln) Addr() net.Addr { return Addr{} }

// C23_Retry: temporary errors are retried with growing pauses.
func C23_Retry() {
	k := 4
	if vnd.Config("tier", 0) > 0 {
		k = 6
	}
	vnd.Bound("listener: every sequence of up to 4 (thorough: 6) accept results (connection, temporary error), or 12 temporary errors in a row, then an error that is not temporary (plain, or a net.Error that says so): the pauses are 5 ms, doubled up to 1 s, from 5 ms again after a success; with and without Trace")
	vtime.Slept = nil
	trace := vnd.Choose("trace", 2) == 1
	rec := []*Rec{}
	l, err := p9.NewListener(func() p9.NineServer { r := &Rec{}; rec = append(rec, r); return r }, func(l *p9.Listener) error {
		if trace {
			l.Trace = Trace
		}
		return nil
	})
	vnd.Assert(err == nil, "NewListener fails")
	x := newLn()
	var want []time.Duration
	d := time.Duration(0)
	var conns []*Conn
	temp := func() {
		x.next <- accepted{nil, tempErr{true}}
		if d == 0 {
			d = 5 * time.Millisecond
		} else {
			d *= 2
		}
		if d > time.Second {
			d = time.Second
		}
		want = append(want, d)
	}
	if vnd.Choose("row", 2) == 1 {
		for i := 0; i < 12; i++ {
			temp()
		}
	} else {
		n := vnd.Choose("n", k+1)
		for i := 0; i < n; i++ {
			if vnd.Choose("what", 2) == 0 {
				temp()
			} else {
				c := NewConn()
				conns = append(conns, c)
				x.next <- accepted{c, nil}
				d = 0
			}
		}
	}
	last := []error{errPlain, tempErr{false}}[vnd.Choose("last", 2)]
	x.next <- accepted{nil, last}
	got := l.Serve(x)
	vnd.Assert(got == last, "serving ends with another error than the accept error")
	vnd.Assert(x.Closes >= 1, "serving ends without closing the listener")
	vnd.Assert(len(vtime.Slept) == len(want), "not one pause for each temporary accept error")
	for i := range want {
		vnd.Assert(vtime.Slept[i] == want[i], "a pause has the wrong length")
	}
	vnd.Assert(len(x.next) == 0, "serving ends before the listener fails")
	// every accepted connection is served, on its own state
	for i, c := range conns {
		c.Send(Encode(Tversion, uint16(i), []F{U32F(8192), StrF("9P2000")}))
		WantReply(c.Recv(), Rversion, uint16(i), []F{U32F(0), StrF("")}, "version on an accepted connection")
	}
	vnd.Assert(len(rec) == len(conns), "not one file server state for each connection")
	for _, r := range rec {
		vnd.Assert(len(r.Ops) == 1, "a connection's request is performed on another's state")
	}
	vnd.Cover("served")
}

// C23_TwoListeners: the pauses of one listener do not depend on another's.
func C23_TwoListeners() {
	k := 4
	if vnd.Config("tier", 0) > 0 {
		k = 6
	}
	vnd.Bound("listener: two network listeners served by it at once, every sequence of up to 4 (thorough: 6) accept results (connection, temporary error) and ends on either; each pause is that of its own listener")
	vtime.Slept = nil
	recs := 0
	l, err := p9.NewListener(func() p9.NineServer { recs++; return &Rec{} })
	vnd.Assert(err == nil, "NewListener fails")
	xs := []*ln{newLn(), newLn()}
	ended := []chan error{make(chan error, 1), make(chan error, 1)}
	d := []time.Duration{0, 0}
	over := []bool{false, false}
	for i := range xs {
		i := i
		go func() { ended[i] <- l.Serve(xs[i]) }()
	}
	n := vnd.Choose("n", k+1)
	for i := 0; i < n; i++ {
		x := vnd.Choose("listener", 2)
		if over[x] {
			continue
		}
		had := len(vtime.Slept)
		switch vnd.Choose("what", 3) {
		case 0:
			xs[x].next <- accepted{nil, tempErr{true}}
			vnd.Quiesce()
			if d[x] == 0 {
				d[x] = 5 * time.Millisecond
			} else if d[x] *= 2; d[x] > time.Second {
				d[x] = time.Second
			}
			vnd.Assert(len(vtime.Slept) == had+1 && vtime.Slept[had] == d[x], "the pause after a temporary error is not that of the listener by itself")
		case 1:
			c := NewConn()
			xs[x].next <- accepted{c, nil}
			vnd.Quiesce()
			Versioned(c)
			d[x] = 0
			vnd.Assert(len(vtime.Slept) == had, "a pause without an error")
		case 2:
			xs[x].next <- accepted{nil, errPlain}
			vnd.Assert(<-ended[x] == errPlain, "serving ends with another error than the accept error")
			over[x] = true
			vnd.Assert(xs[x].Closes >= 1, "serving ends without closing the listener")
			vnd.Assert(over[1-x] || xs[1-x].Closes == 0, "the end of one listener closes another")
			vnd.Cover("one ended")
		}
	}
	for i, x := range xs {
		if !over[i] {
			// it is still being served
			c := NewConn()
			x.next <- accepted{c, nil}
			vnd.Quiesce()
			Versioned(c)
		}
	}
	l.Shutdown()
	for i := range xs {
		if !over[i] {
			vnd.Assert(<-ended[i] != nil, "serving ends without an error after a shutdown")
		}
		vnd.Assert(xs[i].Closes >= 1, "a shutdown leaves a listener open")
	}
	vnd.Cover("both ended")
}

// C23_Shutdown: a shutdown closes every listener and ends serving.
func C23_Shutdown() {
	vnd.Bound("listener: shutdown with 0 to 2 listeners being served, each closing with or without an error, with a connection served or not: every listener is closed, serving ends, a served connection goes on; all interleavings")
	l, err := p9.NewListener(func() p9.NineServer { return &Rec{} })
	vnd.Assert(err == nil, "NewListener fails")
	n := vnd.Choose("listeners", 3)
	var ls []*ln
	done := make(chan error, 4)
	fails := false
	for i := 0; i < n; i++ {
		x := newLn()
		if vnd.Choose("cerr", 2) == 1 {
			x.cerr = errPlain
			fails = true
		}
		ls = append(ls, x)
	}
	var c *Conn
	if n > 0 && vnd.Choose("conn", 2) == 1 {
		c = NewConn()
		ls[0].next <- accepted{c, nil}
	}
	for _, x := range ls {
		x := x
		go func() { done <- l.Serve(x) }()
	}
	vnd.Quiesce()
	vnd.SchedAll(-1)
	err = l.Shutdown()
	vnd.Assert((err != nil) == fails, "shutdown hides or invents an error")
	for range ls {
		vnd.Assert(<-done != nil, "serving ends without an error after a shutdown")
	}
	for _, x := range ls {
		vnd.Assert(x.Closes >= 1, "a shutdown leaves a listener open")
	}
	vnd.SchedDet()
	if c != nil {
		Versioned(c)
		vnd.Cover("connection goes on")
	}
	vnd.Assert(l.Shutdown() == nil, "a second shutdown fails")
	vnd.Cover("shut down")
}

// C23_Independent: two connections to the file server.
func C23_Independent() {
	vnd.Bound("file server: two connections; the second does nothing, agrees on a version, uses the same fid number for another file, sends garbage (any 9 bytes with a size of 9), ends in the middle of a message, fails, or cannot be written to; the replies on the first are the same")
	Tree()
	l := Listener("/r", vnd.Choose("debug", 2) == 1, vnd.Choose("trace", 2) == 1)
	a, b := Connect(l), Connect(l)
	f := Distinct(1)[0]
	what := vnd.Choose("other", 8)
	other := func() {
		switch what {
		case 1:
			b.Version().OK("version")
		case 2:
			b.Version().OK("version")
			b.Attach(f, "/g").OK("attach")
			b.Open(f, ORDWR).OK("open")
			b.Write(f, 0, []byte("GG")).OK("write")
		case 3:
			m := vnd.Bytes("garbage", 9)
			m[0], m[1], m[2], m[3] = 9, 0, 0, 0
			b.C.Send(m)
			b.C.Recv()
		case 4:
			b.C.Send([]byte{20, 0, 0, 0, 100, 1})
			b.C.End()
			b.C.WaitClosed()
		case 5:
			b.C.EndErr = ErrNet
			b.C.End()
			b.C.WaitClosed()
		case 6:
			b.C.WriteErr = func(int) (int, error) { return 0, ErrNet }
			b.C.Send(Version())
			b.C.WaitClosed()
		case 7:
			b.Version().OK("version")
			b.Attach(f, "/f").OK("attach")
			b.Remove(f ^ 1).Refused("remove of a fid that does not exist")
			b.Clunk(f).OK("clunk")
		}
	}
	at := vnd.Choose("when", 4)
	if at == 0 {
		other()
		a.Stat(f).Refused("a request before the version on the first connection")
	}
	a.Version().OK("version on the first connection")
	if at == 1 {
		other()
		a.Stat(f).Refused("stat of a fid of the other connection")
	}
	a.Attach(f, "/f").OK("attach on the first connection")
	if at == 2 {
		other()
	}
	a.Open(f, OREAD).OK("open on the first connection")
	if at == 3 {
		other()
	}
	vnd.Assert(string(a.Read(f, 0, 100).OK("read on the first connection").F[0].B) == "hello", "another connection changes what is read")
	a.Clunk(f).OK("clunk on the first connection")
	vnd.Cover("independent")
}

// C23_Many: many connections.
func C23_Many() {
	n := 300
	if vnd.Config("tier", 0) > 0 {
		n = 1100
	}
	vnd.Bound("file server: 300 (thorough: 1100) connections of one listener, (and 1100 without the debug layer) each with the same fid for a file of its own, all open at once or ended after use, their requests in turn or one connection after the other, with and without Trace and the debug layer")
	debug := vnd.Choose("debug", 2) == 1
	order := vnd.Choose("order", 4)
	if order == 3 {
		vnd.Assume(!debug)
		n, order = 1100, 0
	}
	vos.Reset()
	r := vos.Top.AddDir("r")
	name := func(i int) string {
		return string(rune('a'+i%26)) + string(rune('a'+i/26%26)) + string(rune('a'+i/676))
	}
	for i := 0; i < n; i++ {
		r.AddFile(name(i), "contents of "+name(i))
	}
	l := Listener("/r", debug, debug)
	f := Distinct(1)[0]
	var ss []*S
	steps := []func(i int){
		func(i int) {
			s := Connect(l)
			ss = append(ss, s)
			s.Stat(f).Refused("a request before the version")
			s.Version().OK("version")
		},
		func(i int) {
			ss[i].Stat(f).Refused("stat of a fid of another connection")
			ss[i].Attach(f, "/"+name(i)).OK("attach")
		},
		func(i int) { ss[i].Open(f, OREAD).OK("open") },
		func(i int) {
			vnd.Assert(string(ss[i].Read(f, 0, 100).OK("read").F[0].B) == "contents of "+name(i), "a connection reads what is not in its file")
			vnd.Assert(ss[i].Stat(f).OK("stat").Dir().Name == name(i), "a fid stands for another connection's file")
		},
	}
	switch order {
	case 0:
		for _, step := range steps {
			for i := 0; i < n; i++ {
				step(i)
			}
		}
	case 1:
		for i := 0; i < n; i++ {
			for _, step := range steps {
				step(i)
			}
		}
	case 2:
		for i := 0; i < n; i++ {
			for _, step := range steps {
				step(i)
			}
			if i%10 != 0 {
				ss[i].C.End()
				ss[i].C.WaitClosed()
			}
		}
		for i := 0; i < n; i += 10 {
			steps[3](i)
		}
	}
	vnd.Cover("many")
}

// C23_Concurrent: requests on two connections at the same time.
func C23_Concurrent() {
	vnd.Bound("server: two connections on one listener, each with its own recording file server, requests at the same time: all interleavings; each gets its own replies")
	var mine []*Rec
	k := 0
	l, err := p9.NewListener(func() p9.NineServer { k++; return mine[k-1] })
	vnd.Assert(err == nil, "NewListener fails")
	a, b := vnd.Bytes("a", 2), vnd.Bytes("b", 2)
	for _, d := range [][]byte{a, b} {
		d := d
		mine = append(mine, &Rec{Do: func(typ int, _ []F) ([]F, error) {
			if typ == Tread {
				return []F{DataF(d)}, nil
			}
			return nil, nil
		}})
	}
	cs := []*Conn{NewConn(), NewConn()}
	vnd.SchedAll(-1)
	for i, c := range cs {
		vnd.Assert(l.Accept(c) == nil, "Accept fails")
		c.Send(Encode(Tversion, uint16(10+i), []F{U32F(8192), StrF("9P2000")}))
	}
	for i, c := range cs {
		c.Send(Encode(Tread, uint16(20+i), []F{U32F(1), U64F(uint64(i)), U32F(2)}))
	}
	for i, c := range cs {
		WantReply(c.Recv(), Rversion, uint16(10+i), []F{U32F(0), StrF("")}, "version")
		WantReply(c.Recv(), Rread, uint16(20+i), []F{DataF([][]byte{a, b}[i])}, "read")
	}
	for i := range mine {
		vnd.Assert(len(mine[i].Ops) == 2 && mine[i].Ops[1].F[1].U == uint64(i), "a request is performed on another connection's state")
	}
	vnd.Cover("concurrent")
}

// C23_Files: requests to the file server on two connections at the same time.
func C23_Files() {
	vnd.Bound("file server: every two of 12 requests (version, attach, walk, open, create of a file and a directory, read of a file and a directory, write, clunk, stat, wstat) on two connections at the same time, arbitrary contents, each with its own files and arbitrary fids: all interleavings, with every call of the host a step; each gets the replies it would get alone; debug layer on and off")
	Tree()
	r := vos.Find("/r")
	dirs := []string{"d", "k"}
	k := r.AddDir("k")
	k.AddFile("y", "yyy")
	var data [][]byte
	for i, p := range []string{"/r/d/x", "/r/k/y"} {
		b := vnd.Bytes("content", 2+i)
		vos.Find(p).Data = b
		data = append(data, append([]byte{}, b...))
	}
	files := []string{"x", "y"}
	l := Listener("/r", vnd.Choose("debug", 2) == 1, false)
	var ss []*S
	var fs []uint32
	var kinds []int
	for i := range dirs {
		s := Connect(l)
		s.Version().OK("version")
		f := vnd.U32("fid")
		vnd.Assume(f < NOFID-4)
		k := vnd.Choose("kind", 12)
		if i == 1 {
			vnd.Assume(k <= kinds[0])
		}
		s.Attach(f, "/"+dirs[i]).OK("attach")
		s.Walk(f, f+1, files[i]).OK("walk")
		if k == 6 || k == 8 || k == 9 {
			s.Open(f+1, ORDWR).OK("open")
		}
		if k == 7 {
			s.Open(f, OREAD).OK("open")
		}
		ss, fs, kinds = append(ss, s), append(fs, f), append(kinds, k)
	}
	more := [][]byte{vnd.Bytes("more", 2), vnd.Bytes("more", 2)}
	one := func(i int) {
		s, f := ss[i], fs[i]
		node := vos.Find("/r/" + dirs[i] + "/" + files[i])
		switch kinds[i] {
		case 0:
			s.Version().OK("version")
			s.Stat(f).Refused("stat of a fid of the old session")
		case 1:
			q := s.Attach(f+2, "/"+dirs[i]).OK("attach").F[0].Q
			vnd.Assert(q.P == node.Parent.Ino, "an attach gives another connection's file")
		case 2:
			q := s.Walk(f, f+2, files[i]).OK("walk").F[0].QQ
			vnd.Assert(len(q) == 1 && q[0].P == node.Ino, "a walk gives another connection's file")
		case 3:
			q := s.Open(f+1, OREAD).OK("open").F[0].Q
			vnd.Assert(q.P == node.Ino, "an open gives another connection's file")
		case 4, 5:
			q := s.Create(f, "new", []uint32{0640, DMDIR | 0750}[kinds[i]-4], ORDWR).OK("create").F[0].Q
			n := vos.Find("/r/" + dirs[i] + "/new")
			vnd.Assert(n != nil && q.P == n.Ino && n.Dir == (kinds[i] == 5), "a create makes another connection's file")
		case 6:
			vnd.Assert(vnd.BytesEq(s.Read(f+1, 0, 100).OK("read").F[0].B, data[i]), "a read returns another connection's data")
		case 7:
			d, ok := DecodeDir(s.Read(f, 0, 1000).OK("read of a directory").F[0].B)
			vnd.Assert(ok && d.Q.P == node.Parent.Kids[0].Ino && d.Name == node.Parent.Kids[0].Name, "a directory read returns another connection's data")
		case 8:
			n := s.Write(f+1, 0, more[i]).OK("write").F[0].U
			vnd.Assert(n == 2 && vnd.BytesEq(node.Data, append(append([]byte{}, more[i]...), data[i][2:]...)), "a write stores another connection's data")
		case 9:
			s.Clunk(f + 1).OK("clunk")
			s.Stat(f + 1).Refused("stat of a clunked fid")
		case 10:
			d := s.Stat(f + 1).OK("stat").Dir()
			vnd.Assert(d.Q.P == node.Ino && d.Name == files[i] && d.Length == uint64(len(data[i])), "a stat is that of another connection's file")
		case 11:
			d := DontTouch()
			d.Mode = uint32(0600 + i)
			s.Wstat(f+1, d).OK("wstat")
			vnd.Assert(node.Perm == uint32(0600+i), "a wstat changes another connection's file")
		}
	}
	if vnd.Symbolic() {
		vos.Concurrent = true
		vnd.SchedAll(-1)
		done := make(chan bool)
		go func() { one(1); done <- true }()
		one(0)
		<-done
	} else {
		one(0)
		one(1)
	}
	vnd.Cover("both served")
}

// C23_Stuck: a connection that makes no progress holds up no other.
func C23_Stuck() {
	vnd.Bound("server: of two connections accepted by Serve or Accept, one is stuck in the middle of a message, in an operation or in writing a reply; the other is served; then the first goes on")
	block := make(chan bool)
	a, b := NewConn(), NewConn()
	what := vnd.Choose("stuck", 3)
	v := vnd.Bytes("v", 2)
	l, err := p9.NewListener(func() p9.NineServer {
		return &Rec{Do: func(typ int, f []F) ([]F, error) {
			if typ == Tread && f[0].U == 7 {
				<-block
			}
			if typ == Tread {
				return []F{DataF(v)}, nil
			}
			return nil, nil
		}}
	})
	vnd.Assert(err == nil, "NewListener fails")
	x := newLn()
	if vnd.Choose("serve", 2) == 1 {
		go l.Serve(x)
		x.next <- accepted{a, nil}
	} else {
		vnd.Assert(l.Accept(a) == nil, "Accept fails")
		go l.Serve(x)
	}
	early := vnd.Choose("early", 2) == 1
	if early {
		x.next <- accepted{b, nil}
	}
	read := func(fid uint32) []byte { return Encode(Tread, 5, []F{U32F(fid), U64F(0), U32F(2)}) }
	vers := func(c *Conn) {
		c.Send(Encode(Tversion, 3, []F{U32F(8192), StrF("9P2000")}))
		WantReply(c.Recv(), Rversion, 3, []F{U32F(0), StrF("")}, "version")
	}
	vers(a)
	m := read(1)
	switch what {
	case 0:
		a.Send(m[:9])
	case 1:
		m = read(7)
		a.Send(m)
	case 2:
		a.WriteErr = func(n int) (int, error) { <-block; return n, nil }
		a.Send(m)
	}
	vnd.Quiesce()
	if !early {
		x.next <- accepted{b, nil}
	}
	vers(b)
	b.Send(read(2))
	WantReply(b.Recv(), Rread, 5, []F{DataF(v)}, "a read while another connection is stuck")
	switch what {
	case 0:
		a.Send(m[9:])
	default:
		close(block)
	}
	if what != 2 {
		WantReply(a.Recv(), Rread, 5, []F{DataF(v)}, "a read on the connection that was stuck")
	}
	vnd.Cover("not held up")
}

// C23_Held: the host keeps one connection waiting.
func C23_Held() {
	vnd.Bound("file server: a host call of one of 11 requests (attach, walk, open, create of a file and a directory, read of a file and a directory, write, stat, wstat, remove) of a connection does not return, as with a pipe that nobody writes to; another connection, there before or accepted meanwhile, is served requests of all types; then the first goes on; debug layer on and off")
	Tree()
	l := Listener("/r", vnd.Choose("debug", 2) == 1, false)
	a := Connect(l)
	a.Version().OK("version")
	a.Attach(1, "/g").OK("attach")
	a.Attach(2, "").OK("attach")
	k := vnd.Choose("kind", 11)
	if k == 5 || k == 7 {
		a.Open(1, ORDWR).OK("open")
	}
	if k == 6 {
		a.Open(2, OREAD).OK("open")
	}
	var b *S
	early := vnd.Choose("early", 2) == 1
	if early {
		b = Connect(l)
		b.Version().OK("version")
	}
	block, held := make(chan bool), false
	vos.Hook = func(*vos.Call) {
		if !held {
			held = true
			<-block
		}
	}
	d := DontTouch()
	d.Mode = 0600
	done := make(chan R, 1)
	go func() {
		var r R
		switch k {
		case 0:
			r = a.Attach(3, "/g")
		case 1:
			r = a.Walk(2, 3, "g")
		case 2:
			r = a.Open(1, OREAD)
		case 3:
			r = a.Create(2, "new", 0644, ORDWR)
		case 4:
			r = a.Create(2, "new", DMDIR|0755, OREAD)
		case 5:
			r = a.Read(1, 0, 2)
		case 6:
			r = a.Read(2, 0, 1000)
		case 7:
			r = a.Write(1, 0, []byte("GG"))
		case 8:
			r = a.Stat(1)
		case 9:
			r = a.Wstat(1, d)
		case 10:
			r = a.Remove(1)
		}
		done <- r
	}()
	vnd.Quiesce()
	if !early {
		b = Connect(l)
		b.Version().OK("version while another connection waits")
	}
	b.Attach(1, "").OK("attach while another connection waits")
	b.Walk(1, 2, "f").OK("walk while another connection waits")
	b.Stat(2).OK("stat while another connection waits")
	b.Open(2, ORDWR).OK("open while another connection waits")
	vnd.Assert(string(b.Read(2, 0, 100).OK("read while another connection waits").F[0].B) == "hello", "a read while another connection waits returns other data")
	b.Write(2, 0, []byte("H")).OK("write while another connection waits")
	b.Wstat(2, d).OK("wstat while another connection waits")
	b.Clunk(2).OK("clunk while another connection waits")
	b.Walk(1, 2).OK("walk while another connection waits")
	b.Create(2, "own", 0644, ORDWR).OK("create while another connection waits")
	b.Remove(2).OK("remove while another connection waits")
	b.Open(1, OREAD).OK("open of a directory while another connection waits")
	b.Read(1, 0, 1000).OK("read of a directory while another connection waits")
	b.Version().OK("version while another connection waits")
	close(block)
	r := <-done
	r.OK("the request that had to wait")
	b.C.End()
	b.C.WaitClosed()
	vnd.Cover("not held up")
}
