// Package c13: the connection is lost under a client.
package c13

import (
	"errors"
	"io"
	"sync"

	p9 "github.com/Harvey-OS/ninep/protocol"
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

// sink is the write side of a network that is separate from its read side.
type sink struct {
	out   chan []byte
	stop  chan struct{}
	once  sync.Once
	stall bool // a write waits until the sink is closed
	deaf  bool // writes succeed even after close
}

func newSink() *sink { return &sink{out: make(chan []byte, 100), stop: make(chan struct{})} }

func (s *sink) closed() bool {
	select {
	case <-s.stop:
		return true
	default:
		return false
	}
}

func (s *sink) Write(p []byte) (int, error) {
	if s.stall {
		<-s.stop
	}
	if !s.deaf && s.closed() {
		return 0, errors.New("use of closed network connection")
	}
	s.out <- append([]byte{}, p...)
	return len(p), nil
}

func (s *sink) Close() error {
	s.once.Do(func() { close(s.stop) })
	return nil
}

func dial(to io.WriteCloser, from io.ReadCloser, tags int) *p9.Client {
	cl, err := p9.NewClient(func(cl *p9.Client) error {
		cl.ToNet = to
		cl.FromNet = from
		if tags > 0 {
			cl.Tags = make(chan p9.Tag, p9.NumTags)
			for i := 1; i <= tags; i++ {
				cl.Tags <- p9.Tag(i)
			}
		}
		return nil
	})
	vnd.Assert(err == nil, "NewClient fails")
	return cl
}

func rq(i int) []F { return []F{U32F(uint32(100 + i))} }

func fails(ch chan Result, what string) {
	vnd.Assert((<-ch).Err != nil, what)
}

// later makes more calls than there are tags: all fail.
func later(cl *p9.Client, n int) {
	for i := 0; i < n; i++ {
		fails(Go(cl, Tclunk, rq(50+i)), "a call on a lost connection succeeds")
	}
}

var errReset = errors.New("connection reset")

// lose ends the stream in one of the ways it can: nothing more, or part of a
// message, then end of file or an error.
func lose(c *Conn, tag uint16) {
	next := Encode(Rerror, tag, []F{StrF("lost")})
	if vnd.Choose("err", 2) == 1 {
		c.EndErr = errReset
	}
	switch vnd.Choose("part", 4) {
	case 1:
		c.Send(next[:3])
	case 2:
		c.Send(next[:7])
	case 3:
		c.Send(next[:len(next)-1])
	}
	c.End()
}

// C13_Read: the read side ends with calls outstanding, one of them answered.
func C13_Read() {
	vnd.Bound("0 to 2 outstanding calls, 0 to all of them answered (Rstat, arbitrary bytes), then the stream ends: at once, in a header, after a header or in a body; end of file or an error; then 4 more calls on a pool of 3 tags; fixed schedule, requests sent or not after the loss")
	c := NewConn()
	s := newSink()
	s.deaf = vnd.Choose("deaf", 2) == 1
	cl := dial(s, c, 3)
	n := vnd.Choose("calls", 3)
	k := vnd.Choose("answered", n+1)
	var ch []chan Result
	var res [][]F
	var rep [][]byte
	for i := 0; i < n; i++ {
		ch = append(ch, Go(cl, Tstat, rq(i)))
		t := WantRequest(<-s.out, Tstat, rq(i))
		res = append(res, []F{{K: KData16, B: vnd.Bytes("stat", 3)}})
		rep = append(rep, Encode(Rstat, t, res[i]))
	}
	for i := 0; i < k; i++ {
		c.Send(rep[i])
	}
	next := uint16(3)
	if k < n {
		next = TagOf(rep[k])
	}
	lose(c, next)
	for i := range ch {
		r := <-ch[i]
		if i < k {
			vnd.Assert(r.Err == nil && EqFs(r.F, res[i]), "a call whose reply came before the loss does not return it")
			vnd.Cover("answered")
		} else {
			vnd.Assert(r.Err != nil, "a call without a reply succeeds")
			vnd.Cover("failed")
		}
	}
	later(cl, 4)
}

func sched() {
	vnd.SchedAll(-1)
}

// C13_Calling: the connection is lost while a call is being made.
func C13_Calling() {
	vnd.Bound("the stream ends (at once, in a header, after a header or in a body; end of file or an error) while a call is being made, with and without a reply to it, on a connection that is closed both ways or on separate ones whose write side never fails; all interleavings; then 3 more calls on a pool of 2 tags")
	c := NewConn()
	var cl *p9.Client
	s := newSink()
	one := vnd.Choose("one", 2) == 1
	if one {
		cl = dial(c, c, 2)
	} else {
		s.deaf = true
		cl = dial(s, c, 2)
	}
	sched()
	ch := Go(cl, Tclunk, rq(0))
	answered := vnd.Choose("answered", 2) == 1
	if answered {
		var m []byte
		if one {
			m = c.Recv()
		} else {
			m = <-s.out
		}
		c.Send(Encode(Rclunk, WantRequest(m, Tclunk, rq(0)), nil))
	}
	lose(c, 1)
	r := <-ch
	vnd.SchedDet()
	if answered {
		vnd.Assert(r.Err == nil, "a call whose reply came before the loss does not return it")
		vnd.Cover("answered")
	} else {
		vnd.Assert(r.Err != nil, "a call without a reply succeeds")
		vnd.Cover("failed")
	}
	later(cl, 3)
}

// C13_CallingTwo: the same with two calls.
func C13_CallingTwo() {
	vnd.Bound("the stream ends while two calls are being made, the first request seen being answered (separate write side that never fails) or not (one connection); schedules with at most 2 delays (thorough: 3); then 4 more calls on a pool of 3 tags")
	c := NewConn()
	s := newSink()
	answered := vnd.Choose("answered", 2) == 1
	var cl *p9.Client
	if answered {
		s.deaf = true
		cl = dial(s, c, 3)
	} else {
		cl = dial(c, c, 3)
	}
	vnd.SchedDelay(2 + vnd.Config("tier", 0))
	ch := []chan Result{Go(cl, Tclunk, rq(0)), Go(cl, Tclunk, rq(1))}
	who := -1
	if answered {
		m := <-s.out
		vnd.Assert(len(m) == 11, "a request is not whole")
		who = int(m[7]) - 100
		c.Send(Encode(Rclunk, WantRequest(m, Tclunk, rq(who)), nil))
	}
	lose(c, uint16(1+vnd.Choose("tag", 2)))
	for i := range ch {
		r := <-ch[i]
		if i == who {
			vnd.Assert(r.Err == nil, "a call whose reply came before the loss does not return it")
			vnd.Cover("answered")
		} else {
			vnd.Assert(r.Err != nil, "a call without a reply succeeds")
			vnd.Cover("failed")
		}
	}
	vnd.SchedDet()
	later(cl, 4)
}

// C13_Write: a request cannot be written.
func C13_Write() {
	vnd.Bound("the write of the first, second or third request fails with 0, 5 or all of its bytes gone out, with the earlier calls unanswered; all interleavings of the failing call; then 4 more calls on a pool of 4 tags")
	c := NewConn()
	cl := dial(c, c, 4)
	k := vnd.Choose("failing", 3)
	part := vnd.Choose("part", 3)
	writes := 0
	c.WriteErr = func(n int) (int, error) {
		writes++
		if writes <= k {
			return n, nil
		}
		return []int{0, 5, n}[part], ErrNet
	}
	var ch []chan Result
	for i := 0; i < k; i++ {
		ch = append(ch, Go(cl, Tclunk, rq(i)))
		WantRequest(c.Recv(), Tclunk, rq(i))
	}
	sched()
	ch = append(ch, Go(cl, Tclunk, rq(k)))
	for i := range ch {
		fails(ch[i], "a call without a reply succeeds")
	}
	vnd.SchedDet()
	later(cl, 5)
	vnd.Cover("failed")
}

// C13_Stalled: a request waits in a write when the stream ends.
func C13_Stalled() {
	vnd.Bound("the write of a request waits until the write side is closed, a second call waits behind it, and the stream ends; fixed schedule and all schedules with at most 2 delays; then 3 more calls on a pool of 3 tags")
	c := NewConn()
	s := newSink()
	s.stall = true
	cl := dial(s, c, 3)
	vnd.SchedDelay(2 + vnd.Config("tier", 0))
	a := Go(cl, Tclunk, rq(0))
	b := Go(cl, Tclunk, rq(1))
	lose(c, 1)
	fails(a, "a call without a reply succeeds")
	fails(b, "a call without a reply succeeds")
	vnd.SchedDet()
	later(cl, 3)
	vnd.Cover("failed")
}

// C13_NoNet: there is nothing to read from.
func C13_NoNet() {
	vnd.Bound("a client without a read side, with or without a write side that works; one call in all interleavings, then 3 more")
	s := newSink()
	s.deaf = vnd.Choose("deaf", 2) == 1
	cl := dial(s, nil, 2)
	sched()
	fails(Go(cl, Tclunk, rq(0)), "a call without a connection succeeds")
	vnd.SchedDet()
	later(cl, 3)
	vnd.Cover("failed")
}

// C13_Errors: errors of every kind.
func C13_Errors() {
	vnd.Bound("0 to 2 outstanding calls, none or one answered, then a read fails between or in the middle of replies, or the write of the next request (0, 5 or all bytes gone out), with an error of 16 kinds (end of file before its time, closed, timeout, temporary, interrupted, wrapped, ...), again and again or, in the middle of a reply, followed by the bytes that are missing; then 4 more calls on a pool of 3 tags; read and write side one or separate; fixed schedule")
	c := NewConn()
	var cl *p9.Client
	if vnd.Choose("one", 2) == 1 {
		cl = dial(c, c, 3)
	} else {
		cl = dial(struct{ io.WriteCloser }{c}, c, 3)
	}
	n := vnd.Choose("calls", 3)
	var ch []chan Result
	var tags []uint16
	for i := 0; i < n; i++ {
		ch = append(ch, Go(cl, Tclunk, rq(i)))
		tags = append(tags, WantRequest(c.Recv(), Tclunk, rq(i)))
	}
	k := 0
	if n > 0 && vnd.Choose("answered", 2) == 1 {
		k = 1
		c.Send(Encode(Rclunk, tags[0], nil))
		vnd.Assert((<-ch[0]).Err == nil, "a call whose reply came before the loss does not return it")
	}
	err := NetError()
	if vnd.Choose("write", 2) == 1 {
		part := vnd.Choose("part", 3)
		c.WriteErr = func(n int) (int, error) { return []int{0, 5, n}[part], err }
		fails(Go(cl, Tclunk, rq(n)), "a call whose request cannot be written succeeds")
	} else {
		c.EndErr = err
		if k < n {
			m := Encode(Rclunk, tags[k], nil)
			cut := []int{0, 3, 6}[vnd.Choose("cut", 3)]
			if cut > 0 {
				c.Send(m[:cut])
				if vnd.Choose("more", 2) == 1 {
					c.More = m[cut:]
				}
			}
		}
		c.End()
	}
	for i := k; i < n; i++ {
		fails(ch[i], "a call without a reply succeeds")
	}
	later(cl, 4)
	vnd.Cover("failed")
}

// C13_Many: many calls outstanding.
func C13_Many() {
	n := 250
	if vnd.Config("tier", 0) > 0 {
		n = 2500
	}
	vnd.Bound("250 (thorough: 2500) calls outstanding, none, the first, every second or all of them answered, when the stream ends (as above) or the next request cannot be written (0 or 5 bytes gone out); then as many more calls; fixed schedule")
	c := NewConn()
	cl := dial(c, c, 0)
	var ch []chan Result
	var tags []uint16
	for i := 0; i < n; i++ {
		ch = append(ch, Go(cl, Tclunk, rq(i)))
		tags = append(tags, WantRequest(c.Recv(), Tclunk, rq(i)))
	}
	how := vnd.Choose("answered", 4)
	answered := func(i int) bool { return how == 1 && i == 0 || how == 2 && i%2 == 1 || how == 3 }
	for i := range tags {
		if answered(i) {
			c.Send(Encode(Rclunk, tags[i], nil))
			r := <-ch[i]
			vnd.Assert(r.Err == nil, "a call that is answered fails")
		}
	}
	if vnd.Choose("write", 2) == 1 {
		part := []int{0, 5}[vnd.Choose("part", 2)]
		c.WriteErr = func(int) (int, error) { return part, ErrNet }
		fails(Go(cl, Tclunk, rq(n)), "a call whose request cannot be written succeeds")
	} else {
		lose(c, tags[n/2])
	}
	for i := range ch {
		if !answered(i) {
			fails(ch[i], "a call without a reply succeeds")
		}
	}
	later(cl, n)
	vnd.Cover("failed")
}
