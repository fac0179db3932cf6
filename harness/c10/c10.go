// Package c10: concurrent calls on one client.
package c10

import (
	p9 "github.com/Harvey-OS/ninep/protocol"
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

type call struct {
	typ      int
	req, res []F
	ch       chan Result
	tag      uint16
	got      bool
	err      string // text of the error it gets, if any
	f        []F    // what it returned
}

// reply is the reply to a call.
func (c *call) reply() []byte {
	if c.err != "" {
		return Encode(Rerror, c.tag, []F{StrF(c.err)})
	}
	return Encode(c.typ+1, c.tag, c.res)
}

// mk makes the i-th call: all requests are different.
func mk(i int) *call {
	if i%2 == 0 {
		return &call{typ: Tread, req: []F{U32F(uint32(100 + i)), U64F(vnd.U64("off")), U32F(4)}, res: []F{DataF(vnd.Bytes("data", 2))}}
	}
	return &call{typ: Topen, req: []F{U32F(uint32(100 + i)), U8F(vnd.U8("mode"))}, res: []F{{K: KQid, Q: GenQid("q")}, U32F(vnd.U32("iounit"))}}
}

// match finds the call of a request, by its fid.
func match(cs []*call, m []byte) *call {
	vnd.Assert(m != nil && len(m) >= 9, "a request is not whole")
	for i, c := range cs {
		if m[7] == byte(100+i) && !c.got {
			c.got = true
			c.tag = WantRequest(m, c.typ, c.req)
			return c
		}
	}
	vnd.Assert(false, "a request is sent that no call made, or twice")
	return nil
}

func returns(c *call) {
	r := <-c.ch
	if c.err != "" {
		vnd.Assert(r.Err != nil && r.Err.Error() == c.err, "a call returns another call's reply")
		return
	}
	vnd.Assert(r.Err == nil, "a call fails although its reply is good")
	vnd.Assert(EqFs(r.F, c.res), "a call returns another call's reply")
	c.f = r.F
}

// still checks that calls' results are still what they were.
func still(cs []*call) {
	for _, c := range cs {
		if c.f != nil {
			vnd.Assert(EqFs(c.f, c.res), "what a call returned changes when other replies come")
		}
	}
}

var perms = [][]int{{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}}

// reuse makes as many calls at once as there are tags: all are free again.
func reuse(cl *p9.Client, c *Conn, tags int) {
	vnd.SchedDet()
	var again []*call
	for i := 0; i < tags; i++ {
		x := &call{typ: Tclunk, req: []F{U32F(uint32(100 + i))}}
		x.ch = Go(cl, x.typ, x.req)
		again = append(again, x)
	}
	for range again {
		match(again, c.Recv())
	}
	different(again)
	for i := range again {
		c.Send(Encode(Rclunk, again[i].tag, nil))
	}
	for _, x := range again {
		returns(x)
	}
	vnd.Assert(len(c.Rest()) == 0, "more requests than calls")
	vnd.Cover("all returned")
}

func different(cs []*call) {
	for i := range cs {
		for j := range cs[:i] {
			vnd.Assert(cs[i].tag != cs[j].tag, "two outstanding requests have the same tag")
		}
	}
}

func concurrent(n, tags int, sched func()) {
	var cs []*call
	for i := 0; i < n; i++ {
		cs = append(cs, mk(i))
	}
	together(cs, tags, sched)
}

func together(cs []*call, tags int, sched func()) {
	n := len(cs)
	cl, c := Dial(false, tags)
	perm := vnd.Choose("order", []int{1, 1, 2, 6}[n])
	sched()
	for _, x := range cs {
		x.ch = Go(cl, x.typ, x.req)
	}
	for range cs {
		match(cs, c.Recv())
	}
	different(cs)
	for _, i := range perms[perm] {
		if i < n {
			c.Send(cs[i].reply())
		}
	}
	for _, x := range cs {
		returns(x)
	}
	reuse(cl, c, tags)
	still(cs)
}

// C10_Two: two concurrent calls.
func C10_Two() {
	vnd.Bound("client: two concurrent calls (read and open, arbitrary arguments and results), a pool of 3 tags, replies in either order: all interleavings of callers, writer, reader and dispatcher; then as many calls at once as tags")
	concurrent(2, 3, func() { vnd.SchedAll(-1) })
}

// C10_Short: two concurrent calls of which at least one has a reply without
// a body.
func C10_Short() {
	vnd.Bound("client: two concurrent calls (clunk and clunk, remove and read, or wstat and a clunk that is answered by an error), a pool of 3 tags, replies in either order: all interleavings; then as many calls at once as tags")
	a := &call{req: []F{U32F(100)}}
	pair := vnd.Choose("calls", 3)
	switch pair {
	case 0:
		a.typ = Tclunk
	case 1:
		a.typ = Tremove
	case 2:
		a.typ = Twstat
		a.req = append(a.req, D16F(vnd.Bytes("stat", 2)))
	}
	b := &call{typ: Tclunk, req: []F{U32F(101)}}
	switch pair {
	case 1:
		b = mk(0)
		b.req[0] = U32F(101)
	case 2:
		b.err = "no"
	}
	together([]*call{a, b}, 3, func() { vnd.SchedAll(-1) })
}

// C10_Three: three concurrent calls.
func C10_Three() {
	vnd.Bound("client: three concurrent calls, a pool of 4 tags, replies in all 6 orders: all schedules that delay the running goroutine at most 3 times (thorough: 4); then as many calls at once as tags")
	concurrent(3, 4, func() { vnd.SchedDelay(vnd.Config("delay", 3+vnd.Config("tier", 0))) })
}

// C10_Early: a reply comes while the other call is still being made.
func C10_Early() {
	vnd.Bound("client: a call made while the reply of another is delivered, then a third reusing the tag (pool of 2 tags): all interleavings")
	cl, c := Dial(false, 2)
	a, b, d := mk(0), mk(1), mk(2)
	cs := []*call{a, b, d}
	vnd.SchedAll(-1)
	a.ch = Go(cl, a.typ, a.req)
	match(cs, c.Recv())
	b.ch = Go(cl, b.typ, b.req)
	c.Send(Encode(a.typ+1, a.tag, a.res))
	returns(a)
	d.ch = Go(cl, d.typ, d.req)
	match(cs, c.Recv())
	x := match(cs, c.Recv())
	vnd.Assert(b.tag != d.tag, "two outstanding requests have the same tag")
	c.Send(Encode(x.typ+1, x.tag, x.res))
	for _, y := range cs[1:] {
		if y != x {
			c.Send(Encode(y.typ+1, y.tag, y.res))
		}
	}
	returns(b)
	returns(d)
	reuse(cl, c, 2)
}

// C10_Stray: replies nobody waits for.
func C10_Stray() {
	vnd.Bound("client: with one call outstanding, a reply (Rread, Rclunk or Rerror) with tag 0, an unused tag, a tag outside the pool, 65534 or 65535 before the real one, and the real one sent twice; all interleavings; then as many calls at once as tags (3)")
	cl, c := Dial(false, 3)
	a := mk(0)
	var other []byte
	st := vnd.Choose("stray", 6)
	typ := []int{Rread, Rclunk, Rerror}[vnd.Choose("type", 3)]
	body := map[int][]F{Rread: {DataF([]byte("stray"))}, Rclunk: nil, Rerror: {StrF("stray")}}[typ]
	vnd.SchedAll(-1)
	a.ch = Go(cl, a.typ, a.req)
	match([]*call{a}, c.Recv())
	if st < 5 {
		t := []uint16{0, a.tag%3 + 1, 9, 65534, 65535}[st]
		other = Encode(typ, t, body)
		c.Send(other)
	}
	c.Send(Encode(a.typ+1, a.tag, a.res))
	if st == 5 {
		c.Send(Encode(typ, a.tag, body))
	}
	returns(a)
	vnd.Quiesce()
	reuse(cl, c, 3)
}

// C10_History: calls and replies in every order.
func C10_History() {
	n := 9 + 3*vnd.Config("tier", 0)
	vnd.Bound("client: histories of 9 (thorough: 12) steps, each a new call or the reply to any outstanding one, at most 3 outstanding, pools of 1 to 3 tags; then the replies of the rest and as many calls at once as tags")
	tags := 1 + vnd.Choose("tags", 3)
	cl, c := Dial(false, tags)
	var cs, out []*call
	answer := func(k int) {
		x := out[k]
		out = append(out[:k:k], out[k+1:]...)
		c.Send(Encode(x.typ+1, x.tag, x.res))
		returns(x)
	}
	for i := 0; i < n; i++ {
		if k := vnd.Choose("step", len(out)+1); k < len(out) {
			answer(k)
			continue
		}
		if len(out) == tags {
			vnd.Assume(false)
		}
		x := mk(len(cs))
		cs = append(cs, x)
		x.ch = Go(cl, x.typ, x.req)
		match(cs, c.Recv())
		out = append(out, x)
		different(out)
	}
	for len(out) > 0 {
		answer(vnd.Choose("last", len(out)))
	}
	reuse(cl, c, tags)
	still(cs)
}

// C10_Many: many outstanding calls.
func C10_Many() {
	n := 300
	if vnd.Config("tier", 0) > 0 {
		n = 3000
	}
	vnd.Bound("client: 300 (thorough: 3000) calls outstanding at once on a pool of all 65534 tags whose next tag is 1, 200, 32700 or 65400, answered in order, backwards or mixed, every tenth by an error; the last call made has arbitrary arguments and an arbitrary reply; fixed schedule; then all over again with the tags that became free")
	next := []int{1, 200, 32700, 65400}[vnd.Choose("next", 4)]
	c := NewConn()
	cl, err := p9.NewClient(func(cl *p9.Client) error {
		cl.ToNet, cl.FromNet = c, c
		for i := 1; i < next; i++ {
			t := <-cl.Tags
			cl.Tags <- t
		}
		return nil
	})
	vnd.Assert(err == nil, "NewClient fails")
	order := vnd.Choose("order", 3)
	for round := 0; round < 2; round++ {
		cs := map[uint32]*call{}
		var all []*call
		tags := map[uint16]bool{}
		for i := 0; i < n; i++ {
			x := &call{typ: Tread, req: []F{U32F(uint32(i)), U64F(uint64(i) * 3), U32F(4)}, res: []F{DataF([]byte{byte(i), byte(i >> 8)})}}
			if i == n-1 {
				x = mk(0)
				x.req[0] = U32F(uint32(i))
			}
			cs[uint32(i)] = x
			all = append(all, x)
			x.ch = Go(cl, x.typ, x.req)
			m := c.Recv()
			vnd.Assert(m != nil && len(m) == 23, "a request is not whole")
			y := cs[uint32(m[7])|uint32(m[8])<<8]
			vnd.Assert(y != nil && !y.got, "a request is sent that no call made, or twice")
			y.got = true
			y.tag = WantRequest(m, y.typ, y.req)
			vnd.Assert(!tags[y.tag], "two outstanding requests have the same tag")
			tags[y.tag] = true
		}
		for i := range all {
			j := i
			switch order {
			case 1:
				j = n - 1 - i
			case 2:
				j = i * 7 % n
			}
			x := all[j]
			if j%10 == 5 {
				c.Send(Encode(Rerror, x.tag, []F{StrF("no " + string(rune('a'+j%26)))}))
				r := <-x.ch
				vnd.Assert(r.Err != nil && r.Err.Error() == "no "+string(rune('a'+j%26)), "a call returns another call's reply")
				continue
			}
			c.Send(Encode(x.typ+1, x.tag, x.res))
			returns(x)
		}
		vnd.Assert(len(c.Rest()) == 0, "more requests than calls")
	}
	vnd.Cover("many")
}

// C10_Pairs: two concurrent calls of any types.
func C10_Pairs() {
	vnd.Bound("client: two concurrent calls of every two types, arbitrary arguments and results (strings of 2 bytes, data of 3, one name or qid), a pool of 3 tags, replies in either order: all schedules that delay the running goroutine at most twice (thorough: 3 times); then as many calls at once as tags")
	lens := Lens{Str: []int{2}, Data: []int{3}, N: []int{1}, Elem: []int{2}}
	var cs []*call
	last := 0
	for i := 0; i < 2; i++ {
		k := last + vnd.Choose("type", len(TTypes))
		vnd.Assume(k < len(TTypes))
		last = k
		typ := TTypes[k]
		x := &call{typ: typ, req: Gen(typ, "t", lens), res: Gen(typ+1, "r", lens)}
		// the first byte of a request tells which call it is from
		if x.req[0].K == KU16 {
			x.req[0] = U16F(vnd.U16("first")<<8 | uint16(100+i))
		} else {
			x.req[0] = U32F(vnd.U32("first")<<8 | uint32(100+i))
		}
		cs = append(cs, x)
	}
	together(cs, 3, func() { vnd.SchedDelay(vnd.Config("delay", 2+vnd.Config("tier", 0))) })
}
