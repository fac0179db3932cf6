// Package c11: the client's framing of replies.
package c11

import (
	"errors"

	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

func cut(c *Conn, b []byte, at ...int) {
	p := 0
	for _, x := range append(at, len(b)) {
		if x > p {
			c.Send(b[p:x])
			p = x
		}
	}
}

func pieces(c *Conn, b []byte, n int) {
	for len(b) > n {
		c.Send(b[:n])
		b = b[n:]
	}
	if len(b) > 0 {
		c.Send(b)
	}
}

// two starts a read and a clunk and makes their replies.
func two() (c *Conn, ch [2]chan Result, res []F, b []byte, end int) {
	cl, c := Dial(false, 3)
	rq := []F{U32F(1), U64F(2), U32F(3)}
	ch[0] = Go(cl, Tread, rq)
	t0 := WantRequest(c.Recv(), Tread, rq)
	ch[1] = Go(cl, Tclunk, []F{U32F(9)})
	t1 := WantRequest(c.Recv(), Tclunk, []F{U32F(9)})
	res = []F{DataF(vnd.Bytes("data", 3))}
	b = Encode(Rread, t0, res)
	end = len(b)
	b = append(b, Encode(Rclunk, t1, nil)...)
	return
}

// C11_Cuts: two replies delivered in pieces cut anywhere.
func C11_Cuts() {
	vnd.Bound("client: replies Rread (3 arbitrary bytes) and Rclunk to two outstanding calls, 21 bytes, delivered in pieces cut at every two places or in pieces of 1 to 12 bytes, or cut at every place with one or two reads of nothing there")
	c, ch, res, b, _ := two()
	switch vnd.Choose("how", 3) {
	case 0:
		i := vnd.Choose("i", len(b))
		j := i + vnd.Choose("j", len(b)-i)
		cut(c, b, i, j)
	case 1:
		pieces(c, b, 1+vnd.Choose("n", 12))
	case 2: // a read that returns nothing, no error either
		i := vnd.Choose("i", len(b))
		cut(c, b[:i])
		for j := 1 + vnd.Choose("nothing", 2); j > 0; j-- {
			c.Send([]byte{})
		}
		cut(c, b[i:])
	}
	r := <-ch[0]
	vnd.Assert(r.Err == nil && EqFs(r.F, res), "a call whose reply comes in pieces does not return it")
	r = <-ch[1]
	vnd.Assert(r.Err == nil, "a call whose reply comes in pieces fails")
	vnd.Cover("whole")
}

// C11_Truncated: the stream ends anywhere.
func C11_Truncated() {
	vnd.Bound("client: the same two replies ending at every place, with end of file (alone or with the last bytes) or a read error, delivered whole or in pieces of 1, 3 or 7 bytes")
	c, ch, res, b, end := two()
	k := vnd.Choose("len", len(b)+1)
	if vnd.Choose("err", 2) == 1 {
		c.EndErr = errors.New("connection reset")
	}
	c.WithLast = c.EndErr == nil && vnd.Choose("withlast", 2) == 1
	pieces(c, b[:k], []int{100, 1, 3, 7}[vnd.Choose("piece", 4)])
	c.Last = true
	c.End()
	r := <-ch[0]
	if k >= end {
		vnd.Assert(r.Err == nil && EqFs(r.F, res), "a complete reply before the end of the stream is not returned")
		vnd.Cover("first")
	} else {
		vnd.Assert(r.Err != nil, "a reply cut short by the end of the stream is taken as whole")
		vnd.Cover("cut")
	}
	r = <-ch[1]
	if k == len(b) {
		vnd.Assert(r.Err == nil, "a complete reply at the end of the stream is not returned")
		vnd.Cover("second")
	} else {
		vnd.Assert(r.Err != nil, "a reply cut short by the end of the stream is taken as whole")
	}
}

// C11_Broken: a read fails, in any way.
func C11_Broken() {
	vnd.Bound("client: the same two replies of which a read error of 16 kinds (end of file before its time, closed, timeout, temporary, interrupted, wrapped, ...) comes at every place, again and again or, in the middle of a reply, followed by the bytes that are missing")
	c, ch, res, b, end := two()
	k := vnd.Choose("len", len(b))
	c.EndErr = NetError()
	if k != 0 && k != end && vnd.Choose("more", 2) == 1 {
		c.More = b[k:]
	}
	pieces(c, b[:k], 100)
	c.End()
	r := <-ch[0]
	if k >= end {
		vnd.Assert(r.Err == nil && EqFs(r.F, res), "a complete reply before a read error is not returned")
	} else {
		vnd.Assert(r.Err != nil, "a reply cut short by a read error is taken as whole")
	}
	vnd.Assert((<-ch[1]).Err != nil, "a reply cut short by a read error is taken as whole")
	vnd.Cover("broken")
}

// C11_Sizes: sizes larger than what comes.
func C11_Sizes() {
	vnd.Bound("client: an Rclunk whose size field claims more (8, 9, 255-257, 65535, 65536, 65543, 2^24-1, 2^24, 2^24+7, 2^31-1, 2^31, 2^31+7, 2^32-1), then the end of the stream")
	cl, c := Dial(false, 3)
	ch := Go(cl, Tclunk, []F{U32F(9)})
	tag := WantRequest(c.Recv(), Tclunk, []F{U32F(9)})
	sz := []uint32{8, 9, 255, 256, 257, 65535, 65536, 65543, 1<<24 - 1, 1 << 24, 1<<24 + 7, 1<<31 - 1, 1 << 31, 1<<31 + 7, 1<<32 - 1}[vnd.Choose("size", 15)]
	c.Send([]byte{byte(sz), byte(sz >> 8), byte(sz >> 16), byte(sz >> 24), Rclunk, byte(tag), byte(tag >> 8)})
	c.End()
	r := <-ch
	vnd.Assert(r.Err != nil, "a reply cut short by the end of the stream is taken as whole")
	vnd.Cover("cut")
}

// C11_Big: large replies.
func C11_Big() {
	vnd.Bound("client: Rread with 249, 505, 32768, 65529, 70000, 131072 and 2^24+3 bytes of data and then Rclunk, delivered whole or in pieces of 1000 or 4096 bytes")
	cl, c := Dial(false, 3)
	rq := []F{U32F(1), U64F(2), U32F(3)}
	ch := Go(cl, Tread, rq)
	t0 := WantRequest(c.Recv(), Tread, rq)
	ch1 := Go(cl, Tclunk, []F{U32F(9)})
	t1 := WantRequest(c.Recv(), Tclunk, []F{U32F(9)})
	res := []F{DataF(BigBytes("data", []int{249, 505, 32768, 65529, 70000, 131072, 1<<24 + 3}[vnd.Choose("size", 7)]))}
	pieces(c, append(Encode(Rread, t0, res), Encode(Rclunk, t1, nil)...), []int{1 << 20, 1000, 4096}[vnd.Choose("piece", 3)])
	r := <-ch
	vnd.Assert(r.Err == nil && EqFs(r.F, res), "a large reply is not what the call returns")
	r = <-ch1
	vnd.Assert(r.Err == nil, "the reply after a large one is lost")
	vnd.Cover("big")
}

// C11_Long: a long stream.
func C11_Long() {
	n := 100
	if vnd.Config("tier", 0) > 0 {
		n = 1000
	}
	vnd.Bound("client: the replies to 100 (thorough: 1000) outstanding calls of all types, 7 to 5000 bytes each, in one stream, delivered whole, in pieces of 7, 64, 512, 1000, 4096 and 65536 bytes or each reply alone, all of them or ending 1, 5 or 8 bytes before the end of the last, with end of file or an error; fixed schedule")
	cl, c := Dial(false, 0)
	tiny := Lens{Str: []int{3}, Data: []int{5}, N: []int{2}, Elem: []int{1}}
	var b []byte
	var ends []int
	var ch []chan Result
	var res [][]F
	for i := 0; i < n; i++ {
		typ := TTypes[i%len(TTypes)]
		if i == n-1 {
			typ = Tread
		}
		rq, rs := Gen(typ, "t", tiny), Gen(typ+1, "r", tiny)
		if typ == Tread {
			rs[0] = DataF(BigBytes("data", 10+i*37%5000))
		}
		ch = append(ch, Go(cl, typ, rq))
		tag := WantRequest(c.Recv(), typ, rq)
		res = append(res, rs)
		b = append(b, Encode(typ+1, tag, rs)...)
		ends = append(ends, len(b))
	}
	less := []int{0, 1, 5, 8}[vnd.Choose("less", 4)]
	b = b[:len(b)-less]
	ends[n-1] -= less
	if vnd.Choose("err", 2) == 1 {
		c.EndErr = errors.New("connection reset")
	}
	if p := []int{1 << 30, 7, 64, 512, 1000, 4096, 65536, 0}[vnd.Choose("piece", 8)]; p > 0 {
		for len(b) > 0 { // no more at once than the harness's network holds
			k := min(len(b), p*200)
			pieces(c, b[:k], p)
			b = b[k:]
			vnd.Quiesce()
		}
	} else {
		cut(c, b, ends...)
	}
	vnd.Quiesce()
	c.Last = true
	c.End()
	for i := range ch {
		r := <-ch[i]
		if i == n-1 && less > 0 {
			vnd.Assert(r.Err != nil, "a reply cut short by the end of the stream is taken as whole")
			continue
		}
		vnd.Assert(r.Err == nil && EqFs(r.F, res[i]), "a call whose reply comes in a long stream does not return it")
	}
	vnd.Cover("long")
}
