// Package c07: the server's framing of requests.
package c07

import (
	"errors"

	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

// stream is a version request and two more requests with arbitrary values.
func stream() (b []byte, ends []int, reqs []Op, tags []uint16) {
	add := func(typ int, tag uint16, f []F) {
		b = append(b, Encode(typ, tag, f)...)
		ends = append(ends, len(b))
		reqs = append(reqs, Op{typ, f})
		tags = append(tags, tag)
	}
	add(Tversion, 0xffff, []F{U32F(8192), StrF("9P2000")})
	add(Tclunk, vnd.U16("tag"), []F{U32F(vnd.U32("fid"))})
	add(Twrite, vnd.U16("tag"), []F{U32F(vnd.U32("fid")), U64F(vnd.U64("off")), DataF(vnd.Bytes("data", 3))})
	return
}

// judge checks that exactly the first n requests were performed and answered,
// and that the connection was closed.
func judge(c *Conn, ns *Rec, n int, reqs []Op, tags []uint16) {
	for i := 0; i < n; i++ {
		WantReply(c.Recv(), reqs[i].Typ+1, tags[i], Zero(reqs[i].Typ+1), "a request delivered in pieces")
	}
	c.WaitClosed()
	vnd.Assert(len(c.Rest()) == 0, "there are more replies than complete requests")
	vnd.Assert(len(ns.Ops) == n, "not exactly the complete requests are performed")
	for i := 0; i < n; i++ {
		vnd.Assert(ns.Ops[i].Typ == reqs[i].Typ && EqFs(ns.Ops[i].F, reqs[i].F), "a request delivered in pieces is performed with other arguments than sent")
	}
}

func cut(c *Conn, b []byte, at ...int) {
	p := 0
	for _, x := range append(at, len(b)) {
		if x > p {
			c.Send(b[p:x])
			p = x
		}
	}
}

func pieces(c *Conn, b []byte, n int) {
	for len(b) > n {
		c.Send(b[:n])
		b = b[n:]
	}
	if len(b) > 0 {
		c.Send(b)
	}
}

// C07_Cuts: the stream delivered in three pieces, cut at every two places.
func C07_Cuts() {
	vnd.Bound("server: a version request, Tclunk and Twrite (56 bytes, arbitrary values) delivered in pieces cut at every two places, or in pieces of 1 to 12 bytes, or cut at every place with one or two reads of nothing there; the end of the stream alone or with the last bytes")
	b, _, reqs, tags := stream()
	ns := &Rec{}
	c := Serve(ns, false)
	c.WithLast = vnd.Choose("withlast", 2) == 1
	switch vnd.Choose("how", 3) {
	case 0:
		i := vnd.Choose("i", len(b))
		j := i + vnd.Choose("j", len(b)-i)
		cut(c, b, i, j)
	case 1:
		pieces(c, b, 1+vnd.Choose("n", 12))
	case 2: // a read that returns nothing, no error either
		i := vnd.Choose("i", len(b))
		cut(c, b[:i])
		for j := 1 + vnd.Choose("nothing", 2); j > 0; j-- {
			c.Send([]byte{})
		}
		cut(c, b[i:])
	}
	c.Last = true
	c.End()
	judge(c, ns, len(reqs), reqs, tags)
	vnd.Cover("whole")
}

// C07_Truncated: the stream ends anywhere.
func C07_Truncated() {
	vnd.Bound("server: the same stream ending at every place, with end of file (alone or with the last bytes) or a read error, delivered whole or in pieces of 1, 3 or 7 bytes")
	b, ends, reqs, tags := stream()
	k := vnd.Choose("len", len(b)+1)
	n := 0
	for n < len(ends) && ends[n] <= k {
		n++
	}
	ns := &Rec{}
	c := Serve(ns, vnd.Choose("trace", 2) == 1)
	if vnd.Choose("err", 2) == 1 {
		c.EndErr = errors.New("connection reset")
	}
	// A network that reports an error together with bytes is not considered.
	c.WithLast = c.EndErr == nil && vnd.Choose("withlast", 2) == 1
	pieces(c, b[:k], []int{100, 1, 3, 7}[vnd.Choose("piece", 4)])
	c.Last = true
	c.End()
	judge(c, ns, n, reqs, tags)
	vnd.Cover("ended")
}

// C07_Broken: a read fails in the middle of a message, in any way.
func C07_Broken() {
	vnd.Bound("server: a read error of 16 kinds (end of file before its time, closed, timeout, temporary, interrupted, wrapped, ...) at every place in the middle of the second or third message of the stream, again and again or followed by the bytes that are missing; with and without a Trace function")
	b, ends, reqs, tags := stream()
	k := vnd.Choose("len", len(b))
	n := 0
	for n < len(ends) && ends[n] <= k {
		n++
	}
	vnd.Assume(n > 0 && k > ends[n-1])
	ns := &Rec{}
	c := Serve(ns, vnd.Choose("trace", 2) == 1)
	c.EndErr = NetError()
	if vnd.Choose("more", 2) == 1 {
		c.More = b[k:]
	}
	c.Send(b[:k])
	c.End()
	judge(c, ns, n, reqs, tags)
	vnd.Cover("broken")
}

// C07_Sizes: sizes whose bytes are all needed: a message that is longer than
// what comes is never performed.
func C07_Sizes() {
	vnd.Bound("server: a complete Tclunk whose size field claims more (14, 15, 255-257, 65535, 65536, 65547, 2^24-1, 2^24, 2^24+11, 2^31-1, 2^31, 2^31+11, 2^32-1), then the end of the stream, with 0 or 2 more bytes coming")
	ns := &Rec{}
	c := Serve(ns, false)
	Versioned(c)
	m := Encode(Tclunk, vnd.U16("tag"), []F{U32F(vnd.U32("fid"))})
	sz := []uint32{14, 15, 255, 256, 257, 65535, 65536, 65547, 1<<24 - 1, 1 << 24, 1<<24 + 11, 1<<31 - 1, 1 << 31, 1<<31 + 11, 1<<32 - 1}[vnd.Choose("size", 15)]
	m[0], m[1], m[2], m[3] = byte(sz), byte(sz>>8), byte(sz>>16), byte(sz>>24)
	m = append(m, vnd.Bytes("more", 2*vnd.Choose("nmore", 2))...)
	c.Send(m)
	c.End()
	c.WaitClosed()
	vnd.Assert(len(ns.Ops) == 1, "a request cut short by the end of the stream is performed")
	vnd.Assert(len(c.Rest()) == 0, "a request cut short by the end of the stream is answered")
	vnd.Cover("cut short")
}

// C07_Big: large messages.
func C07_Big() {
	vnd.Bound("server: Twrite with 249, 505, 32768, 65529, 70000, 131072 and 2^24+3 bytes of data followed by a Tclunk, delivered whole or in pieces of 1000 or 4096 bytes")
	ns := &Rec{}
	c := Serve(ns, false)
	Versioned(c)
	n := []int{249, 505, 32768, 65529, 70000, 131072, 1<<24 + 3}[vnd.Choose("size", 7)]
	reqs := []Op{{Twrite, []F{U32F(vnd.U32("fid")), U64F(vnd.U64("off")), DataF(BigBytes("data", n))}}, {Tclunk, []F{U32F(vnd.U32("fid"))}}}
	tags := []uint16{vnd.U16("tag"), vnd.U16("tag")}
	b := append(Encode(Twrite, tags[0], reqs[0].F), Encode(Tclunk, tags[1], reqs[1].F)...)
	pieces(c, b, []int{1 << 20, 1000, 4096}[vnd.Choose("piece", 3)])
	c.End()
	ns.Ops = nil
	judge(c, ns, 2, reqs, tags)
	vnd.Cover("big")
}

// C07_Long: a long stream.
func C07_Long() {
	n := 150
	if vnd.Config("tier", 0) > 0 {
		n = 1500
		ConnCap = 1 << 20
	}
	vnd.Bound("server: a stream of 150 (thorough: 1500) requests of all types and of sizes from 11 to 5000 bytes, delivered whole, in pieces of 7, 64, 512, 1000, 4096 and 65536 bytes or each request alone, ending after the last or 1, 5, 8 or 10 bytes into one more, with end of file or an error")
	ns := &Rec{}
	c := Serve(ns, false)
	tiny := Lens{Str: []int{3}, Data: []int{5}, N: []int{2}, Elem: []int{1}}
	var b []byte
	var ends []int
	var reqs []Op
	var tags []uint16
	add := func(typ int, tag uint16, f []F) {
		b = append(b, Encode(typ, tag, f)...)
		ends = append(ends, len(b))
		reqs = append(reqs, Op{typ, f})
		tags = append(tags, tag)
	}
	add(Tversion, 0xffff, []F{U32F(8192), StrF("9P2000")})
	for i := 1; i < n; i++ {
		typ := TTypes[i%len(TTypes)]
		f := Gen(typ, "t", tiny)
		if typ == Twrite {
			f[2] = DataF(BigBytes("data", i*37%5000))
		}
		add(typ, vnd.U16("tag"), f)
	}
	more := Encode(Tclunk, 9, []F{U32F(9)})
	b = append(b, more[:[]int{0, 1, 5, 8, 10}[vnd.Choose("more", 5)]]...)
	if vnd.Choose("err", 2) == 1 {
		c.EndErr = errors.New("connection reset")
	}
	if p := []int{1 << 30, 7, 64, 512, 1000, 4096, 65536, 0}[vnd.Choose("piece", 8)]; p > 0 {
		pieces(c, b, p)
	} else {
		cut(c, b, ends...)
	}
	c.Last = true
	c.End()
	judge(c, ns, n, reqs, tags)
	vnd.Cover("long")
}
