// Package c12: fids and tags handed out by a client.
package c12

import (
	p9 "github.com/Harvey-OS/ninep/protocol"
	. "github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

// set and get the client's count of fids, whatever integer it is kept in.
func set(p interface{}, v uint64) {
	switch p := p.(type) {
	case *uint64:
		*p = v
	case *int64:
		*p = int64(v)
	case *uint32:
		*p = uint32(v)
	case *p9.FID:
		*p = p9.FID(v)
	case interface{ Store(uint64) }:
		p.Store(v)
	case interface{ Store(uint32) }:
		p.Store(uint32(v))
	case interface{ Store(int64) }:
		p.Store(int64(v))
	default:
		vnd.Unsupported("the client counts its fids in another way")
	}
}

func get(p interface{}) uint64 {
	switch p := p.(type) {
	case *uint64:
		return *p
	case *int64:
		return uint64(*p)
	case *uint32:
		return uint64(*p)
	case *p9.FID:
		return uint64(*p)
	case interface{ Load() uint64 }:
		return p.Load()
	case interface{ Load() uint32 }:
		return uint64(p.Load())
	case interface{ Load() int64 }:
		return uint64(p.Load())
	}
	vnd.Unsupported("the client counts its fids in another way")
	return 0
}

// C12_FidsFar: two fids with any number of others between them.
func C12_FidsFar() {
	vnd.Bound("GetFID: any two of the fids handed out, after any number (64-bit) of earlier ones, with any number below 2^32-1 between them")
	cl, _ := Dial(false, 2)
	s, d := vnd.U64("start"), vnd.U64("between")
	vnd.Assume(d < 1<<32-1)
	set(&cl.FID, s)
	a := cl.GetFID()
	set(&cl.FID, get(&cl.FID)+d)
	b := cl.GetFID()
	vnd.Assert(a != b, "the same fid is handed out twice")
	vnd.Cover("two")
}

// C12_FidsFirst: the first fids of a new client.
func C12_FidsFirst() {
	vnd.Bound("GetFID: the first 300 fids of a new client")
	cl, _ := Dial(false, 2)
	seen := map[p9.FID]bool{}
	for i := 0; i < 300; i++ {
		f := cl.GetFID()
		vnd.Assert(!seen[f], "the same fid is handed out twice")
		seen[f] = true
	}
	vnd.Cover("all")
}

func fids(n, each int) {
	cl, _ := Dial(false, 2)
	set(&cl.FID, vnd.U64("start"))
	ch := make(chan []p9.FID, n)
	vnd.SchedAll(-1)
	for i := 0; i < n; i++ {
		go func() {
			var l []p9.FID
			for j := 0; j < each; j++ {
				l = append(l, cl.GetFID())
			}
			ch <- l
		}()
	}
	var all []p9.FID
	for i := 0; i < n; i++ {
		all = append(all, <-ch...)
	}
	vnd.SchedDet()
	for i := range all {
		for j := range all[:i] {
			vnd.Assert(all[i] != all[j], "the same fid is handed out twice")
		}
	}
	vnd.Cover("all")
}

// C12_FidsTwo: two goroutines.
func C12_FidsTwo() {
	vnd.Bound("GetFID: two goroutines taking two fids each after any number (64-bit) of earlier ones: all interleavings")
	fids(2, 2)
}

// C12_FidsThree: three goroutines.
func C12_FidsThree() {
	vnd.Bound("GetFID: three goroutines taking one fid each after any number (64-bit) of earlier ones: all interleavings")
	fids(3, 1)
}

func good(t uint16) {
	vnd.Assert(t != 0 && t != 0xffff, "a reserved tag is handed out")
}

// C12_TagsAll: all tags of a new client.
func C12_TagsAll() {
	vnd.Bound("GetTag: all tags of a new client, one after another")
	cl, _ := Dial(false, 0)
	n := len(cl.Tags)
	vnd.Assert(n >= 1, "a new client has no tags")
	if n > 65534 {
		n = 65534
	}
	seen := make([]bool, 65536)
	for i := 0; i < n; i++ {
		t := cl.GetTag()
		good(uint16(t))
		vnd.Assert(!seen[uint16(t)], "the same tag is handed out twice")
		seen[uint16(t)] = true
	}
	vnd.Cover("all")
}

// C12_TagsConcurrent: tags taken while calls are made.
func C12_TagsConcurrent() {
	vnd.Bound("two goroutines taking a tag each with GetTag while a call is made (pool of 4 tags): all interleavings")
	cl, c := Dial(false, 4)
	ch := make(chan uint16, 2)
	vnd.SchedAll(-1)
	for i := 0; i < 2; i++ {
		go func() { ch <- uint16(cl.GetTag()) }()
	}
	r := Go(cl, Tclunk, []F{U32F(1)})
	a, b := <-ch, <-ch
	t := WantRequest(c.Recv(), Tclunk, []F{U32F(1)})
	good(a)
	good(b)
	vnd.Assert(a != b && t != a && t != b, "a tag handed out is used again")
	c.Send(Encode(Rclunk, t, nil))
	vnd.Assert((<-r).Err == nil, "a call fails although its reply is good")
	vnd.SchedDet()
	vnd.Cover("all")
}

// C12_TagsHistory: tags taken, calls made and answered in any order.
func C12_TagsHistory() {
	vnd.Bound("histories of 10 steps (thorough: 12) on a pool of 4 tags: a tag is taken with GetTag, a call is made, the oldest or the newest outstanding call is answered")
	cl, c := Dial(false, 4)
	type out struct {
		tag uint16
		ch  chan Result
	}
	var held []uint16
	var calls []out
	unused := func(t uint16) {
		good(t)
		for _, h := range held {
			vnd.Assert(h != t, "a tag handed out is used again")
		}
		for _, x := range calls {
			vnd.Assert(x.tag != t, "a tag of an outstanding request is used again")
		}
	}
	for i := 0; i < 10+2*vnd.Config("tier", 0); i++ {
		switch vnd.Choose("step", 4) {
		case 0:
			if len(held) == 2 || len(held)+len(calls) == 4 {
				return
			}
			t := uint16(cl.GetTag())
			unused(t)
			held = append(held, t)
		case 1:
			if len(held)+len(calls) == 4 {
				return
			}
			rq := []F{U32F(uint32(i))}
			ch := Go(cl, Tclunk, rq)
			t := WantRequest(c.Recv(), Tclunk, rq)
			unused(t)
			calls = append(calls, out{t, ch})
		case 2:
			if len(calls) == 0 {
				return
			}
			x := calls[0]
			calls = calls[1:]
			c.Send(Encode(Rclunk, x.tag, nil))
			vnd.Assert((<-x.ch).Err == nil, "a call fails although its reply is good")
		case 3:
			if len(calls) < 2 {
				return
			}
			x := calls[len(calls)-1]
			calls = calls[:len(calls)-1]
			c.Send(Encode(Rclunk, x.tag, nil))
			vnd.Assert((<-x.ch).Err == nil, "a call fails although its reply is good")
		}
	}
	vnd.Cover("done")
}
