package t

import (
	"bytes"
	"errors"
	"fmt"
	"path"
	"sync"

	"github.com/Harvey-OS/ninep/protocol"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

func T_arith() {
	a, b := vnd.U32("a"), vnd.U32("b")
	vnd.Assert(a+b == b+a, "comm")
	vnd.Assert(uint64(a)*2 == uint64(a)<<1, "shl")
	vnd.Cover("end")
}

func T_bad() {
	a := vnd.U32("a")
	if a > 10 {
		vnd.Assert(a*3 != 99, "a*3 != 99")
	}
}

func T_version() {
	var b bytes.Buffer
	for _, n := range []int{0, 1, 5} {
		ms := protocol.MaxSize(vnd.U32("ms"))
		v := vnd.Str("v", n)
		tag := protocol.Tag(vnd.U16("tag"))
		protocol.MarshalTversionPkt(&b, tag, ms, v)
		c := bytes.NewBuffer(b.Bytes()[5:])
		m2, v2, t2, err := protocol.UnmarshalTversionPkt(c)
		vnd.Assert(err == nil, "err")
		vnd.Assert(vnd.And(m2 == ms, v2 == v, t2 == tag), "roundtrip")
	}
	vnd.Cover("end")
}

func T_path() {
	s := vnd.Str("s", 3)
	p := path.Join("/r", path.Join("/", s))
	vnd.Assert(len(p) >= 2 && p[:2] == "/r", "contained")
	p2 := path.Join("/r", s)
	if len(p2) >= 2 {
		vnd.Assert(p2[:2] == "/r", "contained2: "+p2)
	}
}

func T_conc() {
	vnd.SchedAll(-1)
	var mu sync.Mutex
	n := 0
	ch := make(chan int)
	for i := 0; i < 3; i++ {
		go func() {
			mu.Lock()
			n++
			mu.Unlock()
			ch <- 1
		}()
	}
	s := 0
	for i := 0; i < 3; i++ {
		s += <-ch
	}
	vnd.Assert(s == 3 && n == 3, "sum")
	vnd.Cover("end")
}

func T_dead() {
	vnd.SchedAll(-1)
	var a, b sync.Mutex
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock(); wg.Done() }()
	go func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock(); wg.Done() }()
	wg.Wait()
}

func T_err() {
	e := errors.New("x")
	f := fmt.Errorf("wrap: %w", e)
	vnd.Assert(errors.Is(f, e), "is")
	vnd.Assert(f.Error() == "wrap: x", "txt")
	vnd.Assert(fmt.Sprintf("%d %v %s %q", 5, []int{1, 2}, "a", "b") == `5 [1 2] a "b"`, "fmt")
}

func T_client() {
	c, err := protocol.NewClient(func(c *protocol.Client) error { return nil })
	vnd.Assert(err == nil && c != nil, "newclient")
}
