package hlib

import (
	p9 "github.com/Harvey-OS/ninep/protocol"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

// Result is what a client call returned.
type Result struct {
	F   []F
	Err error
}

// Dial makes a real client on a scripted connection. tags > 0 limits the tags
// in its pool to 1..tags.
func Dial(trace bool, tags int) (*p9.Client, *Conn) {
	c := NewConn()
	cl, err := p9.NewClient(func(cl *p9.Client) error {
		cl.ToNet = c
		cl.FromNet = c
		if trace {
			cl.Trace = Trace
		}
		if tags > 0 {
			cl.Tags = make(chan p9.Tag, p9.NumTags)
			for i := 1; i <= tags; i++ {
				cl.Tags <- p9.Tag(i)
			}
		}
		return nil
	})
	vnd.Assert(err == nil && cl != nil, "NewClient fails")
	return cl, c
}

// Go makes a call in its own goroutine.
func Go(cl *p9.Client, typ int, f []F) chan Result {
	ch := make(chan Result, 1)
	go func() {
		r, err := CallT(cl, typ, f)
		ch <- Result{r, err}
	}()
	return ch
}

// TagOf is the tag of a message.
func TagOf(m []byte) uint16 { return uint16(m[5]) | uint16(m[6])<<8 }

// WantRequest checks that m is the request expected and returns its tag.
func WantRequest(m []byte, typ int, f []F) uint16 {
	vnd.Assert(m != nil, Name(typ)+": no request is sent")
	tag := TagOf(m)
	vnd.Assert(vnd.And(tag != 0, tag != 0xffff), Name(typ)+": the request has a reserved tag")
	vnd.Assert(m[4] == byte(typ), Name(typ)+": the request has the wrong type")
	w := Encode(typ, tag, f)
	vnd.Assert(len(w) == len(m), Name(typ)+": the request has the wrong length")
	vnd.Assert(vnd.BytesEq(w, m), Name(typ)+": the request does not carry the arguments")
	return tag
}
