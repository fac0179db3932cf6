package hlib

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/Harvey-OS/ninep/zzverif/vacc"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

// Addr is a fixed network address.
type Addr struct{}

func (Addr) Network() string { return "fake" }
func (Addr) String() string  { return "fake:1" }

// ErrNet is the error of a failed network.
var ErrNet = errors.New("network failed")

// Conn is a scripted connection. What Send gives it, Read returns: each piece
// by as many reads as it takes, never joined with the next piece.
type Conn struct {
	in     chan []byte
	left   []byte
	mu     sync.Mutex
	out    chan []byte
	pend   []byte
	closed chan struct{}
	Closes int
	// EndErr is what Read returns after the last piece (nil: io.EOF).
	EndErr error
	// More, when set, comes after the end has been told once.
	More []byte
	// WithLast makes the read that returns the last bytes also return the end.
	WithLast bool
	// Last tells that the pieces sent are all there will be (for WithLast).
	Last bool
	// WriteErr, when set, decides for each write how much of it goes out and whether it fails.
	WriteErr func(n int) (int, error)
	ended    bool
	tries    int
	ind      bool
	Reads    int
}

// ConnCap is the number of pieces a new connection holds in each direction.
var ConnCap = 4096

// NewConn makes a connection.
func NewConn() *Conn {
	return &Conn{in: make(chan []byte, ConnCap), out: make(chan []byte, ConnCap), closed: make(chan struct{})}
}

// Send queues a piece for Read.
func (c *Conn) Send(b []byte) { c.in <- b }

// End ends the stream after what was sent.
func (c *Conn) End() {
	if !c.ind {
		c.ind = true
		close(c.in)
	}
}

func (c *Conn) endErr() error {
	if c.EndErr != nil {
		return c.EndErr
	}
	return io.EOF
}

// again is for who goes on with a network that has failed: for ever.
func (c *Conn) again() {
	if c.tries++; c.tries > 50 {
		<-make(chan bool)
	}
}

func (c *Conn) Read(p []byte) (int, error) {
	c.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	if c.ended && c.More != nil {
		c.ended, c.left, c.More = false, c.More, nil
	}
	if c.ended {
		c.again()
		return 0, c.endErr()
	}
	if len(c.left) == 0 {
		select {
		case b, ok := <-c.in:
			if !ok {
				c.ended = true
				return 0, c.endErr()
			}
			c.left = b
		case <-c.closed:
			return 0, errors.New("use of closed network connection")
		}
	}
	n := vacc.Copy(p, c.left)
	c.left = c.left[n:]
	if c.WithLast && c.Last && len(c.left) == 0 && len(c.in) == 0 {
		c.ended = true
		return n, c.endErr()
	}
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	n := len(p)
	var err error
	if c.WriteErr != nil {
		if n, err = c.WriteErr(n); err != nil {
			c.again()
		}
	}
	b := make([]byte, n)
	vacc.Copy(b, p)
	if c.IsClosed() {
		return 0, errors.New("use of closed network connection")
	}
	c.out <- b
	return n, err
}

func (c *Conn) Close() error {
	vnd.Atomic()
	c.mu.Lock()
	c.Closes++
	first := c.Closes == 1
	c.mu.Unlock()
	vnd.AtomicEnd()
	if first {
		close(c.closed)
	}
	return nil
}

// WaitClosed waits for the code under test to close the connection.
func (c *Conn) WaitClosed() { <-c.closed }

// IsClosed tells whether it did.
func (c *Conn) IsClosed() bool {
	vnd.Atomic()
	defer vnd.AtomicEnd()
	select {
	case <-c.closed:
		return true
	default:
		return false
	}
}

// whole cuts one message off what has been written, nil when there is none.
func (c *Conn) whole() []byte {
	if len(c.pend) < 7 {
		return nil
	}
	n := int(uint64(c.pend[0]) | uint64(c.pend[1])<<8 | uint64(c.pend[2])<<16 | uint64(c.pend[3])<<24)
	vnd.Assert(n >= 7, "a message with a size below 7 is sent")
	if len(c.pend) < n {
		return nil
	}
	m := c.pend[:n]
	c.pend = c.pend[n:]
	return m
}

// Recv waits for one whole message written by the code under test; nil when
// the connection is closed before.
func (c *Conn) Recv() []byte {
	for {
		if m := c.whole(); m != nil {
			return m
		}
		select {
		case b := <-c.out:
			c.pend = append(c.pend, b...)
		case <-c.closed:
			c.Rest()
			return c.whole()
		}
	}
}

// Rest is what was written and not received.
func (c *Conn) Rest() []byte {
	vnd.Atomic()
	defer vnd.AtomicEnd()
	for {
		select {
		case b := <-c.out:
			c.pend = append(c.pend, b...)
			continue
		default:
		}
		return c.pend
	}
}

func (c *Conn) LocalAddr() net.Addr                { return Addr{} }
func (c *Conn) RemoteAddr() net.Addr               { return Addr{} }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }
