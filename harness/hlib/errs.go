package hlib

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"syscall"

	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

// NetErr is a net.Error that says what it is told to.
type NetErr struct {
	Text       string
	Time, Temp bool
}

func (e *NetErr) Error() string   { return e.Text }
func (e *NetErr) Timeout() bool   { return e.Time }
func (e *NetErr) Temporary() bool { return e.Temp }

// list is an error that cannot be compared.
type list []string

func (l list) Error() string { return l[0] }

// NetErrs are kinds of errors that reads and writes on networks give.
func NetErrs() []error {
	return []error{
		errors.New("connection reset"),
		io.ErrUnexpectedEOF,
		io.ErrClosedPipe,
		net.ErrClosed,
		&NetErr{"i/o timeout", true, true},
		&NetErr{"try again", false, true},
		&NetErr{"timed out for good", true, false},
		os.ErrDeadlineExceeded,
		&net.OpError{Op: "read", Net: "tcp", Err: &os.SyscallError{Syscall: "read", Err: syscall.ECONNRESET}},
		syscall.EPIPE,
		syscall.EAGAIN,
		syscall.EINTR,
		io.ErrNoProgress,
		io.ErrShortWrite,
		fmt.Errorf("wrapped: %w", io.EOF),
		list{"many", "errors"},
	}
}

// NetError chooses one of them.
func NetError() error {
	l := NetErrs()
	return l[vnd.Choose("neterr", len(l))]
}

// AnyErrs are kinds of errors that an operation may return.
func AnyErrs() []error {
	return append(NetErrs(),
		errors.New(""),
		io.EOF,
		os.ErrNotExist,
		os.ErrExist,
		os.ErrPermission,
		os.ErrInvalid,
		os.ErrClosed,
		errors.ErrUnsupported,
		context.Canceled,
		context.DeadlineExceeded,
		syscall.ENOENT,
		syscall.ENOSYS,
		&fs.PathError{Op: "open", Path: "/x", Err: syscall.EACCES},
		&fs.PathError{Op: "open", Path: "/x", Err: syscall.ENOENT},
		&os.LinkError{Op: "rename", Old: "/x", New: "/y", Err: syscall.EXDEV},
		errors.Join(io.EOF, os.ErrExist),
		errors.New("100%d %s %v"),
	)
}

// Comparable leaves out what cannot be compared.
func Comparable(l []error) (r []error) {
	for _, e := range l {
		if _, ok := e.(list); !ok {
			r = append(r, e)
		}
	}
	return
}

// AnyError chooses one of them.
func AnyError() error {
	l := AnyErrs()
	return l[vnd.Choose("anyerr", len(l))]
}
