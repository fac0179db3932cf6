package t

import (
	"errors"
	"io/fs"
	"net"
	"os"
	"syscall"

	"github.com/Harvey-OS/ninep/zzverif/vnd"
)

func T_deadline() {
	vnd.Assert(os.ErrNotExist != nil, "notexist")
	vnd.Assert(os.ErrNotExist == fs.ErrNotExist, "notexist 2")
	vnd.Assert(os.ErrProcessDone != nil, "procdone")
	vnd.Assert(errors.Is(os.ErrNotExist, fs.ErrNotExist), "is")
	vnd.Assert(os.ErrNoDeadline != nil, "nodeadl")
	var e error = os.ErrDeadlineExceeded
	vnd.Assert(e != nil, "nil")
	ne, ok := e.(net.Error)
	vnd.Assert(ok, "net.Error")
	vnd.Assert(ne.Temporary(), "temp")
	vnd.Assert(ne.Timeout(), "timeout")
}

func T_errno() {
	vnd.Assert(syscall.ENOENT.Error() == "no such file or directory", syscall.ENOENT.Error())
	vnd.Assert((&os.SyscallError{Syscall: "read", Err: syscall.ECONNRESET}).Error() == "read: connection reset by peer", "reset")
	vnd.Assert(net.ErrClosed.Error() == "use of closed network connection", "closed")
}
