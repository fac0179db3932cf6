// Code generated by the engine (vengine -mirror os). DO NOT EDIT.

package vos

import (
	std "os"

	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"io/fs"
)

func Chdir(_ string) (r0 error)                          { vnd.Unsupported("os.Chdir"); return }
func Clearenv()                                          { vnd.Unsupported("os.Clearenv"); return }
func CopyFS(_ string, _ fs.FS) (r0 error)                { vnd.Unsupported("os.CopyFS"); return }
func CreateTemp(_ string, _ string) (r0 *File, r1 error) { vnd.Unsupported("os.CreateTemp"); return }

const DevNull = std.DevNull

type DirEntry = std.DirEntry

func DirFS(_ string) (r0 fs.FS) { vnd.Unsupported("os.DirFS"); return }
func Environ() (r0 []string)    { vnd.Unsupported("os.Environ"); return }

var ErrClosed = fs.ErrClosed
var ErrExist = fs.ErrExist
var ErrInvalid = fs.ErrInvalid
var ErrNotExist = fs.ErrNotExist
var ErrPermission = fs.ErrPermission

func Executable() (r0 string, r1 error) { vnd.Unsupported("os.Executable"); return }

var Exit = std.Exit

func Expand(_ string, _ func(string) string) (r0 string) { vnd.Unsupported("os.Expand"); return }
func ExpandEnv(_ string) (r0 string)                     { vnd.Unsupported("os.ExpandEnv"); return }

type FileInfo = std.FileInfo
type FileMode = std.FileMode

func FindProcess(_ int) (r0 *Process, r1 error) { vnd.Unsupported("os.FindProcess"); return }
func Getegid() (r0 int)                         { vnd.Unsupported("os.Getegid"); return }
func Getgroups() (r0 []int, r1 error)           { vnd.Unsupported("os.Getgroups"); return }
func Getpagesize() (r0 int)                     { vnd.Unsupported("os.Getpagesize"); return }
func Getpid() (r0 int)                          { vnd.Unsupported("os.Getpid"); return }
func Getppid() (r0 int)                         { vnd.Unsupported("os.Getppid"); return }
func Hostname() (r0 string, r1 error)           { vnd.Unsupported("os.Hostname"); return }

var IsExist = std.IsExist
var IsNotExist = std.IsNotExist
var IsPathSeparator = std.IsPathSeparator
var IsPermission = std.IsPermission
var IsTimeout = std.IsTimeout

func LookupEnv(_ string) (r0 string, r1 bool)            { vnd.Unsupported("os.LookupEnv"); return }
func MkdirTemp(_ string, _ string) (r0 string, r1 error) { vnd.Unsupported("os.MkdirTemp"); return }

const ModeAppend = std.ModeAppend
const ModeCharDevice = std.ModeCharDevice
const ModeDevice = std.ModeDevice
const ModeDir = std.ModeDir
const ModeExclusive = std.ModeExclusive
const ModeIrregular = std.ModeIrregular
const ModeNamedPipe = std.ModeNamedPipe
const ModePerm = std.ModePerm
const ModeSetgid = std.ModeSetgid
const ModeSetuid = std.ModeSetuid
const ModeSocket = std.ModeSocket
const ModeSticky = std.ModeSticky
const ModeSymlink = std.ModeSymlink
const ModeTemporary = std.ModeTemporary
const ModeType = std.ModeType

func NewFile(_ uintptr, _ string) (r0 *File) { vnd.Unsupported("os.NewFile"); return }

var NewSyscallError = std.NewSyscallError

const O_APPEND = std.O_APPEND
const O_CREATE = std.O_CREATE
const O_EXCL = std.O_EXCL
const O_RDONLY = std.O_RDONLY
const O_RDWR = std.O_RDWR
const O_SYNC = std.O_SYNC
const O_TRUNC = std.O_TRUNC
const O_WRONLY = std.O_WRONLY

func OpenInRoot(_ string, _ string) (r0 *File, r1 error) { vnd.Unsupported("os.OpenInRoot"); return }
func OpenRoot(_ string) (r0 *Root, r1 error)             { vnd.Unsupported("os.OpenRoot"); return }

type PathError = std.PathError

const PathListSeparator = std.PathListSeparator
const PathSeparator = std.PathSeparator

func Pipe() (r0 *File, r1 *File, r2 error) { vnd.Unsupported("os.Pipe"); return }

type ProcAttr = std.ProcAttr
type Process = std.Process
type ProcessState = std.ProcessState
type Root = std.Root

const SEEK_CUR = std.SEEK_CUR
const SEEK_END = std.SEEK_END
const SEEK_SET = std.SEEK_SET

func Setenv(_ string, _ string) (r0 error) { vnd.Unsupported("os.Setenv"); return }

type Signal = std.Signal

func StartProcess(_ string, _ []string, _ *ProcAttr) (r0 *Process, r1 error) {
	vnd.Unsupported("os.StartProcess")
	return
}

type SyscallError = std.SyscallError

func TempDir() (r0 string)                 { vnd.Unsupported("os.TempDir"); return }
func Unsetenv(_ string) (r0 error)         { vnd.Unsupported("os.Unsetenv"); return }
func UserCacheDir() (r0 string, r1 error)  { vnd.Unsupported("os.UserCacheDir"); return }
func UserConfigDir() (r0 string, r1 error) { vnd.Unsupported("os.UserConfigDir"); return }
func UserHomeDir() (r0 string, r1 error)   { vnd.Unsupported("os.UserHomeDir"); return }
