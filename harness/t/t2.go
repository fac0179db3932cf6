package t

import (
	_ "github.com/Harvey-OS/ninep/filesystem"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

func T_vos() {
	d := vos.Top.AddDir("a")
	d.AddFile("f", "hello")
	fi, err := vos.Stat("/a/f")
	vnd.Assert(err == nil && fi.Size() == 5, "size")
	_, err = vos.Lstat("/a/g")
	vnd.Assert(err != nil && vos.IsNotExist(err), "noent "+err.Error())
	h, err := vos.OpenFile("/a/f", vos.O_RDONLY, 0)
	vnd.Assert(err == nil, "open")
	n := vnd.U32("n")
	vnd.Assume(n < 1<<31)
	b := make([]byte, n)
	off := vnd.U64("off")
	k, err := h.ReadAt(b, int64(off))
	vnd.Assert(k <= 5, "k")
	if k > 0 {
		vnd.Assert(string(b[:k]) == "hello"[off:off+uint64(k)], "data")
	}
}
