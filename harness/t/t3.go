package t

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"io/ioutil"
	"log"
	"math/bits"
	"net"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"unicode/utf8"

	"github.com/Harvey-OS/ninep/zzverif/hlib"
	"github.com/Harvey-OS/ninep/zzverif/vnd"
	"github.com/Harvey-OS/ninep/zzverif/vos"
)

// Features of the language and library that code under test may come to use.

func T_f_bufio() {
	var b bytes.Buffer
	w := bufio.NewWriter(&b)
	w.WriteString("hello")
	w.WriteByte(10)
	fmt.Fprintf(w, "%d %s\n", 5, "x")
	w.Flush()
	r := bufio.NewReader(&b)
	s, err := r.ReadString(10)
	vnd.Assert(s == "hello\n" && err == nil, "bufio")
	p, _ := r.Peek(1)
	vnd.Assert(p[0] == '5', "peek")
	sc := bufio.NewScanner(r)
	sc.Scan()
	vnd.Assert(sc.Text() == "5 x", "scan")
}

func T_f_builder() {
	var b strings.Builder
	b.Grow(10)
	for i := 0; i < 3; i++ {
		fmt.Fprintf(&b, "%v,", i)
	}
	b.WriteByte('x')
	vnd.Assert(b.String() == "0,1,2,x", "builder")
	vnd.Assert(strings.Join(strings.Split("a/b/c", "/"), ":") == "a:b:c", "split")
	vnd.Assert(strings.TrimSuffix(strings.TrimPrefix("abc", "a"), "c") == "b", "trim")
	vnd.Assert(strings.Contains("abc", "bc") && strings.Index("abc", "c") == 2 && strings.LastIndex("abcb", "b") == 3, "index")
	vnd.Assert(strings.EqualFold("AB", "ab") && strings.ToLower("AB") == "ab" && strings.Fields(" a b ")[1] == "b", "fold")
	vnd.Assert(strings.Repeat("ab", 2) == "abab" && strings.Replace("aa", "a", "b", 1) == "ba", "rep")
	a, c, ok := strings.Cut("k=v", "=")
	vnd.Assert(a == "k" && c == "v" && ok, "cut")
	vnd.Assert(strings.Map(func(r rune) rune { return r + 1 }, "ab") == "bc", "map")
	vnd.Assert(strings.NewReplacer("a", "1", "b", "2").Replace("abc") == "12c", "replacer")
}

func T_f_sort() {
	x := []int{3, 1, 2}
	sort.Ints(x)
	vnd.Assert(x[0] == 1 && x[2] == 3, "ints")
	y := []string{"b", "a"}
	sort.Strings(y)
	vnd.Assert(y[0] == "a", "strings")
	sort.Slice(x, func(i, j int) bool { return x[i] > x[j] })
	vnd.Assert(x[0] == 3, "slice")
	vnd.Assert(sort.SearchInts([]int{1, 3, 5}, 3) == 1, "search")
}

func T_f_binary() {
	b := make([]byte, 8)
	v := vnd.U32("v")
	binary.LittleEndian.PutUint32(b, v)
	vnd.Assert(binary.LittleEndian.Uint32(b) == v, "le")
	binary.BigEndian.PutUint64(b, 5)
	vnd.Assert(b[7] == 5, "be")
	b = binary.LittleEndian.AppendUint16(nil, 0x102)
	vnd.Assert(b[0] == 2, "append")
	vnd.Assert(bits.Len(8) == 4 && bits.TrailingZeros32(8) == 3, "bits")
}

func T_f_binrw() {
	var b bytes.Buffer
	vnd.Assert(binary.Write(&b, binary.LittleEndian, uint32(7)) == nil, "write")
	var x uint32
	vnd.Assert(binary.Read(&b, binary.LittleEndian, &x) == nil && x == 7, "read")
	binary.Write(&b, binary.LittleEndian, []byte{1, 2})
	vnd.Assert(b.Len() == 2, "slice")
	binary.Write(&b, binary.LittleEndian, []uint16{1, 2})
	vnd.Assert(b.Len() == 6, "slice")
}

func T_f_binstruct() {
	var b bytes.Buffer
	h := struct {
		Size uint32
		Typ  uint8
		Tag  uint16
	}{1, 2, 3}
	vnd.Assert(binary.Write(&b, binary.LittleEndian, h) == nil && b.Len() == 7, "write")
	g := h
	g.Tag = 0
	vnd.Assert(binary.Read(&b, binary.LittleEndian, &g) == nil && g.Tag == 3, "read")
}

type myErr struct{ code int }

func (e *myErr) Error() string { return "my " + strconv.Itoa(e.code) }

func T_f_errors() {
	e := fmt.Errorf("wrap: %w", &myErr{3})
	var m *myErr
	vnd.Assert(errors.As(e, &m) && m.code == 3, "as")
	vnd.Assert(errors.Is(fmt.Errorf("a: %w", io.EOF), io.EOF), "is")
	vnd.Assert(errors.Unwrap(e).Error() == "my 3", "unwrap")
	vnd.Assert(errors.Join(io.EOF, nil).Error() == "EOF", "join")
}

func T_f_sync() {
	var o sync.Once
	n := 0
	o.Do(func() { n++ })
	o.Do(func() { n++ })
	vnd.Assert(n == 1, "once")
	var rw sync.RWMutex
	rw.RLock()
	rw.RUnlock()
	rw.Lock()
	rw.Unlock()
	p := sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}
	b := p.Get().(*bytes.Buffer)
	b.Reset()
	p.Put(b)
	var m sync.Map
	m.Store("a", 1)
	v, ok := m.Load("a")
	vnd.Assert(ok && v.(int) == 1, "map")
	m.LoadOrStore("b", 2)
	k := 0
	m.Range(func(a, b interface{}) bool { k++; return true })
	vnd.Assert(k == 2, "range")
	m.Delete("a")
	v, ok = m.LoadAndDelete("b")
	vnd.Assert(ok, "lad")
	var mu sync.Mutex
	c := sync.NewCond(&mu)
	done := false
	go func() { mu.Lock(); done = true; c.Broadcast(); mu.Unlock() }()
	mu.Lock()
	for !done {
		c.Wait()
	}
	mu.Unlock()
	vnd.Assert(mu.TryLock(), "try")
	mu.Unlock()
	f := sync.OnceFunc(func() { n++ })
	f()
	f()
	g := sync.OnceValue(func() int { return 4 })
	vnd.Assert(n == 2 && g() == 4, "oncefunc")
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); runtime.Gosched() }()
	wg.Wait()
}

func T_f_atomic() {
	var i atomic.Int64
	i.Add(2)
	i.Store(5)
	vnd.Assert(i.Load() == 5 && i.CompareAndSwap(5, 6) && i.Swap(7) == 6, "int64")
	var u atomic.Uint32
	u.Store(1)
	var b atomic.Bool
	b.Store(true)
	vnd.Assert(b.Load() && u.Load() == 1, "bool")
	var p atomic.Pointer[int]
	x := 3
	p.Store(&x)
	vnd.Assert(*p.Load() == 3, "ptr")
	var v atomic.Value
	v.Store("s")
	vnd.Assert(v.Load().(string) == "s", "value")
	var n int32
	atomic.AddInt32(&n, 1)
	vnd.Assert(atomic.CompareAndSwapInt32(&n, 1, 2) && atomic.LoadInt32(&n) == 2, "cas")
	vnd.Assert(atomic.SwapInt32(&n, 4) == 2, "swap")
}

func T_f_context() {
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool)
	go func() { <-ctx.Done(); done <- true }()
	cancel()
	<-done
	vnd.Assert(ctx.Err() == context.Canceled, "cancel")
}

func T_f_ctxvalue() {
	c2 := context.WithValue(context.Background(), "k", 1)
	vnd.Assert(c2.Value("k").(int) == 1, "value")
}

func T_f_io() {
	r, w := io.Pipe()
	go func() { w.Write([]byte("abc")); w.Close() }()
	b, err := ioutil.ReadAll(r)
	vnd.Assert(string(b) == "abc" && err == nil, "pipe")
	b, _ = io.ReadAll(io.MultiReader(strings.NewReader("a"), bytes.NewReader([]byte("b"))))
	vnd.Assert(string(b) == "ab", "multi")
	var o bytes.Buffer
	b, _ = io.ReadAll(io.TeeReader(strings.NewReader("xy"), &o))
	vnd.Assert(o.String() == "xy", "tee")
	n, err := io.ReadAtLeast(strings.NewReader("a"), make([]byte, 2), 2)
	vnd.Assert(n == 1 && err == io.ErrUnexpectedEOF, "atleast")
	k, err := io.CopyN(&o, strings.NewReader("abc"), 2)
	vnd.Assert(k == 2 && err == nil, "copyn")
	io.WriteString(&o, "z")
	io.Copy(ioutil.Discard, &o)
	io.Copy(io.Discard, strings.NewReader("q"))
	s := io.NewSectionReader(strings.NewReader("abcdef"), 1, 3)
	b, _ = io.ReadAll(s)
	vnd.Assert(string(b) == "bcd", "section")
	mw := io.MultiWriter(&o, ioutil.Discard)
	mw.Write([]byte("1"))
	io.CopyBuffer(&o, strings.NewReader("abc"), make([]byte, 2))
	nb := net.Buffers{[]byte("a"), []byte("b")}
	nb.WriteTo(&o)
	vnd.Assert(o.String() == "1abcab", "buffers")
	io.NopCloser(&o).Close()
}

func T_f_fmt() {
	vnd.Assert(fmt.Sprint("a", 1, true) == "a1 true", "sprint")
	vnd.Assert(fmt.Sprintf("%5d|%-3s|%x|%q|%v", 3, "a", 255, "s", []int{1}) == `    3|a  |ff|"s"|[1]`, "sprintf1")
	vnd.Assert(fmt.Sprintf("%T", 1) == "int", "sprintf T")
	vnd.Assert(hex.EncodeToString([]byte{1, 255}) == "01ff", "hex")
	vnd.Assert(strings.Contains(hex.Dump([]byte("abc")), "61 62 63"), "dump")
	vnd.Assert(strconv.Quote("a\n") == `"a\n"`, "quote")
	n, err := strconv.Atoi("12")
	vnd.Assert(n == 12 && err == nil, "atoi")
	vnd.Assert(strconv.FormatUint(255, 16) == "ff", "format")
	vnd.Assert(utf8.ValidString("é") && utf8.RuneCountInString("é") == 1, "utf8")
	l := log.New(ioutil.Discard, "x", 0)
	l.Printf("a %d", 1)
	log.Println("a")
	log.Print("b")
}

func T_f_path() {
	vnd.Assert(path.Clean("/a/../b/.") == "/b" && path.Base("/a/b") == "b" && path.Dir("/a/b") == "/a", "path")
	vnd.Assert(filepath.Join("a", "..", "b") == "b" && filepath.IsAbs("/x") && filepath.Base("/q") == "q", "filepath")
	d, f := filepath.Split("/a/b")
	vnd.Assert(d == "/a/" && f == "b", "split")
	a, err := filepath.Abs("/a/../c")
	vnd.Assert(a == "/c" && err == nil, "abs")
	vnd.Assert(filepath.FromSlash("a/b") == "a/b" && filepath.ToSlash("a") == "a" && filepath.Clean("a//b") == "a/b", "slash")
	r, err := filepath.Rel("/a", "/a/b/c")
	vnd.Assert(r == "b/c" && err == nil, "rel")
	vnd.Assert(filepath.IsLocal("a/b") && !filepath.IsLocal("../x"), "local")
	ok, _ := filepath.Match("a*", "abc")
	vnd.Assert(ok, "match")
}

type stack[T any] struct{ x []T }

func (s *stack[T]) push(v T) { s.x = append(s.x, v) }

func mapOf[K comparable, V any](m map[K]V) (r []K) {
	for k := range m {
		r = append(r, k)
	}
	return r
}

func T_f_generic() {
	s := stack[int]{}
	s.push(1)
	vnd.Assert(len(mapOf(map[string]int{"a": 1})) == 1 && s.x[0] == 1, "generic")
	vnd.Assert(min(1, 2) == 1 && max(1, 2, 3) == 3, "minmax")
	m := map[int]int{1: 1}
	clear(m)
	vnd.Assert(len(m) == 0, "clear")
}

func T_f_recover() {
	f := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("recovered: %v", r)
			}
		}()
		var b []byte
		_ = b[len(b)]
		return nil
	}
	vnd.Assert(f() != nil && strings.Contains(f().Error(), "index out of range"), "recover")
	g := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = r.(error)
			}
		}()
		panic(io.EOF)
	}
	vnd.Assert(g() == io.EOF, "panic")
}

func T_f_osfile() {
	vos.Reset()
	d := vos.Top.AddDir("r")
	d.AddFile("f", "abc")
	s, err := filepath.EvalSymlinks("/r/f")
	vnd.Assert(s == "/r/f" && err == nil, "evalsymlinks")
}

func T_f_oswalk() {
	vos.Reset()
	d := vos.Top.AddDir("r")
	d.AddFile("f", "abc")
	n := 0
	filepath.Walk("/r", func(p string, i fs.FileInfo, err error) error { n++; return err })
	vnd.Assert(n == 2, "walk")
	l, err := ioutil.ReadDir("/r")
	vnd.Assert(len(l) == 1 && err == nil, "readdir")
	b, err := ioutil.ReadFile("/r/f")
	vnd.Assert(string(b) == "abc" && err == nil, "readfile")
}

func T_f_goto() {
	i := 0
loop:
	for {
		switch {
		case i > 3:
			break loop
		case i == 2:
			i++
			continue loop
		default:
			i++
		}
	}
	vnd.Assert(i == 4, "loop")
	f := [4]byte{1, 2}
	x := f
	x[0] = 5
	vnd.Assert(f[0] == 1 && x != f, "array")
	s := []byte("abc")
	a := [3]byte(s)
	vnd.Assert(a[2] == 'c', "conv")
	copy(s[1:], s)
	vnd.Assert(string(s) == "aab", "overlap")
	t := s[0:1:2]
	vnd.Assert(cap(t) == 2, "cap")
	for i, r := range "é1" {
		_ = i
		_ = r
	}
	var e interface{} = 3
	switch v := e.(type) {
	case string:
		vnd.Assert(false, "type")
	case int:
		vnd.Assert(v == 3, "type")
	}
	ch := make(chan int, 3)
	ch <- 1
	close(ch)
	for v := range ch {
		vnd.Assert(v == 1, "chan")
	}
	var c2 chan int
	select {
	case <-c2:
	default:
	}
	fn := hlib.Encode
	_ = fn
	type pair struct{ a, b int }
	mm := map[pair]string{{1, 2}: "x"}
	vnd.Assert(mm[pair{1, 2}] == "x", "mapkey")
	delete(mm, pair{1, 2})
	bs := bytes.Split([]byte("a,b"), []byte(","))
	vnd.Assert(len(bs) == 2 && bytes.Equal(bs[0], []byte("a")) && bytes.Compare(bs[0], bs[1]) < 0, "bytes")
	vnd.Assert(bytes.IndexByte([]byte("abc"), 'c') == 2 && bytes.HasPrefix([]byte("ab"), []byte("a")), "bytes")
}
