// Package simos has the file and process functions of os that the code under
// test may use. Files are real files in the run's scratch directory; every
// operation is a scheduling point and can be made to fail. Writing outside the
// scratch directory is refused and recorded.
package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"vsim/simrt"
)

// Fault makes an operation on a file fail.
type Fault struct {
	Base string `json:"base"`           // base name of the file ("" any)
	Op   string `json:"op"`             // open, read, write, close, stat
	Nth  int    `json:"nth,omitempty"`  // let this many matching operations (opens for read/write/close) pass first
	Cnt  int    `json:"cnt,omitempty"`  // how many times it fires (0: for ever)
	At   int64  `json:"at,omitempty"`   // read/write: after this many bytes of the file
	Kind string `json:"kind,omitempty"` // EIO ENOSPC ENOENT EACCES EMFILE EISDIR chop early

	seen, fired int
}

const maxFaults = 16

// World is the environment of a run.
type World struct {
	Root    string
	Args    []string
	Stdin   []byte
	faults  [maxFaults]*Fault
	nFaults int
	open    int
	maxOpen int
	opens   int
	escaped string
	exited  bool
	code    int
	Out     [1 << 18]byte
	OutN    int
	Total   int64  // bytes written to standard output
	Sum     uint64 // of the bytes, whatever their order
}

var w *World

//go:norace
func Set(x *World) { w = x; setArgs(x) }

//go:norace
func setArgs(x *World) {
	if x != nil {
		Args = x.Args
	}
}

func (x *World) AddFault(f *Fault) {
	if x.nFaults < maxFaults {
		x.faults[x.nFaults] = f
		x.nFaults++
	}
}

//go:norace
func (x *World) Open() (now, max, total int) { return x.open, x.maxOpen, x.opens }

//go:norace
func (x *World) Escaped() string { return x.escaped }

//go:norace
func (x *World) Exit() (bool, int) { return x.exited, x.code }

//go:norace
func (x *World) Output() string { return string(append([]byte(nil), x.Out[:x.OutN]...)) }

//go:norace
func (f *Fault) Fired() int { return f.fired }

//go:norace
func get() *World { return w }

//go:norace
func hit(op, name string) *Fault {
	if w == nil {
		return nil
	}
	base := filepath.Base(name)
	for i := 0; i < w.nFaults; i++ {
		f := w.faults[i]
		if f.Op != op || (f.Base != "" && f.Base != base) {
			continue
		}
		f.seen++
		if f.seen <= f.Nth || (f.Cnt > 0 && f.seen > f.Nth+f.Cnt) {
			continue
		}
		return f
	}
	return nil
}

//go:norace
func (f *Fault) fire() { f.fired++; simrt.Mix(uint64(f.fired)) }

//go:norace
func opened(d int) {
	if w == nil {
		return
	}
	w.open += d
	if d > 0 {
		w.opens++
	}
	if w.open > w.maxOpen {
		w.maxOpen = w.open
	}
}

//go:norace
func escape(p string) { w.escaped = p }

//go:norace
func exit(code int) {
	if w != nil {
		w.exited, w.code = true, code
	}
}

// Emit appends to the captured standard output, as far as no fault of "stdout"
// stops it.
//
//go:norace
func Emit(b []byte) (int, error) {
	if w == nil {
		return len(b), nil
	}
	var f *Fault
	for i := 0; i < w.nFaults; i++ {
		if g := w.faults[i]; g.Op == "write" && g.Base == "stdout" && int64(w.OutN+len(b)) > g.At && (g.Cnt == 0 || g.fired < g.Cnt) {
			f = g
		}
	}
	n := len(b)
	if f != nil {
		n = int(f.At) - w.OutN
		if n < 0 {
			n = 0
		}
	}
	w.Total += int64(n)
	for _, c := range b[:n] {
		w.Sum += uint64(c) * 0x9E3779B97F4A7C15 >> 7
		if w.OutN < len(w.Out) {
			w.Out[w.OutN] = c
			w.OutN++
		}
	}
	if f != nil {
		f.fire()
		return n, &fs.PathError{Op: "write", Path: "/dev/stdout", Err: errno(f.Kind)}
	}
	return n, nil
}

func errno(kind string) error {
	switch kind {
	case "ENOSPC":
		return syscall.ENOSPC
	case "ENOENT":
		return syscall.ENOENT
	case "EACCES":
		return syscall.EACCES
	case "EMFILE":
		return syscall.EMFILE
	case "EISDIR":
		return syscall.EISDIR
	case "EDQUOT":
		return syscall.EDQUOT
	case "ESTALE":
		return syscall.ESTALE
	}
	return syscall.EIO
}

// File is an os.File whose operations can fail.
type File struct {
	f      *os.File
	name   string
	pos    int64
	wpos   int64
	rf, wf *Fault
	cf     *Fault
	chop   bool
	closed bool
	std    int // 1 stdin, 2 stdout, 3 stderr
	in     []byte
}

var (
	Args   []string = os.Args
	Stdin           = &File{std: 1, name: "/dev/stdin"}
	Stdout          = &File{std: 2, name: "/dev/stdout"}
	Stderr          = &File{std: 3, name: "/dev/stderr"}
)

func abs(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		return p
	}
	return a
}

func allowed(p string) bool {
	x := get()
	if x == nil || x.Root == "" || !simrt.Active() {
		return true
	}
	a := abs(p)
	if strings.HasPrefix(a, x.Root+"/") {
		return true
	}
	escape(a)
	return false
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	simrt.YS()
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0 && !allowed(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EACCES}
	}
	if f := hit("open", name); f != nil {
		f.fire()
		return nil, &fs.PathError{Op: "open", Path: name, Err: errno(f.Kind)}
	}
	rf, wf, cf := hit("read", name), hit("write", name), hit("close", name)
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	opened(1)
	return &File{f: f, name: name, rf: rf, wf: wf, cf: cf}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		if x := get(); x != nil && x.Root != "" {
			dir = x.Root
		}
	}
	simrt.YS()
	if !allowed(filepath.Join(dir, "x")) {
		return nil, &fs.PathError{Op: "createtemp", Path: dir, Err: syscall.EACCES}
	}
	if f := hit("open", pattern); f != nil {
		f.fire()
		return nil, &fs.PathError{Op: "createtemp", Path: dir, Err: errno(f.Kind)}
	}
	wf, cf := hit("write", pattern), hit("close", pattern)
	f, err := os.CreateTemp(dir, pattern)
	if err != nil {
		return nil, err
	}
	opened(1)
	return &File{f: f, name: f.Name(), wf: wf, cf: cf}, nil
}

func (f *File) Name() string { return f.name }

func (f *File) Read(p []byte) (int, error) {
	simrt.YS()
	if f.std == 1 {
		x := get()
		if x == nil || f.pos >= int64(len(x.Stdin)) {
			return 0, io.EOF
		}
		n := copy(p, x.Stdin[f.pos:])
		f.pos += int64(n)
		return n, nil
	}
	if f.std != 0 || f.closed {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: fs.ErrClosed}
	}
	if f.rf != nil {
		switch f.rf.Kind {
		case "chop": // legal short reads
			if len(p) > 1 {
				f.rf.fire()
				n := 1 + int(simrt.Env()%7)
				if n < len(p) {
					p = p[:n]
				}
			}
		default:
			if left := f.rf.At - f.pos; left <= 0 {
				f.rf.fire()
				return 0, &fs.PathError{Op: "read", Path: f.name, Err: errno(f.rf.Kind)}
			} else if int64(len(p)) > left {
				p = p[:left]
			}
		}
	}
	n, err := f.f.Read(p)
	f.pos += int64(n)
	return n, err
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	simrt.YS()
	if f.rf != nil && f.rf.Kind != "chop" && off+int64(len(p)) > f.rf.At {
		f.rf.fire()
		n := 0
		if off < f.rf.At {
			n, _ = f.f.ReadAt(p[:f.rf.At-off], off)
		}
		return n, &fs.PathError{Op: "read", Path: f.name, Err: errno(f.rf.Kind)}
	}
	return f.f.ReadAt(p, off)
}

func (f *File) Write(p []byte) (int, error) {
	simrt.YS()
	if f.std == 2 {
		return Emit(p)
	}
	if f.std != 0 {
		return len(p), nil
	}
	if f.closed {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: fs.ErrClosed}
	}
	if f.wf != nil {
		left := f.wf.At - f.wpos
		if left < int64(len(p)) {
			if left < 0 {
				left = 0
			}
			n, _ := f.f.Write(p[:left])
			f.wpos += int64(n)
			f.wf.fire()
			return n, &fs.PathError{Op: "write", Path: f.name, Err: errno(f.wf.Kind)}
		}
	}
	n, err := f.f.Write(p)
	f.wpos += int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	simrt.YS()
	if f.wf != nil && off+int64(len(p)) > f.wf.At {
		f.wf.fire()
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: errno(f.wf.Kind)}
	}
	return f.f.WriteAt(p, off)
}

func (f *File) Close() error {
	simrt.YS()
	if f == nil || f.std != 0 {
		return nil
	}
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: fs.ErrClosed}
	}
	f.closed = true
	opened(-1)
	if f.cf != nil && f.wpos > f.cf.At {
		f.f.Truncate(f.cf.At) // what was written late is lost
	}
	err := f.f.Close()
	if f.cf != nil && err == nil {
		f.cf.fire()
		return &fs.PathError{Op: "close", Path: f.name, Err: errno(f.cf.Kind)}
	}
	return err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	simrt.YS()
	if f.std != 0 {
		return 0, syscall.ESPIPE
	}
	n, err := f.f.Seek(off, whence)
	if err == nil {
		f.pos = n
		f.wpos = n
	}
	return n, err
}

func (f *File) Stat() (fs.FileInfo, error) {
	simrt.YS()
	if f.std != 0 {
		return nil, syscall.EIO
	}
	if x := hit("stat", f.name); x != nil {
		x.fire()
		return nil, &fs.PathError{Op: "stat", Path: f.name, Err: errno(x.Kind)}
	}
	return f.f.Stat()
}
func (f *File) Readdir(n int) ([]fs.FileInfo, error)  { return f.f.Readdir(n) }
func (f *File) ReadDir(n int) ([]fs.DirEntry, error)  { return f.f.ReadDir(n) }
func (f *File) Readdirnames(n int) ([]string, error)  { return f.f.Readdirnames(n) }
func (f *File) Sync() error                           { simrt.YS(); return nil }
func (f *File) Truncate(n int64) error                { return f.f.Truncate(n) }
func (f *File) Chmod(m fs.FileMode) error             { return f.f.Chmod(m) }
func (f *File) Fd() uintptr                           { return f.f.Fd() }
func (f *File) SetDeadline(time.Time) error           { return errors.ErrUnsupported }
func (f *File) SetReadDeadline(time.Time) error       { return errors.ErrUnsupported }
func (f *File) SetWriteDeadline(time.Time) error      { return errors.ErrUnsupported }
func (f *File) Chdir() error                          { return errors.ErrUnsupported }
func (f *File) Chown(int, int) error                  { return nil }
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, errors.ErrUnsupported }

// ReadFrom and WriteTo copy with the calls above.
func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(struct{ io.Writer }{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, struct{ io.Reader }{f}) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	data := make([]byte, 0, 512)
	for {
		if len(data) == cap(data) {
			data = append(data, 0)[:len(data)]
		}
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return data, err
		}
	}
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (fs.FileInfo, error) {
	simrt.YS()
	if x := hit("stat", name); x != nil {
		x.fire()
		return nil, &fs.PathError{Op: "stat", Path: name, Err: errno(x.Kind)}
	}
	return os.Stat(name)
}
func Lstat(name string) (fs.FileInfo, error) { simrt.YS(); return os.Lstat(name) }
func ReadDir(name string) ([]fs.DirEntry, error) {
	simrt.YS()
	return os.ReadDir(name)
}

func guarded(op, name string, f func() error) error {
	simrt.YS()
	if !allowed(name) {
		return &fs.PathError{Op: op, Path: name, Err: syscall.EACCES}
	}
	if x := hit(op, name); x != nil {
		x.fire()
		return &fs.PathError{Op: op, Path: name, Err: errno(x.Kind)}
	}
	return f()
}

func Remove(name string) error {
	return guarded("remove", name, func() error { return os.Remove(name) })
}
func RemoveAll(name string) error {
	return guarded("remove", name, func() error { return os.RemoveAll(name) })
}
func Rename(a, b string) error {
	return guarded("rename", a, func() error {
		if !allowed(b) {
			return &fs.PathError{Op: "rename", Path: b, Err: syscall.EACCES}
		}
		return os.Rename(a, b)
	})
}
func Mkdir(name string, m fs.FileMode) error {
	return guarded("mkdir", name, func() error { return os.Mkdir(name, m) })
}
func MkdirAll(name string, m fs.FileMode) error {
	return guarded("mkdir", name, func() error { return os.MkdirAll(name, m) })
}
func Link(a, b string) error {
	return guarded("link", b, func() error { return os.Link(a, b) })
}
func Symlink(a, b string) error {
	return guarded("link", b, func() error { return os.Symlink(a, b) })
}
func Truncate(name string, n int64) error {
	return guarded("truncate", name, func() error { return os.Truncate(name, n) })
}
func Chmod(name string, m fs.FileMode) error {
	return guarded("chmod", name, func() error { return os.Chmod(name, m) })
}

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	f, err := Open(filepath.Join(string(d), filepath.FromSlash(name)))
	if err != nil {
		return nil, err
	}
	return f, nil
}

func DirFS(dir string) fs.FS { return dirFS(dir) }

// Exit ends the simulated process.
func Exit(code int) {
	if !simrt.Active() {
		os.Exit(code)
	}
	exit(code)
	simrt.ExitTask()
}

// Faults returns the faults of the world.
func (x *World) Faults() []*Fault { return x.faults[:x.nFaults] }

// ClearFaults ends all faults.
func (x *World) ClearFaults() { x.nFaults = 0 }
