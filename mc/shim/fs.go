package shim

import (
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"
	"syscall"
)

// FSOp is a file system operation the code under test is about to perform.
type FSOp struct {
	Kind string // write read sync trunc create rename remove mkdir close
	Path string
	To   string
	Off  int64
	Data []byte
	Len  int64
}

// FSHook is called before every operation; an error is returned to the caller instead of performing it.
var fsHook atomic.Pointer[func(FSOp) error]

func SetFS(f func(FSOp) error) {
	if f == nil {
		fsHook.Store(nil)
		return
	}
	fsHook.Store(&f)
}

func fsop(o FSOp) error {
	Point("file "+o.Kind, nil)
	if h := fsHook.Load(); h != nil {
		return (*h)(o)
	}
	return nil
}

// File wraps the file operations that matter for durability.
type File struct{ *os.File }

func F(f *os.File) File { return File{f} }

func (f File) pos() int64 { n, _ := f.File.Seek(0, 1); return n }

func (f File) WriteAt(b []byte, off int64) (int, error) {
	if err := fsop(FSOp{Kind: "write", Path: f.Name(), Off: off, Data: b, Len: int64(len(b))}); err != nil {
		return 0, err
	}
	return f.File.WriteAt(b, off)
}
func (f File) Write(b []byte) (int, error) {
	if err := fsop(FSOp{Kind: "write", Path: f.Name(), Off: f.pos(), Data: b, Len: int64(len(b))}); err != nil {
		return 0, err
	}
	return f.File.Write(b)
}
func (f File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f File) ReadAt(b []byte, off int64) (int, error) {
	if err := fsop(FSOp{Kind: "read", Path: f.Name(), Off: off, Len: int64(len(b))}); err != nil {
		return 0, err
	}
	return f.File.ReadAt(b, off)
}
func (f File) Seek(off int64, whence int) (int64, error) {
	if err := fsop(FSOp{Kind: "seek", Path: f.Name(), Off: off}); err != nil {
		return 0, err
	}
	n, err := f.File.Seek(off, whence)
	Point("file sought", nil) // what follows may use the file in other ways
	return n, err
}
func (f File) Read(b []byte) (int, error) {
	if err := fsop(FSOp{Kind: "read", Path: f.Name(), Off: f.pos(), Len: int64(len(b))}); err != nil {
		return 0, err
	}
	return f.File.Read(b)
}
func (f File) Sync() error {
	if err := fsop(FSOp{Kind: "sync", Path: f.Name()}); err != nil {
		return err
	}
	return f.File.Sync()
}
func (f File) Truncate(n int64) error {
	if err := fsop(FSOp{Kind: "trunc", Path: f.Name(), Len: n}); err != nil {
		return err
	}
	return f.File.Truncate(n)
}
func (f File) Close() error {
	if err := fsop(FSOp{Kind: "close", Path: f.Name()}); err != nil {
		f.File.Close()
		return err
	}
	return f.File.Close()
}

func fdPath(fd int) string {
	p, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd))
	if err != nil {
		return ""
	}
	return p
}

// Fdatasync and friends stand for the system calls.
func Fdatasync(fd int) error {
	if err := fsop(FSOp{Kind: "sync", Path: fdPath(fd)}); err != nil {
		return err
	}
	return syscall.Fdatasync(fd)
}
func Fsync(fd int) error { return Fdatasync(fd) }

func Rename(a, b string) error {
	if err := fsop(FSOp{Kind: "rename", Path: a, To: b}); err != nil {
		return err
	}
	return os.Rename(a, b)
}
func Remove(a string) error {
	if err := fsop(FSOp{Kind: "remove", Path: a}); err != nil {
		return err
	}
	return os.Remove(a)
}
func RemoveAll(a string) error {
	if err := fsop(FSOp{Kind: "remove", Path: a}); err != nil {
		return err
	}
	return os.RemoveAll(a)
}
func OpenFile(n string, flag int, perm os.FileMode) (*os.File, error) {
	if flag&(os.O_CREATE|os.O_TRUNC) != 0 {
		k := "create"
		if flag&os.O_TRUNC != 0 {
			k = "create-trunc"
		}
		if err := fsop(FSOp{Kind: k, Path: n}); err != nil {
			return nil, err
		}
	}
	return os.OpenFile(n, flag, perm)
}
func Create(n string) (*os.File, error) { return OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666) }
func CreateTemp(d, p string) (*os.File, error) {
	if err := fsop(FSOp{Kind: "create", Path: filepath.Join(d, p)}); err != nil {
		return nil, err
	}
	return os.CreateTemp(d, p)
}
func TempFile(d, p string) (*os.File, error) { return CreateTemp(d, p) }
func WriteFile(n string, b []byte, perm os.FileMode) error {
	f, err := OpenFile(n, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = File{f}.Write(b)
	if e := (File{f}).Close(); err == nil {
		err = e
	}
	return err
}
func MkdirAll(n string, perm os.FileMode) error {
	if err := fsop(FSOp{Kind: "mkdir", Path: n}); err != nil {
		return err
	}
	return os.MkdirAll(n, perm)
}
func Truncate(n string, l int64) error {
	if err := fsop(FSOp{Kind: "trunc", Path: n, Len: l}); err != nil {
		return err
	}
	return os.Truncate(n, l)
}
