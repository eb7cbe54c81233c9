// Package os stands in for the standard package in instrumented code.
package os

import (
	"errors"
	"io"
	"io/fs"
	std "os"
	"runtime"
	"syscall"
	"time"

	"verif.local/sim/rt"
	"verif.local/sim/simfs"
)

// File is a simulated open file or standard stream.
type File struct {
	h   *simfs.Handle
	std int // 1 stdin, 2 stdout, 3 stderr
	cl  bool
}

var (
	Args   = []string{"prog"}
	Stdin  = &File{std: 1}
	Stdout = &File{std: 2}
	Stderr = &File{std: 3}
)

// ExitCode is the panic value of Exit.
type ExitCode struct{ Code int }

// ExitHook, when set, is called by Exit.
var ExitHook func(code int)

func Exit(code int) {
	if ExitHook != nil {
		ExitHook(code)
	}
	if rt.W != nil && !rt.Dying() && !rt.W.ExitOK {
		rt.W.Exited(code)
	}
	runtime.Goexit()
}

func fsys() *simfs.FS { return simfs.Of(rt.W) }

func wrap(h *simfs.Handle, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{h: h}, nil
}

func OpenFile(name string, flag int, perm std.FileMode) (*File, error) {
	return wrap(fsys().OpenFile(name, flag, perm))
}
func Open(name string) (*File, error) { return OpenFile(name, std.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, std.O_RDWR|std.O_CREATE|std.O_TRUNC, 0666)
}

var tmpN int

func CreateTemp(dir, pat string) (*File, error) {
	tmpN++
	if dir == "" {
		dir = "/tmp"
	}
	return Create(dir + "/" + pat + string(rune('a'+tmpN%26)))
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	return b, err
}

func WriteFile(name string, data []byte, perm std.FileMode) error {
	f, err := OpenFile(name, std.O_WRONLY|std.O_CREATE|std.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Stat(name string) (std.FileInfo, error)        { return fsys().Stat(name) }
func Lstat(name string) (std.FileInfo, error)       { return fsys().Stat(name) }
func Remove(name string) error                      { return fsys().Remove(name) }
func RemoveAll(name string) error                   { return fsys().RemoveAll(name) }
func Rename(a, b string) error                      { return fsys().Rename(a, b) }
func Truncate(name string, n int64) error           { return fsys().Truncate(name, n) }
func Mkdir(name string, perm std.FileMode) error    { return fsys().Mkdir(name) }
func MkdirAll(name string, perm std.FileMode) error { fsys().Mkdir(name); return nil }
func MkdirTemp(dir, pat string) (string, error)     { return "/tmp/" + pat, nil }

func (f *File) bad() error {
	if f == nil {
		return std.ErrInvalid
	}
	if f.std != 0 && f.cl {
		return std.ErrClosed
	}
	return nil
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.bad(); err != nil {
		return 0, err
	}
	switch f.std {
	case 0:
		return f.h.Read(b)
	case 1:
		return fsys().ReadStdin(b)
	}
	return 0, &std.PathError{Op: "read", Path: "std", Err: syscall.EBADF}
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.bad(); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, &std.PathError{Op: "read", Path: "std", Err: syscall.ESPIPE}
	}
	return f.h.ReadAt(b, off)
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.bad(); err != nil {
		return 0, err
	}
	switch f.std {
	case 0:
		return f.h.Write(b)
	case 2:
		fsys().Stdout = append(fsys().Stdout, b...)
		return len(b), nil
	case 3:
		fsys().Stderr = append(fsys().Stderr, b...)
		return len(b), nil
	}
	return 0, &std.PathError{Op: "write", Path: "std", Err: syscall.EBADF}
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.bad(); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, &std.PathError{Op: "write", Path: "std", Err: syscall.ESPIPE}
	}
	return f.h.WriteAt(b, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.bad(); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, &std.PathError{Op: "seek", Path: "std", Err: syscall.ESPIPE}
	}
	return f.h.Seek(off, whence)
}

func (f *File) Sync() error {
	if err := f.bad(); err != nil {
		return err
	}
	if f.std != 0 {
		return nil
	}
	return f.h.Sync()
}

func (f *File) Truncate(n int64) error {
	if err := f.bad(); err != nil {
		return err
	}
	if f.std != 0 {
		return std.ErrInvalid
	}
	return f.h.Truncate(n)
}

func (f *File) Close() error {
	if f == nil {
		return std.ErrInvalid
	}
	if f.std != 0 {
		f.cl = true
		return nil
	}
	return f.h.Close()
}

// Reopen undoes Close on the standard streams (harness use).
func Reopen() { Stdin.cl, Stdout.cl, Stderr.cl = false, false, false }

func (f *File) Stat() (std.FileInfo, error) {
	if err := f.bad(); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return nil, errors.New("stat on standard stream")
	}
	return f.h.Stat()
}

func (f *File) Name() string {
	if f.std != 0 {
		return "/dev/std"
	}
	return f.h.Name()
}
func (f *File) Fd() uintptr                        { return uintptr(100 + f.std) }
func (f *File) Chmod(mode fs.FileMode) error       { return nil }
func (f *File) SetDeadline(t time.Time) error      { return std.ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return std.ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return std.ErrNoDeadline }
