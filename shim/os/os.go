// Package os is package os with scheduling points (see shim/sched).
package os

import (
	"io"
	"os"

	"github.com/gkampitakis/go-snaps/zzshim/sched"
)

type File struct {
	*os.File
	std int
}

var (
	Stdin  = &File{os.Stdin, 0}
	Stdout = &File{os.Stdout, 1}
	Stderr = &File{os.Stderr, 2}
)

func wrap(f *os.File, err error) (*File, error) {
	if f == nil {
		return nil, err
	}
	return &File{f, 0}, err
}

func Open(n string) (*File, error) { sched.Point("open"); return wrap(os.Open(n)) }
func OpenFile(n string, flag int, perm FileMode) (*File, error) {
	sched.Point("open")
	return wrap(os.OpenFile(n, flag, perm))
}
func Create(n string) (*File, error) { sched.Point("open"); return wrap(os.Create(n)) }
func CreateTemp(dir, pattern string) (*File, error) {
	sched.Point("open")
	return wrap(os.CreateTemp(dir, pattern))
}
func NewFile(fd uintptr, n string) *File         { f, _ := wrap(os.NewFile(fd, n), nil); return f }
func OpenInRoot(dir, name string) (*File, error) { return wrap(os.OpenInRoot(dir, name)) }
func Pipe() (r, w *File, err error) {
	a, b, err := os.Pipe()
	r, _ = wrap(a, nil)
	w, _ = wrap(b, nil)
	return r, w, err
}

func ReadFile(n string) ([]byte, error) {
	sched.Point("open")
	f, err := os.Open(n)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	sched.Point("read")
	return io.ReadAll(f)
}

func WriteFile(n string, b []byte, perm FileMode) error {
	sched.Point("open")
	f, err := os.OpenFile(n, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	sched.Point("write")
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func MkdirAll(n string, perm FileMode) error { sched.Point("mkdir"); return os.MkdirAll(n, perm) }
func Mkdir(n string, perm FileMode) error    { sched.Point("mkdir"); return os.Mkdir(n, perm) }
func Stat(n string) (FileInfo, error)        { sched.Point("stat"); return os.Stat(n) }
func Lstat(n string) (FileInfo, error)       { sched.Point("stat"); return os.Lstat(n) }
func Remove(n string) error                  { sched.Point("remove"); return os.Remove(n) }
func RemoveAll(n string) error               { sched.Point("remove"); return os.RemoveAll(n) }
func Rename(a, b string) error               { sched.Point("rename"); return os.Rename(a, b) }
func Truncate(n string, s int64) error       { sched.Point("truncate"); return os.Truncate(n, s) }
func ReadDir(n string) ([]DirEntry, error)   { sched.Point("readdir"); return os.ReadDir(n) }

func (f *File) Write(b []byte) (int, error) {
	switch f.std {
	case 1:
		return os.Stdout.Write(b)
	case 2:
		return os.Stderr.Write(b)
	}
	sched.Point("write")
	return f.File.Write(b)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	sched.Point("write")
	return f.File.WriteAt(b, off)
}

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, e := f.Write(b)
	if e != nil {
		err = e
	}
	return int64(n), err
}

func (f *File) Read(b []byte) (int, error) { sched.Point("read"); return f.File.Read(b) }
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	sched.Point("read")
	return f.File.ReadAt(b, off)
}
func (f *File) Truncate(n int64) error { sched.Point("truncate"); return f.File.Truncate(n) }
