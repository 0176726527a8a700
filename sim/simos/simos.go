// Package simos is the simulated operating system under the main packages: standard streams, a flat file system,
// process exit. Every operation can be made to fail, be short or be delayed, as the current World's plan says.
package simos

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/spf13/afero"
	"verif.local/sim/simrt"
)

// Fault makes one operation on one path fail.
type Fault struct {
	Op   string `json:"op"`   // open, create, stat, read, write, close, sync, rename, remove
	Path string `json:"path"` // file path, or stdin, stdout, stderr; "" is any
	At   int64  `json:"at"`   // read, write: byte offset at which it strikes; others: how many calls succeed first
	Err  string `json:"err"`
	Once bool   `json:"once,omitempty"` // strikes once (a passing failure) instead of from then on
	Full bool   `json:"full,omitempty"` // write: the bytes up to At are accepted in the failing call; otherwise none of that call's

	Fired int   `json:"-"`
	calls int64 `json:"-"`
}

// Errs are the error values that can be injected
var Errs = map[string]error{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EROFS": syscall.EROFS,
	"EDQUOT": syscall.EDQUOT, "EMFILE": syscall.EMFILE, "ENOENT": syscall.ENOENT, "EISDIR": syscall.EISDIR,
	"ESTALE": syscall.ESTALE, "ENXIO": syscall.ENXIO, "EBADF": syscall.EBADF, "ENOTDIR": syscall.ENOTDIR,
	"unexpected EOF": io.ErrUnexpectedEOF,
}

// Inode is a file's contents
type Inode struct {
	Data []byte
	Kind string // "": regular; fifo: named pipe; proc: regular, size reported as 0; grown, shrunk: as regular, size reported smaller or larger
}

func (i *Inode) info(name string) info {
	f := info{name: filepath.Base(name), size: int64(len(i.Data)), mode: 0644, ino: i}
	switch i.Kind {
	case "fifo":
		f.size, f.mode = 0, os.ModeNamedPipe|0600
	case "proc":
		f.size, f.mode = 0, 0444
	case "grown":
		f.size /= 2
	case "shrunk":
		f.size += 5000
	}
	return f
}

// World is the state of one simulated machine running one process
type World struct {
	Files     map[string]*Inode
	Stdin     []byte
	StdinPath string // stdin is this file, redirected
	StdinMode os.FileMode
	Reads     []int // sizes of successive reads, cyclically; empty: as asked
	Faults    []*Fault

	Stdout, Stderr bytes.Buffer
	Events         []string
	Mutated        map[string]int // paths changed, and how often
	Opens          int            // files open at the end

	Dead   bool
	Exited bool
	Code   int

	ireads int
	tmp    int
	open   []*File
}

// W is the world of the current run
var W = NewWorld()

// NewWorld makes an empty world
func NewWorld() *World {
	return &World{Files: map[string]*Inode{}, Mutated: map[string]int{}, StdinMode: os.ModeCharDevice | os.ModeDevice | 0620}
}

// Boot makes w the current world, with fresh standard streams
func Boot(w *World) {
	W = w
	// the same objects again: package variables of the program may hold them
	*Stdin = File{w: w, name: "stdin", ino: &Inode{Data: w.Stdin}, std: true, rd: true}
	if ino := w.Files[w.StdinPath]; ino != nil {
		Stdin.ino = ino
	}
	*Stdout = File{w: w, name: "stdout", ino: &Inode{}, std: true, wr: true, sink: &w.Stdout}
	*Stderr = File{w: w, name: "stderr", ino: &Inode{}, std: true, wr: true, sink: &w.Stderr}
	log.SetOutput(Stderr)
	log.SetFlags(0)
	log.SetPrefix("")
}

// Standard streams
var Stdin, Stdout, Stderr = new(File), new(File), new(File)

func init() { Boot(W) }

// ExitPanic unwinds the simulated process on exit
type ExitPanic struct{ Code int }

// Exit ends the simulated process: nothing it does afterwards, deferred calls included, has any effect.
func Exit(code int) {
	w := W
	if !w.Dead {
		w.Dead = true
		w.Exited = true
		w.Code = code
		w.event("exit %d", code)
	}
	panic(ExitPanic{code})
}

// Main runs a main function as the process of world w and returns its exit status and, for a crash, the panic.
func Main(w *World, cfg simrt.Config, main func()) (code int, crash string, res simrt.Result) {
	Boot(w)
	return MainBooted(w, cfg, main)
}

// MainBooted is Main for a world that has been booted already
func MainBooted(w *World, cfg simrt.Config, main func()) (code int, crash string, res simrt.Result) {
	cfg.Process = true
	res, pv := simrt.Single(cfg, func() {
		defer func() { w.Dead = true }()
		main()
	})
	w.Dead = true
	switch {
	case w.Exited:
		code = w.Code
	case pv != nil:
		if _, ok := pv.(ExitPanic); ok {
			code = w.Code
		} else {
			code = 2
			crash = fmt.Sprint("panic: ", pv)
			w.Stderr.WriteString(crash + "\n")
		}
	}
	if code == 0 {
		w.reap()
	}
	return code, crash, res
}

func (w *World) event(format string, args ...interface{}) {
	if len(w.Events) < 4000 {
		w.Events = append(w.Events, fmt.Sprintf(format, args...))
	}
}

var errDead = errors.New("process has exited")

// callFault consults the plan for a call-counted operation
func (w *World) callFault(op, path string) error {
	simrt.IO()
	if w.Dead {
		return errDead
	}
	for _, f := range w.Faults {
		if f.Op != op || (f.Path != "" && f.Path != path) {
			continue
		}
		f.calls++
		if f.calls <= f.At || (f.Once && f.Fired > 0) {
			continue
		}
		f.Fired++
		w.event("%s %s: %s", op, path, f.Err)
		return &os.PathError{Op: op, Path: path, Err: f.err()}
	}
	return nil
}

func (f *Fault) err() error {
	if e, ok := Errs[f.Err]; ok {
		return e
	}
	return errors.New(f.Err)
}

// byteFault consults the plan for a transfer of n bytes at offset off: how many bytes go through, and the error.
func (w *World) byteFault(op, path string, off int64, n int) (int, error) {
	for _, f := range w.Faults {
		if f.Op != op || (f.Path != "" && f.Path != path) {
			continue
		}
		if f.Once && f.Fired > 0 {
			continue
		}
		if op == "read" {
			// bytes before At are delivered first; the failure comes with the read that starts at At
			if off < f.At {
				if off+int64(n) > f.At {
					n = int(f.At - off)
				}
				continue
			}
			f.Fired++
			w.event("read %s at %d: %s", path, off, f.Err)
			return 0, &os.PathError{Op: op, Path: path, Err: f.err()}
		}
		if off+int64(n) <= f.At && !(n == 0 && off >= f.At) {
			continue
		}
		f.Fired++
		ok := 0
		if f.Full && off < f.At {
			ok = int(f.At - off)
		}
		w.event("write %s at %d: %d of %d bytes, %s", path, off, ok, n, f.Err)
		return ok, &os.PathError{Op: op, Path: path, Err: f.err()}
	}
	return n, nil
}

// File is an open file of the simulated machine
type File struct {
	w      *World
	name   string
	ino    *Inode
	std    bool
	rd, wr bool
	app    bool
	off    int64
	closed bool
	dirty  bool // written to since it was last synced
	sink   *bytes.Buffer
}

var _ afero.File = (*File)(nil)

// Name of the file
func (f *File) Name() string { return f.name }

// Fd is a stand-in
func (f *File) Fd() uintptr {
	switch f {
	case Stdin:
		return 0
	case Stdout:
		return 1
	case Stderr:
		return 2
	}
	return 3
}

func (f *File) Read(p []byte) (int, error) {
	simrt.IO()
	w := f.w
	if w.Dead {
		return 0, errDead
	}
	if f.closed {
		return 0, &os.PathError{Op: "read", Path: f.name, Err: os.ErrClosed}
	}
	if !f.rd {
		return 0, &os.PathError{Op: "read", Path: f.name, Err: syscall.EBADF}
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(w.Reads) > 0 {
		s := w.Reads[w.ireads%len(w.Reads)]
		w.ireads++
		if s > 0 && s < n {
			n = s
		}
	}
	if rest := int64(len(f.ino.Data)) - f.off; int64(n) > rest {
		n = int(rest)
	}
	if n < 0 {
		n = 0
	}
	m, err := w.byteFault("read", f.name, f.off, n)
	if err != nil {
		return 0, err
	}
	if m == 0 {
		w.event("read %s: EOF at %d", f.name, f.off)
		return 0, io.EOF
	}
	copy(p, f.ino.Data[f.off:f.off+int64(m)])
	f.off += int64(m)
	w.event("read %s: %d", f.name, m)
	return m, nil
}

// ReadAt reads at an offset
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if f.ino.Kind == "fifo" {
		return 0, &os.PathError{Op: "read", Path: f.name, Err: syscall.ESPIPE}
	}
	save := f.off
	f.off = off
	defer func() { f.off = save }()
	return io.ReadFull(f, p)
}

func (f *File) Write(p []byte) (int, error) {
	simrt.IO()
	w := f.w
	if w.Dead {
		return len(p), nil
	}
	if f.closed {
		return 0, &os.PathError{Op: "write", Path: f.name, Err: os.ErrClosed}
	}
	if !f.wr {
		return 0, &os.PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
	}
	if f.app {
		f.off = int64(len(f.ino.Data))
	}
	n, err := w.byteFault("write", f.name, f.off, len(p))
	f.dirty = true
	if f.sink != nil {
		f.sink.Write(p[:n])
	} else {
		f.w.Mutated[f.name]++
		for int64(len(f.ino.Data)) < f.off {
			f.ino.Data = append(f.ino.Data, 0)
		}
		k := copy(f.ino.Data[f.off:], p[:n])
		f.ino.Data = append(f.ino.Data, p[k:n]...)
	}
	f.off += int64(n)
	if err == nil {
		w.event("write %s: %d", f.name, n)
	}
	return n, err
}

// WriteAt writes at an offset
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	save := f.off
	f.off = off
	defer func() { f.off = save }()
	return f.Write(p)
}

// WriteString writes a string
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom reads until EOF
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// Seek sets the offset
func (f *File) Seek(offset int64, whence int) (int64, error) {
	if f.ino.Kind == "fifo" || f.std && !(f == Stdin && f.w.StdinMode.IsRegular()) {
		return 0, &os.PathError{Op: "seek", Path: f.name, Err: syscall.ESPIPE}
	}
	switch whence {
	case io.SeekStart:
		f.off = offset
	case io.SeekCurrent:
		f.off += offset
	case io.SeekEnd:
		f.off = int64(len(f.ino.Data)) + offset
	}
	return f.off, nil
}

// Close closes the file. Data written is there unless a write failed.
func (f *File) Close() error {
	w := f.w
	if w.Dead {
		return nil
	}
	if f.closed {
		return &os.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	f.closed = true
	w.Opens--
	err := w.callFault("close", f.name)
	if err == nil {
		w.event("close %s", f.name)
	}
	return err
}

// Sync flushes
func (f *File) Sync() error {
	err := f.w.callFault("sync", f.name)
	if err == nil {
		f.dirty = false
	}
	return err
}

// reap closes the files that the process left open when it ended. An error of that has nobody to report it to.
func (w *World) reap() {
	for _, f := range w.open {
		if f.closed || !f.wr || !f.dirty {
			continue
		}
		for _, x := range w.Faults {
			if x.Op == "close" && (x.Path == "" || x.Path == f.name) && x.calls >= x.At && !(x.Once && x.Fired > 0) {
				x.calls++
				x.Fired++
				w.event("close %s at exit: %s", f.name, x.Err)
			}
		}
	}
}

// Truncate changes the size
func (f *File) Truncate(n int64) error {
	if f.w.Dead {
		return nil
	}
	f.w.Mutated[f.name]++
	for int64(len(f.ino.Data)) < n {
		f.ino.Data = append(f.ino.Data, 0)
	}
	f.ino.Data = f.ino.Data[:n]
	return nil
}

// Chmod does nothing
func (f *File) Chmod(os.FileMode) error { return nil }

// Readdir is not supported
func (f *File) Readdir(int) ([]os.FileInfo, error) { return nil, syscall.ENOTDIR }

// Readdirnames is not supported
func (f *File) Readdirnames(int) ([]string, error) { return nil, syscall.ENOTDIR }

type info struct {
	name string
	size int64
	mode os.FileMode
	ino  *Inode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() os.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return time.Unix(1600000000, 0) }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() interface{}   { return nil }

// Stat describes the file
func (f *File) Stat() (os.FileInfo, error) {
	if err := f.w.callFault("stat", f.name); err != nil {
		return nil, err
	}
	if f.closed {
		return nil, &os.PathError{Op: "stat", Path: f.name, Err: os.ErrClosed}
	}
	f.w.event("stat %s", f.name)
	switch {
	case f == Stdin:
		size := int64(0)
		if f.w.StdinMode.IsRegular() {
			size = int64(len(f.ino.Data))
		}
		return info{"stdin", size, f.w.StdinMode, f.ino}, nil
	case f.std:
		return info{f.name, 0, os.ModeNamedPipe | 0600, f.ino}, nil
	}
	return f.ino.info(f.name), nil
}

// Open opens for reading
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create creates or truncates
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// Cwd is the working directory of the process; names in it are kept relative
const Cwd = "/home/user/work"

// Getwd is the working directory
func Getwd() (string, error) { return Cwd, nil }

// Abs makes a path absolute
func Abs(name string) (string, error) {
	if filepath.IsAbs(name) {
		return filepath.Clean(name), nil
	}
	return filepath.Join(Cwd, name), nil
}

// EvalSymlinks resolves no links: where there are some they are as good as hard ones
func EvalSymlinks(name string) (string, error) {
	if _, err := Stat(name); err != nil {
		return "", err
	}
	return filepath.Clean(name), nil
}

func clean(name string) string {
	name = filepath.Clean(name)
	if strings.HasPrefix(name, Cwd+"/") {
		return name[len(Cwd)+1:]
	}
	return name
}

// OpenFile is the general open
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	w := W
	name = clean(name)
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	op := "open"
	if flag&os.O_CREATE != 0 || wr {
		op = "create"
	}
	if err := w.callFault(op, name); err != nil {
		return nil, err
	}
	ino := w.Files[name]
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			w.event("%s %s: ENOENT", op, name)
			return nil, &os.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		ino = &Inode{}
		w.Files[name] = ino
		w.Mutated[name]++
	} else if flag&os.O_EXCL != 0 {
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.EEXIST}
	}
	if flag&os.O_TRUNC != 0 {
		ino.Data = nil
		w.Mutated[name]++
	}
	w.Opens++
	w.event("%s %s", op, name)
	f := &File{w: w, name: name, ino: ino, rd: flag&os.O_WRONLY == 0, wr: wr, app: flag&os.O_APPEND != 0}
	w.open = append(w.open, f)
	return f, nil
}

// ReadFile reads a whole file
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile writes a whole file
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// CreateTemp makes a new temporary file
func CreateTemp(dir, pattern string) (*File, error) {
	W.tmp++
	suffix := fmt.Sprintf("%06d", W.tmp)
	name := pattern + suffix
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		name = pattern[:i] + suffix + pattern[i+1:]
	}
	if dir == "" {
		dir = "/tmp"
	}
	return OpenFile(filepath.Join(dir, name), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

// TempFile is CreateTemp under its older name
func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

// Rename moves a file
func Rename(oldpath, newpath string) error {
	w := W
	oldpath, newpath = clean(oldpath), clean(newpath)
	if err := w.callFault("rename", newpath); err != nil {
		return err
	}
	ino := w.Files[oldpath]
	if ino == nil {
		return &os.LinkError{Op: "rename", Old: oldpath, New: newpath, Err: syscall.ENOENT}
	}
	delete(w.Files, oldpath)
	w.Files[newpath] = ino
	w.Mutated[oldpath]++
	w.Mutated[newpath]++
	w.event("rename %s %s", oldpath, newpath)
	return nil
}

// Remove removes a file
func Remove(name string) error {
	w := W
	name = clean(name)
	if err := w.callFault("remove", name); err != nil {
		return err
	}
	if w.Files[name] == nil {
		return &os.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
	}
	delete(w.Files, name)
	w.Mutated[name]++
	w.event("remove %s", name)
	return nil
}

// RemoveAll removes a file if it exists, and everything below it
func RemoveAll(name string) error {
	dir := strings.TrimSuffix(clean(name), "/") + "/"
	for _, n := range W.Names() {
		if strings.HasPrefix(n, dir) || dir == "./" && !filepath.IsAbs(n) {
			if err := Remove(n); err != nil {
				return err
			}
		}
	}
	if err := Remove(name); err != nil && !os.IsNotExist(err) {
		return err
	}
	return nil
}

// Truncate changes a file's size
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

// Stat describes a file
func Stat(name string) (os.FileInfo, error) {
	w := W
	name = clean(name)
	if err := w.callFault("stat", name); err != nil {
		return nil, err
	}
	if name == "/dev/stdin" {
		return Stdin.Stat()
	}
	ino := w.Files[name]
	if ino == nil {
		return nil, &os.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return ino.info(name), nil
}

// SameFile tells whether two descriptions are of the same file
func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.ino != nil && x.ino == y.ino
}

// MkdirTemp makes up the name of a temporary directory; directories need not exist
func MkdirTemp(dir, pattern string) (string, error) {
	W.tmp++
	if dir == "" {
		dir = "/tmp"
	}
	return filepath.Join(dir, strings.ReplaceAll(pattern, "*", "")+fmt.Sprintf("%06d", W.tmp)), nil
}

// TempDir is MkdirTemp under its older name
func TempDir(dir, pattern string) (string, error) { return MkdirTemp(dir, pattern) }

// Link makes a hard link
func Link(oldname, newname string) error {
	w := W
	oldname, newname = clean(oldname), clean(newname)
	if err := w.callFault("link", newname); err != nil {
		return err
	}
	switch {
	case w.Files[oldname] == nil:
		return &os.LinkError{Op: "link", Old: oldname, New: newname, Err: syscall.ENOENT}
	case w.Files[newname] != nil:
		return &os.LinkError{Op: "link", Old: oldname, New: newname, Err: syscall.EEXIST}
	}
	w.Files[newname] = w.Files[oldname]
	w.Mutated[newname]++
	return nil
}

// Symlink makes a link; it is as good as a hard one here
func Symlink(oldname, newname string) error { return Link(oldname, newname) }

// Chtimes does nothing
func Chtimes(string, time.Time, time.Time) error { return nil }

// Chown does nothing
func Chown(string, int, int) error { return nil }

// Lstat is Stat; there are no links
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

// Mkdir does nothing
func Mkdir(string, os.FileMode) error { return nil }

// MkdirAll does nothing
func MkdirAll(string, os.FileMode) error { return nil }

// Chmod does nothing
func Chmod(string, os.FileMode) error { return nil }

// Printing to standard output

// Print prints
func Print(a ...interface{}) (int, error) { return fmt.Fprint(Stdout, a...) }

// Println prints a line
func Println(a ...interface{}) (int, error) { return fmt.Fprintln(Stdout, a...) }

// Printf prints formatted
func Printf(format string, a ...interface{}) (int, error) { return fmt.Fprintf(Stdout, format, a...) }

// Fatal logs and exits
func Fatal(a ...interface{}) { fmt.Fprintln(Stderr, a...); Exit(1) }

// Fatalln logs and exits
func Fatalln(a ...interface{}) { fmt.Fprintln(Stderr, a...); Exit(1) }

// Fatalf logs and exits
func Fatalf(format string, a ...interface{}) { fmt.Fprintf(Stderr, format+"\n", a...); Exit(1) }

// NewFs is the simulated file system for afero
func NewFs() afero.Fs { return fs{} }

type fs struct{}

// OsFs stands in for afero.OsFs
type OsFs struct{ fs }

// A nil *File must not become a non-nil afero.File
func af(f *File, err error) (afero.File, error) {
	if err != nil {
		return nil, err
	}
	return f, nil
}

func (fs) Create(name string) (afero.File, error) { return af(Create(name)) }
func (fs) Mkdir(string, os.FileMode) error        { return nil }
func (fs) MkdirAll(string, os.FileMode) error     { return nil }
func (fs) Open(name string) (afero.File, error)   { return af(Open(name)) }
func (fs) OpenFile(name string, flag int, perm os.FileMode) (afero.File, error) {
	return af(OpenFile(name, flag, perm))
}
func (fs) Remove(name string) error                   { return Remove(name) }
func (fs) RemoveAll(name string) error                { return RemoveAll(name) }
func (fs) Rename(a, b string) error                   { return Rename(a, b) }
func (fs) Stat(name string) (os.FileInfo, error)      { return Stat(name) }
func (fs) Name() string                               { return "simos" }
func (fs) Chmod(string, os.FileMode) error            { return nil }
func (fs) Chtimes(string, time.Time, time.Time) error { return nil }

// Snapshot lists files and contents
func (w *World) Snapshot() map[string]string {
	m := map[string]string{}
	for k, v := range w.Files {
		m[k] = string(v.Data)
	}
	return m
}

// Names lists the files, sorted
func (w *World) Names() []string {
	var out []string
	for k := range w.Files {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
