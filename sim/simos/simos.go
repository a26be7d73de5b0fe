// Package simos stands in for the file and process functions of packages os
// and io/ioutil. It works on the real file system below one scratch directory
// and refuses to touch anything else; the simulator injects errors, short
// writes and kills at any operation.
package simos

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"

	"github.com/alxarch/njson/verifsim/simrt"
)

// Fault counters.
const (
	CCreateErr = 20 + iota
	CWriteErr
	CShortWrite
	CDiskFull
	CCloseErr
	CSyncErr
	CRenameErr
	CRemoveErr
	CKill
	CKillMidWrite
	CChunked
	CStdout
)

// Process is one simulated process.
type Process struct {
	Env      *simrt.Source
	Root     string // only paths below may be modified
	FaultPct int    // percent of operations failing
	StdPct   int    // percent of writes to the standard output failing
	ErrPct   int    // percent of writes to the standard error output failing
	KillAt   int    // kill at this operation, 0: never
	Ops      int
	Dead     bool
	Code     int
	Faults   int
	Killed   bool
	Sticky   error // once set every further space-consuming operation fails (full disk)
	Out, Err bytes.Buffer
	open     []*os.File
	tmp      int
	Trace    []string
	Escape   string // attempted modification outside Root
}

var cur *Process

// Run runs main as process p. It returns the exit code and, if main panicked, the panic value.
func Run(p *Process, main func()) (code int, pv interface{}) {
	cur = p
	done := make(chan struct{})
	normal := false
	go func() {
		defer close(done)
		defer func() {
			if normal || p.Dead {
				return
			}
			if v := recover(); v != nil {
				pv = v
				p.Code = 2
			}
			p.Dead = true
		}()
		main()
		normal = true
	}()
	<-done
	p.Dead = true
	for _, f := range p.open {
		f.Close()
	}
	cur = nil
	return p.Code, pv
}

// die ends the process: nothing it does from here on has any effect.
func (p *Process) die(code int) {
	if !p.Dead {
		p.Dead = true
		p.Code = code
	}
	runtime.Goexit()
}

// Exit is os.Exit.
func Exit(code int) {
	if cur == nil {
		os.Exit(code)
	}
	cur.die(code)
}

var errDead = errors.New("simos: process is dead")

// op counts an operation; it reports whether a fault strikes.
func (p *Process) op(what, name string) bool {
	if p.Dead {
		return false
	}
	p.Ops++
	p.Trace = append(p.Trace, fmt.Sprintf("%d %s %s", p.Ops, what, strings.TrimPrefix(name, p.Root)))
	if p.KillAt == p.Ops {
		p.kill()
	}
	if p.FaultPct > 0 && p.Env.Bool(p.FaultPct, 100) {
		p.Faults++
		return true
	}
	return false
}

func (p *Process) note(format string, args ...interface{}) {
	p.Trace = append(p.Trace, "   -> "+fmt.Sprintf(format, args...))
}

func (p *Process) kill() {
	p.Killed = true
	simrt.Count(CKill)
	p.note("killed")
	p.die(137)
}

// Abs resolves a path and checks that it may be modified.
func (p *Process) allowed(name string) bool {
	abs, err := filepath.Abs(name)
	if err == nil && (abs == p.Root || strings.HasPrefix(abs, p.Root+"/")) {
		return true
	}
	p.Escape = name
	return false
}

func perr(op, path string, err error) error { return &os.PathError{Op: op, Path: path, Err: err} }

var stdErrs = []error{syscall.EIO, syscall.ENOSPC, syscall.EPIPE}
var diskErrs = []error{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}

// File is os.File.
type File struct {
	f     *os.File
	p     *Process
	std   *bytes.Buffer
	stdNo int
	write bool
	name  string
	done  bool
	dirty bool // written since the last sync
}

// Stdout and Stderr are captured.
var (
	Stdout = &File{stdNo: 1, name: "/dev/stdout", write: true}
	Stderr = &File{stdNo: 2, name: "/dev/stderr", write: true}
)

func (f *File) wr(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.stdNo != 0 {
		if cur == nil {
			return len(b), nil
		}
		p, pct, out := cur, cur.StdPct, &cur.Out
		if f.stdNo == 2 {
			pct, out = p.ErrPct, &p.Err
		}
		// a full disk or a closed pipe behind the standard output
		if p.Sticky != nil && pct > 0 {
			return 0, perr("write", f.name, p.Sticky)
		} else if pct > 0 && p.Env.Bool(pct, 100) {
			err := stdErrs[p.Env.N(len(stdErrs))]
			n := 0
			if p.Env.Bool(2, 3) {
				n = p.Env.N(len(b) + 1)
			}
			if p.Env.Bool(2, 3) {
				p.Sticky = err
			}
			p.Faults++
			simrt.Count(CStdout)
			out.Write(b[:n])
			p.Trace = append(p.Trace, fmt.Sprintf("write to %s: %d of %d: %v", f.name, n, len(b), err))
			return n, perr("write", f.name, err)
		}
		out.Write(b)
		return len(b), nil
	}
	p := f.p
	if p.Dead {
		return 0, errDead
	}
	if f.done {
		return f.f.Write(b)
	}
	// a kill can strike in the middle of a write
	if p.KillAt == p.Ops+1 && len(b) > 0 {
		p.Ops++
		n := p.Env.N(len(b) + 1)
		if n > 0 {
			f.f.Write(b[:n])
			simrt.Count(CKillMidWrite)
		}
		p.Trace = append(p.Trace, fmt.Sprintf("%d write %s (%d of %d bytes)", p.Ops, filepath.Base(f.name), n, len(b)))
		p.kill()
	}
	if p.op("write", f.name) {
		n := 0
		err := diskErrs[p.Env.N(len(diskErrs))]
		switch p.Env.N(3) {
		case 0:
			simrt.Count(CWriteErr)
		default:
			n = p.Env.N(len(b) + 1)
			simrt.Count(CShortWrite)
		}
		if err == syscall.ENOSPC {
			p.Sticky = err
			simrt.Count(CDiskFull)
		}
		if n > 0 {
			f.dirty = true
			n, _ = f.f.Write(b[:n])
		}
		p.note("wrote %d of %d: %v", n, len(b), err)
		return n, perr("write", f.name, err)
	}
	if p.Sticky != nil {
		p.note("%v", p.Sticky)
		return 0, perr("write", f.name, p.Sticky)
	}
	f.dirty = true
	return f.f.Write(b)
}

func (f *File) Write(b []byte) (int, error)       { return f.wr(b) }
func (f *File) WriteString(s string) (int, error) { return f.wr([]byte(s)) }
func (f *File) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 512)
	for {
		m, rerr := r.Read(buf)
		if m > 0 {
			w, werr := f.wr(buf[:m])
			n += int64(w)
			if werr != nil {
				return n, werr
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.p != nil && f.p.op("writeat", f.name) {
		simrt.Count(CWriteErr)
		return 0, perr("write", f.name, syscall.EIO)
	}
	return f.f.WriteAt(b, off)
}
func (f *File) Read(b []byte) (int, error) {
	if f.f == nil {
		return 0, io.EOF
	}
	return f.f.Read(b)
}
func (f *File) Seek(off int64, w int) (int64, error) { return f.f.Seek(off, w) }
func (f *File) Stat() (os.FileInfo, error)           { return f.f.Stat() }
func (f *File) Name() string                         { return f.name }
func (f *File) Fd() uintptr {
	if f.f == nil {
		return ^uintptr(0)
	}
	return f.f.Fd()
}

// Close can report a delayed write error; the file is closed all the same.
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.f == nil {
		return nil
	}
	if f.p.Dead {
		return errDead
	}
	if f.done || !f.write {
		return f.f.Close()
	}
	f.done = true
	if f.p.op("close", f.name) {
		// a delayed write error: some of the data never reached the disk
		simrt.Count(CCloseErr)
		if st, err := f.f.Stat(); err == nil && st.Size() > 0 && f.dirty {
			n := int64(f.p.Env.N(int(st.Size()) + 1))
			f.f.Truncate(n)
			f.p.note("close failed, %d of %d bytes kept", n, st.Size())
		}
		f.f.Close()
		return perr("close", f.name, diskErrs[f.p.Env.N(len(diskErrs))])
	}
	return f.f.Close()
}
func (f *File) Sync() error {
	if f.f == nil {
		return nil
	}
	if f.p.op("sync", f.name) {
		simrt.Count(CSyncErr)
		f.p.note("EIO")
		return perr("sync", f.name, syscall.EIO)
	}
	if f.p.Dead {
		return errDead
	}
	f.dirty = false
	return nil
}
func (f *File) Truncate(n int64) error {
	if f.p.Dead {
		return errDead
	}
	if f.p.op("truncate", f.name) {
		return perr("truncate", f.name, syscall.EIO)
	}
	return f.f.Truncate(n)
}
func (f *File) Chmod(m os.FileMode) error {
	if f.p.Dead {
		return errDead
	}
	if f.p.op("chmod", f.name) {
		return perr("chmod", f.name, syscall.EPERM)
	}
	return f.f.Chmod(m)
}

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	p := cur
	w := flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0
	if p == nil || !w {
		f, err := os.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		if p == nil {
			p = &Process{}
		}
		return &File{f: f, p: p, name: name}, nil
	}
	if p.Dead {
		return nil, errDead
	}
	if !p.allowed(name) {
		return nil, perr("open", name, syscall.EACCES)
	}
	if p.op("open", name) {
		simrt.Count(CCreateErr)
		err := []error{syscall.EACCES, syscall.EMFILE, syscall.ENOSPC, syscall.EROFS}[p.Env.N(4)]
		p.note("%v", err)
		return nil, perr("open", name, err)
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	p.open = append(p.open, f)
	return &File{f: f, p: p, write: true, name: name}, nil
}

// Create is os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// Open is os.Open.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// CreateTemp is os.CreateTemp with predictable names.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 0; i < 10000; i++ {
		n := 1000
		if cur != nil {
			cur.tmp++
			n = cur.tmp
		}
		n += i
		name := ""
		if j := strings.LastIndexByte(pattern, '*'); j >= 0 {
			name = pattern[:j] + fmt.Sprint(n) + pattern[j+1:]
		} else {
			name = pattern + fmt.Sprint(n)
		}
		f, err := OpenFile(filepath.Join(dir, name), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		if os.IsExist(err) {
			continue
		}
		return f, err
	}
	return nil, perr("createtemp", pattern, os.ErrExist)
}

// TempFile is ioutil.TempFile.
func TempFile(dir, pattern string) (*File, error) { return CreateTemp(dir, pattern) }

// TempDir is os.TempDir; ioutil.TempDir shares the name and takes arguments.
func TempDir(args ...string) string {
	if cur != nil {
		d := filepath.Join(cur.Root, "tmp")
		os.MkdirAll(d, 0o755)
		return d
	}
	return os.TempDir()
}

// MkdirTemp is os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	for i := 1; i < 10000; i++ {
		name := filepath.Join(dir, strings.Replace(pattern, "*", "", 1)+fmt.Sprint(i))
		err := Mkdir(name, 0o700)
		if os.IsExist(err) {
			continue
		}
		return name, err
	}
	return "", os.ErrExist
}

// WriteFile is os.WriteFile.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func simple(op, name string, counter int, errs []error, do func() error) error {
	p := cur
	if p == nil {
		return do()
	}
	if p.Dead {
		return errDead
	}
	if !p.allowed(name) {
		return perr(op, name, syscall.EACCES)
	}
	if p.op(op, name) {
		if counter != 0 {
			simrt.Count(counter)
		}
		err := errs[p.Env.N(len(errs))]
		p.note("%v", err)
		return perr(op, name, err)
	}
	return do()
}

// Rename is os.Rename.
func Rename(from, to string) error {
	if p := cur; p != nil && !p.Dead && !p.allowed(to) {
		return perr("rename", to, syscall.EACCES)
	}
	return simple("rename", from, CRenameErr, []error{syscall.EACCES, syscall.EIO, syscall.ENOSPC}, func() error { return os.Rename(from, to) })
}

// Link is os.Link.
func Link(from, to string) error {
	return simple("link", to, CRenameErr, []error{syscall.EACCES, syscall.EIO}, func() error { return os.Link(from, to) })
}

// Remove is os.Remove.
func Remove(name string) error {
	return simple("remove", name, CRemoveErr, []error{syscall.EACCES, syscall.EIO}, func() error { return os.Remove(name) })
}

// RemoveAll is os.RemoveAll, below the scratch directory only.
func RemoveAll(name string) error {
	return simple("removeall", name, CRemoveErr, []error{syscall.EACCES, syscall.EIO}, func() error { return os.RemoveAll(name) })
}

// Mkdir is os.Mkdir.
func Mkdir(name string, perm os.FileMode) error {
	return simple("mkdir", name, CCreateErr, []error{syscall.EACCES, syscall.ENOSPC}, func() error { return os.Mkdir(name, perm) })
}

// MkdirAll is os.MkdirAll.
func MkdirAll(name string, perm os.FileMode) error {
	return simple("mkdirall", name, CCreateErr, []error{syscall.EACCES, syscall.ENOSPC}, func() error { return os.MkdirAll(name, perm) })
}

// Chmod is os.Chmod.
func Chmod(name string, perm os.FileMode) error {
	return simple("chmod", name, 0, []error{syscall.EPERM}, func() error { return os.Chmod(name, perm) })
}

// Truncate is os.Truncate.
func Truncate(name string, n int64) error {
	return simple("truncate", name, 0, []error{syscall.EIO}, func() error { return os.Truncate(name, n) })
}
