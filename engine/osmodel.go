package main

import (
	"fmt"
	"path"
	"strings"
)

// A small in-memory file system: what /repo's body buffer uses. Faults: a
// file-size limit (short write followed by EFBIG, as RLIMIT_FSIZE does) and a
// missing temporary directory.

type modelFile struct {
	name   string
	data   []Value
	pos    int
	closed bool
}
type modelFS struct {
	files map[string]*modelFile
	dirs  map[string]bool
	limit int // -1: none
	n     int
	opens int
}

func newModelFS() *modelFS {
	return &modelFS{files: map[string]*modelFile{}, dirs: map[string]bool{"/": true, "/tmp": true}, limit: -1}
}

const (
	eNOENT = 2
	eEXIST = 17
	eFBIG  = 27

	eNOTDIR = 20
)

// below returns the file that stands where p needs a directory, if any.
func (fs *modelFS) below(p string) string {
	for q := path.Dir(p); q != "/" && q != "."; q = path.Dir(q) {
		if fs.files[q] != nil {
			return q
		}
	}
	return ""
}

func osStat(e *Exec, fn *Fn, a []Value) Value {
	p := e.modelStr(a[0])
	fs := e.h.fs
	q := path.Clean(p)
	switch {
	case p == "":
	case fs.dirs[q]:
		return vTuple(e.fileInfo(q, 0, 1<<31|0o700), Value{})
	case fs.files[q] != nil:
		return vTuple(e.fileInfo(q, len(fs.files[q].data), 0o600), Value{})
	case fs.below(q) != "":
		return vTuple(Value{}, e.pathError("stat", p, e.errno(eNOTDIR)))
	}
	return vTuple(Value{}, e.pathError("stat", p, e.errno(eNOENT)))
}

func (e *Exec) fileInfo(p string, size int, mode uint64) Value {
	t := e.namedType("os", "fileStat")
	return e.ptrIface(t, e.newPtr(t, vStr(path.Base(p)), vInt(size), Value{N: mode}))
}

func (e *Exec) errno(n int) Value {
	return Value{X: &Iface{e.namedType("syscall", "Errno"), vInt(n)}}
}
func (e *Exec) pathError(op, path string, err Value) Value {
	t := e.namedType("io/fs", "PathError")
	return e.ptrIface(t, e.newPtr(t, vStr(op), vStr(path), err))
}
func (e *Exec) globalVal(pkg, name string) Value {
	p := e.P.prog.ImportedPackage(pkg)
	g := p.Var(name)
	c := e.global(e.P.global(g))
	return Value{N: c.N, X: c.X}
}
func (e *Exec) file(v Value) *modelFile {
	c, ok := v.X.(*Value)
	if !ok || c == nil {
		return nil
	}
	f, ok := c.X.(*modelFile)
	if !ok {
		panic(unsupported("os.File not opened by the model"))
	}
	return f
}

var osIntrinsics = map[string]intrinsic{
	"os.Stat":  osStat,
	"os.Lstat": osStat,
	"os.MkdirAll": func(e *Exec, fn *Fn, a []Value) Value {
		p := e.modelStr(a[0])
		if p == "" {
			return e.pathError("mkdir", p, e.errno(eNOENT))
		}
		fs := e.h.fs
		if q := path.Clean(p); fs.files[q] != nil || fs.below(q) != "" {
			return e.pathError("mkdir", p, e.errno(eNOTDIR))
		}
		for q := path.Clean(p); q != "/" && q != "."; q = path.Dir(q) {
			fs.dirs[q] = true
		}
		return Value{}
	},
	"os.Mkdir": func(e *Exec, fn *Fn, a []Value) Value {
		p := e.modelStr(a[0])
		fs := e.h.fs
		switch q := path.Clean(p); {
		case p == "" || fs.below(q) == "" && !fs.dirs[path.Dir(q)]:
			return e.pathError("mkdir", p, e.errno(eNOENT))
		case fs.below(q) != "":
			return e.pathError("mkdir", p, e.errno(eNOTDIR))
		case fs.dirs[q] || fs.files[q] != nil:
			return e.pathError("mkdir", p, e.errno(eEXIST))
		default:
			fs.dirs[q] = true
		}
		return Value{}
	},
	"os.CreateTemp":      createTemp,
	"io/ioutil.TempFile": createTemp,
	"os.Remove": func(e *Exec, fn *Fn, a []Value) Value {
		p := e.modelStr(a[0])
		if e.h.fs.files[p] != nil {
			delete(e.h.fs.files, p)
			return Value{}
		}
		return e.pathError("remove", p, e.errno(eNOENT))
	},
	"(*os.File).Stat": func(e *Exec, fn *Fn, a []Value) Value {
		f := e.file(a[0])
		if f == nil {
			return vTuple(Value{}, e.globalVal("os", "ErrInvalid"))
		}
		if f.closed {
			return vTuple(Value{}, e.pathError("stat", f.name, e.globalVal("io/fs", "ErrClosed")))
		}
		return vTuple(e.fileInfo(f.name, len(f.data), 0o600), Value{})
	},
	"(*os.File).Name": func(e *Exec, fn *Fn, a []Value) Value {
		f := e.file(a[0])
		if f == nil {
			e.nilDeref()
		}
		return vStr(f.name)
	},
	"(*os.File).Close": func(e *Exec, fn *Fn, a []Value) Value {
		f := e.file(a[0])
		if f == nil {
			return e.globalVal("os", "ErrInvalid")
		}
		if f.closed {
			return e.pathError("close", f.name, e.globalVal("io/fs", "ErrClosed"))
		}
		f.closed = true
		e.h.fs.opens--
		return Value{}
	},
	"(*os.File).Write":       fileWrite,
	"(*os.File).WriteString": func(e *Exec, fn *Fn, a []Value) Value { return fileWrite(e, fn, []Value{a[0], {X: strBytes(a[1])}}) },
	"(*os.File).Read": func(e *Exec, fn *Fn, a []Value) Value {
		f := e.file(a[0])
		if f == nil {
			return vTuple(vInt(0), e.globalVal("os", "ErrInvalid"))
		}
		if f.closed {
			return vTuple(vInt(0), e.pathError("read", f.name, e.globalVal("io/fs", "ErrClosed")))
		}
		p := a[1].sl()
		if len(p) == 0 {
			return vTuple(vInt(0), Value{})
		}
		if f.pos >= len(f.data) {
			return vTuple(vInt(0), e.globalVal("io", "EOF"))
		}
		n := min(len(p), len(f.data)-f.pos)
		for i := 0; i < n; i++ {
			e.storeCell(&p[i], f.data[f.pos+i])
		}
		f.pos += n
		return vTuple(vInt(n), Value{})
	},
	"(*os.File).Seek": func(e *Exec, fn *Fn, a []Value) Value {
		f := e.file(a[0])
		if f == nil {
			return vTuple(vInt(0), e.globalVal("os", "ErrInvalid"))
		}
		if f.closed {
			return vTuple(vInt(0), e.pathError("seek", f.name, e.globalVal("io/fs", "ErrClosed")))
		}
		off := int(int64(e.num(a[1])))
		switch e.num(a[2]) {
		case 1:
			off += f.pos
		case 2:
			off += len(f.data)
		}
		if off < 0 {
			return vTuple(vInt(0), e.pathError("seek", f.name, e.errno(22)))
		}
		f.pos = off
		return vTuple(vInt(off), Value{})
	},
	"(*os.File).WriteTo": func(e *Exec, fn *Fn, a []Value) Value {
		f := e.file(a[0])
		if f == nil {
			return vTuple(vInt(0), e.globalVal("os", "ErrInvalid"))
		}
		if f.closed {
			return vTuple(vInt(0), e.pathError("read", f.name, e.globalVal("io/fs", "ErrClosed")))
		}
		if f.pos >= len(f.data) {
			return vTuple(vInt(0), Value{})
		}
		rest := f.data[f.pos:]
		sl := make([]Value, len(rest))
		for i := range rest {
			sl[i] = cell(rest[i], e.epoch)
		}
		f.pos = len(f.data)
		r, ok := e.invokeByName(a[1], "Write", []Value{{X: sl}})
		if !ok {
			panic(unsupported("WriteTo target"))
		}
		return vTuple(r.X.(Agg)[0], r.X.(Agg)[1])
	},
	"(*os.File).ReadAt": func(e *Exec, fn *Fn, a []Value) Value {
		f := e.file(a[0])
		if f == nil {
			return vTuple(vInt(0), e.globalVal("os", "ErrInvalid"))
		}
		if f.closed {
			return vTuple(vInt(0), e.pathError("read", f.name, e.globalVal("io/fs", "ErrClosed")))
		}
		p, at := a[1].sl(), e.intOf(a[2])
		if at < 0 {
			panic(unsupported("ReadAt a negative offset"))
		}
		n := max(0, min(len(p), len(f.data)-at))
		for i := 0; i < n; i++ {
			e.storeCell(&p[i], f.data[at+i])
		}
		if n < len(p) {
			return vTuple(vInt(n), e.globalVal("io", "EOF"))
		}
		return vTuple(vInt(n), Value{})
	},
	"(*os.File).Sync": func(e *Exec, fn *Fn, a []Value) Value { return Value{} },
	"(*os.File).Truncate": func(e *Exec, fn *Fn, a []Value) Value {
		f := e.file(a[0])
		n := e.intOf(a[1])
		if f == nil || n < 0 {
			return e.globalVal("os", "ErrInvalid")
		}
		for len(f.data) < n {
			f.data = append(f.data, Value{})
		}
		f.data = f.data[:n]
		return Value{}
	},
}

func createTemp(e *Exec, fn *Fn, a []Value) Value {
	dir, pat := e.modelStr(a[0]), e.modelStr(a[1])
	if dir == "" {
		dir = "/tmp"
	}
	fs := e.h.fs
	if !fs.dirs[path.Clean(dir)] {
		return vTuple(Value{}, e.pathError("open", dir+"/"+pat, e.errno(eNOENT)))
	}
	fs.n++
	name := dir + "/" + strings.Replace(pat, "*", fmt.Sprint(fs.n), 1)
	f := &modelFile{name: name}
	fs.files[name] = f
	fs.opens++
	return vTuple(Value{X: &Value{X: f, E: e.epoch}}, Value{})
}

func fileWrite(e *Exec, fn *Fn, a []Value) Value {
	f := e.file(a[0])
	if f == nil {
		return vTuple(vInt(0), e.globalVal("os", "ErrInvalid"))
	}
	if f.closed {
		return vTuple(vInt(0), e.pathError("write", f.name, e.globalVal("io/fs", "ErrClosed")))
	}
	p := a[1].sl()
	n := len(p)
	short := false
	if lim := e.h.fs.limit; lim >= 0 && f.pos+n > lim {
		n = max(0, lim-f.pos)
		short = true
	}
	for len(f.data) < f.pos+n {
		f.data = append(f.data, Value{})
	}
	for i := 0; i < n; i++ {
		f.data[f.pos+i] = Value{N: p[i].N, X: p[i].X}
	}
	f.pos += n
	if short {
		return vTuple(vInt(n), e.pathError("write", f.name, e.errno(eFBIG)))
	}
	return vTuple(vInt(n), Value{})
}
