package main

import (
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
)

// VFS is the in-memory file system seen by the interpreted program.
type vfile struct {
	name    Value // cleaned path
	content Value // string or *SStr
	dir     bool
	full    bool // writing to it fails: there is no space left
}

type VFS struct {
	files  []*vfile
	stdout Value
	stderr Value
}

// fsErr is the *fs.PathError that a file operation ends with.
func (in *Interp) fsErr(op string, name Value, msg string) Iface {
	var e Value
	e = in.errf("%s", msg)
	for no, s := range map[uint64]string{2: "no such file or directory", 17: "file exists", 20: "not a directory", 21: "is a directory", 28: "no space left on device", 39: "directory not empty"} {
		if s == msg {
			e = Iface{t: in.P.canonType(in.namedType("syscall", "Errno")), v: no}
		}
	}
	t := in.namedType("io/fs", "PathError")
	return Iface{t: in.P.canonType(types.NewPointer(t)), v: in.newObj(t, map[string]Value{"Op": op, "Path": name, "Err": e})}
}

func newVFS() *VFS { return &VFS{stdout: "", stderr: ""} }

func (in *Interp) vfsFind(name Value) *vfile {
	name = in.symClean(name)
	for _, f := range in.vfs.files {
		if in.truth(in.strEq(f.name, name)) {
			return f
		}
	}
	return nil
}

func (in *Interp) parentOK(name Value) bool {
	name = in.symClean(name)
	i := in.lastIndex(name, "/")
	if i <= 0 {
		return true
	}
	f := in.vfsFind(substr(name, 0, i))
	return f != nil && f.dir
}

func (in *Interp) writeFile(name, content Value) Iface {
	if strLen(name) == 0 {
		return in.fsErr("open", name, "no such file or directory")
	}
	if f := in.vfsFind(name); f != nil {
		if f.dir {
			return in.fsErr("open", name, "is a directory")
		}
		if f.full && strLen(content) > 0 {
			return in.fsErr("write", name, "no space left on device")
		}
		f.content = content
		return nilErr
	}
	if !in.parentOK(name) {
		return in.fsErr("open", name, "no such file or directory")
	}
	in.vfs.files = append(in.vfs.files, &vfile{name: in.symClean(name), content: content})
	return nilErr
}

func (in *Interp) readFile(name Value) (Value, Iface) {
	if f := in.vfsFind(name); f != nil && strLen(name) > 0 {
		if f.dir {
			return nil, in.fsErr("read", name, "is a directory")
		}
		return f.content, nilErr
	}
	return nil, in.fsErr("open", name, "no such file or directory")
}

func (in *Interp) mkdirAll(name Value) Iface {
	name = in.symClean(name)
	if strLen(name) == 0 {
		return nilErr
	}
	if i := in.lastIndex(name, "/"); i > 0 {
		if e := in.mkdirAll(substr(name, 0, i)); e.t != nil {
			return e
		}
	}
	if s, ok := name.(string); ok && (s == "." || s == "/" || s == "..") {
		return nilErr
	}
	if f := in.vfsFind(name); f != nil {
		if f.dir {
			return nilErr
		}
		return in.fsErr("mkdir", name, "not a directory")
	}
	in.vfs.files = append(in.vfs.files, &vfile{name: name, content: "", dir: true})
	return nilErr
}

type openFile struct {
	f   *vfile
	pos int
	app bool // writes go to the end
}

// within tells whether a file is in a directory, at any depth, and its name below it.
func (in *Interp) within(dir Value, f *vfile) (Value, bool) {
	if dir == "." {
		return f.name, true
	}
	d := strBytes(concat(dir, "/"))
	n := strBytes(f.name)
	if len(n) <= len(d) || !in.truth(in.eq(mkStr(append([]Value(nil), n[:len(d)]...)), mkStr(d))) {
		return nil, false
	}
	return mkStr(append([]Value(nil), n[len(d):]...)), true
}

func (in *Interp) readDir(name Value) ([]Value, Iface) {
	dir := in.symClean(name)
	if f := in.vfsFind(name); dir != "." && (f == nil || !f.dir) {
		return nil, in.fsErr("open", name, "no such file or directory")
	}
	var out []Value
	for _, f := range in.vfs.files {
		rest, ok := in.within(dir, f)
		if ok && in.conc(in.pathPart(rest, filepath.Dir)) == "." {
			i := len(out)
			for i > 0 && strings.Compare(in.conc(out[i-1].(Iface).v.(Native).v.(*vfile).name), in.conc(f.name)) > 0 {
				i--
			}
			out = append(out[:i:i], append([]Value{Iface{t: statType, v: Native{f}}}, out[i:]...)...)
		}
	}
	return out, nilErr
}

func (in *Interp) removeFiles(gone func(*vfile) bool) {
	var out []*vfile
	for _, x := range in.vfs.files {
		if !gone(x) {
			out = append(out, x)
		}
	}
	in.vfs.files = out
}

func registerIO(I map[string]intrFn) {
	rf := func(in *Interp, a []Value) Value {
		c, err := in.readFile(a[0])
		if err.t != nil {
			return Tuple{[]Value(nil), err}
		}
		b := strBytes(c)
		return Tuple{append(make([]Value, 0, len(b)), b...), nilErr}
	}
	I["os.ReadFile"] = rf
	I["io/ioutil.ReadFile"] = rf
	wf := func(in *Interp, a []Value) Value {
		return in.writeFile(a[0], mkStr(append([]Value(nil), a[1].([]Value)...)))
	}
	I["os.WriteFile"] = wf
	I["io/ioutil.WriteFile"] = wf
	I["os.MkdirAll"] = func(in *Interp, a []Value) Value { return in.mkdirAll(a[0]) }
	I["os.Mkdir"] = func(in *Interp, a []Value) Value {
		if in.vfsFind(a[0]) != nil {
			return in.fsErr("mkdir", a[0], "file exists")
		}
		if !in.parentOK(a[0]) {
			return in.fsErr("mkdir", a[0], "no such file or directory")
		}
		return in.mkdirAll(a[0])
	}
	open := func(in *Interp, name Value, create, trunc, app, excl bool) Value {
		f := in.vfsFind(name)
		if f != nil && create && excl {
			return Tuple{Ptr(nil), in.fsErr("open", name, "file exists")}
		}
		if f == nil {
			if !create {
				return Tuple{Ptr(nil), in.fsErr("open", name, "no such file or directory")}
			}
			if e := in.writeFile(name, ""); e.t != nil {
				return Tuple{Ptr(nil), e}
			}
			f = in.vfsFind(name)
		} else if f.dir && create {
			return Tuple{Ptr(nil), in.fsErr("open", name, "is a directory")}
		} else if trunc {
			f.content = ""
		}
		v := Value(Native{&openFile{f: f, app: app}})
		return Tuple{Ptr(&v), nilErr}
	}
	I["os.Open"] = func(in *Interp, a []Value) Value { return open(in, a[0], false, false, false, false) }
	I["os.Create"] = func(in *Interp, a []Value) Value { return open(in, a[0], true, true, false, false) }
	I["os.OpenFile"] = func(in *Interp, a []Value) Value {
		fl := in.index(a[1])
		return open(in, a[0], fl&0x40 != 0, fl&0x200 != 0, fl&0x400 != 0, fl&0x80 != 0)
	}
	I["os.Remove"] = func(in *Interp, a []Value) Value {
		f := in.vfsFind(a[0])
		if f == nil {
			return in.fsErr("remove", a[0], "no such file or directory")
		}
		if f.dir {
			if l, _ := in.readDir(a[0]); len(l) > 0 {
				return in.fsErr("remove", a[0], "directory not empty")
			}
		}
		in.removeFiles(func(x *vfile) bool { return x == f })
		return nilErr
	}
	I["os.RemoveAll"] = func(in *Interp, a []Value) Value {
		f, dir := in.vfsFind(a[0]), in.symClean(a[0])
		in.removeFiles(func(x *vfile) bool {
			_, ok := in.within(dir, x)
			return ok || x == f
		})
		return nilErr
	}
	I["os.Rename"] = func(in *Interp, a []Value) Value {
		f, to := in.vfsFind(a[0]), in.vfsFind(a[1])
		if f == nil || !in.parentOK(a[1]) {
			return in.fsErr("rename", a[0], "no such file or directory")
		}
		if f.dir || f.full || to != nil && (to.dir || to.full) {
			unsup("rename of a directory")
		}
		if f != to {
			in.removeFiles(func(x *vfile) bool { return x == to })
			g := *f
			g.name = in.symClean(a[1])
			for i, x := range in.vfs.files {
				if x == f {
					in.vfs.files[i] = &g
				}
			}
		}
		return nilErr
	}
	I["os.Truncate"] = func(in *Interp, a []Value) Value {
		if in.index(a[1]) != 0 {
			unsup("truncation to a length")
		}
		return in.writeFile(a[0], "")
	}
	I["os.Chmod"] = func(in *Interp, a []Value) Value {
		if in.vfsFind(a[0]) == nil {
			return in.fsErr("chmod", a[0], "no such file or directory")
		}
		return nilErr
	}
	temp := func(in *Interp, a []Value, dir bool) Value {
		d, p := a[0], a[1]
		if strLen(d) == 0 {
			d = "/tmp"
			in.mkdirAll(d)
		}
		pat := in.conc(p)
		i := strings.LastIndexByte(pat, '*')
		if i < 0 {
			i, pat = len(pat), pat+"*"
		}
		in.clock++
		name := intrinsics["path/filepath.Join"](in, []Value{[]Value{d, pat[:i] + strconv.Itoa(100000+in.clock) + pat[i+1:]}})
		if dir {
			if e := in.mkdirAll(name); e.t != nil {
				return Tuple{"", e}
			}
			return Tuple{name, nilErr}
		}
		return open(in, name, true, true, false, true)
	}
	I["os.CreateTemp"] = func(in *Interp, a []Value) Value { return temp(in, a, false) }
	I["io/ioutil.TempFile"] = I["os.CreateTemp"]
	I["os.MkdirTemp"] = func(in *Interp, a []Value) Value { return temp(in, a, true) }
	I["io/ioutil.TempDir"] = I["os.MkdirTemp"]
	I["os.TempDir"] = func(in *Interp, a []Value) Value { return "/tmp" }
	I["os.ReadDir"] = func(in *Interp, a []Value) Value {
		l, e := in.readDir(a[0])
		return Tuple{l, e}
	}
	I["io/ioutil.ReadDir"] = I["os.ReadDir"]
	I["(*os.File).Name"] = func(in *Interp, a []Value) Value {
		if x, ok := (*(a[0].(Ptr))).(Native).v.(*openFile); ok {
			return x.f.name
		}
		unsup("name of a standard stream")
		return nil
	}
	I["(*os.File).Chmod"] = func(in *Interp, a []Value) Value { return nilErr }
	I["(*os.File).Stat"] = func(in *Interp, a []Value) Value {
		if x, ok := (*(a[0].(Ptr))).(Native).v.(*openFile); ok {
			return Tuple{Iface{t: statType, v: Native{x.f}}, nilErr}
		}
		unsup("state of a standard stream")
		return nil
	}
	I["os.Setenv"] = func(in *Interp, a []Value) Value {
		in.penv[in.conc(a[0])] = a[1]
		return nilErr
	}
	I["os.Unsetenv"] = func(in *Interp, a []Value) Value {
		in.penv[in.conc(a[0])] = nil
		return nilErr
	}
	I["os.Stat"] = func(in *Interp, a []Value) Value {
		f := in.vfsFind(a[0])
		if f == nil {
			return Tuple{Iface{}, in.fsErr("stat", a[0], "no such file or directory")}
		}
		return Tuple{Iface{t: statType, v: Native{f}}, nilErr}
	}
	I["os.Lstat"] = I["os.Stat"]
	I["os.Exit"] = func(in *Interp, a []Value) Value { panic(runExit{in.index(a[0])}) }
	getenv := func(in *Interp, a []Value) (Value, bool) {
		if v, ok := in.penv[in.conc(a[0])]; ok {
			if v == nil {
				return "", false
			}
			return v, true
		}
		if v, ok := in.env[in.conc(a[0])]; ok {
			return v, true
		}
		// what a replay runs with
		switch in.conc(a[0]) {
		case "PATH":
			return "/usr/bin:/bin", true
		case "HOME":
			return "/nonexistent", true
		}
		return "", false
	}
	I["os.Getenv"] = func(in *Interp, a []Value) Value {
		v, _ := getenv(in, a)
		return v
	}
	I["os.LookupEnv"] = func(in *Interp, a []Value) Value {
		v, ok := getenv(in, a)
		return Tuple{v, ok}
	}
	I["syscall.Getenv"] = I["os.LookupEnv"]
	I["os.Getwd"] = func(in *Interp, a []Value) Value { return Tuple{"/w", nilErr} }
	fileWrite := func(in *Interp, a []Value) Value {
		p := a[0].(Ptr)
		if p == nil {
			return Tuple{0, in.errf("invalid argument")}
		}
		var b Value
		if isStr(a[1]) {
			b = a[1]
		} else {
			b = mkStr(append([]Value(nil), a[1].([]Value)...))
		}
		switch x := (*p).(Native).v.(type) {
		case string:
			if x == "file:stdout" {
				in.vfs.stdout = concat(in.vfs.stdout, b)
			} else {
				in.vfs.stderr = concat(in.vfs.stderr, b)
			}
		case *openFile:
			if x.f.full && strLen(b) > 0 {
				return Tuple{0, in.fsErr("write", x.f.name, "no space left on device")}
			}
			n := strLen(b)
			if x.app || x.pos == strLen(x.f.content) {
				x.pos = strLen(x.f.content) + n
				x.f.content = concat(x.f.content, b)
				break
			}
			old := strBytes(x.f.content)
			if x.pos > len(old) {
				unsup("write beyond the end of a file")
			}
			content := append(append([]Value(nil), old[:x.pos]...), strBytes(b)...)
			if x.pos+n < len(old) {
				for _, v := range append(old[:len(old):len(old)], strBytes(b)...) {
					if _, ok := v.(*Blob); ok {
						unsup("partly overwritten document")
					}
				}
				content = append(content, old[x.pos+n:]...)
			}
			x.pos += n
			x.f.content = mkStr(content)
		}
		return Tuple{strLen(b), nilErr}
	}
	I["(*os.File).Write"] = fileWrite
	I["(*os.File).WriteString"] = fileWrite
	I["(*os.File).Close"] = func(in *Interp, a []Value) Value { return nilErr }
	I["(*os.File).Sync"] = I["(*os.File).Close"]
	I["(*os.File).Read"] = func(in *Interp, a []Value) Value {
		x := (*(a[0].(Ptr))).(Native).v.(*openFile)
		b := strBytes(x.f.content)
		if x.pos >= len(b) {
			return Tuple{0, *(in.global(in.P.pkgs["io"].Var("EOF")))}
		}
		n := copy(a[1].([]Value), b[x.pos:])
		x.pos += n
		return Tuple{n, nilErr}
	}
	readAll := func(in *Interp, a []Value) Value {
		r := a[0].(Iface)
		if r.t == nil {
			in.nilDeref()
		}
		var out []Value
		for {
			buf := make([]Value, 4096)
			for i := range buf {
				buf[i] = byte(0)
			}
			t, _ := in.callMethod(r, "Read", buf)
			n := in.index(t.(Tuple)[0])
			out = append(out, buf[:n]...)
			if e := t.(Tuple)[1].(Iface); e.t != nil {
				if in.truth(in.eq(e, *(in.global(in.P.pkgs["io"].Var("EOF"))))) {
					break
				}
				return Tuple{out, e}
			}
			if n == 0 {
				break
			}
		}
		if out == nil {
			out = []Value{}
		}
		return Tuple{out, nilErr}
	}
	I["io.ReadAll"] = readAll
	I["io/ioutil.ReadAll"] = readAll
}
