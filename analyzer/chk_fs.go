package main

import "strings"

// fsOp is one operation on the file system, as the source performs it.
type fsOp struct {
	op   string // write, produce, remove, removeall, rename, link, copy, open, chmod, chown, mkdir, truncate
	path *Term  // the path operated on (for link/rename/copy: the destination)
	src  *Term  // link/rename/copy/produce: the source
	data *Term  // write: what is written, if known
	file *Term  // write/open: the resulting handle
	mode *Term
}

// fileOf finds the path a file handle was opened on.
func fileOf(f *Term) (path *Term, how string) {
	if f.op == "call" {
		n := f.aux
		if i := strings.LastIndexByte(n, ':'); i >= 0 {
			n = n[i+1:]
		}
		switch n {
		case "os.Open.0":
			return f.args[0], "open"
		case "os.Create.0":
			return f.args[0], "create"
		case "os.OpenFile.0":
			return f.args[0], "openfile"
		case "os.File.Fd.0":
			return fileOf(f.args[0])
		}
	}
	return nil, ""
}

const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oTRUNC  = 0x200
	oEXCL   = 0x80
	oAPPEND = 0x400
)

// fsOps lists the file system operations of an event (ok as in the event).
func fsOps(e *Engine, s *State, ev *Event) []fsOp {
	if ev.kind != "call" {
		return nil
	}
	a := ev.arg
	res := func() *Term {
		if len(ev.res) > 0 {
			return ev.res[0]
		}
		return nil
	}
	switch ev.name {
	case "os.Create":
		return []fsOp{{op: "write", path: a(0), file: res()}}
	case "os.OpenFile":
		if fl, ok := a(1).intVal(); ok && fl&(oWRONLY|oRDWR) == 0 {
			return []fsOp{{op: "open", path: a(0), file: res()}}
		}
		return []fsOp{{op: "write", path: a(0), file: res(), mode: a(1)}}
	case "os.Open":
		return []fsOp{{op: "open", path: a(0), file: res()}}
	case "os.WriteFile", "io/ioutil.WriteFile":
		return []fsOp{{op: "write", path: a(0), data: a(1), mode: a(2)}}
	case "os.Remove", "syscall.Unlink":
		return []fsOp{{op: "remove", path: a(0)}}
	case "os.RemoveAll":
		return []fsOp{{op: "removeall", path: a(0)}}
	case "os.Rename":
		return []fsOp{{op: "rename", path: a(1), src: a(0)}}
	case "os.Link", "os.Symlink":
		return []fsOp{{op: "link", path: a(1), src: a(0)}}
	case "os.Truncate":
		return []fsOp{{op: "truncate", path: a(0)}}
	case "os.Chmod":
		return []fsOp{{op: "chmod", path: a(0), mode: a(1)}}
	case "os.Chown", "os.Lchown":
		return []fsOp{{op: "chown", path: a(0)}}
	case "os.Mkdir", "os.MkdirAll":
		return []fsOp{{op: "mkdir", path: a(0), mode: a(1)}}
	case "io.Copy", "io.CopyBuffer", "io.CopyN":
		dst, how := fileOf(a(0))
		if dst == nil || how == "open" {
			return nil
		}
		src, _ := fileOf(a(1))
		return []fsOp{{op: "copy", path: dst, src: src}}
	case "os.File.Write", "os.File.WriteString", "os.File.WriteAt", "io.WriteString":
		if dst, _ := fileOf(a(0)); dst != nil {
			return []fsOp{{op: "append", path: dst, data: a(1)}}
		}
	case "os.File.Truncate":
		if dst, _ := fileOf(a(0)); dst != nil {
			return []fsOp{{op: "truncate", path: dst}}
		}
	case "os/exec.Cmd.Run", "os/exec.Cmd.Output", "os/exec.Cmd.CombinedOutput":
		return cmdOps(s.heap[mk("cmd", "", a(0))])
	}
	if strings.HasPrefix(ev.name, "os.CopyFS") {
		return []fsOp{{op: "write", path: a(0)}}
	}
	return nil
}

// cmdOps: what the compressors do with their argument.
func cmdOps(l *Term) []fsOp {
	if l == nil || len(l.args) < 1 {
		return nil
	}
	prog, ok := l.args[0].strVal()
	if !ok {
		return nil
	}
	var args []*Term
	for _, x := range l.args[1:] {
		if x.op == "list" {
			args = append(args, x.args...)
		} else {
			args = append(args, x)
		}
	}
	if i := strings.LastIndexByte(prog, '/'); i >= 0 {
		prog = prog[i+1:]
	}
	suffix := map[string]string{"xz": ".xz", "zstd": ".zst"}[prog]
	strip := map[string]string{"unxz": ".xz", "unzstd": ".zst"}[prog]
	if suffix == "" && strip == "" {
		return nil
	}
	var in *Term
	keep := strings.HasSuffix(prog, "zstd")
	stdout := false
	for i := 0; i < len(args); i++ {
		if s, ok := args[i].strVal(); ok && strings.HasPrefix(s, "-") {
			switch s {
			case "-T", "-S", "--threads", "--suffix":
				i++
			case "-k", "--keep":
				keep = true
			case "--rm":
				keep = false
			case "-d", "--decompress":
				suffix, strip = "", suffix
			case "-c", "--stdout":
				stdout = true
			}
			continue
		}
		in = args[i]
	}
	if in == nil || stdout {
		return nil
	}
	out := cat(in, tStr(suffix))
	if strip != "" {
		out = pureApp("strings.TrimSuffix", 0, []*Term{in, tStr(strip)})
	}
	ops := []fsOp{{op: "produce", path: out, src: in, mode: l.args[0]}}
	if !keep {
		ops = append(ops, fsOp{op: "remove", path: in})
	}
	return ops
}

// contentOf: the file whose entire content a value is, or nil.
func contentOf(t *Term) *Term {
	t = stripStr(t)
	if t.isApp("content") {
		p, _ := fileOf(t.args[0])
		return p
	}
	if t.op != "call" {
		return nil
	}
	n := t.aux
	if i := strings.LastIndexByte(n, ':'); i >= 0 {
		n = n[i+1:]
	}
	switch n {
	case "os.ReadFile.0", "io/ioutil.ReadFile.0":
		return t.args[0]
	case "io.ReadAll.0", "io/ioutil.ReadAll.0":
		p, _ := fileOf(t.args[0])
		return p
	case "syscall.Mmap.0":
		fd, off, ln := t.args[0], t.args[1], t.args[2]
		if o, ok := off.intVal(); !ok || o != 0 || !fd.isApp("os.File.Fd") {
			return nil
		}
		p, _ := fileOf(fd.args[0])
		if p == nil {
			return nil
		}
		if q := sizeOf(ln); q == p {
			return p
		}
	}
	return nil
}

// sizeOf: the file whose size a value is, or nil.
func sizeOf(t *Term) *Term {
	if !t.isApp("io/fs.FileInfo.Size") && !t.isApp("os.FileInfo.Size") {
		return nil
	}
	st := t.args[0]
	if st.op != "call" {
		return nil
	}
	n := st.aux[strings.LastIndexByte(st.aux, ':')+1:]
	switch n {
	case "os.File.Stat.0":
		p, _ := fileOf(st.args[0])
		return p
	case "os.Stat.0":
		return st.args[0]
	}
	return nil
}

// digestOf: (algorithm, file) if the value is the hex digest of a whole file.
func digestOf(t *Term) (alg string, file *Term) {
	t = stripStr(t)
	if !t.isApp("hex") || len(t.args) != 1 {
		return "", nil
	}
	d := stripStr(t.args[0])
	if d.op == "slice" || d.isApp("slice") {
		d = d.args[0]
	}
	if d.op != "app" || !strings.HasPrefix(d.aux, "digest:") || len(d.args) != 1 {
		return "", nil
	}
	return d.aux[7:], contentOf(d.args[0])
}

// baseName: the last component of a path, if constant.
func baseName(p *Term) (dir *Term, base string) {
	if p == nil {
		return nil, ""
	}
	if p.isApp("path") {
		if s, ok := p.args[len(p.args)-1].strVal(); ok {
			return path(p.args[:len(p.args)-1]...), s
		}
	}
	return nil, ""
}

// bestEffort: a failure here is not a failure of the operation.
var bestEffort = map[string]bool{
	"os.Remove": true, "os.RemoveAll": true, "os.Chtimes": true, "os.Chown": true, "os.Chmod": true,
	"os.File.Close": true, "syscall.Munmap": true, "os.Stat": true, "os.Lstat": true,
	"io/ioutil.ReadDir": true, "os.ReadDir": true,
	"os.File.Chmod": true, "os.File.Sync": true, "io.Closer.Close": true,
}

func isTmpl(t *Term) bool { return t.op == "set" || t.op == "when" }
