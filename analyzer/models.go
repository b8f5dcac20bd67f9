package main

import (
	"fmt"
	"os"

	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callRes struct {
	st  *State
	res []*Term
}

type callSite struct {
	fr     *frame
	c      *config
	in     ssa.Instruction
	name   string
	args   []*Term
	sig    *types.Signature
	site   string
	active []*Term
	common *ssa.CallCommon
}

func (P *Program) isRepoGlobal(n string) bool { return strings.HasPrefix(n, repoPath) }

// calleeArgs evaluates callee and arguments (receiver first).
func (fr *frame) calleeArgs(c *config, cc *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if cc.IsInvoke() {
		args = append(args, fr.val(c, cc.Value))
		for _, a := range cc.Args {
			args = append(args, fr.val(c, a))
		}
		return mk("method", cc.Method.Name()), args
	}
	for _, a := range cc.Args {
		args = append(args, fr.val(c, a))
	}
	return fr.val(c, cc.Value), args
}

func (fr *frame) call(c *config, in ssa.Instruction, cc *ssa.CallCommon) []*callRes {
	f, as := fr.calleeArgs(c, cc)
	return fr.callTerm(c, in, cc, f, as)
}

func ifaceName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return types.TypeString(t, nil)
}

// extName gives "os.Rename" or "os.File.Close".
func extName(f *ssa.Function) string {
	if o := f.Object(); o != nil {
		if fo, ok := o.(*types.Func); ok {
			sig := fo.Type().(*types.Signature)
			if r := sig.Recv(); r != nil {
				t := r.Type()
				if p, ok := t.(*types.Pointer); ok {
					t = p.Elem()
				}
				return ifaceName(t) + "." + fo.Name()
			}
			if fo.Pkg() != nil {
				return fo.Pkg().Path() + "." + fo.Name()
			}
		}
	}
	return f.String()
}

func (fr *frame) callTerm(c *config, in ssa.Instruction, cc *ssa.CallCommon, f *Term, args []*Term) []*callRes {
	e := fr.e
	e.covCall[in] = true
	if f.op == "builtin" {
		return fr.builtin(c, in, cc, f.aux, args)
	}
	cs := &callSite{fr: fr, c: c, in: in, args: args, sig: cc.Signature(), site: fr.site(in), active: fr.active(c, in.Block()), common: cc}
	if f.op == "method" {
		recv := args[0]
		it := cc.Value.Type()
		cs.name = ifaceName(it) + "." + f.aux
		// concrete receiver known?
		if e.dbModel && strings.HasPrefix(cs.name, repoPath+"src/libdb.") {
			return fr.dbCall(cs, f.aux)
		}
		if t := recv.typ; t != nil {
			for _, tt := range []types.Type{t, types.NewPointer(t)} {
				if types.IsInterface(tt) {
					continue
				}
				if p, ok := tt.(*types.Pointer); ok && types.IsInterface(p.Elem()) {
					continue
				}
				if e.P.prog.MethodSets.MethodSet(tt).Lookup(cc.Method.Pkg(), f.aux) == nil {
					continue
				}
				if m := e.P.prog.LookupMethod(tt, cc.Method.Pkg(), f.aux); m != nil && m.Blocks != nil && inRepo(m) {
					return fr.callFn(cs, m, nil)
				}
			}
		}
		if e.invoke != nil {
			if m := e.invoke(e, cs.name, recv, args); m != nil {
				return fr.callFn(cs, m, nil)
			}
		}
		return fr.external(cs)
	}
	switch f.op {
	case "func":
		return fr.callFn(cs, e.funcs[f.aux], nil)
	case "closure":
		return fr.callFn(cs, e.funcs[f.aux], f.args)
	}
	// unknown function value
	cs.name = "dynamic"
	cs.args = append([]*Term{f}, args...)
	return fr.external(cs)
}

var dbgIn = os.Getenv("DBGIN")
var dbgStates []*Outcome

func (fr *frame) callFn(cs *callSite, m *ssa.Function, free []*Term) []*callRes {
	e := fr.e
	if m == nil {
		cs.name = "dynamic"
		return fr.external(cs)
	}
	cs.name = extName(m)
	if m.Synthetic != "" && m.Blocks != nil && m.Object() != nil && len(free) > 0 {
		// bound method wrapper: run it, the call inside is resolved normally
	}
	if e.dbModel && strings.HasPrefix(cs.name, repoPath+"src/libdb.") && m.Signature.Recv() != nil {
		if fr.isDbType(m.Signature.Recv().Type()) {
			return fr.dbCall(cs, m.Name())
		}
	}
	if m.Blocks == nil || !inRepo(m) {
		if pp := m.Pkg; m.Blocks != nil && pp == nil && m.Synthetic != "" && len(free) == 1 {
			// bound external method
			cs.args = append([]*Term{free[0]}, cs.args...)
		}
		return fr.external(cs)
	}
	if e.ext != nil {
		if rs, ok := e.ext(e, cs.c.st, cs); ok {
			return rs
		}
	}
	if !e.inline(m) {
		return fr.external(cs)
	}
	args := cs.args
	e.emit(cs.c.st, &Event{kind: "enter", name: shortFn(m), args: args, in: cs.in, fn: fr.fn, ctx: fr.ctx})
	if dbgIn != "" && m.Name() == dbgIn {
		dbgStates = append(dbgStates, &Outcome{cs.c.st.clone(), args})
		if len(dbgStates) == 8 {
			diffStates(dbgStates)
			fmt.Println("--- FACTS")
			for _, o := range dbgStates[:3] {
				fmt.Println(len(o.st.facts.boolv), len(o.st.facts.mask), len(o.st.facts.rng), o.st.facts.key())
			}
			os.Exit(0)
		}
	}
	outs := e.run(m, args, free, cs.c.st.clone(), fr.subctx(cs.in)+iterTag(cs.active), cs.active)
	var rs []*callRes
	for _, o := range outs {
		e.emit(o.st, &Event{kind: "leave", name: shortFn(m), args: args, res: o.rets, in: cs.in, fn: fr.fn, ctx: fr.ctx, ok: resultOk(o.st, m.Signature, o.rets)})
		rs = append(rs, &callRes{o.st, o.rets})
	}
	return rs
}

// iterTag distinguishes the iterations of unrolled loops.
func iterTag(active []*Term) string {
	s := ""
	for _, a := range active {
		if a.op == "iter" {
			s += "." + a.args[0].aux[2:]
		}
	}
	if s != "" {
		return "@" + s[1:]
	}
	return ""
}

func (fr *frame) isDbType(t types.Type) bool {
	nt := fr.e.P.named["libdb.Database"]
	if nt == nil {
		return false
	}
	i, ok := nt.Underlying().(*types.Interface)
	return ok && (types.Implements(t, i) || types.Implements(types.NewPointer(t), i))
}

func (fr *frame) builtin(c *config, in ssa.Instruction, cc *ssa.CallCommon, name string, args []*Term) []*callRes {
	e := fr.e
	one := func(t *Term) []*callRes { return []*callRes{{c.st, []*Term{t}}} }
	switch name {
	case "append":
		a := args[0]
		var out []*Term
		switch a.op {
		case "list":
			out = append(out, a.args...)
		case "set":
			// appending to a summary
			out = append(out, a.args...)
		default:
			if a != tNil {
				if lv, ok := lenOf(c.st, a).intVal(); !ok || lv != 0 {
					if a.isApp("slice") && a.args[2] == tInt(0) {
						// x[:0]
					} else {
						out = append(out, mk("spread", "", a))
					}
				}
			}
		}
		if len(args) > 1 {
			b := args[1]
			switch b.op {
			case "list":
				out = append(out, b.args...)
			case "set":
				out = append(out, b.args...)
				r := mergeTempl(out)
				e.emit(c.st, &Event{kind: "append", args: []*Term{a, b, r}, in: in, fn: fr.fn, ctx: fr.ctx})
				return one(r)
			case "const":
				if b != tNil {
					if s, ok := b.strVal(); ok && (a == tNil || a.op == "const" || a.isApp("cat")) {
						_ = s
						return one(cat(strOf(a), b))
					}
					out = append(out, mk("spread", "", b))
				}
			default:
				if isByteSlice(cc.Args[0].Type()) {
					return one(cat(strOf(a), b))
				}
				out = append(out, mk("spread", "", b))
			}
		}
		r := mk("list", "", out...)
		if a.op == "set" {
			r = mergeTempl(out)
		} else if len(out) > 40 {
			r = mkSet(out...)
		}
		bb := mk("list", "")
		if len(args) > 1 {
			bb = args[1]
		}
		e.emit(c.st, &Event{kind: "append", args: []*Term{a, bb, r}, in: in, fn: fr.fn, ctx: fr.ctx})
		return one(r)
	case "len":
		t := lenOf(c.st, args[0])
		if args[0].typ == nil {
			args[0].typ = cc.Args[0].Type()
		}
		return one(t)
	case "cap":
		return one(app("cap", args[0]))
	case "copy":
		e.emit(c.st, &Event{kind: "call", name: "builtin.copy", args: args, in: in, fn: fr.fn, ctx: fr.ctx})
		if args[0].op == "alloc" {
			e.store(c.st, args[0], mk("list", "", mk("spread", "", args[1])))
			if isByteSlice(cc.Args[0].Type()) {
				e.store(c.st, args[0], app("copyof", args[1]))
			}
		}
		return one(app("copylen", args...))
	case "delete":
		m, k := args[0], args[1]
		delete(c.st.heap, mk("mapcell", "", m, k))
		c.st.facts.boolv[mk("app", "maphas", m, k)] = false
		e.emit(c.st, &Event{kind: "mapdelete", args: []*Term{m, k}, in: in, fn: fr.fn, ctx: fr.ctx, typ: cc.Args[0].Type()})
		return []*callRes{{c.st, nil}}
	case "close":
		e.emit(c.st, &Event{kind: "call", name: "builtin.close", args: args, in: in, fn: fr.fn, ctx: fr.ctx})
		return []*callRes{{c.st, nil}}
	case "panic":
		e.emit(c.st, &Event{kind: "panic", args: args, in: in, fn: fr.fn, ctx: fr.ctx})
		return nil
	case "recover":
		return one(tNil)
	case "print", "println":
		return []*callRes{{c.st, nil}}
	case "min", "max":
		return one(app(name, args...))
	case "ssa:wrapnilchk":
		return one(args[0])
	case "clear":
		return []*callRes{{c.st, nil}}
	}
	return one(app("builtin."+name, args...))
}

func strOf(a *Term) *Term {
	if a == tNil || a.op == "list" && len(a.args) == 0 {
		return tStr("")
	}
	return a
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

var purePkgs = map[string]bool{"strings": true, "path": true, "unicode": true, "unicode/utf8": true, "math": true, "encoding/hex": true, "strconv": true, "html": true, "errors": true, "net/url": true, "path/filepath": true, "slices": true, "maps": true, "cmp": true, "bytes": true, "regexp": true}
var impureIn = map[string]bool{"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true, "path/filepath.EvalSymlinks": true, "path/filepath.Abs": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true}
var pureFns = map[string]bool{"fmt.Sprintf": true, "fmt.Appendf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true, "os.IsNotExist": true, "os.IsExist": true,
	"time.Time.UTC": true, "time.Time.Sub": true, "time.Time.IsZero": true, "time.Time.Before": true, "time.Time.After": true, "time.Time.Equal": true, "time.Time.Add": true, "time.Time.Format": true, "time.Time.String": true, "time.Duration.String": true,
	"time.Time.Unix": true, "os.FileMode.IsRegular": true, "os.FileMode.IsDir": true, "io/fs.FileMode.IsRegular": true, "io/fs.FileMode.IsDir": true, "io/fs.FileMode.Perm": true,
	"io/fs.FileInfo.Size": true, "io/fs.FileInfo.Mode": true, "io/fs.FileInfo.ModTime": true, "io/fs.FileInfo.IsDir": true, "io/fs.FileInfo.Name": true, "io/fs.FileInfo.Sys": true,
	"io/fs.DirEntry.Name": true, "io/fs.DirEntry.IsDir": true, "sort.Reverse": true, "os.SameFile": true, "time.Since": false,
	"archive/zip.FileHeader.FileInfo": true, "archive/tar.Header.FileInfo": true, "error.Error": true, "encoding/binary.bigEndian.Uint64": true, "encoding/binary.bigEndian.Uint32": true, "encoding/binary.littleEndian.Uint64": true,
	"os.File.Name": true, "os.Getuid": true, "os.Getgid": true, "os.Getpid": true, "bytes.NewReader": false, "os.File.Fd": true, "sort.StringSlice": true, "io/ioutil.NopCloser": true, "errors.Is": true, "errors.As": false,
	"unicode/utf8.DecodeRune": true, "golang.org/x/net/context.Background": true, "runtime.NumCPU": true, "net/http.StatusText": true}

var noFail = map[string]bool{"bytes.Buffer.Write": true, "bytes.Buffer.WriteString": true, "bytes.Buffer.WriteByte": true, "strings.Builder.WriteString": true, "strings.Builder.WriteByte": true, "hash.Hash.Write": true, "fmt.Println": true, "fmt.Printf": true, "fmt.Print": true}

func isLog(n string) bool {
	return strings.HasPrefix(n, "github.com/sirupsen/logrus.") || strings.HasPrefix(n, "log.")
}

var neverReturns = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "runtime.Goexit": true, "github.com/sirupsen/logrus.Fatal": true, "github.com/sirupsen/logrus.Fatalf": true,
	"github.com/sirupsen/logrus.Entry.Fatal": true, "github.com/sirupsen/logrus.Entry.Fatalf": true, "github.com/sirupsen/logrus.Panic": true, "github.com/sirupsen/logrus.Entry.Panic": true}

func valPtr(a *Term) *Term {
	if a.op == "addr" {
		return fld(valPtr(a.args[0]), a.aux)
	}
	return a
}

// external models a call that is not followed.
func (fr *frame) external(cs *callSite) []*callRes {
	e := fr.e
	st := cs.c.st
	n := cs.name
	ev := func(s *State, ok int, res []*Term) {
		e.emit(s, &Event{kind: "call", name: n, args: cs.args, res: res, ok: ok, in: cs.in, fn: fr.fn, ctx: fr.ctx, site: cs.site})
	}
	if neverReturns[n] {
		ev(st, 0, nil)
		return nil
	}
	if isLog(n) {
		var rs []*Term
		for i := 0; i < cs.sig.Results().Len(); i++ {
			rs = append(rs, mk("app", "log"))
		}
		return []*callRes{{st, rs}}
	}
	if e.ext != nil {
		if rs, ok := e.ext(e, st, cs); ok {
			return rs
		}
	}
	if rs, ok := fr.special(cs, ev); ok {
		return rs
	}
	pkg := n
	if i := strings.LastIndexByte(pkg, '/'); i >= 0 {
		j := strings.IndexByte(pkg[i:], '.')
		if j >= 0 {
			pkg = pkg[:i+j]
		}
	} else if j := strings.IndexByte(pkg, '.'); j >= 0 {
		pkg = pkg[:j]
	}
	pure := purePkgs[pkg] && !impureIn[n] && cs.sig.Recv() == nil && !cs.common.IsInvoke()
	if v, ok := pureFns[n]; ok {
		pure = v
	}
	// getters of the package metadata
	if strings.HasPrefix(n, repoPath+"src/libeopkg.") {
		m := n[strings.LastIndexByte(n, '.')+1:]
		if strings.HasPrefix(m, "Get") || strings.HasPrefix(m, "Is") || strings.HasPrefix(m, "Compute") {
			pure = true
			var as []*Term
			for _, a := range cs.args {
				as = append(as, valPtr(a))
			}
			name := "eopkg." + m
			rs := []*Term{}
			for i := 0; i < cs.sig.Results().Len(); i++ {
				t := app(name, as...)
				if i > 0 {
					t = app(name+"#"+strconv.Itoa(i), as...)
				}
				if t.typ == nil {
					t.typ = cs.sig.Results().At(i).Type()
				}
				rs = append(rs, t)
			}
			ev(st, 0, rs)
			return []*callRes{{st, rs}}
		}
	}
	nr := cs.sig.Results().Len()
	hasErr := nr > 0 && isErrType(cs.sig.Results().At(nr-1).Type())
	if pure {
		short := n
		if n == "errors.New" || n == "fmt.Errorf" {
			t := mk("app", n, append(append([]*Term{mk("const", "x:"+cs.site)}, cs.active...), cs.args...)...)
			return []*callRes{{st, []*Term{t}}}
		}
		var as []*Term
		for _, a := range cs.args {
			as = append(as, e.deepVal(st, a))
		}
		rs := make([]*Term, nr)
		for i := range rs {
			t := pureApp(short, i, as)
			if t.typ == nil {
				t.typ = cs.sig.Results().At(i).Type()
			}
			rs[i] = t
		}
		if hasErr {
			okT := app("ok:"+short, as...)
			var out []*callRes
			s1 := st.clone()
			if e.assumeBool(s1, okT, true) {
				r := append([]*Term{}, rs...)
				r[nr-1] = tNil
				ev(s1, 1, r)
				out = append(out, &callRes{s1, r})
			}
			s2 := st
			if e.assumeBool(s2, okT, false) {
				r := append([]*Term{}, rs...)
				for i := 0; i < nr-1; i++ {
					r[i] = zeroTerm(cs.sig.Results().At(i).Type())
				}
				r[nr-1] = mk("err", cs.site, cs.active...)
				ev(s2, 2, r)
				out = append(out, &callRes{s2, r})
			}
			return out
		}
		ev(st, 0, rs)
		return []*callRes{{st, rs}}
	}
	// impure
	as := append(append([]*Term{}, cs.args...), cs.active...)
	res := func() []*Term {
		rs := make([]*Term, nr)
		for i := range rs {
			t := mk("call", cs.site+":"+n+"."+strconv.Itoa(i), as...)
			t.typ = cs.sig.Results().At(i).Type()
			rs[i] = t
		}
		return rs
	}
	if !hasErr || noFail[n] {
		r := res()
		if hasErr {
			r[nr-1] = tNil
		}
		ev(st, 0, r)
		fr.havoc(cs, st, n)
		return []*callRes{{st, r}}
	}
	s1 := st.clone()
	r1 := res()
	r1[nr-1] = tNil
	for i := 0; i < nr-1; i++ {
		switch cs.sig.Results().At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface:
			s1.facts.assume(r1[i], tNil, mNE)
		}
	}
	fr.havoc(cs, s1, n)
	ev(s1, 1, r1)
	s2 := st
	if strings.HasPrefix(n, "fmt.") {
		fr.havoc(cs, s2, n)
	}
	r2 := res()
	for i := 0; i < nr-1; i++ {
		switch cs.sig.Results().At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
			if n != "io.Reader.Read" {
				r2[i] = tNil
			}
		}
	}
	r2[nr-1] = mk("err", cs.site, cs.active...)
	r2[nr-1].typ = nil
	ev(s2, 2, r2)
	return []*callRes{{s1, r1}, {s2, r2}}
}

// deepVal replaces pointers to local objects by their contents, so that
// pure functions of equal contents are equal.
func (e *Engine) deepVal(st *State, a *Term) *Term {
	if a.op == "alloc" {
		if v, ok := st.heap[a]; ok && v.op != "alloc" {
			return v
		}
	}
	return a
}

var havocFns = map[string]int{"encoding/json.Unmarshal": 1, "encoding/json.Decoder.Decode": 1, "encoding/xml.Decoder.Decode": 1, "encoding/xml.Unmarshal": 1, "encoding/gob.Decoder.Decode": 1, "io.ReadFull": 1, "io.Reader.Read": 1, "os.File.Read": 1, "archive/tar.Reader.Read": 1}

func (fr *frame) havoc(cs *callSite, st *State, n string) {
	if n == "encoding/json.Decoder.DisallowUnknownFields" {
		return
	}
	if strings.HasPrefix(n, "fmt.") && strings.Contains(n, "can") && len(cs.args) > 0 {
		if l := cs.args[len(cs.args)-1]; l.op == "list" {
			for i, p := range l.args {
				if p.op == "alloc" || p.op == "addr" {
					t := mk("decoded", fmt.Sprint(cs.site, ".", i), append(append([]*Term{}, cs.args[0]), cs.active...)...)
					fr.e.store(st, p, t)
				}
			}
		}
		return
	}
	i, ok := havocFns[n]
	if !ok {
		if strings.HasSuffix(n, ".Decode") || strings.HasSuffix(n, ".DecodeElement") {
			i, ok = 1, true
		}
	}
	if ok && i < len(cs.args) {
		p := cs.args[i]
		if p.op == "alloc" || p.op == "addr" {
			t := mk("decoded", cs.site, append(append([]*Term{}, cs.args[0]), cs.active...)...)
			// decoders leave unexported fields alone
			keep := map[*Term]*Term{}
			hidden := func(f string) bool { return f != "" && f[0] >= 'a' && f[0] <= 'z' }
			for k, v := range st.heap {
				if k.op == "addr" && k.args[0] == p && hidden(k.aux) {
					keep[k] = v
				}
			}
			if v := st.heap[p]; v != nil && v.op == "struct" {
				for i := 1; i+1 < len(v.args); i += 2 {
					if f, _ := v.args[i].strVal(); hidden(f) {
						if a := addrOf(p, f); keep[a] == nil {
							keep[a] = v.args[i+1]
						}
					}
				}
			}
			fr.e.store(st, p, t)
			for k, v := range keep {
				st.heap[k] = v
			}
		}
	}
}

func pureApp(n string, i int, as []*Term) *Term {
	if i > 0 {
		return app(n+"#"+strconv.Itoa(i), as...)
	}
	switch n {
	case "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout":
		if as[0] == tNil {
			return tFalse
		}
	case "path/filepath.Join", "path.Join":
		if len(as) == 1 && as[0].op == "list" {
			for _, a := range as[0].args {
				if a.op == "spread" {
					return app(n, as...)
				}
			}
			return path(as[0].args...)
		}
	case "path/filepath.Dir", "path.Dir":
		return dirOf(as[0])
	case "path/filepath.Base", "path.Base":
		return baseOf(as[0])
	case "path/filepath.Clean":
		if as[0].isApp("path") {
			return as[0]
		}
	case "os.File.Name":
		if p, _ := fileOf(as[0]); p != nil {
			return p
		}
	case "fmt.Appendf":
		t := sprintf(as[1:])
		if t == nil {
			t = app("fmt.Sprintf", as[1:]...)
		}
		return cat(strOf(as[0]), t)
	case "fmt.Sprintf":
		if t := sprintf(as); t != nil {
			return t
		}
	case "fmt.Sprint":
		if len(as) == 1 && as[0].op == "list" && len(as[0].args) == 1 {
			return as[0].args[0]
		}
	case "encoding/hex.EncodeToString":
		return app("hex", as...)
	case "strconv.Itoa":
		return app("dec", as[0])
	case "strconv.FormatInt", "strconv.FormatUint":
		if as[1] == tInt(10) {
			return app("dec", as[0])
		}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		if as[0].isApp("dec") {
			return as[0].args[0]
		}
		return app("atoi", as[0])
	case "strconv.FormatBool":
		return app("boolstr", as[0])
	case "strconv.ParseBool":
		if as[0].isApp("boolstr") {
			return as[0].args[0]
		}
		return app("parsebool", as[0])
	case "strings.Replace":
		if len(as) == 4 && as[3] == tInt(-1) {
			return app("strings.ReplaceAll", as[:3]...)
		}
	case "strings.TrimSuffix":
		if p := as[0]; p.isApp("path") && len(p.args) > 1 {
			last, k := p.args[len(p.args)-1].strVal()
			x, k2 := as[1].strVal()
			if k && k2 && len(x) < len(last) && strings.HasSuffix(last, x) {
				return path(append(append([]*Term{}, p.args[:len(p.args)-1]...), tStr(strings.TrimSuffix(last, x)))...)
			}
		}
		if as[0].isApp("cat") {
			l := as[0].args[len(as[0].args)-1]
			if l == as[1] {
				return cat(as[0].args[:len(as[0].args)-1]...)
			}
		}
	case "bytes.TrimPrefix":
		n = "strings.TrimPrefix"
	case "bytes.HasPrefix":
		n = "strings.HasPrefix"
	case "bytes.Equal":
		return mk("cmp", strconv.Itoa(mEQ), as[0], as[1])
	case "strings.EqualFold":
	}
	if n == "strings.HasPrefix" || n == "strings.HasSuffix" {
		if x, ok := as[0].strVal(); ok {
			if y, ok := as[1].strVal(); ok {
				if n == "strings.HasPrefix" {
					return tBool(strings.HasPrefix(x, y))
				}
				return tBool(strings.HasSuffix(x, y))
			}
		}
		if as[0].isApp("cat") || as[0].isApp("path") {
			if y, ok := as[1].strVal(); ok {
				l := as[0].args[len(as[0].args)-1]
				if as[0].isApp("path") && l.isApp("cat") {
					l = l.args[len(l.args)-1]
				}
				if n == "strings.HasPrefix" {
					l = as[0].args[0]
				}
				if x, ok := l.strVal(); ok && len(x) >= len(y) {
					if n == "strings.HasPrefix" {
						return tBool(strings.HasPrefix(x, y))
					}
					return tBool(strings.HasSuffix(x, y))
				}
			}
		}
	}
	if n == "strings.ToLower" || n == "strings.TrimSpace" || n == "strings.ToUpper" {
		if x, ok := as[0].strVal(); ok {
			switch n {
			case "strings.ToLower":
				return tStr(strings.ToLower(x))
			case "strings.TrimSpace":
				return tStr(strings.TrimSpace(x))
			}
		}
	}
	return app(n, as...)
}

func sprintf(as []*Term) *Term {
	f, ok := as[0].strVal()
	if !ok || len(as) < 2 {
		return nil
	}
	var vals []*Term
	if as[1].op == "list" {
		vals = as[1].args
	} else if as[1] != tNil {
		return nil
	}
	var out []*Term
	vi := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = append(out, tStr(f[i:i+j]))
			i += j - 1
			continue
		}
		if i+1 >= len(f) {
			return nil
		}
		i++
		if f[i] == '%' {
			out = append(out, tStr("%"))
			continue
		}
		if vi >= len(vals) {
			return nil
		}
		v := vals[vi]
		vi++
		isStr := false
		if v.typ != nil {
			if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 || isByteSlice(v.typ) {
				isStr = true
			}
		}
		if _, ok := v.strVal(); ok || v.isApp("cat") || v.isApp("path") {
			isStr = true
		}
		switch f[i] {
		case 's':
			out = append(out, v)
		case 'v':
			if isStr {
				out = append(out, v)
			} else if _, ok := v.intVal(); ok || v.typ != nil && isInt(v.typ) {
				out = append(out, app("dec", v))
			} else if v.typ != nil && isBool(v.typ) {
				out = append(out, app("boolstr", v))
			} else {
				out = append(out, app("fmtv", v))
			}
		case 'd':
			out = append(out, app("dec", v))
		case 't':
			out = append(out, app("boolstr", v))
		case 'x':
			out = append(out, app("hex", v))
		default:
			return nil
		}
	}
	if vi != len(vals) {
		return nil
	}
	return cat(out...)
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// special models of library behaviour.
func (fr *frame) special(cs *callSite, ev func(*State, int, []*Term)) ([]*callRes, bool) {
	e, st := fr.e, cs.c.st
	one := func(ts ...*Term) ([]*callRes, bool) {
		ev(st, 0, ts)
		return []*callRes{{st, ts}}, true
	}
	fresh := func() *Term { return mk("alloc", cs.site, cs.active...) }
	n := cs.name
	if strings.HasPrefix(n, "slices.") {
		if i := strings.IndexByte(n, '['); i > 0 {
			n = n[:i]
		}
	}
	switch n {
	case "crypto/sha1.New", "crypto/sha256.New", "crypto/sha512.New", "crypto/md5.New":
		t := fresh()
		kind := strings.TrimSuffix(n[len("crypto/"):], ".New")
		st.heap[mk("hash", "", t)] = tStr(kind)
		st.heap[mk("hashdata", "", t)] = mk("list", "")
		return one(t)
	case "hash.Hash.Write", "io.Writer.Write":
		if d := st.heap[mk("hashdata", "", cs.args[0])]; d != nil {
			st.heap[mk("hashdata", "", cs.args[0])] = mk("list", "", append(append([]*Term{}, d.args...), cs.args[1])...)
			return one(app("len", cs.args[1]), tNil)
		}
	case "io.Copy":
		if d := st.heap[mk("hashdata", "", cs.args[0])]; d != nil {
			s2 := st.clone()
			st.heap[mk("hashdata", "", cs.args[0])] = mk("list", "", append(append([]*Term{}, d.args...), app("content", cs.args[1]))...)
			r1 := []*Term{app("copied", cs.args...), tNil}
			ev(st, 1, r1)
			r2 := []*Term{app("copied", cs.args...), mk("err", cs.site, cs.active...)}
			ev(s2, 2, r2)
			return []*callRes{{st, r1}, {s2, r2}}, true
		}
	case "io.WriteString":
		if d := st.heap[mk("hashdata", "", cs.args[0])]; d != nil {
			st.heap[mk("hashdata", "", cs.args[0])] = mk("list", "", append(append([]*Term{}, d.args...), cs.args[1])...)
			return one(app("len", cs.args[1]), tNil)
		}
	case "hash.Hash.Sum":
		if d := st.heap[mk("hashdata", "", cs.args[0])]; d != nil {
			k := st.heap[mk("hash", "", cs.args[0])]
			s, _ := k.strVal()
			return one(app("digest:"+s, append(append([]*Term{}, d.args...), prefixArg(cs.args[1])...)...))
		}
	case "crypto/sha1.Sum", "crypto/sha256.Sum256":
		k := strings.TrimPrefix(n, "crypto/")
		k = k[:strings.IndexByte(k, '.')]
		return one(app("digest:"+k, cs.args[0]))
	case "sort.Strings", "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "sort.Ints":
		ev(st, 0, nil)
		fr.sorted(cs, n)
		return []*callRes{{st, nil}}, true
	case "sync.Once.Do":
		ev(st, 0, nil)
		s2 := st.clone()
		done := mk("app", "oncedone", cs.args[0])
		var out []*callRes
		if v, ok := s2.facts.boolv[done]; !ok || v {
			s2.facts.boolv[done] = true
			out = append(out, &callRes{s2, nil})
		}
		if v, ok := st.facts.boolv[done]; !ok || !v {
			st.facts.boolv[done] = true
			c2 := cs.c.fork()
			c2.st = st
			fn := cs.args[1]
			if fn.op == "closure" || fn.op == "func" {
				for _, r := range fr.callFn(&callSite{fr: fr, c: c2, in: cs.in, args: nil, sig: cs.sig, site: cs.site, active: cs.active, common: cs.common}, e.funcs[fn.aux], fn.args) {
					out = append(out, &callRes{r.st, nil})
				}
			} else {
				out = append(out, &callRes{st, nil})
			}
		}
		return out, true
	case "path/filepath.Walk", "path/filepath.WalkDir":
		fn := cs.args[1]
		site := cs.site + "#W"
		sym := mk("loop", site, cs.active...)
		info := mk("call", site+":info", cs.args[0], sym)
		p := mk("call", site+":path", cs.args[0], sym)
		return fr.callbackLoop(cs, site, sym, mk("app", "tree", cs.args[0]), func(s *State) []*Outcome {
			var outs []*Outcome
			for _, er := range []*Term{tNil, mk("err", site, sym)} {
				outs = append(outs, fr.runFn(cs, s.clone(), fn, []*Term{p, info, er}, append(append([]*Term{}, cs.active...), sym))...)
			}
			return outs
		}, func(s *State, ok int, res []*Term) { ev(s, ok, res) }), true
	case "bytes.NewBuffer", "bytes.NewReader", "strings.NewReader", "bytes.NewBufferString", "bufio.NewReader", "bufio.NewWriter", "io.TeeReader", "io.MultiWriter", "io.LimitReader":
		return one(app(n, cs.args...))
	case "bytes.Buffer.Reset", "bytes.Buffer.Bytes", "bytes.Buffer.String":
	case "slices.Contains":
		return one(mk("app", "in", cs.args[0], cs.args[1]))
	case "errors.Is":
		return one(mk("cmp", strconv.Itoa(mEQ), cs.args[0], cs.args[1]))
	case "encoding/binary.bigEndian.PutUint64", "encoding/binary.littleEndian.PutUint64":
		buf := cs.args[len(cs.args)-2]
		k := "be64"
		if strings.Contains(n, "little") {
			k = "le64"
		}
		e.store(st, buf, app(k, cs.args[len(cs.args)-1]))
		return one()
	case "encoding/binary.bigEndian.AppendUint64":
		return one(app("be64", cs.args[len(cs.args)-1]))
	case "os/exec.Command":
		t := fresh()
		st.heap[mk("cmd", "", t)] = mk("list", "", cs.args...)
		return one(t)
	case "time.Now":
		t := mk("call", cs.site+":now", cs.active...)
		return one(t)
	}
	return nil, false
}

func prefixArg(a *Term) []*Term {
	if a == tNil {
		return nil
	}
	return []*Term{mk("prefix", "", a)}
}

func (fr *frame) runFn(cs *callSite, s *State, fn *Term, args []*Term, active []*Term) []*Outcome {
	e := fr.e
	if fn.op != "closure" && fn.op != "func" {
		return []*Outcome{{s, e.opaqueResults(cs.sig, cs.site, active)}}
	}
	f := e.funcs[fn.aux]
	if f == nil || f.Blocks == nil {
		return []*Outcome{{s, []*Term{tNil}}}
	}
	return e.run(f, args, fn.args, s, fr.subctx(cs.in)+iterTag(active), active)
}

// callbackLoop runs a callback zero or more times; a non-nil result stops it.
func (fr *frame) callbackLoop(cs *callSite, site string, sym, over *Term, body func(*State) []*Outcome, ev func(*State, int, []*Term)) []*callRes {
	e := fr.e
	type wi struct{ s *State }
	seen := map[string]*State{}
	var work []*State
	var exits []*State
	exitKey := map[string]int{}
	var out []*callRes
	start := cs.c.st.clone()
	start.endIter(site)
	add := func(s *State) {
		k := s.shapeKey()
		if o, ok := seen[k]; ok {
			if o.join(s) {
				work = append(work, o)
			}
			return
		}
		seen[k] = s
		work = append(work, s)
	}
	add(start)
	rounds := 0
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		rounds++
		if rounds > 400 {
			e.problem("callback loop does not converge at " + e.P.pos(instrPos(cs.in)))
			break
		}
		// exit here
		x := s.clone()
		k := x.shapeKey()
		if i, ok := exitKey[k]; ok {
			exits[i].join(x)
		} else {
			exitKey[k] = len(exits)
			exits = append(exits, x)
		}
		b := s.clone()
		e.emit(b, &Event{kind: "loop.iter", name: site, args: []*Term{sym, over}, in: cs.in, fn: fr.fn, ctx: fr.ctx})
		entryHeap := s.heap
		for _, o := range body(b) {
			r := tNil
			if len(o.rets) > 0 {
				r = o.rets[len(o.rets)-1]
			}
			m := o.st.facts.maskOf(r, tNil)
			if m&mEQ != 0 {
				s2 := o.st.clone()
				if s2.facts.assume(r, tNil, mEQ) {
					e.emit(s2, &Event{kind: "loop.back", name: site, args: []*Term{sym, over}, in: cs.in, fn: fr.fn, ctx: fr.ctx, vars: heapChanges(entryHeap, s2.heap)})
					for k, v := range s2.heap {
						ov := entryHeap[k]
						if ov == nil && (v.op == "list" || v.op == "set") && v.mentions("loop:"+site) && !k.mentions("loop:"+site) {
							ov = tNil
						}
						if ov != nil && ov != v {
							s2.heap[k] = widen(site, "h"+strconv.Itoa(k.id), sym, ov, v, s2.facts)
						}
					}
					s2.endIter(site)
					add(s2)
				}
			}
			if m&mNE != 0 {
				s2 := o.st
				if s2.facts.assume(r, tNil, mNE) {
					e.emit(s2, &Event{kind: "loop.break", name: site, args: []*Term{sym, over}, in: cs.in, fn: fr.fn, ctx: fr.ctx})
					ev(s2, 2, []*Term{r})
					out = append(out, &callRes{s2, []*Term{r}})
				}
			}
		}
	}
	for _, s := range exits {
		e.emit(s, &Event{kind: "loop.done", name: site, args: []*Term{sym, over}, in: cs.in, fn: fr.fn, ctx: fr.ctx})
		ev(s, 1, []*Term{tNil})
		out = append(out, &callRes{s, []*Term{tNil}})
	}
	// the iteration itself can fail
	if len(exits) > 0 {
		s := start.clone()
		er := mk("err", site, cs.active...)
		ev(s, 2, []*Term{er})
		out = append(out, &callRes{s, []*Term{er}})
	}
	return out
}

// ---- the database ----

func rootDb(b *Term) *Term {
	for b.op == "bucket" {
		b = b.args[1]
	}
	return b
}
func canonDb(b *Term) *Term {
	switch b.op {
	case "bucket":
		return mk("bucket", "", b.args[0], canonDb(b.args[1]))
	case "tx":
		return canonDb(b.args[0])
	}
	return b
}
func inTx(b *Term) bool { return rootDb(b).op == "tx" }

// bucketNames lists the names of a bucket, outermost first.
func bucketNames(b *Term) []*Term {
	var r []*Term
	for b.op == "bucket" {
		r = append([]*Term{b.args[0]}, r...)
		b = b.args[1]
	}
	return r
}

// bucketKind: "pool", "repo", "package", "deltaSkip", "Async"… or "?".
func bucketKind(b *Term) string {
	ns := bucketNames(b)
	if len(ns) == 0 {
		return "root"
	}
	if s, ok := ns[len(ns)-1].strVal(); ok {
		return s
	}
	return "?"
}

func (fr *frame) dbCall(cs *callSite, m string) []*callRes {
	e, st := fr.e, cs.c.st
	b := cs.args[0]
	cb := canonDb(b)
	ev := func(s *State, op string, ok int, args []*Term, res []*Term) {
		e.emit(s, &Event{kind: "db", name: op, args: args, res: res, ok: ok, in: cs.in, fn: fr.fn, ctx: fr.ctx, site: cs.site})
	}
	errT := mk("err", cs.site, cs.active...)
	ok := func(s *State, ts ...*Term) *callRes { return &callRes{s, ts} }
	switch m {
	case "Bucket":
		return []*callRes{ok(st, mk("bucket", "", e.bytesOf(st, cs.args[1]), b))}
	case "Close":
		ev(st, "close", 0, []*Term{cb, cs.args[0]}, nil)
		return []*callRes{{st, nil}}
	case "NextSequence":
		t := mk("seq", cs.site, append([]*Term{cb}, cs.active...)...)
		ev(st, "next", 0, []*Term{cb}, []*Term{t})
		return []*callRes{ok(st, t)}
	case "View", "Update":
		sub := b
		if m == "Update" {
			// the transaction handle of this bucket
			sub = txOf(b)
			ev(st, "begin", 0, []*Term{cb, b}, nil)
		}
		snap := map[*Term]*Term{}
		for k, v := range st.heap {
			if k.op == "dbcell" {
				snap[k] = v
			}
		}
		snapHas := map[*Term]bool{}
		for k, v := range st.facts.boolv {
			if k.isApp("dbhas") {
				snapHas[k] = v
			}
		}
		var out []*callRes
		for _, o := range fr.runFn(cs, st.clone(), cs.args[1], []*Term{sub}, cs.active) {
			r := o.rets[len(o.rets)-1]
			mm := o.st.facts.maskOf(r, tNil)
			abort := func(s *State, r *Term) {
				if m == "Update" {
					ev(s, "abort", 0, []*Term{cb}, []*Term{r})
					for k := range s.heap {
						if k.op == "dbcell" {
							if _, ok := snap[k]; !ok {
								delete(s.heap, k)
							}
						}
					}
					for k, v := range snap {
						s.heap[k] = v
					}
					for k := range s.facts.boolv {
						if k.isApp("dbhas") {
							if _, ok := snapHas[k]; !ok {
								delete(s.facts.boolv, k)
							}
						}
					}
					for k, v := range snapHas {
						s.facts.boolv[k] = v
					}
				}
				out = append(out, ok(s, r))
			}
			if mm&mNE != 0 {
				s := o.st.clone()
				if s.facts.assume(r, tNil, mNE) {
					abort(s, r)
				}
			}
			if mm&mEQ != 0 {
				s := o.st
				if s.facts.assume(r, tNil, mEQ) {
					if m == "Update" {
						s2 := s.clone()
						ev(s, "commit", 1, []*Term{cb}, nil)
						out = append(out, ok(s, tNil))
						abort(s2, errT)
					} else {
						out = append(out, ok(s, tNil))
					}
				}
			}
		}
		return out
	case "GetObject":
		key, outp := e.bytesOf(st, cs.args[1]), cs.args[2]
		has := mk("app", "dbhas", cb, key)
		s1, s2 := st.clone(), st
		var out []*callRes
		cell := st.heap[mk("dbcell", "", cb, key)]
		if cell == nil || cell.op != "deleted" {
			if e.assumeBool(s1, has, true) {
				v := cell
				if v == nil {
					v = mk("loaded", "", cb, key)
				}
				was := e.before(s1, outp)
				e.store(s1, outp, v)
				e.emit(s1, &Event{kind: "db", name: "get", args: []*Term{cb, key, outp, v}, ok: 1, in: cs.in, fn: fr.fn, ctx: fr.ctx, site: cs.site, prev: was})
				out = append(out, ok(s1, tNil))
			}
		}
		if e.readFork {
			s3 := s2.clone()
			ev(s3, "get", 3, []*Term{cb, key, outp}, []*Term{mk("err", cs.site+"!", cs.active...)})
			out = append(out, ok(s3, mk("err", cs.site+"!", cs.active...)))
			if e.assumeBool(s2, has, false) {
				ev(s2, "get", 2, []*Term{cb, key, outp}, []*Term{errT})
				out = append(out, ok(s2, errT))
			}
			return out
		}
		if !e.assumeBool(s2, has, false) {
			// known to be there: a broken read
		}
		ev(s2, "get", 2, []*Term{cb, key, outp}, []*Term{errT})
		out = append(out, ok(s2, errT))
		return out
	case "HasObject":
		key := e.bytesOf(st, cs.args[1])
		has := mk("app", "dbhas", cb, key)
		s2 := st.clone()
		ev(st, "has", 1, []*Term{cb, key}, []*Term{has})
		ev(s2, "has", 2, []*Term{cb, key}, []*Term{errT})
		return []*callRes{ok(st, has, tNil), ok(s2, tFalse, errT)}
	case "PutObject", "DeleteObject":
		key := e.bytesOf(st, cs.args[1])
		op := "put"
		args := []*Term{cb, key, tNil, tBool(inTx(b))}
		var v *Term
		if m == "PutObject" {
			v = e.content(st, cs.args[2])
			args[2] = v
			args = append(args, cs.args[2])
		} else {
			op = "delete"
			v = mk("deleted", "")
		}
		prevCell, prevHas := st.heap[mk("dbcell", "", cb, key)], st.facts.maskBool(mk("app", "dbhas", cb, key))
		if prevCell == nil && prevHas != 2 {
			prevCell = mk("loaded", "", cb, key)
		}
		s2 := st.clone()
		for k := range st.heap {
			if k.op == "dbcell" && k.args[0] == cb && k.args[1] != key && st.facts.maskOf(k.args[1], key)&mEQ != 0 && !(k.args[1].isConst() && key.isConst()) {
				delete(st.heap, k)
			}
		}
		st.heap[mk("dbcell", "", cb, key)] = v
		st.facts.boolv[mk("app", "dbhas", cb, key)] = m == "PutObject"
		evp := func(s *State, o int, r []*Term) {
			e.emit(s, &Event{kind: "db", name: op, args: args, res: r, ok: o, in: cs.in, fn: fr.fn, ctx: fr.ctx, site: cs.site, prev: prevCell, had: prevHas})
		}
		evp(st, 1, nil)
		evp(s2, 2, []*Term{errT})
		return []*callRes{ok(st, tNil), ok(s2, errT)}
	case "Decode":
		in, outp := cs.args[1], cs.args[2]
		s2 := st.clone()
		v := mk("decoded", cs.site, append([]*Term{in}, cs.active...)...)
		if in.op == "dbval" {
			v = mk("loaded", "", in.args[0], in.args[1])
			if c := st.heap[mk("dbcell", "", in.args[0], in.args[1])]; c != nil && c.op != "deleted" {
				v = c
			}
		}
		// a decoder merges into the object it is given: known fields written before stay only if absent from the input
		was := e.before(st, outp)
		e.store(st, outp, v)
		e.emit(st, &Event{kind: "db", name: "decode", args: []*Term{in, outp, v}, ok: 1, in: cs.in, fn: fr.fn, ctx: fr.ctx, site: cs.site, prev: was})
		ev(s2, "decode", 2, []*Term{in, outp}, []*Term{errT})
		return []*callRes{ok(st, tNil), ok(s2, errT)}
	case "ForEach":
		site := cs.site + "#FE"
		sym := mk("loop", site, cs.active...)
		k := mk("iterk", "", cb, sym)
		v := mk("dbval", "", cb, k)
		ev(st, "foreach", 0, []*Term{cb, b}, nil)
		return fr.callbackLoop(cs, site, sym, cb, func(s *State) []*Outcome {
			s.facts.boolv[mk("app", "dbhas", cb, k)] = true
			return fr.runFn(cs, s, cs.args[1], []*Term{k, v}, append(append([]*Term{}, cs.active...), sym))
		}, func(s *State, o int, res []*Term) { ev(s, "foreach.end", o, []*Term{cb}, res) })
	}
	e.problem("database method " + m + " not modelled")
	return []*callRes{{st, e.opaqueResults(cs.sig, cs.site, cs.active)}}
}

func txOf(b *Term) *Term {
	if b.op == "bucket" {
		return mk("bucket", "", b.args[0], txOf(b.args[1]))
	}
	if b.op == "tx" {
		return b
	}
	return mk("tx", "", b)
}

// sorted records that a slice has been sorted and by what.
func (fr *frame) sorted(cs *callSite, n string) {
	st := cs.c.st
	x := cs.args[0]
	kind := n
	if x.isApp("sort.Reverse") {
		kind += ".Reverse"
		x = x.args[0]
	}
	if x == tNil {
		return
	}
	st.heap[mk("sorted", "", skel(x))] = tStr(kind + ":" + typeName(argType(cs)))
	if n == "sort.Slice" || n == "sort.SliceStable" || strings.HasPrefix(n, "slices.SortFunc") || strings.HasPrefix(n, "slices.SortStableFunc") {
		if d := fr.comparator(cs, n, x); d != nil {
			st.heap[mk("sorted", "", skel(x))] = d
		}
	}
}

func argType(cs *callSite) types.Type {
	v := cs.common.Args[0]
	for {
		switch y := v.(type) {
		case *ssa.MakeInterface:
			v = y.X
			continue
		case *ssa.Call:
			if f := y.Call.StaticCallee(); f != nil && f.String() == "sort.Reverse" {
				v = y.Call.Args[0]
				continue
			}
		}
		return v.Type()
	}
}

// comparator evaluates a less/cmp closure symbolically: the term it returns
// for two symbolic elements.
func (fr *frame) comparator(cs *callSite, n string, x *Term) *Term {
	e := fr.e
	fn := cs.args[1]
	if fn.op != "closure" && fn.op != "func" {
		return nil
	}
	i, j := mk("param", "i"), mk("param", "j")
	if strings.HasPrefix(n, "slices.") {
		i, j = mk("elem", "", x, i), mk("elem", "", x, j)
	}
	mon := e.mon
	e.mon = nil
	s := cs.c.st.clone()
	outs := fr.runFn(cs, s, fn, []*Term{i, j}, cs.active)
	e.mon = mon
	if len(outs) == 1 && len(outs[0].rets) == 1 {
		return mk("cmpfn", "", outs[0].rets[0])
	}
	return mk("cmpfn", "")
}

var _ = constant.MakeBool

// before: what an object about to be decoded into already holds; nil if it
// is pristine.
func (e *Engine) before(st *State, p *Term) *Term {
	if p.op != "alloc" && p.op != "addr" {
		return nil
	}
	zero := func(v *Term) bool {
		if v == tNil || v == tFalse || v.op == "zero" || v.op == "zerofld" {
			return true
		}
		if n, ok := v.intVal(); ok && n == 0 {
			return true
		}
		x, ok := v.strVal()
		return ok && x == ""
	}
	if v := st.heap[p]; v != nil && !zero(v) {
		if v.op != "struct" || v.args[0].op != "zero" {
			return v
		}
		for i := 1; i+1 < len(v.args); i += 2 {
			if f, _ := v.args[i].strVal(); f != "" && f[0] >= 'A' && f[0] <= 'Z' && !zero(v.args[i+1]) {
				return v
			}
		}
	}
	for k, v := range st.heap {
		if k.op == "addr" && k.args[0] == p && k.aux != "" && k.aux[0] >= 'A' && k.aux[0] <= 'Z' && !zero(v) {
			return v
		}
	}
	return nil
}
