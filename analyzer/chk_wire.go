package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The management interface: command line -> client library -> HTTP request ->
// route -> handler -> queued job -> job handler -> operation. Every stage is
// executed symbolically on its own and the results are composed, so that the
// arguments of the operation are known as terms over the command's arguments.

func init() {
	register("C25", "every command's arguments reach the operation it names in the right roles", checkC25)
	register("C26", "every queued kind of job is recognised and rebuilt from what was stored", checkC26)
	register("C27", "client and daemon agree on routes, methods, messages and errors", checkC27)
	register("C28", "a request queues exactly one job, or is answered with an error", checkC28)
}

const clientPath = repoPath + "src/libferry.Client."

type wireReq struct {
	method string
	segs   []*Term
	gap    bool // the path has empty segments and relies on being redirected
	body   *Term
	bodyT  types.Type
	why    string // why it couldn't be understood
}

type route struct {
	method, pattern string
	name            string
	fn              *ssa.Function
	free            []*Term
	funcs           map[string]*ssa.Function
}

// what a handler does with a request
type served struct {
	r       *route
	jobs    []*Term // struct(Type, Params, sequential)
	ops     []string
	reads   types.Type // message decoded from the body
	decSite *Term
	writes  []types.Type
}

type wire struct {
	c       *Ctx
	routes  []*route
	noFix   bool
	served  map[*route]*served
	msgType map[string]types.Type
	execs   map[string][]*execd
}

func newWire(c *Ctx) *wire {
	return &wire{c: c, served: map[*route]*served{}, msgType: map[string]types.Type{}, execs: map[string][]*execd{}}
}

// ---- requests ----

// segments of a request's path
func urlSegs(u *Term) (segs []*Term, gap bool, why string) {
	var parts []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		switch {
		case t.isApp("cat"):
			for _, a := range t.args {
				flat(a)
			}
		case t.isApp("path"):
			for i, a := range t.args {
				if i > 0 {
					parts = append(parts, tStr("/"))
				}
				flat(a)
			}
		default:
			parts = append(parts, t)
		}
	}
	flat(u)
	var cur []*Term
	started := false
	text := ""
	flush := func(last bool) {
		switch len(cur) {
		case 0:
			if !last {
				gap = true
			}
		case 1:
			segs = append(segs, cur[0])
		default:
			why = "a path segment is put together from several parts"
		}
		cur = nil
	}
	for _, p := range parts {
		s, ok := p.strVal()
		if !ok {
			if !started {
				return nil, false, "the address of the daemon is not constant"
			}
			cur = append(cur, p)
			continue
		}
		if !started {
			text += s
			i := strings.Index(text, "://")
			if i < 0 {
				continue
			}
			k := strings.Index(text[i+3:], "/")
			if k < 0 {
				continue
			}
			started = true
			s = text[i+3+k+1:]
		}
		for {
			i := strings.IndexByte(s, '/')
			if i < 0 {
				break
			}
			if i > 0 {
				cur = append(cur, tStr(s[:i]))
			}
			flush(false)
			s = s[i+1:]
		}
		if s != "" {
			cur = append(cur, tStr(s))
		}
	}
	if !started {
		return nil, false, "the request has no path"
	}
	flush(true)
	return
}

// bodyOf unwraps readers down to the buffer or bytes they read.
func bodyOf(t *Term) *Term {
	for {
		switch {
		case callOf(t, "bytes.NewReader") != nil, callOf(t, "bytes.NewBuffer") != nil:
			t = t.args[0]
		case t.op == "app" && (t.aux == "bytes.NewReader" || t.aux == "bytes.NewBuffer" || t.aux == "bytes.Buffer.Bytes"):
			t = t.args[0]
		default:
			return t
		}
	}
}

// wireWatch tracks encoded messages and reports each request that is sent.
func (w *wire) wireWatch(e *Engine, s *State, ev *Event) *wireReq {
	if ev.kind != "call" {
		return nil
	}
	msg := func(v *Term) *Term {
		t := v.typ
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if t == nil {
			return nil
		}
		w.msgType[t.String()] = t
		return mk("msg", t.String(), e.content(s, v))
	}
	var method string
	var url, body *Term
	switch ev.name {
	case "encoding/json.Encoder.Encode":
		if b := callOf(ev.args[0], "encoding/json.NewEncoder"); b != nil && ev.ok != 2 {
			if m := msg(ev.args[1]); m != nil {
				s.set("body:"+b.String(), m)
			}
		}
		return nil
	case "encoding/json.Marshal", "encoding/json.MarshalIndent":
		if ev.ok != 2 {
			if m := msg(ev.args[0]); m != nil {
				s.set("body:"+ev.res[0].String(), m)
			}
		}
		return nil
	case "net/http.Client.Get":
		method, url = "GET", ev.args[1]
	case "net/http.Client.Head":
		method, url = "HEAD", ev.args[1]
	case "net/http.Client.PostForm":
		method, url = "POST", ev.args[1]
	case "net/http.Client.Post":
		method, url, body = "POST", ev.args[1], ev.args[3]
	case "net/http.Client.Do":
		q := ev.args[1]
		if q.op != "call" {
			return &wireReq{why: "the request is not built in a recognised way"}
		}
		i := 0
		switch {
		case callOf(q, "net/http.NewRequest") != nil:
		case callOf(q, "net/http.NewRequestWithContext") != nil:
			i = 1
		default:
			return &wireReq{why: "the request is not built in a recognised way"}
		}
		m, ok := q.args[i].strVal()
		if !ok {
			return &wireReq{why: "the request's method is not constant"}
		}
		if method = m; m == "" {
			method = "GET"
		}
		url = q.args[i+1]
		if q.args[i+2] != tNil {
			body = q.args[i+2]
		}
	default:
		return nil
	}
	if ev.ok == 2 {
		return nil
	}
	r := &wireReq{method: method}
	r.segs, r.gap, r.why = urlSegs(url)
	if body != nil {
		m := s.get("body:" + bodyOf(body).String())
		if m == nil {
			r.why = "the message sent with the request is not known"
			return r
		}
		r.body, r.bodyT = m.args[0], w.msgType[m.aux]
	}
	return r
}

// ---- routes ----

func (w *wire) findRoutes() {
	c := w.c
	sets := 0
	seen := map[string]*route{}
	common := map[string]int{}
	routers := []string{"github.com/julienschmidt/httprouter.Router."}
	c.run("ferryd.NewServer", monFunc(func(e *Engine, s *State, ev *Event) {
		if ev.kind == "store" && ev.args[0].op == "addr" && ev.args[0].aux == "RedirectFixedPath" && ev.args[1] != tTrue {
			w.noFix = true
		}
		if ev.kind == "call" {
			for _, p := range routers {
				if !strings.HasPrefix(ev.name, p) {
					continue
				}
				m, as := strings.TrimPrefix(ev.name, p), ev.args
				switch m {
				case "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS":
				case "Handle":
					x, ok := as[1].strVal()
					if !ok {
						e.violate(s, ev, "undecided", "router", "a route is registered for an unknown method")
						return
					}
					m, as = x, as[1:]
				case "New":
					return
				default:
					e.violate(s, ev, "undecided", "router", "use of the router's "+m+" is not understood")
					return
				}
				pat, ok := as[1].strVal()
				h := as[2]
				if !ok || h.op != "closure" && h.op != "func" || e.funcs[h.aux] == nil {
					e.violate(s, ev, "undecided", "router", "a route's pattern or handler is not known")
					return
				}
				k := m + " " + pat
				if seen[k] == nil {
					fn := e.funcs[h.aux]
					r := &route{method: m, pattern: pat, fn: fn, funcs: e.funcs, name: fn.String()}
					r.name = strings.TrimSuffix(shortFn(fn), "$bound")
					for _, x := range h.args {
						r.free = append(r.free, x.subst(func(t *Term) *Term {
							if t.op == "alloc" && t.typ != nil && typeName(t.typ) == "main.Server" {
								return mk("param", "self")
							}
							return nil
						}, map[*Term]*Term{}))
					}
					seen[k] = r
				}
				s.addTo("routes", tStr(k))
			}
		}
		if isEntryRet(ev) && okRet(ev) {
			sets++
			for _, t := range s.all("routes") {
				k, _ := t.strVal()
				common[k]++
			}
		}
	}), runOpt{pkgs: []string{"ferryd"}})
	for k, r := range seen {
		if common[k] < sets {
			c.violate("routes", "ferryd.NewServer", k, c.P.pos(r.fn.Pos()), "the route "+k+" is not registered on every path that starts the server")
			continue
		}
		w.routes = append(w.routes, r)
	}
	sort.Slice(w.routes, func(i, j int) bool {
		return w.routes[i].pattern+w.routes[i].method < w.routes[j].pattern+w.routes[j].method
	})
	c.counts["routes"] += len(w.routes)
	c.require("routes", 12)
}

// match finds the route of a request and what its parameters are bound to.
func (w *wire) match(q *wireReq) (*route, map[string]*Term, string) {
	if q.why != "" {
		return nil, nil, q.why
	}
	if q.gap && w.noFix {
		return nil, nil, "the request's path has an empty segment and the router does not redirect such paths"
	}
	var best *route
	var bind map[string]*Term
	for _, r := range w.routes {
		if r.method != q.method {
			continue
		}
		ps := strings.Split(strings.TrimPrefix(r.pattern, "/"), "/")
		if len(ps) != len(q.segs) {
			continue
		}
		b := map[string]*Term{}
		ok := true
		for i, p := range ps {
			if strings.HasPrefix(p, ":") {
				x := q.segs[i]
				if x.isApp("net/url.PathEscape") {
					b[p[1:]] = x.args[0]
				} else if _, lit := x.strVal(); lit {
					b[p[1:]] = x
				} else {
					b[p[1:]] = app("unescaped", x)
				}
				continue
			}
			if x, lit := q.segs[i].strVal(); !lit || x != p {
				ok = false
				break
			}
		}
		if ok {
			if best != nil {
				return nil, nil, "the request matches more than one route"
			}
			best, bind = r, b
		}
	}
	if best == nil {
		var p []string
		for _, x := range q.segs {
			p = append(p, x.String())
		}
		return nil, nil, "no route for " + q.method + " /" + strings.Join(p, "/")
	}
	return best, bind, ""
}

// ---- handlers ----

func serverCall(ev *Event) string {
	for _, p := range []string{corePath + "Manager.", repoPath + "src/ferryd/jobs.JobStore."} {
		if ev.kind == "call" && strings.HasPrefix(ev.name, p) {
			return ev.name[strings.LastIndex(ev.name, "/")+1:]
		}
	}
	return ""
}

func isPush(ev *Event) bool {
	return ev.kind == "call" && ev.name == repoPath+"src/ferryd/jobs.Processor.PushJob"
}

// serverExt leaves the queue, the job store and the manager opaque.
func serverExt(P *Program) func(e *Engine, s *State, cs *callSite) ([]*callRes, bool) {
	return func(e *Engine, s *State, cs *callSite) ([]*callRes, bool) {
		for _, p := range []string{corePath + "Manager.", repoPath + "src/ferryd/jobs.JobStore.", repoPath + "src/ferryd/jobs.Processor."} {
			if strings.HasPrefix(cs.name, p) {
				return opaqueCall(e, s, cs), true
			}
		}
		return convExt(e, s, cs)
	}
}

// convExt evaluates conversions of constants.
func convExt(e *Engine, s *State, cs *callSite) ([]*callRes, bool) {
	if len(cs.args) == 0 {
		return nil, false
	}
	x, ok := cs.args[0].strVal()
	if !ok {
		return nil, false
	}
	num := func(i int, d int64) int64 {
		if i < len(cs.args) {
			if v, ok := cs.args[i].intVal(); ok {
				return v
			}
			return -1
		}
		return d
	}
	var v *Term
	var err error
	switch cs.name {
	case "strconv.ParseInt", "strconv.Atoi":
		var n int64
		n, err = strconv.ParseInt(x, int(num(1, 10)), int(num(2, 64)))
		v = tInt(n)
	case "strconv.ParseUint":
		var n uint64
		n, err = strconv.ParseUint(x, int(num(1, 10)), int(num(2, 64)))
		v = tInt(int64(n))
	case "strconv.ParseBool":
		var b bool
		b, err = strconv.ParseBool(x)
		v = tBool(b)
	default:
		return nil, false
	}
	er := tNil
	okv := 1
	if err != nil {
		er, okv = mk("err", cs.site, cs.active...), 2
	}
	e.emit(s, &Event{kind: "call", name: cs.name, args: cs.args, res: []*Term{v, er}, ok: okv, in: cs.in, fn: cs.fr.fn, ctx: cs.fr.ctx, site: cs.site})
	return []*callRes{{s, []*Term{v, er}}}, true
}

func (w *wire) serve(r *route) *served {
	if x := w.served[r]; x != nil {
		return x
	}
	sv := &served{r: r}
	w.served[r] = sv
	have := map[string]bool{}
	w.c.runFn(r.name, r.fn, monFunc(func(e *Engine, s *State, ev *Event) {
		if isPush(ev) && ev.ok != 2 {
			j := ev.args[1]
			t := mk("struct", "job", e.field(s, j, "Type"), e.field(s, j, "Params"), e.field(s, j, "sequential"), boolConds(s))
			if !have[t.String()] {
				have[t.String()] = true
				sv.jobs = append(sv.jobs, t)
			}
		}
		if n := serverCall(ev); n != "" && !have[n] {
			have[n] = true
			sv.ops = append(sv.ops, n)
		}
		if ev.kind != "call" || ev.ok == 2 {
			return
		}
		switch ev.name {
		case "encoding/json.Decoder.Decode", "encoding/json.Unmarshal":
			if fromBody(ev.args[0]) {
				if t := pointee(ev.args[1].typ); t != nil {
					sv.reads = t
				}
			}
		case "encoding/json.Encoder.Encode":
			if t := pointee(ev.args[1].typ); t != nil && !have["w"+t.String()] {
				have["w"+t.String()] = true
				sv.writes = append(sv.writes, t)
			}
		case "encoding/json.Marshal":
			if t := pointee(ev.args[0].typ); t != nil && !have["w"+t.String()] {
				have["w"+t.String()] = true
				sv.writes = append(sv.writes, t)
			}
		}
	}), runOpt{pkgs: []string{"ferryd", "jobs"}, ext: serverExt(w.c.P), free: r.free, funcs: r.funcs})
	sort.Strings(sv.ops)
	return sv
}

// boolConds lists what a path has established about the flags in a message.
func boolConds(s *State) *Term {
	var yes, no []*Term
	for k, v := range s.facts.boolv {
		if k.op == "fld" && k.args[0].op == "decoded" {
			if v {
				yes = append(yes, k)
			} else {
				no = append(no, k)
			}
		}
	}
	return mk("conds", "", mkSet(yes...), mkSet(no...))
}

func pointee(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---- messages ----

type jsonField struct {
	name, json string
	typ        types.Type
}

// jsonFields lists the fields of a message as they travel.
func jsonFields(t types.Type) (out []jsonField, bad string) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, "the message is not a structure"
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		n := strings.Split(tag, ",")[0]
		if f.Embedded() && n == "" {
			sub, b := jsonFields(pointee(f.Type()))
			if b == "" {
				out = append(out, sub...)
			}
			continue
		}
		if !f.Exported() || n == "-" {
			bad = "field " + f.Name() + " of " + typeName(t) + " does not travel"
			continue
		}
		if n == "" {
			n = f.Name()
		}
		out = append(out, jsonField{f.Name(), n, f.Type()})
	}
	for i, a := range out {
		for _, b := range out[:i] {
			if strings.EqualFold(a.json, b.json) {
				bad = "fields " + b.name + " and " + a.name + " of " + typeName(t) + " travel under the same name"
			}
		}
	}
	return
}

// compat: what is encoded from a is decoded into b without loss.
func compat(a, b types.Type, seen map[string]bool) string {
	a, b = pointee(a), pointee(b)
	k := a.String() + "|" + b.String()
	if seen[k] {
		return ""
	}
	seen[k] = true
	if pkg := pkgOf(a); types.Identical(a, b) && pkg != "" && !strings.HasPrefix(pkg, repoPath) {
		return ""
	}
	switch x := a.Underlying().(type) {
	case *types.Struct:
		if hasMethod(a, "MarshalJSON") || hasMethod(b, "UnmarshalJSON") {
			return "messages with their own encoding are not understood"
		}
		fa, bad := jsonFields(a)
		if bad != "" {
			return bad
		}
		fb, bad := jsonFields(b)
		if bad != "" {
			return bad
		}
		find := func(l []jsonField, n string) *jsonField {
			for i := range l {
				if strings.EqualFold(l[i].json, n) {
					return &l[i]
				}
			}
			return nil
		}
		for _, f := range fa {
			g := find(fb, f.json)
			if g == nil {
				return fmt.Sprintf("field %s sent in %s is not in %s", f.json, typeName(a), typeName(b))
			}
			if r := compat(f.typ, g.typ, seen); r != "" {
				return r
			}
		}
		for _, f := range fb {
			if find(fa, f.json) == nil {
				return fmt.Sprintf("field %s expected in %s is not sent in %s", f.json, typeName(b), typeName(a))
			}
		}
	case *types.Slice:
		y, ok := b.Underlying().(*types.Slice)
		if !ok {
			return fmt.Sprintf("%s is sent where %s is expected", a, b)
		}
		return compat(x.Elem(), y.Elem(), seen)
	default:
		if !types.Identical(a.Underlying(), b.Underlying()) {
			return fmt.Sprintf("%s is sent where %s is expected", a, b)
		}
	}
	return ""
}

func pkgOf(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path()
	}
	return ""
}

func hasMethod(t types.Type, m string) bool {
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, m)
	_, ok := o.(*types.Func)
	return ok
}

// ---- job handlers ----

type execd struct {
	handler string
	fields  map[string]*Term
	calls   []*Term // manager operations and queued jobs of a successful run
}

// dispatch rebuilds the handler of a stored job.
func (w *wire) dispatch(kind, params *Term) (out []*execd, refused bool) {
	c := w.c
	fn := c.P.fn("jobs.NewJobHandler")
	if fn == nil {
		c.violate("anchor", "", "jobs.NewJobHandler", "-", "not found")
		return
	}
	outs, e := c.runFn("jobs.NewJobHandler", fn, monFunc(func(e *Engine, s *State, ev *Event) { parseBase(c, e, s, ev) }), runOpt{pkgs: []string{"jobs"}, ext: convExt, setup: func(e *Engine, s *State, as []*Term) {
		s.heap[addrOf(as[0], "Type")] = kind
		s.heap[addrOf(as[0], "Params")] = params
	}})
	done := map[string]bool{}
	for _, o := range outs {
		if len(o.rets) != 2 || o.rets[1] != tNil {
			refused = true
			continue
		}
		h := o.rets[0]
		t, _ := pointee(h.typ).(*types.Named)
		if t == nil {
			c.violate("undecided", "jobs.NewJobHandler", kind.String(), c.P.pos(fn.Pos()), "the handler made for this kind is not known")
			continue
		}
		x := &execd{handler: t.Obj().Name(), fields: map[string]*Term{}}
		st, _ := t.Underlying().(*types.Struct)
		k := x.handler
		for i := 0; st != nil && i < st.NumFields(); i++ {
			f := st.Field(i).Name()
			x.fields[f] = e.field(o.st, h, f)
			k += "|" + x.fields[f].String()
		}
		if !done[k] {
			done[k] = true
			out = append(out, x)
		}
	}
	return
}

// parseBase: numbers are read the way they are written.
func parseBase(c *Ctx, e *Engine, s *State, ev *Event) {
	if ev.kind != "call" || ev.name != "strconv.ParseInt" && ev.name != "strconv.ParseUint" {
		return
	}
	b, ok := ev.args[1].intVal()
	n, ok2 := ev.args[2].intVal()
	if !ok || !ok2 || b != 10 || n != 0 && n < 32 {
		e.violate(s, ev, "number", ev.args[0].String(), "a number is read in another form or size than it is written")
	}
}

// execute runs a job handler whose fields are known.
func (w *wire) execute(x *execd) {
	c := w.c
	name := "jobs." + x.handler + ".Execute"
	seen := map[string]bool{}
	inl := c.jobInline()
	opq := opaqueManager(c.P)
	c.run(name, monFunc(func(e *Engine, s *State, ev *Event) {
		if ev.kind != "call" || ev.ok == 2 {
			return
		}
		var t *Term
		switch {
		case strings.HasPrefix(ev.name, corePath+"Manager."):
			t = mk("op", strings.TrimPrefix(ev.name, corePath+"Manager."), ev.args[1:]...)
		case isPush(ev):
			j := ev.args[1]
			t = mk("op", "PushJob", e.field(s, j, "Type"), e.field(s, j, "Params"))
		default:
			return
		}
		if !seen[t.String()] {
			seen[t.String()] = true
			x.calls = append(x.calls, t)
		}
	}), runOpt{inline: inl, ext: func(e *Engine, s *State, cs *callSite) ([]*callRes, bool) {
		if cs.name == repoPath+"src/ferryd/jobs.Processor.PushJob" {
			return opaqueCall(e, s, cs), true
		}
		return opq(e, s, cs)
	}, setup: func(e *Engine, s *State, as []*Term) {
		for f, v := range x.fields {
			s.heap[addrOf(as[0], f)] = v
		}
	}})
}

// ---- composition ----

// opsOf follows a request to the operations it causes, with their arguments
// in terms of the sender's.
func (w *wire) opsOf(q *wireReq) (ops []*Term, r *route, why string) {
	r, bind, why := w.match(q)
	if why != "" {
		return nil, nil, why
	}
	sv := w.serve(r)
	cache := map[*Term]*Term{}
	var sub func(t *Term) *Term
	sub = func(t *Term) *Term {
		if t.op == "call" && strings.HasSuffix(t.aux, "httprouter.Params.ByName.0") {
			if n, ok := t.args[1].strVal(); ok && bind[n] != nil {
				return bind[n]
			}
			why = "the handler reads a request parameter the route does not have"
		}
		if t.op == "fld" && len(t.args) == 1 && t.args[0].op == "decoded" {
			if fromBody(t.args[0].args[0]) {
				if q.body == nil {
					why = "the handler expects a message that is not sent"
					return nil
				}
				to, _ := jsonFields(sv.reads)
				from, _ := jsonFields(q.bodyT)
				for _, f := range to {
					if f.name != t.aux {
						continue
					}
					for _, g := range from {
						if strings.EqualFold(g.json, f.json) {
							return newEngine(w.c.P, monFunc(func(*Engine, *State, *Event) {})).fldOf(q.body, g.name)
						}
					}
				}
				why = "field " + t.aux + " is not sent with the request"
			}
		}
		return nil
	}
	for _, n := range sv.ops {
		ops = append(ops, mk("op", n))
	}
	for _, j := range sv.jobs {
		kind, params := j.args[0].subst(sub, cache), j.args[1].subst(sub, cache)
		conds := j.args[3].subst(sub, cache)
		if why != "" {
			return nil, r, why
		}
		key := kind.String() + "|" + params.String()
		xs, ok := w.execs[key]
		if !ok {
			xs, _ = w.dispatch(kind, params)
			for _, x := range xs {
				w.execute(x)
			}
			w.execs[key] = xs
		}
		if len(xs) == 0 {
			return nil, r, "the job queued for the request is refused when it is to be executed"
		}
		if len(xs) > 1 {
			return nil, r, "the job queued for the request has more than one interpretation"
		}
		for _, o := range xs[0].calls {
			ops = append(ops, mk("op", o.aux, append(append([]*Term{}, o.args...), conds)...))
		}
	}
	return ops, r, ""
}

// the operations that requests can ask for
var wireOps = map[string]bool{"CreateRepo": true, "DeleteRepo": true, "GetPackageNames": true, "Index": true, "AddPackages": true, "CloneRepo": true, "PullRepo": true, "RemoveSource": true, "CopySource": true, "TrimPackages": true, "TrimObsolete": true}

// ---- C25 ----

type command struct {
	words  string
	fn     *ssa.Function
	global string
}

// commands finds the commands of the tool: the words that select each one and
// the function that runs it.
func commands(c *Ctx) []*command {
	p := c.P.pkgs["cmd"]
	if p == nil {
		c.violate("anchor", "", "ferryctl/cmd", "-", "package not found")
		return nil
	}
	type cobra struct {
		use string
		run *ssa.Function
		up  string
	}
	cmds := map[string]*cobra{}
	byAlloc := map[ssa.Value]*cobra{}
	glob := func(v ssa.Value) string {
		if u, ok := v.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				return g.Name()
			}
		}
		return ""
	}
	isCobra := func(t types.Type) bool {
		return typeName(pointee(t)) == "cobra.Command"
	}
	var inits []*ssa.Function
	for _, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			inits = append(inits, f)
		}
	}
	each := func(f func(in ssa.Instruction)) {
		for _, fn := range inits {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					f(in)
				}
			}
		}
	}
	at := func(v ssa.Value) *cobra {
		if byAlloc[v] == nil {
			byAlloc[v] = &cobra{}
		}
		return byAlloc[v]
	}
	each(func(in ssa.Instruction) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isCobra(fa.X.Type()) {
			switch fieldName(fa.X.Type(), fa.Field) {
			case "Use":
				if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
					at(fa.X).use = constant.StringVal(k.Value)
				}
			case "Run", "RunE":
				v := st.Val
				if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				}
				if f, ok := v.(*ssa.Function); ok {
					at(fa.X).run = f
				}
			}
		}
		if g, ok := st.Addr.(*ssa.Global); ok && isCobra(st.Val.Type()) {
			cmds[g.Name()] = at(st.Val)
		}
	})
	each(func(in ssa.Instruction) {
		cl, ok := in.(*ssa.Call)
		if !ok || cl.Call.StaticCallee() == nil || cl.Call.StaticCallee().Name() != "AddCommand" || len(cl.Call.Args) != 2 {
			return
		}
		up := glob(cl.Call.Args[0])
		sl, ok := cl.Call.Args[1].(*ssa.Slice)
		if !ok {
			return
		}
		for _, r := range *sl.X.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
						if x := cmds[glob(st.Val)]; x != nil {
							x.up = up
						}
					}
				}
			}
		}
	})
	var out []*command
	for g, x := range cmds {
		if x.run == nil || x.up == "" {
			continue
		}
		words := ""
		if f := strings.Fields(x.use); len(f) > 0 {
			words = f[0]
		}
		for u, n := x.up, 0; u != "RootCmd" && cmds[u] != nil && n < 5; n++ {
			f := strings.Fields(cmds[u].use)
			if len(f) > 0 {
				words = f[0] + " " + words
			}
			u = cmds[u].up
		}
		out = append(out, &command{words, x.run, g})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].words < out[j].words })
	return out
}

// flags finds the variables that the tool's boolean flags are stored in.
func flagVars(c *Ctx) map[string]string {
	out := map[string]string{}
	for _, fn := range c.P.funcs {
		if fn.Pkg != c.P.pkgs["cmd"] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok || cl.Call.StaticCallee() == nil || !strings.HasPrefix(cl.Call.StaticCallee().Name(), "BoolVar") {
					continue
				}
				as := cl.Call.Args
				g, ok := as[1].(*ssa.Global)
				k, ok2 := as[2].(*ssa.Const)
				d, ok3 := as[len(as)-2].(*ssa.Const)
				if ok && ok2 && ok3 {
					n := constant.StringVal(k.Value)
					if d.Value != nil && constant.BoolVal(d.Value) {
						n += " (on unless switched off)"
					}
					out[g.Name()] = n
				}
			}
		}
	}
	return out
}

// expected operation of each command; "A0" is the first argument, "REL2" an
// optional positive number in the third one (-1 without it), "NUM1" a
// positive number, "flag:x" a flag, "PKGS" the packages found in the arguments
// from the second on.
var cmdSpec = map[string]string{
	"create-repo":     "CreateRepo A0",
	"remove repo":     "DeleteRepo A0",
	"delta":           "GetPackageNames A0",
	"index":           "Index A0",
	"import":          "AddPackages A0 PKGS false",
	"clone":           "CloneRepo A0 A1 flag:full",
	"pull":            "PullRepo A0 A1",
	"remove source":   "RemoveSource A0 A1 REL2",
	"copy source":     "CopySource A0 A1 A2 REL3 flag:skip-index",
	"trim packages":   "TrimPackages A0 NUM1",
	"trim obsolete":   "TrimObsolete A0",
	"reset completed": "jobs.JobStore.ResetCompleted",
	"reset failed":    "jobs.JobStore.ResetFailed",
}

func checkC25(c *Ctx) {
	w := newWire(c)
	w.findRoutes()
	flags := flagVars(c)
	have := map[string]bool{}
	for _, cm := range commands(c) {
		spec, ok := cmdSpec[cm.words]
		if !ok {
			continue
		}
		have[cm.words] = true
		c.counts["commands followed"]++
		w.followCommand(cm, strings.Fields(spec), flags)
	}
	for k := range cmdSpec {
		if !have[k] {
			c.violate("anchor", "", k, "-", "the command \""+k+"\" was not found: its arguments cannot be followed")
		}
	}
	c.require("commands followed", 13)
	checkEopkgs(c)
}

func (w *wire) followCommand(cm *command, spec []string, flags map[string]string) {
	c := w.c
	args := mk("param", cm.fn.Params[len(cm.fn.Params)-1].Name())
	arg := func(i int) *Term { return mk("elem", "", args, tInt(int64(i))) }
	lenT := mk("len", "", args)
	nargs, opt := 0, false
	for _, x := range spec[1:] {
		switch {
		case strings.HasPrefix(x, "A"):
			nargs++
		case strings.HasPrefix(x, "NUM"):
			nargs++
		case strings.HasPrefix(x, "REL"):
			opt = true
		case x == "PKGS":
			nargs++
		}
	}
	many := spec[0] == "AddPackages"
	accepted := func(k int64) bool {
		return k == int64(nargs) || opt && k == int64(nargs)+1 || many && k >= int64(nargs)
	}
	var entry string
	c.runFn("ferryctl "+cm.words, cm.fn, monFunc(func(e *Engine, s *State, ev *Event) {
		entry = e.entry
		parseBase(c, e, s, ev)
		if many {
			w.watchImport(e, s, ev, args)
		}
		if ev.kind == "call" && ev.ok == 2 && ev.name != "fmt.Fprintf" && !strings.HasPrefix(ev.name, "fmt.") {
			s.setB("failed", true)
		}
		if ev.kind == "assume" {
			counts := ""
			for k := int64(0); k < 8; k++ {
				if s.facts.rngMask(lenT, k)&mEQ != 0 {
					counts += fmt.Sprint(k)
					if small(s, spec, arg, k) {
						s.setB("small", true)
					}
				}
			}
			s.set("counts", tStr(counts))
		}
		q := w.wireWatch(e, s, ev)
		if q != nil {
			if s.is("sent") {
				e.violate(s, ev, "twice", cm.words, "the command sends a second request")
			}
			s.setB("sent", true)
			e.count("requests followed")
			if s.is("failed") {
				e.violate(s, ev, "anyway", cm.words, "a request is sent although preparing it failed")
			}
			ops, _, why := w.opsOf(q)
			if why != "" {
				e.violate(s, ev, "lost", cm.words, "the request of \""+cm.words+"\" cannot be followed: "+why)
				return
			}
			hit := false
			for _, o := range ops {
				if o.aux == spec[0] {
					hit = true
					var conds *Term
					if k := len(o.args) - 1; k >= 0 && o.args[k].op == "conds" {
						conds = o.args[k]
						o = mk("op", o.aux, o.args[:k]...)
					}
					if o.op == "op" && strings.HasPrefix(o.aux, "jobs.") {
						continue
					}
					for i, role := range spec[1:] {
						if i >= len(o.args) {
							e.violate(s, ev, "arguments", cm.words, "the operation "+o.aux+" has fewer arguments than the command gives it")
							break
						}
						if msg := w.role(e, s, role, o.args[i], arg, lenT, flags, conds); msg != "" {
							e.violate(s, ev, "role", cm.words+" "+role, fmt.Sprintf("\"%s\": argument %d of %s %s, but is %s", cm.words, i+1, o.aux, msg, short(o.args[i])))
						}
					}
					continue
				}
				if wireOps[o.aux] || strings.Contains(o.aux, ".Reset") {
					e.violate(s, ev, "operation", cm.words+" "+o.aux, "the command \""+cm.words+"\" also causes "+o.aux)
				}
				if o.aux == "PushJob" && spec[0] == "GetPackageNames" {
					if msg := deltaPush(o, arg(0)); msg != "" {
						e.violate(s, ev, "delta-jobs", cm.words, msg)
					}
				}
			}
			if !hit {
				e.violate(s, ev, "operation", cm.words, "the command \""+cm.words+"\" never causes "+spec[0])
			}
		}
		if isEntryRet(ev) && !s.is("sent") && !s.is("failed") {
			for k := int64(0); k < 8; k++ {
				if accepted(k) && s.facts.rngMask(lenT, k)&mEQ != 0 && !small(s, spec, arg, k) {
					e.violate(s, ev, "ignored", cm.words, fmt.Sprintf("the command \"%s\" with %d valid arguments sends nothing", cm.words, k))
					break
				}
			}
		}
	}), runOpt{pkgs: []string{"cmd", "libferry"}, ext: opaqueFns("ferryctl/cmd.GetEopkgs")})
	_ = entry
	c.require("requests followed", 13)
}

// small: the path has found a number in the arguments to be below one.
func small(s *State, spec []string, arg func(int) *Term, n int64) bool {
	for _, x := range spec[1:] {
		if i, err := strconv.Atoi(strings.TrimLeft(x, "RELNUM")); err == nil && (strings.HasPrefix(x, "REL") || strings.HasPrefix(x, "NUM")) && int64(i) < n {
			if s.facts.rangeOf(app("atoi", arg(i))).hi < 1 {
				return true
			}
		}
	}
	return false
}

// role compares an argument of an operation with what the command was given.
func (w *wire) role(e *Engine, s *State, role string, v *Term, arg func(int) *Term, n *Term, flags map[string]string, conds *Term) string {
	idx := func(p string) int { i, _ := strconv.Atoi(strings.TrimPrefix(role, p)); return i }
	switch {
	case strings.HasPrefix(role, "flag:"):
		f := strings.TrimPrefix(role, "flag:")
		want := ""
		for g, x := range flags {
			if x == f {
				want = g
			}
		}
		if want == "" {
			return "should be the flag --" + f + " (off by default)"
		}
		isFlag := func(v *Term) bool { return v.op == "global" && strings.HasSuffix(v.aux, "."+want) }
		if isFlag(v) {
			return ""
		}
		if v == tTrue || v == tFalse {
			for k, x := range s.facts.boolv {
				if isFlag(k) && x == (v == tTrue) {
					return ""
				}
			}
			if conds != nil {
				l := conds.args[1]
				if v == tTrue {
					l = conds.args[0]
				}
				for _, k := range l.args {
					if isFlag(k) {
						return ""
					}
				}
			}
		}
		return "should be the flag --" + f
	case strings.HasPrefix(role, "REL"):
		i := idx("REL")
		if v == app("atoi", arg(i)) {
			if s.facts.rangeOf(v).lo < 1 {
				return "should be a positive release number"
			}
			return ""
		}
		if x, ok := v.intVal(); ok && x == -1 {
			if s.facts.rngMask(n, int64(i)+1)&mEQ != 0 && s.facts.rangeOf(n).hi > int64(i) {
				return "should be the release given as the last argument"
			}
			return ""
		}
		return "should be the release given as the last argument, or -1"
	case strings.HasPrefix(role, "NUM"):
		i := idx("NUM")
		if v != app("atoi", arg(i)) {
			return fmt.Sprintf("should be the number in argument %d", i+1)
		}
		if s.facts.rangeOf(v).lo < 1 {
			return "should be a positive number"
		}
	case role == "PKGS":
		if w.pkgs(e, s, v) {
			return ""
		}
		return "should be the packages found in the arguments"
	case role == "false" || role == "true":
		if v != tBool(role == "true") {
			return "should be " + role
		}
	case strings.HasPrefix(role, "A"):
		i := idx("A")
		if v != arg(i) {
			return fmt.Sprintf("should be argument %d of the command", i+1)
		}
	}
	return ""
}

func deltaPush(o *Term, repo *Term) string {
	k, _ := o.args[0].strVal()
	if !strings.HasPrefix(k, "Delta") || k == "DeltaRepo" {
		return "a delta request queues a job of kind " + k
	}
	p := o.args[1]
	if p.op != "list" || len(p.args) != 2 || p.args[0] != repo || !(p.args[1].op == "each" || p.args[1].op == "elem" || p.args[1].op == "iterk") {
		return "a delta job is not for a package of the requested repository: " + short(p)
	}
	return ""
}

// watchImport notes that the loop over the packages named on the command line
// went over all of them.
func (w *wire) watchImport(e *Engine, s *State, ev *Event, args *Term) {
	if ev.kind != "loop.done" {
		return
	}
	if n, counted := e.loopStep[ev.name]; counted && n != 1 {
		return
	}
	first := int64(0)
	if i := s.heap[mk("loopinit", ev.name)]; i != nil {
		if v, ok := i.intVal(); !ok {
			return
		} else if first = v; v == -1 {
			first = 0
		}
	}
	over := ev.args[1]
	if over.isApp("slice") && len(over.args) == 3 && over.args[0] == args {
		if v, ok := over.args[1].intVal(); ok {
			first, over = first+v, args
		}
	}
	if over == args && first == 1 {
		s.setB("all packages", true)
	}
}

// pkgs: the list is everything found under the second and later arguments.
func (w *wire) pkgs(e *Engine, s *State, v *Term) bool {
	if !s.is("all packages") {
		return false
	}
	if v.isApp("slice") && v.args[0].op == "list" {
		k, ok := v.args[1].intVal()
		l := v.args[0].args
		if !ok || int(k) > len(l) || v.args[2] != mk("len", "", v.args[0]) {
			return false
		}
		for _, x := range l[:k] {
			if x.op == "spread" {
				return false
			}
		}
		v = mk("list", "", l[k:]...)
	}
	for (v.op == "list" || v.op == "spread" || v.op == "set" || v.op == "when") && len(v.args) == 1 {
		v = v.args[0]
	}
	if v.op != "opq" || !strings.HasPrefix(v.aux, "GetEopkgs.0@") {
		return false
	}
	p := callOf(v.args[0], "path/filepath.Abs")
	return p != nil && p.op == "elem"
}

// checkEopkgs: what an argument of an import stands for is every package file
// at or under it, or an error.
func checkEopkgs(c *Ctx) {
	fn := c.P.fn("cmd.GetEopkgs")
	if fn == nil {
		c.violate("anchor", "", "cmd.GetEopkgs", "-", "not found: the packages an import stands for cannot be followed")
		return
	}
	self := mk("param", fn.Params[0].Name())
	strip := func(v *Term) *Term {
		for v != nil && (v.op == "list" || v.op == "spread" || v.op == "set" || v.op == "when") && len(v.args) >= 1 {
			for _, cond := range v.args[1:] {
				// only what succeeded can be listed, and nothing past the end
				if cond.op == "cond" && cond.mentionsEach() && (cond.aux == "m:4" && cond.args[0].op == "len" || cond.aux == "m:1" && cond.args[1].op == "len") {
					continue
				}
				if v.op != "when" || cond.find(func(t *Term) bool { return t.op == "opqerr" }) == nil || cond.find(func(t *Term) bool { return t == tNil }) == nil {
					return v
				}
			}
			v = v.args[0]
		}
		return v
	}
	c.runFn("cmd.GetEopkgs", fn, monFunc(func(e *Engine, s *State, ev *Event) {
		if ev.kind == "call" && ev.ok == 2 && !strings.HasSuffix(ev.name, ".Close") {
			s.setB("failed", true)
		}
		if ev.kind == "loop.done" && wholeLoop(e, s, ev) && callOf(ev.args[1], "os.File.Readdirnames") != nil {
			s.addTo("walked", ev.args[1])
		}
		if !isEntryRet(ev) {
			return
		}
		if s.is("failed") {
			if okRet(ev) && ev.args[1].op != "opqerr" {
				e.violate(s, ev, "packages", "error", "a directory or file that cannot be read is passed over silently")
			}
			return
		}
		if !okRet(ev) {
			return
		}
		e.count("kinds of import arguments")
		dir, pkg := 3, 3
		for k, v := range s.facts.boolv {
			m := 2
			if v {
				m = 1
			}
			if k.op == "app" && strings.HasSuffix(k.aux, "FileInfo.IsDir") {
				dir = m
			}
			if k.isApp("strings.HasSuffix") {
				if x, _ := k.args[1].strVal(); x == "x86_64.eopkg" {
					pkg = m
				}
			}
		}
		v := ev.args[0]
		switch {
		case dir == 1:
			l := strip(v)
			if len(s.all("walked")) == 0 || l == nil || !(l == tNil || l.op == "opq") {
				e.violate(s, ev, "packages", "directory", "not every entry of a directory is looked at: "+short(v))
			} else if l.op == "opq" {
				p := l.args[0]
				if !(p.isApp("path") && len(p.args) == 2 && p.args[0] == self) || p.args[1].op != "elem" || callOf(p.args[1].args[0], "os.File.Readdirnames") == nil {
					e.violate(s, ev, "packages", "directory", "the entries of a directory are looked for elsewhere: "+short(p))
				}
			}
		case dir == 2 && pkg == 1:
			if strip(v) != self {
				e.violate(s, ev, "packages", "file", "a package file is not listed as itself: "+short(v))
			}
		case dir == 2 && pkg == 2:
			if v != tNil && !(v.op == "list" && len(v.args) == 0) {
				e.violate(s, ev, "packages", "other", "a file that is no package is listed: "+short(v))
			}
		default:
			e.violate(s, ev, "packages", "undecided", "it is not decided whether an argument is a directory, a package or something else")
		}
	}), runOpt{pkgs: []string{"cmd"}, ext: opaqueFns("ferryctl/cmd.GetEopkgs")})
	c.require("kinds of import arguments", 3)
}

// ---- C26 ----

// kinds of jobs as they are stored: whether they run one at a time, the
// operation that is theirs, and further ones that belong to them.
var jobKinds = map[string]struct {
	seq  bool
	op   string
	more string
}{
	"BulkAdd":        {true, "AddPackages", ""},
	"CopySource":     {true, "CopySource", ""},
	"CloneRepo":      {true, "CloneRepo", ""},
	"CreateRepo":     {true, "CreateRepo", ""},
	"DeleteRepo":     {true, "DeleteRepo", ""},
	"Delta":          {false, "GetPackages", ""},
	"Delta+Index":    {false, "GetPackages", "Index"},
	"DeltaRepo":      {true, "GetPackageNames", ""},
	"IndexRepo":      {true, "Index", ""},
	"PullRepo":       {true, "PullRepo", ""},
	"RemoveSource":   {true, "RemoveSource", ""},
	"TransitProcess": {true, "AddPackages", ""},
	"TrimObsolete":   {true, "TrimObsolete", ""},
	"TrimPackages":   {true, "TrimPackages", ""},
}

// jobMakers finds the functions that make new jobs.
func jobMakers(c *Ctx) (out []*ssa.Function) {
	p := c.P.pkgs["jobs"]
	if p == nil {
		c.violate("anchor", "", "jobs", "-", "package not found")
		return
	}
	for _, fn := range c.P.funcs {
		if fn.Pkg != p || fn.Parent() != nil || fn.Signature.Recv() != nil {
			continue
		}
		rs := fn.Signature.Results()
		if rs.Len() != 1 || typeName(rs.At(0).Type()) != "jobs.JobEntry" {
			continue
		}
		if !fn.Object().Exported() {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return
}

// unslice reads a part of a list whose elements are known.
func unslice(v *Term) *Term {
	if v != nil && v.isApp("slice") && len(v.args) == 3 && v.args[0].op == "list" {
		k, ok := v.args[1].intVal()
		l := v.args[0].args
		if ok && int(k) <= len(l) && v.args[2] == mk("len", "", v.args[0]) {
			for _, x := range l[:k] {
				if x.op == "spread" {
					return v
				}
			}
			v = mk("list", "", l[k:]...)
		}
	}
	if v != nil && v.op == "list" && len(v.args) == 1 && v.args[0].op == "spread" {
		return v.args[0].args[0]
	}
	return v
}

func checkC26(c *Ctx) {
	w := newWire(c)
	made := map[string]string{} // kind -> maker
	sig := map[string]string{}
	size := map[string][2]int{} // fixed parameters, open end
	for _, fn := range jobMakers(c) {
		name := "jobs." + fn.Name()
		type made1 struct{ kind, params, seq *Term }
		var jobs []made1
		c.run(name, monFunc(func(e *Engine, s *State, ev *Event) {
			if isEntryRet(ev) {
				j := ev.args[0]
				jobs = append(jobs, made1{e.field(s, j, "Type"), e.field(s, j, "Params"), e.field(s, j, "sequential")})
			}
		}), runOpt{pkgs: []string{"jobs"}})
		pos := c.P.pos(fn.Pos())
		recovered := map[string]map[string]bool{}
		for _, j := range jobs {
			kind, ok := j.kind.strVal()
			if !ok || j.params.op != "list" {
				c.violate("undecided", name, name, pos, "the kind or the parameters of the job are not known")
				continue
			}
			c.counts["kinds of jobs made"]++
			if o := made[kind]; o != "" && o != name {
				c.violate("same-kind", name, kind, pos, "the jobs made by "+o+" and "+name+" are of the same kind")
			}
			made[kind] = name
			n, open := len(j.params.args), 0
			for _, x := range j.params.args {
				if x.op == "spread" {
					n, open = n-1, 1
				}
			}
			size[kind] = [2]int{n, open}
			k, known := jobKinds[kind]
			if known && j.seq != tBool(k.seq) {
				c.violate("discipline", name, kind, pos, fmt.Sprintf("a job of kind %s declares sequential=%s", kind, j.seq))
			}
			xs, _ := w.dispatch(j.kind, j.params)
			if len(xs) == 0 {
				c.violate("refused", name, kind, pos, "a job of kind "+kind+" is refused when it is loaded from the queue")
				continue
			}
			if len(xs) > 1 {
				c.violate("undecided", name, kind, pos, "a job of kind "+kind+" has more than one interpretation when it is loaded")
				continue
			}
			x := xs[0]
			cs := x.handler
			var fs []string
			for f := range x.fields {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			for _, f := range fs {
				v := unslice(x.fields[f])
				if v == tTrue || v == tFalse {
					cs += "|" + f + "=" + v.String()
				}
				for _, p := range fn.Params {
					if v == mk("param", p.Name()) {
						if recovered[p.Name()] == nil {
							recovered[p.Name()] = map[string]bool{}
						}
						recovered[p.Name()][f] = true
					} else if _, isStr := v.strVal(); isStr && isBool(p.Type()) {
						if recovered[p.Name()] == nil {
							recovered[p.Name()] = map[string]bool{}
						}
						recovered[p.Name()][f+"="+v.String()] = true
					}
				}
			}
			if o := sig[cs]; o != "" && o != kind {
				c.violate("same-handler", name, kind, pos, "jobs of the kinds "+o+" and "+kind+" are handled in the same way")
			}
			sig[cs] = kind
			if known {
				w.execute(x)
				hit, more := false, k.more == ""
				for _, o := range x.calls {
					if o.aux == k.op {
						hit = true
					} else if o.aux == k.more {
						more = true
					} else if wireOps[o.aux] {
						c.violate("operation", "jobs."+x.handler+".Execute", kind+" "+o.aux, pos, "executing a job of kind "+kind+" causes "+o.aux)
					}
				}
				if !hit {
					c.violate("operation", "jobs."+x.handler+".Execute", kind, pos, "executing a job of kind "+kind+" never causes "+k.op)
				}
				if !more {
					c.violate("operation", "jobs."+x.handler+".Execute", kind, pos, "executing a job of kind "+kind+" never causes "+k.more)
				}
			}
		}
		for _, p := range fn.Params {
			r := recovered[p.Name()]
			if len(r) == 0 || isBool(p.Type()) && len(r) == 1 && strings.Contains(fmt.Sprint(r), "=") {
				c.violate("lost", name, p.Name(), pos, "what "+name+" is given as "+p.Name()+" is not what the handler gets back from the queue")
			}
		}
	}
	c.require("kinds of jobs made", 14)
	// a job of any other kind, or with other parameters
	fn := c.P.fn("jobs.NewJobHandler")
	if fn == nil {
		return
	}
	job := mk("param", fn.Params[0].Name())
	typ, params := fld(job, "Type"), fld(job, "Params")
	n := mk("len", "", params)
	accepted := map[string]bool{}
	c.run("jobs.NewJobHandler", monFunc(func(e *Engine, s *State, ev *Event) {
		switch {
		case ev.kind == "panic":
			e.violate(s, ev, "crash", "panic", "loading a job may panic")
		case ev.kind == "index" && ev.args[0] == params:
			i, ok := ev.args[1].intVal()
			e.count("parameter accesses")
			if !ok || s.facts.rangeOf(n).lo <= i {
				e.violate(s, ev, "crash", "index "+ev.args[1].String(), "a parameter is read without knowing that the stored job has it")
			}
		case ev.kind == "slice" && ev.args[0] == params:
			i, ok := ev.args[1].intVal()
			e.count("parameter accesses")
			if !ok || s.facts.rangeOf(n).lo < i {
				e.violate(s, ev, "crash", "slice "+ev.args[1].String(), "parameters are read without knowing that the stored job has them")
			}
		case ev.kind == "call" && ev.ok == 2 && strings.HasPrefix(ev.name, "strconv."):
			s.setB("malformed", true)
		case isEntryRet(ev) && ev.args[1] == tNil:
			kind := ""
			for k := range made {
				if s.facts.maskOf(typ, tStr(k)) == mEQ {
					kind = k
				}
			}
			if kind == "" {
				e.violate(s, ev, "unknown-kind", "unknown", "a handler is made for a job of an unknown kind")
				return
			}
			accepted[kind] = true
			e.count("kinds of jobs loaded")
			if s.is("malformed") {
				e.violate(s, ev, "malformed", kind, "a job of kind "+kind+" with a malformed parameter is not refused")
			}
			r, z := s.facts.rangeOf(n), size[kind]
			if r.lo < int64(z[0]) || z[1] == 0 && r.hi != int64(z[0]) {
				e.violate(s, ev, "number", kind, "a job of kind "+kind+" with the wrong number of parameters is not refused")
			}
			if ev.args[0].op == "typednil" || ev.args[0] == tNil {
				e.violate(s, ev, "crash", kind, "a job of kind "+kind+" is loaded without a handler")
			}
		}
	}), runOpt{pkgs: []string{"jobs"}})
	c.require("parameter accesses", 10)
	c.require("kinds of jobs loaded", 14)
	for k := range made {
		if !accepted[k] {
			c.violate("refused", made[k], k, "-", "jobs of kind "+k+" are not recognised when they are loaded")
		}
	}
	// the queue follows the declared discipline
	pf := c.P.fn("jobs.Processor.PushJob")
	if pf == nil {
		c.violate("anchor", "", "jobs.Processor.PushJob", "-", "not found")
		return
	}
	sq := fld(paramOf(pf, 1), "sequential")
	c.run("jobs.Processor.PushJob", monFunc(func(e *Engine, s *State, ev *Event) {
		if ev.kind == "db" && ev.name == "put" {
			e.count("queue choices")
			m := e.knownBool(s, sq)
			if q := oneName(ev.args[0]); !(m == 1 && q == "Sync" || m == 2 && q == "Async") {
				e.violate(s, ev, "queue", q, "a job is put in the queue "+q+" whatever its discipline")
			}
		}
	}), runOpt{pkgs: []string{"jobs"}})
	c.require("queue choices", 2)
}

// fromBody: what a message is decoded from is the body of a request or reply.
func fromBody(src *Term) bool {
	for _, f := range []string{"encoding/json.NewDecoder", "io/ioutil.ReadAll", "io.ReadAll"} {
		if d := callOf(src, f); d != nil {
			return d.isFld("Body")
		}
	}
	return false
}

// ---- C27 ----

// the operation behind each call of the client library
var clientOps = map[string]string{
	"CreateRepo": "CreateRepo", "DeleteRepo": "DeleteRepo", "DeltaRepo": "GetPackageNames", "IndexRepo": "Index",
	"ImportPackages": "AddPackages", "CloneRepo": "CloneRepo", "PullRepo": "PullRepo", "RemoveSource": "RemoveSource",
	"CopySource": "CopySource", "TrimPackages": "TrimPackages", "TrimObsolete": "TrimObsolete",
	"ResetFailed": "jobs.JobStore.ResetFailed", "ResetCompleted": "jobs.JobStore.ResetCompleted",
	"GetStatus": "jobs.JobStore.ActiveJobs", "GetRepos": "core.Manager.GetRepos", "GetPoolItems": "core.Manager.GetPoolItems",
}

func checkC27(c *Ctx) {
	w := newWire(c)
	w.findRoutes()
	for _, r := range w.routes {
		sv := w.serve(r)
		if sv.reads == nil {
			continue
		}
		c.counts["routes with a message"]++
		post := false
		for _, o := range w.routes {
			if o.fn == r.fn && (o.method == "POST" || o.method == "PUT") {
				post = true
			}
		}
		if !post {
			c.violate("method", r.name, r.pattern, c.P.pos(r.fn.Pos()), r.name+" needs a message body but is only routed for "+r.method)
		}
	}
	c.require("routes with a message", 6)
	found := map[string]bool{}
	for _, m := range c.methodsOf("libferry.Client") {
		short1 := m[strings.LastIndex(m, ".")+1:]
		op, listed := clientOps[short1]
		if short1 == "Close" {
			continue
		}
		found[short1] = true
		decT := map[string]types.Type{}
		look := func(s *State) {
			for t := range s.facts.terms(func(t *Term) bool { return t.isFld("StatusCode") }) {
				if s.facts.rangeOf(t).hi < 400 {
					s.setB("status", true)
				}
			}
		}
		c.run(m, monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind == "call" && ev.ok == 2 && !strings.HasSuffix(ev.name, ".Close") {
				s.setB("failed", true)
			}
			if ev.kind == "call" && (ev.name == "encoding/json.Decoder.Decode" || ev.name == "encoding/json.Unmarshal") && ev.ok == 1 {
				if fromBody(ev.args[0]) {
					t := pointee(ev.args[1].typ)
					if t == nil {
						e.violate(s, ev, "undecided", m, "the type a reply is decoded into is not known")
						return
					}
					decT[t.String()] = t
					s.set("reply", mk("reply", t.String(), ev.args[1]))
				}
			}
			if q := w.wireWatch(e, s, ev); q != nil {
				e.count("client requests")
				s.setB("sent", true)
				if q.why != "" {
					e.violate(s, ev, "undecided", m, q.why)
					return
				}
				r, bind, why := w.match(q)
				if why != "" {
					e.violate(s, ev, "route", short1, "the daemon does not serve the request of "+short1+": "+why)
					return
				}
				for n, x := range bind {
					if x.isApp("unescaped") {
						e.violate(s, ev, "escape", short1+" "+n, "a name is put in the request's path without being escaped")
					}
				}
				s.set("route", tStr(r.method+" "+r.pattern))
				sv := w.serve(r)
				switch {
				case sv.reads == nil:
				case q.body == nil:
					e.violate(s, ev, "message", short1, "the handler "+r.name+" expects a message but "+short1+" sends none")
				default:
					if msg := compat(q.bodyT, sv.reads, map[string]bool{}); msg != "" {
						e.violate(s, ev, "message", short1, "what "+short1+" sends is not what the handler "+r.name+" decodes: "+msg)
					}
				}
				if listed {
					ops, _, why := w.opsOf(q)
					hit := false
					for _, o := range ops {
						if o.aux == op {
							hit = true
						} else if wireOps[o.aux] || strings.Contains(o.aux, ".Reset") {
							e.violate(s, ev, "meaning", short1+" "+o.aux, "the request of "+short1+" is served by "+r.name+", which causes "+o.aux)
						}
					}
					if !hit && why == "" {
						e.violate(s, ev, "meaning", short1, "the request of "+short1+" is served by "+r.name+", which never causes "+op)
					}
					if !hit && why != "" {
						e.violate(s, ev, "meaning", short1, "the request of "+short1+" cannot be followed: "+why)
					}
				}
			}
			if ev.kind == "assume" || ev.kind == "return" {
				look(s)
			}
			if !isEntryRet(ev) || !okRet(ev) {
				return
			}
			if !s.is("sent") {
				e.violate(s, ev, "silent", short1, short1+" succeeds without a request")
				return
			}
			e.count("client successes")
			if s.is("failed") {
				e.violate(s, ev, "error", short1, short1+" succeeds although the request or reading its reply failed")
			}
			look(s)
			status := s.is("status")
			rep := s.get("reply")
			if rep == nil {
				if !status {
					e.violate(s, ev, "error", short1, short1+" succeeds without having looked at the status or the contents of the reply")
				}
				return
			}
			t := decT[rep.aux]
			fs, _ := jsonFields(t)
			if len(fs) == 2 && fs[0].json == "Error" && e.knownBool(s, e.field(s, rep.args[0], fs[0].name)) != 2 {
				e.violate(s, ev, "error", short1, short1+" succeeds without having looked at the error in the reply")
			}
		}), runOpt{pkgs: []string{"libferry"}})
		// what is decoded is what the handler encodes
		for _, r := range w.routes {
			sv := w.serve(r)
			if !listed || !contains(sv.ops, op) || !strings.Contains(op, ".") {
				continue
			}
			for _, t := range sv.writes {
				okT := false
				msg := "nothing is decoded"
				for _, d := range decT {
					if msg = compat(t, d, map[string]bool{}); msg == "" {
						okT = true
					}
				}
				c.counts["reply formats"]++
				if !okT {
					c.violate("reply", r.name, short1, c.P.pos(r.fn.Pos()), "what the handler "+r.name+" replies is not what "+short1+" decodes: "+msg)
				}
			}
			if strings.HasPrefix(short1, "Get") && len(sv.writes) == 0 {
				c.violate("reply", r.name, short1, c.P.pos(r.fn.Pos()), "the handler "+r.name+" replies nothing that "+short1+" could decode")
			}
		}
	}
	for k := range clientOps {
		if !found[k] {
			c.violate("anchor", "", "libferry.Client."+k, "-", "client call not found")
		}
	}
	c.require("client requests", 16)
	c.require("client successes", 16)
	c.require("reply formats", 3)
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// ---- C28 ----

func checkC28(c *Ctx) {
	w := newWire(c)
	w.findRoutes()
	done := map[*ssa.Function]bool{}
	for _, r := range w.routes {
		if done[r.fn] {
			continue
		}
		done[r.fn] = true
		sv := w.serve(r)
		short1 := r.name[strings.LastIndex(r.name, ".")+1:]
		queues := len(sv.jobs) > 0
		if queues {
			c.counts["requests that queue a job"]++
		} else if len(sv.ops) == 0 {
			c.violate("ignored", r.name, short1, c.P.pos(r.fn.Pos()), "the handler "+r.name+" neither queues a job nor does anything else")
		}
		c.runFn(r.name, r.fn, monFunc(func(e *Engine, s *State, ev *Event) {
			if ev.kind == "go" && queues {
				e.violate(s, ev, "undecided", short1, "the request is handled in the background")
			}
			code := func(t *Term) {
				v, ok := t.intVal()
				if !ok {
					e.violate(s, ev, "status", short1, "the status of a reply is not constant")
				} else if v >= 400 {
					s.setB("told", true)
				} else {
					s.setB("ended", true)
				}
			}
			if ev.kind == "call" {
				switch {
				case strings.HasSuffix(ev.name, ".ReadAll"):
					if ev.args[0].isFld("Body") && ev.ok == 2 {
						s.setB("bad", true)
					}
				case ev.name == "encoding/json.Decoder.Decode" || ev.name == "encoding/json.Unmarshal":
					if fromBody(ev.args[0]) {
						if ev.ok == 2 {
							s.setB("bad", true)
						} else {
							s.setB("decoded", true)
						}
					}
				case ev.name == "net/http.Error":
					if s.is("ended") {
						e.violate(s, ev, "status", short1, "an error is reported after the status was sent")
					}
					code(ev.args[2])
				case strings.HasSuffix(ev.name, "http.ResponseWriter.WriteHeader"):
					if !s.is("told") {
						code(ev.args[1])
					}
				case strings.HasSuffix(ev.name, "http.ResponseWriter.Write"):
					if !s.is("told") {
						s.setB("ended", true)
					}
				case isPush(ev):
					e.count("places where a request queues its job")
					switch {
					case s.is("bad"):
						e.violate(s, ev, "rejected", short1, "a job is queued for a request whose message cannot be decoded")
					case sv.reads != nil && !s.is("decoded"):
						e.violate(s, ev, "rejected", short1, "a job is queued before the request's message is decoded")
					case s.is("told"):
						e.violate(s, ev, "rejected", short1, "a job is queued for a request that was answered with an error")
					case s.is("pushed"):
						e.violate(s, ev, "twice", short1, "a second job is queued for the request")
					}
					s.setB("pushed", true)
					if ev.ok == 2 {
						s.setB("lost", true)
					}
				}
			}
			if !isEntryRet(ev) {
				return
			}
			switch {
			case s.is("bad"):
				if !s.is("told") {
					e.violate(s, ev, "untold", short1, "a request whose message cannot be decoded is not answered with an error status")
				}
			case s.is("lost"):
				if !s.is("told") {
					e.violate(s, ev, "untold", short1+" queue", "the requester is not told that its job could not be stored")
				}
			case queues && !s.is("pushed"):
				e.violate(s, ev, "dropped", short1, "an acceptable request queues no job")
			case queues && s.is("told"):
				e.violate(s, ev, "misled", short1, "a request is answered with an error although its job is queued")
			}
		}), runOpt{pkgs: []string{"ferryd", "jobs"}, ext: serverExt(c.P), free: r.free, funcs: r.funcs})
	}
	c.require("requests that queue a job", 11)
	c.require("places where a request queues its job", 11)
	// queueing stores the job once, or fails
	c.run("jobs.Processor.PushJob", monFunc(func(e *Engine, s *State, ev *Event) {
		if ev.kind == "db" && ev.name == "put" {
			if s.is("put") {
				e.violate(s, ev, "twice", "PushJob", "a job is stored twice")
			}
			s.setB("put", true)
			if ev.ok == 2 {
				s.setB("lost", true)
			}
		}
		if ev.kind == "db" && ev.name == "abort" {
			s.setB("lost", true)
		}
		if isEntryRet(ev) && okRet(ev) {
			e.count("ways of queueing")
			if !s.is("put") || s.is("lost") {
				e.violate(s, ev, "lost", "PushJob", "queueing succeeds although the job was not stored")
			}
		}
	}), runOpt{pkgs: []string{"jobs"}})
	c.require("ways of queueing", 1)
}
