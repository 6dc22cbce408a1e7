package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A flow follows every path of one function on unknown arguments. Calls to
// other functions are assumed to succeed or fail in every way their types
// allow, except those that matter for the question asked, which are followed
// into. What happened on a path (files opened, closed, written, responses
// received) is part of its state, so paths that differ in it stay apart.

const flowID = "in:flow"

type handle struct {
	id, call, pos string
	path          Val // what was opened
	status        Val // status code of a response
	response      bool
	writable      bool
}

type flow struct {
	s                         *Scn
	root                      *ssa.Function
	inline                    map[*ssa.Function]bool // followed into
	follow                    map[*ssa.Function]bool // followed into when given something that has to be closed
	handles                   map[string]*handle
	problems                  map[string]string // position and text
	sites                     map[ssa.Instruction]bool
	lift                      bool // the question has to be asked about the callers
	onCall                    func(k *Call) ([]Outcome, bool)
	creations, moves, touched []creation // files made, named and otherwise changed
	read                      []Val      // paths opened for reading
	judged                    int
	recv                      Val // the receiver of the function, if known
}

func (p *Program) flow(w *World, root *ssa.Function, inline map[*ssa.Function]bool) *flow {
	s := w.scn("flow of " + root.String())
	f := &flow{s: s, root: root, inline: inline, handles: map[string]*handle{}, problems: map[string]string{}, sites: map[ssa.Instruction]bool{}}
	s.In.Cap = 2
	s.In.Budget = 100000
	s.In.Blur = true
	s.In.Hooks = append([]Hook{f.hook}, s.In.Hooks...)
	return f
}

func flowFacts(st *State) map[string]string {
	m := map[string]string{}
	if o := st.heap[flowID]; o != nil {
		for _, e := range o.Elems {
			x, _ := isStr(e)
			k, v, _ := strings.Cut(x, "=")
			m[k] = v
		}
	}
	return m
}

func fact(st *State, k string) string { return flowFacts(st)[k] }

func setFact(st *State, k, v string) {
	m := flowFacts(st)
	if v == "" {
		delete(m, k)
	} else {
		m[k] = v
	}
	var ks []string
	for k, v := range m {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	o := &Obj{Kind: OArr, Known: true}
	for _, k := range ks {
		o.Elems = append(o.Elems, cStr(k))
	}
	st.heap[flowID] = o
	st.tag = strings.Join(ks, "|")
}

func (f *flow) problem(about, pos, format string, a ...any) {
	m := about + " " + fmt.Sprintf(format, a...)
	if f.problems[m] == "" {
		f.problems[m] = pos
	}
}

// find lists the handles reachable from a value.
func (f *flow) find(st *State, v Val, seen map[string]bool, out map[string]bool) {
	switch x := v.(type) {
	case *Term:
		if x.Op == "handle" {
			id, _ := isStr(x.Args[0])
			out[id] = true
			return
		}
		for _, a := range x.Args {
			f.find(st, a, seen, out)
		}
	case Iface:
		f.find(st, x.V, seen, out)
	case StructV:
		for _, a := range x.F {
			f.find(st, a, seen, out)
		}
	case Tuple:
		for _, a := range x.Vs {
			f.find(st, a, seen, out)
		}
	case Set:
		for _, a := range x.Vs {
			f.find(st, a, seen, out)
		}
	case Fn:
		for _, a := range x.B {
			f.find(st, a, seen, out)
		}
	case Ptr:
		f.obj(st, x.Obj, seen, out)
	case Slice:
		f.obj(st, x.Obj, seen, out)
	}
}

func (f *flow) obj(st *State, id string, seen map[string]bool, out map[string]bool) {
	if seen[id] || len(seen) > 40 || strings.HasPrefix(id, "global:") {
		return
	}
	seen[id] = true
	o := st.heap[id]
	if o == nil {
		return
	}
	if o.V != nil {
		f.find(st, o.V, seen, out)
	}
	for _, e := range o.Elems {
		f.find(st, e, seen, out)
	}
	for _, e := range o.Entries {
		f.find(st, e.V, seen, out)
	}
}

func (f *flow) in(st *State, vs ...Val) map[string]bool {
	out := map[string]bool{}
	for _, v := range vs {
		if v != nil {
			f.find(st, v, map[string]bool{}, out)
		}
	}
	return out
}

// buffered tells whether a value writes through a buffer.
func buffered(v Val) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.Op == "buffer" {
			id, _ := isStr(x.Args[0])
			return id, true
		}
		for _, a := range x.Args {
			if id, ok := buffered(a); ok {
				return id, true
			}
		}
	case Iface:
		return buffered(x.V)
	}
	return "", false
}

var resourcePkgs = map[string]bool{"os": true, "net": true, "net/http": true, "io/fs": true, "os/exec": true, "crypto/tls": true, "syscall": true}

func isResponse(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Response" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http"
}

// acquires tells which result of a function outside the repository has to be
// closed (-1: none).
func acquires(name string, sig *types.Signature, pkg string) int {
	if !resourcePkgs[pkg] {
		return -1
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if isResponse(t) {
			return i
		}
		ms := types.NewMethodSet(t)
		for j := 0; j < ms.Len(); j++ {
			m := ms.At(j).Obj()
			if m.Name() == "Close" && m.Type().(*types.Signature).Params().Len() == 0 {
				return i
			}
		}
	}
	return -1
}

func calleeSig(c *ssa.CallCommon) (name, pkg string, sig *types.Signature) {
	if c.IsInvoke() {
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
		return stripArgs(c.Method.FullName()), pkg, c.Signature()
	}
	if fn := c.StaticCallee(); fn != nil {
		k := Call{Fn: fn}
		return fnName(fn), k.pkgPath(), fn.Signature
	}
	return "", "", c.Signature()
}

// fork makes a call succeed and fail.
func (f *flow) fork(k *Call) []Outcome {
	n := k.Sig.Results().Len()
	if n == 0 {
		return ret1(k)
	}
	okR := make([]Val, n)
	isErr := types.Identical(k.Sig.Results().At(n-1).Type(), f.s.W.T.Err)
	if purePkgs[k.pkgPath()] {
		okR = k.In.externalDefault(k).Res
	} else {
		for i := range okR {
			okR[i] = f.value(k, k.Sig.Results().At(i).Type(), i, isErr)
		}
	}
	if !isErr {
		return ret1(k, okR...)
	}
	bad := k.St.clone()
	badR := make([]Val, n)
	for i := range badR {
		badR[i] = Top{k.Sig.Results().At(i).Type()}
	}
	badR[n-1] = errVal(f.s, "failure")
	okR[n-1] = Nil{}
	return []Outcome{{k.St, okR}, {bad, badR}}
}

// value is an unknown result, present if the call reports errors otherwise.
func (f *flow) value(k *Call, t types.Type, i int, reports bool) Val {
	if isPtrType(t) || types.IsInterface(t) {
		if reports {
			return mkTerm("nonnil", t, cStr(fmt.Sprint(k.Name, i)))
		}
		return Top{t}
	}
	return k.In.fresh(k.St, "call:"+k.Name+fmt.Sprint(i), t, k.Site)
}

func (f *flow) hook(k *Call) ([]Outcome, bool) {
	if k.Site != nil {
		f.sites[k.Site] = true
	}
	if f.onCall != nil {
		if o, ok := f.onCall(k); ok {
			return o, true
		}
	}
	args := k.Args
	if k.Recv != nil {
		args = append([]Val{k.Recv}, args...)
	}
	hs := f.in(k.St, args...)
	if k.Fn != nil && len(k.Fn.Blocks) > 0 && (isRepoFn(k.Fn) || fnPkg(k.Fn) == nil) {
		if f.inline[k.Fn] || len(hs) > 0 && f.follow[k.Fn] {
			return nil, false
		}
		for p := k.Fn.Parent(); p != nil; p = p.Parent() { // parts of a function followed into
			if p == f.root || f.inline[p] {
				return nil, false
			}
		}
		if len(hs) > 0 {
			return f.use(k, hs), true
		}
		return f.fork(k), true
	}
	short := k.Name[strings.LastIndex(k.Name, ".")+1:]
	if short == "Close" && len(hs) > 0 {
		for id := range hs {
			if b, ok := buffered(args[0]); ok {
				_ = b
				f.flush(k, id)
				return f.fork(k), true
			}
			setFact(k.St, "h:"+id, "closed")
		}
		outs := f.fork(k)
		for id := range hs {
			if h := f.handles[id]; h != nil && h.writable && len(outs) > 1 {
				setFact(outs[1].St, "w:"+pathKey(h.path), "failed")
			}
		}
		return outs, true
	}
	if i := acquires(k.Name, k.Sig, k.pkgPath()); i >= 0 && len(hs) == 0 {
		return f.acquire(k, i, args), true
	}
	if o, ok := f.effect(k, args); ok {
		return o, true
	}
	if len(hs) > 0 {
		return f.use(k, hs), true
	}
	n := k.Sig.Results().Len()
	switch k.Name {
	case "slices.Sorted", "slices.Collect", "slices.SortedFunc", "slices.SortedStableFunc":
		if m := models[k.Name]; m != nil {
			if o, ok := m(k); ok {
				return o, true
			}
		}
		return ret1(k, k.In.fresh(k.St, "call:"+k.Name, k.Sig.Results().At(0).Type(), k.Site)), true
	}
	if n > 0 && types.Identical(k.Sig.Results().At(n-1).Type(), f.s.W.T.Err) && !strings.HasPrefix(k.Name, "fmt.") && !strings.HasPrefix(k.Name, "errors.") {
		outs := f.fork(k)
		// decoding into a schema
		for _, a := range args {
			if i, ok := a.(Iface); ok && len(outs) > 0 {
				if p, ok := i.Dyn.(*types.Pointer); ok {
					if nm, ok := p.Elem().(*types.Named); ok && nm.Obj().Name() == "Schema" && strings.HasPrefix(k.pkgPath(), "encoding/json") {
						setFact(outs[0].St, "parsed", "yes")
					}
				}
			}
			k.In.havocPtr(k.St, a, k.Site)
		}
		return outs, true
	}
	return nil, false
}

func pathKey(v Val) string {
	if v == nil {
		return "?"
	}
	return strings.NewReplacer("=", "~", "|", "~").Replace(v.Key())
}

func (f *flow) acquire(k *Call, i int, args []Val) []Outcome {
	n := k.Sig.Results().Len()
	t := k.Sig.Results().At(i).Type()
	id := k.In.id(fmt.Sprintf("handle|%s|%d", k.Ctx, i))
	h := f.handles[id]
	if h == nil {
		h = &handle{id: id, call: k.Name, pos: f.s.W.P.instrPos(k.Site), response: isResponse(t)}
		f.handles[id] = h
	}
	if fact(k.St, "h:"+id) == "open" {
		f.problem("C05", h.pos, "what %s opened earlier is still open when it is called again", k.Name)
	}
	h.path = Top{strT}
	for _, a := range args {
		if b, ok := a.(Iface); ok {
			a = b.V
		}
		if isStringVal(a) {
			h.path = a
			break
		}
	}
	switch k.Name {
	case "os.CreateTemp", "io/ioutil.TempFile":
		h.writable = true
		dir := args[0]
		if d, ok := isStr(dir); ok && d == "" {
			dir = Sym{"tempdir~", strT}
		}
		h.path = mkCat(dir, cStr("/"), f.temp(args[1], id))
	case "os.Create":
		h.writable = true
	case "os.OpenFile":
		fl, ok := constInt64(args[1])
		h.writable = !ok || fl&3 != 0
	}
	outs := []Outcome{}
	res := make([]Val, n)
	badR := make([]Val, n)
	for j := range res {
		res[j], badR[j] = Top{k.Sig.Results().At(j).Type()}, zeroVal(k.Sig.Results().At(j).Type())
		if j == n-1 && types.Identical(k.Sig.Results().At(j).Type(), f.s.W.T.Err) {
			res[j], badR[j] = Nil{}, errVal(f.s, "failure")
			bad := k.St.clone()
			if h.response {
				setFact(bad, "t:"+id, "failed")
			}
			outs = append(outs, Outcome{bad, badR})
		}
	}
	term := mkTerm("handle", strT, cStr(id))
	setFact(k.St, "h:"+id, "open")
	if h.writable {
		if k.Name != "os.OpenFile" || true {
			setFact(k.St, "w:"+pathKey(h.path), "begun")
		}
		f.creates(k, h.path)
	} else if !h.response && h.path != nil {
		f.read = append(f.read, h.path)
	}
	if h.response {
		st := elemOf(t).Underlying().(*types.Struct)
		h.status = Sym{"status~" + id, intT}
		kv := map[string]Val{"StatusCode": h.status}
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == "Body" {
				kv["Body"] = mkTerm("nonnil", st.Field(j).Type(), term)
			}
			if st.Field(j).Name() == "Status" {
				kv["Status"] = Sym{"statustext~" + id, strT}
			}
		}
		oid := "response:" + id
		k.St.heap[oid] = &Obj{Kind: OCell, V: f.s.strct(elemOf(t), kv), T: elemOf(t)}
		for key := range k.St.facts { // a new response
			if strings.Contains(key, h.status.Key()) {
				delete(k.St.facts, key)
			}
		}
		res[i] = Ptr{oid, "", elemOf(t)}
	} else {
		res[i] = mkTerm("nonnil", t, term)
	}
	return append(outs, Outcome{k.St, res})
}

func constInt64(v Val) (int64, bool) {
	if c, ok := v.(Const); ok {
		var n int64
		if _, err := fmt.Sscan(c.C.ExactString(), &n); err == nil {
			return n, true
		}
	}
	return 0, false
}

func isStringVal(v Val) bool {
	if _, ok := isStr(v); ok {
		return true
	}
	if x, ok := v.(Set); ok && len(x.Vs) > 0 {
		v = x.Vs[0]
		return isStringVal(v)
	}
	var t types.Type
	switch x := v.(type) {
	case Sym:
		t = x.T
	case *Term:
		t = x.T
	case Top:
		t = x.T
	}
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// temp is a name made from a pattern.
func (f *flow) temp(pattern Val, id string) Val {
	r := Sym{"random~" + id, strT}
	if p, ok := isStr(pattern); ok {
		if i := strings.LastIndex(p, "*"); i >= 0 {
			return mkCat(cStr(p[:i]), r, cStr(p[i+1:]))
		}
		return mkCat(cStr(p), r)
	}
	return mkCat(pattern, r)
}

// use passes handles to a call that neither opens nor closes.
func (f *flow) use(k *Call, hs map[string]bool) []Outcome {
	var ids []string
	for id := range hs {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	args := k.Args
	if k.Recv != nil {
		args = append([]Val{k.Recv}, args...)
	}
	short := k.Name[strings.LastIndex(k.Name, ".")+1:]
	for _, id := range ids {
		h := f.handles[id]
		if h == nil || fact(k.St, "h:"+id) == "" {
			continue
		}
		if fact(k.St, "h:"+id) == "closed" && k.Name != "(*os.File).Name" {
			f.problem("C05", f.s.W.P.instrPos(k.Site), "what %s opened is used by %s after it was closed", h.call, k.Name)
		}
	}
	if k.Name == "(*os.File).Name" && len(ids) == 1 {
		if h := f.handles[ids[0]]; h != nil && h.path != nil {
			return ret1(k, h.path)
		}
	}
	outs := f.fork(k)
	wraps := false
	for i := 0; i < k.Sig.Results().Len(); i++ {
		t := k.Sig.Results().At(i).Type()
		if streams(t) {
			var hv []Val
			for _, id := range ids {
				hv = append(hv, mkTerm("handle", strT, cStr(id)))
			}
			if b, ok := buffered(args[0]); ok {
				hv = append(hv, mkTerm("buffer", strT, cStr(b)))
			} else if strings.HasPrefix(k.Name, "bufio.New") || strings.HasPrefix(k.Name, "compress/") || strings.HasPrefix(k.Name, "archive/") {
				hv = append(hv, mkTerm("buffer", strT, cStr(ids[0])))
			}
			outs[0].Res[i] = mkTerm("nonnil", t, hv...)
			wraps = true
		}
	}
	for _, a := range args[1:] {
		k.In.havocPtr(outs[0].St, a, k.Site)
	}
	switch k.Name { // what was received ends in an error
	case "io.ReadAll", "io/ioutil.ReadAll", "io.Copy", "io.CopyBuffer", "(*bytes.Buffer).ReadFrom", "(*encoding/json.Decoder).Decode":
		for _, id := range ids {
			if h := f.handles[id]; h != nil && h.response && len(outs) > 1 {
				setFact(outs[1].St, "cut:"+id, "yes")
			}
		}
	}
	for _, a := range args {
		if i, ok := a.(Iface); ok {
			if p, ok := i.Dyn.(*types.Pointer); ok {
				if nm, ok := p.Elem().(*types.Named); ok && nm.Obj().Name() == "Schema" && strings.HasPrefix(short, "Decode") {
					setFact(outs[0].St, "parsed", "yes")
				}
			}
		}
	}
	if wraps {
		return outs
	}
	for _, id := range ids {
		h := f.handles[id]
		if h == nil || !h.writable {
			continue
		}
		key := "w:" + pathKey(h.path)
		if fact(outs[0].St, key) == "moved" {
			f.problem("C30", f.s.W.P.instrPos(k.Site), "%s writes to a file that already has its final name", k.Name)
		}
		switch short {
		case "Name", "Stat", "Fd", "Chmod", "Chown", "SetEscapeHTML", "SetIndent", "Seek", "SetDeadline":
			continue
		case "Sync":
			if len(outs) > 1 {
				setFact(outs[1].St, key, "failed")
			}
			continue
		case "Truncate":
			setFact(outs[0].St, key, "begun")
			continue
		case "Flush":
			f.flush2(outs[0].St, id)
		default:
			if fact(outs[0].St, key) != "failed" {
				if _, ok := buffered(args[0]); ok || anyBuffered(args) {
					setFact(outs[0].St, key, "buffered")
				} else if fact(outs[0].St, key) != "buffered" {
					setFact(outs[0].St, key, "written")
				}
			}
		}
		if len(outs) > 1 {
			setFact(outs[1].St, key, "failed")
		}
	}
	return outs
}

// streams tells whether a value of the type reads, writes or closes something.
func streams(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		for _, p := range []string{"Read", "Write", "Close", "Decode", "Encode", "Scan", "Flush", "Token"} {
			if strings.HasPrefix(n, p) {
				return true
			}
		}
	}
	return isResponse(t)
}

func anyBuffered(vs []Val) bool {
	for _, v := range vs {
		if _, ok := buffered(v); ok {
			return true
		}
	}
	return false
}

func (f *flow) flush(k *Call, id string) { f.flush2(k.St, id) }

func (f *flow) flush2(st *State, id string) {
	if h := f.handles[id]; h != nil && h.writable {
		if key := "w:" + pathKey(h.path); fact(st, key) == "buffered" {
			setFact(st, key, "written")
		}
	}
}

// creates notes that a file comes into being under a name.
func (f *flow) creates(k *Call, path Val) {
	f.cached(k)
	f.made(f.s.W.P.instrPos(k.Site), k.Name, path)
}

func (f *flow) made(pos, call string, path Val) {
	if ms := members(path); len(ms) > 1 {
		for _, m := range ms {
			f.made(pos, call, m)
		}
		return
	}
	for _, c := range f.creations {
		if c.pos == pos && c.path.Key() == path.Key() {
			return
		}
	}
	f.creations = append(f.creations, creation{pos, call, path})
}

type creation struct {
	pos, call string
	path      Val
}

// cached demands that what was received before something is stored is usable.
func (f *flow) cached(k *Call) {
	for id, h := range f.handles {
		if h.response && fact(k.St, "h:"+id) != "" && f.s.In.relate(k.St, h.status, cInt(200)) != EQ {
			f.problem("C04", f.s.W.P.instrPos(k.Site), "%s can store what was received with a status other than 200", k.Name)
		}
	}
}

// effect models calls that change files by name.
func (f *flow) effect(k *Call, args []Val) ([]Outcome, bool) {
	pos := ""
	if k.Site != nil {
		pos = f.s.W.P.instrPos(k.Site)
	}
	switch k.Name {
	case "path/filepath.Join", "path.Join":
		if el, ok := k.In.listElems(k.St, args[0]); ok && len(el) > 0 {
			last := members(el[len(el)-1])
			var outs Val
			for _, l := range last {
				if x, ok := isStr(l); ok && x == "" && len(last) > 1 {
					continue
				}
				es := append([]Val(nil), el...)
				es[len(es)-1] = l
				for i, e := range es {
					switch e.(type) {
					case Top, Set:
						es[i] = Sym{fmt.Sprintf("some~%d", i), strT}
					}
				}
				v := mkTerm("call:"+k.Name, strT, mkTerm("list", types.NewSlice(strT), es...))
				if outs == nil {
					outs = v
				} else {
					outs = join(outs, v)
				}
			}
			return ret1(k, outs), true
		}
	case "os.WriteFile", "io/ioutil.WriteFile":
		f.creates(k, args[0])
		outs := f.fork(k)
		setFact(outs[0].St, "w:"+pathKey(args[0]), "written")
		setFact(outs[1].St, "w:"+pathKey(args[0]), "failed")
		return outs, true
	case "os.Remove", "os.RemoveAll", "os.Truncate", "os.Chmod", "os.Chown", "os.Chtimes", "os.Mkdir", "os.MkdirAll", "os.MkdirTemp":
		for _, m := range members(args[0]) {
			c := creation{pos, k.Name, m}
			f.touched = append(f.touched, c)
			if (k.Name == "os.Remove" || k.Name == "os.RemoveAll" || k.Name == "os.Truncate") && fact(k.St, "w:"+pathKey(m)) == "" {
				f.creations = append(f.creations, c)
			}
		}
		return f.fork(k), true
	case "os.Rename", "os.Link", "os.Symlink":
		f.cached(k)
		for _, m := range members(args[0]) {
			f.touched = append(f.touched, creation{pos, k.Name, m})
		}
		a, b := args[0], args[1]
		for _, m := range members(b) {
			f.moves = append(f.moves, creation{pos, k.Name, m})
		}
		key := "w:" + pathKey(a)
		switch fact(k.St, key) {
		case "written":
		case "":
			f.problem("C30", pos, "%s gives a final name to a file that was not written before (%s)", k.Name, clip(a.Key()))
		case "failed":
			f.problem("C30", pos, "%s gives a final name to a file although writing it failed", k.Name)
		case "buffered":
			f.problem("C30", pos, "%s gives a final name to a file whose content is still buffered", k.Name)
		default:
			f.problem("C30", pos, "%s gives a final name to a file that is not completely written", k.Name)
		}
		for id, h := range f.handles {
			if h.response && fact(k.St, "cut:"+id) != "" {
				f.problem("C30", pos, "%s stores what was received although receiving it failed", k.Name)
			}
			if h.response && fact(k.St, "h:"+id) != "" && fact(k.St, "parsed") == "" {
				f.problem("C30", pos, "%s stores what was received without having parsed it as a schema", k.Name)
			}
		}
		outs := f.fork(k)
		setFact(outs[0].St, key, "moved")
		return outs, true
	}
	return nil, false
}

// run follows all paths of the function.
func (f *flow) run() []Outcome {
	s := f.s
	var args []Val
	for i, p := range f.root.Params {
		t := p.Type()
		if i == 0 && f.recv != nil {
			args = append(args, f.recv)
			continue
		}
		if i == 0 && f.root.Signature.Recv() != nil && isPtrType(t) {
			args = append(args, mkTerm("nonnil", t, cStr("receiver")))
			continue
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0 {
			args = append(args, Sym{"param~" + p.Name(), t})
			continue
		}
		args = append(args, Top{t})
	}
	var binds []Val
	for _, v := range f.root.FreeVars {
		binds = append(binds, Top{v.Type()})
	}
	setFact(s.St, "", "")
	return s.In.CallFn(f.root, s.St, args, binds, "flow")
}
