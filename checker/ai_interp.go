package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is an abstract interpreter over SSA. States are joined at control-flow
// merges (one state per incoming edge and loop iteration, iterations beyond the
// cap being folded into one), calls inside the repository are analysed in
// context, everything else goes through the models in ai_models.go.
type Interp struct {
	P     *Program
	Hooks []Hook
	Cap   int
	Depth int // recursive activations of one function analysed in context
	// statistics
	Visited  map[*ssa.Function]bool
	Steps    int
	Calls    int
	Cut      int
	Events   []*Event
	Budget   int
	OnStore  func(st *State, x *ssa.Store, addr, v Val)
	OnAssume func(st *State) // after a condition was taken to hold
	Watch    func(name string) bool
	External func(c *Call)
	rtypes   map[string]types.Type
	Trace    []*ssa.Function // functions entered, in order of first entry
	traced   map[*ssa.Function]bool

	stack  []*frame
	loops  map[*ssa.Function]*loopInfo
	intern map[string]int
	prefix string
	nfresh int
	quiet  bool
	// Blur lets strings with unknown parts keep their known parts. The unknown
	// parts then stand for different strings under one name.
	Blur bool
	// Inline names further packages whose functions are followed.
	Inline map[string]bool
}

type Hook func(c *Call) ([]Outcome, bool)

type Call struct {
	In   *Interp
	St   *State
	Site ssa.Instruction
	Name string // full name of the callee, e.g. "(*os/exec.Cmd).Run"
	Fn   *ssa.Function
	Recv Val // receiver of interface calls; methods have it as Args[0]
	Args []Val
	Sig  *types.Signature
	Ctx  string

	mapType types.Type // of the map an element belongs to
}

type Outcome struct {
	St  *State
	Res []Val
}

type Event struct {
	Tag   string
	Args  []Val
	St    *State
	Pos   string
	Stack []string
	Fn    *ssa.Function
}

type frame struct {
	fn   *ssa.Function
	ctx  string
	part string
}

func NewInterp(p *Program) *Interp {
	return &Interp{P: p, Cap: 4, Depth: 8, Visited: map[*ssa.Function]bool{}, loops: map[*ssa.Function]*loopInfo{}, intern: map[string]int{}, Budget: 30000}
}

func (in *Interp) id(s string) string {
	n, ok := in.intern[s]
	if !ok {
		n = len(in.intern)
		in.intern[s] = n
	}
	return in.prefix + strconv.Itoa(n)
}

func (in *Interp) event(st *State, tag string, site ssa.Instruction, args ...Val) *Event {
	e := &Event{Tag: tag, Args: args, St: st.clone()}
	if site != nil {
		e.Pos = in.P.instrPos(site)
		e.Fn = site.Parent()
	}
	for _, f := range in.stack {
		e.Stack = append(e.Stack, f.fn.String())
	}
	in.Events = append(in.Events, e)
	return e
}

type budgetError struct{ msg string }

// loops --------------------------------------------------------------------

type loopInfo struct {
	headers map[int]bool         // block index is a loop header
	inLoop  map[int]map[int]bool // header -> set of blocks
	of      map[int][]int        // block -> headers of loops containing it, outermost first
	rpo     map[int]int
}

func (in *Interp) loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := in.loops[fn]; ok {
		return l
	}
	l := computeLoops(fn)
	in.loops[fn] = l
	return l
}

func computeLoops(fn *ssa.Function) *loopInfo {
	l := &loopInfo{headers: map[int]bool{}, inLoop: map[int]map[int]bool{}, of: map[int][]int{}, rpo: map[int]int{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l.headers[s.Index] = true
				set := l.inLoop[s.Index]
				if set == nil {
					set = map[int]bool{s.Index: true}
					l.inLoop[s.Index] = set
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if set[x.Index] {
						continue
					}
					set[x.Index] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		var hs []int
		for h, set := range l.inLoop {
			if set[b.Index] {
				hs = append(hs, h)
			}
		}
		sort.Slice(hs, func(i, j int) bool { return len(l.inLoop[hs[i]]) > len(l.inLoop[hs[j]]) })
		l.of[b.Index] = hs
	}
	seen := map[int]bool{}
	var post []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b.Index)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, x := range post {
		l.rpo[x] = len(post) - i
	}
	return l
}

type edgeKey struct {
	from, to int
	part     string
	tag      string // what the path did so far; paths that did different things are kept apart
}

func parsePart(p string) map[int]int {
	m := map[int]int{}
	if p == "" {
		return m
	}
	for _, s := range strings.Split(p, ";") {
		a, b, _ := strings.Cut(s, ":")
		x, _ := strconv.Atoi(a)
		y, _ := strconv.Atoi(b)
		m[x] = y
	}
	return m
}

func (in *Interp) nextPart(l *loopInfo, part string, from, to int) string {
	hs := l.of[to]
	if len(hs) == 0 {
		return ""
	}
	cur := parsePart(part)
	var out []string
	for _, h := range hs {
		n := 0
		if l.inLoop[h][from] {
			n = cur[h]
			if h == to { // back edge
				n++
				if n > in.Cap {
					n = in.Cap
				}
			}
		}
		out = append(out, fmt.Sprintf("%d:%d", h, n))
	}
	return strings.Join(out, ";")
}

func (in *Interp) atCap(part string) bool {
	for _, n := range parsePart(part) {
		if n >= in.Cap {
			return true
		}
	}
	return false
}

// CallFn analyses a repository function on the given arguments.
func (in *Interp) CallFn(fn *ssa.Function, st *State, args, binds []Val, ctx string) []Outcome {
	if len(in.stack) == 0 && ctx == "" {
		ctx = "root"
	}
	depth := 0
	for _, f := range in.stack {
		if f.fn == fn {
			depth++
		}
	}
	if depth >= in.Depth || len(in.stack) > 60 {
		in.Cut++
		return []Outcome{in.havocCall(st, fn.String(), fn.Signature, args, ctx)}
	}
	in.Calls++
	in.Visited[fn] = true
	in.trace(fn)
	fr := &frame{fn: fn, ctx: ctx}
	in.stack = append(in.stack, fr)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()

	callerEnv, callerDfr := st.env, st.dfr
	s0 := st.clone()
	s0.env = map[ssa.Value]Val{}
	s0.dfr = nil
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			s0.env[p] = args[i]
		} else {
			s0.env[p] = Top{p.Type()}
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			s0.env[fv] = binds[i]
		} else {
			s0.env[fv] = Top{fv.Type()}
		}
	}
	l := in.loopsOf(fn)
	ins := map[edgeKey]*State{}
	pending := map[edgeKey]bool{}
	push := func(k edgeKey, s *State) {
		if s.dead {
			return
		}
		old := ins[k]
		n, ch := joinState(old, s)
		if old == nil || ch {
			ins[k] = n
			pending[k] = true
		}
	}
	push(edgeKey{-1, 0, "", st.tag}, s0)
	// returns are collected per return edge so that re-processing replaces
	rets := map[edgeKey][]Outcome{}
	for len(pending) > 0 {
		var best edgeKey
		first := true
		for k := range pending {
			if first || less(l, k, best) {
				best, first = k, false
			}
		}
		delete(pending, best)
		in.Steps++
		if lowMemory.Load() {
			panic(budgetError{fmt.Sprintf("too many possibilities in %s", fn)})
		}
		if in.Steps > in.Budget {
			panic(budgetError{fmt.Sprintf("analysis budget exceeded in %s", fn)})
		}
		fr.part = best.part
		blk := fn.Blocks[best.to]
		delete(rets, best)
		states := []*State{ins[best].clone()}
		// phis read the incoming edge simultaneously
		var pi int
		if best.from >= 0 {
			for pi = range blk.Preds {
				if blk.Preds[pi].Index == best.from {
					break
				}
			}
			vals := map[*ssa.Phi]Val{}
			for _, i := range blk.Instrs {
				if ph, ok := i.(*ssa.Phi); ok {
					vals[ph] = in.eval(states[0], ph.Edges[pi])
				}
			}
			for ph, v := range vals {
				states[0].env[ph] = v
			}
		}
		for _, instr := range blk.Instrs {
			if _, ok := instr.(*ssa.Phi); ok {
				continue
			}
			switch x := instr.(type) {
			case *ssa.Jump:
				for _, s := range states {
					push(edgeKey{blk.Index, blk.Succs[0].Index, in.nextPart(l, best.part, blk.Index, blk.Succs[0].Index), s.tag}, s)
				}
			case *ssa.If:
				for _, s := range states {
					c := in.eval(s, x.Cond)
					for bi, want := range []bool{true, false} {
						ok, s2 := in.assume(s, x.Cond, c, want)
						if !ok {
							continue
						}
						// duplicated successors (both arms to one block) keep separate edges by partition
						push(edgeKey{blk.Index, blk.Succs[bi].Index, in.nextPart(l, best.part, blk.Index, blk.Succs[bi].Index), s2.tag}, s2)
					}
				}
			case *ssa.Return:
				for _, s := range states {
					r := make([]Val, len(x.Results))
					for i, v := range x.Results {
						r[i] = in.eval(s, v)
					}
					rets[best] = append(rets[best], Outcome{s, r})
				}
			case *ssa.Panic:
				for _, s := range states {
					in.event(s, "panic", instr, in.eval(s, x.X))
				}
				states = nil
			default:
				var out []*State
				for _, s := range states {
					for _, o := range in.exec(s, instr, fr) {
						if !o.dead {
							out = append(out, o)
						}
					}
				}
				if len(out) > 24 {
					var js []*State
				next:
					for _, o := range out {
						for i := range js {
							if js[i].tag == o.tag {
								js[i], _ = joinState(js[i], o)
								continue next
							}
						}
						js = append(js, o)
					}
					out = js
				}
				states = out
			}
			if len(states) == 0 {
				break
			}
		}
	}
	var all []Outcome
	var ks []edgeKey
	for k := range rets {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].to != ks[j].to {
			return ks[i].to < ks[j].to
		}
		if ks[i].from != ks[j].from {
			return ks[i].from < ks[j].from
		}
		if ks[i].part != ks[j].part {
			return ks[i].part < ks[j].part
		}
		return ks[i].tag < ks[j].tag
	})
	for _, k := range ks {
		all = append(all, rets[k]...)
	}
	for i := range all {
		all[i].St.env = callerEnv
		all[i].St.dfr = callerDfr
	}
	all = in.groupOutcomes(all)
	for i := range all {
		c := all[i].St
		n := make(map[ssa.Value]Val, len(callerEnv)+4)
		for k, v := range callerEnv {
			n[k] = v
		}
		c.env = n
	}
	return all
}

// groupOutcomes joins outcomes that agree on the shape of their error/bool
// results when there are many of them.
func (in *Interp) groupOutcomes(all []Outcome) []Outcome {
	// identical results with identical shape are always joined
	sig := func(o Outcome) string {
		var b strings.Builder
		for _, r := range o.Res {
			switch x := r.(type) {
			case Const:
				if x.C.Kind() == constant.Bool {
					b.WriteString(x.Key())
				} else {
					b.WriteByte('v')
				}
			case Nil:
				b.WriteByte('n')
			case Iface, Ptr:
				b.WriteByte('p')
			default:
				if t := valType(r); t != nil && types.IsInterface(t) {
					m := o.St.rel(r, Nil{})
					if m&EQ == 0 {
						b.WriteByte('p')
					} else if m == EQ {
						b.WriteByte('n')
					} else {
						b.WriteByte('u')
					}
				} else {
					b.WriteByte('v')
				}
			}
			b.WriteByte('.')
		}
		return b.String() + o.St.tag
	}
	limit := 10
	if len(all) <= limit {
		return all
	}
	idx := map[string]int{}
	var out []Outcome
	for _, o := range all {
		k := sig(o)
		if i, ok := idx[k]; ok {
			r := make([]Val, len(o.Res))
			for j := range r {
				r[j] = join(out[i].Res[j], o.Res[j])
			}
			s, _ := joinState(out[i].St, o.St)
			out[i] = Outcome{s, r}
		} else {
			idx[k] = len(out)
			out = append(out, o)
		}
	}
	return out
}

func less(l *loopInfo, a, b edgeKey) bool {
	da, db := len(l.of[a.to]), len(l.of[b.to])
	if da != db {
		return da > db
	}
	if l.rpo[a.to] != l.rpo[b.to] {
		return l.rpo[a.to] < l.rpo[b.to]
	}
	if a.part != b.part {
		return a.part < b.part
	}
	if a.from != b.from {
		return a.from < b.from
	}
	return a.tag < b.tag
}

// eval ------------------------------------------------------------------------

func (in *Interp) eval(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroVal(x.Type())
		}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Const{constant.ToFloat(x.Value)}
		}
		return Const{x.Value}
	case *ssa.Global:
		return Ptr{"global:" + x.String(), "", x.Type().(*types.Pointer).Elem()}
	case *ssa.Function:
		return Fn{x, nil}
	case *ssa.Builtin:
		return Builtin{x.Name()}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	return Top{v.Type()}
}

func (in *Interp) fresh(st *State, what string, t types.Type, site ssa.Instruction) Val {
	ctx, part := "", ""
	if len(in.stack) > 0 {
		f := in.stack[len(in.stack)-1]
		ctx, part = f.ctx, f.part
	}
	if in.atCap(part) {
		return Top{t}
	}
	pos := 0
	if site != nil {
		pos = int(site.Pos())
		if b := site.Block(); b != nil {
			for i, x := range b.Instrs {
				if x == site {
					pos = b.Index*100000 + i
				}
			}
		}
	}
	return Sym{fmt.Sprintf("%s~%s", what, in.id(fmt.Sprintf("%s|%s|%d", ctx, part, pos))), t}
}

func (in *Interp) objID(site ssa.Instruction, extra string) string {
	f := in.stack[len(in.stack)-1]
	pos := 0
	if b := site.Block(); b != nil {
		for i, x := range b.Instrs {
			if x == site {
				pos = b.Index*100000 + i
			}
		}
	}
	return "o" + in.id(fmt.Sprintf("obj|%s|%s|%s|%d|%s", f.fn.String(), f.ctx, f.part, pos, extra))
}

func (in *Interp) newObj(st *State, id string, o *Obj) {
	if old, ok := st.heap[id]; ok && in.atCap(in.stack[len(in.stack)-1].part) {
		j := joinObj(old, o).clone()
		j.Multi = true
		st.heap[id] = j
		return
	}
	st.heap[id] = o
}

func (in *Interp) setReg(st *State, v ssa.Value, x Val) {
	st.env[v] = x
}

// pointers ----------------------------------------------------------------------

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func isYispMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name() == "OrderedMap" && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "orderedmap")
	}
	return false
}

// resolve turns a pointer-like value into heap locations.
func (in *Interp) resolve(st *State, v Val, t types.Type) (ps []Ptr, unknown bool, nilable bool) {
	for _, m := range members(v) {
		switch x := m.(type) {
		case Ptr:
			ps = append(ps, x)
			in.ensure(st, x)
		case Nil:
			nilable = true
		case Sym, *Term:
			var et types.Type
			if vt := valType(m); vt != nil {
				et = elemOf(vt)
			}
			if et == nil {
				et = elemOf(t)
			}
			id := "*" + m.Key()
			if _, ok := st.heap[id]; !ok {
				st.heap[id] = in.lazyObj(id, m, et)
			}
			ps = append(ps, Ptr{id, "", et})
		default:
			unknown = true
		}
	}
	return
}

func (in *Interp) lazyObj(id string, base Val, et types.Type) *Obj {
	if et != nil {
		if isYispMap(et) {
			return &Obj{Kind: OMap, Ordered: true, Base: base, T: et}
		}
	}
	return &Obj{Kind: OCell, V: mkTerm("deref", et, base), T: et}
}

func (in *Interp) ensure(st *State, p Ptr) *Obj {
	if o, ok := st.heap[p.Obj]; ok {
		return o
	}
	var o *Obj
	if g, ok := strings.CutPrefix(p.Obj, "global:"); ok {
		o = &Obj{Kind: OCell, V: Sym{"global " + g, p.T}, T: p.T}
		if p.Path == "" && p.T != nil && strings.HasPrefix(g, modPath) && (!strings.HasPrefix(g, modPath+"/internal") || len(in.Inline) > 0) {
			o.V = zeroVal(p.T)
		}
	} else {
		o = &Obj{Kind: OCell, V: Top{p.T}, T: p.T}
	}
	st.heap[p.Obj] = o
	return o
}

type step struct {
	field bool
	idx   int // -1: unknown
}

func steps(path string) []step {
	var out []step
	for i := 0; i < len(path); {
		j := i + 1
		for j < len(path) && path[j] != '.' && path[j] != '[' {
			j++
		}
		tok := path[i:j]
		if tok[0] == '.' {
			n, _ := strconv.Atoi(tok[1:])
			out = append(out, step{true, n})
		} else {
			s := strings.TrimSuffix(tok[1:], "]")
			if s == "*" {
				out = append(out, step{false, -1})
			} else {
				n, _ := strconv.Atoi(s)
				out = append(out, step{false, n})
			}
		}
		i = j
	}
	return out
}

func fieldTerm(base Val, t types.Type, i int) Val {
	if t == nil {
		return Top{}
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || i >= s.NumFields() {
		return Top{}
	}
	return mkTerm("."+s.Field(i).Name(), s.Field(i).Type(), base)
}

func expandStruct(v Val) (StructV, bool) {
	if sv, ok := v.(StructV); ok {
		return sv, true
	}
	t := valType(v)
	if t == nil {
		return StructV{}, false
	}
	switch s := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Val, s.NumFields())
		for i := range f {
			f[i] = fieldTerm(v, t, i)
			if _, ok := v.(Top); ok {
				f[i] = Top{s.Field(i).Type()}
			}
		}
		return StructV{t, f}, true
	}
	return StructV{}, false
}

func readPath(v Val, ss []step) Val {
	if len(ss) == 0 {
		return v
	}
	switch x := v.(type) {
	case StructV:
		if ss[0].idx >= 0 {
			if ss[0].idx >= len(x.F) {
				return Top{}
			}
			return readPath(x.F[ss[0].idx], ss[1:])
		}
		var r Val
		for _, f := range x.F {
			r = join(r, readPath(f, ss[1:]))
		}
		if r == nil {
			return Top{}
		}
		return r
	case Set:
		var r Val
		for _, m := range x.Vs {
			r = join(r, readPath(m, ss))
		}
		return r
	case Sym, *Term:
		if ss[0].field {
			return readPath(fieldTerm(v, valType(v), ss[0].idx), ss[1:])
		}
		return Top{}
	}
	return Top{}
}

func writePath(v Val, ss []step, n Val, weak bool) Val {
	if len(ss) == 0 {
		if weak {
			return join(v, n)
		}
		return n
	}
	switch x := v.(type) {
	case StructV:
		f := append([]Val(nil), x.F...)
		if ss[0].idx >= 0 {
			if ss[0].idx < len(f) {
				f[ss[0].idx] = writePath(f[ss[0].idx], ss[1:], n, weak)
			}
		} else {
			for i := range f {
				f[i] = writePath(f[i], ss[1:], n, true)
			}
		}
		return StructV{x.T, f}
	case Sym, *Term, Top:
		if sv, ok := expandStruct(v); ok {
			return writePath(sv, ss, n, weak)
		}
		return Top{valType(v)}
	case Set:
		var r Val
		for _, m := range x.Vs {
			r = join(r, writePath(m, ss, n, weak))
		}
		return r
	}
	return v
}

func (in *Interp) loadPtr(st *State, p Ptr, t types.Type) Val {
	o := in.ensure(st, p)
	ss := steps(p.Path)
	var r Val
	switch o.Kind {
	case OArr:
		if len(ss) == 0 {
			if o.Known {
				return StructV{o.T, append([]Val(nil), o.Elems...)}
			}
			return Top{t}
		}
		if ss[0].idx >= 0 && o.Known {
			if ss[0].idx < len(o.Elems) {
				r = readPath(o.Elems[ss[0].idx], ss[1:])
			} else {
				r = Top{t}
			}
		} else {
			e := o.elem()
			if e == nil {
				r = Top{t}
			} else {
				r = readPath(e, ss[1:])
			}
		}
	case OCell:
		r = readPath(o.V, ss)
	default:
		r = Top{t}
	}
	if tp, ok := r.(Top); ok && tp.T == nil {
		r = Top{t}
	}
	return r
}

func (in *Interp) load(st *State, v Val, t types.Type, vt types.Type) Val {
	ps, unk, _ := in.resolve(st, v, vt)
	var r Val
	for _, p := range ps {
		r = join(r, in.loadPtr(st, p, t))
	}
	if unk || r == nil {
		return Top{t}
	}
	return r
}

func (in *Interp) storePtr(st *State, p Ptr, v Val, weak bool) {
	o := in.ensure(st, p).clone()
	ss := steps(p.Path)
	weak = weak || o.Multi
	switch o.Kind {
	case OArr:
		if len(ss) == 0 {
			if sv, ok := v.(StructV); ok && o.Known && !weak {
				o.Elems = append([]Val(nil), sv.F...)
			} else {
				o.Known, o.V, o.Elems = false, Top{elemOf(o.T)}, nil
			}
			break
		}
		if ss[0].idx >= 0 && o.Known && ss[0].idx < len(o.Elems) {
			o.Elems[ss[0].idx] = writePath(o.Elems[ss[0].idx], ss[1:], v, weak)
		} else if o.Known {
			for i := range o.Elems {
				o.Elems[i] = writePath(o.Elems[i], ss[1:], v, true)
			}
		} else {
			o.V = writePath(o.V, ss[1:], v, true)
			if o.V == nil {
				o.V = v
			}
		}
	case OCell:
		o.V = writePath(o.V, ss, v, weak)
	}
	st.heap[p.Obj] = o
}

func (in *Interp) store(st *State, addr Val, v Val, at types.Type) {
	ps, unk, _ := in.resolve(st, addr, at)
	weak := len(ps) > 1 || unk
	for _, p := range ps {
		in.storePtr(st, p, v, weak)
	}
}

// boolean reasoning -------------------------------------------------------------

var relOf = map[token.Token]int{
	token.LSS: LT, token.LEQ: LT | EQ, token.GTR: GT, token.GEQ: GT | EQ, token.EQL: EQ, token.NEQ: LT | GT | UN,
}

func stripConv(a, b Val) (Val, Val) {
	conv := func(v Val) (Val, bool) {
		if t, ok := v.(*Term); ok && t.Op == "conv:inttofloat" {
			return t.Args[0], true
		}
		return v, false
	}
	x, ox := conv(a)
	y, oy := conv(b)
	if ox && oy {
		return a, b // not injective: see relate
	}
	if ox {
		if c, ok := b.(Const); ok && isNumeric(c.C) {
			if i := constant.ToInt(c.C); i.Kind() == constant.Int {
				return x, Const{i}
			}
		}
	}
	if oy {
		if c, ok := a.(Const); ok && isNumeric(c.C) {
			if i := constant.ToInt(c.C); i.Kind() == constant.Int {
				return Const{i}, y
			}
		}
	}
	return a, b
}

func bothConv(a, b Val) (Val, Val, bool) {
	x, ok := a.(*Term)
	y, ok2 := b.(*Term)
	if ok && ok2 && x.Op == "conv:inttofloat" && y.Op == "conv:inttofloat" {
		return x.Args[0], y.Args[0], true
	}
	return nil, nil, false
}

// relate gives the possible relations between two values.
func (in *Interp) relate(st *State, a, b Val) int {
	a, b = stripConv(a, b)
	if x, y, ok := bothConv(a, b); ok {
		// the conversion keeps the order but can map neighbours to one float
		m := in.relate(st, x, y) &^ UN
		if m&(LT|GT) != 0 {
			m |= EQ
		}
		return m & st.rel(a, b)
	}
	switch a.(type) {
	case Set:
		m := 0
		for _, x := range members(a) {
			m |= in.relate(st, x, b)
		}
		return m
	}
	if _, ok := b.(Set); ok {
		m := 0
		for _, x := range members(b) {
			m |= in.relate(st, a, x)
		}
		return m
	}
	if _, ok := a.(Top); ok {
		return anyRel
	}
	if _, ok := b.(Top); ok {
		return anyRel
	}
	_, an := a.(Nil)
	_, bn := b.(Nil)
	if an && bn {
		return EQ
	}
	if an || bn {
		o := a
		if an {
			o = b
		}
		switch x := o.(type) {
		case Ptr, Iface, Fn, Builtin, StructV:
			return LT | GT
		case Slice:
			return LT | GT // a non-nil slice value; nil slices are Nil
		case Const:
			return LT | GT
		case *Term:
			if x.Op == "nonnil" {
				return LT | GT
			}
		}
		return st.rel(a, b)
	}
	switch x := a.(type) {
	case Ptr:
		if y, ok := b.(Ptr); ok {
			if x.Key() == y.Key() {
				if o := st.heap[x.Obj]; o != nil && o.Multi {
					return anyRel
				}
				return EQ
			}
			if strings.HasPrefix(x.Obj, "*") && strings.HasPrefix(y.Obj, "*") {
				return anyRel
			}
			return LT | GT
		}
	case Iface:
		if y, ok := b.(Iface); ok {
			if !types.Identical(x.Dyn, y.Dyn) {
				return LT | GT
			}
			if !types.Comparable(x.Dyn) {
				return anyRel
			}
			return in.relate(st, x.V, y.V)
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x.F) == len(y.F) {
			all := true
			for i := range x.F {
				m := in.relate(st, x.F[i], y.F[i])
				if m&EQ == 0 {
					return LT | GT
				}
				if m != EQ {
					all = false
				}
			}
			if all {
				return EQ
			}
			return LT | EQ | GT
		}
	case Fn:
		return anyRel
	case *Term:
		if y, ok := b.(*Term); ok && x.Op == "nonnil" && y.Op == "nonnil" && len(x.Args) == 1 && len(y.Args) == 1 {
			n1, ok1 := rtypeName(x.Args[0])
			n2, ok2 := rtypeName(y.Args[0])
			if ok1 && ok2 {
				if n1 == n2 {
					return EQ
				}
				return LT | GT
			}
		}
	}
	if m := relConcat(in, st, a, b); m != 0 {
		if k := m & st.rel(a, b); k != 0 {
			return k
		}
		return m
	}
	m := st.rel(a, b)
	return m
}

// rtypeName is the dynamic type a reflect.Type value stands for.
func rtypeName(v Val) (string, bool) {
	if n, ok := isStr(v); ok && strings.HasPrefix(n, "rtype ") {
		return strings.TrimPrefix(n, "rtype "), true
	}
	if t, ok := v.(*Term); ok && t.Op == "rtypeof" && len(t.Args) == 1 {
		if i, ok := t.Args[0].(Iface); ok {
			return types.TypeString(i.Dyn, nil), true
		}
	}
	return "", false
}

func pieces(v Val) []Val {
	if t, ok := v.(*Term); ok && t.Op == "cat" {
		return t.Args
	}
	return []Val{v}
}

func mkCat(vs ...Val) Val {
	var out []Val
	for _, v := range vs {
		for _, p := range pieces(v) {
			if s, ok := isStr(p); ok {
				if s == "" {
					continue
				}
				if len(out) > 0 {
					if q, ok := isStr(out[len(out)-1]); ok {
						out[len(out)-1] = cStr(q + s)
						continue
					}
				}
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return cStr("")
	case 1:
		return out[0]
	}
	return mkTerm("cat", types.Typ[types.String], out...)
}

// relConcat compares two string concatenations by stripping common parts.
func relConcat(in *Interp, st *State, a, b Val) int {
	pa, pb := pieces(a), pieces(b)
	if m := relQuoted(in, st, pa, pb); m != 0 {
		return m
	}
	if len(pa) == 1 && len(pb) == 1 {
		return 0
	}
	if m := relWords(in, st, pa, pb); m != 0 {
		return m
	}
	pa, pb = append([]Val(nil), pa...), append([]Val(nil), pb...)
	for k, cs := range [][]Val{pa, pb} {
		// a constant can only equal a concatenation whose constant parts it contains
		if len(cs) == 1 {
			if s, ok := isStr(cs[0]); ok {
				for _, p := range [][]Val{pb, pa}[k] {
					if q, ok := isStr(p); ok && !strings.Contains(s, q) {
						return LT | GT
					}
				}
			}
		}
	}
	trimFront := func() bool {
		if len(pa) == 0 || len(pb) == 0 {
			return false
		}
		if len(pa) == 1 && len(pb) == 1 {
			return false
		}
		x, xs := isStr(pa[0])
		y, ys := isStr(pb[0])
		if xs && ys {
			n := 0
			for n < len(x) && n < len(y) && x[n] == y[n] {
				n++
			}
			if n == 0 {
				return false
			}
			if n == len(x) {
				pa = pa[1:]
			} else {
				pa[0] = cStr(x[n:])
			}
			if n == len(y) {
				pb = pb[1:]
			} else {
				pb[0] = cStr(y[n:])
			}
			return true
		}
		if !xs && !ys && in.relate(st, pa[0], pb[0]) == EQ {
			pa, pb = pa[1:], pb[1:]
			return true
		}
		return false
	}
	trimBack := func() bool {
		if len(pa) == 0 || len(pb) == 0 || (len(pa) == 1 && len(pb) == 1) {
			return false
		}
		i, j := len(pa)-1, len(pb)-1
		x, xs := isStr(pa[i])
		y, ys := isStr(pb[j])
		if xs && ys {
			n := 0
			for n < len(x) && n < len(y) && x[len(x)-1-n] == y[len(y)-1-n] {
				n++
			}
			if n == 0 {
				return false
			}
			if n == len(x) {
				pa = pa[:i]
			} else {
				pa[i] = cStr(x[:len(x)-n])
			}
			if n == len(y) {
				pb = pb[:j]
			} else {
				pb[j] = cStr(y[:len(y)-n])
			}
			return true
		}
		if !xs && !ys && in.relate(st, pa[i], pb[j]) == EQ {
			pa, pb = pa[:i], pb[:j]
			return true
		}
		return false
	}
	for trimFront() {
	}
	for trimBack() {
	}
	switch {
	case len(pa) == 0 && len(pb) == 0:
		return EQ
	case len(pa) == 1 && len(pb) == 1:
		m := in.relate(st, pa[0], pb[0])
		if m == EQ {
			return EQ
		}
		if m&EQ == 0 {
			return LT | GT
		}
		return LT | EQ | GT
	}
	// a constant remainder that must be matched by nothing
	if len(pa) == 0 || len(pb) == 0 {
		rest := append(append([]Val(nil), pa...), pb...)
		for _, r := range rest {
			if s, ok := isStr(r); ok && s != "" || isIdent(st, r) {
				return LT | GT
			}
		}
		return LT | EQ | GT
	}
	if x, ok := isStr(pa[0]); ok {
		if y, ok := isStr(pb[0]); ok && x != "" && y != "" && x[0] != y[0] {
			return LT | GT
		}
	}
	return LT | EQ | GT
}

// decide evaluates a boolean value: 1 true, 0 false, -1 unknown.
func (in *Interp) decide(st *State, v Val) int {
	switch x := v.(type) {
	case Const:
		if b, ok := isBool(x); ok {
			if b {
				return 1
			}
			return 0
		}
	case *Term:
		if x.Op == "!" {
			switch in.decide(st, x.Args[0]) {
			case 1:
				return 0
			case 0:
				return 1
			}
			return -1
		}
		if tok, ok := cmpOps[x.Op]; ok {
			m := in.relate(st, x.Args[0], x.Args[1])
			want := relOf[tok]
			if m&^want == 0 {
				return 1
			}
			if m&want == 0 {
				return 0
			}
			return -1
		}
		m := st.rel(v, cBool(true))
		if m == EQ {
			return 1
		}
		if m&EQ == 0 {
			return 0
		}
	case Sym:
		m := st.rel(v, cBool(true))
		if m == EQ {
			return 1
		}
		if m&EQ == 0 {
			return 0
		}
	case Set:
		r := -2
		for _, m := range x.Vs {
			d := in.decide(st, m)
			if r == -2 {
				r = d
			} else if r != d {
				return -1
			}
		}
		return r
	}
	return -1
}

var cmpOps = map[string]token.Token{"<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ, "==": token.EQL, "!=": token.NEQ}

// assume refines a state by cond==want; sv is the SSA value the condition came
// from, used to filter alternatives kept in registers.
func (in *Interp) assume(st *State, sv ssa.Value, v Val, want bool) (bool, *State) {
	d := in.decide(st, v)
	if d == 1 && !want || d == 0 && want {
		return false, nil
	}
	s := st.clone()
	if d == -1 {
		if !in.constrain(s, v, want) {
			return false, nil
		}
		in.filterRegs(s, sv, want)
		if in.OnAssume != nil {
			in.OnAssume(s)
		}
	}
	return true, s
}

func (in *Interp) constrain(s *State, v Val, want bool) bool {
	switch x := v.(type) {
	case *Term:
		if x.Op == "!" {
			return in.constrain(s, x.Args[0], !want)
		}
		if tok, ok := cmpOps[x.Op]; ok {
			m := relOf[tok]
			if !want {
				m = anyRel &^ m
			}
			a, b := stripConv(x.Args[0], x.Args[1])
			if p, q, ok := bothConv(a, b); ok && m&EQ == 0 && (m&LT == 0 || m&GT == 0) {
				// strictly ordered floats come from strictly ordered integers
				if !in.addRelDeep(s, p, q, m&^UN) {
					return false
				}
			}
			// equality of single-piece concatenations constrains the piece
			return in.addRelDeep(s, a, b, m)
		}
		return s.addRel(v, cBool(true), boolMask(want))
	case Sym:
		return s.addRel(v, cBool(true), boolMask(want))
	case Set:
		var can []Val
		for _, m := range x.Vs {
			d := in.decide(s, m)
			if d == -1 || (d == 1) == want {
				can = append(can, m)
			}
		}
		if len(can) == 0 {
			return false
		}
		if len(can) == 1 {
			return in.constrain(s, can[0], want)
		}
	}
	return true
}

func boolMask(want bool) int {
	if want {
		return EQ
	}
	return LT | GT
}

func (in *Interp) addRelDeep(s *State, a, b Val, m int) bool {
	// interface comparisons against a concrete value fix the dynamic type
	if x, ok := a.(Iface); ok {
		if _, isn := b.(Nil); !isn {
			if y, ok := b.(Iface); ok {
				if types.Identical(x.Dyn, y.Dyn) {
					return in.addRelDeep(s, x.V, y.V, m)
				}
			} else if m == EQ {
				if !in.addDyn(s, b, x.Dyn, true) {
					return false
				}
				in.addRelDeep(s, b, Nil{}, LT|GT)
				in.addRelDeep(s, asTerm(b, x.Dyn), x.V, EQ)
			}
		}
	} else if _, ok := b.(Iface); ok {
		return in.addRelDeep(s, b, a, flip(m))
	}
	return s.addRel(a, b, m)
}

func asTerm(x Val, t types.Type) Val {
	return mkTerm("as:"+types.TypeString(t, nil), t, x)
}

func dynTerm(x Val) Val { return mkTerm("dyn", types.Typ[types.Int], x) }

func (in *Interp) addDyn(s *State, x Val, t types.Type, is bool) bool {
	d := dynTerm(x)
	if _, ok := d.(Top); ok {
		return true
	}
	return s.addRel(d, typeTok(t), boolMask(is))
}

// dynIs: 1 yes, 0 no, -1 unknown
func (in *Interp) dynIs(s *State, x Val, t types.Type) int {
	d := dynTerm(x)
	if _, ok := d.(Top); ok {
		return -1
	}
	tk := typeTok(t)
	m := s.rel(d, tk)
	if m == EQ {
		return 1
	}
	if m&EQ == 0 {
		return 0
	}
	dk := d.Key()
	for _, f := range s.facts {
		if f.M != EQ {
			continue
		}
		if f.A.Key() == dk && f.B.Key() != tk.Key() || f.B.Key() == dk && f.A.Key() != tk.Key() {
			return 0
		}
	}
	if s.rel(x, Nil{}) == EQ {
		return 0
	}
	return -1
}

// filterRegs drops alternatives of registers ruled out by the branch.
func (in *Interp) filterRegs(s *State, sv ssa.Value, want bool) {
	switch x := sv.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			in.filterRegs(s, x.X, !want)
		}
		return
	case *ssa.BinOp:
		if _, ok := relOf[x.Op]; !ok {
			return
		}
		for _, side := range []ssa.Value{x.X, x.Y} {
			other := x.Y
			if side == x.Y {
				other = x.X
			}
			v := in.eval(s, side)
			set, ok := v.(Set)
			if !ok {
				continue
			}
			ov := in.eval(s, other)
			var keep []Val
			for _, m := range set.Vs {
				a, b := m, ov
				if side == x.Y {
					a, b = ov, m
				}
				msk := in.relate(s, a, b)
				w := relOf[x.Op]
				if !want {
					w = anyRel &^ w
				}
				if msk&w != 0 {
					keep = append(keep, m)
				}
			}
			if len(keep) > 0 && len(keep) < len(set.Vs) {
				in.replaceReg(s, side, setOf(keep...))
			}
		}
	default:
		v := in.eval(s, sv)
		if set, ok := v.(Set); ok {
			var keep []Val
			for _, m := range set.Vs {
				d := in.decide(s, m)
				if d == -1 || (d == 1) == want {
					keep = append(keep, m)
				}
			}
			if len(keep) > 0 {
				in.replaceReg(s, sv, setOf(keep...))
			}
		}
	}
}

// replaceReg narrows a register and, when it was loaded from memory, that cell.
func (in *Interp) replaceReg(s *State, sv ssa.Value, v Val) {
	s.env[sv] = v
	switch x := sv.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			ps, unk, _ := in.resolve(s, in.eval(s, x.X), x.X.Type())
			if len(ps) == 1 && !unk {
				o := s.heap[ps[0].Obj]
				if o != nil && !o.Multi && !strings.Contains(ps[0].Path, "*") {
					in.storePtr(s, ps[0], v, false)
				}
			}
		}
	case *ssa.ChangeInterface:
		if _, ok := s.env[x.X]; ok {
			s.env[x.X] = v
		}
	}
}

func (in *Interp) trace(fn *ssa.Function) {
	if in.traced == nil {
		in.traced = map[*ssa.Function]bool{}
	}
	if in.traced[fn] || strings.Contains(fn.Name(), "NewEvaluationError") || strings.HasPrefix(fn.Name(), "init") || fn.Name() == "NewEngine" {
		return
	}
	in.traced[fn] = true
	in.Trace = append(in.Trace, fn)
}
