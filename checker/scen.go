package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// World is the abstract state after all package initialisers have been
// analysed, from which every scenario starts.
type World struct {
	P       *Program
	Base    *State
	T       *Types
	Initial *Interp
	stats   worldStats
	visited map[*ssa.Function]bool
}

type worldStats struct{ runs, steps, calls, outcomes int }

// Types are the exported types the scenarios are built from.
type Types struct {
	Node, NodePtr, Env, EnvPtr, Lambda, LambdaPtr, Schema, SchemaPtr, TypedSym, Attr, FilePos types.Type
	YMap, YMapPtr, Engine                                                                     types.Type
	Any, AnySlice, NodeSlice, Err                                                             types.Type
	Kind                                                                                      map[string]int
	ModeQuote, ModeEval                                                                       int
	MergeKey                                                                                  string
}

func skipExternalInit(c *Call) ([]Outcome, bool) {
	if c.Fn != nil && c.Fn.Name() == "init" && c.Fn.Signature.Recv() == nil && !isRepoFn(c.Fn) && !c.In.inlined(c.Fn) {
		return []Outcome{{c.St, nil}}, true
	}
	return nil, false
}

func constInt(sp *ssa.Package, name string) int {
	m, ok := sp.Members[name].(*ssa.NamedConst)
	if !ok {
		anchorf("constant %s not found in %s", name, sp.Pkg.Path())
	}
	v, ok := constant.Int64Val(m.Value.Value)
	if !ok {
		anchorf("constant %s is not an integer", name)
	}
	return int(v)
}

func NewWorld(p *Program) *World {
	w := &World{P: p, visited: map[*ssa.Function]bool{}}
	core := p.pkg("core")
	t := &Types{}
	t.Node = p.typ("core", "YispNode")
	t.NodePtr = ptrTo(t.Node)
	t.Env = p.typ("core", "Env")
	t.EnvPtr = ptrTo(t.Env)
	t.Lambda = p.typ("core", "Lambda")
	t.LambdaPtr = ptrTo(t.Lambda)
	t.Schema = p.typ("core", "Schema")
	t.SchemaPtr = ptrTo(t.Schema)
	t.TypedSym = p.typ("core", "TypedSymbol")
	t.Attr = p.typ("core", "Attribute")
	t.FilePos = p.typ("core", "FilePos")
	t.YMap = types.Unalias(p.typ("core", "YispMap"))
	t.YMapPtr = ptrTo(t.YMap)
	t.Engine = p.typ("core", "Engine")
	t.Any = types.NewInterfaceType(nil, nil)
	t.AnySlice = types.NewSlice(types.Universe.Lookup("any").Type())
	t.NodeSlice = types.NewSlice(t.NodePtr)
	t.Err = types.Universe.Lookup("error").Type()
	t.Kind = map[string]int{}
	for _, k := range []string{"Symbol", "Parameter", "Null", "Bool", "Int", "Float", "String", "Array", "Map", "Lambda", "Type"} {
		t.Kind[k] = constInt(core, "Kind"+k)
	}
	t.ModeQuote = constInt(core, "EvalModeQuote")
	t.ModeEval = constInt(core, "EvalModeEval")
	mk, ok := core.Members["YISP_SPECIAL_MERGE_KEY"].(*ssa.NamedConst)
	if !ok {
		anchorf("constant YISP_SPECIAL_MERGE_KEY not found")
	}
	t.MergeKey = constant.StringVal(mk.Value.Value)
	w.T = t

	in := NewInterp(p)
	in.prefix = "base"
	in.Cap = 200 // tables may be built by loops over literals
	in.Hooks = []Hook{skipExternalInit}
	st := newState()
	for _, rel := range []string{"core", "lib", "engine", "cmd"} {
		sp := p.pkg(rel)
		f := sp.Func("init")
		if f == nil {
			anchorf("no initialiser in %s", rel)
		}
		outs := in.CallFn(f, st, nil, nil, "init:"+rel)
		if len(outs) == 0 {
			anchorf("package initialiser of %s does not return", rel)
		}
		st = outs[0].St
		for _, o := range outs[1:] {
			st, _ = joinState(st, o.St)
		}
	}
	st.env = map[ssa.Value]Val{}
	st.dfr = nil
	w.Base = st
	w.Initial = in
	w.forget(st)
	return w
}

// forget makes the package-level state the program changes while it runs
// unknown: a scenario may come after anything.
func (w *World) forget(st *State) {
	init := newShared(w.P).onlyInit()
	for _, f := range w.P.Funcs {
		if init[f] || isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var g *ssa.Global
				switch x := i.(type) {
				case *ssa.Store:
					a := x.Addr
					for g == nil {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							a = fa.X
							continue
						}
						if ia, ok := a.(*ssa.IndexAddr); ok {
							a = ia.X
							continue
						}
						break
					}
					g, _ = a.(*ssa.Global)
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok {
						g, _ = u.X.(*ssa.Global)
					}
				}
				if g == nil {
					continue
				}
				if o := st.heap["global:"+g.String()]; o != nil {

					t := g.Type().(*types.Pointer).Elem()
					n := *o
					n.V = Sym{"the state of " + g.String(), t}
					st.heap["global:"+g.String()] = &n
				}
			}
		}
	}
}

// Scn is one abstract scenario.
type Scn struct {
	W         *World
	In        *Interp
	St        *State
	Name      string
	n         int
	runs      int
	jdepth    int
	jsonFiles map[string]Val
	textFiles map[string]string
	plain     bool // shapes without tags and anchors
	structTag string
	asIs      bool
}

func (w *World) scn(name string, hooks ...Hook) *Scn {
	in := NewInterp(w.P)
	in.loops = w.Initial.loops
	in.Visited = w.visited
	in.Hooks = append(append([]Hook{}, hooks...), skipExternalInit)
	return &Scn{W: w, In: in, St: w.Base.clone(), Name: name}
}

func (s *Scn) fieldIdx(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	anchorf("field %s of %s not found", name, t)
	return -1
}

func (s *Scn) strct(t types.Type, kv map[string]Val) Val {
	z := zeroVal(t).(StructV)
	f := append([]Val(nil), z.F...)
	for k, v := range kv {
		f[s.fieldIdx(t, k)] = v
	}
	return StructV{t, f}
}

func (s *Scn) alloc(label string, t types.Type, v Val) Ptr {
	s.n++
	id := fmt.Sprintf("in:%s#%d", label, s.n)
	s.St.heap[id] = &Obj{Kind: OCell, V: v, T: t}
	return Ptr{id, "", t}
}

func (s *Scn) sym(name string, t types.Type) Val { return Sym{name, t} }
func (s *Scn) str(name string) Val               { return Sym{name, strT} }

func iface(t types.Type, v Val) Val { return Iface{t, v} }

func (s *Scn) anyStr(v Val) Val   { return Iface{strT, v} }
func (s *Scn) anyInt(v Val) Val   { return Iface{intT, v} }
func (s *Scn) anyBool(v Val) Val  { return Iface{boolT, v} }
func (s *Scn) anyFloat(v Val) Val { return Iface{types.Typ[types.Float64], v} }

// node builds a YispNode of the given kind whose Value is v (an interface value).
func (s *Scn) node(label, kind string, v Val, extra ...any) Ptr {
	if v == nil {
		v = Nil{}
	}
	m := map[string]Val{"Kind": cInt(s.W.T.Kind[kind]), "Value": v}
	for i := 0; i+1 < len(extra); i += 2 {
		m[extra[i].(string)] = extra[i+1].(Val)
	}
	return s.alloc(label, s.W.T.Node, s.strct(s.W.T.Node, m))
}

func (s *Scn) strNode(label string, v Val, extra ...any) Ptr {
	return s.node(label, "String", s.anyStr(v), extra...)
}
func (s *Scn) intNode(label string, v Val, extra ...any) Ptr {
	return s.node(label, "Int", s.anyInt(v), extra...)
}

func (s *Scn) attrIn(file Val) Val {
	fp := s.strct(s.W.T.FilePos, map[string]Val{"File": file})
	src := s.list("sources", types.NewSlice(s.W.T.FilePos), fp)
	return s.strct(s.W.T.Attr, map[string]Val{"Sources": src})
}

func (s *Scn) list(label string, t types.Type, el ...Val) Val {
	s.n++
	id := fmt.Sprintf("in:%s#%d", label, s.n)
	s.St.heap[id] = &Obj{Kind: OArr, Known: true, Elems: append([]Val(nil), el...), T: t}
	return Slice{Obj: id, Lo: 0, Hi: len(el), Known: true, T: t}
}

func (s *Scn) nodes(ns ...Ptr) Val {
	var el []Val
	for _, n := range ns {
		el = append(el, n)
	}
	return s.list("args", s.W.T.NodeSlice, el...)
}

// arr is a []any of nodes inside an interface.
func (s *Scn) arr(ns ...Ptr) Val {
	var el []Val
	for _, n := range ns {
		el = append(el, Iface{s.W.T.NodePtr, n})
	}
	return Iface{s.W.T.AnySlice, s.list("arr", s.W.T.AnySlice, el...)}
}

func (s *Scn) arrNode(label string, ns ...Ptr) Ptr { return s.node(label, "Array", s.arr(ns...)) }

// ymap builds an ordered map value; kv alternates key and node pointer.
func (s *Scn) ymap(label string, kv ...Val) Ptr {
	s.n++
	id := fmt.Sprintf("in:%s#%d", label, s.n)
	o := &Obj{Kind: OMap, Ordered: true, T: s.W.T.YMap}
	for i := 0; i+1 < len(kv); i += 2 {
		v := kv[i+1]
		if p, ok := v.(Ptr); ok {
			v = Iface{s.W.T.NodePtr, p}
		}
		o.Entries = append(o.Entries, Entry{K: kv[i], V: v})
	}
	s.St.heap[id] = o
	return Ptr{id, "", s.W.T.YMap}
}

func (s *Scn) gomap(label string, t types.Type, kv ...Val) Ptr {
	s.n++
	id := fmt.Sprintf("in:%s#%d", label, s.n)
	o := &Obj{Kind: OMap, T: t}
	for i := 0; i+1 < len(kv); i += 2 {
		o.Entries = append(o.Entries, Entry{K: kv[i], V: kv[i+1]})
	}
	s.St.heap[id] = o
	return Ptr{id, "", t}
}

func (s *Scn) mapNode(label string, kv ...Val) Ptr {
	return s.node(label, "Map", Iface{s.W.T.YMapPtr, s.ymap(label+".m", kv...)})
}

func (s *Scn) env(label string, parent Val, kv ...Val) Ptr {
	if parent == nil {
		parent = Nil{}
	}
	vars := s.gomap(label+".vars", types.NewMap(strT, s.W.T.NodePtr), kv...)
	return s.alloc(label, s.W.T.Env, s.strct(s.W.T.Env, map[string]Val{"Parent": parent, "Vars": vars}))
}

func (s *Scn) assume(a, b Val, m int) {
	if !s.St.addRel(a, b, m) {
		anchorf("scenario %s: contradictory assumption", s.Name)
	}
}

// distinct declares that the given values differ pairwise.
func (s *Scn) distinct(vs ...Val) {
	for i := range vs {
		for j := i + 1; j < len(vs); j++ {
			s.assume(vs[i], vs[j], LT|GT)
		}
	}
}

// run analyses fn on args from the scenario's state.
func (s *Scn) run(fn *ssa.Function, args ...Val) []Outcome {
	s.W.stats.runs++
	before, calls := s.In.Steps, s.In.Calls
	s.runs++
	outs := s.In.CallFn(fn, s.St, args, nil, fmt.Sprint("root", s.runs))
	s.W.stats.steps += s.In.Steps - before
	s.W.stats.calls += s.In.Calls - calls
	s.W.stats.outcomes += len(outs)
	return outs
}

// engine object ---------------------------------------------------------------

// engine runs NewEngine with the given option fields and returns the receiver.
func (s *Scn) engine(opts map[string]Val) (Val, types.Type) {
	f := s.W.P.fn("engine", "NewEngine")
	ot := s.W.P.typ("engine", "Options")
	outs := s.run(f, s.strct(ot, opts))
	if len(outs) != 1 || len(outs[0].Res) != 1 {
		anchorf("NewEngine: %d outcomes", len(outs))
	}
	s.St = outs[0].St
	return outs[0].Res[0], f.Signature.Results().At(0).Type()
}

func (s *Scn) engMethod(t types.Type, name string) *ssa.Function { return s.W.P.method(t, name) }

// applyOp runs the engine's Apply on a string node naming an operator.
func (s *Scn) applyOp(op string, mode int, args ...Ptr) []Outcome {
	e, et := s.engine(nil)
	return s.applyOn(e, et, s.strNode("car", cStr(op)), mode, args...)
}

func (s *Scn) applyOn(e Val, et types.Type, car Ptr, mode int, args ...Ptr) []Outcome {
	env := s.env("env", nil)
	return s.run(s.engMethod(et, "Apply"), e, car, s.nodes(args...), env, cInt(mode))
}

// reading results ----------------------------------------------------------------

func (s *Scn) isErr(o Outcome) int { // 1 error, 0 no error, -1 unknown
	e := o.Res[len(o.Res)-1]
	m := s.In.relate(o.St, e, Nil{})
	switch {
	case m == EQ:
		return 0
	case m&EQ == 0:
		return 1
	}
	return -1
}

func (s *Scn) field(st *State, node Val, t types.Type, name string) Val {
	i := s.fieldIdx(t, name)
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	var r Val
	for _, m := range members(node) {
		p, ok := m.(Ptr)
		if !ok {
			ps, unk, _ := s.In.resolve(st, m, ptrTo(t))
			if len(ps) != 1 || unk {
				return Top{ft}
			}
			p = ps[0]
		}
		p.Path += fmt.Sprintf(".%d", i)
		r = join(r, s.In.loadPtr(st, p, ft))
	}
	if r == nil {
		return Top{ft}
	}
	return r
}

func (s *Scn) nodeField(st *State, node Val, name string) Val {
	return s.field(st, node, s.W.T.Node, name)
}

func (s *Scn) kindOf(st *State, node Val) string {
	v := s.nodeField(st, node, "Kind")
	if n, ok := isInt(v); ok {
		for k, x := range s.W.T.Kind {
			if x == n {
				return k
			}
		}
	}
	return "?" + v.Key()
}

// value unwraps node.Value when its dynamic type is known.
func (s *Scn) value(st *State, node Val) Val {
	v := s.nodeField(st, node, "Value")
	if i, ok := v.(Iface); ok {
		return i.V
	}
	return v
}

// elems lists the nodes of an array node.
func (s *Scn) elems(st *State, node Val) ([]Val, bool) {
	v := s.value(st, node)
	el, ok := s.In.listElems(st, v)
	if !ok {
		return nil, false
	}
	for i, e := range el {
		if x, ok := e.(Iface); ok {
			el[i] = x.V
		}
	}
	return el, true
}

// entries lists the entries of a map node.
func (s *Scn) entries(st *State, node Val) ([]Entry, bool) {
	v := s.value(st, node)
	p, ok := v.(Ptr)
	if !ok {
		return nil, false
	}
	o := st.heap[p.Obj]
	if o == nil || o.Kind != OMap || o.Base != nil {
		return nil, false
	}
	out := append([]Entry(nil), o.Entries...)
	for i := range out {
		if x, ok := out[i].V.(Iface); ok {
			out[i].V = x.V
		}
	}
	return out, true
}

func (s *Scn) entryKey(es []Entry) string {
	var b []string
	for _, e := range es {
		q := ""
		if e.Maybe {
			q = "?"
		}
		b = append(b, e.K.Key()+q+"="+e.V.Key())
	}
	return strings.Join(b, ", ")
}

func (s *Scn) events(tag string) []*Event {
	var out []*Event
	for _, e := range s.In.Events {
		if strings.HasPrefix(e.Tag, tag) {
			out = append(out, e)
		}
	}
	return out
}

// describe renders a value for messages.
func (s *Scn) describe(st *State, v Val) string {
	p, ok := v.(Ptr)
	if !ok {
		return v.Key()
	}
	if o := st.heap[p.Obj]; o != nil && p.Path == "" && o.T != nil && types.Identical(o.T, s.W.T.Node) {
		return fmt.Sprintf("%s{%s %s}", v.Key(), s.kindOf(st, v), s.nodeField(st, v, "Value").Key())
	}
	return v.Key()
}

func factsString(st *State) string {
	var out []string
	for _, f := range st.facts {
		rel := ""
		for _, x := range []struct {
			m int
			s string
		}{{LT, "<"}, {EQ, "="}, {GT, ">"}} {
			if f.M&x.m != 0 {
				rel += x.s
			}
		}
		out = append(out, f.A.Key()+" "+rel+" "+f.B.Key())
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func implementsEngine(w *World, f *ssa.Function) bool {
	it, ok := w.T.Engine.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	return types.Implements(f.Signature.Recv().Type(), it)
}

// any builds a node nothing is known about: neither its kind nor its value nor its tag,
// except that it is none of the given kinds.
func (s *Scn) any(label string, not ...string) Ptr {
	kt := s.field0(s.W.T.Node, "Kind")
	k := s.sym(label+".kind", kt)
	max := 0
	for _, n := range s.W.T.Kind {
		if n > max {
			max = n
		}
	}
	s.assume(k, cInt(0), EQ|GT)
	s.assume(k, cInt(max), EQ|LT)
	for _, n := range not {
		s.assume(k, cInt(s.W.T.Kind[n]), LT|GT)
	}
	m := map[string]Val{"Kind": k, "Value": s.sym(label+".value", s.field0(s.W.T.Node, "Value")), "Tag": s.str(label + ".tag")}
	return s.alloc(label, s.W.T.Node, s.strct(s.W.T.Node, m))
}

// field0 is the type of a field.
func (s *Scn) field0(t types.Type, name string) types.Type {
	return t.Underlying().(*types.Struct).Field(s.fieldIdx(t, name)).Type()
}

// bare builds a node of a kind with an ordinary value of that kind.
func (s *Scn) bare(label, kind string) Ptr {
	switch kind {
	case "Symbol", "Parameter", "String":
		return s.node(label, kind, s.anyStr(s.str(label)))
	case "Null":
		return s.node(label, kind, nil)
	case "Bool":
		return s.node(label, kind, s.anyBool(s.sym(label, boolT)))
	case "Int":
		return s.intNode(label, s.sym(label, intT))
	case "Float":
		return s.node(label, kind, s.anyFloat(s.sym(label, types.Typ[types.Float64])))
	case "Array":
		return s.arrNode(label, s.node(label+"0", "Null", nil))
	case "Map":
		return s.mapNode(label, s.str(label+".k"), s.node(label+"0", "Null", nil))
	case "Lambda":
		body := s.node(label+".body", "Null", nil)
		env := s.env(label+".env", nil)
		lam := s.alloc(label+".lambda", s.W.T.Lambda, s.strct(s.W.T.Lambda, map[string]Val{"Body": body, "Clojure": env}))
		return s.node(label, kind, Iface{s.W.T.LambdaPtr, lam})
	case "Type":
		sch := s.alloc(label+".schema", s.W.T.Schema, s.strct(s.W.T.Schema, map[string]Val{"Type": s.str(label + ".type")}))
		return s.node(label, kind, Iface{s.W.T.SchemaPtr, sch})
	}
	anchorf("no value of kind %s", kind)
	return Ptr{}
}

var allKinds = []string{"Symbol", "Parameter", "Null", "Bool", "Int", "Float", "String", "Array", "Map", "Lambda", "Type"}
