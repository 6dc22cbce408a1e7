package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fnName is the callee name with type arguments removed.
func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return stripArgs(fn.String())
}

func stripArgs(s string) string {
	if !strings.Contains(s, "[") {
		return s
	}
	var b strings.Builder
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '[':
			d++
		case ']':
			d--
		default:
			if d == 0 {
				b.WriteByte(s[i])
			}
		}
	}
	return b.String()
}

func isRepoFn(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	if pk == nil {
		return false
	}
	p := pk.Path()
	return (p == modPath || strings.HasPrefix(p, modPath+"/")) && !strings.HasPrefix(p, modPath+"/internal/")
}

func (in *Interp) inlined(fn *ssa.Function) bool {
	if len(in.Inline) == 0 {
		return false
	}
	pk := fnPkg(fn)
	return pk != nil && in.Inline[pk.Path()]
}

func (in *Interp) calleeVal(st *State, c *ssa.CallCommon) Val {
	if c.IsInvoke() {
		return in.eval(st, c.Value)
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			return in.eval(st, mc)
		}
		return Fn{f, nil}
	}
	return in.eval(st, c.Value)
}

func (in *Interp) call(st *State, site ssa.Instruction, c *ssa.CallCommon, res ssa.Value) []*State {
	var args []Val
	for _, a := range c.Args {
		args = append(args, in.eval(st, a))
	}
	return in.callVals(st, site, c, res, in.calleeVal(st, c), args)
}

func (in *Interp) callCtx(site ssa.Instruction) string {
	f := in.stack[len(in.stack)-1]
	pos := 0
	if b := site.Block(); b != nil {
		for i, x := range b.Instrs {
			if x == site {
				pos = b.Index*100000 + i
			}
		}
	}
	return in.id(fmt.Sprintf("ctx|%s|%s|%s|%d", f.fn.String(), f.ctx, f.part, pos))
}

func (in *Interp) callVals(st *State, site ssa.Instruction, c *ssa.CallCommon, res ssa.Value, fv Val, args []Val) []*State {
	var outs []Outcome
	alts := members(fv)
	for _, f := range alts {
		s := st
		if len(alts) > 1 {
			s = st.clone()
		}
		if c.IsInvoke() {
			outs = append(outs, in.invoke(s, site, c, f, args)...)
			continue
		}
		switch x := f.(type) {
		case Fn:
			outs = append(outs, in.callFunc(s, site, x.F, args, x.B)...)
		case Builtin:
			outs = append(outs, in.builtin(s, site, x.Name, args, c)...)
		case Nil:
			in.event(s, "panic", site, cStr("call of nil function"))
		default:
			call := &Call{In: in, St: s, Site: site, Name: "dynamic", Recv: f, Args: args, Sig: c.Signature(), Ctx: in.callCtx(site)}
			if o, ok := in.tryHooks(call); ok {
				outs = append(outs, o...)
			} else {
				outs = append(outs, in.externalDefault(call))
			}
		}
	}
	var states []*State
	for _, o := range outs {
		if o.St == nil || o.St.dead {
			continue
		}
		if res != nil {
			switch n := c.Signature().Results().Len(); {
			case n == 0:
			case n == 1:
				if len(o.Res) > 0 {
					o.St.env[res] = o.Res[0]
				} else {
					o.St.env[res] = Top{c.Signature().Results().At(0).Type()}
				}
			default:
				o.St.env[res] = Tuple{o.Res}
			}
			if b, ok := c.Value.(*ssa.Builtin); ok && len(o.Res) > 0 {
				_ = b
				o.St.env[res] = o.Res[0]
			}
		}
		states = append(states, o.St)
	}
	return states
}

func (in *Interp) tryHooks(c *Call) ([]Outcome, bool) {
	for _, h := range in.Hooks {
		if o, ok := h(c); ok {
			return o, true
		}
	}
	return nil, false
}

func (in *Interp) invoke(st *State, site ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val) []Outcome {
	m := c.Method
	name := stripArgs(m.FullName())
	call := &Call{In: in, St: st, Site: site, Name: name, Recv: recv, Args: args, Sig: c.Signature(), Ctx: in.callCtx(site)}
	if _, isNil := recv.(Nil); isNil {
		in.event(st, "panic", site, cStr("nil interface call"))
		return nil
	}
	if o, ok := in.tryHooks(call); ok {
		return o
	}
	if i, ok := recv.(Iface); ok {
		ms := in.P.SSA.MethodSets.MethodSet(i.Dyn)
		if sel := ms.Lookup(m.Pkg(), m.Name()); sel != nil {
			if f := in.P.SSA.MethodValue(sel); f != nil {
				return in.callFunc(st, site, f, append([]Val{i.V}, args...), nil)
			}
		}
	}
	if f, ok := models[name]; ok {
		call.Args = append([]Val{recv}, args...)
		if o, ok := f(call); ok {
			return o
		}
		call.Args = args
	}
	call.Args = append([]Val{recv}, args...)
	return []Outcome{in.externalDefault(call)}
}

func (in *Interp) callFunc(st *State, site ssa.Instruction, fn *ssa.Function, args, binds []Val) []Outcome {
	name := fnName(fn)
	ctx := in.callCtx(site)
	call := &Call{In: in, St: st, Site: site, Name: name, Fn: fn, Args: args, Sig: fn.Signature, Ctx: ctx}
	if o, ok := in.tryHooks(call); ok {
		return o
	}
	if isVseq(fn) {
		return []Outcome{{st, []Val{mkTerm("vseq", fn.Signature.Results().At(0).Type(), args[0])}}}
	}
	if len(fn.Blocks) > 0 && (isRepoFn(fn) || in.inlined(fn) || fnPkg(fn) == nil || fn.Synthetic != "" && isRepoFn(fn)) {
		return in.CallFn(fn, st, args, binds, ctx)
	}
	if f, ok := models[name]; ok {
		if o, ok := f(call); ok {
			return o
		}
	}
	if len(fn.Blocks) > 0 {
		if pk := fnPkg(fn); pk != nil {
			for _, p := range interpretedPkgs {
				if pk.Path() == p {
					return in.CallFn(fn, st, args, binds, ctx)
				}
			}
		}
	}
	return []Outcome{in.externalDefault(call)}
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path": true, "path/filepath": true, "unicode": true, "unicode/utf8": true, "math": true,
	"bytes": true, "regexp": true, "errors": true, "encoding/base64": true, "encoding/hex": true, "net/url": true, "slices": true, "maps": true, "cmp": true,
	"crypto/sha256": true, "reflect": true, "html": true, "sort": true, "math/bits": true,
}

func (c *Call) pkgPath() string {
	if c.Fn != nil {
		f := c.Fn
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	s := strings.TrimPrefix(strings.TrimPrefix(c.Name, "("), "*")
	if i := strings.LastIndex(s, "/"); i >= 0 {
		j := strings.Index(s[i:], ".")
		if j >= 0 {
			return s[:i+j]
		}
	}
	if j := strings.Index(s, "."); j >= 0 {
		return s[:j]
	}
	return s
}

// snap replaces references to mutable storage by its present contents.
func (in *Interp) snap(st *State, v Val, d int) Val {
	switch x := v.(type) {
	case Slice:
		if x.Known {
			var el []Val
			if o := st.heap[x.Obj]; o != nil && o.Known {
				for i := x.Lo; i < x.Hi && i < len(o.Elems); i++ {
					el = append(el, in.snap(st, o.Elems[i], d+1))
				}
				return mkTerm("list", x.T, el...)
			}
		}
		return Top{x.T}
	case Iface:
		s := in.snap(st, x.V, d)
		if _, ok := s.(Top); ok {
			return s
		}
		return Iface{x.Dyn, s}
	}
	return v
}

func (in *Interp) externalDefault(c *Call) Outcome {
	st := c.St
	if in.Watch != nil && in.Watch(c.Name) {
		in.event(st, "call:"+c.Name, c.Site, c.Args...)
		st.must["call:"+c.Name] = true
	}
	if in.External != nil {
		in.External(c)
	}
	// function arguments may be called
	for _, a := range c.Args {
		if f, ok := a.(Fn); ok && f.F != nil && len(f.F.Blocks) > 0 && isRepoFn(f.F) {
			var fa []Val
			for i := 0; i < f.F.Signature.Params().Len(); i++ {
				fa = append(fa, in.fresh(st, fmt.Sprintf("cb%d", i), f.F.Signature.Params().At(i).Type(), c.Site))
			}
			base := st.clone()
			for _, o := range in.callFunc(st.clone(), c.Site, f.F, fa, f.B) {
				base, _ = joinState(base, o.St)
			}
			env := st.env
			*st = *base
			st.env = env
		}
	}
	pure := purePkgs[c.pkgPath()] && !(c.Fn != nil && c.Fn.Signature.Recv() != nil && !strings.HasPrefix(c.Name, "(*regexp.") && !strings.HasPrefix(c.Name, "(*net/url.") && !strings.HasPrefix(c.Name, "(reflect."))
	short := c.Name
	if i := strings.LastIndexAny(short, "."); i >= 0 {
		short = short[i+1:]
	}
	if !pure {
		for _, w := range []string{"Unmarshal", "Decode", "Scan", "As", "Read", "Lookup"} {
			if strings.Contains(short, w) {
				for i, a := range c.Args {
					if i == 0 && c.Sig.Recv() != nil {
						continue
					}
					in.havocPtr(st, a, c.Site)
				}
				break
			}
		}
	}
	n := c.Sig.Results().Len()
	res := make([]Val, n)
	for i := 0; i < n; i++ {
		t := c.Sig.Results().At(i).Type()
		op := "call:" + c.Name
		if n > 1 {
			op += fmt.Sprintf("#%d", i)
		}
		if pure {
			var as []Val
			for _, a := range c.Args {
				as = append(as, in.snap(st, a, 0))
			}
			res[i] = mkTerm(op, t, as...)
			if _, ok := res[i].(Top); ok {
				res[i] = in.fresh(st, op, t, c.Site)
			}
		} else {
			res[i] = in.fresh(st, op, t, c.Site)
		}
	}
	return Outcome{st, res}
}

func (in *Interp) havocPtr(st *State, v Val, site ssa.Instruction) {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	p, ok := v.(Ptr)
	if !ok {
		return
	}
	o := in.ensure(st, p)
	if o.Kind == OMap {
		c := o.clone()
		c.Base = in.fresh(st, "filled", p.T, site)
		st.heap[p.Obj] = c
		return
	}
	t := p.T
	if t == nil {
		t = o.T
	}
	if t == nil {
		return
	}
	in.storePtr(st, p, in.fresh(st, "filled", t, site), false)
}

// havocCall stands for a call that is not followed (recursion bound).
func (in *Interp) havocCall(st *State, name string, sig *types.Signature, args []Val, ctx string) Outcome {
	res := make([]Val, sig.Results().Len())
	for i := range res {
		res[i] = Top{sig.Results().At(i).Type()}
	}
	for _, a := range args {
		if p, ok := a.(Ptr); ok {
			if o := st.heap[p.Obj]; o != nil {
				c := o.clone()
				switch c.Kind {
				case OCell:
					c.V = Top{c.T}
				case OArr:
					c.Known, c.V, c.Elems = false, Top{elemOf(c.T)}, nil
				case OMap:
					c.Entries, c.Base = nil, Top{}
				}
				st.heap[p.Obj] = c
			}
		}
	}
	in.event(st, "cut", nil, cStr(name))
	return Outcome{st, res}
}

// builtins -----------------------------------------------------------------------

func (in *Interp) builtin(st *State, site ssa.Instruction, name string, args []Val, c *ssa.CallCommon) []Outcome {
	ret := func(v ...Val) []Outcome { return []Outcome{{st, v}} }
	var rt types.Type
	if r := c.Signature().Results(); r != nil && r.Len() > 0 {
		rt = r.At(0).Type()
	}
	switch name {
	case "len":
		return ret(in.lenOf(st, args[0]))
	case "cap":
		if s, ok := args[0].(Slice); ok && s.Known {
			if o := st.heap[s.Obj]; o != nil && o.Known {
				return ret(cInt(len(o.Elems) - s.Lo))
			}
		}
		return ret(in.fresh(st, "cap", types.Typ[types.Int], site))
	case "append":
		return ret(in.appendVals(st, site, args[0], args[1], rt))
	case "copy":
		in.copySlice(st, args[0], args[1])
		return ret(Top{types.Typ[types.Int]})
	case "delete":
		ps, _, _ := in.mapObjs(st, args[0], valTypeOr(args[0]))
		for _, p := range ps {
			for _, k := range members(args[1]) {
				in.mapDel(st, p, k)
			}
		}
		return ret()
	case "clear":
		for _, m := range members(args[0]) {
			if p, ok := m.(Ptr); ok {
				if o := st.heap[p.Obj]; o != nil && o.Kind == OMap {
					n := o.clone()
					n.Entries, n.Base, n.Deleted = nil, nil, nil
					st.heap[p.Obj] = n
				}
			}
		}
		return ret()
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			m := in.relate(st, r, a)
			switch {
			case m&^(LT|EQ) == 0:
				if name == "max" {
					r = a
				}
			case m&^(GT|EQ) == 0:
				if name == "min" {
					r = a
				}
			default:
				return ret(mkTerm(name, rt, args...))
			}
		}
		return ret(r)
	case "recover":
		return ret(Nil{})
	case "panic":
		in.event(st, "panic", site, args...)
		return nil
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "close", "print", "println":
		return ret()
	}
	if rt != nil {
		return ret(Top{rt})
	}
	return ret()
}

func valTypeOr(v Val) types.Type {
	if t := valType(v); t != nil {
		return t
	}
	return types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
}

// listElems gives the elements of a slice when they are all known.
func (in *Interp) listElems(st *State, v Val) ([]Val, bool) {
	switch s := v.(type) {
	case Nil:
		return nil, true
	case Slice:
		if s.Known {
			o := st.heap[s.Obj]
			if o == nil || !o.Known || s.Hi > len(o.Elems) {
				return nil, false
			}
			return append([]Val(nil), o.Elems[s.Lo:s.Hi]...), true
		}
	case *Term:
		if s.Op == "list" {
			return append([]Val(nil), s.Args...), true
		}
	}
	return nil, false
}

func (in *Interp) newList(st *State, site ssa.Instruction, extra string, t types.Type, el []Val) Val {
	id := in.objID(site, "list"+extra)
	in.newObj(st, id, &Obj{Kind: OArr, Known: true, Elems: el, T: t})
	if o := st.heap[id]; !o.Known {
		return Slice{Obj: id, Len: Top{types.Typ[types.Int]}, T: t}
	}
	return Slice{Obj: id, Lo: 0, Hi: len(el), Known: true, T: t}
}

func (in *Interp) appendVals(st *State, site ssa.Instruction, a, b Val, t types.Type) Val {
	if len(members(a)) > 1 || len(members(b)) > 1 {
		var r Val
		n := 0
		for _, x := range members(a) {
			for _, y := range members(b) {
				n++
				r = join(r, in.appendOne(st, site, fmt.Sprint(n), x, y, t))
			}
		}
		return r
	}
	return in.appendOne(st, site, "", a, b, t)
}

func (in *Interp) appendOne(st *State, site ssa.Instruction, x string, a, b Val, t types.Type) Val {
	ea, oka := in.listElems(st, a)
	eb, okb := in.listElems(st, b)
	if s, ok := a.(Slice); ok && oka && okb && len(eb) > 0 && s.Known {
		// spare capacity is overwritten in place
		if o := st.heap[s.Obj]; o != nil && o.Known && s.Hi+len(eb) <= len(o.Elems) {
			n := o.clone()
			copy(n.Elems[s.Hi:], eb)
			st.heap[s.Obj] = n
			return Slice{Obj: s.Obj, Lo: s.Lo, Hi: s.Hi + len(eb), Known: true, T: t}
		}
	}
	if oka && okb && len(ea)+len(eb) <= 200 {
		return in.newList(st, site, x, t, append(ea, eb...))
	}
	if okb && len(eb) == 0 {
		return a
	}
	var e Val
	sum := func(v Val, el []Val, ok bool) {
		if ok {
			for _, y := range el {
				e = join(e, y)
			}
			return
		}
		if s, isS := v.(Slice); isS {
			if o := st.heap[s.Obj]; o != nil {
				if y := o.elem(); y != nil {
					e = join(e, y)
					return
				}
			}
		}
		e = join(e, mkTerm("anyelem", elemOf(t), v))
	}
	sum(a, ea, oka)
	sum(b, eb, okb)
	if e == nil {
		e = Top{elemOf(t)}
	}
	id := in.objID(site, "app"+x)
	l := in.binop(st, token.ADD, in.lenOf(st, a), in.lenOf(st, b), types.Typ[types.Int])
	in.newObj(st, id, &Obj{Kind: OArr, V: e, T: t})
	return Slice{Obj: id, Len: l, T: t}
}

func (in *Interp) copySlice(st *State, dst, src Val) {
	d, ok := dst.(Slice)
	if !ok {
		return
	}
	el, known := in.listElems(st, src)
	o := st.heap[d.Obj]
	if o == nil {
		return
	}
	o = o.clone()
	if known && d.Known && o.Known && !o.Multi {
		for i, e := range el {
			if d.Lo+i < d.Hi && d.Lo+i < len(o.Elems) {
				o.Elems[d.Lo+i] = e
			}
		}
	} else {
		var e Val
		if known {
			for _, y := range el {
				e = join(e, y)
			}
		} else if s, ok := src.(Slice); ok && st.heap[s.Obj] != nil {
			e = st.heap[s.Obj].elem()
		}
		if e == nil && !known {
			e = mkTerm("anyelem", elemOf(d.T), src)
		}
		if e != nil {
			if o.Known {
				for i := range o.Elems {
					o.Elems[i] = join(o.Elems[i], e)
				}
			} else {
				o.V = join(o.V, e)
			}
		}
	}
	st.heap[d.Obj] = o
}

// sorted list of constants, or nil
func sortConsts(el []Val) bool {
	for _, e := range el {
		if _, ok := e.(Const); !ok {
			return false
		}
	}
	sort.SliceStable(el, func(i, j int) bool {
		return constant.Compare(el[i].(Const).C, token.LSS, el[j].(Const).C)
	})
	return true
}
