package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exec applies one instruction; several states come back when the outcome
// depends on an unresolved condition (a map lookup, a failing assertion).
func (in *Interp) exec(st *State, instr ssa.Instruction, fr *frame) []*State {
	one := func(v ssa.Value, x Val) []*State {
		st.env[v] = x
		return []*State{st}
	}
	switch x := instr.(type) {
	case *ssa.DebugRef:
		return []*State{st}
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		id := in.objID(x, "")
		if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 256 {
			el := make([]Val, a.Len())
			for i := range el {
				el[i] = zeroVal(a.Elem())
			}
			in.newObj(st, id, &Obj{Kind: OArr, Known: true, Elems: el, T: t})
		} else {
			in.newObj(st, id, &Obj{Kind: OCell, V: zeroVal(t), T: t})
		}
		return one(x, Ptr{id, "", t})
	case *ssa.BinOp:
		return one(x, in.binop(st, x.Op, in.eval(st, x.X), in.eval(st, x.Y), x.Type()))
	case *ssa.UnOp:
		v := in.eval(st, x.X)
		switch x.Op {
		case token.MUL:
			_, _, nilable := in.resolve(st, v, x.X.Type())
			if _, isNil := v.(Nil); isNil && nilable {
				in.event(st, "panic", x, cStr("nil dereference"))
				return nil
			}
			return one(x, in.load(st, v, x.Type(), x.X.Type()))
		case token.NOT:
			switch in.decide(st, v) {
			case 1:
				return one(x, cBool(false))
			case 0:
				return one(x, cBool(true))
			}
			if t, ok := v.(*Term); ok && t.Op == "!" {
				return one(x, t.Args[0])
			}
			return one(x, mkTerm("!", x.Type(), v))
		case token.SUB:
			if c, ok := v.(Const); ok {
				return one(x, Const{constant.UnaryOp(token.SUB, c.C, 0)})
			}
			return one(x, mkTerm("neg", x.Type(), v))
		case token.ARROW:
			f := in.fresh(st, "recv", x.Type(), x)
			return one(x, f)
		default:
			return one(x, mkTerm("un"+x.Op.String(), x.Type(), v))
		}
	case *ssa.ChangeInterface:
		return one(x, in.eval(st, x.X))
	case *ssa.ChangeType:
		return one(x, in.eval(st, x.X))
	case *ssa.MultiConvert:
		return one(x, Top{x.Type()})
	case *ssa.Convert:
		return one(x, in.convert(st, in.eval(st, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		return one(x, Top{x.Type()})
	case *ssa.MakeInterface:
		v := in.eval(st, x.X)
		var r Val
		for _, m := range members(v) {
			r = join(r, Iface{x.X.Type(), m})
		}
		return one(x, r)
	case *ssa.Extract:
		v := in.eval(st, x.Tuple)
		if t, ok := v.(Tuple); ok && x.Index < len(t.Vs) {
			return one(x, t.Vs[x.Index])
		}
		if s, ok := v.(Set); ok {
			var r Val
			for _, m := range s.Vs {
				if t, ok := m.(Tuple); ok && x.Index < len(t.Vs) {
					r = join(r, t.Vs[x.Index])
				} else {
					r = join(r, Top{x.Type()})
				}
			}
			return one(x, r)
		}
		return one(x, Top{x.Type()})
	case *ssa.Field:
		return one(x, typed(readPath(in.eval(st, x.X), []step{{true, x.Field}}), x.Type()))
	case *ssa.FieldAddr:
		v := in.eval(st, x.X)
		if _, isNil := v.(Nil); isNil {
			in.event(st, "panic", x, cStr("nil dereference"))
			return nil
		}
		ps, unk, _ := in.resolve(st, v, x.X.Type())
		et := x.Type().Underlying().(*types.Pointer).Elem()
		var r Val
		for _, p := range ps {
			r = join(r, Ptr{p.Obj, p.Path + fmt.Sprintf(".%d", x.Field), et})
		}
		if unk || r == nil {
			return one(x, Top{x.Type()})
		}
		return one(x, r)
	case *ssa.Index:
		v := in.eval(st, x.X)
		iv := in.eval(st, x.Index)
		if i, ok := isInt(iv); ok {
			if s, ok := isStr(v); ok {
				if i < 0 || i >= len(s) {
					in.event(st, "panic", x, cStr("index out of range"))
					return nil
				}
				return one(x, cInt(int(s[i])))
			}
			return one(x, typed(readPath(v, []step{{false, i}}), x.Type()))
		}
		if _, ok := v.(StructV); ok {
			return one(x, typed(readPath(v, []step{{false, -1}}), x.Type()))
		}
		return one(x, mkTerm("index", x.Type(), v, iv))
	case *ssa.IndexAddr:
		return in.indexAddr(st, x)
	case *ssa.Lookup:
		m := in.eval(st, x.X)
		k := in.eval(st, x.Index)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if s, ok := isStr(m); ok {
				if i, ok := isInt(k); ok {
					if i < 0 || i >= len(s) {
						in.event(st, "panic", x, cStr("index out of range"))
						return nil
					}
					return one(x, cInt(int(s[i])))
				}
			}
			if ps, ok := idPieces(st, m); ok {
				if i, ok := isInt(k); ok {
					if s, ok := isStr(ps[0]); ok && i >= 0 && i < len(s) {
						return one(x, cInt(int(s[i])))
					}
				} else if base, off := splitSum(k); base != nil && base.Key() == in.lenOf(st, m).Key() {
					if s, ok := isStr(ps[len(ps)-1]); ok && -off >= 1 && -off <= len(s) {
						return one(x, cInt(int(s[len(s)+off])))
					}
				}
			}
			return one(x, mkTerm("index", types.Typ[types.Byte], m, k))
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		var out []*State
		for _, r := range in.mapGetVal(st, m, k, et, x.X.Type()) {
			if x.CommaOk {
				r.St.env[x] = Tuple{[]Val{r.V, cBool(r.Ok)}}
			} else {
				r.St.env[x] = r.V
			}
			out = append(out, r.St)
		}
		return out
	case *ssa.MapUpdate:
		return in.mapPutVal(st, in.eval(st, x.Map), in.eval(st, x.Key), in.eval(st, x.Value), x.Map.Type(), x)
	case *ssa.MakeMap:
		id := in.objID(x, "")
		in.newObj(st, id, &Obj{Kind: OMap, T: x.Type()})
		return one(x, Ptr{id, "", x.Type()})
	case *ssa.MakeSlice:
		return one(x, in.makeSlice(st, x, x.Type(), in.eval(st, x.Len)))
	case *ssa.MakeChan:
		return one(x, in.fresh(st, "chan", x.Type(), x))
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range x.Bindings {
			b = append(b, in.eval(st, v))
		}
		return one(x, Fn{x.Fn.(*ssa.Function), b})
	case *ssa.Slice:
		return in.slice(st, x)
	case *ssa.Store:
		a := in.eval(st, x.Addr)
		if _, isNil := a.(Nil); isNil {
			in.event(st, "panic", x, cStr("nil dereference"))
			return nil
		}
		in.store(st, a, in.eval(st, x.Val), x.Addr.Type())
		if in.OnStore != nil {
			in.OnStore(st, x, a, in.eval(st, x.Val))
		}
		return []*State{st}
	case *ssa.TypeAssert:
		return in.typeAssert(st, x)
	case *ssa.Range:
		c := in.eval(st, x.X)
		id := in.objID(x, "it")
		in.newObj(st, id, &Obj{Kind: OIter, V: c, Pos: cInt(0), T: x.X.Type()})
		return one(x, Ptr{id, "", x.Type()})
	case *ssa.Next:
		return in.next(st, x)
	case *ssa.Call:
		return in.call(st, x, &x.Call, x)
	case *ssa.Go:
		outs := in.call(st.clone(), x, &x.Call, nil)
		for _, o := range outs {
			if !o.dead {
				st, _ = joinState(st, o)
			}
		}
		return []*State{st}
	case *ssa.Defer:
		d := deferred{call: x, fn: in.calleeVal(st, &x.Call)}
		for _, a := range x.Call.Args {
			d.args = append(d.args, in.eval(st, a))
		}
		st.dfr = append(append([]deferred(nil), st.dfr...), d)
		return []*State{st}
	case *ssa.RunDefers:
		states := []*State{st}
		ds := st.dfr
		for i := len(ds) - 1; i >= 0; i-- {
			var out []*State
			for _, s := range states {
				s.dfr = nil
				out = append(out, in.callVals(s, ds[i].call, &ds[i].call.Call, nil, ds[i].fn, ds[i].args)...)
			}
			states = out
		}
		return states
	case *ssa.Send:
		return []*State{st}
	case *ssa.Select:
		return one(x, Top{x.Type()})
	}
	if v, ok := instr.(ssa.Value); ok {
		return one(v, Top{v.Type()})
	}
	return []*State{st}
}

func typed(v Val, t types.Type) Val {
	if tp, ok := v.(Top); ok && tp.T == nil {
		return Top{t}
	}
	return v
}

func (in *Interp) binop(st *State, op token.Token, a, b Val, t types.Type) Val {
	if sa, ok := a.(Set); ok {
		var r Val
		for _, m := range sa.Vs {
			r = join(r, in.binop(st, op, m, b, t))
		}
		return r
	}
	if sb, ok := b.(Set); ok {
		var r Val
		for _, m := range sb.Vs {
			r = join(r, in.binop(st, op, a, m, t))
		}
		return r
	}
	if x, ok := a.(Iface); ok && (op == token.EQL || op == token.NEQ) {
		if y, ok := b.(Iface); ok && types.Identical(x.Dyn, y.Dyn) {
			if _, ok := x.Dyn.Underlying().(*types.Basic); ok {
				a, b = x.V, y.V
			}
		}
	}
	if op == token.EQL || op == token.NEQ {
		// a boolean compared with a constant is itself or its negation
		for i, x := range []Val{a, b} {
			if c, ok := isBool(x); ok {
				o := b
				if i == 1 {
					o = a
				}
				if _, ok := isBool(o); ok {
					break
				}
				switch in.decide(st, o) {
				case 1:
					return cBool(c == (op == token.EQL))
				case 0:
					return cBool(c != (op == token.EQL))
				}
				if _, ok := o.(*Term); ok {
					if c == (op == token.EQL) {
						return o
					}
					return mkTerm("!", types.Typ[types.Bool], o)
				}
			}
		}
	}
	if want, ok := relOf[op]; ok {
		m := in.relate(st, a, b)
		if x, y, ok := specials(a, b); ok {
			m = relFloat(x, y)
		} else if m == EQ && a.Key() == b.Key() && floatOperand(a) {
			m |= UN // not a number is not itself
		}
		if m&^want == 0 {
			return cBool(true)
		}
		if m&want == 0 {
			return cBool(false)
		}
		return mkTerm(op.String(), types.Typ[types.Bool], a, b)
	}
	ca, oka := a.(Const)
	cb, okb := b.(Const)
	if oka && okb {
		if r, ok := foldConst(op, ca.C, cb.C, t); ok {
			return Const{r}
		}
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && op == token.ADD {
		if _, ok := a.(Top); ok {
			return Top{t}
		}
		if _, ok := b.(Top); ok {
			return Top{t}
		}
		return mkCat(a, b)
	}
	if op == token.ADD || op == token.SUB {
		// a + c folding
		base, off := splitSum(a)
		base2, off2 := splitSum(b)
		if base2 == nil {
			n := off + off2
			if op == token.SUB {
				n = off - off2
			}
			return mkSum(base, n, t)
		}
		if base == nil && op == token.ADD {
			return mkSum(base2, off+off2, t)
		}
		if op == token.SUB && base != nil && base.Key() == base2.Key() {
			switch base.(type) {
			case Top, Set:
			default:
				return cInt(off - off2)
			}
		}
	}
	if op == token.MUL {
		if i, ok := isInt(a); ok && i == 1 {
			return b
		}
		if i, ok := isInt(b); ok && i == 1 {
			return a
		}
	}
	return mkTerm(op.String(), t, a, b)
}

func splitSum(v Val) (Val, int) {
	if i, ok := isInt(v); ok {
		return nil, i
	}
	if t, ok := v.(*Term); ok && t.Op == "+" && len(t.Args) == 2 {
		if i, ok := isInt(t.Args[1]); ok {
			return t.Args[0], i
		}
	}
	return v, 0
}

func mkSum(base Val, n int, t types.Type) Val {
	if base == nil {
		return cInt(n)
	}
	if n == 0 {
		return base
	}
	return mkTerm("+", t, base, cInt(n))
}

func foldConst(op token.Token, a, b constant.Value, t types.Type) (r constant.Value, ok bool) {
	defer func() {
		if recover() != nil {
			r, ok = nil, false
		}
	}()
	bt, _ := t.Underlying().(*types.Basic)
	switch op {
	case token.SHL, token.SHR:
		n, _ := constant.Uint64Val(b)
		if n > 63 {
			return nil, false
		}
		return constant.Shift(a, op, uint(n)), true
	case token.QUO:
		if bt != nil && bt.Info()&types.IsInteger != 0 {
			if constant.Sign(b) == 0 {
				return nil, false
			}
			return constant.BinaryOp(a, token.QUO_ASSIGN, b), true
		}
	case token.REM:
		if constant.Sign(b) == 0 {
			return nil, false
		}
	}
	r = constant.BinaryOp(a, op, b)
	return r, r.Kind() != constant.Unknown
}

func (in *Interp) convert(st *State, v Val, from, to types.Type) Val {
	if s, ok := v.(Set); ok {
		var r Val
		for _, m := range s.Vs {
			r = join(r, in.convert(st, m, from, to))
		}
		return r
	}
	if _, ok := v.(Top); ok {
		return Top{to}
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fb != nil && tb != nil:
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if _, isConst := v.(Const); !isConst && sizes.Sizeof(to) < sizes.Sizeof(from) {
				return mkTerm("conv:narrow", to, v)
			}
			return v
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if c, ok := v.(Const); ok {
				f, _ := constant.Float64Val(constant.ToFloat(c.C))
				return cFloat(f)
			}
			if t, ok := v.(*Term); ok && t.Op == "intval" {
				return t.Args[0]
			}
			return mkTerm("conv:inttofloat", to, v)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if _, isConst := v.(Const); !isConst && sizes.Sizeof(to) < sizes.Sizeof(from) {
				return mkTerm("conv:narrow", to, v)
			}
			return v
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			if c, ok := v.(Const); ok {
				f, _ := constant.Float64Val(c.C)
				return cInt(int(f))
			}
			return mkTerm("conv:trunc", to, v)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return v
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			if i, ok := isInt(v); ok {
				return cStr(string(rune(i)))
			}
			return mkTerm("conv:runetostring", to, v)
		}
	case fb != nil && fb.Info()&types.IsString != 0:
		// string -> []byte / []rune
		if t, ok := v.(*Term); ok && t.Op == "conv:bytestostring" {
			return mkTerm("conv:stringtobytes", to, v)
		}
		return mkTerm("conv:stringtobytes", to, v)
	case tb != nil && tb.Info()&types.IsString != 0:
		if t, ok := v.(*Term); ok && t.Op == "conv:stringtobytes" {
			return t.Args[0]
		}
		if _, ok := v.(Nil); ok {
			return cStr("")
		}
		return mkTerm("conv:bytestostring", to, v)
	}
	return v
}

func (in *Interp) indexAddr(st *State, x *ssa.IndexAddr) []*State {
	v := in.eval(st, x.X)
	iv := in.eval(st, x.Index)
	et := x.Type().Underlying().(*types.Pointer).Elem()
	i, known := isInt(iv)
	var r Val
	for _, m := range members(v) {
		switch s := m.(type) {
		case Slice:
			if s.Known {
				if known {
					if i < 0 || s.Lo+i >= s.Hi {
						in.event(st, "panic", x, cStr("index out of range"))
						continue
					}
					r = join(r, Ptr{s.Obj, fmt.Sprintf("[%d]", s.Lo+i), et})
				} else if s.Hi-s.Lo <= 8 && s.Hi > s.Lo {
					for j := s.Lo; j < s.Hi; j++ {
						r = join(r, Ptr{s.Obj, fmt.Sprintf("[%d]", j), et})
					}
				} else {
					r = join(r, Ptr{s.Obj, "[*]", et})
				}
			} else {
				r = join(r, Ptr{s.Obj, "[*]", et})
			}
		case Ptr: // pointer to array
			if known {
				r = join(r, Ptr{s.Obj, s.Path + fmt.Sprintf("[%d]", i), et})
			} else {
				r = join(r, Ptr{s.Obj, s.Path + "[*]", et})
			}
		case Nil:
			if known || len(members(v)) == 1 { // else the index may belong to another of the slices, see C06
				in.event(st, "panic", x, cStr("index out of range"))
			}
		case Sym, *Term:
			elem := mkTerm("elem", et, m, iv)
			if _, ok := elem.(Top); ok {
				r = join(r, Top{x.Type()})
				break
			}
			id := "el:" + elem.Key()
			if _, ok := st.heap[id]; !ok {
				st.heap[id] = &Obj{Kind: OCell, V: elem, T: et}
			}
			r = join(r, Ptr{id, "", et})
		default:
			r = join(r, Top{x.Type()})
		}
	}
	if r == nil {
		return nil
	}
	st.env[x] = r
	return []*State{st}
}

func (in *Interp) makeSlice(st *State, site ssa.Instruction, t types.Type, n Val) Val {
	et := elemOf(t)
	id := in.objID(site, "sl")
	if i, ok := isInt(n); ok && i <= 128 && i >= 0 {
		el := make([]Val, i)
		for j := range el {
			el[j] = zeroVal(et)
		}
		in.newObj(st, id, &Obj{Kind: OArr, Known: true, Elems: el, T: t})
		o := st.heap[id]
		if !o.Known {
			return Slice{Obj: id, Len: n, T: t}
		}
		return Slice{Obj: id, Lo: 0, Hi: i, Known: true, T: t}
	}
	in.newObj(st, id, &Obj{Kind: OArr, V: zeroVal(et), T: t})
	return Slice{Obj: id, Len: n, T: t}
}

func (in *Interp) lenOf(st *State, v Val) Val {
	switch x := v.(type) {
	case Nil:
		return cInt(0)
	case Const:
		if s, ok := isStr(x); ok {
			return cInt(len(s))
		}
	case Slice:
		if x.Known {
			return cInt(x.Hi - x.Lo)
		}
		if x.Len != nil {
			return x.Len
		}
		return Top{types.Typ[types.Int]}
	case StructV:
		return cInt(len(x.F))
	case Ptr:
		if o := st.heap[x.Obj]; o != nil && x.Path == "" {
			switch o.Kind {
			case OArr:
				if o.Known {
					return cInt(len(o.Elems))
				}
			case OMap:
				return in.mapLen(st, x, o)
			}
		}
		return Top{types.Typ[types.Int]}
	case Sym, *Term:
		if st.rel(v, Nil{}) == EQ {
			return cInt(0)
		}
		if t, ok := v.(*Term); ok && t.Op == "conv:stringtobytes" {
			if text, ok := isStr(t.Args[0]); ok {
				if b, ok := t.T.Underlying().(*types.Slice); ok && sizes.Sizeof(b.Elem()) > 1 {
					return cInt(len([]rune(text)))
				}
				return cInt(len(text))
			}
		}
		return mkTerm("len", types.Typ[types.Int], v)
	case Set:
		var r Val
		for _, m := range x.Vs {
			r = join(r, in.lenOf(st, m))
		}
		return r
	}
	return Top{types.Typ[types.Int]}
}

func (in *Interp) mapLen(st *State, p Ptr, o *Obj) Val {
	n := 0
	sure := o.Base == nil && !o.Multi
	for _, e := range o.Entries {
		if e.Maybe {
			sure = false
		}
		n++
	}
	if sure {
		return cInt(n)
	}
	if o.Base != nil {
		if _, ok := o.Base.(Top); !ok && len(o.Deleted) == 0 {
			l := mkTerm("len", types.Typ[types.Int], o.Base)
			if n == 0 {
				return l
			}
			return mkTerm("+len", types.Typ[types.Int], l, cInt(n))
		}
	}
	return Top{types.Typ[types.Int]}
}

func (in *Interp) slice(st *State, x *ssa.Slice) []*State {
	v := in.eval(st, x.X)
	var lo, hi Val = cInt(0), nil
	if x.Low != nil {
		lo = in.eval(st, x.Low)
	}
	if x.High != nil {
		hi = in.eval(st, x.High)
	}
	li, lk := isInt(lo)
	var r Val
	for _, m := range members(v) {
		switch s := m.(type) {
		case Const:
			if str, ok := isStr(s); ok {
				h := len(str)
				hk := true
				if hi != nil {
					h, hk = isInt(hi)
				}
				if lk && hk {
					if li < 0 || h > len(str) || li > h {
						in.event(st, "panic", x, cStr("slice out of range"))
						continue
					}
					r = join(r, cStr(str[li:h]))
					continue
				}
			}
			r = join(r, mkTerm("substr", x.Type(), s, lo, hiOr(hi)))
		case Slice:
			if s.Known {
				h := s.Hi - s.Lo
				hk := true
				if hi != nil {
					h, hk = isInt(hi)
				}
				if lk && hk {
					if o := st.heap[s.Obj]; li < 0 || li > h || (o != nil && o.Known && s.Lo+h > len(o.Elems)) {
						in.event(st, "panic", x, cStr("slice out of range"))
						continue
					}
					r = join(r, Slice{Obj: s.Obj, Lo: s.Lo + li, Hi: s.Lo + h, Known: true, T: x.Type()})
					continue
				}
			}
			l := Val(Top{types.Typ[types.Int]})
			if s.Len != nil {
				if hi != nil {
					l = in.binop(st, token.SUB, hi, lo, types.Typ[types.Int])
				} else {
					l = in.binop(st, token.SUB, s.Len, lo, types.Typ[types.Int])
				}
			}
			if s.Known {
				// unknown bounds of a known slice: element summary
				id := in.objID(x, "slc"+s.Obj)
				var e Val
				if o := st.heap[s.Obj]; o != nil {
					e = o.elem()
				}
				if e == nil {
					e = Top{elemOf(x.Type())}
				}
				in.newObj(st, id, &Obj{Kind: OArr, V: e, T: x.Type()})
				r = join(r, Slice{Obj: id, Len: Top{types.Typ[types.Int]}, T: x.Type()})
				continue
			}
			r = join(r, Slice{Obj: s.Obj, Len: l, T: x.Type()})
		case Ptr:
			o := in.ensure(st, s)
			if o.Kind == OArr && s.Path == "" && o.Known {
				h := len(o.Elems)
				hk := true
				if hi != nil {
					h, hk = isInt(hi)
				}
				if lk && hk && li >= 0 && li <= h && h <= len(o.Elems) {
					r = join(r, Slice{Obj: s.Obj, Lo: li, Hi: h, Known: true, T: x.Type()})
					continue
				}
			}
			r = join(r, Top{x.Type()})
		case Nil:
			if li > 0 {
				in.event(st, "panic", x, cStr("slice out of range"))
				continue
			}
			r = join(r, Nil{})
		case Sym, *Term:
			if lk && li == 0 && hi == nil {
				r = join(r, m)
				continue
			}
			if x.X.Type().Underlying().(interface{ String() string }).String() == "string" {
				if lk {
					if y, ok := in.catSlice(st, m, x, li, hi); ok {
						r = join(r, y)
						continue
					}
				} else if hi == nil {
					if y, ok := in.catTail(st, m, lo); ok {
						r = join(r, y)
						continue
					}
				}
			}
			// stripping a known prefix of a concatenation
			if t, ok := m.(*Term); ok && t.Op == "cat" && hi == nil && lk {
				if s, ok := isStr(t.Args[0]); ok && li <= len(s) {
					r = join(r, mkCat(append([]Val{cStr(s[li:])}, t.Args[1:]...)...))
					continue
				}
			}
			r = join(r, mkTerm("slice", x.Type(), m, lo, hiOr(hi)))
		default:
			r = join(r, Top{x.Type()})
		}
	}
	if r == nil {
		return nil
	}
	st.env[x] = r
	return []*State{st}
}

func hiOr(v Val) Val {
	if v == nil {
		return Nil{}
	}
	return v
}

// maps ------------------------------------------------------------------------

type mapRes struct {
	St *State
	V  Val
	Ok bool
}

// mapObj finds the map object behind a value.
func (in *Interp) mapObjs(st *State, m Val, t types.Type) (ps []Ptr, nilable, unknown bool) {
	for _, a := range members(m) {
		switch x := a.(type) {
		case Ptr:
			o := in.ensure(st, x)
			if o.Kind == OMap && x.Path == "" {
				ps = append(ps, x)
			} else {
				unknown = true
			}
		case Nil:
			nilable = true
		case Sym, *Term:
			id := "*" + a.Key()
			o, ok := st.heap[id]
			if !ok || o.Kind != OMap {
				var et types.Type
				if p, ok := t.Underlying().(*types.Pointer); ok {
					et = p.Elem()
				} else {
					et = t
				}
				st.heap[id] = &Obj{Kind: OMap, Base: a, T: et, Ordered: isYispMap(t)}
			}
			ps = append(ps, Ptr{id, "", t})
		default:
			unknown = true
		}
	}
	return
}

func (in *Interp) mapGetVal(st *State, m, k Val, et, mt types.Type) []mapRes {
	ps, nilable, unknown := in.mapObjs(st, m, mt)
	var out []mapRes
	if len(members(k)) > 1 {
		for _, kk := range members(k) {
			out = append(out, in.mapGetVal(st.clone(), m, kk, et, mt)...)
		}
		return out
	}
	if nilable {
		out = append(out, mapRes{st.clone(), zeroVal(et), false})
	}
	if unknown {
		out = append(out, mapRes{st.clone(), Top{et}, true}, mapRes{st.clone(), zeroVal(et), false})
	}
	for _, p := range ps {
		out = append(out, in.mapGet(st.clone(), p, k, et)...)
	}
	return out
}

func (in *Interp) mapGet(st *State, p Ptr, k Val, et types.Type) []mapRes {
	o := st.heap[p.Obj]
	var out []mapRes
	cur := st
	for _, e := range o.Entries {
		m := in.relate(cur, e.K, k)
		if m&EQ == 0 {
			continue
		}
		if m == EQ && !e.Maybe && !o.Multi {
			out = append(out, mapRes{cur, e.V, true})
			return out
		}
		hit := cur.clone()
		if in.addRelDeep(hit, e.K, k, EQ) {
			out = append(out, mapRes{hit, e.V, true})
		}
		if m == EQ { // maybe absent: continue in the same state
			continue
		}
		cur = cur.clone()
		if !in.addRelDeep(cur, e.K, k, LT|GT|UN) {
			return out
		}
	}
	if o.Base == nil {
		out = append(out, mapRes{cur.clone(), zeroVal(et), false})
		return out
	}
	for _, d := range o.Deleted {
		if in.relate(cur, d, k) == EQ {
			return append(out, mapRes{cur.clone(), zeroVal(et), false})
		}
	}
	okT := mkTerm("mapok", types.Typ[types.Bool], o.Base, k)
	yes, no := cur.clone(), cur.clone()
	if d := in.decide(cur, okT); d != 0 {
		if d == 1 || in.constrain(yes, okT, true) {
			out = append(out, mapRes{yes, mkTerm("mapget", et, o.Base, k), true})
		}
	}
	if in.decide(cur, okT) != 1 {
		if in.constrain(no, okT, false) {
			out = append(out, mapRes{no, zeroVal(et), false})
		}
	}
	return out
}

func (in *Interp) mapPutVal(st *State, m, k, v Val, mt types.Type, site ssa.Instruction) []*State {
	ps, nilable, unknown := in.mapObjs(st, m, mt)
	if nilable && len(ps) == 0 && !unknown {
		in.event(st, "panic", site, cStr("assignment to nil map"))
		return nil
	}
	weak := len(ps) > 1 || unknown
	for _, p := range ps {
		in.mapPut(st, p, k, v, weak)
	}
	return []*State{st}
}

func (in *Interp) mapPut(st *State, p Ptr, k, v Val, weak bool) {
	o := st.heap[p.Obj].clone()
	weak = weak || o.Multi
	ks := members(k)
	if len(ks) > 1 {
		weak = true
	}
	for _, kk := range ks {
		done := false
		for i, e := range o.Entries {
			m := in.relate(st, e.K, kk)
			if m&EQ == 0 {
				continue
			}
			if m == EQ && !weak {
				o.Entries[i].V = v
				o.Entries[i].Maybe = false
				done = true
				break
			}
			o.Entries[i].V = join(e.V, v)
			if m == EQ {
				done = true
				break
			}
		}
		if !done {
			_, top := kk.(Top)
			o.Entries = append(o.Entries, Entry{kk, v, weak || top})
		}
	}
	st.heap[p.Obj] = o
}

func (in *Interp) mapDel(st *State, p Ptr, k Val) {
	o := st.heap[p.Obj].clone()
	var keep []Entry
	for _, e := range o.Entries {
		m := in.relate(st, e.K, k)
		if m == EQ && !o.Multi {
			continue
		}
		if m&EQ != 0 {
			e.Maybe = true
		}
		keep = append(keep, e)
	}
	o.Entries = keep
	if o.Base != nil {
		o.Deleted = append(o.Deleted, k)
	}
	st.heap[p.Obj] = o
}

// type assertions ----------------------------------------------------------------

func (in *Interp) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v := in.eval(st, x.X)
	T := x.AssertedType
	var out []*State
	emit := func(s *State, ok bool, r Val, maybe bool) {
		if x.CommaOk {
			s.env[x] = Tuple{[]Val{r, cBool(ok)}}
		} else {
			if !ok {
				in.sawAssert(x, false)
				if !maybe {
					in.event(s, "panic", x, cStr("failed type assertion"))
				}
				return
			}
			in.sawAssert(x, true)
			s.env[x] = r
		}
		out = append(out, s)
	}
	ms := members(v)
	for _, m := range ms {
		s := st
		if len(ms) > 1 {
			s = st.clone()
			s.env[x.X] = m
		}
		switch a := m.(type) {
		case Nil:
			emit(s, false, zeroVal(T), len(ms) > 1)
		case Iface:
			if types.IsInterface(T) {
				if types.Implements(a.Dyn, T.Underlying().(*types.Interface)) {
					emit(s, true, a, false)
				} else {
					emit(s, false, zeroVal(T), len(ms) > 1)
				}
			} else if types.Identical(a.Dyn, T) {
				emit(s, true, a.V, false)
			} else {
				emit(s, false, zeroVal(T), len(ms) > 1)
			}
		case Sym, *Term:
			d := in.dynIs(s, m, T)
			if d != 0 {
				y := s.clone()
				if d == 1 || in.addDyn(y, m, T, true) {
					in.addRelDeep(y, m, Nil{}, LT|GT)
					if types.IsInterface(T) {
						emit(y, true, m, true)
					} else {
						emit(y, true, asTerm(m, T), true)
					}
				}
			}
			if d != 1 {
				n := s.clone()
				if d == 0 || in.addDyn(n, m, T, false) {
					emit(n, false, zeroVal(T), d != 0)
				}
			}
		default:
			y, n := s.clone(), s.clone()
			emit(y, true, Top{T}, true)
			emit(n, false, zeroVal(T), true)
		}
	}
	return out
}

// iteration ----------------------------------------------------------------------

func (in *Interp) next(st *State, x *ssa.Next) []*State {
	it := in.eval(st, x.Iter)
	p, ok := it.(Ptr)
	tt := x.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	unknownNext := func(s *State) []*State {
		done := s.clone()
		done.env[x] = Tuple{[]Val{cBool(false), zeroVal(kt), zeroVal(vt)}}
		s.env[x] = Tuple{[]Val{cBool(true), Top{kt}, Top{vt}}}
		return []*State{done, s}
	}
	if !ok {
		return unknownNext(st)
	}
	o := st.heap[p.Obj]
	if o == nil || o.Kind != OIter {
		return unknownNext(st)
	}
	var out []*State
	for _, pos := range members(o.Pos) {
		for _, src := range members(o.V) {
			s := st.clone()
			out = append(out, in.nextFrom(s, x, x, p, pos, src, kt, vt)...)
		}
	}
	return out
}

func invalidType(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func (in *Interp) nextFrom(st *State, x *ssa.Next, site ssa.Instruction, it Ptr, pos, src Val, kt, vt types.Type) []*State {
	done := func(s *State) *State {
		n := s.clone()
		n.env[x] = Tuple{[]Val{cBool(false), zeroValOr(kt), zeroValOr(vt)}}
		return n
	}
	step := func(s *State, k, v Val, np Val) *State {
		n := s.clone()
		o := n.heap[it.Obj].clone()
		o.Pos = np
		n.heap[it.Obj] = o
		n.env[x] = Tuple{[]Val{cBool(true), k, v}}
		return n
	}
	// strings
	if x.IsString {
		if s, ok := isStr(src); ok {
			if i, ok := isInt(pos); ok {
				if i >= len(s) {
					return []*State{done(st)}
				}
				for j, r := range s[i:] {
					if j == 0 {
						return []*State{step(st, cInt(i), cInt(int(r)), cInt(i+len(string(r))))}
					}
				}
			}
		}
		return []*State{done(st), step(st, Top{kt}, Top{vt}, Top{types.Typ[types.Int]})}
	}
	// what is iterated
	mode := "kv"
	base := src
	if t, ok := src.(*Term); ok && t.Op == "vseq" {
		base = t.Args[0]
		if q, ok := base.(*Term); ok && strings.HasPrefix(q.Op, "seq:") {
			mode = q.Op[4:]
			base = q.Args[0]
		} else {
			return []*State{done(st), step(st, Top{kt}, Top{vt}, Top{types.Typ[types.Int]})}
		}
	}
	pick := func(k, v Val) (Val, Val) {
		switch mode {
		case "values":
			return v, Top{vt}
		case "back":
			return k, v
		}
		return k, v
	}
	switch mode {
	case "sliceall", "slicevalues":
		n := in.lenOf(st, base)
		i, ok1 := isInt(pos)
		l, ok2 := isInt(n)
		if sl, ok := base.(Slice); ok && ok1 && ok2 && sl.Known {
			if i >= l {
				return []*State{done(st)}
			}
			e := in.loadPtr(st, Ptr{sl.Obj, fmt.Sprintf("[%d]", sl.Lo+i), elemOf(sl.T)}, elemOf(sl.T))
			if mode == "sliceall" {
				return []*State{step(st, cInt(i), e, cInt(i+1))}
			}
			return []*State{step(st, e, Top{vt}, cInt(i+1))}
		}
		return []*State{done(st), step(st, Top{kt}, Top{vt}, Top{types.Typ[types.Int]})}
	}
	mt := types.Type(nil)
	if o := st.heap[it.Obj]; o != nil {
		mt = o.T
	}
	ps, nilable, unknown := in.mapObjs(st, base, mt)
	var out []*State
	if nilable {
		out = append(out, done(st))
	}
	if unknown {
		out = append(out, done(st), step(st, Top{kt}, Top{vt}, Top{types.Typ[types.Int]}))
	}
	for _, p := range ps {
		o := st.heap[p.Obj]
		i, ok := isInt(pos)
		if !ok || o.Multi {
			out = append(out, done(st))
			for _, e := range o.Entries {
				k, v := pick(e.K, e.V)
				out = append(out, step(st, k, v, Top{types.Typ[types.Int]}))
			}
			if o.Base != nil {
				out = append(out, step(st, Top{kt}, Top{vt}, Top{types.Typ[types.Int]}))
			}
			continue
		}
		ents := o.Entries
		at := func(j int) Entry {
			if mode == "back" {
				return ents[len(ents)-1-j]
			}
			return ents[j]
		}
		j := i
		cut := false
		for j < len(ents) {
			e := at(j)
			k, v := pick(e.K, e.V)
			out = append(out, step(st, k, v, cInt(j+1)))
			if !e.Maybe {
				cut = true
				break
			}
			j++
		}
		if cut {
			continue
		}
		out = append(out, done(st))
		if o.Base != nil {
			kv := in.fresh(st, "key", kt, site)
			if mode == "values" {
				kv = in.fresh(st, "key", types.Typ[types.String], site)
			}
			et := vt
			if mode == "values" {
				et = kt
			}
			if invalidType(et) || et == nil {
				et = types.NewInterfaceType(nil, nil)
			}
			n := st.clone()
			okT := mkTerm("mapok", types.Typ[types.Bool], o.Base, kv)
			in.constrain(n, okT, true)
			good := true
			for _, e := range o.Entries {
				if !in.addRelDeep(n, e.K, kv, LT|GT|UN) {
					good = false
				}
			}
			for _, d := range o.Deleted {
				in.addRelDeep(n, d, kv, LT|GT|UN)
			}
			if good {
				k, v := pick(kv, mkTerm("mapget", et, o.Base, kv))
				out = append(out, step(n, k, v, cInt(len(ents))))
			}
		}
	}
	return out
}

func zeroValOr(t types.Type) Val {
	if t == nil || invalidType(t) {
		return Nil{}
	}
	return zeroVal(t)
}

var sizes = types.SizesFor("gc", "amd64")

// specials are two numbers of which one is no constant of the language.
func specials(a, b Val) (float64, float64, bool) {
	x, ok := special(a)
	y, ok2 := special(b)
	_, ca := a.(Const)
	_, cb := b.(Const)
	return x, y, ok && ok2 && !(ca && cb)
}

func relFloat(x, y float64) int {
	switch {
	case x < y:
		return LT
	case x > y:
		return GT
	case x == y:
		return EQ
	}
	return UN
}

func floatOperand(v Val) bool {
	var t types.Type
	switch x := v.(type) {
	case Sym:
		t = x.T
	case *Term:
		t = x.T
	}
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
