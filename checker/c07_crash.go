package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Instructions the abstract cases of C07 went through, and whether one of them
// could not tell how it ends. Written while cases run in parallel.
var assertsSeen = struct {
	sync.Mutex
	on bool
	at map[ssa.Instruction]bool // instruction -> every visit ended well
}{}

func (in *Interp) sawAssert(x ssa.Instruction, decided bool) {
	assertsSeen.Lock()
	defer assertsSeen.Unlock()
	if !assertsSeen.on {
		return
	}
	k := x
	was, seen := assertsSeen.at[k]
	assertsSeen.at[k] = decided && (!seen || was)
}

// runCrash decides what can stop the program other than indexes (C06) and
// absent values (C08): unchecked type assertions, comparing or hashing values of
// unknown type, division by zero, negative counts and explicit panics.
func runCrash(r *Report) {
	n := newNilness(r.P)
	try := func(q func() bool) bool {
		n.steps, n.why = 0, ""
		return q()
	}
	type ob struct {
		rule, what, pos, msg string
		i                    ssa.Instruction
		q                    func() bool
	}
	var obs []ob
	add := func(rule, what string, i ssa.Instruction, q func() bool, format string, a ...any) {
		obs = append(obs, ob{rule, what + " in " + i.Parent().String(), n.p.instrPos(i), fmt.Sprintf(format, a...), i, q})
	}
	for _, f := range n.funcs {
		if !n.inScope(f) {
			continue
		}
		r.funcs[f.String()] = true
		fr := n.rootOf(f)
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				at := n.at(fr, i)
				switch x := i.(type) {
				case *ssa.TypeAssert:
					if !x.CommaOk {
						add("no unchecked type assertion fails", describe(x.X)+".("+shortT(x.AssertedType)+")", i, func() bool { return n.isA(fr, x.X, x.AssertedType, at, 10) },
							"%s may not be a %s", describe(x.X), shortT(x.AssertedType))
					}
				case *ssa.BinOp:
					switch x.Op {
					case token.EQL, token.NEQ:
						if isNilConst(x.X) || isNilConst(x.Y) {
							continue
						}
						if types.IsInterface(x.X.Type()) && types.IsInterface(x.Y.Type()) && !isErrorT(x.X.Type()) {
							add("no uncomparable values are compared", describe(x.X)+" and "+describe(x.Y), i, func() bool {
								return n.comparable(fr, x.X, at, 10) || n.comparable(fr, x.Y, at, 10)
							}, "%s and %s may hold lists or maps", describe(x.X), describe(x.Y))
						}
					case token.QUO, token.REM:
						if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
							add("no division by zero", describe(x.Y), i, func() bool { return n.nonzero(fr, x.Y, at) }, "%s may be zero", describe(x.Y))
						}
					case token.SHL, token.SHR:
						if bt, ok := x.Y.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned == 0 {
							add("no negative shift", describe(x.Y), i, func() bool { return n.atLeast0(fr, x.Y, at) }, "%s may be negative", describe(x.Y))
						}
					}
				case *ssa.MapUpdate:
					if types.IsInterface(x.Map.Type().Underlying().(*types.Map).Key()) {
						add("no uncomparable key", describe(x.Key), i, func() bool { return n.comparable(fr, x.Key, at, 10) }, "%s may be a list or map", describe(x.Key))
					}
				case *ssa.Lookup:
					if m, ok := x.X.Type().Underlying().(*types.Map); ok && types.IsInterface(m.Key()) {
						add("no uncomparable key", describe(x.Index), i, func() bool { return n.comparable(fr, x.Index, at, 10) }, "%s may be a list or map", describe(x.Index))
					}
				case *ssa.Panic:
					if n.reports(x.X) {
						continue // ends the command with its error, see C10
					}
					add("no panic is reached", "panic", i, func() bool { return n.infeasible(b, nil) || n.ruledOut(fr, at) }, "panic(%s) may be reached", describe(x.X))
				case *ssa.Call:
					switch calleeOf(&x.Call) {
					case "strings.Repeat", "bytes.Repeat":
						add("no negative count", describe(x.Call.Args[1]), i, func() bool { return n.atLeast0(fr, x.Call.Args[1], at) }, "%s may be negative", describe(x.Call.Args[1]))
					case "regexp.MustCompile", "text/template.Must":
						if _, ok := x.Call.Args[0].(*ssa.Const); !ok {
							add("no panic is reached", calleeOf(&x.Call), i, func() bool { return false }, "%s panics on %s", calleeOf(&x.Call), describe(x.Call.Args[0]))
						}
					}
				}
			}
		}
	}
	for _, o := range obs {
		try(o.q)
	}
	n.solve()
	byCases := 0
	for _, o := range obs {
		ok := try(o.q)
		if !ok {
			assertsSeen.Lock()
			if assertsSeen.at[o.i] {
				ok = true
				byCases++
			}
			assertsSeen.Unlock()
		}
		r.check(ok, o.rule, o.what, o.pos, "%s", o.msg)
	}
	r.note("decided by the operator cases", byCases)
}

func shortT(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// reports: the panic passes an error on.
func (n *nilness) reports(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		return isErrorT(x.X.Type())
	case *ssa.MakeInterface:
		return isErrorT(x.X.Type())
	}
	return false
}

func (n *nilness) nonzero(fr *pframe, v ssa.Value, pt point) bool {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		return constant.Sign(c.Value) != 0
	}
	a, k := n.lin(fr, v)
	fs := n.facts(pt)
	for _, f := range fs.neq {
		if f.a.key == a.key && f.b.key == zeroAtom.key && f.k == -k || f.b.key == a.key && f.a.key == zeroAtom.key && f.k == k {
			return true
		}
	}
	return n.leq(zeroAtom, a, k-1, pt, 8) || n.leq(a, zeroAtom, -k-1, pt, 8)
}

func (n *nilness) atLeast0(fr *pframe, v ssa.Value, pt point) bool {
	a, k := n.lin(fr, v)
	return n.leq(zeroAtom, a, k, pt, 8)
}

// comparable: what v holds can be compared.
func (n *nilness) comparable(fr *pframe, v ssa.Value, pt point, depth int) bool {
	fr, v = n.resolve(fr, v)
	if depth <= 0 {
		return false
	}
	if n.facts(pt).known[n.key(fr, v)] == "nil" {
		return true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return strictlyComparable(x.X.Type())
	case *ssa.ChangeInterface:
		return n.comparable(fr, x.X, pt, depth-1)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !n.comparable(fr, e, point{fr: fr, b: x.Block().Preds[i], to: x.Block()}, depth-1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return isErrorT(x.Type()) || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
		}
	case *ssa.Call:
		return calleeOf(&x.Call) == "reflect.TypeOf" || x.Call.IsInvoke() && x.Call.Method.Pkg() != nil && x.Call.Method.Pkg().Path() == "reflect"
	}
	return n.askedComparable(fr, v, pt) || n.typed(fr, v, pt, depth, func(t types.Type) bool { return strictlyComparable(t) })
}

// askedComparable: reflection was asked about the type of v on every way to pt.
func (n *nilness) askedComparable(fr *pframe, v ssa.Value, pt point) bool {
	k := n.key(fr, v)
	told := func(fs *factSet) bool {
		for _, b := range fr.fn.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(*ssa.Call)
				if !ok {
					continue
				}
				if c.Call.IsInvoke() && c.Call.Method.Name() == "Comparable" {
					if t := typeOfArg(c.Call.Value); t != nil && n.key(fr, t) == k && fs.known[n.key(fr, c)] == "true" {
						return true
					}
				}
				if t := typeOfArg(c); t != nil && n.key(fr, t) == k && fs.known[n.key(fr, c)] == "nil" {
					return true
				}
			}
		}
		return false
	}
	fs := n.facts(pt)
	if told(fs) {
		return true
	}
	for _, alts := range fs.alts {
		all := len(alts) > 0
		for _, a := range alts {
			all = all && told(n.facts(a))
		}
		if all {
			return true
		}
	}
	return false
}

// typeOfArg: the value whose type v is.
func typeOfArg(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok && calleeOf(&c.Call) == "reflect.TypeOf" {
		return c.Call.Args[0]
	}
	return nil
}

func strictlyComparable(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true // nil as well
	case *types.Interface:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !strictlyComparable(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return strictlyComparable(u.Elem())
	}
	return types.Comparable(t)
}

// isA proves that the interface value v holds a T.
func (n *nilness) isA(fr *pframe, v ssa.Value, T types.Type, pt point, depth int) bool {
	return n.typed(fr, v, pt, depth, func(t types.Type) bool {
		if t == types.Typ[types.UntypedNil] {
			return false
		}
		if i, ok := T.Underlying().(*types.Interface); ok {
			return types.Implements(t, i)
		}
		return types.Identical(t, T)
	})
}

// typed proves that what v holds has a type that is accepted.
func (n *nilness) typed(fr *pframe, v ssa.Value, pt point, depth int, accept func(types.Type) bool) bool {
	fr, v = n.resolve(fr, v)
	n.steps++
	if depth <= 0 || n.steps > 20000 {
		return false
	}
	fs := n.facts(pt)
	// a test on the way
	prefix := "is " + n.key(fr, v) + ".("
	tested := func(fs *factSet) bool {
		for k, w := range fs.known {
			if w == "true" && strings.HasPrefix(k, prefix) {
				if t := n.typeNamed(k[len(prefix) : len(k)-1]); t != nil && accept(t) {
					return true
				}
			}
		}
		return false
	}
	if tested(fs) {
		return true
	}
	for _, alts := range fs.alts {
		all := len(alts) > 0
		for _, a := range alts {
			all = all && tested(n.facts(a))
		}
		if all {
			return true
		}
	}
	switch x := v.(type) {
	case *ssa.Const: // nil
		return accept(types.Typ[types.UntypedNil])
	case *ssa.MakeInterface:
		return accept(x.X.Type())
	case *ssa.ChangeInterface:
		return n.typed(fr, x.X, pt, depth-1, accept)
	case *ssa.Phi:
		key := "typed" + n.key(fr, x)
		if n.nn[key] {
			return true
		}
		n.nn[key] = true
		defer delete(n.nn, key)
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			if !n.typed(fr, e, point{fr: fr, b: p, to: x.Block()}, depth-1, accept) && !n.correlated(fr, x, i, pt) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		k := paramIndex(fr.fn, x)
		if fr.site != nil || k < 0 || n.open[fr.fn] || len(n.sites[fr.fn]) == 0 || len(n.sites[fr.fn]) > 40 {
			return false
		}
		key := "typed" + n.key(fr, x)
		if n.nn[key] {
			return true
		}
		n.nn[key] = true
		defer delete(n.nn, key)
		for _, s := range n.sites[fr.fn] {
			if s.Common().StaticCallee() != fr.fn {
				return false
			}
			up := n.rootOf(s.Parent())
			if !n.typed(up, s.Common().Args[k], n.at(up, s), depth-1, accept) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		f2, a := n.resolve(fr, x.X)
		if fa, ok := a.(*ssa.FieldAddr); ok && fieldName(fa) == "Value" {
			if n.field(f2, fa.X, fa, x, accept, 4) {
				return true
			}
			if is, not := n.kindOf(f2, fa.X, pt); is != "" || len(not) > 0 {
				return n.represented(fa, is, not, accept)
			}
		}
	}
	return false
}

func derefs(v ssa.Value) []ssa.Instruction {
	if r := v.Referrers(); r != nil {
		return *r
	}
	return nil
}

// typeNamed finds the type of a test by its spelling.
func (n *nilness) typeNamed(s string) types.Type {
	if n.asserted == nil {
		n.asserted = map[string]types.Type{}
		for _, f := range n.funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if t, ok := i.(*ssa.TypeAssert); ok {
						n.asserted[t.AssertedType.String()] = t.AssertedType
					}
				}
			}
		}
	}
	return n.asserted[s]
}

// kindOf is the kind a node is known to have at pt, or the kinds it does not
// have, given its Value field.
func (n *nilness) kindOf(fr *pframe, of ssa.Value, pt point) (is string, not map[string]bool) {
	node := n.key(fr, of)
	not = map[string]bool{}
	if !n.kindsFixed() {
		return
	}
	for d, from := pt.to, pt.b; from != nil; {
		if d != nil {
			if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
				if c, ok := i.Cond.(*ssa.BinOp); ok && (c.Op == token.EQL || c.Op == token.NEQ) {
					if k, ok := c.Y.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
						if u, ok := c.X.(*ssa.UnOp); ok && u.Op == token.MUL {
							if kf, ok := u.X.(*ssa.FieldAddr); ok && fieldName(kf) == "Kind" && n.key(fr, kf.X) == node {
								if (c.Op == token.EQL) == (from.Succs[0] == d) {
									return k.Value.String(), nil
								}
								not[k.Value.String()] = true
							}
						}
					}
				}
			}
		}
		d = from
		if len(d.Preds) == 1 {
			from = d.Preds[0]
		} else if id := d.Idom(); id != nil && len(id.Preds) == 1 {
			d, from = id, id.Preds[0]
		} else if id != nil {
			d, from = nil, id
		} else {
			break
		}
	}
	return "", not
}

// represented: every value of a node of that kind (of no such kind) has an
// accepted type.
func (n *nilness) represented(fa *ssa.FieldAddr, is string, not map[string]bool, accept func(types.Type) bool) bool {
	owner := typeKey(fa.X.Type().Underlying().(*types.Pointer).Elem())
	concerns := func(kind string) bool {
		if is != "" {
			return kind == is
		}
		return !not[kind]
	}
	return n.decide(fmt.Sprint("representation of ", owner, is, not, fa.Parent(), fa.Pos()), func() bool {
		for _, s := range n.stFld[owner+".Value"] {
			va := s.Addr.(*ssa.FieldAddr)
			fr := n.rootOf(s.Parent())
			if n.otherKind(fr, va, s, concerns) || n.copied(fr, s, va) || n.sameType(s, va) {
				continue
			}
			if al, ok := va.X.(*ssa.Alloc); ok && kindStore(al) != nil {
				if n.pair(fr, kindStore(al).Val, s.Val, n.at(fr, s), concerns, accept, 3) {
					continue
				}
			}
			if !n.typed(fr, s.Val, n.at(fr, s), 8, accept) {
				n.because("a node of that kind gets another value at %s", n.p.instrPos(s))
				return false
			}
		}
		for _, s := range n.stFld[owner+".Kind"] {
			// a kind given to a node without its value
			if !n.pairedValue(s) {
				al, fresh := s.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc)
				if fresh && wholeStore(al) == nil && accept(types.Typ[types.UntypedNil]) {
					continue
				}
				if c, ok := s.Val.(*ssa.Const); !ok || c.Value == nil || concerns(c.Value.String()) {
					n.because("a node becomes that kind without a value at %s", n.p.instrPos(s))
					return false
				}
			}
		}
		return true
	})
}

// pair: a node made with this kind and this value is of no interest or has a
// value of an accepted type; seen from the callers when the kind or the value
// comes from them.
func (n *nilness) pair(fr *pframe, kind, value ssa.Value, pt point, concerns func(string) bool, accept func(types.Type) bool, depth int) bool {
	if n.neverKind(kind, concerns, map[ssa.Value]bool{}) {
		return true
	}
	fk, k := n.resolve(fr, kind)
	if c, ok := k.(*ssa.Const); ok && c.Value != nil && !concerns(c.Value.String()) {
		return true
	}
	if u, ok := k.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa) == "Kind" {
			f2, node := n.resolve(fk, fa.X)
			if f2 == pt.fr {
				is, not := n.kindOf(f2, node, pt)
				if n.excluded(is, not, concerns) {
					return true
				}
			}
			fv, v := n.resolve(fr, value)
			if w, ok := v.(*ssa.UnOp); ok && w.Op == token.MUL {
				if fb, ok := w.X.(*ssa.FieldAddr); ok && fieldName(fb) == "Value" && n.key(fv, fb.X) == n.key(fk, fa.X) {
					return true
				}
			}
		}
	}
	if n.typed(fr, value, pt, 8, accept) {
		return true
	}
	top := pt.fr
	f := top.fn
	if depth == 0 || n.open[f] || len(n.sites[f]) == 0 || len(n.sites[f]) > 40 {
		return false
	}
	for _, s := range n.sites[f] {
		if s.Common().StaticCallee() != f {
			return false
		}
		up := n.rootOf(s.Parent())
		if !n.pair(n.child(up, s, f), kind, value, n.at(up, s), concerns, accept, depth-1) {
			return false
		}
	}
	return true
}

// otherKind: the node whose value is set is of a kind that does not matter.
func (n *nilness) otherKind(fr *pframe, va *ssa.FieldAddr, s *ssa.Store, concerns func(string) bool) bool {
	if al, ok := va.X.(*ssa.Alloc); ok {
		if k := kindStore(al); k != nil {
			return n.neverKind(k.Val, concerns, map[ssa.Value]bool{})
		}
		ws := wholeStore(al)
		if ws == nil {
			return !concerns("0") // the zero kind
		}
		from, ok := ws.Val.(*ssa.UnOp)
		if !ok || from.Op != token.MUL {
			return false
		}
		is, not := n.kindOf(fr, from.X, n.at(fr, ws))
		return n.excluded(is, not, concerns)
	}
	if k := kindBeside(s, va); k != nil {
		c, ok := k.Val.(*ssa.Const)
		return ok && c.Value != nil && !concerns(c.Value.String())
	}
	is, not := n.kindOf(fr, va.X, n.at(fr, s))
	return n.excluded(is, not, concerns)
}

// kindsFixed: the kind of a node is set while the function that makes it holds
// it alone, and nodes are not overwritten as a whole.
func (n *nilness) kindsFixed() bool {
	if n.fixed == 0 {
		n.fixed = 1
		for k, ss := range n.stFld {
			if !strings.HasSuffix(k, ".YispNode.Kind") {
				continue
			}
			for _, s := range ss {
				switch base := s.Addr.(*ssa.FieldAddr).X.(type) {
				case *ssa.Alloc:
				case *ssa.Extract:
					c, ok := base.Tuple.(*ssa.Call)
					if !ok || !strings.Contains(calleeOf(&c.Call), ".Parse") {
						n.fixed = 2
					}
				default:
					n.fixed = 2
				}
			}
		}
		for _, f := range n.funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok && s.Val.Type().String() == modPath+"/core.YispNode" {
						if _, ok := s.Addr.(*ssa.Alloc); !ok {
							n.fixed = 2
						}
					}
				}
			}
		}
	}
	return n.fixed == 1
}

func (n *nilness) excluded(is string, not map[string]bool, concerns func(string) bool) bool {
	if is != "" {
		return !concerns(is)
	}
	for k := 0; k < 20 && len(not) > 0; k++ {
		if concerns(fmt.Sprint(k)) && !not[fmt.Sprint(k)] {
			return false
		}
	}
	return len(not) > 0
}

func (n *nilness) neverKind(v ssa.Value, concerns func(string) bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value != nil && !concerns(x.Value.String())
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !n.neverKind(e, concerns, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func kindStore(al *ssa.Alloc) *ssa.Store {
	var out *ssa.Store
	for _, r := range *al.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && fieldName(fa) == "Kind" {
			for _, u := range *fa.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
					if out != nil {
						return nil
					}
					out = s
				}
			}
		}
	}
	return out
}

func wholeStore(al *ssa.Alloc) *ssa.Store {
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			return s
		}
	}
	return nil
}

// copied: kind and value come from the same node.
func (n *nilness) copied(fr *pframe, s *ssa.Store, va *ssa.FieldAddr) bool {
	al, ok := va.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	k := kindStore(al)
	if k == nil {
		return false
	}
	from := func(v ssa.Value, name string) string {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa) == name {
				return n.key(fr, fa.X)
			}
		}
		return ""
	}
	a := from(s.Val, "Value")
	return a != "" && a == from(k.Val, "Kind")
}

// pairedValue: the object whose kind is set is new and gets a value as well.
func (n *nilness) pairedValue(s *ssa.Store) bool {
	fa := s.Addr.(*ssa.FieldAddr)
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		for _, i := range s.Block().Instrs {
			if v, ok := i.(*ssa.Store); ok {
				if va, ok := v.Addr.(*ssa.FieldAddr); ok && fieldName(va) == "Value" && va.X == fa.X && kindBeside(v, va) == s {
					return true
				}
			}
		}
		return false
	}
	for _, r := range *al.Referrers() {
		if v, ok := r.(*ssa.FieldAddr); ok && fieldName(v) == "Value" && len(*v.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// kindBeside is the store of the kind right before the value is stored in the
// same object, in one block and with no call in between.
func kindBeside(s *ssa.Store, va *ssa.FieldAddr) *ssa.Store {
	var out *ssa.Store
	for _, i := range s.Block().Instrs {
		switch x := i.(type) {
		case *ssa.Store:
			if x == s {
				return out
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "Kind" {
				out = nil
				if fa.X == va.X {
					out = x
				}
			}
		case ssa.CallInstruction:
			out = nil
		}
	}
	return nil
}

// sameType: the object is a copy of a node whose value was found to be of the
// very type that now replaces it.
func (n *nilness) sameType(s *ssa.Store, va *ssa.FieldAddr) bool {
	al, ok := va.X.(*ssa.Alloc)
	mi, ok2 := s.Val.(*ssa.MakeInterface)
	if !ok || !ok2 {
		return false
	}
	ws := wholeStore(al)
	if ws == nil {
		return false
	}
	from, ok := ws.Val.(*ssa.UnOp)
	if !ok || from.Op != token.MUL {
		return false
	}
	fr := n.rootOf(s.Parent())
	fs := n.facts(n.at(fr, s))
	after := false
	for _, i := range ws.Block().Instrs {
		switch x := i.(type) {
		case *ssa.Store:
			if after = after || x == ws; x != ws {
				after = false
			}
		case ssa.CallInstruction:
			after = false
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); after && ok && x.Op == token.MUL && fieldName(fa) == "Value" && fa.X == from.X &&
				fs.known["is "+n.key(fr, x)+".("+mi.X.Type().String()+")"] == "true" {
				return true
			}
		}
	}
	return false
}

// ruledOut: a parameter was found to hold none of the types the callers pass.
func (n *nilness) ruledOut(fr *pframe, pt point) bool {
	f := fr.fn
	if n.open[f] {
		return false
	}
	fs := n.facts(pt)
	for k, p := range f.Params {
		if !types.IsInterface(p.Type()) {
			continue
		}
		var out []types.Type
		if fs.known[n.key(fr, p)] == "nonnil" {
			out = append(out, types.Typ[types.UntypedNil])
		}
		for _, r := range derefs(p) {
			if ta, ok := r.(*ssa.TypeAssert); ok && ta.CommaOk && fs.known["is "+n.key(fr, p)+".("+ta.AssertedType.String()+")"] == "false" {
				out = append(out, ta.AssertedType)
			}
		}
		ok := len(out) > 0 && len(n.sites[f]) > 0
		for _, s := range n.sites[f] {
			if ok = ok && !s.Common().IsInvoke() && s.Common().StaticCallee() == f; !ok {
				break
			}
			up := n.rootOf(s.Parent())
			ok = n.typed(up, s.Common().Args[k], n.at(up, s), 10, func(t types.Type) bool {
				for _, o := range out {
					if types.Identical(o, t) {
						return true
					}
				}
				return false
			})
		}
		if ok {
			return true
		}
	}
	return false
}

// field: the object is made here, or by the function that returned it, with
// values of accepted types in the field.
func (n *nilness) field(fr *pframe, base ssa.Value, fa *ssa.FieldAddr, load ssa.Instruction, accept func(types.Type) bool, depth int) bool {
	fr, base = n.resolve(fr, base)
	if depth == 0 {
		return false
	}
	if al, ok := base.(*ssa.Alloc); ok {
		return wholeStore(al) == nil && n.made(fr, al, fa, load, accept)
	}
	k := 0
	c, ok := base.(*ssa.Call)
	if e, isE := base.(*ssa.Extract); isE {
		c, ok = e.Tuple.(*ssa.Call)
		k = e.Index
	}
	if !ok || c.Call.IsInvoke() || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Blocks == nil {
		return false
	}
	// nobody changes the object between its making and the load
	for _, r := range derefs(base) {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			for _, u := range derefs(x) {
				if _, ok := u.(*ssa.UnOp); !ok && fieldName(x) == fieldName(fa) {
					return false
				}
			}
		case *ssa.DebugRef:
		case *ssa.BinOp:
		default:
			if r.Block() == load.Block() {
				for _, i := range r.Block().Instrs {
					if i == r {
						return false
					}
					if i == load {
						break
					}
				}
			} else if !load.Block().Dominates(r.Block()) {
				return false
			}
		}
	}
	f := c.Call.StaticCallee()
	any := false
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if isNilConst(ret.Results[k]) {
			continue // using it would crash, see C08
		}
		any = true
		if !n.field(n.rootOf(f), ret.Results[k], fa, ret, accept, depth-1) {
			return false
		}
	}
	return any
}

// made: every value given to a field of a new object, here or by the functions it
// is handed to, has an accepted type.
func (n *nilness) made(fr *pframe, al *ssa.Alloc, fa *ssa.FieldAddr, load ssa.Instruction, accept func(types.Type) bool) bool {
	if al.Parent() != fr.fn {
		return false
	}
	field := fieldName(fa)
	stored := false
	reached := map[*ssa.Function]bool{}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr:
			if fieldName(x) != field {
				continue
			}
			for _, u := range *x.Referrers() {
				switch s := u.(type) {
				case *ssa.Store:
					if s.Addr != ssa.Value(x) || !n.typed(fr, s.Val, n.at(fr, s), 6, accept) {
						return false
					}
					stored = stored || s.Block().Dominates(load.Block())
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
		case *ssa.Call:
			fs, closed := n.sh.callees(&x.Call)
			if !closed {
				return false
			}
			for _, f := range fs {
				reached[f] = true
			}
		case *ssa.Return: // nothing runs here after it
		case *ssa.MakeInterface, *ssa.Store, *ssa.MakeClosure, *ssa.Phi:
			// known to others: only after this point
			if i := r; i.Block() == al.Block() || !load.Block().Dominates(i.Block()) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	if !stored && !accept(types.Typ[types.UntypedNil]) {
		return false
	}
	// whatever runs in those calls may set the field of objects it did not make
	var work []*ssa.Function
	for f := range reached {
		work = append(work, f)
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var more []*ssa.Function
				switch x := i.(type) {
				case ssa.CallInstruction:
					more, _ = n.sh.callees(x.Common())
				case *ssa.MakeClosure:
					more = []*ssa.Function{x.Fn.(*ssa.Function)}
				case *ssa.Store:
					va, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						if types.Identical(x.Val.Type(), al.Type().Underlying().(*types.Pointer).Elem()) {
							if _, own := x.Addr.(*ssa.Alloc); !own {
								return false
							}
						}
						continue
					}
					if fieldKey(va) != fieldKey(fa) {
						continue
					}
					if _, own := va.X.(*ssa.Alloc); own {
						continue
					}
					if e, ok := va.X.(*ssa.Extract); ok && n.fresh(e, al.Type()) {
						continue
					}
					r := n.rootOf(f)
					if !n.typed(r, x.Val, n.at(r, x), 6, accept) {
						return false
					}
				}
				for _, g := range more {
					if !reached[g] {
						reached[g] = true
						work = append(work, g)
					}
				}
			}
		}
	}
	return true
}

// fresh: the call that returned this was given no object of the type.
func (n *nilness) fresh(e *ssa.Extract, t types.Type) bool {
	c, ok := e.Tuple.(*ssa.Call)
	if !ok || c.Call.IsInvoke() || c.Call.StaticCallee() == nil {
		return false
	}
	for _, a := range c.Call.Args {
		switch a.Type().Underlying().(type) {
		case *types.Basic:
		case *types.Interface:
			m, ok := a.(*ssa.MakeInterface)
			if !ok || strings.Contains(m.X.Type().String(), modPath) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
