package main

import (
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C06", Min: 60, Rule: "Every index, slice expression and allocation with a computed length in the evaluator, the operators and the commands (instructions of the SSA form, with at least one operand that is not constant) is proved to be in range on every path by a chain of inequalities over dominating conditions, definitions, results of calls and, where the function is only called from known places, each of its call sites. Function and closure parameters without known callers are unconstrained.", Run: runC06})
}

func groupCount(re string) (int64, bool) {
	t, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return 0, false
	}
	return int64(t.MaxCap()) + 1, true
}

func (q *prover) inScope(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && strings.HasPrefix(pk.Path(), modPath) && !strings.HasPrefix(pk.Path(), modPath+"/internal/") && !isInit(f) && f.Synthetic == ""
}

// everywhere proves a claim about a function for all contexts it runs in.
func (q *prover) everywhere(f *ssa.Function, claim func(fr *pframe) bool) bool {
	var try func(chain []ssa.CallInstruction, top *ssa.Function, depth int) bool
	try = func(chain []ssa.CallInstruction, top *ssa.Function, depth int) bool {
		fr := q.rootOf(top)
		for i := len(chain) - 1; i >= 0; i-- {
			fn := f
			if i > 0 {
				fn = chain[i-1].Parent()
			}
			fr = q.child(fr, chain[i], fn)
		}
		q.steps = 0
		if claim(fr) {
			return true
		}
		if depth == 0 || q.open[top] || len(q.sites[top]) == 0 || len(q.sites[top]) > 40 {
			return false
		}
		for _, s := range q.sites[top] {
			for _, c := range chain {
				if c.Parent() == s.Parent() && c == s {
					return false
				}
			}
			if !try(append(append([]ssa.CallInstruction{}, chain...), s), s.Parent(), depth-1) {
				return false
			}
		}
		return true
	}
	return try(nil, f, 3)
}

func runC06(r *Report) {
	q := newProver(r.P)
	n := 0
	for _, f := range q.funcs {
		if !q.inScope(f) {
			continue
		}
		n++
		r.funcs[f.String()] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				q.bounds(r, f, i)
			}
		}
	}
	r.note("functions", n)
}

func (q *prover) bounds(r *Report, f *ssa.Function, i ssa.Instruction) {
	const depth = 8
	pos := q.p.instrPos(i)
	le := func(fr *pframe, x ssa.Value, xlen bool, y ssa.Value, ylen bool, k int64) bool {
		get := func(v ssa.Value, l bool) (atom, int64) {
			if v == nil {
				return zeroAtom, 0
			}
			if l {
				return q.length(fr, v)
			}
			return q.lin(fr, v)
		}
		a, m := get(x, xlen)
		c, l := get(y, ylen)
		return q.leq(a, c, k+l-m, q.at(fr, i), depth)
	}
	prove := func(rule, what string, claim func(fr *pframe) bool) {
		ok := q.everywhere(f, claim)
		r.check(ok, rule, what+" in "+f.String(), pos, "nothing on the way here ensures that %s", what)
	}
	index := func(x, idx ssa.Value) {
		if n, ok := arrayLen(x.Type()); ok {
			if c, ok := idx.(*ssa.Const); ok && c.Int64() < n {
				return
			}
		}
		name := describe(x)
		prove("indices are in range", "index "+describe(idx)+" of "+name+" is not negative", func(fr *pframe) bool { return le(fr, nil, false, idx, false, 0) })
		prove("indices are in range", "index "+describe(idx)+" of "+name+" is below its length", func(fr *pframe) bool { return le(fr, idx, false, x, true, -1) })
	}
	switch x := i.(type) {
	case *ssa.IndexAddr:
		index(x.X, x.Index)
	case *ssa.Index:
		index(x.X, x.Index)
	case *ssa.Lookup:
		if isStringT(x.X.Type()) {
			index(x.X, x.Index)
		}
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return
		}
		name := describe(x.X)
		if x.Low != nil {
			prove("slices are in range", "start "+describe(x.Low)+" of a part of "+name+" is not negative", func(fr *pframe) bool { return le(fr, nil, false, x.Low, false, 0) })
			if x.High == nil {
				prove("slices are in range", "start "+describe(x.Low)+" of a part of "+name+" is within it", func(fr *pframe) bool { return le(fr, x.Low, false, x.X, true, 0) })
			} else {
				prove("slices are in range", "start "+describe(x.Low)+" of a part of "+name+" is not beyond its end "+describe(x.High), func(fr *pframe) bool { return le(fr, x.Low, false, x.High, false, 0) })
			}
		}
		if x.High != nil {
			prove("slices are in range", "end "+describe(x.High)+" of a part of "+name+" is not negative", func(fr *pframe) bool { return le(fr, nil, false, x.High, false, 0) })
			prove("slices are in range", "end "+describe(x.High)+" of a part of "+name+" is within it", func(fr *pframe) bool {
				if le(fr, x.High, false, x.X, true, 0) {
					return true
				}
				if m, ok := x.X.(*ssa.MakeSlice); ok {
					return le(fr, x.High, false, m.Cap, false, 0)
				}
				return false
			})
		}
	case *ssa.MakeSlice:
		if _, ok := x.Len.(*ssa.Const); !ok {
			prove("lengths are not negative", "the length "+describe(x.Len)+" is not negative", func(fr *pframe) bool { return le(fr, nil, false, x.Len, false, 0) })
		}
		if _, ok := x.Cap.(*ssa.Const); !ok && x.Cap != x.Len {
			prove("lengths are not negative", "the capacity "+describe(x.Cap)+" is not below the length", func(fr *pframe) bool { return le(fr, x.Len, false, x.Cap, false, 0) })
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			switch fnName(g) {
			case "strings.Repeat", "bytes.Repeat":
				prove("lengths are not negative", "the count "+describe(x.Call.Args[1])+" is not negative", func(fr *pframe) bool { return le(fr, nil, false, x.Call.Args[1], false, 0) })
			case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Truncate", "slices.Grow":
				prove("lengths are not negative", "the size "+describe(x.Call.Args[len(x.Call.Args)-1])+" is not negative", func(fr *pframe) bool { return le(fr, nil, false, x.Call.Args[len(x.Call.Args)-1], false, 0) })
			}
		}
	}
}

// describe names a value by the source variables it comes from.
func describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return x.Value.ExactString()
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return v.Name()
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.BinOp:
		return describe(x.X) + x.Op.String() + describe(x.Y)
	case *ssa.UnOp:
		return describe(x.X)
	case *ssa.FieldAddr:
		return describe(x.X) + "." + fieldName(x)
	case *ssa.Field:
		return describe(x.X) + "." + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		return describe(x.X) + "[" + describe(x.Index) + "]"
	case *ssa.TypeAssert:
		return describe(x.X)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return "result of " + calleeShort(c)
		}
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return describe(t.X)
		}
		return "element"
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 {
			return b.Name() + "(" + describe(x.Call.Args[0]) + ")"
		}
		return "result of " + calleeShort(x)
	case *ssa.Slice:
		return "part of " + describe(x.X)
	case *ssa.MakeSlice:
		return "new list"
	case *ssa.Convert:
		return describe(x.X)
	case *ssa.ChangeType:
		return describe(x.X)
	}
	return "value"
}

func calleeShort(c *ssa.Call) string {
	if c.Call.IsInvoke() {
		return c.Call.Method.Name()
	}
	if g := c.Call.StaticCallee(); g != nil {
		return g.Name()
	}
	return "a call"
}
