package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C16", Min: 60, Rule: "Lambda expressions with zero to three parameters are analysed end to end: created in a scope with a parent and own definitions, then applied from an unrelated scope with the body evaluation intercepted. In the environment the body receives every parameter must read as the argument at its position (shadowing definitions of the creating scope), the creating scope's and its parent's names must be visible, the caller's must not, and afterwards the creating scope, the caller's scope and the arguments are as before. Wrong counts and arguments that fail the declared type must be errors with no body evaluation recorded.", Run: runC16})
}

// lookup analyses the environment's own lookup of name.
func (s *Scn) lookup(in *Interp, st *State, env, name Val) string {
	get := s.W.P.method(s.W.T.EnvPtr, "Get")
	outs := in.CallFn(get, st.clone(), []Val{env, name}, nil, "lookup:"+name.Key())
	var r []string
	for _, o := range outs {
		d := in.decide(o.St, o.Res[1])
		switch d {
		case 1:
			r = append(r, o.Res[0].Key())
		case 0:
			r = append(r, "undefined")
		default:
			r = append(r, "undetermined")
		}
	}
	seen := map[string]bool{}
	var u []string
	for _, x := range r {
		if !seen[x] {
			seen[x] = true
			u = append(u, x)
		}
	}
	return strings.Join(u, " or ")
}

// unchanged names the first input object that differs from the start.
func (s *Scn) unchanged(before *State, after *State, skip ...string) string {
	var ids []string
	for id := range before.heap {
		if strings.HasPrefix(id, "in:") {
			ids = append(ids, id)
		}
	}
	sortStrings(ids)
	for _, id := range ids {
		if after.heap[id] == before.heap[id] {
			continue
		}
		if a, b := before.heap[id].key(), after.heap[id].key(); a != b {
			ok := false
			for _, x := range skip {
				ok = ok || strings.HasPrefix(id, "in:"+x+"#") || strings.HasPrefix(id, "in:"+x+".")
			}
			if !ok {
				return strings.TrimPrefix(id, "in:")
			}
		}
	}
	return ""
}

func runC16(r *Report) {
	w := r.W()
	E := w.T.ModeEval
	type bodyCall struct {
		body string
		mode string
		seen []string
	}
	// one scenario: create with params, call with args
	type sc struct {
		s                *Scn
		params           []Val
		args             []Ptr
		body             Ptr
		def, caller      Ptr
		outerN, ownN, cN Val
		outerV, ownV, cV Ptr
		res              Ptr
		calls            []bodyCall
		tags             []Val
		fail             bool
	}
	mkSc := func(name string, n int) *sc {
		x := &sc{}
		x.s = w.scn(name, w.mock("Eval", func(c *Call, k int, a []Val) []Outcome {
			b := bodyCall{body: a[0].Key(), mode: a[2].Key()}
			names := append(append([]Val{}, x.params...), x.outerN, x.ownN, x.cN)
			for _, nm := range names {
				b.seen = append(b.seen, x.s.lookup(c.In, c.St, a[1], nm))
			}
			appendLog(c.St, cInt(len(x.calls)))
			x.calls = append(x.calls, b)
			if x.fail {
				return []Outcome{{c.St, []Val{Nil{}, errVal(x.s, "body")}}}
			}
			return []Outcome{{c.St, []Val{x.res, Nil{}}}}
		}))
		s := x.s
		s.initLog()
		for i := 0; i < n; i++ {
			x.params = append(x.params, s.ident(fmt.Sprint("p", i)))
			x.args = append(x.args, s.any(fmt.Sprint("a", i)))
			x.tags = append(x.tags, cStr(""))
		}
		x.outerN, x.ownN, x.cN = s.ident("outer"), s.ident("own"), s.ident("callers")
		s.distinct(append(append([]Val{}, x.params...), x.outerN, x.ownN, x.cN)...)
		x.outerV, x.ownV, x.cV = s.any("outerV"), s.any("ownV"), s.any("callersV")
		kv := []Val{x.ownN, x.ownV}
		x.def = s.env("def", s.env("defparent", nil, x.outerN, x.outerV), kv...)
		x.caller = s.env("caller", s.env("callerparent", nil), x.cN, x.cV)
		x.body = s.node("body", "Array", nil)
		x.res = s.any("res")
		return x
	}
	// create evaluates the lambda expression
	create := func(x *sc) ([]Outcome, Val) {
		s := x.s
		var ps []Ptr
		for i, p := range x.params {
			ps = append(ps, s.strNode(fmt.Sprint("pn", i), p, "Tag", x.tags[i]))
		}
		expr := s.arrNode("expr", s.strNode("kw", cStr("lambda")), s.arrNode("plist", ps...), x.body)
		e, et := s.engine(nil)
		return s.run(s.engMethod(et, "Eval"), e, expr, x.def, cInt(E)), e
	}
	call := func(x *sc, o Outcome, args []Ptr, mode int) ([]Outcome, *State) {
		s := x.s
		s.St = o.St
		e, et := s.engine(nil)
		l := s.nodes(args...)
		before := s.St.clone()
		p, ok := o.Res[0].(Ptr)
		if !ok {
			anchorf("the value of a lambda expression is not determined: %s", o.Res[0].Key())
		}
		return s.run(s.engMethod(et, "Apply"), e, p, l, x.caller, cInt(mode)), before
	}
	made := func(x *sc) (Outcome, bool) {
		outs, _ := create(x)
		bad := ""
		x.s.exp(r, "creating a lambda succeeds and evaluates nothing", "lambda expression", outs, func(o Outcome) string {
			if m := x.s.noErr(o); m != "" {
				bad = m
				return m
			}
			if k := x.s.kindOf(o.St, o.Res[0]); k != "Lambda" {
				bad = "the value is of kind " + k + ", not a lambda"
				return bad
			}
			return ""
		})
		if len(x.calls) > 0 {
			r.fail("creating a lambda succeeds and evaluates nothing", "lambda expression: "+x.s.Name, "", "something is evaluated while the lambda is created")
			return Outcome{}, false
		}
		if bad != "" || len(outs) != 1 {
			return Outcome{}, false
		}
		return outs[0], true
	}
	okCall := func(x *sc, mode int, args []Ptr) {
		o, ok := made(x)
		if !ok {
			return
		}
		outs, before := call(x, o, args, mode)
		if x.fail {
			x.s.expErr(r, "a failing body fails the call", "lambda call", outs)
			return
		}
		x.s.exp(r, "the body sees exactly its parameters and the creating scope", "lambda call", outs, func(o Outcome) string {
			if m := x.s.noErr(o); m != "" {
				return m
			}
			if o.Res[0].Key() != x.res.Key() {
				return "the result is " + o.Res[0].Key() + " instead of the value of the body"
			}
			l, ok := logOf(o.St)
			if !ok || len(l) != 1 {
				return fmt.Sprintf("the body is evaluated %d times instead of once", len(l))
			}
			i, _ := isInt(l[0])
			b := x.calls[i]
			if b.body != x.body.Key() {
				return "something other than the body is evaluated: " + b.body
			}
			if b.mode != cInt(mode).Key() {
				return "the body is not evaluated in the mode of the call"
			}
			for k := range x.params {
				if b.seen[k] != args[k].Key() {
					return fmt.Sprintf("in the body parameter %d reads %s instead of the argument at its position", k+1, b.seen[k])
				}
			}
			n := len(x.params)
			if b.seen[n] != x.outerV.Key() || b.seen[n+1] != x.ownV.Key() {
				return fmt.Sprintf("in the body the names of the creating scope read %s, %s", b.seen[n], b.seen[n+1])
			}
			if b.seen[n+2] != "undefined" {
				return "the body sees a name of the caller's scope"
			}
			if m := x.s.unchanged(before, o.St); m != "" {
				return "the call changes " + m
			}
			return ""
		})
	}
	for n := 0; n <= 3; n++ {
		for _, mode := range []int{E, w.T.ModeQuote} {
			x := mkSc(fmt.Sprintf("%d parameters, mode %d", n, mode), n)
			okCall(x, mode, x.args)
		}
		x := mkSc(fmt.Sprintf("%d parameters, body fails", n), n)
		x.fail = true
		okCall(x, E, x.args)
		// a parameter shadows a definition of the creating scope
		for i := 0; i < n; i++ {
			x := mkSc(fmt.Sprintf("%d parameters, parameter %d shadows a definition", n, i+1), n)
			sh := x.s.any("shadowed")
			x.def = x.s.env("def2", x.s.env("defparent2", nil, x.outerN, x.outerV, x.params[i], sh), x.ownN, x.ownV, x.params[i], sh)
			x.caller = x.s.env("caller2", nil, x.cN, x.cV, x.params[i], sh)
			okCall(x, E, x.args)
		}
		// wrong counts
		for m := 0; m <= 4; m++ {
			if m == n {
				continue
			}
			x := mkSc(fmt.Sprintf("%d parameters, %d arguments", n, m), n)
			o, ok := made(x)
			if !ok {
				continue
			}
			x.s.St = o.St
			var args []Ptr
			for i := 0; i < m; i++ {
				args = append(args, x.s.any(fmt.Sprint("b", i)))
			}
			outs, _ := call(x, o, args, E)
			if x.s.expErr(r, "a wrong number of arguments is an error", "lambda call", outs) && len(x.calls) > 0 {
				r.fail("a wrong number of arguments is an error", "lambda call: "+x.s.Name, "", "the body is evaluated")
			}
		}
		// twice: the second call does not see the first one's bindings
		x = mkSc(fmt.Sprintf("%d parameters, called twice", n), n)
		if o, ok := made(x); ok {
			first, _ := call(x, o, x.args, E)
			if len(first) == 1 && x.s.isErr(first[0]) == 0 {
				x.s.St = first[0].St
				x.s.initLog()
				var args []Ptr
				for i := 0; i < n; i++ {
					args = append(args, x.s.any(fmt.Sprint("second", i)))
				}
				x.calls = nil
				outs, _ := call(x, Outcome{x.s.St, o.Res}, args, E)
				x.s.exp(r, "each call has its own scope", "lambda call", outs, func(o Outcome) string {
					if m := x.s.noErr(o); m != "" {
						return m
					}
					l, ok := logOf(o.St)
					if !ok || len(l) != 1 {
						return "the body is not evaluated once"
					}
					i, _ := isInt(l[0])
					for k := range args {
						if x.calls[i].seen[k] != args[k].Key() {
							return fmt.Sprintf("in the second call parameter %d reads %s", k+1, x.calls[i].seen[k])
						}
					}
					return ""
				})
			}
		}
	}
	// declared types, by position
	kinds := map[string]string{"string": "String", "int": "Int", "bool": "Bool", "float": "Float", "null": "Null"}
	var tns []string
	for t := range kinds {
		tns = append(tns, t)
	}
	sortStrings(tns)
	schemaName := map[string]string{"string": "string", "int": "integer", "bool": "boolean", "float": "float", "null": "null"}
	for n := 1; n <= 3; n++ {
		for i := 0; i < n; i++ {
			for _, tn := range tns {
				for _, k := range allKinds {
					x := mkSc(fmt.Sprintf("parameter %d of %d declared %s, argument of kind %s", i+1, n, tn, k), n)
					s := x.s
					x.tags[i] = cStr("!" + tn)
					ty := s.node("type", "Type", Iface{w.T.SchemaPtr, s.schema("sch", map[string]Val{"Type": cStr(schemaName[tn])})})
					x.def = s.env("def3", s.env("defparent3", nil, x.outerN, x.outerV, cStr(tn), ty), x.ownN, x.ownV)
					for _, p := range append(append([]Val{}, x.params...), x.outerN, x.ownN, x.cN) {
						s.assume(p, cStr(tn), LT|GT)
					}
					x.args[i] = s.bare("typed", k)
					if kinds[tn] == k {
						okCall(x, E, x.args)
						continue
					}
					if n == 3 && i != 2 { // enough with the last one
						continue
					}
					o, ok := made(x)
					if !ok {
						continue
					}
					outs, _ := call(x, o, x.args, E)
					if s.expErr(r, "an argument that fails its declared type is an error", "lambda call", outs) && len(x.calls) > 0 {
						r.fail("an argument that fails its declared type is an error", "lambda call: "+s.Name, "", "the body is evaluated")
					}
				}
			}
		}
	}
	// unknown types
	for _, what := range []string{"an undefined type", "a name that is not a type"} {
		x := mkSc("parameter declared with "+what, 1)
		x.tags[0] = cStr("!foo")
		for _, p := range append(append([]Val{}, x.params...), x.outerN, x.ownN, x.cN) {
			x.s.assume(p, cStr("foo"), LT|GT)
		}
		if what != "an undefined type" {
			x.def = x.s.env("def4", nil, cStr("foo"), x.s.bare("v", "Int"))
		}
		outs, _ := create(x)
		x.s.expErr(r, "a parameter type must be a type", "lambda expression", outs)
	}
}
