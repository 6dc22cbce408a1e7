package main

import "fmt"

func init() {
	register(&Check{ID: "C18", Min: 80, Rule: "Expressions are analysed with sub-evaluation and application intercepted and recorded in order: conditionals with a condition of every kind and truth value, lambda expressions, applications of one to four items, lists and maps as data. The recorded sequence must be exactly the condition and then one branch, nothing, or every item once from left to right followed by one application on the outcomes; with the k-th evaluation failing, the expression fails after exactly k evaluations.", Run: runC18})
	register(&Check{ID: "C17", Min: 150, Rule: "Evaluation is analysed for every kind of value, both modes and every class of tag with sub-evaluation and application intercepted: the mode handed to each part must be the one the tags call for, application must occur only in evaluating mode, untagged scalars and lists or maps that look like code must come back as data, and documents read from a stream must start as data.", Run: runC17})
}

// recorder intercepts Eval and Apply below the entry point and logs them.
type recorder struct {
	w      *World
	s      *Scn
	evals  func(n int, node Val) Val // value of the n-th recorded step
	failAt int
}

func (w *World) record(name string) *recorder {
	rc := &recorder{w: w, failAt: -1}
	rc.evals = func(n int, node Val) Val { return node }
	rc.s = w.scn(name,
		w.mock("Eval", func(c *Call, n int, a []Val) []Outcome {
			appendLog(c.St, mkTerm("eval", intT, a[0], a[1], a[2]))
			if n == rc.failAt {
				return []Outcome{{c.St, []Val{Nil{}, errVal(rc.s, "part fails")}}}
			}
			return []Outcome{{c.St, []Val{rc.evals(n, a[0]), Nil{}}}}
		}),
		w.mock("Apply", func(c *Call, n int, a []Val) []Outcome {
			el, ok := c.In.listElems(c.St, a[1])
			if !ok {
				el = []Val{Top{w.T.NodeSlice}}
			}
			appendLog(c.St, mkTerm("apply", intT, append([]Val{a[0]}, el...)...))
			if n == rc.failAt {
				return []Outcome{{c.St, []Val{Nil{}, errVal(rc.s, "application fails")}}}
			}
			return []Outcome{{c.St, []Val{rc.evals(n, nil), Nil{}}}}
		}))
	rc.s.In.Cap = 8
	rc.s.initLog()
	return rc
}

func (rc *recorder) expLog(want ...Val) func(o Outcome) string {
	return func(o Outcome) string {
		l, ok := logOf(o.St)
		if !ok {
			return "the evaluations made are not determined"
		}
		if logKeys(l) != logKeys(want) {
			return "the steps taken are [" + logKeys(l) + "] instead of [" + logKeys(want) + "]"
		}
		return ""
	}
}

func evalStep(node, env Ptr, mode int) Val { return mkTerm("eval", intT, node, env, cInt(mode)) }

func runC18(r *Report) {
	w := r.W()
	E := w.T.ModeEval
	both := func(rc *recorder, rule, construct string, outs []Outcome, res Val, want ...Val) {
		rc.s.exp(r, rule, construct, outs, func(o Outcome) string {
			if m := rc.s.noErr(o); m != "" {
				return m
			}
			if res != nil && o.Res[0].Key() != res.Key() {
				return "the result is " + rc.s.describe(o.St, o.Res[0]) + " instead of the value of the part"
			}
			return rc.expLog(want...)(o)
		})
	}
	failing := func(rc *recorder, construct string, outs []Outcome, want ...Val) {
		rc.s.exp(r, "the first failing part fails the expression", construct, outs, func(o Outcome) string {
			if rc.s.isErr(o) != 1 {
				return "the failure of a part does not make the expression fail"
			}
			return rc.expLog(want...)(o)
		})
	}
	// conditionals
	type cond struct {
		name string
		mk   func(s *Scn) Ptr
		t    bool
	}
	conds := []cond{
		{"null", func(s *Scn) Ptr { return s.bare("c", "Null") }, false},
		{"true", func(s *Scn) Ptr { return s.node("c", "Bool", s.anyBool(cBool(true))) }, true},
		{"false", func(s *Scn) Ptr { return s.node("c", "Bool", s.anyBool(cBool(false))) }, false},
		{"zero", func(s *Scn) Ptr { return s.intNode("c", cInt(0)) }, false},
		{"non-zero", func(s *Scn) Ptr { v := s.sym("i", intT); s.assume(v, cInt(0), LT|GT); return s.intNode("c", v) }, true},
		{"empty string", func(s *Scn) Ptr { return s.strNode("c", cStr("")) }, false},
		{"string", func(s *Scn) Ptr { v := s.str("v"); s.assume(v, cStr(""), LT|GT); return s.strNode("c", v) }, true},
		{"empty list", func(s *Scn) Ptr { return s.arrNode("c") }, false},
		{"list", func(s *Scn) Ptr { return s.bare("c", "Array") }, true},
		{"empty map", func(s *Scn) Ptr { return s.mapNode("c") }, false},
		{"map", func(s *Scn) Ptr { return s.bare("c", "Map") }, true},
		{"lambda", func(s *Scn) Ptr { return s.bare("c", "Lambda") }, true},
		{"type", func(s *Scn) Ptr { return s.bare("c", "Type") }, true},
	}
	for _, cd := range conds {
		for _, fail := range []int{-1, 0, 1} {
			name := "condition evaluates to " + cd.name
			if fail == 0 {
				name = "condition fails (" + cd.name + ")"
			}
			if fail == 1 {
				name += ", branch fails"
			}
			rc := w.record(name)
			rc.failAt = fail
			s := rc.s
			cv, res := cd.mk(s), s.any("res")
			c, a, b := s.any("cond"), s.any("then"), s.any("else")
			rc.evals = func(n int, _ Val) Val {
				if n == 0 {
					return cv
				}
				return res
			}
			env := s.env("env", nil)
			outs := s.evalIn(s.arrNode("expr", s.strNode("kw", cStr("if")), c, a, b), env, E, nil)
			br := b
			if cd.t {
				br = a
			}
			steps := []Val{evalStep(c, env, E), evalStep(br, env, E)}
			switch fail {
			case -1:
				both(rc, "the condition once, then exactly one branch", "conditional", outs, res, steps...)
			case 0:
				failing(rc, "conditional", outs, steps[0])
			case 1:
				failing(rc, "conditional", outs, steps...)
			}
		}
	}
	for n := 0; n <= 5; n++ {
		if n == 3 {
			continue
		}
		rc := w.record(fmt.Sprintf("%d operands", n))
		s := rc.s
		els := []Ptr{s.strNode("kw", cStr("if"))}
		for i := 0; i < n; i++ {
			els = append(els, s.any(fmt.Sprint("x", i)))
		}
		outs := s.eval(s.arrNode("expr", els...), E)
		s.exp(r, "a conditional has exactly three operands", "conditional", outs, func(o Outcome) string {
			if s.isErr(o) != 1 {
				return "no error is returned"
			}
			return rc.expLog()(o)
		})
	}
	// lambda
	for n := 0; n <= 3; n++ {
		rc := w.record(fmt.Sprintf("%d parameters", n))
		s := rc.s
		var ps []Ptr
		for i := 0; i < n; i++ {
			ps = append(ps, s.strNode(fmt.Sprint("p", i), s.ident(fmt.Sprint("pn", i))))
		}
		outs := s.eval(s.arrNode("expr", s.strNode("kw", cStr("lambda")), s.arrNode("ps", ps...), s.node("body", "Array", nil)), E)
		both(rc, "a lambda expression evaluates nothing", "lambda expression", outs, nil)
	}
	// application
	for n := 1; n <= 5; n++ {
		for fail := -1; fail <= n; fail++ {
			name := fmt.Sprintf("%d items", n)
			if fail >= 0 {
				name += fmt.Sprintf(", step %d fails", fail+1)
			}
			for _, head := range []string{"a name", "a list", "a symbol", "a map"} {
				rc := w.record(name + ", headed by " + head)
				rc.failAt = fail
				s := rc.s
				var els, vals []Ptr
				for i := 0; i < n; i++ {
					els = append(els, s.any(fmt.Sprint("x", i)))
					vals = append(vals, s.any(fmt.Sprint("v", i)))
				}
				switch head {
				case "a name":
					nm := s.str("op")
					for _, k := range []string{"if", "lambda", "import"} {
						s.assume(nm, cStr(k), LT|GT)
					}
					els[0] = s.strNode("h", nm)
				case "a list":
					els[0] = s.bare("h", "Array")
				case "a map":
					els[0] = s.bare("h", "Map")
				case "a symbol":
					nm := s.ident("sym")
					for _, k := range []string{"if", "lambda", "import"} {
						s.assume(nm, cStr(k), LT|GT)
					}
					els[0] = s.node("h", "Symbol", s.anyStr(nm))
				}
				res := s.any("res")
				rc.evals = func(k int, _ Val) Val {
					if k < n {
						return vals[k]
					}
					return res
				}
				env := s.env("env", nil)
				outs := s.evalIn(s.arrNode("expr", els...), env, E, nil)
				var steps []Val
				for _, e := range els {
					steps = append(steps, evalStep(e, env, E))
				}
				ap := []Val{}
				for _, v := range vals {
					ap = append(ap, v)
				}
				steps = append(steps, mkTerm("apply", intT, ap...))
				if fail < 0 {
					both(rc, "every item once from left to right, then one application", "application", outs, res, steps...)
				} else {
					failing(rc, "application", outs, steps[:fail+1]...)
				}
			}
		}
	}
	// data
	for n := 0; n <= 4; n++ {
		for fail := -1; fail < n; fail++ {
			for _, mode := range []int{E, w.T.ModeQuote} {
				for _, shape := range []string{"list", "map"} {
					if shape == "list" && mode == E {
						continue
					}
					name := fmt.Sprintf("%s of %d, mode %d", shape, n, mode)
					if fail >= 0 {
						name += fmt.Sprintf(", part %d fails", fail+1)
					}
					rc := w.record(name)
					rc.failAt = fail
					s := rc.s
					var els, vals []Ptr
					var kvs []Val
					var ks []Val
					for i := 0; i < n; i++ {
						els = append(els, s.any(fmt.Sprint("x", i)))
						vals = append(vals, s.any(fmt.Sprint("v", i)))
						k := s.ident(fmt.Sprint("k", i))
						ks = append(ks, k)
						kvs = append(kvs, k, els[i])
						for _, sp := range []string{"apiVersion", "kind", w.T.MergeKey} {
							s.assume(k, cStr(sp), LT|GT)
						}
						s.St.addRel(mkTerm("call:strings.HasPrefix", boolT, k, cStr(w.T.MergeKey)), cBool(false), EQ)
					}
					s.distinct(ks...)
					rc.evals = func(k int, _ Val) Val { return vals[k] }
					env := s.env("env", nil)
					node := s.mapNode("data", kvs...)
					if shape == "list" {
						node = s.arrNode("data", els...)
					}
					outs := s.evalIn(node, env, mode, nil)
					var steps []Val
					for _, e := range els {
						steps = append(steps, evalStep(e, env, mode))
					}
					if fail < 0 {
						both(rc, "every part of data once, in order", shape, outs, nil, steps...)
					} else {
						failing(rc, shape, outs, steps[:fail+1]...)
					}
				}
			}
		}
	}
}

func runC17(r *Report) {
	w := r.W()
	E, Q := w.T.ModeEval, w.T.ModeQuote
	tags := []string{"", "!yisp", "!quote", "!!seq", "!!map", "!!str", "!custom", "!Yisp", "!quoted"}
	eff := func(tag string, mode int) int {
		switch tag {
		case "!yisp":
			return E
		case "!quote":
			return Q
		}
		return mode
	}
	mname := map[int]string{E: "evaluating", Q: "data"}
	// lists
	for _, tag := range tags {
		for _, mode := range []int{E, Q} {
			for _, head := range []string{"if", "lambda", "import", "+", "include", "lists.map", "exec.cmd", "any"} {
				rc := w.record(fmt.Sprintf("list headed by %s, tag %q, within %s", head, tag, mname[mode]))
				s := rc.s
				var h Val = cStr(head)
				m := eff(tag, mode)
				if m == E && (head == "if" || head == "lambda" || head == "import") {
					continue // special forms are decided elsewhere
				}
				if head == "any" {
					h = s.str("text")
					if m == E {
						for _, k := range []string{"if", "lambda", "import"} {
							s.assume(h, cStr(k), LT|GT)
						}
					}
				}
				els := []Ptr{s.strNode("h", h), s.any("x1"), s.node("x2", "Array", nil), s.any("x3")}
				var vals []Ptr
				for i := range els {
					vals = append(vals, s.any(fmt.Sprint("v", i)))
				}
				res := s.any("res")
				rc.evals = func(k int, _ Val) Val {
					if k < len(vals) {
						return vals[k]
					}
					return res
				}
				env := s.env("env", nil)
				node := s.node("data", "Array", s.arr(els...), "Tag", cStr(tag))
				outs := s.evalIn(node, env, mode, nil)
				var steps []Val
				var ap []Val
				var ms []M
				for i, e := range els {
					steps = append(steps, evalStep(e, env, m))
					ap = append(ap, vals[i])
					ms = append(ms, same(vals[i]))
				}
				want := list(ms...)
				if m == E {
					steps = append(steps, mkTerm("apply", intT, ap...))
					want = same(res)
				}
				s.exp(r, "lists are applied only when evaluating", "list", outs, func(o Outcome) string {
					if e := s.noErr(o); e != "" {
						return e
					}
					if e := want(s, o.St, o.Res[0]); e != "" {
						return "the result has " + e
					}
					return rc.expLog(steps...)(o)
				})
			}
			// maps
			rc := w.record(fmt.Sprintf("map, tag %q, within %s", tag, mname[mode]))
			s := rc.s
			var kvs, ks, steps []Val
			var es []kv
			var vals []Ptr
			env := s.env("env", nil)
			for i := 0; i < 3; i++ {
				k := s.str(fmt.Sprint("k", i))
				ks = append(ks, k)
				x := s.any(fmt.Sprint("x", i))
				vals = append(vals, s.any(fmt.Sprint("v", i)))
				kvs = append(kvs, k, x)
				for _, sp := range []string{"apiVersion", "kind", "$schema"} {
					s.assume(k, cStr(sp), LT|GT)
				}
				s.St.addRel(mkTerm("call:strings.HasPrefix", boolT, k, cStr(w.T.MergeKey)), cBool(false), EQ)
				steps = append(steps, evalStep(x, env, eff(tag, mode)))
				es = append(es, kv{k, same(vals[i])})
			}
			s.distinct(ks...)
			rc.evals = func(k int, _ Val) Val { return vals[k] }
			node := s.mapNode("data", kvs...)
			s.setField(node, "Tag", cStr(tag))
			outs := s.evalIn(node, env, mode, nil)
			s.exp(r, "the mode reaches every member of a map", "map", outs, func(o Outcome) string {
				if e := s.noErr(o); e != "" {
					return e
				}
				if e := dict(es...)(s, o.St, o.Res[0]); e != "" {
					return "the result has " + e
				}
				return rc.expLog(steps...)(o)
			})
			// maps with merge entries: these, too, leave the mode of their neighbours alone
			for _, mk := range [][]int{{0}, {1}, {2}, {0, 1}, {0, 2}, {1, 2}, {0, 1, 2}} {
				rc := w.record(fmt.Sprintf("map with merge entries at %v, tag %q, within %s", mk, tag, mname[mode]))
				s := rc.s
				var kvs, ks, steps []Val
				var vals []Ptr
				env := s.env("env", nil)
				at := map[int]bool{}
				for _, i := range mk {
					at[i] = true
				}
				for i := 0; i < 3; i++ {
					k := s.str(fmt.Sprint("k", i))
					v := s.any(fmt.Sprint("v", i))
					if at[i] {
						v = s.mapNode(fmt.Sprint("v", i), s.ident(fmt.Sprint("m", i)), s.any(fmt.Sprint("w", i)))
					}
					for _, sp := range []string{"apiVersion", "kind", "$schema"} {
						s.assume(k, cStr(sp), LT|GT)
					}
					s.St.addRel(mkTerm("call:strings.HasPrefix", boolT, k, cStr(w.T.MergeKey)), cBool(at[i]), EQ)
					ks = append(ks, k)
					vals = append(vals, v)
					x := s.any(fmt.Sprint("x", i))
					kvs = append(kvs, k, x)
					steps = append(steps, evalStep(x, env, eff(tag, mode)))
				}
				s.distinct(ks...)
				rc.evals = func(k int, _ Val) Val { return vals[k] }
				node := s.mapNode("data", kvs...)
				s.setField(node, "Tag", cStr(tag))
				outs := s.evalIn(node, env, mode, nil)
				s.exp(r, "the mode reaches every member of a map", "map", outs, func(o Outcome) string {
					if e := s.noErr(o); e != "" {
						return e
					}
					return rc.expLog(steps...)(o)
				})
			}
			// scalars
			for _, k := range []string{"Null", "Bool", "Int", "Float", "String", "Parameter"} {
				rc := w.record(fmt.Sprintf("%s, tag %q, within %s", k, tag, mname[mode]))
				s := rc.s
				n := s.bare("x", k)
				s.setField(n, "Tag", cStr(tag))
				outs := s.eval(n, mode)
				v := s.value(s.St, n)
				if k == "Null" {
					v = nil
				}
				s.exp(r, "scalars are data in every mode", "scalar", outs, func(o Outcome) string {
					if e := s.noErr(o); e != "" {
						return e
					}
					if e := is(k, v)(s, o.St, o.Res[0]); e != "" {
						return "the result has " + e
					}
					return rc.expLog()(o)
				})
			}
		}
	}
	// documents
	for n := 0; n <= 3; n++ {
		rc := w.record(fmt.Sprintf("stream of %d documents", n))
		s := rc.s
		s.stream(n)
		env := s.env("env", nil)
		e, et := s.engine(nil)
		f := s.engMethod(et, "Run")
		outs := s.run(f, e, s.sym("reader", paramType(f, 0)), env, s.str("location"))
		s.exp(r, "documents start as data", "stream", outs, func(o Outcome) string {
			if e := s.noErr(o); e != "" {
				return e
			}
			l, ok := logOf(o.St)
			if !ok || len(l) != n {
				return fmt.Sprintf("%d documents are evaluated instead of %d", len(l), n)
			}
			for _, x := range l {
				a := x.(*Term).Args
				if a[1].Key() != env.Key() || a[2].Key() != cInt(Q).Key() {
					return "a document is not evaluated as data in the given scope"
				}
			}
			return ""
		})
	}
}
