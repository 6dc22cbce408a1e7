package main

import "fmt"

func init() {
	register(&Check{ID: "C19", Min: 120, Rule: "Every construct that takes a truth value (the conditional form, and, or, not, list filters) is analysed with a condition of every kind, split into the cases that count as false (null, false, zero, empty text, empty list, empty map) and all others; the construct must take the branch, or return the boolean, the rule prescribes. The default operator must return its first operand that is not null.", Run: runC19})
}

type truthCase struct {
	name string
	want bool
	mk   func(s *Scn, l string) Ptr
}

func truthCases(w *World) []truthCase {
	f64 := floatT
	num := func(kind string, m int) func(s *Scn, l string) Ptr {
		return func(s *Scn, l string) Ptr {
			if kind == "Int" {
				v := s.sym(l, intT)
				s.assume(v, cInt(0), m)
				return s.intNode(l, v)
			}
			v := s.sym(l, f64)
			s.assume(v, cFloat(0), m)
			return s.node(l, "Float", s.anyFloat(v))
		}
	}
	text := func(m int) func(s *Scn, l string) Ptr {
		return func(s *Scn, l string) Ptr {
			v := s.str(l)
			s.assume(v, cStr(""), m)
			return s.strNode(l, v)
		}
	}
	bare := func(k string) func(s *Scn, l string) Ptr { return func(s *Scn, l string) Ptr { return s.bare(l, k) } }
	boolean := func(b bool) func(s *Scn, l string) Ptr {
		return func(s *Scn, l string) Ptr { return s.node(l, "Bool", s.anyBool(cBool(b))) }
	}
	return []truthCase{
		{"null", false, bare("Null")},
		{"false", false, boolean(false)}, {"true", true, boolean(true)},
		{"the integer zero", false, num("Int", EQ)}, {"a positive integer", true, num("Int", GT)}, {"a negative integer", true, num("Int", LT)},
		{"the float zero", false, num("Float", EQ)}, {"a positive float", true, num("Float", GT)}, {"a negative float", true, num("Float", LT)},
		{"the empty string", false, text(EQ)}, {"a non-empty string", true, text(LT | GT)},
		{"the empty list", false, func(s *Scn, l string) Ptr { return s.arrNode(l) }},
		{"a list of one", true, func(s *Scn, l string) Ptr { return s.arrNode(l, s.node(l+"e", "Null", nil)) }},
		{"a list of two", true, func(s *Scn, l string) Ptr {
			return s.arrNode(l, s.node(l+"e", "Null", nil), s.node(l+"f", "Null", nil))
		}},
		{"the empty map", false, func(s *Scn, l string) Ptr { return s.mapNode(l) }},
		{"a map of one", true, func(s *Scn, l string) Ptr { return s.mapNode(l, s.str(l+"k"), s.node(l+"e", "Null", nil)) }},
		{"a lambda", true, bare("Lambda")}, {"a type", true, bare("Type")},
	}
}

func runC19(r *Report) {
	w := r.W()
	cases := truthCases(w)
	E := w.T.ModeEval
	for _, c := range cases {
		// the conditional form
		var cond, yes, no, cv, yv, nv Ptr
		s := w.scn(c.name+" as the condition", w.mock("Eval", func(cl *Call, n int, a []Val) []Outcome {
			switch a[0].Key() {
			case cond.Key():
				return []Outcome{{cl.St, []Val{cv, Nil{}}}}
			case yes.Key():
				return []Outcome{{cl.St, []Val{yv, Nil{}}}}
			case no.Key():
				return []Outcome{{cl.St, []Val{nv, Nil{}}}}
			}
			return []Outcome{{cl.St, []Val{Top{w.T.NodePtr}, Nil{}}}}
		}))
		cond, yes, no = s.any("cond"), s.any("yes"), s.any("no")
		cv, yv, nv = c.mk(s, "c"), s.any("yv"), s.any("nv")
		want := nv
		if c.want {
			want = yv
		}
		form := s.arrNode("form", s.strNode("if", cStr("if")), cond, yes, no)
		s.expNode(r, "branch taken", "the conditional form", s.eval(form, E), want)

		for _, nm := range []string{"not", "!"} {
			s = w.scn(c.name)
			s.expBool(r, "negation", "operator "+nm, s.applyOp(nm, E, c.mk(s, "a")), !c.want)
		}
		for _, d := range cases {
			for _, nm := range []string{"and", "&&", "or", "||"} {
				if (nm == "&&" || nm == "||") && d.name != "true" && d.name != "false" {
					continue
				}
				s = w.scn(c.name + ", then " + d.name)
				and := nm == "and" || nm == "&&"
				res := c.want || d.want
				if and {
					res = c.want && d.want
				}
				s.expBool(r, "conjunction and disjunction", "operator "+nm, s.applyOp(nm, E, c.mk(s, "a"), d.mk(s, "b")), res)
			}
		}
		// filters
		var res Ptr
		s = w.scn(c.name+" as the outcome", w.mock("Apply", func(cl *Call, n int, a []Val) []Outcome {
			return []Outcome{{cl.St, []Val{res, Nil{}}}}
		}))
		res = c.mk(s, "r")
		el := s.any("e")
		var ms []M
		if c.want {
			ms = append(ms, same(el))
		}
		s.exact(r, "element kept or dropped", "operator lists.filter", s.applyOp("lists.filter", E, s.arrNode("l", el), s.node("fn", "Lambda", nil)), list(ms...))
		// default operator: only null is replaced
		for _, nm := range []string{"??", "default"} {
			s = w.scn(c.name + ", then a value")
			a, b := c.mk(s, "a"), s.any("b", "Null")
			want := a
			if c.name == "null" {
				want = b
			}
			s.expNode(r, "first value that is not null", "operator "+nm, s.applyOp(nm, E, a, b), want)
		}
	}
	for n := 1; n <= 4; n++ {
		for bits := 0; bits < 1<<n; bits++ {
			for _, nm := range []string{"and", "or"} {
				s := w.scn(fmt.Sprintf("%d operands, truth %0*b", n, n, bits))
				var args []Ptr
				and, or := true, false
				for i := 0; i < n; i++ {
					t := bits>>(n-1-i)&1 == 1
					and, or = and && t, or || t
					v := s.sym(fmt.Sprint("x", i), intT)
					if t {
						s.assume(v, cInt(0), LT|GT)
					} else {
						s.assume(v, cInt(0), EQ)
					}
					args = append(args, s.intNode(fmt.Sprint("x", i), v))
				}
				want := or
				if nm == "and" {
					want = and
				}
				s.expBool(r, "every operand counts", "operator "+nm, s.applyOp(nm, E, args...), want)
			}
		}
		for first := 0; first <= n; first++ {
			for _, nm := range []string{"??", "default"} {
				s := w.scn(fmt.Sprintf("%d operands, the first %d null", n, first))
				var args []Ptr
				for i := 0; i < n; i++ {
					if i < first {
						args = append(args, s.bare(fmt.Sprint("x", i), "Null"))
					} else {
						args = append(args, s.bare(fmt.Sprint("x", i), "Map"))
					}
				}
				outs := s.applyOp(nm, E, args...)
				if first < n {
					s.expNode(r, "first value that is not null", "operator "+nm, outs, args[first])
				} else {
					s.exact(r, "first value that is not null", "operator "+nm, outs, is("Null", nil))
				}
			}
		}
	}
	for n := 0; n <= 3; n++ {
		if n == 1 {
			continue
		}
		s := w.scn(fmt.Sprintf("%d operands", n))
		var args []Ptr
		for i := 0; i < n; i++ {
			args = append(args, s.bare(fmt.Sprint("x", i), "Bool"))
		}
		s.expErr(r, "negation of exactly one value", "operator not", s.applyOp("not", E, args...))
	}
}
