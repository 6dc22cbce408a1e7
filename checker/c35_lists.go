package main

import "fmt"

func init() {
	register(&Check{ID: "C35", Min: 100, Rule: "Each list operator, reached through the operator table, is analysed on lists of zero to four opaque elements (and on every position, start and count it takes, symbolic where the result does not depend on the number itself); the result must consist of exactly the documented elements, as the same values, in the documented order. Missing operands, operands of another kind and positions outside the list must give an error.", Run: runC35})
}

func runC35(r *Report) {
	w := r.W()
	mk := func(s *Scn, pre string, n int, not ...string) []Ptr {
		var out []Ptr
		for i := 0; i < n; i++ {
			out = append(out, s.any(fmt.Sprint(pre, i), not...))
		}
		return out
	}
	sames := func(ps []Ptr) []M {
		var ms []M
		for _, p := range ps {
			ms = append(ms, same(p))
		}
		return ms
	}
	E := w.T.ModeEval
	for n := 0; n <= 4; n++ {
		lab := fmt.Sprintf("list of %d", n)
		s := w.scn(lab)
		el := mk(s, "e", n)
		outs := s.applyOp("lists.car", E, s.arrNode("l", el...))
		if n == 0 {
			s.expErr(r, "first element", "operator lists.car", outs)
		} else {
			s.exact(r, "first element", "operator lists.car", outs, same(el[0]))
		}
		s = w.scn(lab)
		el = mk(s, "e", n)
		outs = s.applyOp("lists.cdr", E, s.arrNode("l", el...))
		if n == 0 {
			s.expErr(r, "all but the first", "operator lists.cdr", outs)
		} else {
			s.exact(r, "all but the first", "operator lists.cdr", outs, list(sames(el[1:])...))
		}
		for _, k := range allKinds {
			s = w.scn(lab + ", prepending a " + k)
			el = mk(s, "e", n)
			x := s.bare("x", k)
			s.exact(r, "prepend", "operator lists.cons", s.applyOp("lists.cons", E, x, s.arrNode("l", el...)), list(sames(append([]Ptr{x}, el...))...))
		}
		s = w.scn(lab)
		el = mk(s, "e", n)
		s.exact(r, "length", "operator lists.length", s.applyOp("lists.length", E, s.arrNode("l", el...)), is("Int", cInt(n)))
		for i := -2; i <= n+1; i++ {
			s = w.scn(fmt.Sprintf("%s, position %d", lab, i))
			el = mk(s, "e", n)
			idx := s.intNode("i", cInt(i))
			outs := s.applyOp("lists.at", E, s.arrNode("l", el...), idx)
			if i >= 0 && i < n {
				s.exact(r, "element at position", "operator lists.at", outs, same(el[i]))
			} else {
				s.expErr(r, "positions outside the list", "operator lists.at", outs)
			}
		}
		for _, c := range []struct {
			name string
			at   int
			rel  int
		}{{"any negative position", 0, LT}, {"any position behind the end", n - 1, GT}} {
			s = w.scn(lab + ", " + c.name)
			el = mk(s, "e", n)
			i := s.sym("i", intT)
			s.assume(i, cInt(c.at), c.rel)
			s.expErr(r, "positions outside the list", "operator lists.at", s.applyOp("lists.at", E, s.arrNode("l", el...), s.intNode("i", i)))
		}
		// index sequences
		for _, withStart := range []bool{false, true} {
			s = w.scn(fmt.Sprintf("count %d, start given: %v", n, withStart))
			cnt := s.intNode("n", cInt(n))
			st := s.sym("start", intT)
			s.assume(st, cInt(0), EQ|GT)
			args := []Ptr{cnt}
			if withStart {
				args = append(args, s.intNode("s", st))
			}
			var ms []M
			for i := 0; i < n; i++ {
				if withStart {
					ms = append(ms, is("Int", mkSum(st, i, intT)))
				} else {
					ms = append(ms, is("Int", cInt(i)))
				}
			}
			s.exact(r, "consecutive numbers from the start", "operator lists.iota", s.applyOp("lists.iota", E, args...), list(ms...))
		}
	}
	for _, bad := range []string{"count", "start"} {
		s := w.scn("negative " + bad)
		a, b := s.sym("n", intT), s.sym("start", intT)
		if bad == "count" {
			s.assume(a, cInt(0), LT)
		} else {
			s.assume(b, cInt(0), LT)
			s.assume(a, cInt(0), GT)
		}
		s.expErr(r, "negative counts and starts", "operator lists.iota", s.applyOp("lists.iota", E, s.intNode("n", a), s.intNode("s", b)))
	}
	// flattening
	shapes := [][]int{{}, {0}, {1}, {-1}, {2, 1}, {-1, 2}, {1, -1, 0, 2}}
	for _, op := range []string{"lists.flatten", "lists.as-toplevel"} {
		for _, sh := range shapes {
			s := w.scn(fmt.Sprintf("operands of length %v (-1: not a list)", sh))
			var args, want []Ptr
			for i, n := range sh {
				if n < 0 {
					x := s.any(fmt.Sprint("x", i), "Array")
					args, want = append(args, x), append(want, x)
					continue
				}
				el := mk(s, fmt.Sprint("l", i, "e"), n, "Array")
				args, want = append(args, s.arrNode(fmt.Sprint("l", i), el...)), append(want, el...)
			}
			m := list(sames(want)...)
			outs := s.applyOp(op, E, args...)
			s.exact(r, "elements of the operands in order", "operator "+op, outs, m)
			if op == "lists.as-toplevel" {
				s.exact(r, "marked as documents", "operator "+op, outs, func(s *Scn, st *State, v Val) string {
					if s.In.decide(st, s.nodeField(st, v, "IsDocumentRoot")) != 1 {
						return "no mark that its elements are documents of their own"
					}
					return ""
				})
			}
		}
	}
	{ // nested lists
		s := w.scn("lists inside the operand")
		a := mk(s, "a", 2, "Array")
		b := mk(s, "b", 1, "Array")
		c := mk(s, "c", 1)
		deep := s.arrNode("deep", c...)
		l := s.arrNode("l", s.arrNode("la", a...), b[0], s.arrNode("ld", deep))
		s.exact(r, "one level of inner lists is spliced", "operator lists.flatten", s.applyOp("lists.flatten", E, l), list(same(a[0]), same(a[1]), same(b[0]), same(deep)))
		s = w.scn("lists inside the operand")
		a = mk(s, "a", 2)
		la := s.arrNode("la", a...)
		s.exact(r, "inner lists stay whole", "operator lists.as-toplevel", s.applyOp("lists.as-toplevel", E, s.arrNode("l", la)), list(same(la)))
	}
	// membership
	type sc struct {
		kind string
		mk   func(s *Scn, l string) (Val, Ptr)
	}
	kinds := []sc{
		{"String", func(s *Scn, l string) (Val, Ptr) { v := s.str(l); return v, s.strNode(l, v) }},
		{"Int", func(s *Scn, l string) (Val, Ptr) { v := s.sym(l, intT); return v, s.intNode(l, v) }},
	}
	for _, k := range kinds {
		for n := 0; n <= 3; n++ {
			for hit := -1; hit < n; hit++ {
				s := w.scn(fmt.Sprintf("%s in a list of %d, equal to element %d only", k.kind, n, hit))
				xv, x := k.mk(s, "x")
				var el []Ptr
				for i := 0; i < n; i++ {
					v, e := k.mk(s, fmt.Sprint("e", i))
					if i == hit {
						s.assume(v, xv, EQ)
					} else {
						s.assume(v, xv, LT|GT)
					}
					el = append(el, e)
				}
				s.expBool(r, "membership by value", "operator lists.contains", s.applyOp("lists.contains", E, s.arrNode("l", el...), x), hit >= 0)
			}
		}
		s := w.scn("a " + k.kind + " among values of other kinds")
		_, x := k.mk(s, "x")
		var el []Ptr
		for _, o := range []string{"String", "Int", "Float", "Bool", "Null", "Array", "Map", "Lambda"} {
			if o != k.kind {
				el = append(el, s.bare("o"+o, o))
			}
		}
		s.expBool(r, "membership by value", "operator lists.contains", s.applyOp("lists.contains", E, s.arrNode("l", el...), x), false)
	}
	for _, b := range []bool{true, false} {
		s := w.scn(fmt.Sprintf("the boolean %v", b))
		l := s.arrNode("l", s.node("t", "Bool", s.anyBool(cBool(true))))
		s.expBool(r, "membership by value", "operator lists.contains", s.applyOp("lists.contains", E, l, s.node("x", "Bool", s.anyBool(cBool(b)))), b)
	}
	// operands outside the domain
	lists := map[string]int{"lists.car": 0, "lists.cdr": 0, "lists.cons": 1, "lists.contains": 0, "lists.length": 0, "lists.at": 0}
	arity := map[string]int{"lists.car": 1, "lists.cdr": 1, "lists.cons": 2, "lists.contains": 2, "lists.length": 1, "lists.at": 2, "lists.iota": 1}
	for _, op := range []string{"lists.car", "lists.cdr", "lists.cons", "lists.contains", "lists.length", "lists.at", "lists.iota"} {
		good := func(s *Scn, i int) Ptr {
			if p, ok := lists[op]; ok && p == i {
				return s.arrNode(fmt.Sprint("l", i), s.any("q"))
			}
			return s.intNode(fmt.Sprint("i", i), cInt(0))
		}
		n := arity[op]
		for cnt := 0; cnt < n; cnt++ {
			s := w.scn(fmt.Sprintf("%d operands", cnt))
			var args []Ptr
			for i := 0; i < cnt; i++ {
				args = append(args, good(s, i))
			}
			s.expErr(r, "missing operands", "operator "+op, s.applyOp(op, E, args...))
		}
		for pos := 0; pos < n; pos++ {
			isList := false
			if p, ok := lists[op]; ok && p == pos {
				isList = true
			}
			if !isList && op != "lists.at" && op != "lists.iota" {
				continue // any value is accepted there
			}
			for _, k := range allKinds {
				if isList && k == "Array" || !isList && k == "Int" {
					continue
				}
				s := w.scn(fmt.Sprintf("operand %d is a %s", pos+1, k))
				var args []Ptr
				for i := 0; i < n; i++ {
					if i == pos {
						args = append(args, s.bare("bad", k))
					} else {
						args = append(args, good(s, i))
					}
				}
				s.expErr(r, "operands of another kind", "operator "+op, s.applyOp(op, E, args...))
			}
		}
	}
}
