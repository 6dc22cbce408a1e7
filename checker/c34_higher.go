package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C34", Min: 60, Rule: "map, filter and reduce, reached through the operator table, are analysed on lists of zero to four opaque elements with an opaque function whose every call yields a distinct opaque outcome (or, for filters, every combination of truth values); the recorded sequence of calls and the result must be exactly the ones the operator's definition gives, and with the k-th call failing the operator must fail after exactly k calls.", Run: runC34})
}

func runC34(r *Report) {
	w := r.W()
	type call struct{ fn, args string }
	// record the calls: log elements are call(fn, args...)
	mk := func(failAt int, res func(n int) Val) Hook {
		return w.mock("Apply", func(c *Call, n int, a []Val) []Outcome {
			el, ok := c.In.listElems(c.St, a[1])
			if !ok {
				el = []Val{Top{w.T.NodeSlice}}
			}
			appendLog(c.St, mkTerm("call", intT, append([]Val{a[0]}, el...)...))
			if n == failAt {
				return []Outcome{{c.St, []Val{Nil{}, mkTerm("nonnil", w.T.Err, cStr("the function fails"))}}}
			}
			return []Outcome{{c.St, []Val{res(n), Nil{}}}}
		})
	}
	calls := func(s *Scn, want []string) func(o Outcome) string {
		return func(o Outcome) string {
			got, ok := logOf(o.St)
			if !ok {
				return "the calls made are not determined"
			}
			var g []string
			for _, x := range got {
				g = append(g, keys(x.(*Term).Args))
			}
			if strings.Join(g, ";") != strings.Join(want, ";") {
				return fmt.Sprintf("the function is called on [%s] instead of [%s]", strings.Join(g, " ; "), strings.Join(want, " ; "))
			}
			return ""
		}
	}
	type setup struct {
		s    *Scn
		fn   Ptr
		el   []Ptr
		res  []Ptr
		list Ptr
	}
	build := func(name string, n, failAt int, truth []bool) *setup {
		b := &setup{}
		b.s = w.scn(name, mk(failAt, func(i int) Val { return b.res[i] }))
		b.s.initLog()
		b.fn = b.s.node("fn", "Lambda", nil)
		for i := 0; i < n; i++ {
			b.el = append(b.el, b.s.any(fmt.Sprint("e", i)))
		}
		for i := 0; i < n+1; i++ {
			if truth != nil && i < len(truth) {
				b.res = append(b.res, b.s.node(fmt.Sprint("r", i), "Bool", b.s.anyBool(cBool(truth[i]))))
			} else {
				b.res = append(b.res, b.s.any(fmt.Sprint("r", i)))
			}
		}
		b.list = b.s.arrNode("list", b.el...)
		return b
	}
	one := func(fn Ptr, el []Ptr) []string {
		var out []string
		for _, e := range el {
			out = append(out, keys([]Val{fn, e}))
		}
		return out
	}
	both := func(s *Scn, outs []Outcome, rule, op string, m M, want []string) {
		s.exp(r, rule, "operator "+op, outs, func(o Outcome) string {
			if e := s.noErr(o); e != "" {
				return e
			}
			if e := m(s, o.St, o.Res[0]); e != "" {
				return "the result has " + e
			}
			return calls(s, want)(o)
		})
	}
	failed := func(s *Scn, outs []Outcome, op string, want []string) {
		s.exp(r, "first failing call fails the operator", "operator "+op, outs, func(o Outcome) string {
			if s.isErr(o) != 1 {
				return "the failure of the function does not make the operator fail"
			}
			return calls(s, want)(o)
		})
	}
	for n := 0; n <= 4; n++ {
		// map
		b := build(fmt.Sprintf("%d elements", n), n, -1, nil)
		var ms []M
		for i := 0; i < n; i++ {
			ms = append(ms, same(b.res[i]))
		}
		both(b.s, b.s.applyOp("lists.map", w.T.ModeEval, b.list, b.fn), "one call per element, outcomes in order", "lists.map", list(ms...), one(b.fn, b.el))
		// filter
		for bits := 0; bits < 1<<n; bits++ {
			var truth []bool
			for i := 0; i < n; i++ {
				truth = append(truth, bits>>i&1 == 1)
			}
			b := build(fmt.Sprintf("%d elements, outcomes %v", n, truth), n, -1, truth)
			var ms []M
			for i := 0; i < n; i++ {
				if truth[i] {
					ms = append(ms, same(b.el[i]))
				}
			}
			both(b.s, b.s.applyOp("lists.filter", w.T.ModeEval, b.list, b.fn), "exactly the elements whose outcome is true", "lists.filter", list(ms...), one(b.fn, b.el))
		}
		// outcomes of every kind decide the same way
		for i := 0; i < n; i++ {
			for _, k := range truthCases(w) {
				b := build(fmt.Sprintf("%d elements, outcome %d %s", n, i, k.name), n, -1, make([]bool, n))
				b.res[i] = k.mk(b.s, fmt.Sprint("r", i))
				m := list()
				if k.want {
					m = list(same(b.el[i]))
				}
				both(b.s, b.s.applyOp("lists.filter", w.T.ModeEval, b.list, b.fn), "exactly the elements whose outcome is true", "lists.filter", m, one(b.fn, b.el))
			}
		}
		// reduce
		b = build(fmt.Sprintf("%d elements", n), n, -1, nil)
		outs := b.s.applyOp("lists.reduce", w.T.ModeEval, b.list, b.fn)
		if n == 0 {
			b.s.expErr(r, "an empty list cannot be reduced", "operator lists.reduce", outs)
		} else {
			var want []string
			acc := b.el[0]
			for i := 1; i < n; i++ {
				want = append(want, keys([]Val{b.fn, acc, b.el[i]}))
				acc = b.res[i-1]
			}
			both(b.s, outs, "each outcome feeds the next call", "lists.reduce", same(acc), want)
		}
		// failures
		for k := 0; k < n; k++ {
			all := make([]bool, n)
			b := build(fmt.Sprintf("%d elements, call %d fails", n, k+1), n, k, nil)
			failed(b.s, b.s.applyOp("lists.map", w.T.ModeEval, b.list, b.fn), "lists.map", one(b.fn, b.el[:k+1]))
			b = build(fmt.Sprintf("%d elements, call %d fails", n, k+1), n, k, all)
			failed(b.s, b.s.applyOp("lists.filter", w.T.ModeEval, b.list, b.fn), "lists.filter", one(b.fn, b.el[:k+1]))
			if k < n-1 {
				b = build(fmt.Sprintf("%d elements, call %d fails", n, k+1), n, k, nil)
				var want []string
				acc := b.el[0]
				for i := 1; i <= k+1; i++ {
					want = append(want, keys([]Val{b.fn, acc, b.el[i]}))
					acc = b.res[i-1]
				}
				failed(b.s, b.s.applyOp("lists.reduce", w.T.ModeEval, b.list, b.fn), "lists.reduce", want)
			}
		}
	}
	// pipeline hands each outcome to the next function
	for n := 0; n <= 3; n++ {
		s := w.scn("") // placeholder, replaced below
		var fns, res []Ptr
		s = w.scn(fmt.Sprintf("%d functions", n), mk(-1, func(i int) Val { return res[i] }))
		s.initLog()
		v := s.any("v")
		for i := 0; i < n; i++ {
			fns = append(fns, s.node(fmt.Sprint("f", i), "Lambda", nil))
			res = append(res, s.any(fmt.Sprint("r", i)))
		}
		var want []string
		acc := v
		for i := 0; i < n; i++ {
			want = append(want, keys([]Val{fns[i], acc}))
			acc = res[i]
		}
		both(s, s.applyOp("pipeline", w.T.ModeEval, append([]Ptr{v}, fns...)...), "each outcome feeds the next function", "pipeline", same(acc), want)
	}
	// operands of another kind
	for _, op := range []string{"lists.map", "lists.filter", "lists.reduce"} {
		for _, k := range []string{"Map", "String", "Int", "Null", "Lambda"} {
			s := w.scn("a " + k + " in place of the list")
			s.expErr(r, "only lists are accepted", "operator "+op, s.applyOp(op, w.T.ModeEval, s.bare("x", k), s.node("fn", "Lambda", nil)))
		}
		for n := 0; n < 2; n++ {
			s := w.scn(fmt.Sprintf("%d operands", n))
			var args []Ptr
			for i := 0; i < n; i++ {
				args = append(args, s.arrNode("l"))
			}
			s.expErr(r, "missing operands are an error", "operator "+op, s.applyOp(op, w.T.ModeEval, args...))
		}
	}
}
