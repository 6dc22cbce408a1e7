package main

import (
	"fmt"
	"strings"

	"go/types"
	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C37", Min: 60, Rule: "The arithmetic operators, reached through the operator table under both names, are analysed on one to four symbolic integers; the symbolic result must be, up to commutativity and associativity where the operation has them, the left-to-right combination of all operands. Divisors equal to zero, and operands that are not numbers, must give an error.", Run: runC37})
}

var _ = types.Typ
var _ *ssa.Function

// poly normalises sums, differences and products to a polynomial with integer
// coefficients; other terms are atoms.
func poly(v Val) (map[string]int, bool) {
	switch x := v.(type) {
	case Const:
		n, ok := isInt(x)
		if !ok {
			return nil, false
		}
		if n == 0 {
			return map[string]int{}, true
		}
		return map[string]int{"": n}, true
	case *Term:
		op := x.Op
		if (op == "+" || op == "-" || op == "*") && len(x.Args) == 2 {
			a, ok1 := poly(x.Args[0])
			b, ok2 := poly(x.Args[1])
			if !ok1 || !ok2 {
				return nil, false
			}
			out := map[string]int{}
			switch op {
			case "+", "-":
				for k, n := range a {
					out[k] += n
				}
				for k, n := range b {
					if op == "-" {
						n = -n
					}
					out[k] += n
				}
			case "*":
				for k, n := range a {
					for l, m := range b {
						out[mono(k, l)] += n * m
					}
				}
			}
			for k, n := range out {
				if n == 0 {
					delete(out, k)
				}
			}
			return out, true
		}
		if op == "-" && len(x.Args) == 1 {
			return poly(mkTerm("-", intT, cInt(0), x.Args[0]))
		}
		return map[string]int{v.Key(): 1}, true
	case Sym:
		return map[string]int{v.Key(): 1}, true
	}
	return nil, false
}

func mono(a, b string) string {
	var fs []string
	for _, x := range []string{a, b} {
		if x != "" {
			fs = append(fs, strings.Split(x, "·")...)
		}
	}
	sortStrings(fs)
	return strings.Join(fs, "·")
}

func samePoly(a, b Val) bool {
	p, ok1 := poly(a)
	q, ok2 := poly(b)
	if !ok1 || !ok2 || len(p) != len(q) {
		return false
	}
	for k, n := range p {
		if q[k] != n {
			return false
		}
	}
	return true
}

func runC37(r *Report) {
	w := r.W()
	ops := []struct {
		names []string
		op    string
	}{{[]string{"+", "add"}, "+"}, {[]string{"-", "sub"}, "-"}, {[]string{"*", "mul"}, "*"}, {[]string{"/", "div"}, "/"}}
	for _, o := range ops {
		for _, name := range o.names {
			for n := 1; n <= 4; n++ {
				s := w.scn(fmt.Sprintf("%d integers", n))
				var args []Ptr
				var want Val
				for i := 0; i < n; i++ {
					v := s.sym(fmt.Sprint("x", i), intT)
					args = append(args, s.intNode(fmt.Sprint("x", i), v))
					if o.op == "/" && i > 0 {
						s.assume(v, cInt(0), LT|GT)
					}
					if want == nil {
						want = v
					} else {
						want = mkTerm(o.op, intT, want, v)
					}
				}
				outs := s.applyOp(name, w.T.ModeEval, args...)
				s.exact(r, "combines all operands left to right", "operator "+name, outs, func(s *Scn, st *State, v Val) string {
					if k := s.kindOf(st, v); k != "Int" {
						return "kind " + k + " instead of Int"
					}
					got := s.value(st, v)
					if got.Key() == want.Key() || o.op != "/" && samePoly(got, want) {
						return ""
					}
					return "the value " + got.Key() + " instead of " + want.Key()
				})
			}
			for n := 2; n <= 3; n++ {
				for pos := 0; pos < n; pos++ {
					for _, k := range allKinds {
						if k == "Int" || k == "Float" {
							continue
						}
						s := w.scn(fmt.Sprintf("operand %d of %d is a %s", pos+1, n, k))
						var args []Ptr
						for i := 0; i < n; i++ {
							if i == pos {
								args = append(args, s.bare("bad", k))
							} else {
								args = append(args, s.intNode(fmt.Sprint("x", i), s.sym(fmt.Sprint("x", i), intT)))
							}
						}
						s.expErr(r, "operands must be numbers", "operator "+name, s.applyOp(name, w.T.ModeEval, args...))
					}
				}
			}
			if o.op == "/" {
				for n := 2; n <= 4; n++ {
					for z := 1; z < n; z++ {
						s := w.scn(fmt.Sprintf("operand %d of %d is zero", z+1, n))
						var args []Ptr
						for i := 0; i < n; i++ {
							v := s.sym(fmt.Sprint("x", i), intT)
							if i == z {
								s.assume(v, cInt(0), EQ)
							} else {
								s.assume(v, cInt(0), LT|GT)
							}
							args = append(args, s.intNode(fmt.Sprint("x", i), v))
						}
						s.expErr(r, "division by zero", "operator "+name, s.applyOp(name, w.T.ModeEval, args...))
					}
				}
			}
		}
	}
}
