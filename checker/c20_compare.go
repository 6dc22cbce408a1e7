package main

import (
	"fmt"
	"go/types"
)

func init() {
	register(&Check{ID: "C20", Min: 100, Rule: "Every comparison operator, reached through the engine's operator table, is analysed on abstract pairs of operands for each ordering of the two (less, equal, greater, and unordered for floats) and each pairing of scalar kinds; the result must be the boolean the operator's name denotes, both spellings must agree, and operands outside the operator's domain or a wrong operand count must give an error.", Run: runC20})
}

func runC20(r *Report) {
	w := r.W()
	f64 := types.Typ[types.Float64]
	type op struct {
		names []string
		holds int
	}
	ops := []op{
		{[]string{"<", "lt"}, LT}, {[]string{"<=", "lte"}, LT | EQ}, {[]string{">", "gt"}, GT}, {[]string{">=", "gte"}, GT | EQ},
		{[]string{"==", "eq"}, EQ}, {[]string{"!=", "neq"}, LT | GT | UN},
	}
	relName := map[int]string{LT: "first smaller", EQ: "equal", GT: "first greater", UN: "unordered"}
	for _, o := range ops {
		for _, name := range o.names {
			eqop := o.holds == EQ || o.holds == LT|GT|UN
			for _, ka := range []string{"Int", "Float"} {
				for _, kb := range []string{"Int", "Float"} {
					for _, rel := range []int{LT, EQ, GT, UN} {
						if rel == UN && (ka == "Int" || kb == "Int") {
							continue
						}
						s := w.scn(fmt.Sprintf("%s and %s, %s", ka, kb, relName[rel]))
						mk := func(l, k string) (Val, Ptr) {
							if k == "Int" {
								v := s.sym(l, intT)
								return v, s.intNode(l, v)
							}
							v := s.sym(l, f64)
							return v, s.node(l, "Float", s.anyFloat(v))
						}
						a, na := mk("a", ka)
						b, nb := mk("b", kb)
						ca, cb := a, b
						if ka == "Int" && kb == "Float" { // mixed operands are compared as floats
							ca = mkTerm("conv:inttofloat", f64, a)
						}
						if kb == "Int" && ka == "Float" {
							cb = mkTerm("conv:inttofloat", f64, b)
						}
						s.assume(ca, cb, rel)
						outs := s.applyOp(name, w.T.ModeEval, na, nb)
						s.expBool(r, "ordering of numbers", "operator "+name, outs, o.holds&rel != 0)
					}
				}
			}
			if eqop {
				pos := o.holds == EQ
				for _, rel := range []int{LT, EQ, GT} {
					s := w.scn("String and String, " + relName[rel])
					a, b := s.str("a"), s.str("b")
					s.assume(a, b, rel)
					s.expBool(r, "equality of strings", "operator "+name, s.applyOp(name, w.T.ModeEval, s.strNode("a", a), s.strNode("b", b)), (rel == EQ) == pos)
				}
				for _, x := range []bool{false, true} {
					for _, y := range []bool{false, true} {
						s := w.scn(fmt.Sprintf("Bool %v and Bool %v", x, y))
						s.expBool(r, "equality of booleans", "operator "+name, s.applyOp(name, w.T.ModeEval, s.node("a", "Bool", s.anyBool(cBool(x))), s.node("b", "Bool", s.anyBool(cBool(y)))), (x == y) == pos)
					}
				}
				s := w.scn("Null and Null")
				s.expBool(r, "equality of null", "operator "+name, s.applyOp(name, w.T.ModeEval, s.node("a", "Null", nil), s.node("b", "Null", nil)), pos)
				// values of different types are never equal
				mk := map[string]func(s *Scn, l string) Ptr{
					"Int":    func(s *Scn, l string) Ptr { return s.intNode(l, s.sym(l, intT)) },
					"String": func(s *Scn, l string) Ptr { return s.strNode(l, s.str(l)) },
					"Bool":   func(s *Scn, l string) Ptr { return s.node(l, "Bool", s.anyBool(s.sym(l, boolT))) },
					"Null":   func(s *Scn, l string) Ptr { return s.node(l, "Null", nil) },
					"Float":  func(s *Scn, l string) Ptr { return s.node(l, "Float", s.anyFloat(s.sym(l, f64))) },
				}
				for _, x := range []string{"Int", "String", "Bool", "Null", "Float"} {
					for _, y := range []string{"Int", "String", "Bool", "Null", "Float"} {
						if x == y || (x == "Int" || x == "Float") && (y == "Int" || y == "Float") {
							continue
						}
						s := w.scn(x + " and " + y)
						s.expBool(r, "values of different types are unequal", "operator "+name, s.applyOp(name, w.T.ModeEval, mk[x](s, "a"), mk[y](s, "b")), !pos)
					}
				}
			} else {
				for _, bad := range []string{"String", "Bool", "Null"} {
					for side := 0; side < 2; side++ {
						s := w.scn(fmt.Sprintf("operand %d is %s", side+1, bad))
						n := s.intNode("n", s.sym("n", intT))
						var v Val
						switch bad {
						case "String":
							v = s.anyStr(s.str("s"))
						case "Bool":
							v = s.anyBool(s.sym("t", boolT))
						}
						b := s.node("bad", bad, v)
						args := []Ptr{n, b}
						if side == 0 {
							args = []Ptr{b, n}
						}
						s.expErr(r, "ordering needs numbers", "operator "+name, s.applyOp(name, w.T.ModeEval, args...))
					}
				}
			}
			for _, n := range []int{0, 1, 3} {
				s := w.scn(fmt.Sprintf("%d operands", n))
				var args []Ptr
				for i := 0; i < n; i++ {
					args = append(args, s.intNode("a", s.sym(fmt.Sprint("a", i), intT)))
				}
				s.expErr(r, "exactly two operands", "operator "+name, s.applyOp(name, w.T.ModeEval, args...))
			}
		}
	}
}
