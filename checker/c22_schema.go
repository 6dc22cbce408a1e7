package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
)

func init() {
	register(&Check{ID: "C22", Min: 900, Rule: "Validation is analysed for every schema type against values of every kind; for every numeric limit, alone and in pairs, with the value below, at, above and (for floats) unordered with the limit; for multiples and string lengths around the boundary, lengths counting characters; for required, declared and additional properties present, absent and of the wrong type; for alternatives; and with the offending value at every position of lists, maps, nested and referenced schemas. The outcome must be an error exactly when a constraint is violated.", Run: runC22})
}

// native builds the plain value of a map.
func (s *Scn) native(label string, kv ...Val) Val {
	mt := types.NewMap(strT, types.Universe.Lookup("any").Type())
	return iface(mt, s.gomap(label, mt, kv...))
}

func runC22(r *Report) {
	w := r.W()
	T := func(t string) map[string]Val { return map[string]Val{"Type": cStr(t)} }
	type cse struct {
		rule, name string
		ok         bool
		build      func(s *Scn) (schema, node Ptr)
	}
	var cases []cse
	add := func(ok bool, rule, name string, build func(s *Scn) (Ptr, Ptr)) {
		cases = append(cases, cse{rule, name, ok, build})
	}
	kindOf := map[string]string{"null": "null", "bool": "boolean", "int": "integer", "float": "float", "string": "string", "empty list": "array", "strings": "array", "lists": "array", "maps": "array", "entries": "array", "docs": "array",
		"empty map": "object", "map": "object", "nested map": "object", "manifest": "object", "lambda": "function", "type": "", "symbol": ""}
	scalarTypes := []string{"any", "null", "boolean", "integer", "float", "string", "array", "object", "function"}
	for _, t := range scalarTypes {
		for _, f := range shapes {
			add(t == "any" || t == kindOf[f], "type", fmt.Sprintf("a value of form %s as %s", f, t), func(s *Scn) (Ptr, Ptr) {
				m := T(t)
				if t == "object" {
					m["AdditionalProperties"] = s.anyBool(cBool(true))
				}
				return s.schema("t", m), s.shape("v", f)
			})
			if t != "string" {
				continue
			}
			add(f == "string" || f == "int", "type", fmt.Sprintf("a value of form %s as int-or-string", f), func(s *Scn) (Ptr, Ptr) {
				m := T(t)
				m["Format"] = cStr("int-or-string")
				return s.schema("t", m), s.shape("v", f)
			})
		}
	}
	// numeric limits
	type lim struct {
		field string
		holds int
	}
	lims := []lim{{"Minimum", EQ | GT}, {"Maximum", EQ | LT}, {"ExclusiveMinimum", GT}, {"ExclusiveMaximum", LT}}
	relName := map[int]string{LT: "below", EQ: "at", GT: "above", UN: "unordered with"}
	for _, t := range []string{"integer", "float"} {
		rels := []int{LT, EQ, GT}
		if t == "float" {
			rels = append(rels, UN)
		}
		for i, a := range lims {
			for j := i; j < len(lims); j++ {
				b := lims[j]
				for _, ra := range rels {
					for _, rb := range rels {
						if i == j && ra != rb || (ra == UN) != (rb == UN) {
							continue
						}
						ok := a.holds&ra != 0 && b.holds&rb != 0
						name := fmt.Sprintf("%s %s %s", t, relName[ra], a.field)
						if i != j {
							name += fmt.Sprintf(" and %s %s", relName[rb], b.field)
						}
						add(ok, "numeric limits", name, func(s *Scn) (Ptr, Ptr) {
							m := T(t)
							var n Ptr
							v, c := s.sym("v", intT), Val(nil)
							if t == "float" {
								v = s.sym("v", floatT)
								c, n = v, s.node("v", "Float", s.anyFloat(v))
							} else {
								c, n = mkTerm("conv:inttofloat", floatT, v), s.intNode("v", v)
							}
							for k, l := range []lim{a, b} {
								if k == 1 && i == j {
									break
								}
								x := s.sym(l.field, floatT)
								s.assume(c, x, []int{ra, rb}[k])
								m[l.field] = s.alloc(l.field, floatT, x)
							}
							return s.schema("t", m), n
						})
					}
				}
			}
		}
		for _, v := range []int{-12, -7, 0, 1, 5, 6, 7, 12, 9007199254740992, 9007199254740993} {
			for _, d := range []int{1, 2, 3, 5, 7} {
				if t == "integer" {
					add(v%d == 0, "multiples", fmt.Sprintf("%d as a multiple of %d", v, d), func(s *Scn) (Ptr, Ptr) {
						m := T(t)
						m["MultipleOf"] = s.alloc("mul", intT, cInt(d))
						return s.schema("t", m), s.intNode("v", cInt(v))
					})
				}
			}
		}
	}
	for _, v := range []float64{-6, -4.5, 0, 0.5, 1, 1.5, 4, 4.25, 6, 7, 1e300} {
		for _, d := range []int{1, 2, 3} {
			add(math.Mod(v, float64(d)) == 0, "multiples", fmt.Sprintf("%g as a multiple of %d", v, d), func(s *Scn) (Ptr, Ptr) {
				m := T("float")
				m["MultipleOf"] = s.alloc("mul", intT, cInt(d))
				return s.schema("t", m), s.node("v", "Float", s.anyFloat(cFloat(v)))
			})
		}
	}
	// string lengths
	for _, text := range []string{"", "a", "ab", "abc", "é", "éa", "日本", "日本語", "😀", "😀é日"} {
		n := len([]rune(text))
		for l := -1; l <= 4; l++ {
			for h := -1; h <= 4; h++ {
				if h != -1 && l > h {
					continue
				}
				add((l < 0 || n >= l) && (h < 0 || n <= h), "string lengths", fmt.Sprintf("%q with lengths %d to %d (-1: unlimited)", text, l, h), func(s *Scn) (Ptr, Ptr) {
					m := T("string")
					if l >= 0 {
						m["MinLength"] = s.alloc("min", intT, cInt(l))
					}
					if h >= 0 {
						m["MaxLength"] = s.alloc("max", intT, cInt(h))
					}
					return s.schema("t", m), s.strNode("v", cStr(text))
				})
			}
		}
	}
	// objects
	strS := func(s *Scn) Ptr { return s.schema("str", T("string")) }
	val := func(s *Scn, l string, good bool) Ptr {
		if good {
			return s.strNode(l, s.ident(l))
		}
		return s.intNode(l, s.sym(l, intT))
	}
	names := []string{"a", "b", "c"}
	for mask := 0; mask < 64; mask++ { // per name: bit i present, bit i+3 of the wrong type
		if mask>>3&^mask&7 != 0 {
			continue
		}
		for req := 0; req < 8; req++ {
			good := mask>>3 == 0 && req&^mask == 0
			add(good, "properties", fmt.Sprintf("object with members %03b of a, b, c, wrongly typed %03b, required %03b", mask&7, mask>>3, req), func(s *Scn) (Ptr, Ptr) {
				m := T("object")
				var props, kv, rq []Val
				for i, n := range names {
					props = append(props, cStr(n), strS(s))
					if mask>>i&1 > 0 {
						kv = append(kv, cStr(n), val(s, n, mask>>(i+3)&1 == 0))
					}
					if req>>i&1 > 0 {
						rq = append(rq, cStr(n))
					}
				}
				m["Properties"] = s.gomap("props", s.propsT(), props...)
				m["Required"] = s.list("req", types.NewSlice(strT), rq...)
				return s.schema("t", m), s.mapNode("v", kv...)
			})
		}
	}
	addl := map[string]func(s *Scn) Val{
		"absent": func(s *Scn) Val { return Nil{} },
		"false":  func(s *Scn) Val { return s.anyBool(cBool(false)) },
		"true":   func(s *Scn) Val { return s.anyBool(cBool(true)) },
		"schema": func(s *Scn) Val {
			mt := types.NewMap(strT, types.Universe.Lookup("any").Type())
			return iface(mt, s.gomap("ap", mt, cStr("type"), s.anyStr(cStr("string"))))
		},
		"reference": func(s *Scn) Val {
			mt := types.NewMap(strT, types.Universe.Lookup("any").Type())
			return iface(mt, s.gomap("ap", mt, cStr("$ref"), s.anyStr(cStr("#/components/schemas/refstring"))))
		},
	}
	for _, ap := range []string{"absent", "false", "true", "schema", "reference"} {
		for _, declared := range []bool{false, true} {
			for extra := 0; extra <= 2; extra++ {
				for bad := -1; bad < extra; bad++ {
					ok := extra == 0 || ap == "true" || (ap == "schema" || ap == "reference") && bad < 0
					add(ok, "additional properties", fmt.Sprintf("%d undeclared members, number %d of the wrong type, declared ones %v, additionalProperties %s", extra, bad, declared, ap), func(s *Scn) (Ptr, Ptr) {
						m := T("object")
						var kv []Val
						if declared {
							m["Properties"] = s.gomap("props", s.propsT(), cStr("a"), strS(s))
							kv = append(kv, cStr("a"), val(s, "a", true))
						}
						m["AdditionalProperties"] = addl[ap](s)
						names := []Val{cStr("a"), cStr("$schema")}
						for i := 0; i < extra; i++ {
							k := s.str(fmt.Sprint("x", i)) // any name whatever
							names = append(names, k)
							kv = append(kv, k, val(s, fmt.Sprint("x", i), i != bad))
						}
						s.distinct(names...)
						return s.schema("t", m), s.mapNode("v", kv...)
					})
				}
			}
		}
	}
	// alternatives
	for n := 1; n <= 3; n++ {
		for mask := 0; mask < 1<<n; mask++ {
			for _, deep := range []bool{false, true} {
				add(mask != 0, "alternatives", fmt.Sprintf("%d alternatives of which %0*b accept, nested %v", n, n, mask, deep), func(s *Scn) (Ptr, Ptr) {
					var os []Val
					for i := 0; i < n; i++ {
						t := "integer"
						if mask>>i&1 > 0 {
							t = "string"
						}
						os = append(os, s.schema(fmt.Sprint("o", i), T(t)))
					}
					o := s.schema("one", map[string]Val{"OneOf": s.list("one", types.NewSlice(w.T.SchemaPtr), os...)})
					v := val(s, "v", true)
					if deep {
						m := T("object")
						m["Properties"] = s.gomap("props", s.propsT(), cStr("a"), o)
						return s.schema("t", m), s.mapNode("m", cStr("a"), v)
					}
					return o, v
				})
			}
		}
	}
	// every position of lists, maps and nested schemas
	for n := 0; n <= 3; n++ {
		for bad := -1; bad < n; bad++ {
			add(bad < 0, "list items", fmt.Sprintf("list of %d, item %d of the wrong type", n, bad), func(s *Scn) (Ptr, Ptr) {
				m := T("array")
				m["Items"] = strS(s)
				var el []Ptr
				for i := 0; i < n; i++ {
					el = append(el, val(s, fmt.Sprint("v", i), i != bad))
				}
				return s.schema("t", m), s.arrNode("v", el...)
			})
		}
	}
	hows := []string{"item", "property", "additional", "item reference", "property reference"}
	var nest func(depth int, path []string)
	nest = func(depth int, path []string) {
		if depth > 0 {
			for _, good := range []bool{true, false} {
				p := append([]string(nil), path...)
				add(good, "nested values", fmt.Sprintf("%s, well typed %v", strings.Join(p, " of "), good), func(s *Scn) (Ptr, Ptr) {
					var sc Ptr
					leaf := strS(s)
					if strings.HasSuffix(p[0], "reference") {
						leaf = s.schema("ref", map[string]Val{"Ref": cStr("#/components/schemas/refstring")})
					}
					v := val(s, "leaf", good)
					sc = leaf
					for i, h := range p {
						switch strings.Fields(h)[0] {
						case "item":
							m := T("array")
							m["Items"] = sc
							sc = s.schema(fmt.Sprint("t", i), m)
							v = s.arrNode(fmt.Sprint("n", i), v)
						case "property":
							m := T("object")
							m["Properties"] = s.gomap(fmt.Sprint("p", i), s.propsT(), cStr("k"), sc)
							sc = s.schema(fmt.Sprint("t", i), m)
							v = s.mapNode(fmt.Sprint("n", i), cStr("k"), v)
						}
					}
					return sc, v
				})
			}
		}
		if depth == 3 {
			return
		}
		for _, h := range hows {
			if h == "additional" || strings.HasSuffix(h, "reference") && depth > 0 {
				continue
			}
			nest(depth+1, append(path, h))
		}
	}
	nest(0, nil)
	// functions
	lam := func(s *Scn, args []string, ret string) Ptr {
		var as []Val
		for i, t := range args {
			m := map[string]Val{"Name": cStr(fmt.Sprint("p", i))}
			if t != "" {
				m["Schema"] = s.schema(fmt.Sprint("lt", i), T(t))
			}
			as = append(as, s.strct(w.T.TypedSym, m))
		}
		f := map[string]Val{"Arguments": s.list("la", types.NewSlice(w.T.TypedSym), as...), "Body": s.strNode("body", s.ident("body"))}
		if ret != "" {
			f["Returns"] = s.schema("lr", T(ret))
		}
		return s.node("v", "Lambda", iface(w.T.LambdaPtr, s.alloc("lambda", w.T.Lambda, s.strct(w.T.Lambda, f))))
	}
	for _, args := range [][]string{{}, {"string"}, {""}, {"integer"}, {"string", "integer"}, {"string", "string"}} {
		for _, ret := range []string{"", "string", "integer"} {
			want := []string{"string"}
			ok := len(args) == 1 && args[0] != "integer" && ret != "integer"
			add(ok, "functions", fmt.Sprintf("function of %q returning %q as a function of %q returning string", args, ret, want), func(s *Scn) (Ptr, Ptr) {
				m := T("function")
				m["Arguments"] = s.list("args", types.NewSlice(w.T.SchemaPtr), s.schema("a0", T("string")))
				m["Returns"] = s.schema("ret", T("string"))
				return s.schema("t", m), lam(s, args, ret)
			})
		}
	}
	r.parallel(len(cases), func(i int, r *Report) {
		c := cases[i]
		r.guard("analysis", c.name, func() {
			s := r.W().scn(c.name)
			s.initLog()
			s.disk().quiet = true
			s.json(map[string]Val{"refstring": s.native("refstring", cStr("type"), s.anyStr(cStr("string")))})
			sc, v := c.build(s)
			outs := s.run(s.W.P.method(s.W.T.SchemaPtr, "Validate"), sc, v)
			if c.ok {
				s.exp(r, c.rule, "validation", outs, func(o Outcome) string {
					if s.isErr(o) != 0 {
						return "the value satisfies the schema, but an error can be returned"
					}
					return ""
				})
			} else {
				s.exp(r, c.rule, "validation", outs, func(o Outcome) string {
					if s.isErr(o) != 1 {
						return "the value violates the schema, but can be accepted"
					}
					return ""
				})
			}
		})
	})
}
