package main

import (
	"fmt"
	"go/types"
)

func init() {
	register(&Check{ID: "C42", Min: 60, Rule: "The operators that name, read and assert types and that turn a value into text are analysed on values of every form, with and without a type: the name must be the one of the value's kind, the type the one attached (null without one), an assertion must give the very value or an error exactly when validation accepts or rejects it, and the text must be the one the engine renders for the operand or an error if rendering fails. Every other number of operands and an assertion by what is no type must give an error.", Run: runC42})
}

func runC42(r *Report) {
	w := r.W()
	modes := []int{w.T.ModeEval}
	kindName := map[string]string{"Symbol": "symbol", "Parameter": "parameter", "Null": "null", "Bool": "bool", "Int": "int", "Float": "float", "String": "string", "Array": "array", "Map": "map", "Lambda": "lambda", "Type": "type"}
	forms := append([]string{}, shapes...)

	// the name of a value's kind
	rule := "types.of names the kind of the value"
	for _, mode := range modes {
		for _, k := range allKinds {
			for _, typed := range []bool{false, true} {
				name := fmt.Sprintf("a value of kind %s, typed %v", k, typed)
				r.guard(rule, name, func() {
					s := w.scn(name)
					v := s.bare("x", k)
					if typed {
						s.setField(v, "Type", s.schema("tt", map[string]Val{"Type": s.str("tt")}))
					}
					s.exact(r, rule, name, s.applyOp("types.of", mode, v), is("String", cStr(kindName[k])))
				})
			}
		}
		for _, f := range forms {
			r.guard(rule, f, func() {
				s := w.scn("types.of " + f)
				v := s.shape("v", f)
				s.exact(r, rule, "a value of form "+f, s.applyOp("types.of", mode, v), is("String", cStr(kindName[s.kindOf(s.St, v)])))
			})
		}
	}

	// the type attached to a value
	rule = "types.get gives the type of the value"
	for _, mode := range modes {
		for _, k := range allKinds {
			r.guard(rule, k, func() {
				s := w.scn("types.get " + k)
				s.exact(r, rule, "a "+k+" without a type", s.applyOp("types.get", mode, s.bare("x", k)), is("Null", nil))
			})
			for _, fail := range []bool{false, true} {
				name := fmt.Sprintf("a %s with a type, its description fails %v", k, fail)
				r.guard(rule, name, func() {
					s := w.scn(name)
					v := s.bare("x", k)
					tt := s.schema("attached", map[string]Val{"Type": s.str("tt")})
					s.setField(v, "Type", tt)
					n := s.strNode("described", s.str("described"))
					s.In.Hooks = append([]Hook{func(c *Call) ([]Outcome, bool) {
						if c.Fn == nil || c.Fn != w.P.method(w.T.SchemaPtr, "ToYispNode") {
							return nil, false
						}
						if p, ok := c.Args[0].(Ptr); !ok || p.Obj != tt.Obj {
							return ret1(c, s.strNode("other", cStr("the description of another type")), Nil{}), true
						}
						if fail {
							return ret1(c, Nil{}, errVal(s, "describing fails")), true
						}
						return ret1(c, n, Nil{}), true
					}}, s.In.Hooks...)
					outs := s.applyOp("types.get", mode, v)
					if fail {
						s.expErr(r, rule, name, outs)
						return
					}
					s.exact(r, rule, name, outs, is("String", s.str("described")))
				})
			}
		}
	}

	// assertions
	rule = "types.assert gives the value it accepts"
	fits := map[string]string{"Null": "null", "Bool": "boolean", "Int": "integer", "Float": "float", "String": "string", "Array": "array", "Map": "object", "Lambda": "function"}
	typeNames := []string{"any", "null", "boolean", "integer", "float", "string", "array", "object", "function"}
	identical := func(v Ptr) M {
		return func(s *Scn, st *State, n Val) string {
			if p, ok := n.(Ptr); ok && p.Key() == v.Key() {
				return ""
			}
			p, ok := n.(Ptr)
			if !ok {
				return "the result is " + n.Key()
			}
			for _, f := range []string{"Kind", "Value", "Type", "Tag", "IsDocumentRoot"} {
				a, b := s.nodeField(st, p, f), s.nodeField(s.St, v, f)
				if a.Key() != b.Key() {
					return fmt.Sprintf("the %s of the result is %s, not %s", f, a.Key(), b.Key())
				}
			}
			return ""
		}
	}
	typ := func(s *Scn, label string, kv map[string]Val) (Ptr, Ptr) {
		sch := s.schema(label, kv)
		return s.node(label+".node", "Type", Iface{w.T.SchemaPtr, sch}), sch
	}
	for _, mode := range modes {
		for _, t := range typeNames {
			for _, f := range forms {
				for _, typed := range []bool{false, true} {
					name := fmt.Sprintf("a value of form %s asserted to be %s, typed before %v", f, t, typed)
					r.guard(rule, name, func() {
						s := w.scn(name)
						v := s.shape("v", f)
						kv := map[string]Val{"Type": cStr(t)}
						if t == "object" {
							kv["AdditionalProperties"] = s.anyBool(cBool(true))
						}
						if typed {
							s.setField(v, "Type", s.schema("before", map[string]Val{"Type": cStr("any")}))
						}
						n, _ := typ(s, "want", kv)
						ok := t == "any" || fits[s.kindOf(s.St, v)] == t
						outs := s.applyOp("types.assert", mode, n, v)
						if !ok {
							s.expErr(r, rule, name, outs)
							return
						}
						s.exact(r, rule, name, outs, identical(v))
					})
				}
			}
		}
		// whatever validation decides
		for _, good := range []bool{true, false} {
			for _, k := range allKinds {
				name := fmt.Sprintf("a value of kind %s, the type accepts it %v", k, good)
				r.guard(rule, name, func() {
					s := w.scn(name)
					v := s.bare("x", k)
					n, sch := typ(s, "want", map[string]Val{"Type": s.str("want"), "Description": s.str("about")})
					s.In.Hooks = append([]Hook{func(c *Call) ([]Outcome, bool) {
						if c.Fn == nil || c.Fn != w.P.method(w.T.SchemaPtr, "Validate") {
							return nil, false
						}
						a, ok := c.Args[0].(Ptr)
						b, ok2 := c.Args[1].(Ptr)
						if !ok || !ok2 || a.Obj != sch.Obj || b.Obj != v.Obj {
							return ret1(c, errVal(s, "something else is validated")), true
						}
						if good {
							return ret1(c, Nil{}), true
						}
						return ret1(c, errVal(s, "rejected")), true
					}}, s.In.Hooks...)
					outs := s.applyOp("types.assert", mode, n, v)
					if good {
						s.exact(r, rule, name, outs, identical(v))
					} else {
						s.expErr(r, rule, name, outs)
					}
				})
			}
		}
		for _, k := range allKinds {
			if k == "Type" {
				continue
			}
			r.guard(rule, "no type "+k, func() {
				s := w.scn("an assertion by a " + k)
				s.expErr(r, rule, "an assertion by a "+k, s.applyOp("types.assert", mode, s.bare("t", k), s.bare("x", "Int")))
			})
		}
	}

	// texts
	rule = "yaml.marshal gives the rendered text"
	for _, mode := range modes {
		for _, f := range forms {
			for _, root := range []bool{false, true} {
				for _, fail := range []bool{false, true} {
					name := fmt.Sprintf("a value of form %s, made of documents %v, rendering fails %v", f, root, fail)
					r.guard(rule, name, func() {
						s := w.scn(name)
						s.initLog()
						v := s.shape("v", f)
						if root {
							s.setField(v, "IsDocumentRoot", cBool(true))
						}
						text := s.str("rendered")
						s.In.Hooks = append([]Hook{w.mock("Render", func(c *Call, n int, a []Val) []Outcome {
							out := c.Sig.Results().At(0).Type()
							if m := identical(v)(s, c.St, a[0]); m != "" {
								return ret1(c, cStr("the text of something else"), Nil{})
							}
							if fail {
								return ret1(c, zeroVal(out), errVal(s, "rendering fails"))
							}
							var t Val = text
							if !types.Identical(out, strT) {
								t = mkTerm("conv:stringtobytes", out, text)
							}
							return ret1(c, t, Nil{})
						})}, s.In.Hooks...)
						outs := s.applyOp("yaml.marshal", mode, v)
						if fail {
							s.expErr(r, rule, name, outs)
							return
						}
						s.exact(r, rule, name, outs, is("String", text))
					})
				}
			}
		}
	}

	// the number of operands
	rule = "operands that are not taken are an error"
	for op, n := range map[string]int{"types.of": 1, "types.get": 1, "types.assert": 2, "yaml.marshal": 1, "yaml.unmarshal": 1} {
		for i := 0; i <= 4; i++ {
			if i == n {
				continue
			}
			for _, mode := range modes {
				name := fmt.Sprintf("%s with %d operands", op, i)
				r.guard(rule, name, func() {
					s := w.scn(name)
					var a []Ptr
					for k := 0; k < i; k++ {
						if k == 0 && op == "types.assert" {
							x, _ := typ(s, "want", map[string]Val{"Type": cStr("any")})
							a = append(a, x)
							continue
						}
						a = append(a, s.strNode(fmt.Sprint("a", k), s.str(fmt.Sprint("a", k))))
					}
					s.expErr(r, rule, name, s.applyOp(op, mode, a...))
				})
			}
		}
	}
}
