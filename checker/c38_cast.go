package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register(&Check{ID: "C38", Min: 250, Rule: "Casting is analysed on values with each declared member present or absent, for defaults of every kind, at the top, in lists and in nested objects: present members keep their content and order, absent ones are added after them exactly when a default is declared, with the declared kind and value, absent required members and values of the wrong type give an error, an optional object is completed from its nested defaults, the result carries the type, and the original value is unchanged.", Run: runC38})
}

// copied expects a node with the content of the original: same scalar, same
// members, recursively, in another object or the same.
func (s *Scn) copied(orig Ptr) M {
	st := s.St
	k := s.kindOf(st, orig)
	switch k {
	case "Array":
		el, _ := s.elems(st, orig)
		var ms []M
		for _, e := range el {
			ms = append(ms, s.copied(e.(Ptr)))
		}
		return list(ms...)
	case "Map":
		es, _ := s.entries(st, orig)
		var kvs []kv
		for _, e := range es {
			v := e.V
			if i, ok := v.(Iface); ok {
				v = i.V
			}
			kvs = append(kvs, kv{e.K, s.copied(v.(Ptr))})
		}
		return dict(kvs...)
	}
	val, tag, attr := s.value(st, orig), s.nodeField(st, orig, "Tag"), s.nodeField(st, orig, "Attr")
	return func(s *Scn, st *State, v Val) string {
		if got := s.kindOf(st, v); got != k {
			return "a value of kind " + got + " instead of " + k
		}
		if got := s.value(st, v); s.In.relate(st, got, val) != EQ {
			return s.describe(st, v) + " instead of the value given"
		}
		if got := s.nodeField(st, v, "Tag"); got.Key() != tag.Key() {
			return "the tag " + got.Key() + " instead of " + tag.Key()
		}
		if got := s.nodeField(st, v, "Attr"); got.Key() != attr.Key() {
			return "other annotations than the value given"
		}
		return ""
	}
}

func runC38(r *Report) {
	w := r.W()
	T := func(t string) map[string]Val { return map[string]Val{"Type": cStr(t)} }
	type built struct {
		schema, value Ptr
		want          M // nil: error
	}
	type cse struct {
		rule, name string
		build      func(s *Scn) built
	}
	var cases []cse
	add := func(rule, name string, f func(s *Scn) built) { cases = append(cases, cse{rule, name, f}) }
	req := func(s *Scn, ks ...string) Val {
		var v []Val
		for _, k := range ks {
			v = append(v, cStr(k))
		}
		return s.list("req", types.NewSlice(strT), v...)
	}
	object := func(s *Scn, l string, props []Val, more map[string]Val) Ptr {
		m := T("object")
		for k, v := range more {
			m[k] = v
		}
		m["Properties"] = s.gomap(l+".props", s.propsT(), props...)
		return s.schema(l, m)
	}
	// defaults of each kind
	type dflt struct {
		name, typ string
		val       func(s *Scn) Val
		want      func(s *Scn) M
	}
	num := w.P.extType("encoding/json", "Number")
	anyNum := func(s *Scn, st *State, v Val, kind string, want Val) string { return s.isNode(st, v, kind, want) }
	dflts := []dflt{
		{"text", "string", func(s *Scn) Val { return s.anyStr(s.str("d")) }, func(s *Scn) M { return is("String", s.str("d")) }},
		{"text that looks like a number", "string", func(s *Scn) Val { return s.anyStr(cStr("5")) }, func(s *Scn) M { return is("String", cStr("5")) }},
		{"text that looks like a boolean", "string", func(s *Scn) Val { return s.anyStr(cStr("true")) }, func(s *Scn) M { return is("String", cStr("true")) }},
		{"empty text", "string", func(s *Scn) Val { return s.anyStr(cStr("")) }, func(s *Scn) M { return is("String", cStr("")) }},
		{"true", "boolean", func(s *Scn) Val { return s.anyBool(cBool(true)) }, func(s *Scn) M { return is("Bool", cBool(true)) }},
		{"false", "boolean", func(s *Scn) Val { return s.anyBool(cBool(false)) }, func(s *Scn) M { return is("Bool", cBool(false)) }},
		{"boolean", "boolean", func(s *Scn) Val { return s.anyBool(s.sym("b", boolT)) }, func(s *Scn) M { return is("Bool", s.sym("b", boolT)) }},
		{"integer", "integer", func(s *Scn) Val { return iface(num, mkTerm("fmt:%d", strT, s.sym("n", intT))) }, func(s *Scn) M { return is("Int", s.sym("n", intT)) }},
		{"zero", "integer", func(s *Scn) Val { return iface(num, cStr("0")) }, func(s *Scn) M { return is("Int", cInt(0)) }},
		{"fraction", "float", func(s *Scn) Val { return iface(num, mkTerm("fmt:%g", strT, s.sym("f", floatT))) }, func(s *Scn) M {
			return func(s *Scn, st *State, v Val) string { return anyNum(s, st, v, "Float", s.sym("f", floatT)) }
		}},
		{"whole number as a float", "float", func(s *Scn) Val { return iface(num, mkTerm("fmt:%d", strT, s.sym("n", intT))) }, func(s *Scn) M {
			return is("Float", mkTerm("conv:inttofloat", floatT, s.sym("n", intT)))
		}},
		{"empty list", "array", func(s *Scn) Val { return iface(w.T.AnySlice, s.list("dl", w.T.AnySlice)) }, func(s *Scn) M { return list() }},
		{"list of texts", "array", func(s *Scn) Val {
			return iface(w.T.AnySlice, s.list("dl", w.T.AnySlice, s.anyStr(s.str("d0")), s.anyStr(s.str("d1"))))
		}, func(s *Scn) M { return list(is("String", s.str("d0")), is("String", s.str("d1"))) }},
		{"list of integers", "array", func(s *Scn) Val {
			return iface(w.T.AnySlice, s.list("dl", w.T.AnySlice, iface(num, mkTerm("fmt:%d", strT, s.sym("n", intT)))))
		}, func(s *Scn) M { return list(is("Int", s.sym("n", intT))) }},
	}
	wraps := []string{"", "in a list", "in a property", "in an item of a property"}
	wrapV := func(s *Scn, how string, sc, v Ptr, want M) built {
		switch how {
		case "in a list":
			m := T("array")
			m["Items"] = sc
			o := s.strNode("other", s.str("other"))
			_ = o
			if want != nil {
				want = list(want)
			}
			return built{s.schema("outer", m), s.arrNode("outer", v), want}
		case "in a property":
			if want != nil {
				want = dict(kv{cStr("in"), want})
			}
			return built{object(s, "outer", []Val{cStr("in"), sc}, nil), s.mapNode("outer", cStr("in"), v), want}
		case "in an item of a property":
			b := object(s, "outer", []Val{cStr("in"), func() Ptr {
				m := T("array")
				m["Items"] = sc
				return s.schema("items", m)
			}()}, nil)
			if want != nil {
				want = dict(kv{cStr("in"), list(want)})
			}
			return built{b, s.mapNode("outer", cStr("in"), s.arrNode("l", v)), want}
		}
		return built{sc, v, want}
	}
	scalar := map[string]string{"string": "string", "boolean": "bool", "integer": "int", "float": "float", "array": "strings"}
	for _, how := range wraps {
		for _, d := range dflts {
			for _, have := range []string{"absent", "present", "null", "absent with another member"} {
				add("defaults", fmt.Sprintf("default %s for a member of type %s that is %s %s", d.name, d.typ, have, how), func(s *Scn) built {
					m := T(d.typ)
					m["Default"] = d.val(s)
					sc := object(s, "t", []Val{cStr("k"), s.schema("k", m), cStr("a"), s.schema("a", T("string"))}, nil)
					var v Ptr
					var want M
					switch have {
					case "absent":
						v = s.mapNode("v")
						want = dict(kv{cStr("k"), d.want(s)})
					case "absent with another member":
						a := s.shape("a", "string")
						v = s.mapNode("v", cStr("a"), a)
						want = dict(kv{cStr("a"), s.copied(a)}, kv{cStr("k"), d.want(s)})
					case "present":
						k := s.shape("k", scalar[d.typ])
						v = s.mapNode("v", cStr("k"), k)
						want = dict(kv{cStr("k"), s.copied(k)})
					case "null": // a null is there and of the wrong type
						v = s.mapNode("v", cStr("k"), s.bare("k", "Null"))
					}
					return wrapV(s, how, sc, v, want)
				})
			}
		}
		// no default
		for _, t := range []string{"string", "boolean", "integer", "float", "array", "object", "any", "null"} {
			for _, required := range []bool{false, true} {
				add("members without default", fmt.Sprintf("absent member of type %s, required %v %s", t, required, how), func(s *Scn) built {
					more := map[string]Val{}
					if required {
						more["Required"] = req(s, "k")
					}
					sc := object(s, "t", []Val{cStr("k"), s.schema("k", T(t)), cStr("a"), s.schema("a", T("string"))}, more)
					a := s.shape("a", "string")
					v := s.mapNode("v", cStr("a"), a)
					var want M
					if !required {
						want = dict(kv{cStr("a"), s.copied(a)})
						if t == "object" { // an empty object may be made up
							want = func(inner M) M {
								return func(s *Scn, st *State, v Val) string {
									m := inner(s, st, v)
									if m == "" {
										return ""
									}
									if dict(kv{cStr("a"), s.copied(a)}, kv{cStr("k"), dict()})(s, st, v) == "" {
										return ""
									}
									return m
								}
							}(want)
						}
					}
					return wrapV(s, how, sc, v, want)
				})
			}
		}
		// values of the wrong type and undeclared members
		for _, f := range shapes {
			add("wrong types", fmt.Sprintf("a value of form %s as an object with one text member k %s", f, how), func(s *Scn) built {
				sc := object(s, "t", []Val{cStr("k"), s.schema("k", T("string"))}, nil)
				v := s.shape("v", f)
				var want M
				if f == "empty map" {
					want = dict()
				}
				return wrapV(s, how, sc, v, want)
			})
			add("wrong types", fmt.Sprintf("a member of form %s declared as text %s", f, how), func(s *Scn) built {
				sc := object(s, "t", []Val{cStr("k"), s.schema("k", T("string"))}, nil)
				x := s.shape("x", f)
				v := s.mapNode("v", cStr("k"), x)
				var want M
				if f == "string" {
					want = dict(kv{cStr("k"), s.copied(x)})
				}
				return wrapV(s, how, sc, v, want)
			})
			add("undeclared members", fmt.Sprintf("an undeclared member of form %s between declared ones %s", f, how), func(s *Scn) built {
				d := T("string")
				d["Default"] = s.anyStr(cStr("dflt"))
				sc := object(s, "t", []Val{cStr("k"), s.schema("k", T("string")), cStr("d"), s.schema("d", d)}, map[string]Val{"AdditionalProperties": s.anyBool(cBool(true))})
				x, k := s.shape("x", f), s.shape("k", "string")
				v := s.mapNode("v", cStr("x"), x, cStr("k"), k)
				want := dict(kv{cStr("x"), s.copied(x)}, kv{cStr("k"), s.copied(k)}, kv{cStr("d"), is("String", cStr("dflt"))})
				return wrapV(s, how, sc, v, want)
			})
		}
		// nested objects that are absent or incomplete
		for _, have := range []string{"absent", "empty", "partial", "complete"} {
			for _, inner := range []string{"", "required"} {
				add("nested defaults", fmt.Sprintf("object member with a default inside, %s, other inner member %q %s", have, inner, how), func(s *Scn) built {
					d := T("string")
					d["Default"] = s.anyStr(cStr("dflt"))
					more := map[string]Val{}
					if inner != "" {
						more["Required"] = req(s, "r")
					}
					in := object(s, "in", []Val{cStr("d"), s.schema("d", d), cStr("r"), s.schema("r", T("integer"))}, more)
					sc := object(s, "t", []Val{cStr("k"), in}, nil)
					rv, dv := s.shape("r", "int"), s.shape("d", "string")
					D := is("String", cStr("dflt"))
					var v Ptr
					var want M
					switch have {
					case "absent":
						v = s.mapNode("v")
						want = dict(kv{cStr("k"), dict(kv{cStr("d"), D})})
						if inner != "" {
							want = dict()
						}
					case "empty":
						v = s.mapNode("v", cStr("k"), s.mapNode("k"))
						if inner == "" {
							want = dict(kv{cStr("k"), dict(kv{cStr("d"), D})})
						}
					case "partial":
						v = s.mapNode("v", cStr("k"), s.mapNode("k", cStr("r"), rv))
						want = dict(kv{cStr("k"), dict(kv{cStr("r"), s.copied(rv)}, kv{cStr("d"), D})})
					case "complete":
						v = s.mapNode("v", cStr("k"), s.mapNode("k", cStr("d"), dv, cStr("r"), rv))
						want = dict(kv{cStr("k"), dict(kv{cStr("d"), s.copied(dv)}, kv{cStr("r"), s.copied(rv)})})
					}
					return wrapV(s, how, sc, v, want)
				})
			}
		}
	}
	// every item of a list
	for n := 0; n <= 3; n++ {
		add("defaults", fmt.Sprintf("a list of %d incomplete objects", n), func(s *Scn) built {
			d := T("string")
			d["Default"] = s.anyStr(cStr("dflt"))
			m := T("array")
			m["Items"] = object(s, "in", []Val{cStr("d"), s.schema("d", d), cStr("x"), s.schema("x", T("string"))}, nil)
			var el []Ptr
			var ms []M
			for i := 0; i < n; i++ {
				x := s.shape(fmt.Sprint("x", i), "string")
				el = append(el, s.mapNode(fmt.Sprint("v", i), cStr("x"), x))
				ms = append(ms, dict(kv{cStr("x"), s.copied(x)}, kv{cStr("d"), is("String", cStr("dflt"))}))
			}
			return built{s.schema("t", m), s.arrNode("v", el...), list(ms...)}
		})
	}
	// defaults as a document declares them, from the schema operator to the result
	for _, t := range []struct{ form, typ string }{{"string", "string"}, {"int", "integer"}, {"float", "float"}, {"bool", "boolean"}, {"strings", "array"}, {"null", "string"}} {
		name := fmt.Sprintf("a default of form %s declared for type %s", t.form, t.typ)
		r.guard("analysis", name, func() {
			s := r.W().scn(name)
			s.In.Cap = 6
			s.plain = true
			s.initLog()
			s.disk().quiet = true
			s.json(nil)
			d := s.shape("d", t.form)
			outs := s.applyOp("schema", w.T.ModeEval, s.mapNode("sc", cStr("type"), s.strNode("t", cStr("object")), cStr("properties"),
				s.mapNode("ps", cStr("k"), s.mapNode("k", cStr("type"), s.strNode("kt", cStr(t.typ)), cStr("default"), d))))
			var all []Outcome
			for _, o := range outs {
				s.St = o.St
				v := s.value(o.St, o.Res[0])
				if p, ok := v.(Ptr); ok && s.isErr(o) == 0 {
					all = append(all, s.run(s.W.P.method(s.W.T.SchemaPtr, "Cast"), p, s.mapNode("v"))...)
				} else {
					all = append(all, o)
				}
			}
			want := dict(kv{cStr("k"), is(s.kindOf(s.St, d), s.value(s.St, d))})
			if t.form == "strings" {
				el, _ := s.elems(s.St, d)
				want = dict(kv{cStr("k"), list(is("String", s.value(s.St, el[0])), is("String", s.value(s.St, el[1])))})
			} else if t.form == "null" {
				want = dict()
			}
			s.exact(r, "declared defaults", "schema operator and cast", all, want)
		})
	}
	r.parallel(len(cases), func(i int, r *Report) {
		c := cases[i]
		r.guard("analysis", c.name, func() {
			s := r.W().scn(strings.TrimSpace(c.name))
			s.In.Cap = 6
			s.plain = true
			s.initLog()
			s.disk().quiet = true
			s.json(nil)
			b := c.build(s)
			before := s.St.clone()
			outs := s.run(s.W.P.method(s.W.T.SchemaPtr, "Cast"), b.schema, b.value)
			if b.want == nil {
				s.expErr(r, c.rule, "cast", outs)
				return
			}
			s.exp(r, c.rule, "cast", outs, func(o Outcome) string {
				if e := s.noErr(o); e != "" {
					return e
				}
				if e := b.want(s, o.St, o.Res[0]); e != "" {
					return "the result has " + e
				}
				if t := s.nodeField(o.St, o.Res[0], "Type"); t.Key() != b.schema.Key() {
					return "the result has the type " + t.Key() + " instead of the one it was cast to"
				}
				if x := changed(before, o.St); x != "" {
					return "the original value is changed: " + x
				}
				return ""
			})
		})
	})
}
