package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"
)

func init() {
	register(&Check{ID: "C14", Min: 900, Rule: "Rendering (with every combination of options, for documents and document lists), conversion to plain data, type verification and validation against schemas of every kind are analysed on values of 17 forms, alone and nested in lists, maps and documents, typed and untyped; afterwards every object that existed before the call must be unchanged, and a second rendering must produce the same thing.", Run: func(r *Report) { runC14(r, false) }})
}

// changed names an object that existed before and differs now.
func changed(before, after *State) string {
	var ids []string
	for id := range before.heap {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		a := after.heap[id]
		if a == before.heap[id] {
			continue
		}
		if a == nil || a.key() != before.heap[id].key() {
			if strings.HasPrefix(id, "cnt:") || id == "log:" {
				continue
			}
			return strings.TrimPrefix(id, "in:")
		}
	}
	return ""
}

// schemaForms are schemas with one constraint each; they constrain nothing by chance.
var schemaForms = []string{"any", "null", "boolean", "integer", "float", "string", "array", "array of any", "object", "object with property", "open object", "object of any", "required", "open required", "function", "oneOf", "", "unknown"}

func (s *Scn) schemaForm(label, form string) Ptr {
	T := func(t string) map[string]Val { return map[string]Val{"Type": cStr(t)} }
	anyS := func() Ptr { return s.schema(label+".any", T("any")) }
	m := T(form)
	switch form {
	case "integer", "float":
		f := s.alloc(label+".min", floatT, s.sym(label+".minimum", floatT))
		m["Minimum"] = f
		m["ExclusiveMaximum"] = s.alloc(label+".max", floatT, s.sym(label+".maximum", floatT))
		m["MultipleOf"] = s.alloc(label+".mul", intT, s.sym(label+".multiple", intT))
	case "string":
		m["MinLength"] = s.alloc(label+".min", intT, s.sym(label+".minimum", intT))
		m["MaxLength"] = s.alloc(label+".max", intT, s.sym(label+".maximum", intT))
	case "array of any":
		m = T("array")
		m["Items"] = anyS()
	case "object with property":
		m = T("object")
		m["Properties"] = s.gomap(label+".props", s.propsT(), cStr("k"), anyS(), cStr("z"), s.schema(label+".z", map[string]Val{"Type": cStr("string"), "Default": s.anyStr(s.ident(label + ".default"))}))
		m["AdditionalProperties"] = s.anyBool(cBool(true))
	case "open object":
		m = T("object")
		m["AdditionalProperties"] = s.anyBool(cBool(true))
	case "object of any":
		m = T("object")
		m["Properties"] = s.gomap(label+".props", s.propsT(), cStr("k"), s.schema(label+".s", T("string")), cStr("m"), anyS())
	case "required":
		m = T("object")
		m["Required"] = s.list(label+".req", types.NewSlice(strT), s.ident(label+".k"), cStr("q"), s.ident(label+".j"))
	case "open required":
		m = T("object")
		m["Required"] = s.list(label+".req", types.NewSlice(strT), cStr("k"))
		m["AdditionalProperties"] = s.anyBool(cBool(true))
	case "function":
		m["Arguments"] = s.list(label+".args", types.NewSlice(s.W.T.SchemaPtr), anyS())
	case "oneOf":
		m = map[string]Val{"OneOf": s.list(label+".one", types.NewSlice(s.W.T.SchemaPtr), s.schema(label+".o1", T("string")), s.schema(label+".o2", T("object")), anyS())}
	case "unknown":
		m = map[string]Val{"Type": s.ident(label + ".type")}
	}
	return s.schema(label, m)
}

func (s *Scn) propsT() types.Type {
	st := s.W.T.Schema.Underlying().(*types.Struct)
	return st.Field(s.fieldIdx(s.W.T.Schema, "Properties")).Type()
}

// runC14 decides what the calls change or, for crash, whether they crash.
func runC14(r *Report, crash bool) {
	w := r.W()
	type job struct {
		name string
		f    func(s *Scn, r *Report)
	}
	var jobs []job
	add := func(f func(s *Scn, r *Report), name string, a ...any) {
		jobs = append(jobs, job{fmt.Sprintf(name, a...), f})
	}
	// values to look at: each form alone and nested
	wrap := func(s *Scn, form, how string) Ptr {
		v := s.shape("v", form)
		switch how {
		case "in a list":
			return s.arrNode("l", v, s.shape("o", "string"))
		case "in a map":
			return s.mapNode("m", cStr("first"), v, cStr("second"), s.shape("o", "string"))
		case "typed":
			s.setField(v, "Type", s.schemaForm("t", "any"))
		case "in a document":
			return s.node("docs", "Array", s.arr(v, s.mapNode("m", cStr("k"), s.shape("o", "string"))), "IsDocumentRoot", cBool(true))
		}
		return v
	}
	same := func(s *Scn, r *Report, rule, what string, before *State, outs []Outcome) {
		if crash {
			s.noCrash(r, rule[:strings.Index(rule, " is ")]+" of "+what)
			return
		}
		pos, path := s.where()
		if e := s.events("cut"); len(e) > 0 || len(outs) == 0 {
			r.fail(rule, what, pos, "cannot be decided: no path returns (through %s)", path)
			return
		}
		for _, o := range outs {
			if x := changed(before, o.St); x != "" {
				k := "in:" + x
				if before.heap[k] == nil {
					k = x
				}
				now := "nothing"
				if o.St.heap[k] != nil {
					now = o.St.heap[k].key()
				}
				r.fail(rule, what, pos, "%s changes from %s to %s (through %s)", x, before.heap[k].key(), now, path)
				return
			}
		}
		r.ok(rule, what, pos)
	}
	prep := func(s *Scn) {
		s.initLog()
		s.encoder(-1)
		s.disk().quiet = true
		s.json(nil)
	}
	for _, how := range []string{"", "in a list", "in a map", "typed", "in a document"} {
		for _, form := range shapes {
			for o := 0; o < 4; o++ {
				add(func(s *Scn, r *Report) {
					prep(s)
					v := wrap(s, form, how)
					e, et := s.engine(map[string]Val{"RenderSpecialObjects": cBool(o&1 > 0), "RenderSources": cBool(o&2 > 0)})
					s.decorate()
					before := s.St.clone()
					outs := s.run(s.engMethod(et, "Render"), e, v)
					same(s, r, "rendering is read-only", form+" "+how+fmt.Sprint(", options ", o), before, outs)
				}, "render %s %s %d", form, how, o)
			}
			add(func(s *Scn, r *Report) {
				prep(s)
				v := wrap(s, form, how)
				s.decorate()
				before := s.St.clone()
				same(s, r, "conversion to plain data is read-only", form+" "+how, before, s.run(s.W.P.method(w.T.NodePtr, "ToNative"), v))
			}, "native %s %s", form, how)
			add(func(s *Scn, r *Report) {
				prep(s)
				v := wrap(s, form, how)
				s.decorate()
				before := s.St.clone()
				same(s, r, "verification is read-only", form+" "+how, before, s.run(s.W.P.fn("core", "VerifyTypes"), v, cBool(false)))
			}, "verify %s %s", form, how)
		}
	}
	for _, form := range shapes {
		for _, sf := range schemaForms {
			add(func(s *Scn, r *Report) {
				prep(s)
				v := s.shape("v", form)
				sc := s.schemaForm("schema", sf)
				s.decorate()
				before := s.St.clone()
				same(s, r, "validation is read-only", form+" as "+sf, before, s.run(s.W.P.method(w.T.SchemaPtr, "Validate"), sc, v))
			}, "validate %s %s", form, sf)
			add(func(s *Scn, r *Report) {
				prep(s)
				v := s.shape("v", form)
				s.setField(v, "Type", s.schemaForm("schema", sf))
				d := s.arrNode("l", s.mapNode("m", cStr("k"), v))
				s.decorate()
				before := s.St.clone()
				same(s, r, "verification is read-only", form+" typed "+sf, before, s.run(s.W.P.fn("core", "VerifyTypes"), d, cBool(false)))
			}, "verify %s %s", form, sf)
		}
	}
	if crash {
		for _, form := range shapes {
			for _, sf := range schemaForms {
				add(func(s *Scn, r *Report) {
					prep(s)
					s.plain = true
					s.run(s.W.P.method(w.T.SchemaPtr, "Cast"), s.schemaForm("schema", sf), s.shape("v", form))
					s.noCrash(r, "casting "+form+" to "+sf)
				}, "cast %s %s", form, sf)
			}
			for _, k := range []string{"$schema", "apiVersion", "kind", "metadata", w.T.MergeKey} {
				for _, mode := range []int{w.T.ModeEval, w.T.ModeQuote} {
					add(func(s *Scn, r *Report) {
						prep(s)
						s.plain = true
						n := s.mapNode("m", cStr("kind"), s.shape("k", "string"), cStr("apiVersion"), s.shape("a", "string"), cStr(k), s.shape("v", form))
						if k == "kind" {
							n = s.mapNode("m", cStr(k), s.shape("v", form), cStr("apiVersion"), s.shape("a", "string"))
						} else if k == "apiVersion" {
							n = s.mapNode("m", cStr(k), s.shape("v", form), cStr("kind"), s.shape("a", "string"))
						}
						s.eval(n, mode)
						s.noCrash(r, fmt.Sprint("evaluation of a map with a member ", k, " of form ", form, ", mode ", mode))
					}, "eval map %s %s", form, k)
				}
			}
		}
		forms := append([]string{"absent"}, shapes...)
		for _, car := range []string{"if", "lambda", "import", "quote", "+", "lists.map"} {
			for _, a := range forms {
				for _, b := range forms {
					if a == "absent" && b != "absent" {
						continue
					}
					for _, n := range []int{0, 1} {
						add(func(s *Scn, r *Report) {
							prep(s)
							s.plain = true
							s.plain = true
							s.plain = true
							l := []Ptr{s.strNode("car", cStr(car))}
							for i, f := range []string{a, b, "int"}[:2+n] {
								if f != "absent" {
									l = append(l, s.shape(fmt.Sprint("x", i), f))
								}
							}
							s.eval(s.arrNode("call", l...), w.T.ModeEval)
							s.noCrash(r, fmt.Sprint("evaluation of [", car, ", ", a, ", ", b, "] with ", n, " more"))
						}, "eval %s %s %s", car, a, b)
					}
				}
			}
		}
		for _, car := range shapes {
			for _, b := range forms {
				add(func(s *Scn, r *Report) {
					prep(s)
					s.plain = true
					l := []Ptr{s.shape("car", car)}
					if b != "absent" {
						l = append(l, s.shape("x", b))
					}
					s.eval(s.arrNode("call", l...), w.T.ModeEval)
					s.noCrash(r, fmt.Sprint("evaluation of a call of ", car, " on ", b))
				}, "eval call %s %s", car, b)
				if car == "string" {
					continue // every registered operator is analysed by itself
				}
				add(func(s *Scn, r *Report) {
					prep(s)
					s.plain = true
					var l []Ptr
					if b != "absent" {
						l = append(l, s.shape("x", b))
					}
					e, et := s.engine(nil)
					s.applyOn(e, et, s.shape("car", car), w.T.ModeEval, l...)
					s.noCrash(r, fmt.Sprint("application of ", car, " to ", b))
				}, "apply %s %s", car, b)
			}
		}
	}
	if crash {
		for _, name := range []string{"", ".", "nosuch", "no.such", "a.b.c", "lists.", ".car", "lists.nosuch"} {
			for n := 0; n < 3; n++ {
				add(func(s *Scn, r *Report) {
					prep(s)
					e, et := s.engine(nil)
					s.applyOn(e, et, s.strNode("car", cStr(name)), w.T.ModeEval, []Ptr{s.shape("x", "string"), s.shape("y", "int")}[:n]...)
					s.noCrash(r, fmt.Sprintf("application of the operator %q to %d operands", name, n))
				}, "apply name %q %d", name, n)
			}
		}
	}
	for _, a := range schemaForms {
		for _, b := range schemaForms {
			add(func(s *Scn, r *Report) {
				prep(s)
				x, y := s.schemaForm("x", a), s.schemaForm("y", b)
				s.decorate()
				before := s.St.clone()
				same(s, r, "comparing types is read-only", a+" with "+b, before, s.run(s.W.P.method(w.T.SchemaPtr, "Equals"), x, y))
			}, "equals %s %s", a, b)
		}
	}
	r.parallel(len(jobs), func(i int, r *Report) {
		if os.Getenv("CHECK_DEBUG") != "" {
			defer time.AfterFunc(2*time.Second, func() { fmt.Fprintln(os.Stderr, "slow", jobs[i].name) }).Stop()
		}
		r.guard("analysis", jobs[i].name, func() {
			s := r.W().scn(jobs[i].name)
			if crash {
				s = r.W().opScn()
			}
			jobs[i].f(s, r)
		})
	})
}

func (s *Scn) noCrash(r *Report, what string) {
	if e := s.events("panic"); len(e) > 0 {
		r.fail("no crash", what, e[0].Pos, "reaches a run-time panic %s (through %s)", keys(e[0].Args), strings.Join(short(e[0].Stack), " -> "))
		return
	}
	r.ok("no crash", what, "")
}
