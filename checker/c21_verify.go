package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C21", Min: 120, Rule: "Every exported evaluation method of the engine is analysed on documents whose annotated values satisfy or violate their types, with the violation at each position (documents, map members, list items, nested three deep, below other annotated values): with type checking on, a violation must give an error and no output, and otherwise the output must be returned; with checking off neither matters. Evaluating maps that name a schema, or a Kubernetes group, version and kind, must attach exactly the type stored for that name, or fail when there is none.", Run: runC21})
}

// evaluators are the exported methods that evaluate a document to output.
func (w *World) evaluators() []*ssa.Function {
	f := w.P.fn("engine", "NewEngine")
	et := f.Signature.Results().At(0).Type()
	ms := w.P.SSA.MethodSets.MethodSet(et)
	var out []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		o, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !o.Exported() || !strings.HasPrefix(o.Name(), "Evaluate") {
			continue
		}
		if m := w.P.SSA.MethodValue(ms.At(i)); m != nil {
			out = append(out, m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	if len(out) < 4 {
		anchorf("only %d evaluation methods found", len(out))
	}
	return out
}

func runC21(r *Report) {
	w := r.W()
	T := func(t string) map[string]Val { return map[string]Val{"Type": cStr(t)} }
	type pos struct {
		name  string
		build func(s *Scn, typed Ptr) []Ptr // the documents
	}
	o := func(s *Scn, l string) Ptr { return s.strNode(l, s.ident(l)) }
	positions := []pos{
		{"the only document", func(s *Scn, t Ptr) []Ptr { return []Ptr{t} }},
		{"the second document", func(s *Scn, t Ptr) []Ptr { return []Ptr{o(s, "o"), t} }},
		{"the first of two documents", func(s *Scn, t Ptr) []Ptr { return []Ptr{t, o(s, "o")} }},
		{"the only member of a map", func(s *Scn, t Ptr) []Ptr { return []Ptr{s.mapNode("m", cStr("a"), t)} }},
		{"the last member of a map", func(s *Scn, t Ptr) []Ptr { return []Ptr{s.mapNode("m", cStr("a"), o(s, "o"), cStr("b"), t)} }},
		{"the first item of a list", func(s *Scn, t Ptr) []Ptr {
			return []Ptr{s.mapNode("m", cStr("a"), s.arrNode("l", t, o(s, "o")))}
		}},
		{"the last item of a list", func(s *Scn, t Ptr) []Ptr { return []Ptr{s.arrNode("l", o(s, "o"), o(s, "p"), t)} }},
		{"a nested member", func(s *Scn, t Ptr) []Ptr {
			return []Ptr{s.mapNode("m", cStr("a"), s.mapNode("n", cStr("b"), s.arrNode("l", o(s, "o"), s.mapNode("k", cStr("c"), o(s, "q"), cStr("d"), t))))}
		}},
		{"an item of an annotated list", func(s *Scn, t Ptr) []Ptr {
			l := s.arrNode("l", t)
			s.setField(l, "Type", s.schema("lt", T("array")))
			return []Ptr{s.mapNode("m", cStr("a"), l)}
		}},
		{"a member of an annotated map", func(s *Scn, t Ptr) []Ptr {
			m := s.mapNode("m", cStr("a"), t, cStr("b"), o(s, "o"))
			f := T("object")
			f["AdditionalProperties"] = s.anyBool(cBool(true))
			s.setField(m, "Type", s.schema("mt", f))
			return []Ptr{m}
		}},
		{"behind another annotated value", func(s *Scn, t Ptr) []Ptr {
			g := o(s, "g")
			s.setField(g, "Type", s.schema("gt", T("string")))
			return []Ptr{s.mapNode("m", cStr("a"), g, cStr("b"), t)}
		}},
	}
	scn := func(name string, docs func(s *Scn) []Ptr) *Scn {
		var s *Scn
		var d []Ptr
		s = w.scn(name, w.mock("Run", func(c *Call, n int, a []Val) []Outcome {
			return ret1(c, s.node("docs", "Array", s.arr(d...), "IsDocumentRoot", cBool(true)), Nil{})
		}))
		s.initLog()
		s.encoder(-1)
		s.disk().quiet = true
		d = docs(s)
		// the document list must be in the state that the scenario starts from
		root := s.node("docs", "Array", s.arr(d...), "IsDocumentRoot", cBool(true))
		s.In.Hooks[len(s.In.Hooks)-2] = w.mock("Run", func(c *Call, n int, a []Val) []Outcome { return ret1(c, root, Nil{}) })
		return s
	}
	call := func(s *Scn, m *ssa.Function, opts map[string]Val) []Outcome {
		e, _ := s.engine(opts)
		args := []Val{e}
		for i := 1; i < len(m.Params); i++ {
			t := m.Params[i].Type()
			switch {
			case types.Identical(t, strT):
				args = append(args, cStr("/docs/main.yisp"))
			case types.Identical(t, w.T.EnvPtr):
				args = append(args, s.env("env", nil))
			case types.IsInterface(t):
				args = append(args, mkTerm("nonnil", t, cStr("reader")))
			default:
				if mt, ok := t.Underlying().(*types.Map); ok {
					args = append(args, s.gomap("globals", mt))
				} else {
					args = append(args, mkTerm("nonnil", t, cStr("data")))
				}
			}
		}
		return s.run(m, args...)
	}
	for _, m := range w.evaluators() {
		for _, p := range positions {
			for _, bad := range []bool{false, true} {
				for _, off := range []bool{false, true} {
					name := fmt.Sprintf("annotated value is %s, violated %v, checking disabled %v", p.name, bad, off)
					r.guard("analysis", m.Name()+" "+name, func() {
						s := scn(name, func(s *Scn) []Ptr {
							t := s.strNode("t", s.ident("t"))
							if bad {
								t = s.intNode("t", s.sym("t", intT))
							}
							s.setField(t, "Type", s.schema("tt", T("string")))
							return p.build(s, t)
						})
						outs := call(s, m, map[string]Val{"DisableTypeCheck": cBool(off)})
						if bad && !off {
							s.exp(r, "violations stop the output", "method "+m.Name(), outs, func(o Outcome) string {
								if s.isErr(o) != 1 {
									return "a value that violates its type is output"
								}
								if k, ok := isStr(o.Res[0]); ok && k == "" {
									return ""
								}
								if _, null := o.Res[0].(Nil); null {
									return ""
								}
								if i, ok := o.Res[0].(Iface); ok {
									if k, ok := isStr(i.V); ok && k == "" {
										return ""
									}
								}
								return "output is returned together with the error: " + o.Res[0].Key()
							})
						} else {
							s.exp(r, "checked documents are output", "method "+m.Name(), outs, func(o Outcome) string { return s.noErr(o) })
						}
					})
				}
			}
		}
	}
	// which type a value is checked against
	type named struct {
		name  string
		node  func(s *Scn) Ptr
		fails bool
	}
	anyMap := func(kv ...string) func(s *Scn) Ptr {
		return func(s *Scn) Ptr {
			var e []Val
			for i := 0; i < len(kv); i += 2 {
				e = append(e, cStr(kv[i]), s.strNode(kv[i], cStr(kv[i+1])))
			}
			return s.mapNode("m", e...)
		}
	}
	cases := []named{
		{"group, version and kind", anyMap("apiVersion", "apps/v1", "kind", "Deployment"), false},
		{"kind before group and version", anyMap("kind", "Deployment", "name", "x", "apiVersion", "apps/v1"), false},
		{"core group", anyMap("apiVersion", "v1", "kind", "Pod"), false},
		{"a schema address", anyMap("a", "x", "$schema", "https://host/thing.json"), false},
		{"a schema address and a kind", anyMap("apiVersion", "v1", "kind", "Pod", "$schema", "https://host/thing.json"), false},
		{"unknown kind", anyMap("apiVersion", "v1", "kind", "Other"), true},
		{"unknown group", anyMap("apiVersion", "batch/v1", "kind", "Deployment"), true},
		{"unknown version", anyMap("apiVersion", "apps/v2", "kind", "Deployment"), true},
	}
	want := []string{"gvk_apps_v1_Deployment", "gvk_apps_v1_Deployment", "gvk__v1_Pod", "thing.json", "thing.json", "", "", ""}
	for i, c := range cases {
		for _, mode := range []int{w.T.ModeQuote, w.T.ModeEval} {
			for _, lenient := range []bool{false, true} {
				name := fmt.Sprintf("map naming %s, mode %d, untyped allowed %v", c.name, mode, lenient)
				r.guard("analysis", name, func() {
					s := w.scn(name)
					s.initLog()
					d := s.disk()
					d.quiet = true
					files := map[string]Val{}
					s.textFiles = map[string]string{}
					for name, mark := range map[string]string{"apps_v1_Deployment": "gvk_apps_v1_Deployment", "_v1_Pod": "gvk__v1_Pod", "": "thing.json"} {
						id := "thing.json"
						if name != "" {
							id = "id." + name + ".json"
							s.textFiles["/gvk/"+name+".txt"] = "id." + name
						}
						files[id] = s.native(id, cStr("type"), s.anyStr(cStr("object")), cStr("description"), s.anyStr(cStr(mark)), cStr("additionalProperties"), s.anyBool(cBool(true)))
					}
					d.exists = func(p Val) bool {
						k := p.Key()
						for n := range s.textFiles {
							if strings.Contains(k, n) {
								return true
							}
						}
						for n := range files {
							if strings.Contains(k, n) {
								return true
							}
						}
						return false
					}
					s.json(files)
					s.hook("(*encoding/base64.Encoding).EncodeToString", func(c *Call) []Outcome {
						v := c.Args[1]
						if t, ok := v.(*Term); ok && t.Op == "conv:stringtobytes" {
							v = t.Args[0]
						}
						return ret1(c, v)
					})
					outs := s.evalIn(c.node(s), s.env("env", nil), mode, map[string]Val{"AllowUntypedManifest": cBool(lenient)})
					if c.fails && !lenient {
						s.expErr(r, "named types are attached", "evaluation", outs)
						return
					}
					s.exp(r, "named types are attached", "evaluation", outs, func(o Outcome) string {
						if e := s.noErr(o); e != "" {
							return e
						}
						t := s.nodeField(o.St, o.Res[0], "Type")
						if c.fails {
							if _, null := t.(Nil); !null {
								return "the result has the type " + t.Key() + ", though none is known"
							}
							return ""
						}
						p, ok := t.(Ptr)
						if !ok {
							return "the result has no type"
						}
						if got := s.field(o.St, p, w.T.Schema, "Description"); got.Key() != cStr(want[i]).Key() {
							return "the result has the type " + got.Key() + " instead of " + want[i]
						}
						return ""
					})
				})
			}
		}
	}
}
