package main

import "fmt"

func init() {
	register(&Check{ID: "C15", Min: 60, Rule: "Includes of zero to three files (the including document among them or not) and imports of one to three modules are analysed with the evaluation of the loaded document intercepted, from scopes with parents and definitions. The environment each document is given must have no parent, be its own, contain only the predefined types and show none of the loader's names; the definitions the document makes must be readable afterwards only as members of the import name, in no scope of the loader; the contributed list must be exactly the documents, in order, inert under evaluation; a failing document must fail the loader.", Run: runC15})
}

func runC15(r *Report) {
	w := r.W()
	E := w.T.ModeEval
	set := w.P.method(w.T.EnvPtr, "Set")
	type world struct {
		s                  *Scn
		names              []Val // the loader's names
		defs               []Val // names defined by the k-th document
		vals               []Ptr
		docs               [][]Ptr
		inner, outer, root Ptr
		bad                string
		envs               map[string]bool
		failAt             int
		ran                int
	}
	mk := func(name string, ndocs ...int) *world {
		x := &world{failAt: -1, envs: map[string]bool{}}
		x.s = w.scn(name, w.mock("Run", func(c *Call, _ int, a []Val) []Outcome {
			s := x.s
			k := count(c.St, "run")
			appendLog(c.St, mkTerm("run", intT, s.clean(a[2])))
			if k >= len(ndocs) {
				x.bad = "more documents are loaded than named"
				return []Outcome{{c.St, []Val{Nil{}, errVal(s, "no more documents")}}}
			}
			env, ok := a[1].(Ptr)
			if !ok {
				x.bad = "the scope of a document is " + a[1].Key()
			} else {
				if p := s.field(c.St, env, w.T.Env, "Parent"); p.Key() != (Nil{}).Key() {
					x.bad = "the scope of a document has a parent"
				}
				for _, n := range append(append([]Val{}, x.names...), x.defs...) {
					if l := s.lookup(c.In, c.St, env, n); l != "undefined" {
						x.bad = "a document sees " + n.Key() + " as " + l
					}
				}
				for _, n := range []string{"null", "bool", "int", "float", "string"} {
					if l := s.lookup(c.In, c.St, env, cStr(n)); l == "undefined" {
						x.bad = "a document does not have the type " + n
					}
				}
			}
			if k == x.failAt {
				return []Outcome{{c.St, []Val{Nil{}, errVal(s, "document fails")}}}
			}
			outs := c.In.CallFn(set, c.St, []Val{a[1], x.defs[k], x.vals[k]}, nil, fmt.Sprint("define", k))
			id := fmt.Sprint("docs", k)
			for i := range outs {
				st := outs[i].St
				var el []Val
				for _, d := range x.docs[k] {
					el = append(el, Iface{w.T.NodePtr, d})
				}
				st.heap[id+"a"] = &Obj{Kind: OArr, Known: true, T: w.T.AnySlice, Elems: el}
				st.heap[id] = &Obj{Kind: OCell, T: w.T.Node, V: s.strct(w.T.Node, map[string]Val{"Kind": cInt(w.T.Kind["Array"]), "IsDocumentRoot": cBool(true), "Value": Iface{w.T.AnySlice, Slice{Obj: id + "a", Hi: len(el), Known: true, T: w.T.AnySlice}}})}
				outs[i].Res = []Val{Ptr{id, "", w.T.Node}, Nil{}}
			}
			return outs
		}))
		s := x.s
		s.In.Cap = 8
		s.initLog()
		for i := 0; i < 3; i++ {
			x.names = append(x.names, s.ident(fmt.Sprint("own", i)))
		}
		for k, n := range ndocs {
			x.defs = append(x.defs, s.ident(fmt.Sprint("def", k)))
			x.vals = append(x.vals, s.any(fmt.Sprint("val", k)))
			var ds []Ptr
			for i := 0; i < n; i++ {
				l := fmt.Sprintf("doc%d.%d", k, i)
				if i%2 == 0 {
					d := s.arrNode(l, s.strNode("op", cStr("+")), s.any("operand"))
					s.setField(d, "Tag", cStr("!yisp"))
					ds = append(ds, d)
				} else {
					ds = append(ds, s.node(l, "Map", Iface{w.T.YMapPtr, s.ymap(l + ".m")}))
				}
			}
			x.docs = append(x.docs, ds)
		}
		all := append(append([]Val{}, x.names...), x.defs...)
		for _, n := range []string{"null", "bool", "int", "float", "string"} {
			all = append(all, cStr(n))
		}
		s.distinct(all...)
		x.root = s.env("root", nil, x.names[0], s.any("o0"))
		x.outer = s.env("outer", x.root, x.names[1], s.any("o1"))
		x.inner = s.env("inner", x.outer, x.names[2], s.any("o2"))
		return x
	}
	// the loader's scopes read as before
	scopes := func(x *world, before, after *State, extra ...Val) string {
		s := x.s
		for i, e := range []Ptr{x.root, x.outer, x.inner} {
			for _, n := range append(append([]Val{}, x.names...), x.defs...) {
				if b, a := s.lookup(s.In, before, e, n), s.lookup(s.In, after, e, n); a != b {
					return fmt.Sprintf("in scope %d of the loader %s reads as %s instead of %s", i, n.Key(), a, b)
				}
			}
		}
		return ""
	}
	self := func(s *Scn) Val { return mkCat(cStr("/"), s.ident("dir"), cStr("/"), s.ident("self"), cStr(".yisp")) }
	for n := 0; n <= 3; n++ {
		for selfAt := -1; selfAt <= n; selfAt++ {
			for fail := -1; fail < n; fail++ {
				for _, explicit := range []bool{false, true} {
					if n == 0 && selfAt < 0 && !explicit {
						continue // the pattern itself is tried then
					}
					var nd []int
					for k := 0; k < n; k++ {
						nd = append(nd, k)
					}
					x := mk(fmt.Sprintf("include of %d files, the document itself at %d, failing at %d, named one by one: %v", n, selfAt, fail, explicit), nd...)
					x.failAt = fail
					s := x.s
					d := s.disk()
					file := self(s)
					var files []Val
					all := []Val{s.ident("self"), s.ident("dir")}
					for k := 0; k <= n; k++ {
						if k == selfAt {
							files = append(files, mkCat(s.ident("self"), cStr(".yisp")))
						}
						if k < n {
							f := s.ident(fmt.Sprint("f", k))
							all = append(all, f)
							files = append(files, mkCat(f, cStr(".yisp")))
						}
					}
					s.distinct(all...)
					var args []Ptr
					at := s.attrIn(file)
					if explicit {
						for k, f := range files {
							args = append(args, s.strNode(fmt.Sprint("path", k), f, "Attr", at))
						}
					} else {
						args = append(args, s.strNode("path", cStr("*.yisp"), "Attr", at))
						d.matches = func(dir, p Val) []Val { return files }
					}
					before := s.St.clone()
					e, et := s.engine(nil)
					outs := s.run(s.engMethod(et, "Apply"), e, s.strNode("car", cStr("include")), s.nodes(args...), x.inner, cInt(E))
					if fail >= 0 {
						s.expErr(r, "a failing document fails the include", "include", outs)
						continue
					}
					s.exp(r, "an include contributes exactly its documents, in order", "include", outs, func(o Outcome) string {
						if m := s.noErr(o); m != "" {
							return m
						}
						if x.bad != "" {
							return x.bad
						}
						var ms []M
						for _, ds := range x.docs {
							for _, dd := range ds {
								ms = append(ms, same(dd))
							}
						}
						if m := list(ms...)(s, o.St, o.Res[0]); m != "" {
							return "the result has " + m
						}
						return scopes(x, before, o.St)
					})
					// the contributed documents are inert
					for _, o := range outs {
						for k, ds := range x.docs {
							for i, dd := range ds {
								rc := w.record(fmt.Sprintf("document %d.%d of %s", k, i, s.Name))
								rc.s.St = o.St.clone()
								rc.s.St.tag, rc.s.St.ntag = "", 0
								rc.s.initLog()
								ee, eet := rc.s.engine(nil)
								oo := rc.s.run(rc.s.engMethod(eet, "Eval"), ee, dd, x.inner, cInt(E))
								rc.s.exp(r, "included documents are not evaluated again", "included document", oo, func(o Outcome) string {
									l, _ := logOf(o.St)
									for _, step := range l {
										t := step.(*Term)
										if t.Op == "apply" {
											return "evaluating the included document again applies it"
										}
										if t.Op == "eval" && t.Args[2].Key() == cInt(E).Key() {
											return "evaluating the included document again evaluates its parts"
										}
									}
									return ""
								})
							}
						}
						break
					}
				}
			}
		}
	}
	for n := 1; n <= 3; n++ {
		for fail := -1; fail < n; fail++ {
			for scope := 0; scope < 3; scope++ {
				var nd []int
				for k := 0; k < n; k++ {
					nd = append(nd, 2)
				}
				x := mk(fmt.Sprintf("import of %d modules in scope %d, failing at %d", n, scope, fail), nd...)
				x.failAt = fail
				s := x.s
				s.disk()
				at := s.attrIn(self(s))
				els := []Ptr{s.strNode("kw", cStr("import"), "Attr", at)}
				var mods []Val
				all := append(append([]Val{}, x.names...), x.defs...)
				for k := 0; k < n; k++ {
					m := s.ident(fmt.Sprint("mod", k))
					mods = append(mods, m)
					f := mkCat(s.ident(fmt.Sprint("f", k)), cStr(".yisp"))
					els = append(els, s.node("tuple", "Array", s.arr(s.strNode("name", m, "Attr", at), s.strNode("path", f, "Attr", at)), "Attr", at))
				}
				s.distinct(append(all, mods...)...)
				env := []Ptr{x.root, x.outer, x.inner}[scope]
				before := s.St.clone()
				outs := s.evalIn(s.node("expr", "Array", s.arr(els...), "Attr", at), env, E, nil)
				if fail >= 0 {
					s.expErr(r, "a failing document fails the import", "import", outs)
					continue
				}
				s.exp(r, "an import binds only its name", "import", outs, func(o Outcome) string {
					if m := s.noErr(o); m != "" {
						return m
					}
					if x.bad != "" {
						return x.bad
					}
					if k := s.kindOf(o.St, o.Res[0]); k != "Null" {
						return "the import contributes a value of kind " + k
					}
					for i, e := range []Ptr{x.root, x.outer, x.inner} {
						for k := range mods {
							for j := range x.defs {
								want := "undefined"
								if k == j {
									want = x.vals[j].Key()
								}
								if got := s.lookup(s.In, o.St, e, mkCat(mods[k], cStr("."), x.defs[j])); got != want {
									return fmt.Sprintf("in scope %d, definition %d of module %d reads as %s instead of %s", i, j, k, got, want)
								}
							}
						}
					}
					l, _ := logOf(o.St)
					nrun := 0
					for _, t := range l {
						if t.(*Term).Op == "run" {
							nrun++
						}
					}
					if nrun != n {
						return fmt.Sprintf("%d documents are loaded instead of %d", nrun, n)
					}
					return scopes(x, before, o.St)
				})
			}
		}
	}
}
