package main

import "fmt"

func init() {
	register(&Check{ID: "C32", Min: 150, Rule: "Parsing, evaluation, merging and rendering are analysed on lists and maps of zero to four members with unknown keys and values, every arrangement of merge keys among entries (merging maps, lists of maps and null, with and without keys in common), and streams of zero to three documents of every kind. The members of the result must be exactly those written, in order; merged entries must stand at the merge key with later entries counting; of a stream exactly the null documents are missing and document lists are spliced; rendering must hand every renderable member to the encoder in order.", Run: runC32})
}

func runC32(r *Report) {
	w := r.W()
	E, Q := w.T.ModeEval, w.T.ModeQuote
	nt := w.P.typ("internal/yaml", "Node")
	yp := w.P.pkg("internal/yaml")
	parse := w.P.fn("engine", "Parse")
	scalar := func(s *Scn, l string, v Val) Ptr {
		return s.alloc(l, nt, s.strct(nt, map[string]Val{"Kind": cInt(constInt(yp, "ScalarNode")), "Tag": cStr("!!str"), "Value": v}))
	}
	// parsing
	for n := 0; n <= 4; n++ {
		s := w.scn(fmt.Sprintf("list of %d", n))
		s.In.Cap = 10
		var kids []Val
		var ms []M
		for i := 0; i < n; i++ {
			v := s.str(fmt.Sprint("v", i))
			kids = append(kids, scalar(s, "c", v))
			ms = append(ms, is("String", v))
		}
		node := s.alloc("node", nt, s.strct(nt, map[string]Val{"Kind": cInt(constInt(yp, "SequenceNode")), "Content": s.list("kids", typesSlice(ptrTo(nt)), kids...)}))
		s.exact(r, "parsing keeps list elements in order", "parsed list", s.run(parse, s.str("file"), node), list(ms...))

		s = w.scn(fmt.Sprintf("map of %d", n))
		s.In.Cap = 10
		kids = nil
		var ks []Val
		var es []kv
		for i := 0; i < n; i++ {
			k, v := s.ident(fmt.Sprint("k", i)), s.str(fmt.Sprint("v", i))
			kids = append(kids, scalar(s, "k", k), scalar(s, "c", v))
			ks = append(ks, k)
			es = append(es, kv{k, is("String", v)})
		}
		s.distinct(ks...)
		node = s.alloc("node", nt, s.strct(nt, map[string]Val{"Kind": cInt(constInt(yp, "MappingNode")), "Content": s.list("kids", typesSlice(ptrTo(nt)), kids...)}))
		s.exact(r, "parsing keeps map entries in order", "parsed map", s.run(parse, s.str("file"), node), dict(es...))
	}
	// two merge keys in one map stay two entries
	for n := 1; n <= 3; n++ {
		s := w.scn(fmt.Sprintf("map with %d merge keys", n))
		s.In.Cap = 10
		s.hook("github.com/rs/xid.New", func(c *Call) []Outcome {
			return ret1(c, mkTerm("xid", c.Sig.Results().At(0).Type(), cInt(count(c.St, "xid"))))
		})
		s.hook("(github.com/rs/xid.ID).String", func(c *Call) []Outcome {
			k, _ := isInt(c.Args[0].(*Term).Args[0])
			return ret1(c, cStr(fmt.Sprint("unique", k)))
		})
		var kids []Val
		var vs []Val
		for i := 0; i < n; i++ {
			v := s.str(fmt.Sprint("v", i))
			vs = append(vs, v)
			kids = append(kids, scalar(s, "k", cStr("<<")), scalar(s, "c", v))
		}
		node := s.alloc("node", nt, s.strct(nt, map[string]Val{"Kind": cInt(constInt(yp, "MappingNode")), "Content": s.list("kids", typesSlice(ptrTo(nt)), kids...)}))
		s.exp(r, "every merge key is kept", "parsed map", s.run(parse, s.str("file"), node), func(o Outcome) string {
			if m := s.noErr(o); m != "" {
				return m
			}
			es, ok := s.entries(o.St, o.Res[0])
			if !ok || len(es) != n {
				return fmt.Sprintf("%d entries instead of %d", len(es), n)
			}
			for i, e := range es {
				if m := is("String", vs[i])(s, o.St, e.V); m != "" {
					return m
				}
			}
			return ""
		})
	}
	// evaluating maps, with merge keys
	type mv struct{ form string } // form of the merged value
	for _, mode := range []int{E, Q} {
		for n := 0; n <= 3; n++ { // plain entries
			for at := 0; at <= n; at++ {
				for _, form := range []string{"none", "map", "shared with earlier", "shared with later", "list", "list with null", "overlapping list", "empty map", "empty list", "null", "two keys", "Int", "String", "Bool", "Lambda", "list with Int"} {
					if form == "none" && at > 0 || form == "shared with earlier" && at == 0 || form == "shared with later" && at == n {
						continue
					}
					rc := w.record(fmt.Sprintf("%d entries, merge key at %d, merging %s, mode %d", n, at, form, mode))
					s := rc.s
					s.In.Cap = 10
					type ent struct{ k, v Val }
					var order []ent
					put := func(k, v Val) {
						for i := range order {
							if order[i].k.Key() == k.Key() {
								order[i].v = v
								return
							}
						}
						order = append(order, ent{k, v})
					}
					var ks []Val
					for i := 0; i < n+3; i++ {
						k := s.ident(fmt.Sprint("k", i))
						ks = append(ks, k)
						for _, sp := range []string{"apiVersion", "kind"} {
							s.assume(k, cStr(sp), LT|GT)
						}
						s.St.addRel(mkTerm("call:strings.HasPrefix", boolT, k, cStr(w.T.MergeKey)), cBool(false), EQ)
					}
					s.distinct(ks...)
					val := func(l string) Ptr { return s.any(l) }
					var kvs []Val
					outcome := map[string]Val{}
					bad := false
					merge := func(id string, vals ...Val) {
						// vals: pairs
						src := s.any("merge" + id)
						kvs = append(kvs, mkCat(cStr(w.T.MergeKey), s.ident("id"+id)), src)
						var v Ptr
						switch form {
						case "list", "list with null", "overlapping list":
							var items []Ptr
							for i := 0; i+1 < len(vals); i += 2 {
								items = append(items, s.mapNode("item", vals[i], vals[i+1]))
								put(vals[i], vals[i+1])
								if form == "list with null" {
									items = append(items, s.bare("null", "Null"))
								}
							}
							v = s.arrNode("merged", items...)
						case "null":
							v = s.bare("merged", "Null")
						case "empty map":
							v = s.mapNode("merged")
						case "empty list":
							v = s.arrNode("merged")
						case "Int", "String", "Bool", "Lambda":
							v = s.bare("merged", form)
							bad = true
						case "list with Int":
							v = s.arrNode("merged", s.mapNode("item"), s.bare("int", "Int"))
							bad = true
						default:
							v = s.mapNode("merged", vals...)
							for i := 0; i+1 < len(vals); i += 2 {
								put(vals[i], vals[i+1])
							}
						}
						outcome[src.Key()] = v
					}
					for i := 0; i <= n; i++ {
						if i == at && form != "none" {
							m0, m1 := ks[n], ks[n+1]
							switch form {
							case "shared with earlier":
								m1 = ks[at-1]
							case "shared with later":
								m1 = ks[at]
							case "overlapping list":
								m1 = m0
							}
							merge("a", m0, val("m0"), m1, val("m1"))
							if form == "two keys" {
								merge("b", m1, val("m2"), ks[n+2], val("m3"))
							}
						}
						if i < n {
							src, v := s.any("src"), val("v")
							kvs = append(kvs, ks[i], src)
							outcome[src.Key()] = v
							put(ks[i], v)
						}
					}
					rc.evals = func(_ int, x Val) Val { return outcome[x.Key()] }
					outs := s.evalIn(s.mapNode("data", kvs...), s.env("env", nil), mode, nil)
					if bad {
						s.expErr(r, "only maps, lists of maps and null can be merged in", "map", outs)
						continue
					}
					var es []kv
					for _, e := range order {
						es = append(es, kv{e.k, same(e.v)})
					}
					s.exact(r, "a map keeps its entries in order, merged ones in place", "map", outs, dict(es...))
				}
			}
		}
	}
	for n := 0; n <= 4; n++ {
		rc := w.record(fmt.Sprintf("list of %d as data", n))
		s := rc.s
		var els []Ptr
		var ms []M
		outcome := map[string]Val{}
		for i := 0; i < n; i++ {
			x, v := s.any("x"), s.any("v")
			els = append(els, x)
			outcome[x.Key()] = v
			ms = append(ms, same(v))
		}
		rc.evals = func(_ int, x Val) Val { return outcome[x.Key()] }
		outs := s.evalIn(s.arrNode("data", els...), s.env("env", nil), Q, nil)
		s.exact(r, "a list keeps its elements in order", "list", outs, list(ms...))
	}
	// streams
	kinds := []string{"null", "map", "list", "scalar", "documents", "no documents"}
	var combos [][]string
	combos = append(combos, nil)
	for _, a := range kinds {
		combos = append(combos, []string{a})
		for _, b := range kinds {
			combos = append(combos, []string{a, b})
			for _, c := range []string{"null", "map", "documents"} {
				combos = append(combos, []string{a, b, c})
			}
		}
	}
	for _, cb := range combos {
		rc := w.record(fmt.Sprintf("stream of %v", cb))
		s := rc.s
		s.stream(len(cb))
		var vals []Ptr
		var ms []M
		for i, k := range cb {
			l := fmt.Sprint("doc", i)
			switch k {
			case "null":
				vals = append(vals, s.bare(l, "Null"))
				continue
			case "map":
				vals = append(vals, s.mapNode(l))
			case "list":
				vals = append(vals, s.arrNode(l, s.any(l+"e")))
			case "scalar":
				vals = append(vals, s.any(l, "Null", "Map", "Array"))
			case "documents":
				a, b := s.any(l+"a"), s.any(l+"b")
				d := s.arrNode(l, a, b)
				s.setField(d, "IsDocumentRoot", cBool(true))
				vals = append(vals, d)
				ms = append(ms, same(a), same(b))
				continue
			case "no documents":
				d := s.arrNode(l)
				s.setField(d, "IsDocumentRoot", cBool(true))
				vals = append(vals, d)
				continue
			}
			ms = append(ms, same(vals[i]))
		}
		rc.evals = func(k int, _ Val) Val { return vals[k] }
		e, et := s.engine(nil)
		f := s.engMethod(et, "Run")
		outs := s.run(f, e, s.sym("reader", paramType(f, 0)), s.env("env", nil), s.str("location"))
		s.exp(r, "the documents of a stream stay in order", "stream", outs, func(o Outcome) string {
			if m := s.noErr(o); m != "" {
				return m
			}
			if m := list(ms...)(s, o.St, o.Res[0]); m != "" {
				return "the result has " + m
			}
			if d := s.nodeField(o.St, o.Res[0], "IsDocumentRoot"); d.Key() != cBool(true).Key() {
				return "the result is not a list of documents"
			}
			return ""
		})
	}
	// rendering
	sc := func(v Val) ynode { return ynode{kind: "ScalarNode", value: v} }
	for n := 0; n <= 3; n++ {
		for hide := 0; hide < 1<<n; hide++ {
			for _, shape := range []string{"list", "map", "documents"} {
				s := w.scn(fmt.Sprintf("rendered %s of %d, not renderable %0*b", shape, n, n, hide))
				s.In.Cap = 10
				s.initLog()
				s.encoder(-1)
				var kvs, ks []Val
				var els []Ptr
				want := ynode{kind: "SequenceNode"}
				if shape == "map" {
					want.kind = "MappingNode"
				}
				hidden := []string{"Lambda", "Type", "Symbol"}
				for i := 0; i < n; i++ {
					k, v := s.ident(fmt.Sprint("k", i)), s.ident(fmt.Sprint("v", i))
					ks = append(ks, k)
					x := s.strNode(fmt.Sprint("x", i), v)
					if hide&(1<<i) != 0 {
						x = s.bare(fmt.Sprint("x", i), hidden[i])
					} else {
						if shape == "map" {
							want.content = append(want.content, sc(k))
						}
						want.content = append(want.content, sc(v))
					}
					kvs = append(kvs, k, x)
					els = append(els, x)
				}
				s.distinct(ks...)
				node := s.arrNode("data", els...)
				if shape == "map" {
					node = s.mapNode("data", kvs...)
				}
				root := node
				wants := []ynode{want}
				if shape == "documents" {
					wants = want.content
				} else {
					root = s.arrNode("root", node)
				}
				s.setField(root, "IsDocumentRoot", cBool(true))
				e, et := s.engine(nil)
				outs := s.run(s.engMethod(et, "Render"), e, root)
				s.exp(r, "rendering keeps every renderable member in order", "output", outs, func(o Outcome) string {
					if m := s.noErr(o); m != "" {
						return m
					}
					got, ok := encoded(o)
					if !ok || len(got) != len(wants) {
						return fmt.Sprintf("%d documents are written instead of %d", len(got), len(wants))
					}
					for i := range wants {
						if m := s.yIs(o.St, got[i], wants[i]); m != "" {
							return "document " + fmt.Sprint(i) + " has " + m
						}
					}
					return ""
				})
			}
		}
	}
}
