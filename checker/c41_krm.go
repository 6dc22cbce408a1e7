package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C41", Min: 60, Rule: "The krm command is analysed from the decoded input to its evaluation, on lists of zero to five items (manifests with known and opaque versions, scalars of every kind, nested lists and maps, duplicates): the name items of the evaluated document must be the list of exactly the given items without the function's own configurations, in order, as documents of its own. The evaluated text must be the inline script if there is one and the target otherwise, placed in the working directory, and the permission for untyped manifests must have its effect exactly when given; without it documents that violate their types are rejected.", Run: runC41})
}

const krmVersion = "krm.yisp.gammalab.net/v1"

type krmAt struct {
	st *State
	fn *ssa.Function
	e  Val
	a  []Val
}

func runC41(r *Report) {
	w := r.W()
	envT := w.T.EnvPtr
	// reach runs the command up to its evaluation.
	reach := func(name string, spec func(s *Scn) []Val, items func(s *Scn) []Val) (*Scn, []krmAt, *cli) {
		s := w.scn(name)
		s.In.Cap = 40
		s.asIs = true
		s.initLog()
		c := s.cli()
		s.processes()
		s.disk().quiet = true
		var doc []Val
		if spec != nil {
			doc = append(doc, cStr("functionConfig"), s.native("fc", cStr("kind"), s.anyStr(s.str("fckind")), cStr("spec"), s.native("spec", spec(s)...)))
		}
		if items != nil {
			if el := items(s); el != nil {
				doc = append(doc, cStr("items"), s.anyList("given", el...))
			}
		}
		in := s.native("krm", doc...)
		s.decodesQuietly(modPath+"/internal/yaml.Unmarshal", "yaml", in)
		s.hook("io.ReadAll", func(k *Call) []Outcome {
			return ret1(k, mkTerm("conv:stringtobytes", k.Sig.Results().At(0).Type(), s.str("stdin")), Nil{})
		})
		var found []krmAt
		s.In.Hooks = append([]Hook{func(k *Call) ([]Outcome, bool) {
			if !w.isEvaluate(k) || len(k.In.stack) == 0 || c.result != nil {
				return nil, false
			}
			found = append(found, krmAt{k.St.clone(), k.Fn, k.Args[0], k.Args[1:]})
			return nil, true
		}}, s.In.Hooks...)
		c.run("krm", nil)
		c.result = func(Val) bool { return false } // lets later calls through
		for i := range found {
			found[i].st.env, found[i].st.dfr = map[ssa.Value]Val{}, nil
			found[i].st.heap[logID] = &Obj{Kind: OArr, Known: true}
		}
		s.In.Events = nil
		return s, found, c
	}
	script := func(s *Scn) []Val {
		t := s.str("script")
		s.assume(t, cStr(""), LT|GT)
		return []Val{cStr("yisp"), s.anyStr(t)}
	}
	arg := func(x krmAt, f func(t types.Type) bool) (Val, bool) {
		for i, a := range x.a {
			if f(x.fn.Signature.Params().At(i).Type()) {
				return a, true
			}
		}
		return nil, false
	}
	given := func(s *Scn, x krmAt) []Outcome {
		env, ok := arg(x, func(t types.Type) bool { return types.Identical(t, envT) })
		if !ok {
			anchorf("%s is given no names", x.fn.Name())
		}
		s.St = x.st
		return s.run(w.P.method(envT, "Get"), env, cStr("items"))
	}
	rule := "the given items are the items of the script"
	judge := func(name string, spec func(s *Scn) []Val, build func(s *Scn) ([]Val, func(st *State) ([]M, string))) {
		r.guard(rule, name, func() {
			var want func(st *State) ([]M, string)
			s, found, _ := reach(name, spec, func(s *Scn) []Val {
				var v []Val
				v, want = build(s)
				return v
			})
			if len(found) == 0 {
				r.fail(rule, name, "", "no script is evaluated")
				return
			}
			for _, x := range found {
				s.exp(r, rule, name, given(s, x), func(o Outcome) string {
					if s.In.relate(o.St, o.Res[1], cBool(true)) != EQ {
						return "there is no name items"
					}
					ms, m := want(o.St)
					if m != "" {
						return m
					}
					if m := list(ms...)(s, o.St, o.Res[0]); m != "" {
						return m
					}
					n, _ := o.Res[0].(Ptr)
					if s.In.relate(o.St, s.nodeField(o.St, n, "IsDocumentRoot"), cBool(true)) != EQ {
						return "the items are no documents of their own"
					}
					return ""
				})
			}
		})
	}
	plain := func(ds ...datum) func(s *Scn) ([]Val, func(st *State) ([]M, string)) {
		return func(s *Scn) ([]Val, func(st *State) ([]M, string)) {
			vs, ms := []Val{}, []M{}
			for _, d := range ds {
				v, m := d.build(s)
				vs, ms = append(vs, v), append(ms, m)
			}
			return vs, func(*State) ([]M, string) { return ms, "" }
		}
	}
	str := func(t string) datum {
		return datum{t, func(s *Scn) (Val, M) { return s.anyStr(cStr(t)), is("String", cStr(t)) }}
	}
	mp := func(kvs ...any) datum {
		name := "{"
		for i := 0; i < len(kvs); i += 2 {
			name += kvs[i].(string) + ": " + kvs[i+1].(datum).name + " "
		}
		return datum{strings.TrimSpace(name) + "}", func(s *Scn) (Val, M) {
			var el []Val
			var es []kv
			for i := 0; i < len(kvs); i += 2 {
				v, m := kvs[i+1].(datum).build(s)
				el, es = append(el, cStr(kvs[i].(string)), v), append(es, kv{cStr(kvs[i].(string)), m})
			}
			s.n++
			return s.native(fmt.Sprint("mm", s.n), el...), bag(es...)
		}}
	}
	null := datum{"null", func(s *Scn) (Val, M) { return Nil{}, is("Null", nil) }}
	pod := func(name string) datum {
		return mp("apiVersion", str("v1"), "kind", str("Pod"), "metadata", mp("name", str(name)))
	}

	// every shape of item
	judge("no items", script, func(s *Scn) ([]Val, func(st *State) ([]M, string)) { return plain()(s) })
	judge("no list of items", script, func(s *Scn) ([]Val, func(st *State) ([]M, string)) {
		return nil, func(*State) ([]M, string) { return nil, "" }
	})
	for _, d := range data40(false) {
		if strings.Contains(d.name, "apiVersion") {
			continue // below
		}
		judge("one item, "+d.name, script, plain(d))
		judge("a manifest, "+d.name+" and a manifest", script, plain(pod("a"), d, pod("b")))
	}
	shapes := []datum{
		pod("a"), pod("a"), mp("kind", str("Pod")), mp("apiVersion", str("v1")), mp("apiVersion", null, "kind", str("X")),
		mp("apiVersion", str(""), "kind", str("Yisp")), mp("apiVersion", str("krm.yisp.gammalab.net/v2")), mp("apiVersion", str("krm.yisp.gammalab.net/v1beta1"), "kind", str("Yisp")),
		mp("apiVersion", str("yisp.gammalab.net/v1")), mp("kind", str(krmVersion)), str(krmVersion), mp("apiVersion", mp("a", str(krmVersion))), mp("metadata", mp("apiVersion", str(krmVersion))),
		mp("kind", str("List"), "items", mp("apiVersion", str(krmVersion))), mp("apiVersion", str("KRM.yisp.gammalab.net/v1")), mp("apiVersion", str(krmVersion+" ")),
		mp("apiVersion", str("config.kubernetes.io/v1"), "kind", str("Kptfile"), "metadata", mp("annotations", mp("config.kubernetes.io/local-config", str("true")))),
		mp("metadata", mp("annotations", mp("config.kubernetes.io/function", str("x")))),
		mp("apiversion", str(krmVersion)), mp("APIVersion", str(krmVersion)),
	}
	for _, d := range shapes {
		judge("one item, "+d.name, script, plain(d))
		judge("two equal items, "+d.name, script, plain(d, d))
	}
	judge("five items", script, plain(pod("a"), pod("b"), null, pod("a"), str("x")))
	judge("many items", script, plain(shapes...))
	judge("an item of the same name in another place", script, plain(mp("apiVersion", str("v1"), "kind", str("Pod"), "metadata", mp("name", str("a"), "namespace", str("x"))), mp("apiVersion", str("v1"), "kind", str("Pod"), "metadata", mp("name", str("a"), "namespace", str("y")))))

	// the function's own configurations are left out, whatever stands beside
	for n := 1; n <= 4; n++ {
		for at := 0; at < 1<<n; at++ {
			if at == 0 {
				continue
			}
			var in, out []string
			for i := 0; i < n; i++ {
				if at>>i&1 == 1 {
					in = append(in, "own")
				} else {
					in = append(in, "pod")
					out = append(out, "pod")
				}
			}
			judge("items "+strings.Join(in, ", "), script, func(s *Scn) ([]Val, func(st *State) ([]M, string)) {
				var vs []Val
				var ms []M
				for i := 0; i < n; i++ {
					v, m := pod(fmt.Sprint("p", i)).build(s)
					if at>>i&1 == 1 {
						kind := []string{"Yisp", "Other"}[i%2]
						v = s.native(fmt.Sprint("own", i), cStr("apiVersion"), s.anyStr(cStr(krmVersion)), cStr("kind"), s.anyStr(cStr(kind)), cStr("spec"), s.native(fmt.Sprint("sp", i)))
					} else {
						ms = append(ms, m)
					}
					vs = append(vs, v)
				}
				return vs, func(*State) ([]M, string) { return ms, "" }
			})
		}
	}
	// and of any version
	for n := 1; n <= 3; n++ {
		for at := 0; at < 1<<n; at++ {
			judge(fmt.Sprintf("%d items of any version, %0*b of the function's own", n, n, at), script, func(s *Scn) ([]Val, func(st *State) ([]M, string)) {
				var vs []Val
				ms := []M{}
				for i := 0; i < n; i++ {
					av, k := s.str(fmt.Sprint("version", i)), s.str(fmt.Sprint("kind", i))
					vs = append(vs, s.native(fmt.Sprint("it", i), cStr("apiVersion"), s.anyStr(av), cStr("kind"), s.anyStr(k)))
					if at>>i&1 == 1 {
						s.assume(av, cStr(krmVersion), EQ)
						continue
					}
					s.assume(av, cStr(krmVersion), LT|GT)
					ms = append(ms, bag(kv{cStr("apiVersion"), is("String", av)}, kv{cStr("kind"), is("String", k)}))
				}
				return vs, func(*State) ([]M, string) { return ms, "" }
			})
		}
	}
	// what has no counterpart is not left out
	tm := w.P.typ2("time", "Time")
	for i := 0; i < 3; i++ {
		name := fmt.Sprintf("item %d is no plain data", i+1)
		r.guard("items that cannot be taken over are an error", name, func() {
			_, found, c := reach(name, script, func(s *Scn) []Val {
				var vs []Val
				for k := 0; k < 3; k++ {
					v, _ := pod(fmt.Sprint("p", k)).build(s)
					if k == i {
						v = s.native("bad", cStr("at"), Iface{tm, Sym{"time", tm}})
					}
					vs = append(vs, v)
				}
				return vs
			})
			bad := len(c.ends) == 0
			for _, e := range c.ends {
				n, ok := isInt(e.code)
				bad = bad || !ok || n == 0
			}
			r.check(len(found) == 0 && !bad, "items that cannot be taken over are an error", name, "", "the script is evaluated without the item")
		})
	}

	// what is evaluated
	isReader := func(t types.Type) bool { return types.IsInterface(t) }
	isString := func(t types.Type) bool { return types.Identical(t, strT) }
	rule2 := "the given script or target is evaluated"
	what := func(name string, spec func(s *Scn) []Val, reads bool, loc func(s *Scn) string) {
		r.guard(rule2, name, func() {
			s, found, _ := reach(name, spec, func(s *Scn) []Val { return []Val{} })
			r.check(len(found) > 0, rule2, name, "", "nothing is evaluated")
			for _, x := range found {
				rd, isRd := arg(x, isReader)
				l, ok := arg(x, isString)
				pos := w.P.pos(x.fn.Pos())
				if isRd != reads || !ok {
					r.fail(rule2, name, pos, "%s evaluates the wrong one of script and target", x.fn.Name())
					continue
				}
				if reads {
					text := "something else"
					if i, ok := rd.(Iface); ok {
						rd = i.V
					}
					if p, ok := rd.(Ptr); ok && x.st.heap["text:"+p.Obj] != nil {
						text = x.st.heap["text:"+p.Obj].V.Key()
					}
					r.check(text == s.str("script").Key(), rule2, name+": the text", pos, "the evaluated text is %s", text)
					dir := s.inDir(l)
					r.check(dir, rule2, name+": the place", pos, "the script is placed at %s, not in the working directory", l.Key())
				} else {
					want := loc(s)
					r.check(l.Key() == want, rule2, name+": the target", pos, "the target is %s, not %s", l.Key(), want)
				}
			}
		})
	}
	what("a script", script, true, nil)
	for _, t := range []string{"doc.yisp", "-", "https://host/x.yisp"} {
		what("a script and the target "+t, func(s *Scn) []Val {
			return append(script(s), cStr("target"), s.anyStr(cStr(t)))
		}, true, nil)
	}
	for _, t := range []string{"", ".", "doc.yisp", "sub/doc.yisp", "./doc.yisp", "../up/doc.yaml", "/abs/doc.yisp", "-", "--", "https://host/x.yisp", "http://host/x.yisp?a=b", "https/doc.yisp", "httpd.yisp"} {
		for _, empty := range []bool{false, true} {
			what(fmt.Sprintf("the target %q, an empty script %v", t, empty), func(s *Scn) []Val {
				var out []Val
				if empty {
					out = append(out, cStr("yisp"), s.anyStr(cStr("")))
				}
				if t != "" || empty {
					out = append(out, cStr("target"), s.anyStr(cStr(t)))
				}
				return out
			}, false, func(s *Scn) string {
				if t == "-" || strings.HasPrefix(t, "http://") || strings.HasPrefix(t, "https://") {
					return cStr(t).Key()
				}
				if t == "" {
					return s.clean(cStr(".")).Key()
				}
				return s.clean(cStr(t)).Key()
			})
		}
	}
	what("no configuration", nil, false, func(s *Scn) string { return s.clean(cStr(".")).Key() })

	// the permission
	rule3 := "untyped manifests are allowed exactly when the configuration says so"
	for _, on := range []int{-1, 0, 1} {
		for _, how := range []string{"a script", "a target", "neither", "both"} {
			name := []string{"not given", "false", "true"}[on+1] + " with " + how
			r.guard(rule3, name, func() {
				s, found, _ := reach("untyped manifests "+name, func(s *Scn) []Val {
					var v []Val
					if how == "a script" || how == "both" {
						v = script(s)
					}
					if how == "a target" || how == "both" {
						v = append(v, cStr("target"), s.anyStr(cStr("doc.yisp")))
					}
					if on >= 0 {
						v = append(v, cStr("allowUntypedManifest"), s.anyBool(cBool(on == 1)))
					}
					return v
				}, func(s *Scn) []Val { return []Val{} })
				r.check(len(found) > 0, rule3, name, "", "nothing is evaluated")
				for _, x := range found {
					et := x.fn.Signature.Recv().Type()
					s.St = x.st.clone()
					d := s.disk()
					d.quiet = true
					d.exists = func(Val) bool { return false }
					d.status = cInt(404)
					s.json(nil)
					n := s.mapNode("m", cStr("apiVersion"), s.strNode("av", cStr("apps/v1")), cStr("kind"), s.strNode("kd", cStr("Deployment")))
					s.exp(r, rule3, name+": a manifest whose type is unknown", s.run(s.engMethod(et, "Eval"), x.e, n, s.env("env", nil), cInt(w.T.ModeEval)), func(o Outcome) string {
						if on == 1 {
							return s.noErr(o)
						}
						if s.isErr(o) != 1 {
							return "a manifest whose type is unknown is accepted"
						}
						return ""
					})
				}
			})
		}
	}
	rule4 := "without the permission documents are checked against their types"
	for _, how := range []string{"a script", "a target"} {
		for _, on := range []int{-1, 0} {
			for _, bad := range []bool{false, true} {
				name := fmt.Sprintf("%s, permission %s, a document that violates its type %v", how, []string{"not given", "false"}[on+1], bad)
				r.guard(rule4, name, func() {
					s, found, _ := reach(name, func(s *Scn) []Val {
						v := []Val{cStr("target"), s.anyStr(cStr("doc.yisp"))}
						if how == "a script" {
							v = script(s)
						}
						if on >= 0 {
							v = append(v, cStr("allowUntypedManifest"), s.anyBool(cBool(false)))
						}
						return v
					}, func(s *Scn) []Val { return []Val{} })
					r.check(len(found) > 0, rule4, name, "", "nothing is evaluated")
					for _, x := range found {
						s.St = x.st.clone()
						t := s.strNode("t", s.ident("t"))
						if bad {
							t = s.intNode("t", s.sym("t", intT))
						}
						s.setField(t, "Type", s.schema("tt", map[string]Val{"Type": cStr("string")}))
						root := s.node("docs", "Array", s.arr(s.mapNode("m", cStr("a"), t)), "IsDocumentRoot", cBool(true))
						s.disk().quiet = true
						s.encoder(-1)
						s.In.Hooks = append([]Hook{w.mock("Run", func(c *Call, n int, a []Val) []Outcome { return ret1(c, root, Nil{}) })}, s.In.Hooks...)
						s.exp(r, rule4, name, s.run(x.fn, append([]Val{x.e}, x.a...)...), func(o Outcome) string {
							if !bad {
								return s.noErr(o)
							}
							if s.isErr(o) != 1 {
								return "a document that violates its type is rendered"
							}
							return ""
						})
					}
				})
			}
		}
	}
}

// inDir tells whether a path is a file directly in the working directory.
func (s *Scn) inDir(v Val) bool {
	s.wd()
	q := &standIn{s.St, map[string]Val{}}
	t, ok := q.text(s.clean(v))
	dir, ok2 := q.text(s.clean(cStr(".")))
	return ok && ok2 && filepath.Dir(t) == dir
}
