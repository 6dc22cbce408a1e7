package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C10", Min: 30, Rule: "Each command's function, found through the command definitions, is analysed with every call out of the command package (and every start of a process, and the writing of the result) both failing and succeeding. A path on which something failed must end in a non-zero exit status or a panic, after a message, and without having printed the result; a path on which nothing failed must return, with the result printed. The function that starts the command line must exit with a failure when the command line fails.", Run: runC10})
}

// verdict checks the endings of a command.
func (c *cli) verdict(r *Report, construct string, outs []Outcome, fine bool, want func(printed []Val) string) {
	s := c.s
	failure := func(l []Val) (string, int) {
		for i, e := range l {
			if t := e.(*Term); t.Op == "FAIL" || t.Op == "command fails" || t.Op == "not confirmed" {
				if t.Op == "FAIL" {
					return strings.Trim(t.Args[0].Key(), "\"#"), i
				}
				return t.Op, i
			}
		}
		return "", -1
	}
	printed := func(l []Val) (out []Val) {
		for _, e := range l {
			if t := e.(*Term); t.Op == "out" {
				out = append(out, t)
			}
		}
		return
	}
	pos, _ := s.where()
	fail := func(f string, a ...any) { r.fail("failing commands exit with failure", construct, pos, f, a...) }
	steps := map[string]bool{}
	good := false
	for _, o := range outs {
		l, ok := logOf(o.St)
		if !ok {
			fail("cannot be decided: the steps of a path are not determined")
			return
		}
		if f, _ := failure(l); f != "" {
			fail("the command succeeds although %s failed", f)
			return
		}
		if !fine {
			fail("the command succeeds: %s", logKeys(l))
			return
		}
		if m := want(printed(l)); m != "" {
			fail("%s", m)
			return
		}
		good = true
	}
	for _, e := range c.ends {
		l, ok := logOf(e.St)
		if !ok {
			fail("cannot be decided: the steps of a path are not determined")
			return
		}
		f, at := failure(l)
		code, known := isInt(e.code)
		switch {
		case !known:
			fail("the exit status %s is not determined", e.code.Key())
			return
		case code == 0 && (f != "" || !fine):
			fail("the exit status is 0 although %s failed", f)
			return
		case code == 0:
			if m := want(printed(l)); m != "" {
				fail("%s", m)
				return
			}
			good = true
			continue
		case f == "" && fine:
			fail("the command fails (%s) though nothing failed: %s", e.how, logKeys(l))
			return
		}
		if f != "" {
			steps[f] = true
		}
		if f == "writing the output" {
			continue
		}
		for _, p := range printed(l) {
			for _, a := range p.(*Term).Args {
				if c.result != nil && c.result(a) {
					fail("the result is printed although %s failed", f)
					return
				}
			}
		}
		told := strings.HasPrefix(e.how, "panic")
		for i, x := range l {
			told = told || i > at && x.(*Term).Op == "err"
		}
		if !told {
			fail("no message says that %s failed", f)
			return
		}
	}
	if fine && !good {
		fail("the command never succeeds")
		return
	}
	r.ok("failing commands exit with failure", construct, pos)
	var n []string
	for f := range steps {
		n = append(n, f)
	}
	sortStrings(n)
	for _, f := range n {
		r.ok("a failure of this step is reported", construct+": "+f, pos)
	}
}

func (w *World) isEvaluate(k *Call) bool {
	return k.Fn != nil && k.Fn.Signature.Recv() != nil && strings.HasPrefix(k.Fn.Name(), "Evaluate") && fnPkg(k.Fn) == w.P.pkg("engine").Pkg
}

func runC10(r *Report) {
	w := r.W()
	type cse struct {
		name, cmd string
		args      func(s *Scn) []Val
		values    func(s *Scn) map[string]Val
		fine      bool
		any       func(s *Scn) Val // the value of the evaluated document
		prep      func(s *Scn, c *cli)
		quiet     bool // nothing but progress is printed
	}
	file := func(v string) func(s *Scn) []Val { return func(s *Scn) []Val { return []Val{cStr(v)} } }
	none := func(s *Scn) []Val { return nil }
	out := func(v string) func(s *Scn) map[string]Val {
		return func(s *Scn) map[string]Val { return map[string]Val{"output": cStr(v)} }
	}
	docs := func(n int) func(s *Scn) Val {
		return func(s *Scn) Val {
			var el []Val
			for i := 0; i < n; i++ {
				el = append(el, s.anyStr(s.str(fmt.Sprint("document", i))))
			}
			return iface(w.T.AnySlice, s.list("docs", w.T.AnySlice, el...))
		}
	}
	krm := func(script, target string, items int, untyped bool) func(s *Scn, c *cli) {
		return func(s *Scn, c *cli) {
			spec := []Val{cStr("allowUntypedManifest"), s.anyBool(cBool(untyped))}
			if script != "" {
				spec = append(spec, cStr("yisp"), s.anyStr(cStr(script)))
			}
			if target != "" {
				spec = append(spec, cStr("target"), s.anyStr(cStr(target)))
			}
			var el []Val
			for i := 0; i < items; i++ {
				el = append(el, s.native(fmt.Sprint("item", i), cStr("apiVersion"), s.anyStr(cStr("v1")), cStr("kind"), s.anyStr(cStr("Pod"))))
			}
			in := s.native("krm", cStr("functionConfig"), s.native("fc", cStr("spec"), s.native("spec", spec...)), cStr("items"), iface(w.T.AnySlice, s.list("items", w.T.AnySlice, el...)))
			s.decodes(modPath+"/internal/yaml.Unmarshal", "yaml", in)
		}
	}
	kube := func(def func(s *Scn) []Val) func(s *Scn, c *cli) {
		return func(s *Scn, c *cli) {
			s.decodes(jsonPkg+".Unmarshal", "json", s.native("openapi", cStr("definitions"), s.native("defs", def(s)...)))
		}
	}
	gvk := func(s *Scn, l string, kv ...string) Val {
		var e []Val
		for i := 0; i < len(kv); i += 2 {
			e = append(e, cStr(kv[i]), s.anyStr(cStr(kv[i+1])))
		}
		return s.native(l, e...)
	}
	one := func(s *Scn, l string, g ...Val) []Val {
		e := []Val{cStr("type"), s.anyStr(cStr("object"))}
		if g != nil {
			e = append(e, cStr("x-kubernetes-group-version-kind"), iface(w.T.AnySlice, s.list(l+".gvks", w.T.AnySlice, g...)))
		}
		return []Val{cStr(l), s.native(l, e...)}
	}
	var cases []cse
	for _, f := range []string{"doc.yisp", "/abs/doc.yisp", "-", "https://host/doc.yisp"} {
		cases = append(cases,
			cse{name: "build " + f, cmd: "build", args: file(f), fine: true},
			cse{name: "build " + f + " as yaml", cmd: "build", args: file(f), values: out("yaml"), fine: true},
			cse{name: "build " + f + " as json", cmd: "build", args: file(f), values: out("json"), fine: true, any: docs(1)},
		)
	}
	for _, n := range []int{0, 2, 3} {
		cases = append(cases, cse{name: fmt.Sprintf("build as json with %d documents", n), cmd: "build", args: file("doc.yisp"), values: out("json"), any: docs(n)})
	}
	cases = append(cases, cse{name: "build as json without a document list", cmd: "build", args: file("doc.yisp"), values: out("json"), any: func(s *Scn) Val { return s.anyStr(s.str("document0")) }})
	for _, o := range []string{"xml", "", "YAML", "yml"} {
		cases = append(cases, cse{name: "build as " + o, cmd: "build", args: file("doc.yisp"), values: out(o), any: docs(1)})
	}
	for _, n := range []int{0, 1, 2} {
		for _, u := range []bool{false, true} {
			cases = append(cases,
				cse{name: fmt.Sprintf("krm with a script, %d items, untyped allowed %v", n, u), cmd: "krm", args: none, fine: true, prep: krm("script", "", n, u)},
				cse{name: fmt.Sprintf("krm without a target, %d items, untyped allowed %v", n, u), cmd: "krm", args: none, fine: true, prep: krm("", "", n, u)},
			)
		}
	}
	for _, t := range []string{"dir", "/dir", "-", "https://host/doc.yisp"} {
		cases = append(cases, cse{name: "krm with target " + t, cmd: "krm", args: none, fine: true, prep: krm("", t, 1, false)})
	}
	cases = append(cases,
		cse{name: "allow", cmd: "allow", args: func(s *Scn) []Val { return []Val{s.ident("pkg")} }, fine: true, quiet: true},
		cse{name: "cache-kube-schemas, one definition", cmd: "cache-kube-schemas", args: none, fine: true, quiet: true, prep: kube(func(s *Scn) []Val { return one(s, "io.Pod", gvk(s, "g", "group", "", "version", "v1", "kind", "Pod")) })},
		cse{name: "cache-kube-schemas, two names", cmd: "cache-kube-schemas", args: none, fine: true, quiet: true, prep: kube(func(s *Scn) []Val {
			return one(s, "io.Pod", gvk(s, "g", "group", "", "version", "v1", "kind", "Pod"), gvk(s, "h", "group", "x", "version", "v2", "kind", "Pod"))
		})},
		cse{name: "cache-kube-schemas, no name", cmd: "cache-kube-schemas", args: none, fine: true, quiet: true, prep: kube(func(s *Scn) []Val { return one(s, "io.Meta") })},
		cse{name: "cache-kube-schemas, no definition", cmd: "cache-kube-schemas", args: none, fine: true, quiet: true, prep: kube(func(s *Scn) []Val { return nil })},
		cse{name: "version", cmd: "version", args: none, fine: true, quiet: true},
	)
	for _, k := range cases {
		r.guard("failing commands exit with failure", k.name, func() {
			s := w.scn(k.name)
			s.initLog()
			c := s.cli()
			s.processes()
			s.assume(s.str("output"), cStr(""), LT|GT)
			s.hook("runtime/debug.ReadBuildInfo", func(c *Call) []Outcome {
				t := c.Sig.Results().At(0).Type()
				id := c.In.objID(c.Site, "info")
				c.In.newObj(c.St, id, &Obj{Kind: OCell, V: zeroVal(elemOf(t)), T: elemOf(t)})
				return ret1(c, Ptr{id, "", elemOf(t)}, cBool(true))
			})
			c.result = func(v Val) bool { return strings.Contains(v.Key(), "result") || strings.Contains(v.Key(), "document0") }
			if k.values != nil {
				c.values = k.values(s)
			}
			c.values["config:allowedgopkgs"] = s.list("pkgs", types.NewSlice(strT), s.str("pkg0"))
			var doc Val
			if k.any != nil {
				doc = k.any(s)
			}
			if k.prep != nil {
				k.prep(s, c)
			}
			c.fallible(func(f *Call) ([]Val, bool) {
				switch {
				case w.isEvaluate(f):
					if types.Identical(f.Sig.Results().At(0).Type(), strT) {
						return []Val{s.str("result"), Nil{}}, true
					}
					if doc != nil {
						return []Val{doc, Nil{}}, true
					}
				case strings.HasPrefix(f.Name, jsonPkg+".Marshal"):
					return []Val{mkTerm("json", f.Sig.Results().At(0).Type(), f.Args[0]), Nil{}}, true
				}
				return nil, false
			})
			outs := c.run(k.cmd, k.args(s))
			c.verdict(r, k.name, outs, k.fine, func(printed []Val) string {
				if k.quiet {
					return ""
				}
				if len(printed) != 1 {
					return fmt.Sprintf("the result is written %d times: %s", len(printed), logKeys(printed))
				}
				a := printed[0].(*Term).Args
				want := "result"
				if k.any != nil {
					want = "document0"
				}
				if len(a) == 0 || !strings.Contains(logKeys(a), want) {
					return "the printed text is not the result: " + logKeys(a)
				}
				return ""
			})
		})
	}
	r.guard("failing commands exit with failure", "the command line", func() {
		s := w.scn("the command line")
		s.initLog()
		c := s.cli()
		c.fallible(func(f *Call) ([]Val, bool) { return nil, false })
		outs := s.run(w.P.fn("cmd", "Execute"))
		for _, e := range c.ends {
			appendLog(e.St, mkTerm("err", intT)) // the library prints its errors
		}
		for _, e := range s.events("panic") {
			c.ends = append(c.ends, ending{e.St, cInt(2), "panic"})
		}
		c.verdict(r, "the command line", outs, true, func([]Val) string { return "" })
	})
	r.guard("failing commands exit with failure", "the program", func() {
		main := w.P.pkg("").Func("main")
		calls := false
		for _, b := range main.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == w.P.fn("cmd", "Execute") {
					calls = true
				}
			}
		}
		r.check(calls, "failing commands exit with failure", "the program", w.P.pos(main.Pos()), "main does not run the command line")
	})
}

// decodes makes a decoding function deliver the given document.
func (s *Scn) decodes(name, tag string, doc Val) {
	s.structTag = tag
	s.hook(name, func(c *Call) []Outcome {
		i, ok := c.Args[1].(Iface)
		p, ok2 := i.V.(Ptr)
		if !ok || !ok2 {
			anchorf("the target of %s is not determined", name)
		}
		bad := c.St.clone()
		appendLog(bad, mkTerm("FAIL", intT, cStr(name)))
		im := s.jsonInto(c, doc, elemOf(i.Dyn), false)
		if len(im) != 1 {
			anchorf("decoding by %s is not determined", name)
		}
		s.In.storePtr(im[0].St, p, im[0].Res[0], false)
		return []Outcome{{im[0].St, []Val{Nil{}}}, {bad, []Val{errVal(s, "malformed")}}}
	})
}
