package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C25", Min: 400, Rule: "The options in the documentation are looked up among the options the build command registers, with their defaults. The build command is analysed with every combination of its switches up to the evaluation it asks for; the engine it made is then analysed on documents that show each option's effect (a manifest without a known type, a value that violates its type, a function in the result, source comments, traces, a command to run), and each effect must appear exactly when its switch is on. The method asked for and the text printed must be those of the output format; other formats must end in an error.", Run: runC25})
}

var docFlag = regexp.MustCompile("^- `--([a-z-]+)`(?:, `-([a-z])`)?:(.*)")

func runC25(r *Report) {
	w := r.W()
	b, err := os.ReadFile(filepath.Join(w.P.Repo, "docs/getting-started.md"))
	if err != nil {
		anchorf("%v", err)
	}
	var names []string
	func() {
		s := w.scn("documented options")
		c := s.cli()
		p, ok := c.cmds["build"]
		if !ok {
			anchorf("there is no build command")
		}
		flags := c.flags[p.Obj]
		for _, l := range strings.Split(string(b), "\n") {
			m := docFlag.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			names = append(names, m[1])
			f := flags[m[1]]
			if !r.check(f != nil, "documented options exist", m[1], "", "the build command has no option --%s", m[1]) {
				continue
			}
			r.check(m[2] == f.short, "documented options exist", m[1]+" shorthand", "", "the shorthand of --%s is -%s instead of -%s", m[1], f.short, m[2])
			def := cBool(false)
			if f.kind == "String" {
				_, d, ok := strings.Cut(m[3], "default: `")
				d, _, _ = strings.Cut(d, "`")
				if !ok {
					anchorf("no default documented for --%s", m[1])
				}
				def = cStr(d)
			}
			r.check(f.def.Key() == def.Key(), "options default to off", m[1], "", "--%s defaults to %s instead of %s", m[1], f.def.Key(), def.Key())
		}
		if len(names) < 7 {
			anchorf("only %d options documented", len(names))
		}
		// shorthands may not collide
		seen := map[string]string{}
		for _, f := range flags {
			if f.short != "" {
				r.check(seen[f.short] == "", "documented options exist", "shorthand -"+f.short, "", "used twice")
				seen[f.short] = f.name
			}
		}
	}()
	switches := []string{"allow-untyped-manifest", "disable-type-check", "render-special-objects", "enable-sourcemap", "show-trace", "allow-cmd"}
	type at struct {
		st *State
		e  Val
		t  types.Type
		fn *ssa.Function
		a  []Val
	}
	// reach runs the command up to its evaluation.
	reach := func(s *Scn, on map[string]bool, output string) (found []at, c *cli) {
		c = s.cli()
		for _, n := range switches {
			if on[n] {
				c.values[n] = cBool(true)
			}
		}
		if output != "" {
			c.values["output"] = cStr(output)
		}
		c.values["config:allowedgopkgs"] = s.list("pkgs", types.NewSlice(strT))
		s.hook("path/filepath.Abs", func(k *Call) []Outcome { return ret1(k, k.Args[0], Nil{}) })
		s.In.Hooks = append([]Hook{func(k *Call) ([]Outcome, bool) {
			if !w.isEvaluate(k) || len(k.In.stack) == 0 || c.result != nil {
				return nil, false
			}
			found = append(found, at{k.St.clone(), k.Args[0], k.Fn.Signature.Recv().Type(), k.Fn, k.Args[1:]})
			return nil, true
		}}, s.In.Hooks...)
		c.run("build", []Val{cStr("/docs/main.yisp")})
		c.result = func(Val) bool { return false } // lets later calls through
		for i := range found {
			found[i].st.env, found[i].st.dfr = map[ssa.Value]Val{}, nil
			found[i].st.heap[logID] = &Obj{Kind: OArr, Known: true}
		}
		s.In.Events = nil
		return
	}
	prints := func(st *State) (n int) {
		l, ok := logOf(st)
		if !ok {
			anchorf("the printed text is not determined")
		}
		for _, e := range l {
			if t := e.(*Term); t.Op == "out" || t.Op == "err" {
				n++
			}
		}
		return
	}
	type effect struct {
		name string
		try  func(s *Scn, x at, on map[string]bool, r *Report)
	}
	exactly := func(s *Scn, r *Report, what string, outs []Outcome, f func(o Outcome) string) {
		s.exp(r, "each option has its effect only", what, outs, f)
	}
	manifest := func(s *Scn) Ptr {
		return s.mapNode("m", cStr("apiVersion"), s.strNode("av", cStr("apps/v1")), cStr("kind"), s.strNode("kd", cStr("Deployment")))
	}
	rendered := func(s *Scn, o Outcome) (string, *Val) {
		if m := s.noErr(o); m != "" {
			return m, nil
		}
		vs, ok := encoded(o)
		if !ok || len(vs) != 1 {
			return fmt.Sprintf("%d values are encoded", len(vs)), nil
		}
		v := vs[0]
		if i, ok := v.(Iface); ok {
			v = i.V
		}
		return "", &v
	}
	effects := []effect{
		{"untyped manifests", func(s *Scn, x at, on map[string]bool, r *Report) {
			for _, form := range []string{"manifest", "map with a schema"} {
				s.St = x.st.clone()
				d := s.disk()
				d.quiet = true
				d.exists = func(Val) bool { return false }
				d.status = cInt(404)
				s.json(nil)
				n := manifest(s)
				if form != "manifest" {
					n = s.mapNode("m", cStr("$schema"), s.strNode("id", cStr("https://example.com/s.json")), cStr("a"), s.strNode("kd", cStr("b")))
				}
				env := s.env("env", nil)
				outs := s.run(s.engMethod(x.t, "Eval"), x.e, n, env, cInt(w.T.ModeEval))
				exactly(s, r, "a "+form+" whose type is unknown", outs, func(o Outcome) string {
					if on["allow-untyped-manifest"] {
						return s.noErr(o)
					}
					if s.isErr(o) != 1 {
						return "a " + form + " whose type is unknown is accepted"
					}
					return ""
				})
			}
		}},
		{"type check", func(s *Scn, x at, on map[string]bool, r *Report) {
			for _, bad := range []bool{false, true} {
				s.St = x.st.clone()
				t := s.strNode("t", s.ident("t"))
				if bad {
					t = s.intNode("t", s.sym("t", intT))
				}
				s.setField(t, "Type", s.schema("tt", map[string]Val{"Type": cStr("string")}))
				root := s.node("docs", "Array", s.arr(s.mapNode("m", cStr("a"), t)), "IsDocumentRoot", cBool(true))
				s.disk().quiet = true
				s.encoder(-1)
				s.In.Hooks = append([]Hook{w.mock("Run", func(c *Call, n int, a []Val) []Outcome { return ret1(c, root, Nil{}) })}, s.In.Hooks...)
				outs := s.run(x.fn, append([]Val{x.e}, x.a...)...)
				exactly(s, r, fmt.Sprint("a document that violates its type: ", bad), outs, func(o Outcome) string {
					if !bad || on["disable-type-check"] || on["allow-untyped-manifest"] {
						return s.noErr(o)
					}
					if s.isErr(o) != 1 {
						return "a value that violates its type is output"
					}
					return ""
				})
			}
		}},
		{"special objects", func(s *Scn, x at, on map[string]bool, r *Report) {
			for _, form := range []string{"lambda", "type", "symbol"} {
				s.St = x.st.clone()
				s.encoder(-1)
				root := s.node("docs", "Array", s.arr(s.mapNode("m", cStr("a"), s.shape("special", form), cStr("b"), s.strNode("plain", s.ident("plain")))), "IsDocumentRoot", cBool(true))
				outs := s.run(s.engMethod(x.t, "Render"), x.e, root)
				exactly(s, r, "a "+form+" in the output", outs, func(o Outcome) string {
					m, v := rendered(s, o)
					if m != "" {
						return m
					}
					el, ok := s.In.listElems(o.St, s.yfield(o.St, *v, "Content"))
					if !ok {
						return "cannot be decided: the rendered members are not determined"
					}
					want := 2
					if on["render-special-objects"] {
						want = 4
					}
					if len(el) != want {
						return fmt.Sprintf("%d of the 2 entries are rendered", len(el)/2)
					}
					return ""
				})
			}
		}},
		{"source comments", func(s *Scn, x at, on map[string]bool, r *Report) {
			for _, form := range []string{"string", "int", "bool", "map", "strings", "null"} {
				s.St = x.st.clone()
				s.encoder(-1)
				n := s.shape("v", form)
				s.setField(n, "Attr", s.attrIn(cStr("/docs/main.yisp")))
				root := s.node("docs", "Array", s.arr(s.mapNode("doc", cStr("k0"), n)), "IsDocumentRoot", cBool(true))
				s.hook("os.Getwd", func(k *Call) []Outcome { return ret1(k, cStr("/docs"), Nil{}) })
				s.hook("path/filepath.Rel", func(k *Call) []Outcome { return ret1(k, k.Args[1], Nil{}) })
				outs := s.run(s.engMethod(x.t, "Render"), x.e, root)
				exactly(s, r, "comments of a "+form, outs, func(o Outcome) string {
					m, v := rendered(s, o)
					if m != "" {
						return m
					}
					// a block has its comment at its key
					el, ok := s.In.listElems(o.St, s.yfield(o.St, *v, "Content"))
					if !ok || len(el) != 2 {
						return "cannot be decided: the rendered member is not determined"
					}
					all, has := "", false
					for _, n := range el {
						c := s.yfield(o.St, n, "LineComment")
						if k, known := isStr(c); known && k == "" {
							continue
						}
						all += c.Key()
						has = has || strings.Contains(c.Key(), "main.yisp")
					}
					switch {
					case on["enable-sourcemap"] && !has:
						return "the source is missing in the comments " + all
					case !on["enable-sourcemap"] && all != "":
						return "there is a comment " + all
					}
					return ""
				})
			}
		}},
		{"traces", func(s *Scn, x at, on map[string]bool, r *Report) {
			for _, form := range append([]string{"parameter"}, shapes...) {
				if form == "manifest" || form == "docs" || form == "lists" {
					continue
				}
				s.St = x.st.clone()
				s.disk().quiet = true
				var n Ptr
				env := s.env("env", nil, cStr("bound"), s.strNode("bv", s.ident("bv")))
				switch form {
				case "symbol":
					n = s.node("sy", "Symbol", s.anyStr(cStr("bound")))
				case "parameter":
					ts := s.alloc("ts", w.T.TypedSym, s.strct(w.T.TypedSym, map[string]Val{"Name": cStr("p")}))
					n = s.node("pa", "Parameter", iface(ptrTo(w.T.TypedSym), ts))
				default:
					n = s.shape("v", form)
				}
				outs := s.run(s.engMethod(x.t, "Eval"), x.e, n, env, cInt(w.T.ModeQuote))
				exactly(s, r, "evaluating a "+form, outs, func(o Outcome) string {
					k := prints(o.St)
					if on["show-trace"] && k == 0 {
						return "no trace is written"
					}
					if !on["show-trace"] && k > 0 {
						return "something is written"
					}
					return ""
				})
			}
		}},
		{"commands", func(s *Scn, x at, on map[string]bool, r *Report) {
			s.processes()
			s.In.Hooks = append([]Hook{w.mock("Run", func(c *Call, n int, a []Val) []Outcome {
				return ret1(c, Ptr{"in:evaluated", "", w.T.Node}, Nil{})
			})}, s.In.Hooks...)
			props := s.mapNode("props", cStr("cmd"), s.strNode("c", s.str("program")))
			outs := s.applyOn(x.e, x.t, s.strNode("car", cStr("exec.cmd")), w.T.ModeEval, props)
			asked := false
			for _, o := range outs {
				l, _ := logOf(o.St)
				for _, e := range l {
					if op := e.(*Term).Op; op == "confirmed" || op == "not confirmed" {
						asked = true
					}
				}
			}
			exactly(s, r, "running a command", outs, func(o Outcome) string {
				if on["allow-cmd"] == asked {
					return fmt.Sprintf("a confirmation is asked for: %v", asked)
				}
				return ""
			})
		}},
	}
	type job struct {
		on  map[string]bool
		out string
	}
	var jobs []job
	for m := 0; m < 1<<len(switches); m++ {
		on := map[string]bool{}
		for i, n := range switches {
			on[n] = m>>i&1 == 1
		}
		jobs = append(jobs, job{on, ""}, job{on, "json"})
	}
	r.parallel(len(jobs), func(i int, r *Report) {
		j := jobs[i]
		var l []string
		for _, n := range switches {
			if j.on[n] {
				l = append(l, "--"+n)
			}
		}
		if j.out != "" {
			l = append(l, "--output "+j.out)
		}
		name := "build " + strings.Join(l, " ")
		for _, ef := range effects {
			r.guard("each option has its effect only", name+": "+ef.name, func() {
				w := r.W()
				s := w.scn(name)
				found, _ := reach(s, j.on, j.out)
				if !r.check(len(found) == 1, "the document is evaluated once", name+" "+ef.name, "", "%d evaluations", len(found)) {
					return
				}
				s.St = found[0].st.clone()
				s.In.Hooks = append([]Hook{}, s.In.Hooks...)
				ef.try(s, found[0], j.on, r)
			})
		}
	})
	for _, out := range []string{"", "yaml", "json", "xml", "YAML", "yml", "Json", "json ", "y"} {
		r.guard("output formats", out, func() {
			s := w.scn("output format " + out)
			s.initLog()
			c := s.cli()
			if out != "" {
				c.values["output"] = cStr(out)
			}
			var asked []string
			c.result = func(v Val) bool { return strings.Contains(v.Key(), "result") }
			s.hook("path/filepath.Abs", func(k *Call) []Outcome { return ret1(k, k.Args[0], Nil{}) })
			s.hook(jsonPkg+".MarshalIndent "+jsonPkg+".Marshal", func(k *Call) []Outcome {
				return ret1(k, mkTerm("json", k.Sig.Results().At(0).Type(), k.Args[0]), Nil{})
			})
			docs := iface(w.T.AnySlice, s.list("docs", w.T.AnySlice, s.anyStr(s.str("result"))))
			s.In.Hooks = append([]Hook{func(k *Call) ([]Outcome, bool) {
				if !w.isEvaluate(k) || len(k.In.stack) == 0 {
					return nil, false
				}
				t := k.Sig.Results().At(0).Type()
				asked = append(asked, t.String())
				if types.Identical(t, strT) {
					return ret1(k, s.str("result"), Nil{}), true
				}
				return ret1(k, docs, Nil{}), true
			}}, s.In.Hooks...)
			outs := c.run("build", []Val{cStr("/docs/main.yisp")})
			pos, _ := s.where()
			text := ""
			for _, o := range outs {
				l, _ := logOf(o.St)
				for _, e := range l {
					if t := e.(*Term); t.Op == "out" {
						text += logKeys(t.Args)
					}
				}
			}
			known := out == "" || out == "yaml" || out == "json"
			const rule = "output formats"
			if !known {
				r.check(len(outs) == 0 && len(c.ends) > 0, rule, out, pos, "the output format %q is accepted", out)
				return
			}
			isJSON := strings.Contains(text, "json(")
			r.check(text != "" && isJSON == (out == "json"), rule, out, pos, "the output format %q prints %s", out, text)
		})
	}
}
