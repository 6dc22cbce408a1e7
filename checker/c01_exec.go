package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C01", Min: 60, Rule: "The command operator is analysed with the permission unset, off, on, unknown, and as set by the build and krm commands for each value of their flags, with every combination of arguments, input and output form, and with the terminal answering or not. On every path a process start must come after the permission or a successful read from standard input, start exactly the named program with the named arguments and input, and a failed read or command must end in an error. Every call in the evaluation packages that starts a process must be one of those reached by the two execution operators.", Run: runC01})
	register(&Check{ID: "C02", Min: 60, Rule: "The Go-run operator is analysed on an unknown package name with allow-lists of zero to three patterns covering every character with a meaning in regular expressions, with the list missing or of a wrong type, and with the list passed on by the build command. A process may start only on paths on which the name matched an expression whose language, read off its syntax tree, is exactly that of a pattern of the list; it must be the Go tool running that very name; everything else must be an error without a start.", Run: runC02})
}

type execCase struct {
	args   int // number of arguments, -1: none given
	stdin  bool
	str    int // -1 not given, 0 false, 1 true
	fields []string
}

func execCases(all bool) (out []execCase) {
	for _, n := range []int{-1, 0, 1, 3} {
		for _, in := range []bool{false, true} {
			for _, st := range []int{-1, 0, 1} {
				if all || n == 1 || in && st == 1 {
					out = append(out, execCase{args: n, stdin: in, str: st})
				}
			}
		}
	}
	return
}

func (k execCase) String() string {
	return fmt.Sprintf("%d arguments, input %v, as string %d", k.args, k.stdin, k.str)
}

// props is the operand of an execution operator, and what should be started.
func (k execCase) props(s *Scn, key string, prog Val, prefix ...Val) (Ptr, Val, Val) {
	e := []Val{cStr(key), s.strNode("prog", prog)}
	argv := append([]Val{}, prefix...)
	if k.args >= 0 {
		var ns []Ptr
		for i := 0; i < k.args; i++ {
			v := s.str(fmt.Sprint("arg", i))
			argv = append(argv, v)
			ns = append(ns, s.strNode(fmt.Sprint("arg", i), v))
		}
		e = append(e, cStr("args"), s.arrNode("args", ns...))
	}
	in := cStr("no input")
	if k.stdin {
		in = s.str("stdin")
		e = append(e, cStr("stdin"), s.strNode("stdin", in))
	}
	if k.str >= 0 {
		e = append(e, cStr("asString"), s.node("str", "Bool", s.anyBool(cBool(k.str == 1))))
	}
	return s.mapNode("props", e...), mkTerm("argv", strT, argv...), in
}

// execScn has processes, a terminal and an evaluator for their output.
func (w *World) execScn(name string) (*Scn, *proc) {
	var s *Scn
	s = w.scn(name, w.mock("Run", func(c *Call, n int, a []Val) []Outcome {
		bad := c.St.clone()
		from := Val(cStr("something else"))
		for _, m := range []Val{a[0]} {
			if i, ok := m.(Iface); ok {
				if b, ok := i.V.(Ptr); ok {
					if o := c.St.heap["text:"+b.Obj]; o != nil {
						from = o.V
					}
				}
			}
		}
		appendLog(c.St, mkTerm("evaluate", intT, from))
		appendLog(bad, mkTerm("evaluation fails", intT))
		return []Outcome{{c.St, []Val{Ptr{"in:evaluated", "", w.T.Node}, Nil{}}}, {bad, []Val{Nil{}, errVal(s, "evaluation fails")}}}
	}))
	s.initLog()
	s.St.heap["in:evaluated"] = &Obj{Kind: OCell, V: s.strct(w.T.Node, map[string]Val{"Kind": cInt(w.T.Kind["Null"])}), T: w.T.Node}
	p := s.processes()
	return s, p
}

// judge checks the outcomes of an execution operator. permitted tells whether
// a path may start the process, given the log before the start.
func (s *Scn) judge(r *Report, rule, what string, outs []Outcome, k execCase, argv, in Val, mayStart int, permitted func(st *State, before []Val) string) {
	starts := false
	ok := s.exp(r, rule, what, outs, func(o Outcome) string {
		l, ok := logOf(o.St)
		if !ok {
			return "cannot be decided: the steps of a path are not determined"
		}
		var started, failed, evaluated *Term
		no := false
		for i, e := range l {
			t := e.(*Term)
			switch t.Op {
			case "start":
				if started != nil {
					return "two processes are started"
				}
				started = t
				if m := permitted(o.St, l[:i]); m != "" {
					return "a process is started " + m
				}
				if t.Args[0].Key() != argv.Key() {
					return "the process started is " + t.Args[0].Key() + " instead of " + argv.Key()
				}
				if t.Args[1].Key() != in.Key() {
					return "the input of the process is " + t.Args[1].Key() + " instead of " + in.Key()
				}
				if m, _ := isStr(t.Args[2]); m != "" {
					return "the process is started with" + m
				}
			case "not confirmed":
				no = true
			case "command fails", "evaluation fails":
				failed = t
			case "evaluate":
				evaluated = t
			}
		}
		if started != nil {
			starts = true
		}
		switch {
		case no && started != nil:
			return "a process is started though the confirmation failed"
		case started == nil || failed != nil:
			if s.isErr(o) != 1 {
				return "no error is returned though " + map[bool]string{true: "nothing was started", false: "the command failed"}[started == nil]
			}
			return ""
		}
		if m := s.noErr(o); m != "" {
			return "the command succeeded, but " + m
		}
		if k.str == 1 {
			if kd := s.kindOf(o.St, o.Res[0]); kd != "String" || s.value(o.St, o.Res[0]).Key() != s.str("output").Key() {
				return "the result is not the output of the command: " + s.describe(o.St, o.Res[0])
			}
			return ""
		}
		if evaluated == nil || evaluated.Args[0].Key() != s.str("output").Key() {
			return "the output of the command is not what is evaluated"
		}
		if o.Res[0].Key() != (Ptr{"in:evaluated", "", s.W.T.Node}).Key() {
			return "the result is not the evaluated output: " + s.describe(o.St, o.Res[0])
		}
		return ""
	})
	if ok && mayStart == 1 && !starts {
		pos, _ := s.where()
		r.fail(rule, what+": "+s.Name, pos, "no path starts the permitted process")
	}
	if ok && mayStart == 0 && starts {
		pos, _ := s.where()
		r.fail(rule, what+": "+s.Name, pos, "a path starts a process")
	}
}

func (s *Scn) setOption(e Val, et types.Type, key string, v Val) {
	outs := s.run(s.engMethod(et, "SetOption"), e, cStr(key), v)
	if len(outs) != 1 {
		anchorf("SetOption has %d outcomes", len(outs))
	}
	s.St = outs[0].St
}

// again goes on from a state, with an empty log.
func (s *Scn) again(st *State) {
	st = st.clone()
	st.env, st.dfr = map[ssa.Value]Val{}, nil
	st.heap[logID] = &Obj{Kind: OArr, Known: true}
	s.St = st
}

const allowKey, pkgsKey = "net.gammalab.yisp.exec.allow_cmd", "net.gammalab.yisp.exec.allowed_go_pkgs"

// confirmed: the user answered, or the given permission holds on this path.
func (s *Scn) confirmed(perm Val) func(st *State, before []Val) string {
	return func(st *State, before []Val) string {
		for _, e := range before {
			if e.(*Term).Op == "confirmed" {
				return ""
			}
		}
		if perm != nil && s.In.relate(st, perm, cBool(true)) == EQ {
			return ""
		}
		return "without permission or confirmation"
	}
}

func runC01(r *Report) {
	w := r.W()
	sites := map[ssa.Instruction]bool{}
	const rule = "commands run only with permission"
	add := func(p *proc) {
		for i := range p.sites {
			sites[i] = true
		}
	}
	for _, k := range execCases(true) {
		for _, perm := range []string{"unset", "off", "on", "unknown"} {
			r.guard(rule, k.String(), func() {
				s, p := w.execScn(k.String() + ", permission " + perm)
				props, argv, in := k.props(s, "cmd", s.str("program"), s.str("program"), s.str("program"))
				e, et := s.engine(nil)
				var pv Val
				switch perm {
				case "off", "on":
					pv = cBool(perm == "on")
				case "unknown":
					pv = s.sym("permission", boolT)
				}
				if pv != nil {
					s.setOption(e, et, allowKey, s.anyBool(pv))
				}
				outs := s.applyOn(e, et, s.strNode("car", cStr("exec.cmd")), w.T.ModeEval, props)
				s.judge(r, rule, "exec.cmd", outs, k, argv, in, 1, s.confirmed(pv))
				add(p)
			})
		}
	}
	// one confirmation is for one command
	for _, perm := range []string{"unset", "off"} {
		for _, n := range []int{1, 3} {
			r.guard(rule, "a second command", func() {
				k := execCase{args: 1, str: n - 2, stdin: n == 1}
				s, p := w.execScn(fmt.Sprintf("a command after %d others, permission %s", n, perm))
				props, argv, in := k.props(s, "cmd", s.str("program"), s.str("program"), s.str("program"))
				e, et := s.engine(nil)
				if perm == "off" {
					s.setOption(e, et, allowKey, s.anyBool(cBool(false)))
				}
				sts := []*State{s.St}
				for i := 0; i < n; i++ {
					var next []*State
					for _, st := range sts {
						s.again(st)
						for _, o := range s.applyOn(e, et, s.strNode("car", cStr("exec.cmd")), w.T.ModeEval, props) {
							if len(next) < 6 {
								next = append(next, o.St)
							}
						}
					}
					sts = next
				}
				for _, st := range sts {
					s.again(st)
					outs := s.applyOn(e, et, s.strNode("car", cStr("exec.cmd")), w.T.ModeEval, props)
					s.judge(r, rule, "exec.cmd", outs, k, argv, in, 1, s.confirmed(nil))
				}
				add(p)
			})
		}
	}
	// a permission of another type permits nothing
	for name, v := range map[string]Val{"a string": iface(strT, cStr("true")), "a number": iface(intT, cInt(1)), "null": Nil{}} {
		r.guard(rule, "permission is "+name, func() {
			k := execCase{args: 1}
			s, p := w.execScn("permission is " + name)
			props, argv, in := k.props(s, "cmd", s.str("program"), s.str("program"), s.str("program"))
			e, et := s.engine(nil)
			s.setOption(e, et, allowKey, v)
			outs := s.applyOn(e, et, s.strNode("car", cStr("exec.cmd")), w.T.ModeEval, props)
			s.judge(r, rule, "exec.cmd", outs, k, argv, in, -1, s.confirmed(nil))
			add(p)
		})
	}
	// the command line
	for _, cmd := range []string{"build", "krm"} {
		for _, given := range []int{-1, 0, 1} {
			if cmd == "krm" && given >= 0 {
				continue
			}
			for _, other := range []bool{false, true} {
				r.guard(rule, "through "+cmd, func() {
					k := execCase{args: 1}
					s, p := w.execScn(fmt.Sprintf("through %s, permission flag %d, other flags %v", cmd, given, other))
					props, argv, in := k.props(s, "cmd", s.str("program"), s.str("program"), s.str("program"))
					n := 0
					s.viaCommand(cmd, func(c *cli) {
						c.values["stdin"] = s.native("krm", cStr("functionConfig"), s.native("fc", cStr("spec"), s.native("spec", cStr("allowUntypedManifest"), s.anyBool(cBool(other)), cStr("allowCmd"), s.anyBool(cBool(other)))))
						for _, f := range c.flags[c.cmds[cmd].Obj] {
							if f.kind == "Bool" {
								c.values[f.name] = cBool(other)
							}
						}
						delete(c.values, "allow-cmd")
						if given >= 0 {
							c.values["allow-cmd"] = cBool(given == 1)
						}
					}, func(st *State, e Val, et types.Type) {
						n++
						s.St = st
						outs := s.applyOn(e, et, s.strNode("car", cStr("exec.cmd")), w.T.ModeEval, props)
						s.judge(r, rule, "exec.cmd through "+cmd, outs, k, argv, in, 1, s.confirmed(cBool(given == 1)))
					})
					r.check(n > 0, rule, "engine of "+cmd, "", "the command reaches no evaluation")
					add(p)
				})
			}
		}
	}
	// the other operator
	r.guard(rule, "exec.go", func() {
		s, p := w.execScn("with an allowed package")
		k := execCase{args: 1, stdin: true}
		props, _, _ := k.props(s, "pkg", s.str("pkg"))
		e, et := s.engine(nil)
		s.setOption(e, et, pkgsKey, iface(types.NewSlice(strT), s.list("pkgs", types.NewSlice(strT), cStr("*"))))
		s.regexps()
		s.applyOn(e, et, s.strNode("car", cStr("exec.go")), w.T.ModeEval, props)
		add(p)
	})
	found := w.startSites()
	if len(found) < 1 {
		anchorf("only %d calls that start processes", len(found))
	}
	for i, f := range found {
		r.check(sites[i], "processes are started only by the execution operators", f, w.P.instrPos(i), "%s starts a process outside the execution operators", f)
	}
}

// viaCommand runs a command up to its evaluation and hands over the engine
// it made.
func (s *Scn) viaCommand(cmd string, setup func(c *cli), f func(st *State, e Val, et types.Type)) {
	c := s.cli()
	setup(c)
	type at struct {
		st *State
		e  Val
		t  types.Type
	}
	var found []at
	s.decodesQuietly(modPath+"/internal/yaml.Unmarshal", "yaml", c.values["stdin"])
	s.In.Hooks = append([]Hook{func(k *Call) ([]Outcome, bool) {
		if !s.W.isEvaluate(k) || len(k.In.stack) == 0 {
			return nil, false
		}
		found = append(found, at{k.St.clone(), k.Args[0], k.Fn.Signature.Recv().Type()})
		return nil, true
	}}, s.In.Hooks...)
	n := len(s.In.Hooks)
	c.fallible(func(k *Call) ([]Val, bool) { return nil, false })
	c.run(cmd, []Val{cStr("/docs/main.yisp")})
	s.In.Events = nil
	s.In.Hooks = s.In.Hooks[1:n]
	for _, x := range found {
		st := x.st
		st.env, st.dfr = map[ssa.Value]Val{}, nil
		st.heap[logID] = &Obj{Kind: OArr, Known: true}
		f(st, x.e, x.t)
	}
}

func (s *Scn) decodesQuietly(name, tag string, doc Val) {
	if doc == nil {
		doc = s.native("empty")
	}
	s.structTag = tag
	s.hook(name, func(c *Call) []Outcome {
		i, ok := c.Args[1].(Iface)
		p, ok2 := i.V.(Ptr)
		if !ok || !ok2 {
			anchorf("the target of %s is not determined", name)
		}
		im := s.jsonInto(c, doc, elemOf(i.Dyn), false)
		if len(im) != 1 {
			anchorf("decoding by %s is not determined", name)
		}
		s.In.storePtr(im[0].St, p, im[0].Res[0], false)
		return []Outcome{{im[0].St, []Val{Nil{}}}}
	})
}

// regexps models matching against expressions whose text is known: the
// outcome is the term match(expression, subject).
func (s *Scn) regexps() {
	expr := func(c *Call, v Val) (Val, bool) { k, ok := isStr(v); return cStr(k), ok }
	match := func(c *Call, re, x Val, more ...Val) []Outcome {
		if i, ok := x.(*Term); ok && i.Op == "conv:stringtobytes" {
			x = i.Args[0]
		}
		no := c.St.clone()
		appendLog(c.St, mkTerm("matches", boolT, re, x))
		appendLog(no, mkTerm("differs", boolT, re, x))
		return []Outcome{{c.St, append([]Val{cBool(true)}, more...)}, {no, append([]Val{cBool(false)}, more...)}}
	}
	s.hook("regexp.MatchString regexp.Match", func(c *Call) []Outcome {
		re, ok := expr(c, c.Args[0])
		if !ok {
			anchorf("a regular expression is not determined: %s", c.Args[0].Key())
		}
		if _, err := syntax.Parse(mustStr(re), syntax.Perl); err != nil {
			return ret1(c, cBool(false), errVal(s, "bad expression"))
		}
		return match(c, re, c.Args[1], Nil{})
	})
	s.hook("regexp.Compile regexp.MustCompile", func(c *Call) []Outcome {
		re, ok := expr(c, c.Args[0])
		if !ok {
			anchorf("a regular expression is not determined: %s", c.Args[0].Key())
		}
		t := c.Sig.Results().At(0).Type()
		v := []Val{mkTerm("nonnil", t, mkTerm("re", strT, re))}
		if c.Sig.Results().Len() > 1 {
			v = append(v, Nil{})
		}
		return ret1(c, v...)
	})
	s.hook("(*regexp.Regexp).MatchString (*regexp.Regexp).Match", func(c *Call) []Outcome {
		if t, ok := c.Args[0].(*Term); ok && t.Op == "nonnil" {
			return match(c, t.Args[0].(*Term).Args[0], c.Args[1])
		}
		anchorf("a regular expression is not determined")
		return nil
	})
}

func mustStr(v Val) string { k, _ := isStr(v); return k }

// tokens reads an expression as a sequence of literal characters and
// "anything" (written *); ok is false for other expressions and for those
// that do not have to match as a whole.
func tokens(expr string) (string, bool) {
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return "", false
	}
	var b strings.Builder
	var walk func(re *syntax.Regexp) bool
	begin, end := false, false
	walk = func(re *syntax.Regexp) bool {
		switch re.Op {
		case syntax.OpEmptyMatch:
		case syntax.OpBeginText:
			if b.Len() > 0 {
				return false
			}
			begin = true
		case syntax.OpEndText:
			end = true
		case syntax.OpLiteral:
			if end || !begin || re.Flags&syntax.FoldCase != 0 {
				return false
			}
			for _, x := range re.Rune {
				if x == '*' {
					b.WriteString("\\*")
				} else if x == '\\' {
					b.WriteString("\\\\")
				} else {
					b.WriteRune(x)
				}
			}
		case syntax.OpStar:
			if end || !begin || re.Sub[0].Op != syntax.OpAnyChar && re.Sub[0].Op != syntax.OpAnyCharNotNL {
				return false
			}
			if !strings.HasSuffix(b.String(), "\x00") {
				b.WriteString("\x00")
			}
		case syntax.OpConcat, syntax.OpCapture:
			for _, x := range re.Sub {
				if !walk(x) {
					return false
				}
			}
		default:
			return false
		}
		return true
	}
	if !walk(re) || !begin || !end {
		return "", false
	}
	return b.String(), true
}

// wildcard is the same for an allow-list pattern.
func wildcard(p string) string {
	var b strings.Builder
	for _, x := range p {
		switch {
		case x == '*':
			if !strings.HasSuffix(b.String(), "\x00") {
				b.WriteString("\x00")
			}
		case x == '\\':
			b.WriteString("\\\\")
		default:
			b.WriteRune(x)
		}
	}
	return b.String()
}

func runC02(r *Report) {
	w := r.W()
	const rule = "packages run only when allow-listed"
	pats := []string{"github.com/a/b@v1.2.3", "github.com/a/*", "*", "*/cmd", "a*b*c", "**", "", "a.b", "a+b", "a?b", "a|b", "(a)", "[ab]", "a{2}", "^a", "a$", `a\b`, `a\*b`, `\*`, `a\`, "a b", "a.*", "ä*ö", ".*", "a|*", "(?i)a", "*@latest", "x/*/y@*", "$", "^", "a\\Qb", "%s", "./local", "-exec=x"}
	var lists [][]string
	lists = append(lists, nil)
	for i, p := range pats {
		lists = append(lists, []string{p}, []string{pats[(i+1)%len(pats)], p}, []string{"github.com/never/this", p, "*/or.that"})
	}
	strs := types.NewSlice(strT)
	goCase := func(s *Scn, k execCase, e Val, et types.Type, pkg Val, list []string, what string) {
		props, argv, in := k.props(s, "pkg", pkg, s.ident("go"), s.ident("go"), pkg)
		t := argv.(*Term)
		t = mkTerm("argv", strT, append([]Val{cStr("go"), cStr("go"), cStr("run")}, t.Args[2:]...)...).(*Term)
		langs := map[string]bool{}
		for _, p := range list {
			langs[wildcard(p)] = true
		}
		outs := s.applyOn(e, et, s.strNode("car", cStr("exec.go")), w.T.ModeEval, props)
		may := 1
		if len(list) == 0 {
			may = 0
		}
		s.judge(r, rule, what, outs, k, t, in, may, func(st *State, before []Val) string {
			for _, e := range before {
				m := e.(*Term)
				if m.Op != "matches" || m.Args[1].Key() != pkg.Key() {
					continue
				}
				l, ok := tokens(mustStr(m.Args[0]))
				if ok && langs[l] {
					return ""
				}
			}
			for _, p := range list {
				if s.In.relate(st, pkg, cStr(p)) == EQ {
					return ""
				}
			}
			return "for a package that matches none of the allowed patterns: " + clip(logKeys(before))
		})
		// a name that matches is not refused
		for _, o := range outs {
			l, _ := logOf(o.St)
			matched, started := Val(nil), false
			for _, e := range l {
				switch m := e.(*Term); m.Op {
				case "matches":
					matched = m.Args[0]
				case "start":
					started = true
				}
			}
			if matched != nil && !started {
				pos, _ := s.where()
				r.fail("allowed packages are run", what+": "+s.Name, pos, "a package that matches %s is refused", matched.Key())
				return
			}
		}
		pos, _ := s.where()
		r.ok("allowed packages are run", what+": "+s.Name, pos)
	}
	for _, list := range lists {
		r.guard(rule, fmt.Sprintf("list %q", list), func() {
			s, _ := w.execScn(fmt.Sprintf("allow-list %q", list))
			s.regexps()
			e, et := s.engine(nil)
			var el []Val
			for _, p := range list {
				el = append(el, cStr(p))
			}
			s.setOption(e, et, pkgsKey, iface(strs, s.list("pkgs", strs, el...)))
			s.setOption(e, et, allowKey, s.anyBool(cBool(true)))
			goCase(s, execCase{args: 1}, e, et, s.str("pkg"), list, "exec.go")
		})
	}
	for _, k := range execCases(true) {
		r.guard(rule, k.String(), func() {
			s, _ := w.execScn(k.String())
			s.regexps()
			e, et := s.engine(nil)
			s.setOption(e, et, pkgsKey, iface(strs, s.list("pkgs", strs, cStr("github.com/a/*"))))
			goCase(s, k, e, et, s.str("pkg"), []string{"github.com/a/*"}, "exec.go")
		})
	}
	for name, v := range map[string]Val{"missing": nil, "a string": iface(strT, cStr("*")), "null": Nil{}, "a list of anything": iface(w.T.AnySlice, Slice{T: w.T.AnySlice, Known: true}), "a number": iface(intT, cInt(1))} {
		r.guard(rule, "allow-list "+name, func() {
			s, _ := w.execScn("allow-list is " + name)
			s.regexps()
			e, et := s.engine(nil)
			if v != nil {
				if i, ok := v.(Iface); ok && types.Identical(i.Dyn, w.T.AnySlice) {
					v = iface(w.T.AnySlice, s.list("pkgs", w.T.AnySlice, s.anyStr(cStr("*"))))
				}
				s.setOption(e, et, pkgsKey, v)
			}
			goCase(s, execCase{args: 1}, e, et, s.str("pkg"), nil, "exec.go")
		})
	}
	// one package that ran is no leave for another
	for _, first := range []string{"exec.go", "exec.cmd"} {
		r.guard(rule, "a second package", func() {
			s, _ := w.execScn("a package after an " + first)
			s.regexps()
			e, et := s.engine(nil)
			s.setOption(e, et, pkgsKey, iface(strs, s.list("pkgs", strs, cStr("github.com/a/*"))))
			s.setOption(e, et, allowKey, s.anyBool(cBool(true)))
			k := execCase{args: 1, str: 1}
			props, _, _ := k.props(s, map[string]string{"exec.go": "pkg", "exec.cmd": "cmd"}[first], s.str("other"))
			for i, o := range s.applyOn(e, et, s.strNode("car", cStr(first)), w.T.ModeEval, props) {
				if i < 6 {
					s.again(o.St)
					goCase(s, k, e, et, s.str("pkg"), []string{"github.com/a/*"}, "exec.go")
				}
			}
		})
	}
	// the list passed on by the commands
	for _, cmd := range []string{"build", "krm"} {
		for _, list := range [][]string{nil, {"github.com/a/*"}} {
			for _, perm := range []bool{false, true} {
				r.guard(rule, "through "+cmd, func() {
					s, _ := w.execScn(fmt.Sprintf("through %s with list %q, commands allowed %v", cmd, list, perm))
					s.regexps()
					n := 0
					s.viaCommand(cmd, func(c *cli) {
						var el []Val
						for _, p := range list {
							el = append(el, cStr(p))
						}
						c.values["config:allowedgopkgs"] = s.list("pkgs", strs, el...)
						c.values["allow-cmd"] = cBool(perm)
					}, func(st *State, e Val, et types.Type) {
						n++
						s.St = st
						l := list
						if cmd == "krm" {
							l = nil
						}
						goCase(s, execCase{args: 1}, e, et, s.str("pkg"), l, "exec.go through "+cmd)
					})
					r.check(n > 0, rule, "engine of "+cmd, "", "the command reaches no evaluation")
				})
			}
		}
	}
}
