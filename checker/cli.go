package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The command line: flags are recorded by running the initialisation of the
// command package, and commands are run on chosen flag values.

const (
	cobraPkg = "github.com/spf13/cobra"
	pflagPkg = "github.com/spf13/pflag"
	viperPkg = "github.com/spf13/viper"
)

type flagDef struct {
	name, short string
	def         Val
	kind        string // bool, string, ...
	ptr         Ptr
}

type ending struct {
	St   *State
	code Val
	how  string
}

type cli struct {
	s      *Scn
	flags  map[string]map[string]*flagDef // command object -> name
	cmds   map[string]Ptr
	values map[string]Val   // given flags of the command that is run
	ends   []ending         // paths that end the process
	result func(v Val) bool // tells which values are the result of the command
}

func (s *Scn) cli() *cli {
	c := &cli{s: s, flags: map[string]map[string]*flagDef{}, cmds: map[string]Ptr{}, values: map[string]Val{}}
	w := s.W
	owner := func(v Val) string {
		if t, ok := v.(*Term); ok && t.Op == "nonnil" && len(t.Args) == 1 {
			if x, ok := t.Args[0].(*Term); ok && x.Op == "flags" {
				k, _ := isStr(x.Args[0])
				return k
			}
		}
		return ""
	}
	lookup := func(v Val, name string) *flagDef { return c.flags[owner(v)][name] }
	value := func(f *flagDef) Val {
		if v, ok := c.values[f.name]; ok {
			return v
		}
		return f.def
	}
	s.In.Hooks = append([]Hook{func(k *Call) ([]Outcome, bool) {
		switch k.Name {
		case "(*" + cobraPkg + ".Command).Flags", "(*" + cobraPkg + ".Command).PersistentFlags", "(*" + cobraPkg + ".Command).LocalFlags":
			p, ok := k.Args[0].(Ptr)
			if !ok {
				anchorf("the command whose flags are used is not determined")
			}
			return ret1(k, mkTerm("nonnil", k.Sig.Results().At(0).Type(), mkTerm("flags", strT, cStr(p.Obj)))), true
		case "os.Exit":
			c.ends = append(c.ends, ending{k.St.clone(), k.Args[0], "exit"})
			return nil, true
		case viperPkg + ".GetStringSlice":
			if key, ok := isStr(k.Args[0]); ok {
				if v, ok := c.values["config:"+strings.ToLower(key)]; ok {
					return ret1(k, v), true
				}
			}
			return nil, false
		case "fmt.Println", "fmt.Print", "fmt.Printf":
			return c.print(k, "out", k.Args), true
		case "fmt.Fprintln", "fmt.Fprint", "fmt.Fprintf", "io.WriteString":
			switch c.stream(k.Args[0]) {
			case "Stdout":
				return c.print(k, "out", k.Args[1:]), true
			case "Stderr":
				return c.print(k, "err", k.Args[1:]), true
			}
		case "(*os.File).WriteString", "(*os.File).Write":
			switch c.stream(k.Args[0]) {
			case "Stdout":
				return c.print(k, "out", k.Args[1:]), true
			case "Stderr":
				return c.print(k, "err", k.Args[1:]), true
			}
		}
		pre := "(*" + pflagPkg + ".FlagSet)."
		if !strings.HasPrefix(k.Name, pre) {
			return nil, false
		}
		m := strings.TrimPrefix(k.Name, pre)
		if strings.HasPrefix(m, "Get") {
			n, ok := isStr(k.Args[1])
			if !ok {
				anchorf("the name of a flag is not determined")
			}
			f := lookup(k.Args[0], n)
			t := k.Sig.Results().At(0).Type()
			if f == nil || !strings.EqualFold(f.kind, m[3:]) {
				return ret1(k, zeroVal(t), errVal(s, "no such flag "+n)), true
			}
			return ret1(k, value(f), Nil{}), true
		}
		if m == "Changed" {
			n, _ := isStr(k.Args[1])
			_, given := c.values[n]
			return ret1(k, cBool(given)), true
		}
		for _, kind := range []string{"Bool", "String"} {
			rest := strings.TrimPrefix(m, kind)
			if rest == m || strings.Trim(rest, "VarP") != "" {
				continue
			}
			a := k.Args[1:]
			f := &flagDef{kind: kind}
			if strings.Contains(rest, "Var") {
				p, ok := a[0].(Ptr)
				if !ok {
					anchorf("the variable of a flag is not determined")
				}
				f.ptr, a = p, a[1:]
			}
			f.name, _ = isStr(a[0])
			a = a[1:]
			if strings.HasSuffix(rest, "P") {
				f.short, _ = isStr(a[0])
				a = a[1:]
			}
			f.def = a[0]
			o := owner(k.Args[0])
			if c.flags[o] == nil {
				c.flags[o] = map[string]*flagDef{}
			}
			c.flags[o][f.name] = f
			if strings.Contains(rest, "Var") {
				k.In.storePtr(k.St, f.ptr, f.def, false)
				return ret1(k), true
			}
			t := elemOf(k.Sig.Results().At(0).Type())
			id := "flag:" + o + "." + f.name
			k.St.heap[id] = &Obj{Kind: OCell, V: f.def, T: t}
			f.ptr = Ptr{id, "", t}
			return ret1(k, f.ptr), true
		}
		return nil, false
	}}, s.In.Hooks...)
	// initialise the package again, recording flags
	sp := w.P.pkg("cmd")
	if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
		s.St.heap["global:"+g.String()] = &Obj{Kind: OCell, V: cBool(false), T: boolT}
	}
	outs := s.run(sp.Func("init"))
	if len(outs) != 1 {
		anchorf("the initialisation of the commands has %d outcomes", len(outs))
	}
	s.St = outs[0].St
	s.St.env, s.St.dfr = map[ssa.Value]Val{}, nil
	ct := w.P.extType(cobraPkg, "Command")
	var ids []string
	for id, o := range s.St.heap {
		if o.Kind == OCell && o.T != nil && types.Identical(o.T, ct) {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		p := Ptr{id, "", ct}
		use, _ := isStr(s.field(s.St, p, ct, "Use"))
		name, _, _ := strings.Cut(use, " ")
		if name == "" || w.Base.heap[id] != nil {
			continue
		}
		c.cmds[name] = p
		if os.Getenv("CHECK_DEBUG") == "cli" {
			fmt.Fprintln(os.Stderr, name, id, len(c.flags[id]))
		}
	}
	return c
}

func (c *cli) stream(v Val) string {
	for _, n := range []string{"Stdout", "Stderr"} {
		k := c.s.global("os", n).Key()
		if v.Key() == k {
			return n
		}
		if i, ok := v.(Iface); ok && i.V.Key() == k {
			return n
		}
	}
	return ""
}

// print logs what is written.
func (c *cli) print(k *Call, what string, args []Val) []Outcome {
	var out []Val
	for _, a := range args {
		el, ok := k.In.listElems(k.St, a)
		if _, isSlice := a.(Slice); isSlice && ok {
			out = append(out, el...)
		} else {
			out = append(out, a)
		}
	}
	for i, a := range out {
		if x, ok := a.(Iface); ok {
			out[i] = x.V
		}
	}
	appendLog(k.St, mkTerm(what, intT, out...))
	if k.Sig.Results().Len() == 0 {
		return ret1(k)
	}
	has := false
	for _, a := range out {
		has = has || c.result != nil && c.result(a)
	}
	if what == "err" || !has {
		return ret1(k, Top{intT}, Nil{})
	}
	bad := k.St.clone()
	appendLog(bad, mkTerm("FAIL", intT, cStr("writing the output")))
	appendLog(k.St, mkTerm("written", intT))
	return []Outcome{{k.St, []Val{Top{intT}, Nil{}}}, {bad, []Val{Top{intT}, errVal(c.s, "write fails")}}}
}

// run runs a command; paths that end the process are in c.ends afterwards.
func (c *cli) run(name string, args []Val) []Outcome {
	s := c.s
	p, ok := c.cmds[name]
	if !ok {
		anchorf("there is no command %s", name)
	}
	for n := range c.values {
		if f := c.flags[p.Obj][n]; f != nil {
			s.In.storePtr(s.St, f.ptr, c.values[n], false)
		}
	}
	ct := p.T
	argv := s.list("args", types.NewSlice(strT), args...)
	ran := false
	states := []Outcome{{s.St, nil}}
	for _, f := range []string{"PersistentPreRun", "PersistentPreRunE", "PreRun", "PreRunE", "Run", "RunE", "PostRun", "PostRunE"} {
		var next []Outcome
		for _, o := range states {
			fn, ok := s.field(o.St, p, ct, f).(Fn)
			if !ok {
				next = append(next, o)
				continue
			}
			if f == "Run" || f == "RunE" {
				ran = true
			}
			for _, x := range s.In.CallFn(fn.F, o.St, []Val{p, argv}, fn.B, "cmd:"+name+f) {
				if strings.HasSuffix(f, "E") {
					switch m := s.In.relate(x.St, x.Res[0], Nil{}); {
					case m == EQ:
					default:
						appendLog(x.St, mkTerm("err", intT, x.Res[0])) // printed by the library
						c.ends = append(c.ends, ending{x.St, cInt(1), "returned error"})
						continue
					}
				}
				next = append(next, Outcome{x.St, nil})
			}
		}
		states = next
	}
	if !ran {
		anchorf("command %s has no function", name)
	}
	for _, e := range s.events("panic") {
		c.ends = append(c.ends, ending{e.St, cInt(2), "panic at " + e.Pos})
	}
	for _, e := range s.events("exit") {
		code := Val(cInt(1))
		if len(e.Args) > 0 {
			code = e.Args[0]
		}
		c.ends = append(c.ends, ending{e.St, code, "exit at " + e.Pos})
	}
	return states
}

// fallible makes every call out of the command package fail or succeed.
// except names calls that are left to other hooks or models.
func (c *cli) fallible(results func(k *Call) ([]Val, bool)) {
	s := c.s
	s.In.Hooks = append(s.In.Hooks, func(k *Call) ([]Outcome, bool) {
		n := k.Sig.Results().Len()
		if n == 0 || !types.Identical(k.Sig.Results().At(n-1).Type(), s.W.T.Err) {
			return nil, false
		}
		if k.Fn != nil && fnPkg(k.Fn) == s.W.P.pkg("cmd").Pkg {
			return nil, false
		}
		if i, ok := k.Recv.(Iface); ok && strings.Contains(i.Dyn.String(), modPath+"/") {
			return nil, false // comes back as the method of that type
		}
		if strings.HasPrefix(k.Name, "fmt.") || strings.HasPrefix(k.Name, "errors.") || strings.HasSuffix(k.Name, ".Close") && len(k.Args) > 0 {
			return nil, false
		}
		bad := k.St.clone()
		appendLog(bad, mkTerm("FAIL", intT, cStr(k.Name)))
		var badR []Val
		for i := 0; i < n-1; i++ {
			badR = append(badR, zeroVal(k.Sig.Results().At(i).Type()))
		}
		badR = append(badR, errVal(s, k.Name+" fails"))
		okR, ok := results(k)
		if !ok {
			okR = nil
			for i := 0; i < n-1; i++ {
				t := k.Sig.Results().At(i).Type()
				if types.IsInterface(t) || isPtrType(t) {
					okR = append(okR, mkTerm("nonnil", t, cStr(fmt.Sprint(k.Name, i))))
				} else {
					okR = append(okR, k.In.fresh(k.St, "call:"+k.Name, t, k.Site))
				}
			}
			okR = append(okR, Nil{})
		}
		k.St.note("ok:" + k.Name)
		return []Outcome{{k.St, okR}, {bad, badR}}, true
	})
}

func isPtrType(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }
