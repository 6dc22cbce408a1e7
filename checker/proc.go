package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Processes and the terminal of a scenario. Starts and answers are logged.

// starters are the functions that start a process, with the index of the
// first result that carries its output (-1 for none).
var starters = map[string]int{
	"(*os/exec.Cmd).Run": -1, "(*os/exec.Cmd).Start": -1, "(*os/exec.Cmd).Output": 0, "(*os/exec.Cmd).CombinedOutput": 0,
	"os.StartProcess": -1, "syscall.StartProcess": -1, "syscall.ForkExec": -1, "syscall.Exec": -1, "plugin.Open": -1,
	"golang.org/x/sys/unix.Exec": -1, "golang.org/x/sys/unix.ForkExec": -1,
}

type proc struct {
	s     *Scn
	sites map[ssa.Instruction]bool // call sites of starters that were reached
}

// started describes what a start call starts.
func (p *proc) started(c *Call) Val {
	if !strings.HasPrefix(c.Name, "(*os/exec.Cmd)") {
		return mkTerm("start", intT, cStr("through "+c.Name), cStr(""))
	}
	st, ok := c.Args[0].(Ptr)
	if !ok {
		return mkTerm("start", intT, cStr("an unknown command"), cStr(""))
	}
	t := st.T
	f := func(n string) Val { return p.s.field(c.St, st, t, n) }
	a := cStr("unknown arguments")
	if el, ok := c.In.listElems(c.St, f("Args")); ok {
		a = mkTerm("argv", strT, append([]Val{f("Path")}, el...)...)
	}
	in := cStr("no input")
	switch x := f("Stdin").(type) {
	case Nil:
	case Iface:
		in = p.text(c.St, x.V)
	default:
		in = x
	}
	more := ""
	for _, n := range []string{"Env", "Dir", "ExtraFiles", "SysProcAttr", "Cancel"} {
		v := f(n)
		if k, isS := isStr(v); isS && k == "" {
			continue
		}
		if _, null := v.(Nil); !null {
			if sl, ok := v.(Slice); ok && sl.Known && sl.Lo == sl.Hi {
				continue
			}
			more += " " + n + "=" + v.Key()
		}
	}
	return mkTerm("start", intT, a, in, cStr(more))
}

func (p *proc) text(st *State, v Val) Val {
	if q, ok := v.(Ptr); ok {
		if o := st.heap["text:"+q.Obj]; o != nil {
			return o.V
		}
	}
	return v
}

func (s *Scn) processes() *proc {
	p := &proc{s: s, sites: map[ssa.Instruction]bool{}}
	var names []string
	for n := range starters {
		names = append(names, n)
	}
	s.hook(strings.Join(names, " "), func(c *Call) []Outcome {
		p.sites[c.Site] = true
		appendLog(c.St, p.started(c))
		bad := c.St.clone()
		appendLog(bad, mkTerm("command fails", intT))
		appendLog(c.St, mkTerm("command succeeds", intT))
		n := c.Sig.Results().Len()
		okR, badR := make([]Val, n), make([]Val, n)
		for i := 0; i < n; i++ {
			t := c.Sig.Results().At(i).Type()
			okR[i], badR[i] = Top{t}, Top{t}
			if i == n-1 {
				okR[i], badR[i] = Nil{}, errVal(s, "command fails")
			} else if i == starters[c.Name] {
				okR[i] = mkTerm("conv:stringtobytes", t, s.str("output"))
				badR[i] = mkTerm("conv:stringtobytes", t, s.str("output"))
			}
		}
		if strings.HasPrefix(c.Name, "(*os/exec.Cmd)") {
			if cp, ok := c.Args[0].(Ptr); ok {
				for _, st := range []*State{c.St, bad} {
					for n, what := range map[string]string{"Stdout": "output", "Stderr": "messages"} {
						if i, ok := s.field(st, cp, cp.T, n).(Iface); ok {
							if b, ok := i.V.(Ptr); ok {
								st.heap["text:"+b.Obj] = &Obj{Kind: OCell, V: s.str(what), T: strT}
							}
						}
					}
				}
			}
		}
		return []Outcome{{c.St, okR}, {bad, badR}}
	})
	s.hook("os/exec.CommandContext", func(c *Call) []Outcome {
		d := *c
		d.Args = c.Args[1:]
		o, _ := models["os/exec.Command"](&d)
		return o
	})
	s.hook("(*os/exec.Cmd).Wait", func(c *Call) []Outcome {
		bad := c.St.clone()
		appendLog(bad, mkTerm("command fails", intT))
		return []Outcome{{c.St, []Val{Nil{}}}, {bad, []Val{errVal(s, "command fails")}}}
	})
	s.hook("bytes.NewBufferString bytes.NewBuffer strings.NewReader bytes.NewReader", func(c *Call) []Outcome {
		t := c.Sig.Results().At(0).Type()
		id := c.In.objID(c.Site, "buf")
		c.In.newObj(c.St, id, &Obj{Kind: OCell, V: Top{elemOf(t)}, T: elemOf(t)})
		v := c.Args[0]
		if t, ok := v.(*Term); ok && t.Op == "conv:stringtobytes" {
			v = t.Args[0]
		}
		c.St.heap["text:"+id] = &Obj{Kind: OCell, V: v, T: strT}
		return ret1(c, Ptr{id, "", elemOf(t)})
	})
	s.hook("(*bytes.Buffer).String (*bytes.Buffer).Bytes (*strings.Builder).String", func(c *Call) []Outcome {
		v := p.text(c.St, c.Args[0])
		if _, ok := v.(Ptr); ok {
			v = cStr("")
		}
		if t := c.Sig.Results().At(0).Type(); !types.Identical(t, strT) {
			v = mkTerm("conv:stringtobytes", t, v)
		}
		return ret1(c, v)
	})
	s.In.Hooks = append([]Hook{func(c *Call) ([]Outcome, bool) {
		read := false
		for _, r := range []string{"(*os.File).Read", "(*bufio.Reader).Read", "(*bufio.Scanner).Scan", "fmt.Scan", "fmt.Fscan", "io.ReadFull", "io.ReadAtLeast", "io.ReadAll", "io.Copy", "(io.Reader).Read"} {
			read = read || strings.HasPrefix(c.Name, r)
		}
		if !read {
			return nil, false
		}
		bad := c.St.clone()
		appendLog(c.St, mkTerm("confirmed", intT))
		appendLog(bad, mkTerm("not confirmed", intT))
		n := c.Sig.Results().Len()
		okR, badR := make([]Val, n), make([]Val, n)
		for i := 0; i < n; i++ {
			t := c.Sig.Results().At(i).Type()
			okR[i], badR[i] = Top{t}, zeroVal(t)
			switch {
			case types.Identical(t, s.W.T.Err):
				okR[i], badR[i] = Nil{}, errVal(s, "end of input")
			case types.Identical(t, boolT):
				okR[i], badR[i] = cBool(true), cBool(false)
			case types.Identical(t, intT):
				okR[i] = cInt(1)
			}
		}
		return []Outcome{{c.St, okR}, {bad, badR}}, true
	}}, s.In.Hooks...)
	return p
}

// repoFuncs are all functions of the repository outside its internal packages.
func (p *Program) repoFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.SSA) {
		if isRepoFn(f) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// startSites are the calls in the evaluation packages that start a process.
func (w *World) startSites() map[ssa.Instruction]string {
	out := map[ssa.Instruction]string{}
	for _, f := range w.P.repoFuncs() {
		if f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/cmd") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				ops := i.Operands(nil)
				for _, o := range ops {
					if g, ok := (*o).(*ssa.Function); ok {
						if _, ok := starters[fnName(g)]; ok {
							out[i] = fnName(f)
						}
					}
				}
			}
		}
	}
	return out
}

func allFuncs(p *Program) map[*ssa.Function]bool { return ssautil.AllFunctions(p.SSA) }

// isInit tells whether a function only initialises its package.
func isInit(f *ssa.Function) bool {
	return f.Parent() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}
