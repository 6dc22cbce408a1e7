package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C23", Min: 300, Rule: "The names in the headings of the operator reference are looked up in the operator tables, and a call under each name, analysed through the engine's application function, must reach the function registered for it with the operands as written. For every operator with a symbolic and a word form both forms are analysed on the palette of operand forms and must have the same outcomes under the same conditions. Names that are in no table must give an error.", Run: runC23})
}

var headName = regexp.MustCompile("^##+ +`([^`]+)`(?: */ *`([^`]+)`)?")

// documented lists the operators of the reference, with their aliases.
func documented(repo string) (names [][]string) {
	files, _ := filepath.Glob(filepath.Join(repo, "docs/operators/*.md"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			anchorf("%v", err)
		}
		lib := ""
		special := false
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "## ") {
				special = strings.Contains(l, "Special Forms")
			}
			m := headName.FindStringSubmatch(l)
			if m == nil || special {
				continue
			}
			if strings.HasPrefix(l, "## ") {
				lib = m[1]
			} else if lib != "" { // parts of a library operator
				continue
			}
			n := []string{m[1]}
			if m[2] != "" {
				n = append(n, m[2])
			}
			names = append(names, n)
		}
	}
	return names
}

// opFuncs maps the names of operators to the functions in the tables.
func (w *World) opFuncs() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for n, v := range w.opVals() {
		f, ok := v.(Fn)
		if !ok {
			anchorf("operator %s is registered as %T", n, v)
		}
		out[n] = f.F
	}
	return out
}

// canon renders a value independently of where it is stored.
func (s *Scn) canon(st *State, v Val, depth int) string {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	p, ok := v.(Ptr)
	if !ok || strings.HasPrefix(p.Obj, "in:") || depth > 5 {
		return v.Key()
	}
	k := s.kindOf(st, p)
	if el, ok := s.elems(st, p); ok && k == "Array" {
		var b []string
		for _, e := range el {
			b = append(b, s.canon(st, e, depth+1))
		}
		return "[" + strings.Join(b, ", ") + "]"
	}
	if es, ok := s.entries(st, p); ok {
		var b []string
		for _, e := range es {
			b = append(b, fmt.Sprint(e.K.Key(), e.Maybe, ":", s.canon(st, e.V, depth+1)))
		}
		return "{" + strings.Join(b, ", ") + "}"
	}
	return k + " " + s.value(st, p).Key() + " " + s.nodeField(st, p, "Tag").Key()
}

func runC23(r *Report) {
	w := r.W()
	docs := documented(w.P.Repo)
	if len(docs) < 40 {
		anchorf("only %d operators in the reference", len(docs))
	}
	funcs := w.opFuncs()
	alias := [][]string{}
	for _, ns := range docs {
		for _, n := range ns {
			n := n
			if funcs[n] == nil {
				r.fail("documented operators exist", n, "", "the reference documents %s, which no operator table contains", n)
				continue
			}
			r.ok("documented operators exist", n, w.P.pos(funcs[n].Pos()))
			for _, k := range []int{0, 1, 3} {
				r.guard("call by name", n, func() {
					s := w.scn(fmt.Sprintf("%s with %d operands", n, k))
					want := []Ptr{}
					for i := 0; i < k; i++ {
						want = append(want, s.strNode(fmt.Sprint("a", i), s.ident(fmt.Sprint("a", i))))
					}
					res := s.bare("result", "Null")
					s.In.Hooks = append([]Hook{func(c *Call) ([]Outcome, bool) {
						if c.Fn != funcs[n] {
							return nil, false
						}
						a := c.Args[len(c.Args)-4:]
						el, ok := s.In.listElems(c.St, a[0])
						got := fmt.Sprint(ok)
						for _, e := range el {
							got += " " + e.Key()
						}
						exp := "true"
						for _, p := range want {
							exp += " " + p.Key()
						}
						if got != exp {
							return []Outcome{{c.St, []Val{s.bare("with operands "+got, "Null"), Nil{}}}}, true
						}
						return []Outcome{{c.St, []Val{res, Nil{}}}}, true
					}}, s.In.Hooks...)
					outs := s.applyOp(n, w.T.ModeEval, want...)
					s.exp(r, "documented names reach their operator", "Apply", outs, func(o Outcome) string {
						if s.isErr(o) != 0 {
							return "a call of " + n + " can fail before the operator is reached"
						}
						if o.Res[0].Key() != res.Key() {
							return "a call of " + n + " does not return what the operator registered for it returns: " + s.describe(o.St, o.Res[0])
						}
						return ""
					})
				})
			}
		}
		if len(ns) == 2 && funcs[ns[0]] != nil && funcs[ns[1]] != nil {
			alias = append(alias, ns)
		}
	}
	type job struct {
		ns    []string
		forms []string
	}
	var jobs []job
	for _, ns := range alias {
		jobs = append(jobs, job{ns, nil})
		for _, a := range shapes {
			jobs = append(jobs, job{ns, []string{a}}, job{ns, []string{a, a, a}})
			for _, b := range shapes {
				jobs = append(jobs, job{ns, []string{a, b}})
			}
		}
	}
	r.parallel(len(jobs), func(i int, r *Report) {
		j := jobs[i]
		r.guard("alias", strings.Join(j.ns, " / "), func() {
			var got []string
			var pos string
			for _, n := range j.ns {
				s := r.W().opScn()
				var args []Ptr
				for k, f := range j.forms {
					args = append(args, s.shape(fmt.Sprint("a", k), f))
				}
				set := map[string]bool{}
				for _, o := range s.applyOp(n, w.T.ModeEval, args...) {
					x := factsString(o.St) + " => "
					if s.isErr(o) == 1 {
						x += "error"
					} else {
						x += s.canon(o.St, o.Res[0], 0)
					}
					set[x] = true
				}
				var l []string
				for x := range set {
					l = append(l, x)
				}
				sort.Strings(l)
				got = append(got, strings.Join(l, "; "))
				pos, _ = s.where()
			}
			what := strings.Join(j.ns, " and ") + " on (" + strings.Join(j.forms, ", ") + ")"
			if got[0] != got[1] {
				r.fail("both forms behave alike", what, pos, "%s gives %s; %s gives %s", j.ns[0], clip(got[0]), j.ns[1], clip(got[1]))
			} else {
				r.ok("both forms behave alike", what, pos)
			}
		})
	})
	for _, n := range []string{"nosuch", "", ".", "no.such", "lists.", ".car", "lists.nosuch", "nosuch.car", "car", "lists.car.x", "x.lists.car", "lists.car.", "LISTS.car", "Add", " add", "add ", "==="} {
		for k := 0; k < 3; k++ {
			r.guard("unknown operator", n, func() {
				if funcs[n] != nil {
					return
				}
				s := w.scn(fmt.Sprintf("%q with %d operands", n, k))
				s.answerAll(funcs)
				var args []Ptr
				for i := 0; i < k; i++ {
					args = append(args, s.strNode(fmt.Sprint("a", i), s.ident(fmt.Sprint("a", i))))
				}
				s.expErr(r, "unknown names give an error", "Apply", s.applyOp(n, w.T.ModeEval, args...))
			})
		}
	}
	r.guard("unknown operator", "any", func() {
		s := w.scn("any other name")
		s.answerAll(funcs)
		x := s.ident("name")
		for n := range funcs {
			s.assume(x, cStr(n), LT|GT)
		}
		e, et := s.engine(nil)
		outs := s.applyOn(e, et, s.strNode("car", x), w.T.ModeEval, s.strNode("a", s.ident("a")))
		s.expErr(r, "unknown names give an error", "Apply", outs)
	})
}

// answerAll makes every operator succeed, so that a call that should not
// reach one is seen.
func (s *Scn) answerAll(funcs map[string]*ssa.Function) {
	is := map[*ssa.Function]string{}
	for n, f := range funcs {
		is[f] = n
	}
	s.In.Hooks = append([]Hook{func(c *Call) ([]Outcome, bool) {
		if is[c.Fn] == "" {
			return nil, false
		}
		return []Outcome{{c.St, []Val{Ptr{"result of " + is[c.Fn], "", s.W.T.Node}, Nil{}}}}, true
	}}, s.In.Hooks...)
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}
