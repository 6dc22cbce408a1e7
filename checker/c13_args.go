package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C13", Min: 3000, Rule: "Every registered operator is analysed on every pair of operand forms (17 forms: scalars, lists with spare capacity, maps, nested values, functions, types, document lists), on single and triple operands, and on operands chosen for it; afterwards every object reachable from the operands must be unchanged, and every list or map in the result that is not an operand's own value must have storage of its own. The patch operator's target is exempt.", Run: func(r *Report) { runOps(r, "C13") }})
	register(&Check{ID: "C07", Min: 3000, Rule: "Every registered operator is analysed on every pair of operand forms, single operands, triples and no operands, and validation on every kind of value; no path may reach a failed type assertion, an index or slice out of range, a nil dereference, an assignment to a nil map or an explicit panic. Over the whole program, every unchecked type assertion, comparison or hashing of values of unknown type, integer division, shift and repeat count, and explicit panic that does not pass an error on must be proved harmless from the tests on the way to it, the values its callers pass and the kinds nodes are made with; an assertion the operator cases went through and saw hold each time counts as decided by them.", Run: func(r *Report) {
		assertsSeen.on, assertsSeen.at = true, map[ssa.Instruction]bool{}
		runOps(r, "C07")
		assertsSeen.on = false
		runC14(r, true)
		runCrash(r)
	}})
}

type opCase struct {
	op    string
	forms []string
	extra string // further operands made for the operator
}

// extra makes the operands that only some operators take.
func (s *Scn) extra(c opCase) []Ptr {
	if c.extra == "" {
		return nil
	}
	value := func() Ptr { return s.shape("pv", "nested map") }
	patch := func(kv ...Val) Ptr { return s.mapNode("patch", kv...) }
	op := func(o, path string) []Val {
		return []Val{cStr("op"), s.strNode("po", cStr(o)), cStr("path"), s.strNode("pp", cStr(path))}
	}
	k, path, _ := strings.Cut(c.extra, " ")
	switch k {
	case "add", "replace", "test":
		return []Ptr{s.roomy("patches", patch(append(op(k, path), cStr("value"), value())...))}
	case "remove":
		return []Ptr{patch(op(k, path)...)}
	case "move", "copy":
		path, from, _ := strings.Cut(path, " ")
		return []Ptr{s.roomy("patches", patch(append(op(k, path), cStr("from"), s.strNode("pf", cStr(from)))...))}
	case "member": // a patch whose member is of the given form
		m, form, _ := strings.Cut(path, "=")
		p := map[string]Ptr{"op": s.strNode("po", s.ident("op")), "path": s.strNode("pp", cStr("/k")), "from": s.strNode("pf", cStr("/m")), "value": value()}
		if o, k, ok := strings.Cut(m, ":"); ok {
			p["op"] = s.strNode("po", cStr(o))
			m = k
		}
		if form == "absent" {
			delete(p, m)
		} else {
			p[m] = s.shape("member", form)
		}
		var kv []Val
		for _, k := range []string{"op", "path", "from", "value"} {
			if p[k] != (Ptr{}) {
				kv = append(kv, cStr(k), p[k])
			}
		}
		return []Ptr{s.roomy("patches", patch(kv...))}
	case "manifests", "manifest":
		api, kind, name := s.ident("api"), s.ident("kind"), s.ident("name")
		mf := func(l string, more ...Val) Ptr {
			return s.mapNode(l, append([]Val{cStr("apiVersion"), s.strNode(l+".a", api), cStr("kind"), s.strNode(l+".k", kind),
				cStr("metadata"), s.mapNode(l+".m", cStr("name"), s.strNode(l+".n", name), cStr("labels"), s.shape(l+".l", "map")), cStr("list"), s.shape(l+".list", "strings"), cStr("spec"), s.shape(l+".spec", "nested map")}, more...)...)
		}
		first, p := mf("r0", cStr("own"), s.shape("own", "nested map")), mf("p", cStr("extra"), s.shape("extra", "nested map"))
		other := s.shape("other", "manifest")
		if m, form, ok := strings.Cut(path, "="); ok { // a member of the patch of the given form
			p = s.mapNode("p", cStr("apiVersion"), s.strNode("p.a", api), cStr("kind"), s.strNode("p.k", kind), cStr("metadata"), s.shape("p.m", form))
			if m != "metadata" {
				p = s.mapNode("p", cStr(m), s.shape("p.x", form), cStr("metadata"), s.shape("p.m", "map"))
			}
		}
		if k == "manifest" {
			return []Ptr{first, p}
		}
		return []Ptr{s.roomy("resources", first, other, s.shape("stray", "string")), s.roomy("pl", p)}
	case "format":
		return []Ptr{s.strNode("fmt", cStr("%s and %v")), s.shape("f0", path), s.shape("f1", path)}
	}
	panic(c.extra)
}

func (w *World) opCases(three bool) []opCase {
	var out []opCase
	for _, op := range w.operators() {
		out = append(out, opCase{op, nil, ""})
		for _, a := range shapes {
			out = append(out, opCase{op, []string{a}, ""})
			for _, b := range shapes {
				out = append(out, opCase{op, []string{a, b}, ""})
			}
			out = append(out, opCase{op, []string{a, a, a}, ""})
			out = append(out, opCase{op, []string{a, "string", "string"}, ""}, opCase{op, []string{a, "int", "lambda"}, ""}, opCase{op, []string{a, a, "lambda"}, ""})
		}
	}
	both := func(op, e string, forms ...string) {
		for _, f := range append(forms, "docs") {
			out = append(out, opCase{op, []string{f}, e})
		}
	}
	for _, e := range []string{"add /k", "add /new", "add /0", "add /-", "add /*", "add /*/new", "replace /k", "replace /0", "replace /*", "remove /k", "remove /0", "remove /*", "test /k", "move /new /k", "copy /new /k", "copy /- /0", "copy /k/new /k"} {
		both("maps.patch", e, "map", "nested map", "lists", "strings", "maps")
	}
	for _, m := range []string{"op", "add:path", "add:value", "replace:value", "replace:path", "remove:path", "move:from", "copy:from", "move:path", "test:value", "test:path"} {
		for _, f := range append([]string{"absent"}, shapes...) {
			both("maps.patch", "member "+m+"="+f, "nested map")
		}
	}
	for _, m := range []string{"metadata", "apiVersion", "kind"} {
		for _, f := range shapes {
			out = append(out, opCase{"k8s.patch", nil, "manifests " + m + "=" + f}, opCase{"k8s.patch", nil, "manifest " + m + "=" + f})
		}
	}
	out = append(out, opCase{"k8s.patch", nil, "manifests"}, opCase{"k8s.patch", nil, "manifest"})
	for _, f := range shapes {
		out = append(out, opCase{"strings.format", nil, "format " + f})
	}
	return out
}

// outside are the operators whose work is done by the world outside the analysis.
func (s *Scn) freshResult(label string) Ptr { return s.node(label, "Map", nil) }

func (w *World) opScn() *Scn {
	var s *Scn
	s = w.scn("", w.mock("Run", func(c *Call, n int, a []Val) []Outcome {
		ok := c.St.clone()
		p := Ptr{fmt.Sprint("freshdoc:", n), "", w.T.Node}
		ok.heap[p.Obj+"l"] = &Obj{Kind: OArr, Known: true, T: w.T.AnySlice}
		ok.heap[p.Obj] = &Obj{Kind: OCell, V: s.strct(w.T.Node, map[string]Val{"Kind": cInt(w.T.Kind["Array"]), "Value": iface(w.T.AnySlice, Slice{Obj: p.Obj + "l", Known: true, T: w.T.AnySlice}), "IsDocumentRoot": cBool(true)}), T: w.T.Node}
		return []Outcome{{ok, []Val{p, Nil{}}}, {c.St, []Val{Nil{}, errVal(s, "run fails")}}}
	}), w.mock("Apply", func(c *Call, n int, a []Val) []Outcome {
		ok := c.St.clone()
		p := Ptr{fmt.Sprint("fresh:", n), "", w.T.Node}
		ok.heap[p.Obj] = &Obj{Kind: OCell, V: s.strct(w.T.Node, map[string]Val{"Kind": cInt(w.T.Kind["Bool"]), "Value": s.anyBool(Sym{fmt.Sprint("res", n), boolT})}), T: w.T.Node}
		bad := c.St
		return []Outcome{{ok, []Val{p, Nil{}}}, {bad, []Val{Nil{}, errVal(s, "function fails")}}}
	}))
	s.In.Cap = 6
	s.stream(1)
	s.disk().quiet = true
	return s
}

func runOps(r *Report, id string) {
	w := r.W()
	cases := w.opCases(true)
	r.parallel(len(cases), func(i int, r *Report) {
		c := cases[i]
		if f := os.Getenv("CHECK_ONLY"); f != "" && f != c.op {
			return
		}
		defer func(t time.Time) {
			if d := time.Since(t); os.Getenv("CHECK_DEBUG") != "" && d > time.Second {
				fmt.Fprintln(os.Stderr, "slow", d, c)
			}
		}(time.Now())
		r.guard("operator call", c.op+" "+strings.Join(c.forms, ", ")+c.extra, func() {
			s := r.W().opScn()
			var args []Ptr
			for k, f := range c.forms {
				args = append(args, s.shape(fmt.Sprint("a", k), f))
			}
			what := c.op + " on (" + strings.Join(c.forms, ", ") + ") " + c.extra
			args = append(args, s.extra(c)...)
			if id == "C13" {
				s.decorate()
			}
			before := s.St.clone()
			outs := s.applyOp(c.op, w.T.ModeEval, args...)
			if id == "C07" {
				s.noCrash(r, what)
				return
			}
			var skip []string
			if c.op == "maps.patch" {
				skip = []string{"a0"}
			}
			pos, path := s.where()
			for _, o := range outs {
				if x := s.unchanged(before, o.St, skip...); x != "" {
					r.fail("operands stay as they are", what, pos, "%s is modified: %s becomes %s (through %s)", x, before.heap["in:"+x].key(), o.St.heap["in:"+x].key(), path)
					return
				}
				if s.isErr(o) == 1 {
					continue
				}
				if x := s.shared(o.St, o.Res[0], 0); x != "" {
					r.fail("results have storage of their own", what, pos, "%s (through %s)", x, path)
					return
				}
			}
			r.ok("operands stay as they are", what, pos)
			r.ok("results have storage of their own", what, pos)
		})
	})
}

// shared names storage of an operand that a new value in the result uses.
func (s *Scn) shared(st *State, v Val, depth int) string {
	if depth > 6 {
		return ""
	}
	for _, m := range members(v) {
		if i, ok := m.(Iface); ok {
			m = i.V
		}
		p, ok := m.(Ptr)
		if !ok || strings.HasPrefix(p.Obj, "in:") || st.heap[p.Obj] == nil {
			continue
		}
		for _, x := range members(s.value(st, p)) {
			switch y := x.(type) {
			case Slice:
				if strings.HasPrefix(y.Obj, "in:") {
					return "a new value uses the storage of list " + strings.TrimPrefix(y.Obj, "in:")
				}
				el, _ := s.In.listElems(st, y)
				for _, e := range el {
					if m := s.shared(st, e, depth+1); m != "" {
						return m
					}
				}
			case Ptr:
				if strings.HasPrefix(y.Obj, "in:") {
					return "a new value uses the storage of " + strings.TrimPrefix(y.Obj, "in:")
				}
				if o := st.heap[y.Obj]; o != nil && o.Kind == OMap {
					for _, e := range o.Entries {
						if m := s.shared(st, e.V, depth+1); m != "" {
							return m
						}
					}
				}
			}
		}
	}
	return ""
}
