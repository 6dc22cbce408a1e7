package main

import (
	"fmt"
	"go/types"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// operators lists the names of all registered operators.
func (w *World) operators() []string {
	var out []string
	for n := range w.opVals() {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// opVals maps their names to what is registered under them.
func (w *World) opVals() map[string]Val {
	seen := map[string]Val{}
	op := w.P.typ("core", "YispOperator").Underlying()
	for _, sp := range w.P.SSA.AllPackages() {
		if !strings.HasPrefix(sp.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range sp.Members {
			g, ok := m.(interface{ Type() types.Type })
			if !ok {
				continue
			}
			pt, ok := g.Type().(*types.Pointer)
			if !ok {
				continue
			}
			mt, ok := pt.Elem().Underlying().(*types.Map)
			if !ok {
				continue
			}
			el := mt.Elem()
			if im, ok := el.Underlying().(*types.Map); ok {
				el = im.Elem()
			}
			if !types.Identical(el.Underlying(), op) {
				continue
			}
			w.opNames(Ptr{"global:" + fmt.Sprint(m), "", pt.Elem()}, "", seen)
		}
	}
	if len(seen) < 40 {
		anchorf("only %d operators found", len(seen))
	}
	return seen
}

func (w *World) opNames(p Ptr, prefix string, seen map[string]Val) {
	o := w.Base.heap[p.Obj]
	if o == nil {
		return
	}
	v := o.V
	if mp, ok := v.(Ptr); ok {
		o = w.Base.heap[mp.Obj]
	}
	if o == nil {
		return
	}
	for _, e := range o.Entries {
		n := ""
		switch k := e.K.(type) {
		case StructV:
			var ps []string
			for _, f := range k.F {
				if s, ok := isStr(f); ok {
					ps = append(ps, s)
				}
			}
			n = strings.Join(ps, ".")
		default:
			n, _ = isStr(k)
		}
		if n == "" {
			continue
		}
		if in, ok := e.V.(Ptr); ok && w.Base.heap[in.Obj] != nil && w.Base.heap[in.Obj].Kind == OMap {
			w.opNames(in, prefix+n+".", seen)
			continue
		}
		seen[prefix+n] = e.V
	}
}

// roomy makes a list with spare capacity.
func (s *Scn) roomy(label string, ns ...Ptr) Ptr {
	var el []Val
	for _, n := range ns {
		el = append(el, iface(ptrTo(s.W.T.Node), n))
	}
	anyS := s.W.T.AnySlice
	sl := s.list(label+".l", anyS, append(el, Nil{}, Nil{}, Nil{})...).(Slice)
	sl.Hi = len(el)
	if s.plain {
		return s.node(label, "Array", iface(anyS, sl))
	}
	return s.node(label, "Array", iface(anyS, sl), "Tag", s.str(label+".tag"), "Anchor", s.str(label+".anchor"))
}

// shapes are the forms of operands the generic analyses go through.
var shapes = []string{"null", "bool", "int", "float", "string", "empty list", "strings", "lists", "maps", "entries", "empty map", "map", "nested map", "manifest", "lambda", "type", "symbol", "docs"}

func (s *Scn) shape(label, kind string) Ptr {
	str := func(l string) Ptr { return s.strNode(label+"."+l, s.ident(label+"."+l)) }
	switch kind {
	case "null":
		return s.bare(label, "Null")
	case "bool":
		return s.node(label, "Bool", s.anyBool(s.sym(label+".b", boolT)))
	case "int":
		return s.intNode(label, s.sym(label+".n", intT))
	case "float":
		return s.node(label, "Float", s.anyFloat(s.sym(label+".f", types.Typ[types.Float64])))
	case "string":
		return str("s")
	case "empty list":
		return s.roomy(label)
	case "strings":
		return s.roomy(label, str("0"), str("1"))
	case "lists":
		return s.roomy(label, s.roomy(label+".0", str("0.0")), s.roomy(label+".1", str("1.0"), str("1.1")))
	case "maps":
		return s.roomy(label, s.mapNode(label+".0", cStr("k"), str("0.v")), s.mapNode(label+".1", cStr("k"), str("1.v"), cStr("m"), str("1.w")))
	case "entries":
		return s.roomy(label, s.mapNode(label+".0", cStr("key"), str("0.k"), cStr("value"), str("0.v")),
			s.mapNode(label+".1", cStr("key"), str("1.k"), cStr("value"), s.mapNode(label+".1.v", cStr("k"), str("1.v.k"))))
	case "empty map":
		return s.mapNode(label)
	case "map":
		return s.mapNode(label, cStr("k"), str("v"), cStr("m"), str("w"))
	case "nested map":
		return s.mapNode(label, cStr("k"), s.mapNode(label+".k", cStr("k"), str("k.k")), cStr("l"), s.roomy(label+".l", str("l.0")))
	case "manifest":
		return s.mapNode(label, cStr("$schema"), str("url"), cStr("apiVersion"), str("api"), cStr("kind"), str("kind"), cStr("metadata"), s.mapNode(label+".meta", cStr("name"), str("name"), cStr("namespace"), str("ns")))
	case "lambda":
		b := s.alloc(label+".lambda", s.W.T.Lambda, s.strct(s.W.T.Lambda, map[string]Val{"Body": s.strNode(label+".body", s.ident(label+".body"))}))
		return s.node(label, "Lambda", iface(ptrTo(s.W.T.Lambda), b))
	case "type":
		b := s.schema(label+".schema", nil)
		return s.node(label, "Type", iface(ptrTo(s.W.T.Schema), b))
	case "symbol":
		return s.node(label, "Symbol", s.anyStr(s.ident(label+".sym")))
	case "docs":
		return s.node(label, "Array", s.arr(s.mapNode(label+".0", cStr("k"), str("0.v")), s.mapNode(label+".1", cStr("k"), str("1.v"))), "IsDocumentRoot", cBool(true))
	}
	panic(kind)
}

// parallel runs the cases on all processors; the reports come in order.
func (r *Report) parallel(n int, f func(i int, r *Report)) {
	w := r.W()
	reps := make([]*Report, n)
	var wg sync.WaitGroup
	var next atomic.Int64
	worlds := make([]*World, runtime.NumCPU())
	for k := range worlds {
		x, in := *w, *w.Initial
		in.loops = map[*ssa.Function]*loopInfo{}
		x.visited, x.Initial, x.stats = map[*ssa.Function]bool{}, &in, worldStats{}
		worlds[k] = &x
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				reps[i] = newReport(r.P, r.Check, &x)
				f(i, reps[i])
			}
		}()
	}
	wg.Wait()
	for _, q := range reps {
		for _, o := range q.Obl {
			r.add(o)
		}
	}
	for _, x := range worlds {
		w.stats.runs += x.stats.runs
		w.stats.steps += x.stats.steps
		w.stats.calls += x.stats.calls
		w.stats.outcomes += x.stats.outcomes
		for fn := range x.visited {
			w.visited[fn] = true
		}
	}
}

// decorate gives every node of the scenario comments, a style, a source, a tag and an anchor.
func (s *Scn) decorate() {
	at := s.W.T.Attr.Underlying().(*types.Struct)
	var ids []string
	for id, o := range s.St.heap {
		if strings.HasPrefix(id, "in:") && o.Kind == OCell && o.T != nil && types.Identical(o.T, s.W.T.Node) {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		p := Ptr{id, "", s.W.T.Node}
		l := strings.TrimPrefix(id, "in:")
		m := map[string]Val{}
		for i := 0; i < at.NumFields(); i++ {
			f := at.Field(i)
			if b, ok := f.Type().Underlying().(*types.Basic); ok {
				m[f.Name()] = s.sym(l+"."+f.Name(), f.Type())
				_ = b
			}
		}
		sl := s.list(l+".sources", types.NewSlice(s.W.T.FilePos), s.strct(s.W.T.FilePos, map[string]Val{"File": mkCat(cStr("/"), s.ident(l+".dir"), cStr("/main.yisp"))}), zeroVal(s.W.T.FilePos)).(Slice)
		sl.Hi = 1
		m["Sources"] = sl
		s.setField(p, "Attr", s.strct(s.W.T.Attr, m))
		for _, f := range []string{"Tag", "Anchor"} {
			if k, ok := isStr(s.nodeField(s.St, p, f)); ok && k == "" {
				s.setField(p, f, s.str(l+"."+f))
			}
		}
	}
}
