package main

import "fmt"

func init() {
	register(&Check{ID: "C28", Min: 60, Rule: "The Kubernetes patch operator is analysed on lists of zero to three resources and zero to two patches for every assignment of which patch identifies which resource, for every set of identifying fields in which a resource and a patch differ, with fields absent or null, and with strings arranged so that joined fields would coincide. Each resource of the result must be the very resource given, or its merge with exactly the patches that identify it, in order and at its place, following the type of the resource.", Run: runC28})
}

type resource struct {
	s     *Scn
	vals  map[string]Ptr // field -> node, absent when missing
	extra []Val
}

var idFields = []string{"apiVersion", "kind", "namespace", "name"}

// node builds the manifest; metadata is present when one of its fields is.
func (x *resource) node(label string) Ptr {
	s := x.s
	var kvs, meta []Val
	for _, f := range idFields {
		v, ok := x.vals[f]
		if !ok {
			continue
		}
		if f == "namespace" || f == "name" {
			meta = append(meta, cStr(f), v)
		} else {
			kvs = append(kvs, cStr(f), v)
		}
	}
	if meta != nil {
		kvs = append(kvs, cStr("metadata"), s.mapNode(label+".meta", meta...))
	}
	return s.mapNode(label, append(kvs, x.extra...)...)
}

// merged is the expected result of merging p into t.
func (x *resource) merged(ps ...*resource) M {
	s := x.s
	cur := map[string]Ptr{}
	for f, v := range x.vals {
		cur[f] = v
	}
	extra := append([]Val(nil), x.extra...)
	for _, p := range ps {
		for f, v := range p.vals {
			cur[f] = v
		}
		extra = append(extra, p.extra...)
	}
	// entries of the resource first, then those only a patch has
	var top, meta []kv
	added := map[string]bool{}
	for _, y := range append([]*resource{x}, ps...) {
		for _, f := range idFields {
			if _, ok := y.vals[f]; !ok || added[f] {
				continue
			}
			added[f] = true
			e := kv{cStr(f), same(cur[f])}
			if f == "namespace" || f == "name" {
				meta = append(meta, e)
			} else {
				top = append(top, e)
			}
		}
	}
	_ = s
	return func(s *Scn, st *State, v Val) string {
		got, ok := s.entries(st, v)
		if k := s.kindOf(st, v); k != "Map" || !ok {
			return "a value that is no determined map"
		}
		want := map[string]M{}
		for _, e := range top {
			want[e.k.Key()] = e.m
		}
		if meta != nil {
			want[cStr("metadata").Key()] = dict(meta...)
		}
		for i := 0; i+1 < len(extra); i += 2 {
			want[extra[i].Key()] = same(extra[i+1])
		}
		if len(got) != len(want) {
			return fmt.Sprintf("a resource with entries [%s] instead of %d entries", s.entryKey(got), len(want))
		}
		for _, e := range got {
			m := want[e.K.Key()]
			if m == nil || e.Maybe {
				return "entry " + e.K.Key() + " unexpectedly"
			}
			if msg := m(s, st, e.V); msg != "" {
				return "under " + e.K.Key() + ": " + msg
			}
		}
		return ""
	}
}

func runC28(r *Report) {
	w := r.W()
	E := w.T.ModeEval
	apply := func(s *Scn, ts, ps []Ptr) []Outcome {
		return s.applyOp("k8s.patch", E, s.arrNode("targets", ts...), s.arrNode("patches", ps...))
	}
	single := func(rule, name string, s *Scn, t, p *resource, match bool) {
		s.In.Cap = 10
		t.extra = []Val{cStr("spec"), s.any("ts")}
		p.extra = []Val{cStr("data"), s.any("pd")}
		tn := t.node("t")
		want := same(tn)
		if match {
			want = t.merged(p)
		}
		s.exact(r, rule, "patch of one resource", apply(s, []Ptr{tn}, []Ptr{p.node("p")}), list(want))
	}
	// every set of differing fields
	for diff := 0; diff < 16; diff++ {
		s := w.scn(fmt.Sprintf("fields that differ: %04b", diff))
		t, p := &resource{s: s, vals: map[string]Ptr{}}, &resource{s: s, vals: map[string]Ptr{}}
		for i, f := range idFields {
			a, b := s.str("t."+f), s.str("p."+f)
			if diff&(1<<i) != 0 {
				s.assume(a, b, LT|GT)
			} else {
				b = a
			}
			t.vals[f], p.vals[f] = s.strNode("t."+f, a), s.strNode("p."+f, b)
		}
		single("applied exactly when all identifying fields agree", s.Name, s, t, p, diff == 0)
	}
	// fields that only one of them has, or that are null
	for i, f := range idFields {
		for _, has := range []string{"neither", "only the resource", "only the patch", "resource null, patch absent", "resource absent, patch null", "both null", "resource null"} {
			s := w.scn(f + " in " + has)
			t, p := &resource{s: s, vals: map[string]Ptr{}}, &resource{s: s, vals: map[string]Ptr{}}
			for j, g := range idFields {
				if i != j {
					v := s.str(g)
					t.vals[g], p.vals[g] = s.strNode("t."+g, v), s.strNode("p."+g, v)
				}
			}
			match := true
			v := s.str(f)
			s.assume(v, cStr(""), LT|GT)
			switch has {
			case "only the resource":
				t.vals[f], match = s.strNode(f, v), false
			case "only the patch":
				p.vals[f], match = s.strNode(f, v), false
			case "resource null, patch absent":
				t.vals[f] = s.bare(f, "Null")
			case "resource absent, patch null":
				p.vals[f] = s.bare(f, "Null")
			case "both null":
				t.vals[f], p.vals[f] = s.bare(f, "Null"), s.bare(f, "Null")
			case "resource null":
				t.vals[f], p.vals[f], match = s.bare(f, "Null"), s.strNode(f, v), false
			}
			single("a field only one of them has is a difference", s.Name, s, t, p, match)
		}
	}
	// strings whose concatenations coincide
	for i := 0; i+1 < len(idFields); i++ {
		for _, sep := range []string{"/", ".", ":", "-", " ", ""} {
			s := w.scn(fmt.Sprintf("%s and %s shifted around %q", idFields[i], idFields[i+1], sep))
			t, p := &resource{s: s, vals: map[string]Ptr{}}, &resource{s: s, vals: map[string]Ptr{}}
			for j, f := range idFields {
				if j != i && j != i+1 {
					v := s.ident(f)
					t.vals[f], p.vals[f] = s.strNode("t."+f, v), s.strNode("p."+f, v)
				}
			}
			x, y, z := s.ident("x"), s.ident("y"), s.ident("z")
			a1, a2 := mkCat(x, cStr(sep), y), z
			b1, b2 := x, mkCat(y, cStr(sep), z)
			s.assume(a1, b1, LT|GT)
			s.assume(a2, b2, LT|GT)
			t.vals[idFields[i]], t.vals[idFields[i+1]] = s.strNode("a1", a1), s.strNode("a2", a2)
			p.vals[idFields[i]], p.vals[idFields[i+1]] = s.strNode("b1", b1), s.strNode("b2", b2)
			single("fields are compared one by one", s.Name, s, t, p, false)
		}
	}
	// lists of resources and patches
	for nt := 0; nt <= 3; nt++ {
		for np := 0; np <= 2; np++ {
			for _, cells := range assignments(nt, np) {
				for _, root := range []bool{false, true} {
					s := w.scn(fmt.Sprintf("%d resources, %d patches, resources identified by %v, as documents: %v", nt, np, cells, root))
					s.In.Cap = 10
					ids := []Val{s.str("id0"), s.str("id1"), s.str("id2")}
					other := s.str("other")
					s.distinct(append(ids, other)...)
					api, kind := s.str("api"), s.str("kind")
					mk := func(l string, id Val, extra string) *resource {
						return &resource{s: s, vals: map[string]Ptr{
							"apiVersion": s.strNode(l+"a", api), "kind": s.strNode(l+"k", kind), "name": s.strNode(l+"n", id)},
							extra: []Val{cStr(extra), s.any(l + "x")}}
					}
					var ps []*resource
					var pn, tn []Ptr
					for j := 0; j < np; j++ {
						p := mk(fmt.Sprint("p", j), ids[j], fmt.Sprint("patched", j))
						ps = append(ps, p)
						pn = append(pn, p.node(fmt.Sprint("p", j)))
					}
					var ms []M
					for i := 0; i < nt; i++ {
						id := other
						if cells[i] >= 0 {
							id = ids[cells[i]]
						}
						t := mk(fmt.Sprint("t", i), id, "own")
						n := t.node(fmt.Sprint("t", i))
						tn = append(tn, n)
						if cells[i] >= 0 {
							ms = append(ms, t.merged(ps[cells[i]]))
						} else {
							ms = append(ms, same(n))
						}
					}
					targets := s.arrNode("targets", tn...)
					s.setField(targets, "IsDocumentRoot", cBool(root))
					outs := s.applyOp("k8s.patch", E, targets, s.arrNode("patches", pn...))
					s.exp(r, "every resource keeps its place", "patch of a list", outs, func(o Outcome) string {
						if m := s.noErr(o); m != "" {
							return m
						}
						if m := list(ms...)(s, o.St, o.Res[0]); m != "" {
							return "the result has " + m
						}
						if d := s.nodeField(o.St, o.Res[0], "IsDocumentRoot"); d.Key() != cBool(root).Key() {
							return "the result does not stay a list of documents, or becomes one"
						}
						return ""
					})
				}
			}
		}
	}
	// two patches for one resource
	for n := 2; n <= 3; n++ {
		s := w.scn(fmt.Sprintf("%d patches identify one resource", n))
		s.In.Cap = 10
		id := s.str("id")
		mk := func(l string) *resource {
			return &resource{s: s, vals: map[string]Ptr{"kind": s.strNode(l+"k", s.sym("kind", strT)), "name": s.strNode(l+"n", id)},
				extra: []Val{cStr("own" + l), s.any(l + "x")}}
		}
		t := mk("t")
		var ps []*resource
		var pn []Ptr
		for i := 0; i < n; i++ {
			p := mk(fmt.Sprint("p", i))
			ps = append(ps, p)
			pn = append(pn, p.node(fmt.Sprint("p", i)))
		}
		s.exact(r, "all patches of a resource are merged in order", "patch of a list", apply(s, []Ptr{t.node("t")}, pn), list(t.merged(ps...)))
	}
	// the type of the resource decides how lists are merged
	for _, mode := range []string{"replace", "append"} {
		s := w.scn("lists, type says " + mode)
		k := cStr("items")
		a, b := s.any("a"), s.any("b")
		id := s.str("id")
		t := &resource{s: s, vals: map[string]Ptr{"name": s.strNode("tn", id)}, extra: []Val{k, s.arrNode("tl", a)}}
		p := &resource{s: s, vals: map[string]Ptr{"name": s.strNode("pn", id)}, extra: []Val{k, s.arrNode("pl", b)}}
		f := map[string]Val{"Type": cStr("array"), "PatchStrategy": cStr("replace")}
		want := list(same(b))
		if mode == "append" {
			f["PatchStrategy"] = cStr("merge")
			want = list(same(a), same(b))
		}
		props := s.gomap("props", s.W.T.Schema.Underlying().(structType).Field(s.fieldIdx(s.W.T.Schema, "Properties")).Type(), k, s.schema("sub", f))
		tn := t.node("t")
		s.setField(tn, "Type", s.schema("sch", map[string]Val{"Type": cStr("object"), "Properties": props}))
		s.exp(r, "lists are merged as the type of the resource says", "patch of one resource", apply(s, []Ptr{tn}, []Ptr{p.node("p")}), func(o Outcome) string {
			if m := s.noErr(o); m != "" {
				return m
			}
			el, ok := s.elems(o.St, o.Res[0])
			if !ok || len(el) != 1 {
				return "the result is not one resource"
			}
			es, _ := s.entries(o.St, el[0])
			for _, e := range es {
				if e.K.Key() == k.Key() {
					if m := want(s, o.St, e.V); m != "" {
						return "the merged list is " + m
					}
					return ""
				}
			}
			return "the list is lost"
		})
	}
	// wrong shapes
	for _, k := range allKinds {
		if k == "Map" {
			continue
		}
		for _, who := range []string{"resource", "patch"} {
			s := w.scn("a " + who + " of kind " + k)
			t, p := s.mapNode("t", cStr("kind"), s.strNode("k", s.str("k"))), s.mapNode("p", cStr("kind"), s.strNode("k2", s.str("k")))
			if who == "patch" {
				p = s.bare("p", k)
			} else {
				t = s.bare("t", k)
			}
			s.expErr(r, "resources and patches are maps", "patch of one resource", apply(s, []Ptr{t}, []Ptr{p}))
			s = w.scn("metadata of kind " + k + " in the " + who)
			t, p = s.mapNode("t", cStr("kind"), s.strNode("k", s.str("k"))), s.mapNode("p", cStr("kind"), s.strNode("k2", s.str("k")))
			bad := s.mapNode("bad", cStr("metadata"), s.bare("m", k))
			if who == "patch" {
				p = bad
			} else {
				t = bad
			}
			s.expErr(r, "metadata is a map", "patch of one resource", apply(s, []Ptr{t}, []Ptr{p}))
		}
	}
	for _, f := range idFields {
		for _, k := range []string{"Int", "Bool", "Float", "Array", "Map", "Lambda", "Type"} {
			s := w.scn(fmt.Sprintf("%s of kind %s", f, k))
			t, p := &resource{s: s, vals: map[string]Ptr{}}, &resource{s: s, vals: map[string]Ptr{}}
			for _, g := range idFields {
				v := s.str(g)
				t.vals[g], p.vals[g] = s.strNode("t."+g, v), s.strNode("p."+g, v)
			}
			t.vals[f], p.vals[f] = s.bare("t."+f, k), s.bare("p."+f, k)
			s.expErr(r, "an identifying field that is not text identifies nothing", "patch of one resource", apply(s, []Ptr{t.node("t")}, []Ptr{p.node("p")}))
		}
	}
	for n := 0; n <= 3; n++ {
		if n == 2 {
			continue
		}
		s := w.scn(fmt.Sprintf("%d arguments", n))
		var as []Ptr
		for i := 0; i < n; i++ {
			as = append(as, s.arrNode("x"))
		}
		s.expErr(r, "exactly two arguments", "Kubernetes patch", s.applyOp("k8s.patch", E, as...))
	}
}

// assignments lists, for nt resources, which of np patches (or -1) identifies each.
func assignments(nt, np int) [][]int {
	out := [][]int{nil}
	for i := 0; i < nt; i++ {
		var next [][]int
		for _, a := range out {
			for j := -1; j < np; j++ {
				next = append(next, append(append([]int(nil), a...), j))
			}
		}
		out = next
	}
	return out
}
