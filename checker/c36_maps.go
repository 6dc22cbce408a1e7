package main

import "fmt"

func init() {
	register(&Check{ID: "C36", Min: 60, Rule: "The map operators, reached through the operator table, are analysed on maps of zero to four entries with opaque, pairwise different keys and opaque values: keys, values and entries must be the map's own, in its order; building a map from the entries taken from a map must restore it; looking a key up must give the value stored under exactly that key and an error when there is none; alternating operands must become the entries they spell. Operands of another kind, incomplete pairs and keys that are not strings must give an error.", Run: runC36})
}

func runC36(r *Report) {
	w := r.W()
	E := w.T.ModeEval
	mk := func(s *Scn, n int) (keys []Val, vals []Ptr, m Ptr) {
		var kvs []Val
		for i := 0; i < n; i++ {
			k, v := s.str(fmt.Sprint("k", i)), s.any(fmt.Sprint("v", i))
			keys, vals = append(keys, k), append(vals, v)
			kvs = append(kvs, k, v)
		}
		s.distinct(keys...)
		return keys, vals, s.mapNode("m", kvs...)
	}
	for n := 0; n <= 4; n++ {
		lab := fmt.Sprintf("map of %d", n)
		var ms []M
		s := w.scn(lab)
		ks, vs, m := mk(s, n)
		for _, k := range ks {
			ms = append(ms, is("String", k))
		}
		s.exact(r, "keys in order", "operator maps.keys", s.applyOp("maps.keys", E, m), list(ms...))

		s = w.scn(lab)
		_, vs, m = mk(s, n)
		ms = nil
		for _, v := range vs {
			ms = append(ms, same(v))
		}
		s.exact(r, "values in order", "operator maps.values", s.applyOp("maps.values", E, m), list(ms...))

		s = w.scn(lab)
		ks, vs, m = mk(s, n)
		ms = nil
		var es []kv
		for i := range ks {
			ms = append(ms, list(is("String", ks[i]), same(vs[i])))
			es = append(es, kv{ks[i], same(vs[i])})
		}
		outs := s.applyOp("maps.to-entries", E, m)
		if s.exact(r, "entries in order", "operator maps.to-entries", outs, list(ms...)) && len(outs) == 1 {
			s.St = outs[0].St
			if p, ok := outs[0].Res[0].(Ptr); ok {
				s.Name = "entries of a " + lab
				s.exact(r, "entries restore the map", "operator maps.from-entries", s.applyOp("maps.from-entries", E, p), dict(es...))
			}
		}
		for hit := 0; hit < n; hit++ {
			s = w.scn(fmt.Sprintf("%s, key %d", lab, hit))
			ks, vs, m = mk(s, n)
			q := s.str("q")
			for i := range ks {
				if i == hit {
					s.assume(q, ks[i], EQ)
				} else {
					s.assume(q, ks[i], LT|GT)
				}
			}
			s.expNode(r, "value under a key", "operator maps.get", s.applyOp("maps.get", E, m, s.strNode("q", q)), vs[hit])
		}
		s = w.scn(lab + ", no such key")
		ks, _, m = mk(s, n)
		q := s.str("q")
		for i := range ks {
			s.assume(q, ks[i], LT|GT)
		}
		s.expErr(r, "absent keys", "operator maps.get", s.applyOp("maps.get", E, m, s.strNode("q", q)))

		// construction from alternating operands
		s = w.scn(lab)
		ks, vs, _ = mk(s, n)
		var args []Ptr
		es = nil
		for i := range ks {
			args = append(args, s.strNode("kn", ks[i]), vs[i])
			es = append(es, kv{ks[i], same(vs[i])})
		}
		s.exact(r, "alternating keys and values", "operator maps.make", s.applyOp("maps.make", E, args...), dict(es...))
		s = w.scn(fmt.Sprintf("%d keys, the last without value", n+1))
		ks, vs, _ = mk(s, n)
		args = nil
		for i := range ks {
			args = append(args, s.strNode("kn", ks[i]), vs[i])
		}
		s.expErr(r, "incomplete pairs", "operator maps.make", s.applyOp("maps.make", E, append(args, s.strNode("last", s.str("last")))...))
	}
	// a repeated key keeps its place and takes the later value
	for _, op := range []string{"maps.make", "maps.from-entries"} {
		s := w.scn("a repeated key")
		a, b := s.str("a"), s.str("b")
		s.distinct(a, b)
		v := []Ptr{s.any("v0"), s.any("v1"), s.any("v2")}
		k := []Val{a, b, a}
		var args []Ptr
		var pairs []Ptr
		for i := range v {
			kn := s.strNode("kn", k[i])
			args = append(args, kn, v[i])
			pairs = append(pairs, s.arrNode("pair", kn, v[i]))
		}
		if op == "maps.from-entries" {
			args = []Ptr{s.arrNode("entries", pairs...)}
		}
		s.exact(r, "the later value of a repeated key", "operator "+op, s.applyOp(op, E, args...), dict(kv{a, same(v[2])}, kv{b, same(v[1])}))
	}
	for n := 0; n <= 4; n++ {
		if n == 2 {
			continue
		}
		s := w.scn(fmt.Sprintf("an entry of %d elements", n))
		var el []Ptr
		for i := 0; i < n; i++ {
			el = append(el, s.strNode(fmt.Sprint("e", i), s.str(fmt.Sprint("e", i))))
		}
		s.expErr(r, "incomplete pairs", "operator maps.from-entries", s.applyOp("maps.from-entries", E, s.arrNode("entries", s.arrNode("entry", el...))))
	}
	for _, k := range allKinds {
		if k != "String" && k != "Symbol" && k != "Parameter" {
			s := w.scn("a " + k + " as key")
			s.expErr(r, "keys are strings", "operator maps.from-entries", s.applyOp("maps.from-entries", E, s.arrNode("entries", s.arrNode("entry", s.bare("key", k), s.any("v")))))
			s = w.scn("a " + k + " as key")
			s.expErr(r, "keys are strings", "operator maps.make", s.applyOp("maps.make", E, s.bare("key", k), s.any("v")))
			s = w.scn("a " + k + " as key")
			s.expErr(r, "keys are strings", "operator maps.get", s.applyOp("maps.get", E, s.mapNode("m", cStr("a"), s.any("v")), s.bare("key", k)))
		}
		if k != "Map" {
			for _, op := range []string{"maps.keys", "maps.values", "maps.to-entries", "maps.get"} {
				s := w.scn("a " + k + " in place of the map")
				args := []Ptr{s.bare("m", k)}
				if op == "maps.get" {
					args = append(args, s.strNode("q", s.str("q")))
				}
				s.expErr(r, "only maps are accepted", "operator "+op, s.applyOp(op, E, args...))
			}
		}
		if k != "Array" {
			s := w.scn("a " + k + " in place of the entries")
			s.expErr(r, "only lists of entries are accepted", "operator maps.from-entries", s.applyOp("maps.from-entries", E, s.bare("m", k)))
			s = w.scn("a " + k + " in place of an entry")
			s.expErr(r, "only lists of entries are accepted", "operator maps.from-entries", s.applyOp("maps.from-entries", E, s.arrNode("entries", s.bare("m", k))))
		}
	}
	for op, n := range map[string]int{"maps.keys": 1, "maps.values": 1, "maps.to-entries": 1, "maps.get": 2, "maps.from-entries": 1} {
		for c := 0; c < n; c++ {
			s := w.scn(fmt.Sprintf("%d operands", c))
			var args []Ptr
			for i := 0; i < c; i++ {
				args = append(args, s.mapNode("m"))
			}
			s.expErr(r, "missing operands", "operator "+op, s.applyOp(op, E, args...))
		}
	}
}
