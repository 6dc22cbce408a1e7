package main

import "fmt"

func init() {
	register(&Check{ID: "C33", Min: 40, Rule: "Deep merging, reached through the merge operator, is analysed on pairs of maps for every arrangement of up to three keys over base, overlay or both, with values of every pairing of kinds, nested maps, and lists under no type, a replacing, an appending and a keyed merge type: each entry of the result must be the base's own, the overlay's own or the merge of both, in base order followed by the overlay's new keys.", Run: runC33})
}

func (s *Scn) schema(label string, kv map[string]Val) Ptr {
	return s.alloc(label, s.W.T.Schema, s.strct(s.W.T.Schema, kv))
}

func runC33(r *Report) {
	w := r.W()
	E := w.T.ModeEval
	// every distribution of keys
	for code := 0; code < 27; code++ {
		s := w.scn("")
		var kb, ko []Val
		var want []kv
		var late []kv
		name := ""
		c := code
		var keys []Val
		for i := 0; i < 3; i++ {
			k := s.str(fmt.Sprint("k", i))
			keys = append(keys, k)
			b, o := s.any(fmt.Sprint("b", i)), s.any(fmt.Sprint("o", i), "Map", "Array")
			switch c % 3 {
			case 0:
				kb = append(kb, k, b)
				want = append(want, kv{k, same(b)})
				name += "base "
			case 1:
				ko = append(ko, k, o)
				late = append(late, kv{k, same(o)})
				name += "overlay "
			case 2:
				kb = append(kb, k, b)
				ko = append(ko, k, o)
				want = append(want, kv{k, same(o)})
				name += "both "
			}
			c /= 3
		}
		s.distinct(keys...)
		s.Name = "keys in " + name
		outs := s.applyOp("maps.merge", E, s.mapNode("base", kb...), s.mapNode("overlay", ko...))
		s.exact(r, "base entries kept, overlay entries win", "merge of maps", outs, dict(append(want, late...)...))
	}
	// values under one key
	for _, kb := range allKinds {
		for _, ko := range allKinds {
			if kb == ko && (kb == "Map" || kb == "Array") {
				continue
			}
			s := w.scn(kb + " under " + ko)
			k := s.str("k")
			b, o := s.bare("b", kb), s.bare("o", ko)
			outs := s.applyOp("maps.merge", E, s.mapNode("base", k, b), s.mapNode("overlay", k, o))
			s.exact(r, "the overlay's value wins", "merge of maps", outs, dict(kv{k, same(o)}))
		}
	}
	{ // nested maps, two levels
		s := w.scn("nested maps")
		k, a, b, c, d := s.str("k"), s.str("a"), s.str("b"), s.str("c"), s.str("d")
		s.distinct(k, a, b, c, d)
		v := func(l string) Ptr { return s.any(l, "Map", "Array") }
		v1, v2, v3, v4, v5, v6 := v("1"), v("2"), v("3"), v("4"), v("5"), v("6")
		base := s.mapNode("base", k, s.mapNode("bk", a, v1, b, s.mapNode("bb", c, v2, d, v3)))
		over := s.mapNode("over", k, s.mapNode("ok", b, s.mapNode("ob", d, v4, a, v5), c, v6))
		s.exact(r, "maps are merged at every depth", "merge of maps", s.applyOp("maps.merge", E, base, over),
			dict(kv{k, dict(kv{a, same(v1)}, kv{b, dict(kv{c, same(v2)}, kv{d, same(v4)}, kv{a, same(v5)})}, kv{c, same(v6)})}))
	}
	{ // three operands
		s := w.scn("three maps")
		a, b, c := s.str("a"), s.str("b"), s.str("c")
		s.distinct(a, b, c)
		v := func(l string) Ptr { return s.any(l, "Map", "Array") }
		v1, v2, v3, v4, v5 := v("1"), v("2"), v("3"), v("4"), v("5")
		outs := s.applyOp("maps.merge", E, s.mapNode("x", a, v1, b, v2), s.mapNode("y", b, v3), s.mapNode("z", a, v4, c, v5))
		s.exact(r, "later maps override earlier ones", "merge of maps", outs, dict(kv{a, same(v4)}, kv{b, same(v3)}, kv{c, same(v5)}))
		s = w.scn("one map")
		m := s.mapNode("x", a, v1)
		s.exact(r, "a single map", "merge of maps", s.applyOp("maps.merge", E, m), dict(kv{a, anyNode()}))
	}
	// lists
	for nb := 0; nb <= 2; nb++ {
		for no := 0; no <= 2; no++ {
			for _, mode := range []string{"no type", "replace", "append"} {
				s := w.scn(fmt.Sprintf("lists of %d and %d, %s", nb, no, mode))
				k := s.str("k")
				mk := func(l string, n int) (ps []Ptr) {
					for i := 0; i < n; i++ {
						ps = append(ps, s.any(fmt.Sprint(l, i)))
					}
					return
				}
				b, o := mk("b", nb), mk("o", no)
				var want []M
				if mode == "append" {
					for _, p := range b {
						want = append(want, same(p))
					}
				}
				for _, p := range o {
					want = append(want, same(p))
				}
				base, over := s.mapNode("base", k, s.arrNode("bl", b...)), s.mapNode("over", k, s.arrNode("ol", o...))
				if mode != "no type" {
					f := map[string]Val{"Type": cStr("array"), "PatchStrategy": cStr("replace")}
					if mode == "append" {
						f["PatchStrategy"] = cStr("merge")
					}
					sub := s.schema("sub", f)
					props := s.gomap("props", s.W.T.Schema.Underlying().(structType).Field(s.fieldIdx(s.W.T.Schema, "Properties")).Type(), k, sub)
					s.setField(over, "Type", s.schema("sch", map[string]Val{"Type": cStr("object"), "Properties": props}))
				}
				s.exact(r, "lists follow the declared strategy", "merge of lists", s.applyOp("maps.merge", E, base, over), dict(kv{k, list(want...)}))
			}
		}
	}
	// keyed lists
	for nb := 0; nb <= 2; nb++ {
		for hit := -1; hit < nb; hit++ {
			for no := 1; no <= 2; no++ {
				for _, field := range []string{"PatchMergeKey", "K8sPatchMergeKey"} {
					s := w.scn(fmt.Sprintf("%d keyed items, overlay of %d, first overlay item names item %d, declared by %s", nb, no, hit, field))
					k, mkey, x, y := s.str("k"), cStr("name"), s.str("x"), s.str("y")
					s.distinct(x, y, mkey)
					var names []Val
					var b, o []Ptr
					var want []M
					var bx []Ptr
					for i := 0; i < nb; i++ {
						nm := s.str(fmt.Sprint("n", i))
						names = append(names, nm)
						nn, xv := s.strNode("nn", nm), s.any(fmt.Sprint("bx", i))
						bx = append(bx, xv)
						b = append(b, s.mapNode(fmt.Sprint("b", i), mkey, nn, x, xv))
					}
					on := s.str("on")
					for i, nm := range names {
						if i == hit {
							s.assume(on, nm, EQ)
						} else {
							s.assume(on, nm, LT|GT)
						}
					}
					s.distinct(names...)
					onn, oy := s.strNode("onn", on), s.any("oy")
					o = append(o, s.mapNode("o", mkey, onn, y, oy))
					for i := range b {
						if i == hit {
							want = append(want, dict(kv{mkey, same(onn)}, kv{x, same(bx[i])}, kv{y, same(oy)}))
						} else {
							want = append(want, same(b[i]))
						}
					}
					if hit < 0 {
						want = append(want, same(o[0]))
					}
					if no == 2 {
						n2 := s.str("on2")
						for _, x := range append([]Val{on}, names...) {
							s.assume(n2, x, LT|GT)
						}
						o = append(o, s.mapNode("o2", mkey, s.strNode("on2n", n2)))
						want = append(want, same(o[1]))
					}
					st := "PatchStrategy"
					if field == "K8sPatchMergeKey" {
						st = "K8sPatchStrategy"
					}
					sub := s.schema("sub", map[string]Val{"Type": cStr("array"), st: cStr("merge"), field: mkey})
					props := s.gomap("props", s.W.T.Schema.Underlying().(structType).Field(s.fieldIdx(s.W.T.Schema, "Properties")).Type(), k, sub)
					base, over := s.mapNode("base", k, s.arrNode("bl", b...)), s.mapNode("over", k, s.arrNode("ol", o...))
					s.setField(over, "Type", s.schema("sch", map[string]Val{"Type": cStr("object"), "Properties": props}))
					s.exact(r, "items are matched by the declared key", "merge of lists", s.applyOp("maps.merge", E, base, over), dict(kv{k, list(want...)}))
				}
			}
		}
	}
	// items without the key
	s := w.scn("an overlay item lacks the merge key")
	k, mkey := s.str("k"), cStr("name")
	a := s.str("a")
	s.assume(a, mkey, LT|GT)
	sub := s.schema("sub", map[string]Val{"Type": cStr("array"), "PatchStrategy": cStr("merge"), "PatchMergeKey": mkey})
	props := s.gomap("props", s.W.T.Schema.Underlying().(structType).Field(s.fieldIdx(s.W.T.Schema, "Properties")).Type(), k, sub)
	base := s.mapNode("base", k, s.arrNode("bl", s.mapNode("b", mkey, s.any("n"))))
	over := s.mapNode("over", k, s.arrNode("ol", s.mapNode("o", a, s.any("v"))))
	s.setField(over, "Type", s.schema("sch", map[string]Val{"Type": cStr("object"), "Properties": props}))
	s.expErr(r, "items without the key are an error", "merge of lists", s.applyOp("maps.merge", E, base, over))
}
