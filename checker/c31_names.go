package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register(&Check{ID: "C31", Min: 150, Rule: "Symbol evaluation is analysed for every arrangement of one to four nested scopes in which a name (any identifier) is or is not defined, for one to three dotted segments with and without the optional mark, selecting from maps of either representation; the value must be the one of the innermost defining scope and of the selected members, identically the same object, null for missing optional parts and an error otherwise. Anchors are analysed in nested scopes: afterwards the name reads as the value from the outermost scope, every other name and scope is as before, and an anchored lambda sees itself.", Run: runC31})
}

func (s *Scn) symNode(label string, name Val) Ptr { return s.node(label, "Symbol", s.anyStr(name)) }

// module is what an import binds: a map node over a plain map of nodes.
func (s *Scn) module(label string, kv ...Val) Ptr {
	mt := types.NewMap(strT, s.W.T.NodePtr)
	return s.node(label, "Map", Iface{mt, s.gomap(label+".vars", mt, kv...)})
}

func runC31(r *Report) {
	w := r.W()
	// plain names
	for _, mode := range []int{w.T.ModeEval, w.T.ModeQuote} {
		for depth := 1; depth <= 4; depth++ {
			for def := 0; def < 1<<depth; def++ {
				for _, opt := range []bool{false, true} {
					s := w.scn(fmt.Sprintf("%d scopes, defined in %0*b, optional %v, mode %d", depth, depth, def, opt, mode))
					s.In.Cap = 8
					name, other := s.ident("name"), s.ident("other")
					s.distinct(name, other)
					var parent Val
					var nearest Val
					for d := 0; d < depth; d++ {
						kv := []Val{other, s.any(fmt.Sprint("o", d))}
						if def&(1<<d) != 0 {
							n := s.any(fmt.Sprint("v", d))
							nearest = n
							kv = append(kv, name, n)
						}
						parent = s.env(fmt.Sprint("scope", d), parent, kv...)
					}
					sym := name
					if opt {
						sym = mkCat(name, cStr("?"))
					}
					before := s.St.clone()
					outs := s.evalIn(s.symNode("sym", sym), parent.(Ptr), mode, nil)
					switch {
					case nearest != nil:
						s.expNode(r, "a name reads as its innermost definition", "symbol", outs, nearest)
					case opt:
						s.expVal(r, "an undefined optional name is null", "symbol", outs, "Null", nil)
					default:
						s.expErr(r, "an undefined name is an error", "symbol", outs)
					}
					s.exp(r, "looking up a name changes no scope", "symbol", outs, func(o Outcome) string {
						if d := s.unchanged(before, o.St); d != "" {
							return "looking up a name changes " + d
						}
						return ""
					})
				}
			}
		}
	}
	// dotted names
	for segs := 2; segs <= 3; segs++ {
		for missing := 0; missing <= segs; missing++ { // segment that is missing; segs: none
			for opt := 0; opt < 1<<segs; opt++ {
				for rep := 0; rep < 1<<(segs-1); rep++ {
					for shadow := 0; shadow < 2; shadow++ {
						if shadow == 1 && missing == 0 {
							continue
						}
						s := w.scn(fmt.Sprintf("%d segments, missing %d, optional %0*b, maps %0*b, shadowing %d", segs, missing, segs, opt, segs-1, rep, shadow))
						s.In.Cap = 8
						var names []Val
						for i := 0; i < segs; i++ {
							names = append(names, s.ident(fmt.Sprint("n", i)))
						}
						other := s.ident("other")
						s.distinct(append(names, other)...)
						final := s.any("final")
						cur := final
						for i := segs - 1; i >= 1; i-- {
							kv := []Val{other, s.any("ov")}
							if i != missing {
								kv = append(kv, names[i], cur)
							}
							if rep&(1<<(i-1)) != 0 {
								cur = s.module(fmt.Sprint("m", i), kv...)
							} else {
								cur = s.mapNode(fmt.Sprint("m", i), kv...)
							}
						}
						var outer, inner []Val
						if missing != 0 {
							inner = append(inner, names[0], cur)
						}
						if shadow == 1 {
							// an outer definition that has every member
							c2 := s.any("shadowed")
							for i := segs - 1; i >= 1; i-- {
								c2 = s.mapNode(fmt.Sprint("sm", i), names[i], c2)
							}
							outer = append(outer, names[0], c2)
						}
						env := s.env("inner", s.env("outer", nil, outer...), inner...)
						var ps []Val
						for i, n := range names {
							if i > 0 {
								ps = append(ps, cStr("."))
							}
							ps = append(ps, n)
							if opt&(1<<i) != 0 {
								ps = append(ps, cStr("?"))
							}
						}
						outs := s.evalIn(s.symNode("sym", mkCat(ps...)), env, w.T.ModeEval, nil)
						switch {
						case missing == segs:
							s.expNode(r, "dotted names select members", "dotted symbol", outs, final)
						case opt&(1<<missing) != 0:
							s.expVal(r, "a missing optional member is null", "dotted symbol", outs, "Null", nil)
						default:
							s.expErr(r, "a missing member is an error", "dotted symbol", outs)
						}
					}
				}
			}
		}
	}
	// selecting from something that is not a map
	for _, k := range allKinds {
		if k == "Map" {
			continue
		}
		s := w.scn("selecting from " + k)
		a, b := s.ident("a"), s.ident("b")
		s.distinct(a, b)
		env := s.env("env", nil, a, s.bare("v", k))
		outs := s.evalIn(s.symNode("sym", mkCat(a, cStr("."), b)), env, w.T.ModeEval, nil)
		s.expErr(r, "only maps have members", "dotted symbol", outs)
	}
	// malformed names
	for _, bad := range []string{"", ".", "?", "..", "a.", ".a", "?.?", "a..b"} {
		s := w.scn(fmt.Sprintf("symbol %q", bad))
		env := s.env("env", nil, cStr("a"), s.mapNode("v", cStr("b"), s.any("w")))
		outs := s.evalIn(s.symNode("sym", cStr(bad)), env, w.T.ModeEval, nil)
		if strings.Contains(bad, "?") {
			s.exp(r, "malformed names never crash", "symbol", outs, func(o Outcome) string { return "" })
			continue
		}
		s.expErr(r, "malformed names are errors", "symbol", outs)
	}
	// anchors
	for _, mode := range []int{w.T.ModeEval, w.T.ModeQuote} {
		for depth := 1; depth <= 3; depth++ {
			for _, k := range []string{"Null", "Bool", "Int", "Float", "String", "Array", "Map", "Lambda"} {
				if k == "Lambda" && mode == w.T.ModeQuote {
					continue
				}
				for _, redefined := range []bool{false, true} {
					s := w.scn(fmt.Sprintf("anchored %s in scope %d, mode %d, defined before %v", k, depth, mode, redefined))
					s.In.Cap = 8
					name, other := s.ident("name"), s.ident("other")
					s.distinct(name, other)
					var envs []Ptr
					var parent Val
					for d := 0; d < depth; d++ {
						kv := []Val{other, s.any(fmt.Sprint("o", d))}
						if redefined && d == 0 {
							kv = append(kv, name, s.any("old"))
						}
						e := s.env(fmt.Sprint("scope", d), parent, kv...)
						envs = append(envs, e)
						parent = e
					}
					var n Ptr
					switch k {
					case "Lambda":
						n = s.arrNode("expr", s.strNode("kw", cStr("lambda")), s.arrNode("ps"), s.any("body"))
					case "Array":
						n = s.arrNode("data")
					case "Map":
						n = s.mapNode("data")
					default:
						n = s.bare("data", k)
					}
					s.setField(n, "Anchor", name)
					before := s.St.clone()
					outs := s.evalIn(n, envs[depth-1], mode, nil)
					s.exp(r, "an anchor names its value in the whole document", "anchor", outs, func(o Outcome) string {
						if e := s.noErr(o); e != "" {
							return e
						}
						if kk := s.kindOf(o.St, o.Res[0]); kk != k {
							return "the anchored value has kind " + kk
						}
						for d := range envs {
							if got := s.lookup(s.In, o.St, envs[d], name); got != o.Res[0].Key() {
								return fmt.Sprintf("in scope %d the name reads as %s instead of %s", d, got, o.Res[0].Key())
							}
							if got, was := s.lookup(s.In, o.St, envs[d], other), s.lookup(s.In, before, envs[d], other); got != was {
								return fmt.Sprintf("in scope %d another name changed from %s to %s", d, was, got)
							}
						}
						if d := s.unchanged(before, o.St, "scope0"); d != "" {
							return "the anchor changes " + d
						}
						if k == "Lambda" {
							lam := s.value(o.St, o.Res[0])
							cl := s.field(o.St, lam, w.T.Lambda, "Clojure")
							if got := s.lookup(s.In, o.St, cl, name); got != o.Res[0].Key() {
								return "inside the lambda its own name reads as " + got
							}
						}
						return ""
					})
				}
			}
		}
	}
	// parameters shadow document names only inside the body: see the lambda check
}
