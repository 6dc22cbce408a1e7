package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C24", Min: 150, Rule: "Includes, imports, file reads and globs are analysed with the path written in a document at every class of location (absolute, nested, relative, URL) and every class of path (plain, dot, parent, nested, absolute, URL, directory), with the working directory unknown and the calling scope's document elsewhere. The file opened or URL fetched, and the location handed to the evaluator, must be the path joined to the directory of the document it is written in. Parsing is analysed for every node kind: each node must carry the location of its document.", Run: runC24})
}

type place struct {
	name string
	base func(s *Scn) Val
	dir  func(s *Scn) Val // absolute directory, or URL prefix
	url  bool
}

func places() []place {
	return []place{
		{"absolute location", func(s *Scn) Val { return mkCat(cStr("/"), s.ident("d"), cStr("/"), s.ident("f"), cStr(".yisp")) },
			func(s *Scn) Val { return mkCat(cStr("/"), s.ident("d")) }, false},
		{"nested absolute location", func(s *Scn) Val {
			return mkCat(cStr("/"), s.ident("d0"), cStr("/"), s.ident("d"), cStr("/"), s.ident("f"), cStr(".yisp"))
		},
			func(s *Scn) Val { return mkCat(cStr("/"), s.ident("d0"), cStr("/"), s.ident("d")) }, false},
		{"relative location", func(s *Scn) Val { return mkCat(s.ident("d"), cStr("/"), s.ident("f"), cStr(".yisp")) },
			func(s *Scn) Val { return mkCat(cStr("/"), s.wd(), cStr("/"), s.ident("d")) }, false},
		{"location in the working directory", func(s *Scn) Val { return mkCat(s.ident("f"), cStr(".yisp")) },
			func(s *Scn) Val { return mkCat(cStr("/"), s.wd()) }, false},
		{"URL", func(s *Scn) Val {
			return mkCat(cStr("https://"), s.ident("host"), cStr("/"), s.ident("d"), cStr("/"), s.ident("f"), cStr(".yisp"))
		},
			func(s *Scn) Val { return mkCat(cStr("https://"), s.ident("host"), cStr("/"), s.ident("d")) }, true},
	}
}

type refPath struct {
	name string
	v    func(s *Scn) Val
	// join gives the result below a directory
	abs, url, glob bool
}

func refPaths() []refPath {
	g := func(s *Scn) Val { return mkCat(s.ident("g"), cStr(".yisp")) }
	pre := func(p string) func(s *Scn) Val { return func(s *Scn) Val { return mkCat(cStr(p), g(s)) } }
	return []refPath{
		{"plain", g, false, false, false},
		{"./", pre("./"), false, false, false},
		{"../", pre("../"), false, false, false},
		{"nested", func(s *Scn) Val { return mkCat(s.ident("sub"), cStr("/"), g(s)) }, false, false, false},
		{"./ nested", func(s *Scn) Val { return mkCat(cStr("./"), s.ident("sub"), cStr("/"), g(s)) }, false, false, false},
		{"../ nested", func(s *Scn) Val { return mkCat(cStr("../"), s.ident("sub"), cStr("/"), g(s)) }, false, false, false},
		{"dotted file name", func(s *Scn) Val { return mkCat(cStr("."), g(s)) }, false, false, false},
		{"absolute", func(s *Scn) Val { return mkCat(cStr("/"), s.ident("e"), cStr("/"), g(s)) }, true, false, false},
		{"URL", func(s *Scn) Val { return mkCat(cStr("https://"), s.ident("other"), cStr("/"), g(s)) }, false, true, false},
	}
}

// target is the expected log entry for a reference from a place.
func target(s *Scn, p place, ref refPath) Val {
	v := ref.v(s)
	s.distinct(s.ident("f"), s.ident("g"))
	q := &standIn{s.St, map[string]Val{}}
	switch {
	case ref.url:
		return mkTerm("get", intT, v)
	case p.url:
		d, _ := q.text(p.dir(s))
		r, _ := q.text(v)
		i := strings.Index(d[8:], "/") + 8
		if ref.abs {
			return mkTerm("get", intT, q.val(d[:i]+r))
		}
		return mkTerm("get", intT, q.val(d[:i]+cleanJoin(d[i:], r)))
	case ref.abs:
		return mkTerm("open", intT, s.clean(v))
	}
	return mkTerm("open", intT, s.clean(mkCat(p.dir(s), cStr("/"), v)))
}

func cleanJoin(a, b string) string { return filepathJoin(a, b) }

func runC24(r *Report) {
	w := r.W()
	E := w.T.ModeEval
	// expect exactly one access, to want
	accesses := func(s *Scn, loc Val, want ...Val) func(o Outcome) string {
		return func(o Outcome) string {
			if e := s.noErr(o); e != "" {
				return e
			}
			l, ok := logOf(o.St)
			if !ok {
				return "what is read is not determined"
			}
			var got []Val
			for _, x := range l {
				if t := x.(*Term); t.Op == "glob" {
					continue
				}
				got = append(got, x)
			}
			if logKeys(got) != logKeys(want) {
				return "what is read is [" + logKeys(got) + "] instead of [" + logKeys(want) + "]"
			}
			return ""
		}
	}
	ran := func(s **Scn) Hook {
		return w.mock("Run", func(c *Call, n int, a []Val) []Outcome {
			appendLog(c.St, mkTerm("run", intT, (*s).clean(a[2])))
			id := c.In.objID(c.Site, "docs")
			x := *s
			c.St.heap[id+"a"] = &Obj{Kind: OArr, Known: true, T: w.T.AnySlice}
			c.St.heap[id] = &Obj{Kind: OCell, T: w.T.Node, V: x.strct(w.T.Node, map[string]Val{"Kind": cInt(w.T.Kind["Array"]), "IsDocumentRoot": cBool(true), "Value": Iface{w.T.AnySlice, Slice{Obj: id + "a", Known: true, T: w.T.AnySlice}}})}
			return []Outcome{{c.St, []Val{Ptr{id, "", w.T.Node}, Nil{}}}}
		})
	}
	loc := func(t Val) Val { return t.(*Term).Args[0] }
	for _, p := range places() {
		for _, ref := range refPaths() {
			// include
			for _, matched := range []bool{false, true} {
				if matched && (ref.abs || ref.url || p.url || strings.HasPrefix(ref.name, "../")) {
					continue
				}
				var s *Scn
				s = w.scn(fmt.Sprintf("include of %s path in a document at %s, found by pattern: %v", ref.name, p.name, matched), ran(&s))
				s.initLog()
				d := s.disk()
				base := p.base(s)
				want := target(s, p, ref)
				if matched {
					d.matches = func(dir, pattern Val) []Val {
						if dir.Key() == s.clean(p.dir(s)).Key() {
							return []Val{pattern}
						}
						return nil
					}
				}
				outs := s.applyOp("include", E, s.strNode("path", ref.v(s), "Attr", s.attrIn(base)))
				s.exp(r, "an include reads next to its document", "include", outs, accesses(s, nil, want, mkTerm("run", intT, loc(want))))
			}
			// import
			var s *Scn
			s = w.scn(fmt.Sprintf("import of %s path in a document at %s", ref.name, p.name), ran(&s))
			s.initLog()
			s.disk()
			base := p.base(s)
			want := target(s, p, ref)
			at := s.attrIn(base)
			tup := s.node("tuple", "Array", s.arr(s.strNode("name", s.ident("mod"), "Attr", at), s.strNode("path", ref.v(s), "Attr", at)), "Attr", at)
			expr := s.node("expr", "Array", s.arr(s.strNode("kw", cStr("import"), "Attr", at), tup), "Attr", at)
			outs := s.eval(expr, E)
			s.exp(r, "an import reads next to its document", "import", outs, accesses(s, nil, want, mkTerm("run", intT, loc(want))))
			// files
			if p.url || ref.abs || ref.url {
				continue
			}
			s = w.scn(fmt.Sprintf("read of %s path in a document at %s", ref.name, p.name))
			s.initLog()
			s.disk()
			outs = s.applyOp("files.read", E, s.strNode("path", ref.v(s), "Attr", s.attrIn(p.base(s))))
			s.exp(r, "a file read reads next to its document", "files.read", outs, accesses(s, nil, target(s, p, ref)))
			if strings.HasPrefix(ref.name, "../") {
				continue
			}
			s = w.scn(fmt.Sprintf("glob of %s path in a document at %s", ref.name, p.name))
			s.initLog()
			d := s.disk()
			s.distinct(s.ident("f"), s.ident("g"))
			dir := s.clean(p.dir(s))
			d.matches = func(dd, pattern Val) []Val {
				if dd.Key() == dir.Key() {
					return []Val{pattern}
				}
				return nil
			}
			outs = s.applyOp("files.glob", E, s.strNode("path", ref.v(s), "Attr", s.attrIn(p.base(s))))
			s.exp(r, "a glob matches next to its document", "files.glob", outs, accesses(s, nil, target(s, p, ref)))
		}
	}
	// references written in different documents, side by side in one call
	for _, p := range places() {
		for _, ref := range refPaths() {
			for _, first := range []bool{true, false} {
				var s *Scn
				var a, b, wa, wb Val
				var na, nb Ptr
				mk := func(what string) *disk {
					s = w.scn(fmt.Sprintf("%s of %s path in a document at %s, next to one from elsewhere (first: %v)", what, ref.name, p.name, first), ran(&s))
					s.initLog()
					d := s.disk()
					s.distinct(s.ident("f"), s.ident("g"), s.ident("h"))
					a, b = ref.v(s), mkCat(s.ident("h"), cStr(".dat.yisp"))
					wa, wb = target(s, p, ref), mkTerm("open", intT, mkCat(cStr("/"), s.ident("elsewhere"), cStr("/"), b))
					na = s.strNode("a", a, "Attr", s.attrIn(p.base(s)))
					nb = s.strNode("b", b, "Attr", s.attrIn(mkCat(cStr("/"), s.ident("elsewhere"), cStr("/"), s.ident("f"), cStr(".yisp"))))
					if !first {
						wa, wb, na, nb = wb, wa, nb, na
					}
					return d
				}
				mk("include")
				outs := s.applyOp("include", E, na, nb)
				s.exp(r, "an include reads next to its document", "include", outs, accesses(s, nil, wa, mkTerm("run", intT, loc(wa)), wb, mkTerm("run", intT, loc(wb))))
				mk("import")
				tup := func(l string, n Ptr) Ptr {
					at := s.nodeField(s.St, n, "Attr")
					return s.node("tuple"+l, "Array", s.arr(s.strNode("name"+l, s.ident("mod"+l), "Attr", at), n), "Attr", at)
				}
				s.distinct(s.ident("mod1"), s.ident("mod2"))
				expr := s.node("expr", "Array", s.arr(s.strNode("kw", cStr("import"), "Attr", s.nodeField(s.St, nb, "Attr")), tup("1", na), tup("2", nb)))
				outs = s.eval(expr, E)
				s.exp(r, "an import reads next to its document", "import", outs, accesses(s, nil, wa, mkTerm("run", intT, loc(wa)), wb, mkTerm("run", intT, loc(wb))))
				if p.url || ref.abs || ref.url || strings.HasPrefix(ref.name, "../") {
					continue
				}
				d := mk("glob")
				near, far := s.clean(p.dir(s)).Key(), mkCat(cStr("/"), s.ident("elsewhere")).Key()
				d.matches = func(dd, pattern Val) []Val {
					if pattern.Key() == b.Key() && dd.Key() == far || pattern.Key() != b.Key() && dd.Key() == near {
						return []Val{pattern}
					}
					return nil
				}
				outs = s.applyOp("files.glob", E, na, nb)
				s.exp(r, "a glob matches next to its document", "files.glob", outs, accesses(s, nil, wa, wb))
			}
		}
	}
	// directories stand for their index document
	for _, p := range places() {
		if p.url {
			continue
		}
		var s *Scn
		s = w.scn("include of a directory in a document at "+p.name, ran(&s))
		s.initLog()
		d := s.disk()
		base := p.base(s)
		dirp := s.clean(mkCat(p.dir(s), cStr("/"), s.ident("sub")))
		d.isDir = func(x Val) bool { return x.Key() == dirp.Key() }
		want := mkTerm("open", intT, mkCat(dirp, cStr("/index.yisp")))
		outs := s.applyOp("include", E, s.strNode("path", s.ident("sub"), "Attr", s.attrIn(base)))
		s.exp(r, "a directory stands for its index document", "include", outs, accesses(s, nil, want, mkTerm("run", intT, loc(want))))
	}
	// the document on standard input
	{
		var s *Scn
		s = w.scn("standard input", ran(&s))
		s.initLog()
		s.disk()
		e, _ := s.engine(nil)
		env := s.env("env", nil)
		f := w.P.fn("core", "CallEngineByPath")
		outs := s.run(f, cStr("-"), cStr(""), env, iface(w.P.fn("engine", "NewEngine").Signature.Results().At(0).Type(), e))
		s.exp(r, "standard input is in the working directory", "document", outs, func(o Outcome) string {
			l, _ := logOf(o.St)
			if len(l) != 1 || l[0].(*Term).Op != "run" {
				return "what is read is [" + logKeys(l) + "]"
			}
			q := &standIn{s.St, map[string]Val{}}
			t, _ := q.text(loc(l[0]))
			dd, _ := q.text(s.clean(cStr(".")))
			if filepathDir(t) != dd {
				return "its location is " + loc(l[0]).Key()
			}
			return ""
		})
	}
	// parsing records the location
	ypkg := w.P.pkg("internal/yaml")
	nt := w.P.typ("internal/yaml", "Node")
	parse := w.P.fn("engine", "Parse")
	for _, k := range []string{"DocumentNode", "SequenceNode", "MappingNode", "ScalarNode", "AliasNode"} {
		s := w.scn("node kind " + k)
		file := s.str("location")
		child := func(l string) Ptr {
			return s.alloc(l, nt, s.strct(nt, map[string]Val{"Kind": cInt(constInt(ypkg, "ScalarNode")), "Tag": cStr("!!str"), "Value": s.ident(l)}))
		}
		var kids []Val
		switch k {
		case "DocumentNode":
			kids = []Val{child("c0")}
		case "SequenceNode":
			kids = []Val{child("c0"), child("c1")}
		case "MappingNode":
			kids = []Val{child("k0"), child("c0"), child("k1"), child("c1")}
			s.distinct(s.ident("k0"), s.ident("k1"), cStr("<<"))
		}
		m := map[string]Val{"Kind": cInt(constInt(ypkg, k)), "Tag": s.str("tag"), "Value": s.str("text")}
		if kids != nil {
			m["Content"] = s.list("kids", typesSlice(ptrTo(nt)), kids...)
		}
		n := s.alloc("node", nt, s.strct(nt, m))
		outs := s.run(parse, file, n)
		s.exp(r, "every parsed value knows its document", "parsed node", outs, func(o Outcome) string {
			if e := s.noErr(o); e != "" {
				return e
			}
			var walk func(v Val) string
			walk = func(v Val) string {
				if f := s.fileOf(o.St, v); f == nil || f.Key() != file.Key() {
					return "a value of kind " + s.kindOf(o.St, v) + " does not carry the location of its document"
				}
				var sub []Val
				switch s.kindOf(o.St, v) {
				case "Array":
					el, ok := s.elems(o.St, v)
					if !ok {
						return "the parsed list is not determined"
					}
					sub = el
				case "Map":
					es, ok := s.entries(o.St, v)
					if !ok {
						return "the parsed map is not determined"
					}
					for _, e := range es {
						sub = append(sub, e.V)
					}
				}
				for _, x := range sub {
					if m := walk(x); m != "" {
						return m
					}
				}
				return ""
			}
			return walk(o.Res[0])
		})
	}
}

// fileOf is the document location a node carries.
func (s *Scn) fileOf(st *State, n Val) Val {
	at, ok := expandStruct(s.nodeField(st, n, "Attr"))
	if !ok {
		return nil
	}
	src := at.F[s.fieldIdx(s.W.T.Attr, "Sources")]
	el, ok := s.In.listElems(st, src)
	if !ok || len(el) == 0 {
		return nil
	}
	fp, ok := expandStruct(el[0])
	if !ok {
		return nil
	}
	return fp.F[s.fieldIdx(s.W.T.FilePos, "File")]
}
