package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The outside world of a scenario: streams, files, responses.

// count returns how often this was called before on the path, and counts.
func count(st *State, id string) int {
	id = "cnt:" + id
	n := 0
	if o := st.heap[id]; o != nil {
		if k, ok := isInt(o.V); ok {
			n = k
		} else {
			anchorf("the number of calls of %s is not determined", id)
		}
	}
	st.heap[id] = &Obj{Kind: OCell, V: cInt(n + 1), T: intT}
	st.note(id)
	return n
}

func (s *Scn) hook(names string, f func(c *Call) []Outcome) {
	m := map[string]bool{}
	for _, n := range strings.Fields(names) {
		m[n] = true
	}
	s.In.Hooks = append([]Hook{func(c *Call) ([]Outcome, bool) {
		if !m[c.Name] {
			return nil, false
		}
		return f(c), true
	}}, s.In.Hooks...)
}

// args without a receiver
func plainArgs(c *Call) []Val {
	if c.Recv == nil && c.Fn != nil && c.Fn.Signature.Recv() != nil {
		return c.Args[1:]
	}
	return c.Args
}

func ret1(c *Call, v ...Val) []Outcome { return []Outcome{{c.St, v}} }

// global reads a package-level variable of a dependency.
func (s *Scn) global(pkg, name string) Val {
	for _, p := range s.W.P.SSA.AllPackages() {
		if p.Pkg.Path() == pkg {
			if g, ok := p.Members[name].(*ssa.Global); ok {
				t := g.Type().(*types.Pointer).Elem()
				p := Ptr{"global:" + g.String(), "", t}
				s.In.ensure(s.St, p)
				return s.In.loadPtr(s.St, p, t)
			}
		}
	}
	anchorf("variable %s.%s not found", pkg, name)
	return nil
}

// stream makes every decoder deliver n documents and then the end.
func (s *Scn) stream(n int) {
	eof := s.global("io", "EOF")
	s.assume(eof, Nil{}, LT|GT)
	ypkg := s.W.P.pkg("internal/yaml")
	dn, sn := constInt(ypkg, "DocumentNode"), constInt(ypkg, "ScalarNode")
	nt := s.W.P.typ("internal/yaml", "Node")
	sent := func(c *Call) []Outcome {
		a := plainArgs(c)
		return ret1(c, cBool(a[0].Key() == a[1].Key()))
	}
	s.hook("errors.Is", sent)
	s.In.Hooks = append([]Hook{func(c *Call) ([]Outcome, bool) {
		if c.Name == "(error).Error" && c.Recv != nil && c.Recv.Key() == eof.Key() {
			return ret1(c, cStr("EOF")), true
		}
		return nil, false
	}}, s.In.Hooks...)
	yp := modPath + "/internal/yaml"
	s.hook(yp+".NewDecoder", func(c *Call) []Outcome {
		id := c.In.objID(c.Site, "dec")
		t := c.Sig.Results().At(0).Type()
		c.In.newObj(c.St, id, &Obj{Kind: OCell, V: Top{elemOf(t)}, T: elemOf(t)})
		return ret1(c, Ptr{id, "", elemOf(t)})
	})
	s.hook("(*"+yp+".Decoder).Decode", func(c *Call) []Outcome {
		k := count(c.St, "decode")
		if k >= n {
			return ret1(c, eof)
		}
		i, ok := c.Args[1].(Iface)
		var p Ptr
		if ok {
			p, ok = i.V.(Ptr)
		}
		if !ok {
			anchorf("the target of Decode is not determined: %s", c.Args[1].Key())
		}
		if _, any := p.T.Underlying().(*types.Interface); any {
			c.In.storePtr(c.St, p, s.anyStr(s.str(fmt.Sprint("text", k))), false)
			return ret1(c, Nil{})
		}
		sc := s.strct(nt, map[string]Val{"Kind": cInt(sn), "Tag": cStr("!!str"), "Value": s.str(fmt.Sprint("text", k))})
		id := fmt.Sprintf("doc%d", k)
		c.St.heap[id] = &Obj{Kind: OCell, V: sc, T: nt}
		c.St.heap[id+"c"] = &Obj{Kind: OArr, Known: true, Elems: []Val{Ptr{id, "", nt}}, T: types.NewSlice(ptrTo(nt))}
		c.In.storePtr(c.St, p, s.strct(nt, map[string]Val{"Kind": cInt(dn), "Content": Slice{Obj: id + "c", Hi: 1, Known: true, T: types.NewSlice(ptrTo(nt))}}), false)
		return ret1(c, Nil{})
	})
}

func paramType(f *ssa.Function, i int) types.Type { return f.Signature.Params().At(i).Type() }

// disk describes the files of a scenario. Every access is logged.
type disk struct {
	s       *Scn
	isDir   func(path Val) bool // defaults to false
	exists  func(path Val) bool // defaults to true
	matches func(dir, pattern Val) []Val
	status  Val // status code of every response
	quiet   bool
}

// clean is the absolute form of a path.
func (s *Scn) clean(v Val) Val {
	s.wd()
	q := &standIn{s.St, map[string]Val{}}
	t, ok := q.text(v)
	if !ok {
		return v
	}
	if strings.Contains(t, "://") {
		return v
	}
	if !filepath.IsAbs(t) {
		w, _ := q.text(s.wd())
		t = filepath.Join("/"+w, t)
	}
	return q.val(filepath.Clean(t))
}

func (d *disk) log(c *Call, what string, v Val) {
	if !d.quiet {
		appendLog(c.St, mkTerm(what, intT, d.s.clean(v)))
	}
}

// handle is the non-nil *os.File of a path.
func (d *disk) handle(c *Call, t types.Type, path Val) Val {
	id := "file:" + path.Key()
	et := elemOf(t)
	c.St.heap[id] = &Obj{Kind: OCell, V: Top{et}, T: et}
	return Ptr{id, "", et}
}

func (s *Scn) disk() *disk {
	d := &disk{s: s, status: cInt(200)}
	d.isDir = func(Val) bool { return false }
	d.exists = func(Val) bool { return true }
	d.matches = func(Val, Val) []Val { return nil }
	fail := func(c *Call, n int) []Outcome {
		var r []Val
		for i := 0; i < n; i++ {
			r = append(r, zeroVal(c.Sig.Results().At(i).Type()))
		}
		return ret1(c, append(r, errVal(s, "no such file"))...)
	}
	s.hook("os.Stat os.Lstat", func(c *Call) []Outcome {
		p := s.clean(c.Args[0])
		if !d.exists(p) {
			return fail(c, 1)
		}
		v := mkTerm("nonnil", c.Sig.Results().At(0).Type(), p)
		return ret1(c, v, Nil{})
	})
	s.hook("(io/fs.FileInfo).IsDir", func(c *Call) []Outcome {
		if t, ok := c.Recv.(*Term); ok && t.Op == "nonnil" {
			return ret1(c, cBool(d.isDir(t.Args[0])))
		}
		return ret1(c, Top{boolT})
	})
	s.hook("os.Open os.OpenFile", func(c *Call) []Outcome {
		p := s.clean(c.Args[0])
		d.log(c, "open", p)
		if !d.exists(p) {
			return fail(c, 1)
		}
		return ret1(c, d.handle(c, c.Sig.Results().At(0).Type(), p), Nil{})
	})
	s.hook("(*os.File).Close (io.Closer).Close (io.ReadCloser).Close", func(c *Call) []Outcome { return ret1(c, Nil{}) })
	s.hook("os.ReadFile", func(c *Call) []Outcome {
		p := s.clean(c.Args[0])
		d.log(c, "open", p)
		if !d.exists(p) {
			return fail(c, 1)
		}
		t := c.Sig.Results().At(0).Type()
		return ret1(c, mkTerm("contents", t, p), Nil{})
	})
	wd := s.wd()
	s.hook("os.Getwd", func(c *Call) []Outcome { return ret1(c, mkCat(cStr("/"), wd), Nil{}) })
	s.hook("path/filepath.Abs", func(c *Call) []Outcome { return ret1(c, s.clean(c.Args[0]), Nil{}) })
	s.hook("os.DirFS", func(c *Call) []Outcome {
		return ret1(c, mkTerm("nonnil", c.Sig.Results().At(0).Type(), mkTerm("dirfs", strT, s.clean(c.Args[0]))))
	})
	s.hook("github.com/bmatcuk/doublestar/v4.Glob", func(c *Call) []Outcome {
		t, ok := c.Args[0].(*Term)
		if !ok || t.Op != "nonnil" || len(t.Args) != 1 {
			return ret1(c, Top{c.Sig.Results().At(0).Type()}, Top{s.W.T.Err})
		}
		dir := t.Args[0].(*Term).Args[0]
		d.log2(c, "glob", dir, pat(s, c.Args[1]))
		return ret1(c, c.In.newList(c.St, c.Site, "gl", c.Sig.Results().At(0).Type(), d.matches(dir, pat(s, c.Args[1]))), Nil{})
	})
	s.hook("net/http.Get", func(c *Call) []Outcome {
		appendLog(c.St, mkTerm("get", intT, c.Args[0]))
		t := elemOf(c.Sig.Results().At(0).Type())
		id := c.In.objID(c.Site, "resp")
		st := t.Underlying().(structType)
		body := Val(Nil{})
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Body" {
				body = mkTerm("nonnil", st.Field(i).Type(), mkTerm("body", strT, c.Args[0]))
			}
		}
		c.In.newObj(c.St, id, &Obj{Kind: OCell, V: s.strct(t, map[string]Val{"StatusCode": d.status, "Body": body, "Status": s.str("status")}), T: t})
		return ret1(c, Ptr{id, "", t}, Nil{})
	})
	return d
}

func (d *disk) log2(c *Call, what string, a, b Val) {
	if !d.quiet {
		appendLog(c.St, mkTerm(what, intT, a, b))
	}
}

func (s *Scn) wd() Val { return s.ident("workingdir") }

// pat is a pattern without redundant elements.
func pat(s *Scn, v Val) Val {
	q := &standIn{s.St, map[string]Val{}}
	t, ok := q.text(v)
	if !ok {
		return v
	}
	return q.val(filepath.Clean(t))
}
