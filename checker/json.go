package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"reflect"
	"sort"
	"strings"
)

// JSON text is modelled by the value it was made from: encoding gives the
// term json(v), and decoding that term gives back the image of v.

const jsonPkg = "encoding/json"

// jsonText finds the value that a text was made from.
func (s *Scn) jsonText(c *Call, v Val) (Val, bool) {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	if t, ok := v.(*Term); ok {
		if t.Op == "json" {
			return t.Args[0], true
		}
		if t.Op == "conv:bytestostring" || t.Op == "conv:stringtobytes" {
			return s.jsonText(c, t.Args[0])
		}
	}
	var names []string
	for n := range s.jsonFiles {
		names = append(names, n)
	}
	sort.Strings(names)
	k := v.Key()
	for _, n := range names {
		if strings.Contains(k, n) {
			return s.jsonFiles[n], true
		}
	}
	return nil, false
}

// jsonInto gives the values of type t that decoding the JSON form of v
// yields (Res[0]); number tells whether numbers stay text in open values.
func (s *Scn) jsonInto(c *Call, v Val, t types.Type, number bool) []Outcome {
	if s.asIs && types.IsInterface(t) {
		return ret1(c, v) // the document is what the decoder makes
	}
	i, ok := v.(Iface)
	if !ok {
		if _, null := v.(Nil); null {
			return ret1(c, zeroVal(t))
		}
		return nil
	}
	fresh := func(st *State, o *Obj) string {
		s.n++
		id := fmt.Sprint("json:", s.n)
		st.heap[id] = o
		return id
	}
	on := func(st *State) *Call { d := *c; d.St = st; return &d }
	// all decodes several parts one after the other.
	all := func(vs []Val, ts func(int) types.Type) []Outcome {
		outs := []Outcome{{c.St, nil}}
		for k, v := range vs {
			var next []Outcome
			for _, o := range outs {
				im := s.jsonInto(on(o.St), v, ts(k), number)
				if im == nil {
					return nil
				}
				for _, x := range im {
					next = append(next, Outcome{x.St, append(append([]Val{}, o.Res...), x.Res[0])})
				}
			}
			outs = next
		}
		return outs
	}
	fields := func() ([]Val, []Val, bool) { // keys and values of a JSON object
		p, ok := i.V.(Ptr)
		if !ok || c.St.heap[p.Obj] == nil || c.St.heap[p.Obj].Kind != OMap || c.St.heap[p.Obj].Base != nil {
			return nil, nil, false
		}
		var ks, vs []Val
		for _, e := range c.St.heap[p.Obj].Entries {
			if e.Maybe {
				return nil, nil, false
			}
			ks, vs = append(ks, e.K), append(vs, e.V)
		}
		return ks, vs, true
	}
	if _, open := t.Underlying().(*types.Interface); !open {
		if f := s.unmarshaler(t); f != nil {
			if s.jdepth++; s.jdepth > 20 {
				anchorf("decoding into %s does not end", t)
			}
			defer func() { s.jdepth-- }()
			id := fresh(c.St, &Obj{Kind: OCell, V: zeroVal(t), T: t})
			text := mkTerm("json", f.Signature.Params().At(0).Type(), v)
			outs := c.In.callFunc(c.St, c.Site, f, []Val{Ptr{id, "", t}, text}, nil)
			for k, o := range outs {
				if len(o.Res) != 1 || s.In.relate(o.St, o.Res[0], Nil{}) != EQ {
					return nil
				}
				outs[k].Res = []Val{o.St.heap[id].V}
			}
			return outs
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			b, ok := i.Dyn.Underlying().(*types.Basic)
			if !ok {
				return nil
			}
			switch {
			case u.Info()&types.IsNumeric != 0 && named(i.Dyn) == "encoding/json.Number":
				if x, ok := i.V.(*Term); ok && x.Op == "fmt:%d" {
					return ret1(c, c.In.convert(c.St, x.Args[0], intT, t))
				}
				return nil
			case u.Info()&types.IsString != 0 && b.Info()&types.IsString != 0, u.Info()&types.IsBoolean != 0 && b.Info()&types.IsBoolean != 0:
				return ret1(c, i.V)
			case u.Info()&types.IsNumeric != 0 && b.Info()&types.IsNumeric != 0 && (u.Info()&types.IsFloat != 0 || b.Info()&types.IsInteger != 0):
				return ret1(c, c.In.convert(c.St, i.V, i.Dyn, t))
			}
		case *types.Pointer:
			outs := s.jsonInto(c, v, u.Elem(), number)
			for k, o := range outs {
				outs[k].Res = []Val{Ptr{fresh(o.St, &Obj{Kind: OCell, V: o.Res[0], T: u.Elem()}), "", u.Elem()}}
			}
			return outs
		case *types.Slice:
			el, ok := c.In.listElems(c.St, i.V)
			if _, isList := i.Dyn.Underlying().(*types.Slice); !ok || !isList {
				return nil
			}
			outs := all(el, func(int) types.Type { return u.Elem() })
			for k, o := range outs {
				id := fresh(o.St, &Obj{Kind: OArr, Known: true, Elems: o.Res, T: t})
				outs[k].Res = []Val{Slice{Obj: id, Hi: len(el), Known: true, T: t}}
			}
			return outs
		case *types.Map:
			ks, vs, ok := fields()
			if !ok {
				return nil
			}
			outs := all(vs, func(int) types.Type { return u.Elem() })
			for k, o := range outs {
				m := &Obj{Kind: OMap, T: t}
				for j, x := range ks {
					m.Entries = append(m.Entries, Entry{K: x, V: o.Res[j]})
				}
				outs[k].Res = []Val{Ptr{fresh(o.St, m), "", t}}
			}
			return outs
		case *types.Struct:
			ks, vs, ok := fields()
			if !ok {
				return nil
			}
			idx := map[string]int{}
			for k := 0; k < u.NumFields(); k++ {
				n, _, _ := strings.Cut(reflect.StructTag(u.Tag(k)).Get(s.tagName()), ",")
				if n == "" {
					n = u.Field(k).Name()
				}
				idx[n] = k
			}
			var at []int
			var use []Val
			for j, k := range ks {
				n, ok := isStr(k)
				if !ok {
					return nil
				}
				if f, ok := idx[n]; ok {
					at, use = append(at, f), append(use, vs[j])
				}
			}
			outs := all(use, func(j int) types.Type { return u.Field(at[j]).Type() })
			for k, o := range outs {
				f := append([]Val(nil), zeroVal(t).(StructV).F...)
				for j, x := range o.Res {
					f[at[j]] = x
				}
				outs[k].Res = []Val{StructV{t, f}}
			}
			return outs
		}
		return nil
	}
	num := func(st *State, text, f Val) Outcome {
		if number {
			return Outcome{st, []Val{Iface{s.W.P.extType(jsonPkg, "Number"), text}}}
		}
		return Outcome{st, []Val{s.anyFloat(f)}}
	}
	switch b := i.Dyn.Underlying().(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsString != 0 && named(i.Dyn) == "encoding/json.Number":
			if number {
				return ret1(c, i)
			}
			if x, ok := i.V.(*Term); ok && x.Op == "fmt:%g" {
				return ret1(c, s.anyFloat(x.Args[0]))
			} else if ok && x.Op == "fmt:%d" {
				return ret1(c, s.anyFloat(mkTerm("conv:inttofloat", floatT, x.Args[0])))
			}
			return ret1(c, s.anyFloat(mkTerm("parsefloat", floatT, i.V)))
		case b.Info()&types.IsString != 0:
			return ret1(c, s.anyStr(i.V))
		case b.Info()&types.IsBoolean != 0:
			return ret1(c, s.anyBool(i.V))
		case b.Info()&types.IsInteger != 0:
			if n, ok := isInt(i.V); ok {
				return []Outcome{num(c.St, cStr(fmt.Sprint(n)), cFloat(float64(n)))}
			}
			return []Outcome{num(c.St, mkTerm("fmt:%d", strT, i.V), mkTerm("conv:inttofloat", floatT, i.V))}
		case b.Info()&types.IsFloat != 0:
			// a whole number is written without a fraction
			whole := mkTerm("whole", boolT, i.V)
			y, n := c.St.clone(), c.St
			var outs []Outcome
			y.note("whole:" + i.V.Key())
			n.note("fraction:" + i.V.Key())
			if c.In.constrain(y, whole, true) {
				outs = append(outs, num(y, mkTerm("fmt:%d", strT, mkTerm("intval", intT, i.V)), i.V))
			}
			if c.In.constrain(n, whole, false) {
				outs = append(outs, num(n, mkTerm("fmt:%g", strT, i.V), i.V))
			}
			return outs
		}
	case *types.Slice:
		outs := s.jsonInto(c, v, s.W.T.AnySlice, number)
		for k, o := range outs {
			outs[k].Res = []Val{Iface{s.W.T.AnySlice, o.Res[0]}}
		}
		return outs
	case *types.Map:
		mt := types.NewMap(strT, types.Universe.Lookup("any").Type())
		outs := s.jsonInto(c, v, mt, number)
		for k, o := range outs {
			outs[k].Res = []Val{Iface{mt, o.Res[0]}}
		}
		return outs
	}
	return nil
}

// unmarshaler is the method by which a type of the repository decodes itself.
func (s *Scn) unmarshaler(t types.Type) *ssa.Function {
	if n, ok := types.Unalias(t).(*types.Named); !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	ms := s.W.P.SSA.MethodSets.MethodSet(ptrTo(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "UnmarshalJSON" {
			return s.W.P.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

// json installs the model. Text of unknown origin decodes to unknown values,
// except for the files (or URLs) whose name contains a key of files.
func (s *Scn) json(files map[string]Val) {
	s.jsonFiles = files
	eof := s.global("io", "EOF")
	s.assume(eof, Nil{}, LT|GT)
	s.hook(jsonPkg+".Marshal "+jsonPkg+".MarshalIndent", func(c *Call) []Outcome {
		t := mkTerm("json", c.Sig.Results().At(0).Type(), c.Args[0])
		if _, top := t.(Top); top {
			return []Outcome{{c.St.clone(), []Val{t, Nil{}}}, {c.St, []Val{Nil{}, errVal(s, "cannot be encoded")}}}
		}
		return ret1(c, t, Nil{})
	})
	cell := func(c *Call, what string, v Val) []Outcome {
		t := elemOf(c.Sig.Results().At(0).Type())
		s.n++
		id := fmt.Sprint(what, ":", s.n)
		c.St.heap[id] = &Obj{Kind: OCell, V: v, T: t}
		return ret1(c, Ptr{id, "", t})
	}
	// behind finds the text behind a reader.
	behind := func(c *Call, r Val) Val {
		if i, ok := r.(Iface); ok {
			r = i.V
		}
		switch x := r.(type) {
		case Ptr:
			if o := c.St.heap[x.Obj]; o != nil && o.Kind == OCell && x.Path == "" {
				if t, ok := o.V.(*Term); ok && t.Op == "reading" {
					return t.Args[0]
				}
			}
			return cStr(x.Obj)
		case *Term:
			return x
		}
		return Top{strT}
	}
	s.hook("bytes.NewReader bytes.NewBuffer bytes.NewBufferString strings.NewReader", func(c *Call) []Outcome {
		return cell(c, "reader", mkTerm("reading", intT, c.Args[0]))
	})
	s.hook(jsonPkg+".NewDecoder", func(c *Call) []Outcome {
		return cell(c, "jdec", mkTerm("jdec", intT, behind(c, c.Args[0])))
	})
	s.hook("io.ReadAll", func(c *Call) []Outcome {
		t := c.Sig.Results().At(0).Type()
		b := behind(c, c.Args[0])
		if x, ok := b.(*Term); ok && x.Op == "json" {
			return ret1(c, x, Nil{})
		}
		for name, text := range s.textFiles {
			if strings.Contains(b.Key(), name) {
				return ret1(c, mkTerm("conv:stringtobytes", t, cStr(text)), Nil{})
			}
		}
		return ret1(c, mkTerm("contents", t, b), Nil{})
	})
	s.hook("os.ReadFile", func(c *Call) []Outcome {
		for name, text := range s.textFiles {
			if strings.Contains(c.Args[0].Key(), name) {
				return ret1(c, mkTerm("conv:stringtobytes", c.Sig.Results().At(0).Type(), cStr(text)), Nil{})
			}
		}
		if v, ok := s.jsonText(c, c.Args[0]); ok {
			return ret1(c, mkTerm("json", c.Sig.Results().At(0).Type(), v), Nil{})
		}
		return []Outcome{{c.St.clone(), []Val{Top{c.Sig.Results().At(0).Type()}, Nil{}}}, {c.St, []Val{Nil{}, errVal(s, "cannot be read")}}}
	})
	s.hook("os.UserHomeDir", func(c *Call) []Outcome { return ret1(c, cStr("/home"), Nil{}) })
	dec := func(c *Call) (Ptr, *Term) {
		if p, ok := c.Args[0].(Ptr); ok {
			if o := c.St.heap[p.Obj]; o != nil && o.Kind == OCell {
				t, _ := o.V.(*Term)
				return p, t
			}
		}
		return Ptr{}, nil
	}
	s.hook("(*"+jsonPkg+".Decoder).UseNumber", func(c *Call) []Outcome {
		if p, t := dec(c); t != nil && t.Op == "jdec" {
			o := c.St.heap[p.Obj].clone()
			o.V = mkTerm("jdecnum", intT, t.Args...)
			c.St.heap[p.Obj] = o
			c.St.note(p.Obj)
		}
		return ret1(c)
	})
	fill := func(c *Call, text, target Val, number bool) ([]Outcome, bool) {
		v, ok := s.jsonText(c, text)
		if !ok {
			return nil, false
		}
		i, ok := target.(Iface)
		if !ok {
			return nil, false
		}
		p, ok := i.V.(Ptr)
		if !ok {
			return nil, false
		}
		im := s.jsonInto(c, v, elemOf(i.Dyn), number)
		if im == nil {
			return nil, false
		}
		for k, o := range im {
			c.In.storePtr(o.St, p, o.Res[0], false)
			im[k].Res = []Val{Nil{}}
		}
		return im, true
	}
	s.In.Hooks = append([]Hook{func(c *Call) ([]Outcome, bool) {
		switch c.Name {
		case "(*" + jsonPkg + ".Decoder).Decode":
			if q, t := dec(c); t != nil && (t.Op == "jdec" || t.Op == "jdecnum") {
				if count(c.St, "of "+q.Obj) > 0 {
					return ret1(c, eof), true
				}
				return fill(c, t.Args[0], c.Args[1], t.Op == "jdecnum")
			}
		case "(*" + jsonPkg + ".Decoder).Token", "(*" + jsonPkg + ".Decoder).More":
			if q, t := dec(c); t != nil && (t.Op == "jdec" || t.Op == "jdecnum") && peek(c.St, "of "+q.Obj) > 0 {
				if c.Sig.Results().Len() == 1 {
					return ret1(c, cBool(false)), true
				}
				return ret1(c, Nil{}, eof), true
			}
		case jsonPkg + ".Unmarshal":
			return fill(c, c.Args[0], c.Args[1], false)
		case "(" + jsonPkg + ".Number).String":
			return ret1(c, c.Args[0]), true
		case "(" + jsonPkg + ".Number).Float64":
			if t, ok := c.Args[0].(*Term); ok && t.Op == "fmt:%g" {
				return ret1(c, t.Args[0], Nil{}), true
			} else if ok && t.Op == "fmt:%d" {
				return ret1(c, mkTerm("conv:inttofloat", floatT, t.Args[0]), Nil{}), true
			}
		}
		return nil, false
	}}, s.In.Hooks...)
}

// reflection on values whose type is known
func init() {
	dyn := func(v Val) types.Type {
		t, ok := v.(*Term)
		if !ok || t.Op != "nonnil" {
			return nil
		}
		if t, ok = t.Args[0].(*Term); !ok || t.Op != "rtypeof" {
			return nil
		}
		return t.Args[0].(Iface).Dyn
	}
	models["reflect.TypeOf"] = func(c *Call) ([]Outcome, bool) {
		switch v := c.Args[0].(type) {
		case Nil:
			return ret1(c, Nil{}), true
		case Iface:
			if x := mkTerm("rtypeof", intT, v); x.Key()[0] != '?' {
				if _, ok := x.(*Term); ok {
					return ret1(c, mkTerm("nonnil", c.Sig.Results().At(0).Type(), x)), true
				}
			}
		}
		return nil, false
	}
	models["(reflect.Type).Kind"] = func(c *Call) ([]Outcome, bool) {
		if t := dyn(c.Recv); t != nil {
			if k := kindOf(t); k != reflect.Invalid {
				return ret1(c, cInt(int(k))), true
			}
		}
		return nil, false
	}
	models["(reflect.Type).Comparable"] = func(c *Call) ([]Outcome, bool) {
		if t := dyn(c.Recv); t != nil {
			return ret1(c, cBool(types.Comparable(t))), true
		}
		return nil, false
	}
	models["reflect.ValueOf"] = func(c *Call) ([]Outcome, bool) {
		if v, ok := c.Args[0].(Iface); ok {
			return ret1(c, mkTerm("rvalue", c.Sig.Results().At(0).Type(), v)), true
		}
		return nil, false
	}
	models["(reflect.Value).Kind"] = func(c *Call) ([]Outcome, bool) {
		if t, ok := c.Args[0].(*Term); ok && t.Op == "rvalue" {
			if k := kindOf(t.Args[0].(Iface).Dyn); k != reflect.Invalid {
				return ret1(c, cInt(int(k))), true
			}
		}
		return nil, false
	}
	for _, n := range []string{"Bool", "String", "Float", "Int"} {
		models["(reflect.Value)."+n] = func(c *Call) ([]Outcome, bool) {
			if t, ok := c.Args[0].(*Term); ok && t.Op == "rvalue" {
				i := t.Args[0].(Iface)
				if types.Identical(i.Dyn.Underlying(), c.Sig.Results().At(0).Type()) {
					return ret1(c, i.V), true
				}
			}
			return nil, false
		}
	}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int64: reflect.Int64, types.Uint64: reflect.Uint64, types.Float64: reflect.Float64, types.String: reflect.String}[u.Kind()]
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func named(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// extType is a type of a dependency.
func (p *Program) extType(pkg, name string) types.Type {
	for _, sp := range p.SSA.AllPackages() {
		if sp.Pkg.Path() == pkg {
			if o := sp.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	anchorf("type %s.%s not found", pkg, name)
	return nil
}

// tagName is the struct tag that names members.
func (s *Scn) tagName() string {
	if s.structTag != "" {
		return s.structTag
	}
	return "json"
}
