package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C40", Min: 60, Rule: "The readers of JSON and YAML files, the YAML reading operator and the conversions between plain data and values are analysed on opaque scalars of every kind, on lists and maps of zero to nine members, nested, and on streams of zero to four documents delivered by modelled decoders; every document, member and element must arrive with its kind and value at its place and under its key. Data that has no counterpart, a failing decoder at every point of the stream, and data after a JSON value must give an error.", Run: runC40})
}

var anyT = types.Universe.Lookup("any").Type()

// feed makes the decoders of a package deliver the given documents and then
// the end of the input, or (failAt >= 0) fail at that document.
func (s *Scn) feed(newName, decode string, docs func(c *Call, k int) Val, n, failAt int) {
	eof := s.global("io", "EOF")
	bad := errVal(s, "malformed")
	s.assume(eof, Nil{}, LT|GT)
	s.assume(eof, bad, LT|GT)
	s.hook("errors.Is", func(c *Call) []Outcome {
		a := plainArgs(c)
		return ret1(c, cBool(a[0].Key() == a[1].Key()))
	})
	s.In.Hooks = append([]Hook{func(c *Call) ([]Outcome, bool) {
		if c.Name == "(error).Error" && c.Recv != nil && c.Recv.Key() == eof.Key() {
			return ret1(c, cStr("EOF")), true
		}
		if c.Name == "(error).Error" && c.Recv != nil && c.Recv.Key() == bad.Key() {
			return ret1(c, cStr("malformed")), true
		}
		return nil, false
	}}, s.In.Hooks...)
	s.hook(newName, func(c *Call) []Outcome {
		id := c.In.objID(c.Site, "dec")
		t := c.Sig.Results().At(0).Type()
		c.In.newObj(c.St, id, &Obj{Kind: OCell, V: Top{elemOf(t)}, T: elemOf(t)})
		return ret1(c, Ptr{id, "", elemOf(t)})
	})
	s.hook(decode, func(c *Call) []Outcome {
		k := count(c.St, "decode")
		if k == failAt {
			return ret1(c, bad)
		}
		if k >= n {
			return ret1(c, eof)
		}
		i, _ := c.Args[1].(Iface)
		p, ok := i.V.(Ptr)
		if !ok {
			anchorf("the target of Decode is not determined: %s", c.Args[1].Key())
		}
		if _, any := p.T.Underlying().(*types.Interface); !any {
			return ret1(c, Nil{}) // whatever it holds is not looked at
		}
		c.In.storePtr(c.St, p, docs(c, k), false)
		return ret1(c, Nil{})
	})
	if strings.Contains(decode, "json") {
		s.hook("(*encoding/json.Decoder).Token", func(c *Call) []Outcome {
			if k := count(c.St, "decode"); k >= n && k != failAt {
				return ret1(c, Nil{}, eof)
			} else if k == failAt {
				return ret1(c, Nil{}, bad)
			}
			return ret1(c, s.anyStr(s.str("token")), Nil{})
		})
		s.hook("(*encoding/json.Decoder).More", func(c *Call) []Outcome {
			k := peek(c.St, "decode")
			return ret1(c, cBool(k < n || k == failAt))
		})
		s.hook("(*encoding/json.Decoder).UseNumber", func(c *Call) []Outcome {
			count(c.St, "number")
			return ret1(c)
		})
	}
}

// anyList builds plain lists.
func (s *Scn) anyList(label string, el ...Val) Val {
	t := types.NewSlice(anyT)
	return Iface{t, s.list(label, t, el...)}
}

// plain data and the value it stands for
type datum struct {
	name  string
	build func(s *Scn) (native Val, want M)
}

func data40(number bool) []datum {
	sc := func(name, kind string, t types.Type) datum {
		return datum{name, func(s *Scn) (Val, M) {
			s.n++
			x := s.sym(fmt.Sprint("x", s.n), t)
			return Iface{t, x}, is(kind, x)
		}}
	}
	null := datum{"null", func(s *Scn) (Val, M) { return Nil{}, is("Null", nil) }}
	str, boolean := sc("a text", "String", strT), sc("a boolean", "Bool", boolT)
	in, fl := sc("an integer", "Int", intT), sc("a float", "Float", floatT)
	text := func(t string) datum {
		return datum{strconv.Quote(t), func(s *Scn) (Val, M) { return s.anyStr(cStr(t)), is("String", cStr(t)) }}
	}
	zero := datum{"zero", func(s *Scn) (Val, M) { return s.anyInt(cInt(0)), is("Int", cInt(0)) }}
	no := datum{"false", func(s *Scn) (Val, M) { return s.anyBool(cBool(false)), is("Bool", cBool(false)) }}
	scalars := []datum{null, str, boolean, in, fl, text(""), text("null"), text("1"), zero, no}
	lst := func(ds ...datum) datum {
		var ns []string
		for _, d := range ds {
			ns = append(ns, d.name)
		}
		return datum{"a list [" + strings.Join(ns, ", ") + "]", func(s *Scn) (Val, M) {
			var el []Val
			var ms []M
			for _, d := range ds {
				v, m := d.build(s)
				el, ms = append(el, v), append(ms, m)
			}
			s.n++
			return s.anyList(fmt.Sprint("l", s.n), el...), list(ms...)
		}}
	}
	mp := func(keys string, ds ...datum) datum {
		ks := strings.Split(keys, ",")
		if keys == "" {
			ks = nil
		}
		var ns []string
		for i, d := range ds {
			ns = append(ns, ks[i]+": "+d.name)
		}
		return datum{"a map {" + strings.Join(ns, ", ") + "}", func(s *Scn) (Val, M) {
			var el []Val
			var es []kv
			for i, d := range ds {
				v, m := d.build(s)
				el = append(el, cStr(ks[i]), v)
				es = append(es, kv{cStr(ks[i]), m})
			}
			s.n++
			label := fmt.Sprint("m", s.n)
			return s.native(label, el...), bag(es...)
		}}
	}
	out := append([]datum{}, scalars...)
	out = append(out, lst(), mp(""))
	for _, d := range append(append([]datum{}, scalars...), lst(), mp("")) {
		out = append(out, lst(d), lst(str, d), lst(d, d, in), mp("k", d), mp("a,b", d, str), mp("a,b,c", in, d, str), lst(mp("k", d), d), mp("k", lst(d)), mp("k,l", mp("i", d), d))
	}
	nine := []datum{in, str, null, boolean, fl, lst(in), mp("x", str), zero, str}
	out = append(out, lst(nine...), mp("a,b,c,d,e,f,g,h,i", nine...), lst(lst(lst(str))), mp("a", mp("b", mp("c", mp("d", lst(in))))), mp("b,a", str, in), mp("apiVersion,kind,$schema", str, str, str), mp(",.,a.b", str, in, null))
	if number {
		var js []datum
		for _, d := range []string{"0", "12", "-7", "9007199254740993", "-9223372036854775808", "1.5", "-0.25", "1e3"} {
			d := d
			js = append(js, datum{"the number " + d, func(s *Scn) (Val, M) {
				want := is("Int", nil)
				if n, err := strconv.Atoi(d); err == nil {
					want = is("Int", cInt(n))
				} else {
					f, _ := strconv.ParseFloat(d, 64)
					want = is("Float", cFloat(f))
				}
				return mkTerm("number", anyT, cStr(d)), want
			}})
		}
		out = append(out, js...)
		out = append(out, lst(js...), mp("a,b,c,d,e,f,g,h", js...))
	}
	return out
}

// bag expects a map node with exactly these entries in any order.
func bag(es ...kv) M {
	return func(s *Scn, st *State, v Val) string {
		if k := s.kindOf(st, v); k != "Map" {
			return "a value of kind " + k + " instead of a map"
		}
		got, ok := s.entries(st, v)
		if !ok {
			return "a map whose entries are not determined: " + s.value(st, v).Key()
		}
		if len(got) != len(es) {
			return fmt.Sprintf("a map with entries [%s] instead of %d entries", s.entryKey(got), len(es))
		}
		for _, e := range es {
			found := false
			for _, g := range got {
				if s.In.relate(st, g.K, e.k) != EQ {
					continue
				}
				found = true
				if g.Maybe {
					return "entry " + g.K.Key() + " may be absent"
				}
				if m := e.m(s, st, g.V); m != "" {
					return "under key " + e.k.Key() + ": " + m
				}
			}
			if !found {
				return "no entry " + e.k.Key()
			}
		}
		return ""
	}
}

// numbers makes the JSON numbers of a document what the decoder gives.
func (s *Scn) numbers(c *Call, v Val) Val {
	if t, ok := v.(*Term); ok && t.Op == "number" {
		text, _ := isStr(t.Args[0])
		if peek(c.St, "number") > 0 {
			return Iface{s.W.P.typ2("encoding/json", "Number"), cStr(text)}
		}
		f, _ := strconv.ParseFloat(text, 64)
		return s.anyFloat(cFloat(f))
	}
	return v
}

func runC40(r *Report) {
	w := r.W()
	file := cStr("/data/file")
	scn := func(name string) *Scn {
		s := w.scn(name)
		s.In.Cap = 40
		s.hook("(encoding/json.Number).String", func(c *Call) []Outcome { return ret1(c, c.Args[0]) })
		s.hook("(encoding/json.Number).Float64", func(c *Call) []Outcome {
			t, ok := isStr(c.Args[0])
			if !ok {
				anchorf("a JSON number is not determined")
			}
			f, _ := strconv.ParseFloat(t, 64)
			return ret1(c, cFloat(f), Nil{})
		})
		return s
	}
	parseAny, parseJson, parseYaml := w.P.fn("core", "ParseAny"), w.P.fn("core", "ParseJson"), w.P.fn("core", "ParseYaml")
	reader := func(s *Scn) Val { return s.sym("reader", parseJson.Signature.Params().At(1).Type()) }
	yp := modPath + "/internal/yaml"
	yml := "gopkg.in/yaml.v3"

	for _, d := range data40(false) {
		s := scn(d.name)
		v, want := d.build(s)
		s.exact(r, "data becomes the value it stands for", "core.ParseAny", s.run(parseAny, file, v), want)

		// reading files
		s = scn(d.name)
		v, want = d.build(s)
		s.feed(yml+".NewDecoder", "(*"+yml+".Decoder).Decode", func(c *Call, k int) Val { return v }, 1, -1)
		s.exact(r, "a YAML file of one document is that document", "core.ParseYaml", s.run(parseYaml, file, reader(s)), want)

		s = scn(d.name)
		v, want = d.build(s)
		s.feed(yp+".NewDecoder", "(*"+yp+".Decoder).Decode", func(c *Call, k int) Val { return v }, 1, -1)
		s.exact(r, "the list of the documents", "operator yaml.unmarshal", s.applyOp("yaml.unmarshal", w.T.ModeEval, s.strNode("t", s.str("t"))), list(want))
	}
	for _, d := range data40(true) {
		for _, more := range []bool{false, true} {
			s := scn(d.name + map[bool]string{true: ", more data behind it"}[more])
			v, want := d.build(s)
			n := 1
			if more {
				n = 2
			}
			s.feed("encoding/json.NewDecoder", "(*encoding/json.Decoder).Decode", func(c *Call, k int) Val { return s.numbersIn(c, v) }, n, -1)
			outs := s.run(parseJson, file, reader(s))
			if more {
				s.expErr(r, "a JSON file holds one value", "core.ParseJson", outs)
			} else {
				s.exact(r, "a JSON file is its value", "core.ParseJson", outs, want)
			}
		}
	}
	for _, at := range []int{0, 1} {
		s := scn([]string{"malformed", "malformed data behind the value"}[at])
		s.feed("encoding/json.NewDecoder", "(*encoding/json.Decoder).Decode", func(c *Call, k int) Val { return s.anyStr(s.str("x")) }, 1, at)
		s.expErr(r, "malformed data", "core.ParseJson", s.run(parseJson, file, reader(s)))
	}

	// several documents
	for n := 0; n <= 4; n++ {
		for null := -1; null < n; null++ {
			for fail := -1; fail <= n; fail++ {
				if null >= 0 && fail >= 0 {
					continue
				}
				name := fmt.Sprintf("%d documents", n)
				if null >= 0 {
					name += fmt.Sprintf(", document %d is null", null+1)
				}
				if fail >= 0 {
					name += fmt.Sprintf(", malformed behind %d of them", fail)
				}
				docs := func(s *Scn) (func(c *Call, k int) Val, []M) {
					var vs []Val
					var ms []M
					for i := 0; i < n; i++ {
						if i == null {
							vs, ms = append(vs, Nil{}), append(ms, is("Null", nil))
							continue
						}
						x := s.str(fmt.Sprint("doc", i))
						vs, ms = append(vs, s.native(fmt.Sprint("m", i), cStr("k"), s.anyStr(x))), append(ms, bag(kv{cStr("k"), is("String", x)}))
					}
					return func(c *Call, k int) Val { return vs[k] }, ms
				}
				s := scn(name)
				d, ms := docs(s)
				s.feed(yp+".NewDecoder", "(*"+yp+".Decoder).Decode", d, n, fail)
				outs := s.applyOp("yaml.unmarshal", w.T.ModeEval, s.strNode("t", s.str("t")))
				if fail >= 0 {
					s.expErr(r, "malformed data", "operator yaml.unmarshal", outs)
				} else {
					s.exact(r, "the list of the documents", "operator yaml.unmarshal", outs, list(ms...))
				}
				if n == 0 && fail < 0 {
					continue
				}
				s = scn(name)
				d, ms = docs(s)
				s.feed(yml+".NewDecoder", "(*"+yml+".Decoder).Decode", d, n, fail)
				outs = s.run(parseYaml, file, reader(s))
				switch {
				case fail >= 0:
					s.expErr(r, "malformed data", "core.ParseYaml", outs)
				case n == 1:
					s.exact(r, "a YAML file of one document is that document", "core.ParseYaml", outs, ms[0])
				default:
					if null >= 0 {
						ms = append(append([]M{}, ms[:null]...), ms[null+1:]...)
					}
					s.exact(r, "a YAML file of several documents is the list of those that are not null", "core.ParseYaml", outs, list(ms...))
				}
			}
		}
	}

	// no counterpart
	anyAny := types.NewMap(anyT, anyT)
	tm := w.P.typ2("time", "Time")
	for _, bad := range []struct {
		name  string
		build func(s *Scn) Val
	}{
		{"a map whose keys are not texts", func(s *Scn) Val { return Iface{anyAny, s.gomap("bad", anyAny, s.anyInt(cInt(1)), s.anyStr(cStr("x")))} }},
		{"a date", func(s *Scn) Val { return Iface{tm, Sym{"time", tm}} }},
	} {
		for _, in := range []string{"", "list", "map", "last of a list", "second member"} {
			s := scn(strings.TrimSuffix(bad.name+" in a "+in, " in a "))
			v := bad.build(s)
			switch in {
			case "list":
				v = s.anyList("l", v)
			case "last of a list":
				v = s.anyList("l", Nil{}, s.anyStr(s.str("a")), v)
			case "map":
				v = s.native("m", cStr("k"), v)
			case "second member":
				v = s.native("m", cStr("a"), s.anyStr(s.str("a")), cStr("k"), v)
			}
			s.expErr(r, "data without a counterpart", "core.ParseAny", s.run(parseAny, file, v))
		}
	}
	for _, k := range allKinds {
		if k == "String" || k == "Symbol" || k == "Parameter" {
			continue
		}
		s := scn("a " + k)
		s.expErr(r, "operands must be texts", "operator yaml.unmarshal", s.applyOp("yaml.unmarshal", w.T.ModeEval, s.bare("x", k)))
	}

	// back to plain data
	native := w.P.method(w.T.NodePtr, "ToNative")
	for _, d := range data40(false) {
		s := scn(d.name)
		v, _ := d.build(s)
		node, text := s.valueOf(v)
		outs := s.run(native, node)
		s.exp(r, "a value becomes the data it stands for", "ToNative", outs, func(o Outcome) string {
			if m := s.noErr(o); m != "" {
				return m
			}
			if got := s.plainText(o.St, o.Res[0]); got != text {
				return "the data is " + got + ", not " + text
			}
			return ""
		})
	}
}

func peek(st *State, id string) int {
	if o := st.heap["cnt:"+id]; o != nil {
		if k, ok := isInt(o.V); ok {
			return k
		}
		anchorf("the number of calls of %s is not determined", id)
	}
	return 0
}

// typ2 is a type of a dependency.
func (p *Program) typ2(path, name string) types.Type {
	for _, k := range p.SSA.AllPackages() {
		if k.Pkg.Path() == path {
			if t := k.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	anchorf("type %s.%s not found", path, name)
	return nil
}

// numbersIn makes all JSON numbers of a document what the decoder gives.
func (s *Scn) numbersIn(c *Call, v Val) Val {
	v = s.numbers(c, v)
	i, ok := v.(Iface)
	if !ok {
		return v
	}
	var id string
	switch x := i.V.(type) {
	case Slice:
		id = x.Obj
	case Ptr:
		id = x.Obj
	default:
		return v
	}
	o := c.St.heap[id].clone()
	for k := range o.Elems {
		o.Elems[k] = s.numbersIn(c, o.Elems[k])
	}
	for k := range o.Entries {
		o.Entries[k].V = s.numbersIn(c, o.Entries[k].V)
	}
	c.St.heap[id] = o
	return v
}

// valueOf builds the value that plain data stands for, and spells the data.
func (s *Scn) valueOf(v Val) (Ptr, string) {
	s.n++
	l := fmt.Sprint("v", s.n)
	text := s.plainText(s.St, v)
	i, ok := v.(Iface)
	if !ok {
		return s.node(l, "Null", nil), text
	}
	switch x := i.V.(type) {
	case Slice:
		var ns []Ptr
		if x.Known && x.Hi > 0 {
			for _, e := range s.St.heap[x.Obj].Elems[x.Lo:x.Hi] {
				n, _ := s.valueOf(e)
				ns = append(ns, n)
			}
		}
		return s.arrNode(l, ns...), text
	case Ptr:
		var kvs []Val
		for _, e := range s.St.heap[x.Obj].Entries {
			n, _ := s.valueOf(e.V)
			kvs = append(kvs, e.K, n)
		}
		return s.mapNode(l, kvs...), text
	}
	kind := map[string]string{"string": "String", "bool": "Bool", "int": "Int", "float64": "Float"}[i.Dyn.String()]
	return s.node(l, kind, i), text
}

// plainText spells plain data; the order of map entries does not matter.
func (s *Scn) plainText(st *State, v Val) string {
	switch x := v.(type) {
	case nil, Nil:
		return "null"
	case Iface:
		switch y := x.V.(type) {
		case Slice, Nil:
			if _, ok := x.Dyn.Underlying().(*types.Slice); ok {
				el, ok := s.In.listElems(st, y)
				if !ok {
					return "a list that is not determined"
				}
				var ts []string
				for _, e := range el {
					ts = append(ts, s.plainText(st, e))
				}
				return "[" + strings.Join(ts, ", ") + "]"
			}
		case Ptr:
			o := st.heap[y.Obj]
			if o == nil || o.Kind != OMap || o.Base != nil {
				return "a map that is not determined"
			}
			var ts []string
			for _, e := range o.Entries {
				m := ""
				if e.Maybe {
					m = "perhaps "
				}
				ts = append(ts, m+e.K.Key()+": "+s.plainText(st, e.V))
			}
			sortStrings(ts)
			return "{" + strings.Join(ts, ", ") + "}"
		}
		return x.Dyn.String() + " " + x.V.Key()
	}
	return v.Key()
}
