package main

import (
	"fmt"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C27", Min: 400, Rule: "The patch operator is analysed on documents with unknown keys and leaves for every operation at every existing location, at every kind of missing location (absent key, index at, beyond and before the list, '-', not a number, through a scalar), for every pair of locations of move and copy, for equal and different values of test, with escaped keys, wildcards, sequences of operations and document lists. The result must be what a reference implementation of RFC 6902 (with the documented wildcard) computes, or an error exactly where it gives one.", Run: runC27})
}

// jv is a document of the reference implementation.
type jv struct {
	kind string // Map, Array or a scalar kind
	val  Val    // of a scalar
	keys []Val
	kids []*jv
}

func (d *jv) clone() *jv {
	n := *d
	n.keys = append([]Val(nil), d.keys...)
	n.kids = nil
	for _, k := range d.kids {
		n.kids = append(n.kids, k.clone())
	}
	return &n
}

func (d *jv) find(key Val) int {
	for i, k := range d.keys {
		if k.Key() == key.Key() {
			return i
		}
	}
	return -1
}

func (d *jv) matcher() M {
	switch d.kind {
	case "Map":
		var es []kv
		for i, k := range d.keys {
			es = append(es, kv{k, d.kids[i].matcher()})
		}
		return dict(es...)
	case "Array":
		var ms []M
		for _, k := range d.kids {
			ms = append(ms, k.matcher())
		}
		return list(ms...)
	}
	return is(d.kind, d.val)
}

// build makes the node of a document.
func (s *Scn) build(label string, d *jv) Ptr {
	switch d.kind {
	case "Map":
		var kvs []Val
		for i, k := range d.keys {
			kvs = append(kvs, k, s.build(fmt.Sprint(label, ".", i), d.kids[i]))
		}
		return s.mapNode(label, kvs...)
	case "Array":
		var el []Ptr
		for i := range d.kids {
			el = append(el, s.build(fmt.Sprint(label, "[", i, "]"), d.kids[i]))
		}
		return s.arrNode(label, el...)
	case "Null":
		return s.bare(label, "Null")
	case "Int":
		return s.intNode(label, d.val)
	case "Bool":
		return s.node(label, "Bool", s.anyBool(d.val))
	case "Float":
		return s.node(label, "Float", s.anyFloat(d.val))
	}
	return s.strNode(label, d.val)
}

// tok is one reference token: its text in the pointer and the key it stands for.
type tok struct{ text, key Val }

func ktok(k Val) tok    { return tok{k, k} }
func ctok(s string) tok { return tok{cStr(s), cStr(s)} }

type ptrT []tok

func (p ptrT) path() Val {
	var ps []Val
	for _, t := range p {
		ps = append(ps, cStr("/"), t.text)
	}
	return mkCat(ps...)
}

func (p ptrT) String() string {
	b := ""
	for _, t := range p {
		b += "/" + strings.Trim(t.text.Key(), `"`)
	}
	return b
}

func index(t tok, n int) int {
	s, ok := isStr(t.key)
	if !ok {
		return -1
	}
	i, err := strconv.Atoi(s)
	if err != nil || i < 0 || i >= n {
		return -1
	}
	return i
}

// child gives the position of the member t names, or -1.
func (d *jv) child(t tok) int {
	switch d.kind {
	case "Map":
		return d.find(t.key)
	case "Array":
		return index(t, len(d.kids))
	}
	return -1
}

func (d *jv) get(p ptrT) *jv {
	for _, t := range p {
		i := d.child(t)
		if i < 0 {
			return nil
		}
		d = d.kids[i]
	}
	return d
}

func star(p ptrT) int {
	for i, t := range p {
		if c, ok := isStr(t.key); ok && c == "*" {
			return i
		}
	}
	return -1
}

// do applies one operation in place and reports whether it succeeds.
func (d *jv) do(op string, p ptrT, v *jv) bool {
	if len(p) == 0 {
		return false
	}
	if w := star(p); w >= 0 {
		at := d.get(p[:w])
		if at == nil || at.kind != "Map" && at.kind != "Array" {
			return false
		}
		rest := p[w+1:]
		if len(rest) > 0 {
			for _, k := range at.kids {
				if op == "add" && star(rest) < 0 {
					if old := k.get(rest); old != nil && old.kind == "Map" && v.kind == "Map" {
						old.mergeIn(v)
						continue
					}
				}
				var x *jv
				if v != nil {
					x = v.clone()
				}
				if !k.do(op, rest, x) {
					return false
				}
			}
			return true
		}
		if op == "remove" {
			at.keys, at.kids = nil, nil
			return true
		}
		for i, k := range at.kids {
			if op == "add" && k.kind == "Map" && v.kind == "Map" {
				k.mergeIn(v)
			} else {
				at.kids[i] = v.clone()
			}
		}
		return true
	}
	par, last := d.get(p[:len(p)-1]), p[len(p)-1]
	if par == nil {
		return false
	}
	i := par.child(last)
	switch op {
	case "remove":
		if i < 0 {
			return false
		}
		par.kids = append(append([]*jv(nil), par.kids[:i]...), par.kids[i+1:]...)
		if par.kind == "Map" {
			par.keys = append(append([]Val(nil), par.keys[:i]...), par.keys[i+1:]...)
		}
	case "replace":
		if i < 0 {
			return false
		}
		par.kids[i] = v
	case "add":
		switch par.kind {
		case "Map":
			if i >= 0 {
				par.kids[i] = v
			} else {
				par.keys, par.kids = append(par.keys, last.key), append(par.kids, v)
			}
		case "Array":
			c, _ := isStr(last.key)
			n, err := strconv.Atoi(c)
			if c == "-" {
				n, err = len(par.kids), nil
			}
			if err != nil || n < 0 || n > len(par.kids) {
				return false
			}
			par.kids = append(append(append([]*jv(nil), par.kids[:n]...), v), par.kids[n:]...)
		default:
			return false
		}
	}
	return true
}

func (d *jv) mergeIn(v *jv) {
	for i, k := range v.keys {
		if j := d.find(k); j >= 0 {
			d.kids[j] = v.kids[i].clone()
		} else {
			d.keys, d.kids = append(d.keys, k), append(d.kids, v.kids[i].clone())
		}
	}
}

func (d *jv) equal(e *jv) bool {
	if d.kind != e.kind || len(d.kids) != len(e.kids) {
		return false
	}
	switch d.kind {
	case "Map":
		for i, k := range d.keys {
			j := e.find(k)
			if j < 0 || !d.kids[i].equal(e.kids[j]) {
				return false
			}
		}
		return true
	case "Array":
		for i := range d.kids {
			if !d.kids[i].equal(e.kids[i]) {
				return false
			}
		}
		return true
	}
	return d.val == nil && e.val == nil || d.val.Key() == e.val.Key()
}

// jop is one operation of a patch.
type jop struct {
	op    string
	path  ptrT
	from  ptrT
	value *jv
}

func (o jop) apply(d *jv) bool {
	switch o.op {
	case "move", "copy":
		v := d.get(o.from)
		if v == nil {
			return false
		}
		v = v.clone()
		if o.op == "move" && !d.do("remove", o.from, nil) {
			return false
		}
		return d.do("add", o.path, v)
	case "test":
		v := d.get(o.path)
		return v != nil && v.equal(o.value)
	case "add", "replace":
		return d.do(o.op, o.path, o.value.clone())
	}
	return d.do(o.op, o.path, nil)
}

func (o jop) String() string {
	r := o.op + " " + o.path.String()
	if o.from != nil {
		r = o.op + " " + o.from.String() + " to " + o.path.String()
	}
	if o.value != nil {
		r += " with a " + o.value.kind
	}
	return r
}

func (o jop) node(s *Scn) Ptr {
	kvs := []Val{cStr("op"), s.strNode("op", cStr(o.op)), cStr("path"), s.strNode("path", o.path.path())}
	if o.from != nil {
		kvs = append(kvs, cStr("from"), s.strNode("from", o.from.path()))
	}
	if o.value != nil {
		kvs = append(kvs, cStr("value"), s.build("value", o.value))
	}
	return s.mapNode("patch", kvs...)
}

func runC27(r *Report) {
	w := r.W()
	E := w.T.ModeEval
	// doc is a fresh scenario with a document of six unknown keys and seven leaves
	type fix struct {
		s   *Scn
		d   *jv
		k   []Val
		new func(kind string) *jv
	}
	setup := func() *fix {
		s := w.scn("")
		s.In.Cap = 10
		// the unknown keys are not numbers
		s.In.Hooks = append([]Hook{func(c *Call) ([]Outcome, bool) {
			switch c.Name {
			case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
				if _, ok := isStr(c.Args[0]); !ok {
					return ret1(c, cInt(0), errVal(s, "not a number")), true
				}
			}
			return nil, false
		}}, s.In.Hooks...)
		f := &fix{s: s}
		for i := 0; i < 8; i++ {
			f.k = append(f.k, s.ident(fmt.Sprint("k", i)))
		}
		s.distinct(f.k...)
		for _, k := range f.k {
			for _, c := range []string{"0", "1", "2"} {
				s.assume(k, cStr(c), LT|GT)
			}
		}
		n := 0
		var leaves []Val
		leaf := func() *jv {
			v := s.str(fmt.Sprint("v", n))
			n++
			for _, o := range leaves {
				s.assume(v, o, LT|GT)
			}
			leaves = append(leaves, v)
			switch n { // leaves of every kind
			case 2:
				v := s.sym("v1", intT)
				s.assume(v, s.sym("n", intT), LT|GT)
				return &jv{kind: "Int", val: v}
			case 3:
				return &jv{kind: "Null"}
			case 4:
				return &jv{kind: "Bool", val: s.sym("v3", boolT)}
			}
			return &jv{kind: "String", val: v}
		}
		arr := func(k ...*jv) *jv { return &jv{kind: "Array", kids: k} }
		mp := func(k []Val, v ...*jv) *jv { return &jv{kind: "Map", keys: k, kids: v} }
		f.d = mp([]Val{f.k[0], f.k[1], f.k[4]}, leaf(),
			mp([]Val{f.k[2], f.k[3]}, leaf(), arr(leaf(), leaf())),
			arr(leaf(), mp([]Val{f.k[5]}, leaf()), arr(leaf())))
		f.new = func(kind string) *jv {
			switch kind {
			case "Array":
				return arr(leaf(), leaf())
			case "Map":
				return mp([]Val{f.k[6], f.k[2]}, leaf(), leaf())
			case "Int":
				return &jv{kind: "Int", val: s.sym("n", intT)}
			case "Null":
				return &jv{kind: "Null"}
			}
			return leaf()
		}
		return f
	}
	places := func(f *fix) []ptrT {
		var out []ptrT
		var walk func(d *jv, p ptrT)
		walk = func(d *jv, p ptrT) {
			if len(p) > 0 {
				out = append(out, append(ptrT(nil), p...))
			}
			for i := range d.kids {
				t := ctok(strconv.Itoa(i))
				if d.kind == "Map" {
					t = ktok(d.keys[i])
				}
				walk(d.kids[i], append(append(ptrT(nil), p...), t))
			}
		}
		walk(f.d, nil)
		return out
	}
	missing := func(f *fix) []ptrT {
		var out []ptrT
		add := func(p ptrT, ts ...tok) { out = append(out, append(append(ptrT(nil), p...), ts...)) }
		add(nil, ktok(f.k[7]))
		add(nil, ctok("0"))
		add(nil, ctok("-"))
		add(nil, ktok(f.k[7]), ktok(f.k[0]))
		for _, p := range places(f) {
			switch d := f.d.get(p); d.kind {
			case "Array":
				n := len(d.kids)
				for _, c := range []string{strconv.Itoa(n), strconv.Itoa(n + 1), "-1", "-", "x", "1x", ""} {
					add(p, ctok(c))
				}
				add(p, ctok(strconv.Itoa(n)), ctok("0"))
				add(p, ctok("-"), ctok("0"))
			case "Map":
				add(p, ktok(f.k[7]))
				add(p, ctok("0"))
				add(p, ctok(""))
			default:
				add(p, ctok("0"))
				add(p, ctok("-"))
				add(p, ktok(f.k[7]))
			}
		}
		return out
	}
	check := func(f *fix, rule, name string, asMap bool, ops ...jop) {
		s := f.s
		s.Name = name
		var ns []Ptr
		for _, o := range ops {
			ns = append(ns, o.node(s))
			if name == "" {
				s.Name += o.String() + "; "
			}
		}
		var patch Ptr
		if asMap {
			patch = ns[0]
		} else {
			patch = s.arrNode("patches", ns...)
		}
		target := s.build("t", f.d)
		want := f.d.clone()
		good := true
		for _, o := range ops {
			if good = o.apply(want); !good {
				break
			}
		}
		outs := s.applyOp("maps.patch", E, target, patch)
		if good {
			s.exact(r, rule, "patch", outs, want.matcher())
		} else {
			s.expErr(r, rule, "patch", outs)
		}
	}
	base := setup()
	np, nm := len(places(base)), len(missing(base))
	at := func(f *fix, i int) ptrT {
		if i < np {
			return places(f)[i]
		}
		return missing(f)[i-np]
	}
	for i := 0; i < np+nm; i++ {
		for _, op := range []string{"add", "replace"} {
			for _, k := range []string{"String", "Map", "Array", "Int", "Null"} {
				f := setup()
				check(f, "one operation changes one location", "", i%2 == 0, jop{op: op, path: at(f, i), value: f.new(k)})
			}
		}
		f := setup()
		check(f, "one operation changes one location", "", i%2 == 1, jop{op: "remove", path: at(f, i)})
		f = setup()
		p := at(f, i)
		if v := f.d.get(p); v != nil {
			check(f, "a test of an equal value succeeds", "", false, jop{op: "test", path: p, value: v.clone()})
			if v.kind == "Map" && len(v.keys) > 1 {
				f = setup()
				v = f.d.get(at(f, i)).clone()
				v.keys[0], v.keys[1] = v.keys[1], v.keys[0]
				v.kids[0], v.kids[1] = v.kids[1], v.kids[0]
				check(f, "a test does not depend on the order of entries", "", false, jop{op: "test", path: at(f, i), value: v})
			}
			for _, other := range []string{"String", "Map", "Array", "Int", "Null"} {
				f = setup()
				check(f, "a test of a different value fails", "", false, jop{op: "test", path: at(f, i), value: f.new(other)})
			}
			if len(v.kids) > 0 { // a member more, less or different
				for _, change := range []string{"more", "less", "different", "nested"} {
					f = setup()
					v := f.d.get(at(f, i)).clone()
					switch change {
					case "more":
						v.kids = append(v.kids, f.new("String"))
						if v.kind == "Map" {
							v.keys = append(v.keys, f.k[7])
						}
					case "less":
						v.kids = v.kids[:len(v.kids)-1]
						if v.kind == "Map" {
							v.keys = v.keys[:len(v.kids)]
						}
					case "different":
						v.kids[len(v.kids)-1] = f.new("String")
					case "nested":
						in := v
						for len(in.kids) > 0 && len(in.kids[len(in.kids)-1].kids) > 0 {
							in = in.kids[len(in.kids)-1]
						}
						in.kids[len(in.kids)-1] = f.new("String")
					}
					check(f, "a test of a different value fails", fmt.Sprintf("test %s with a member %s", at(f, i), change), false, jop{op: "test", path: at(f, i), value: v})
				}
			}
		} else {
			check(f, "a test of a missing location fails", "", false, jop{op: "test", path: p, value: f.new("Null")})
		}
	}
	for _, op := range []string{"move", "copy"} {
		for i := 0; i < np; i++ {
			for j := 0; j < np+nm; j++ {
				if j >= np && (i+j)%3 != 0 {
					continue
				}
				f := setup()
				check(f, "a value is moved or copied to exactly one location", "", (i+j)%2 == 0, jop{op: op, from: at(f, i), path: at(f, j)})
			}
		}
		for i := np; i < np+nm; i++ {
			f := setup()
			check(f, "the source of a move or copy must exist", "", false, jop{op: op, from: at(f, i), path: at(f, 0)})
		}
	}
	// sequences: each operation works on the result of the one before
	seqs := []func(f *fix) []jop{
		func(f *fix) []jop {
			return []jop{{op: "add", path: ptrT{ktok(f.k[7])}, value: f.new("Map")}, {op: "add", path: ptrT{ktok(f.k[7]), ktok(f.k[0])}, value: f.new("String")}, {op: "remove", path: ptrT{ktok(f.k[7]), ktok(f.k[2])}}}
		},
		func(f *fix) []jop {
			p := ptrT{ktok(f.k[4])}
			return []jop{{op: "add", path: append(p, ctok("-")), value: f.new("Int")}, {op: "add", path: ptrT{ktok(f.k[4]), ctok("0")}, value: f.new("String")}, {op: "remove", path: ptrT{ktok(f.k[4]), ctok("2")}}}
		},
		func(f *fix) []jop { // the copy is independent of the original
			return []jop{{op: "copy", from: ptrT{ktok(f.k[1])}, path: ptrT{ktok(f.k[7])}}, {op: "replace", path: ptrT{ktok(f.k[7]), ktok(f.k[3]), ctok("0")}, value: f.new("Int")}, {op: "add", path: ptrT{ktok(f.k[1]), ktok(f.k[6])}, value: f.new("Null")}}
		},
		func(f *fix) []jop { // a later failure
			return []jop{{op: "remove", path: ptrT{ktok(f.k[0])}}, {op: "remove", path: ptrT{ktok(f.k[0])}}}
		},
		func(f *fix) []jop { // a failing test ends the patch
			return []jop{{op: "test", path: ptrT{ktok(f.k[0])}, value: f.new("String")}, {op: "remove", path: ptrT{ktok(f.k[0])}}}
		},
		func(f *fix) []jop {
			return []jop{{op: "test", path: ptrT{ktok(f.k[0])}, value: f.d.kids[0].clone()}, {op: "move", from: ptrT{ktok(f.k[0])}, path: ptrT{ktok(f.k[4]), ctok("1")}}, {op: "replace", path: ptrT{ktok(f.k[4]), ctok("1")}, value: f.new("Array")}}
		},
		func(f *fix) []jop { return nil },
	}
	for i, q := range seqs {
		f := setup()
		check(f, "operations are applied in order", fmt.Sprint("sequence ", i), false, q(f)...)
	}
	// escapes
	for _, e := range [][2]string{{"a~1b", "a/b"}, {"m~0n", "m~n"}, {"~01", "~1"}, {"~1", "/"}, {"~0", "~"}, {"~1~0", "/~"}, {"~00", "~0"}, {"a b", "a b"}, {"", ""}, {"a.b", "a.b"}, {"%25", "%25"}} {
		t := tok{cStr(e[0]), cStr(e[1])}
		for _, op := range []string{"add", "remove", "replace", "test", "copy from", "copy to", "through"} {
			for _, exists := range []bool{true, false} {
				f := setup()
				old := f.new("Map")
				if exists {
					f.d.keys, f.d.kids = append(f.d.keys, t.key), append(f.d.kids, old)
				}
				o := jop{op: op, path: ptrT{t}}
				switch op {
				case "add", "replace":
					o.value = f.new("Int")
				case "test":
					o.value = old.clone()
				case "copy from":
					o = jop{op: "copy", from: ptrT{t}, path: ptrT{ktok(f.k[7])}}
				case "copy to":
					o = jop{op: "copy", from: ptrT{ktok(f.k[0])}, path: ptrT{t}}
				case "through":
					o = jop{op: "add", path: ptrT{t, ktok(f.k[7])}, value: f.new("Int")}
				}
				check(f, "escapes stand for '/' and '~'", fmt.Sprintf("%s, token %q, present %v", op, e[0], exists), false, o)
			}
		}
	}
	// wildcards
	wild := func(f *fix) []ptrT {
		x := ctok("*")
		return []ptrT{{x}, {ktok(f.k[1]), x}, {ktok(f.k[4]), x}, {ktok(f.k[1]), ktok(f.k[3]), x}, {ktok(f.k[0]), x}, {ktok(f.k[7]), x},
			{x, ktok(f.k[7])}, {ktok(f.k[6]), x, ktok(f.k[2])}, {ktok(f.k[6]), x, ktok(f.k[7])}, {ktok(f.k[6]), x}, {ktok(f.k[6]), x, ktok(f.k[3]), ctok("0")}, {ktok(f.k[6]), x, ktok(f.k[3]), x}, {ktok(f.k[6]), x, tok{cStr("a~1b"), cStr("a/b")}}, {ktok(f.k[6]), x, tok{cStr("~01"), cStr("~1")}}}
	}
	for i := range wild(base) {
		for _, shape := range []string{"Map", "Array"} {
			for _, op := range []string{"add", "replace", "remove"} {
				for _, k := range []string{"String", "Map"} {
					if op == "remove" && k == "Map" {
						continue
					}
					f := setup()
					// two similar members, each a map
					mem := func() *jv {
						return &jv{kind: "Map", keys: []Val{f.k[2], f.k[3], cStr("a/b"), cStr("~1")}, kids: []*jv{f.new("Map"), f.new("Array"), f.new("String"), f.new("String")}}
					}
					c := &jv{kind: shape, kids: []*jv{mem(), mem()}}
					if shape == "Map" {
						c.keys = []Val{f.k[0], f.k[1]}
					}
					f.d.keys, f.d.kids = append(f.d.keys, f.k[6]), append(f.d.kids, c)
					o := jop{op: op, path: wild(f)[i]}
					if op != "remove" {
						o.value = f.new(k)
					}
					f.s.Name = ""
					check(f, "a wildcard stands for every member", fmt.Sprintf("%s in members of a %s", o, shape), false, o)
				}
			}
		}
	}
	// documents
	for n := 0; n <= 3; n++ {
		f := setup()
		s := f.s
		s.Name = fmt.Sprintf("%d documents", n)
		o := jop{op: "add", path: ptrT{ktok(f.k[7])}, value: f.new("Map")}
		var docs []Ptr
		var ms []M
		for i := 0; i < n; i++ {
			d := &jv{kind: "Map", keys: []Val{f.k[0]}, kids: []*jv{f.new("String")}}
			docs = append(docs, s.build("doc", d))
			o.apply(d)
			ms = append(ms, d.matcher())
		}
		t := s.arrNode("docs", docs...)
		s.setField(t, "IsDocumentRoot", cBool(true))
		s.exact(r, "a list of documents is patched document by document", "patch", s.applyOp("maps.patch", E, t, s.arrNode("ps", o.node(s))), list(ms...))
	}
	// malformed patches
	for _, field := range []string{"op", "path", "value", "from"} {
		for _, k := range append([]string{"absent"}, allKinds...) {
			if k == "String" || field == "value" && k != "absent" {
				continue
			}
			for _, op := range []string{"add", "remove", "replace", "move", "copy", "test", "unknown"} {
				f := setup()
				s := f.s
				s.Name = fmt.Sprintf("%s with %s %s", op, field, k)
				if k == "Symbol" || k == "Parameter" {
					continue // they carry text
				}
				needs := map[string]bool{"op": true, "path": true}
				switch op {
				case "add", "replace", "test":
					needs["value"] = true
				case "move", "copy":
					needs["from"] = true
				}
				if !needs[field] && op != "unknown" {
					continue
				}
				var kvs []Val
				put := func(n string, p Ptr) {
					if n == field {
						if k == "absent" {
							return
						}
						p = s.bare(n, k)
					}
					kvs = append(kvs, cStr(n), p)
				}
				put("op", s.strNode("op", cStr(op)))
				put("path", s.strNode("path", mkCat(cStr("/"), f.k[0])))
				put("from", s.strNode("from", mkCat(cStr("/"), f.k[1])))
				put("value", s.build("value", f.new("Int")))
				s.expErr(r, "an incomplete operation is an error", "patch", s.applyOp("maps.patch", E, s.build("t", f.d), s.mapNode("p", kvs...)))
			}
		}
	}
	for _, k := range allKinds {
		if k == "Map" {
			continue
		}
		f := setup()
		s := f.s
		s.Name = "an operation of kind " + k
		s.expErr(r, "an operation is a map", "patch", s.applyOp("maps.patch", E, s.build("t", f.d), s.arrNode("ps", s.bare("p", k))))
	}
	for _, p := range []string{"k", "k/0", " /k", "#/k"} {
		for _, op := range []string{"add", "remove", "replace", "test", "copy"} {
			f := setup()
			s := f.s
			s.Name = fmt.Sprintf("%s at %q", op, p)
			f.d.keys = append(f.d.keys, cStr("k"))
			f.d.kids = append(f.d.kids, f.new("Array"))
			n := s.mapNode("p", cStr("op"), s.strNode("op", cStr(op)), cStr("path"), s.strNode("path", cStr(p)), cStr("from"), s.strNode("from", cStr(p)), cStr("value"), s.build("value", f.new("Int")))
			s.expErr(r, "a pointer starts with '/'", "patch", s.applyOp("maps.patch", E, s.build("t", f.d), n))
		}
	}
}
