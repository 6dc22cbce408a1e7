package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C39", Min: 300, Rule: "Each string operator, reached through the operator table, is analysed on opaque texts (concatenation and joining of one to four of them, formatting of opaque texts and integers) and on a table of constant texts per operator, on which library functions are evaluated; the result must be the text, list of texts or truth value the operator is documented to give. Every other number of operands and every operand that is no text must give an error, and every text must be accepted.", Run: runC39})
}

func (s *Scn) text(label, v string) Ptr { return s.strNode(label, cStr(v)) }

// texts39 are the texts the single-operand operators are judged on.
func texts39() []string {
	long := strings.Repeat("Long text, with Capitals and ünïcode. ", 40)
	return []string{"", "a", "abc", "Hello, World", "hello world", "ÀÉîøß", "ǆ ǅ", "İıſK", "Σας", "straße", "x1 y2", "  padded\t\n", "\n", "in side", "\u00a0nbsp\u2003", "\"quoted\"", "'", "\"", "back\\slash", "tab\there", "line\nbreak", "\x00\x07\x1b", "日本語", "😀", "\u0085\u2028", "true", "007", "a\"b'c", "''", "\"\"", long, long + long[:1300]}
}

func runC39(r *Report) {
	w := r.W()
	E := w.T.ModeEval
	scn := func(name string) *Scn {
		s := w.scn(name)
		s.In.Cap = 80
		return s
	}
	str := func(want string) M { return is("String", cStr(want)) }
	say := func(v string) string {
		if len(v) > 40 {
			return fmt.Sprintf("a text of %d bytes", len(v))
		}
		return strconv.Quote(v)
	}

	// opaque texts ---------------------------------------------------------
	for _, n := range []int{1, 2, 3, 4, 9} {
		s := scn(fmt.Sprintf("%d texts", n))
		var args []Ptr
		var parts []Val
		for i := 0; i < n; i++ {
			parts = append(parts, s.str(fmt.Sprint("s", i)))
			args = append(args, s.strNode(fmt.Sprint("n", i), parts[i]))
		}
		s.exact(r, "concatenates all operands in order", "operator strings.concat", s.applyOp("strings.concat", E, args...), is("String", mkCat(parts...)))
	}
	for _, n := range []int{0, 1, 2, 3, 4, 9} {
		s := scn(fmt.Sprintf("%d texts", n))
		sep := s.str("sep")
		var args []Ptr
		var parts []Val
		for i := 0; i < n; i++ {
			x := s.str(fmt.Sprint("s", i))
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, x)
			args = append(args, s.strNode(fmt.Sprint("n", i), x))
		}
		s.exact(r, "texts with the separator between them", "operator strings.join", s.applyOp("strings.join", E, s.arrNode("l", args...), s.strNode("sepn", sep)), is("String", mkCat(parts...)))
	}
	{
		s := scn("an opaque text and an opaque integer")
		a, n := s.str("a"), s.sym("n", intT)
		outs := s.applyOp("strings.format", E, s.text("f", "User %s has %d points (%v, %v) 100%%"), s.strNode("an", a), s.intNode("nn", n), s.intNode("nn2", n), s.strNode("an2", a))
		d := mkTerm("fmt:%d", strT, n)
		s.exact(r, "verbs replaced by the operands in order", "operator strings.format", outs, is("String", mkCat(cStr("User "), a, cStr(" has "), d, cStr(" points ("), d, cStr(", "), a, cStr(") 100%"))))
		s = scn("an opaque integer")
		n = s.sym("n", intT)
		s.exact(r, "the value in double-quoted notation", "operator strings.quote", s.applyOp("strings.quote", E, s.intNode("nn", n)), func(s *Scn, st *State, v Val) string {
			if k := s.kindOf(st, v); k != "String" {
				return "kind " + k + " instead of String"
			}
			got := s.value(st, v).Key()
			d := mkTerm("fmt:%d", strT, n).Key()
			if !strings.Contains(got, d) && !strings.Contains(got, n.Key()) {
				return "the text " + got + ", which does not depend on the integer"
			}
			return ""
		})
	}

	// constant texts ----------------------------------------------------------
	unary := []struct {
		name string
		f    func(string) string
	}{
		{"strings.toUpper", strings.ToUpper},
		{"strings.toLower", strings.ToLower},
		{"strings.trim", strings.TrimSpace},
		{"strings.sha256", func(t string) string { h := sha256.Sum256([]byte(t)); return hex.EncodeToString(h[:]) }},
	}
	for _, u := range unary {
		for _, t := range texts39() {
			s := scn("the text " + say(t))
			s.exact(r, "the documented text", "operator "+u.name, s.applyOp(u.name, E, s.text("t", t)), str(u.f(t)))
		}
	}
	readsBack := func(want string) M {
		return func(s *Scn, st *State, v Val) string {
			if k := s.kindOf(st, v); k != "String" {
				return "kind " + k + " instead of String"
			}
			got, ok := isStr(s.value(st, v))
			if !ok {
				return "a text that is not determined: " + s.value(st, v).Key()
			}
			back, err := strconv.Unquote(`"` + got + `"`)
			if err != nil {
				return "the text " + got + ", which is no double-quoted notation"
			}
			if back != want {
				return "a text that reads back as " + strconv.Quote(back)
			}
			return ""
		}
	}
	for _, t := range texts39() {
		s := scn("the text " + say(t))
		s.exact(r, "the value in double-quoted notation", "operator strings.quote", s.applyOp("strings.quote", E, s.text("t", t)), readsBack(t))
	}
	for _, n := range []int{0, 1, -1, 42, 1 << 40, -(1 << 62)} {
		s := scn(fmt.Sprintf("the integer %d", n))
		s.exact(r, "the value in double-quoted notation", "operator strings.quote", s.applyOp("strings.quote", E, s.intNode("n", cInt(n))), readsBack(strconv.Itoa(n)))
	}
	for _, b := range []bool{true, false} {
		s := scn(fmt.Sprintf("the boolean %v", b))
		s.exact(r, "the value in double-quoted notation", "operator strings.quote", s.applyOp("strings.quote", E, s.node("b", "Bool", s.anyBool(cBool(b)))), readsBack(strconv.FormatBool(b)))
	}
	for _, f := range []float64{0.5, -2.25, 0.1, 3.14159265358979, 1.0e-9, 123456789.123456789, 1e21} {
		s := scn(fmt.Sprintf("the number %v", f))
		s.exact(r, "the value in double-quoted notation", "operator strings.quote", s.applyOp("strings.quote", E, s.node("f", "Float", s.anyFloat(cFloat(f)))), func(s *Scn, st *State, v Val) string {
			got, ok := isStr(s.value(st, v))
			if !ok {
				return "a text that is not determined: " + s.value(st, v).Key()
			}
			if g, err := strconv.ParseFloat(got, 64); err != nil || g != f {
				return "the text " + got + ", which is another number"
			}
			return ""
		})
	}
	words := []string{"", "a", "aa", "ab", "hello world", "banana", "é", "日本語", "Hello World"}
	parts := []string{"a", "an", "ana", "l", "o w", "world", "é", "本", "x", " ", "hello world", "A"}
	for _, t := range words {
		for _, p := range append([]string{""}, parts...) {
			s := scn(fmt.Sprintf("%q in %q", p, t))
			s.expBool(r, "whether the second text occurs in the first", "operator strings.contains", s.applyOp("strings.contains", E, s.text("t", t), s.text("p", p)), strings.Contains(t, p))
		}
		for _, p := range parts {
			for _, q := range []string{"", "X", "aa", p + p} {
				s := scn(fmt.Sprintf("%q by %q in %q", p, q, t))
				s.exact(r, "every occurrence replaced", "operator strings.replace", s.applyOp("strings.replace", E, s.text("t", t), s.text("p", p), s.text("q", q)), str(strings.ReplaceAll(t, p, q)))
			}
			for n := 0; n <= 4; n++ {
				s := scn(fmt.Sprintf("the first %d %q in %q", n, p, t))
				s.exact(r, "the first occurrences replaced", "operator strings.replace", s.applyOp("strings.replace", E, s.text("t", t), s.text("p", p), s.text("q", "X"), s.intNode("n", cInt(n))), str(strings.Replace(t, p, "X", n)))
			}
		}
	}
	for _, t := range []string{"", "a", ",", "a,b", "apple,banana,cherry", ",a,", "a,,b", "a, b, c", ", ", "é,日", " a , b ", "a  b ", "a\n,b", strings.Repeat("item,", 30)} {
		for _, sep := range []string{",", ", ", " ", "a", "an", "é", "\n", "xyz"} {
			s := scn(fmt.Sprintf("%q at %q", t, sep))
			var ms []M
			for _, x := range strings.Split(t, sep) {
				ms = append(ms, str(x))
			}
			s.exact(r, "the texts between the separators", "operator strings.split", s.applyOp("strings.split", E, s.text("t", t), s.text("sep", sep)), list(ms...))
		}
	}
	type arg struct {
		kind string
		v    any
	}
	for _, c := range []struct {
		f    string
		args []arg
		want string
	}{
		{"plain", nil, "plain"},
		{"", nil, ""},
		{"100%%", nil, "100%"},
		{"%s", []arg{{"String", "x"}}, "x"},
		{"%s", []arg{{"String", "with % and %d"}}, "with % and %d"},
		{"[%5s|%-5s]", []arg{{"String", "ab"}, {"String", "cd"}}, "[   ab|cd   ]"},
		{"%q", []arg{{"String", "a\"b"}}, `"a\"b"`},
		{"%d", []arg{{"Int", 42}}, "42"},
		{"%05d", []arg{{"Int", 42}}, "00042"},
		{"%+d", []arg{{"Int", 42}}, "+42"},
		{"%x", []arg{{"Int", 255}}, "ff"},
		{"%v %v %v", []arg{{"Int", -1}, {"String", "é"}, {"Bool", true}}, "-1 é true"},
		{"%t", []arg{{"Bool", false}}, "false"},
		{"%.2f", []arg{{"Float", 3.14159}}, "3.14"},
		{"%f", []arg{{"Float", 0.5}}, "0.500000"},
		{"%v", []arg{{"Float", 0.1}}, "0.1"},
		{"%s-%s-%s", []arg{{"String", "c"}, {"String", "a"}, {"String", "b"}}, "c-a-b"},
		{"%c", []arg{{"Int", 65}}, "A"},
		{"%03d|%s|%6.3f", []arg{{"Int", 7}, {"String", "q"}, {"Float", 2.5}}, "007|q| 2.500"},
	} {
		s := scn(fmt.Sprintf("format %q with %v", c.f, c.args))
		args := []Ptr{s.text("f", c.f)}
		for i, a := range c.args {
			l := fmt.Sprint("a", i)
			switch v := a.v.(type) {
			case string:
				args = append(args, s.text(l, v))
			case int:
				args = append(args, s.intNode(l, cInt(v)))
			case bool:
				args = append(args, s.node(l, "Bool", s.anyBool(cBool(v))))
			case float64:
				args = append(args, s.node(l, "Float", s.anyFloat(cFloat(v))))
			}
		}
		s.exact(r, "verbs replaced by the operands in order", "operator strings.format", s.applyOp("strings.format", E, args...), str(c.want))
	}

	// every text is accepted; nothing else is --------------------------------------
	for _, o := range []struct {
		name     string
		kinds    []string // of the operands
		min, max int
	}{
		{"strings.concat", []string{"String", "String", "String"}, 0, -1},
		{"strings.contains", []string{"String", "String"}, 2, 2},
		{"strings.format", []string{"String"}, 1, -1},
		{"strings.join", []string{"Array", "String"}, 2, 2},
		{"strings.quote", []string{""}, 1, 1},
		{"strings.replace", []string{"String", "String", "String", "Int"}, 3, 4},
		{"strings.sha256", []string{"String"}, 1, 1},
		{"strings.split", []string{"String", "String"}, 2, 2},
		{"strings.toLower", []string{"String"}, 1, 1},
		{"strings.toUpper", []string{"String"}, 1, 1},
		{"strings.trim", []string{"String"}, 1, 1},
	} {
		give := func(s *Scn, n, bad int, kind string) []Ptr {
			var args []Ptr
			for i := 0; i < n; i++ {
				k := o.kinds[min(i, len(o.kinds)-1)]
				if i == bad {
					k = kind
				}
				l := fmt.Sprint("x", i)
				switch {
				case k == "":
					args = append(args, s.bare(l, "String"))
				case k == "Array" && i != bad:
					args = append(args, s.arrNode(l, s.bare(l+"0", "String"), s.bare(l+"1", "String")))
				default:
					args = append(args, s.bare(l, k))
				}
			}
			return args
		}
		op := "operator " + o.name
		if o.max >= 0 {
			for n := 0; n <= o.max+3; n++ {
				if n >= o.min && n <= o.max {
					continue
				}
				s := scn(fmt.Sprintf("%d operands", n))
				s.expErr(r, "another number of operands", op, s.applyOp(o.name, E, give(s, n, -1, "")...))
			}
		} else if o.min > 0 {
			s := scn("no operands")
			s.expErr(r, "another number of operands", op, s.applyOp(o.name, E))
		}
		top := o.max
		if top < 0 {
			top = len(o.kinds)
		}
		for n := max(o.min, 1); n <= top; n++ {
			s := scn(fmt.Sprintf("any %d texts", n))
			s.exp(r, "every text is accepted", op, s.applyOp(o.name, E, give(s, n, -1, "")...), func(out Outcome) string {
				if m := s.noErr(out); m != "" && o.name != "strings.format" {
					return m
				}
				return ""
			})
			for pos := 0; pos < n; pos++ {
				want := o.kinds[pos]
				for _, k := range allKinds {
					if want == "" || k == want || k == "Symbol" || k == "Parameter" {
						continue
					}
					s := scn(fmt.Sprintf("operand %d of %d is a %s", pos+1, n, k))
					s.expErr(r, "operands must be texts", op, s.applyOp(o.name, E, give(s, n, pos, k)...))
				}
			}
		}
	}
	for n := 1; n <= 3; n++ {
		for pos := 0; pos < n; pos++ {
			for _, k := range allKinds {
				if k == "String" || k == "Symbol" || k == "Parameter" {
					continue
				}
				s := scn(fmt.Sprintf("list item %d of %d is a %s", pos+1, n, k))
				var el []Ptr
				for i := 0; i < n; i++ {
					if i == pos {
						el = append(el, s.bare("bad", k))
					} else {
						el = append(el, s.bare(fmt.Sprint("e", i), "String"))
					}
				}
				s.expErr(r, "operands must be texts", "operator strings.join", s.applyOp("strings.join", E, s.arrNode("l", el...), s.bare("sep", "String")))
			}
		}
	}
}

func init() {
	models["crypto/sha256.Sum256"] = func(c *Call) ([]Outcome, bool) {
		t, ok := constBytes(c.In, c.St, c.Args[0])
		if !ok {
			return nil, false
		}
		h := sha256.Sum256([]byte(t))
		f := make([]Val, len(h))
		for i := range h {
			f[i] = cInt(int(h[i]))
		}
		return ret1(c, StructV{c.Sig.Results().At(0).Type(), f}), true
	}
	models["encoding/hex.EncodeToString"] = func(c *Call) ([]Outcome, bool) {
		t, ok := constBytes(c.In, c.St, c.Args[0])
		if !ok {
			return nil, false
		}
		return ret1(c, cStr(hex.EncodeToString([]byte(t)))), true
	}
}

// constBytes reads a known sequence of bytes.
func constBytes(in *Interp, st *State, v Val) (string, bool) {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	switch x := v.(type) {
	case *Term:
		if x.Op == "conv:stringtobytes" {
			return isStr(x.Args[0])
		}
		return "", false
	case Nil:
		return "", true
	case StructV:
		var b []byte
		for _, e := range x.F {
			n, ok := isInt(e)
			if !ok {
				return "", false
			}
			b = append(b, byte(n))
		}
		return string(b), true
	}
	el, ok := in.listElems(st, v)
	if !ok {
		return "", false
	}
	var b []byte
	for _, e := range el {
		n, ok := isInt(e)
		if !ok {
			return "", false
		}
		b = append(b, byte(n))
	}
	return string(b), true
}

// predicate evaluates a function argument on one character.
func predicate(c *Call, f Val) func(rn rune) (Val, bool) {
	return func(rn rune) (Val, bool) {
		fn, ok := f.(Fn)
		if !ok || fn.F == nil {
			return nil, false
		}
		outs := c.In.callFunc(c.St.clone(), c.Site, fn.F, []Val{cInt(int(rn))}, fn.B)
		if len(outs) != 1 || len(outs[0].Res) != 1 {
			return nil, false
		}
		return outs[0].Res[0], true
	}
}

func init() {
	type fold = func(t string, f func(rune) bool) Val
	for n, f := range map[string]fold{
		"TrimFunc":      func(t string, f func(rune) bool) Val { return cStr(strings.TrimFunc(t, f)) },
		"TrimLeftFunc":  func(t string, f func(rune) bool) Val { return cStr(strings.TrimLeftFunc(t, f)) },
		"TrimRightFunc": func(t string, f func(rune) bool) Val { return cStr(strings.TrimRightFunc(t, f)) },
		"IndexFunc":     func(t string, f func(rune) bool) Val { return cInt(strings.IndexFunc(t, f)) },
		"LastIndexFunc": func(t string, f func(rune) bool) Val { return cInt(strings.LastIndexFunc(t, f)) },
		"ContainsFunc":  func(t string, f func(rune) bool) Val { return cBool(strings.ContainsFunc(t, f)) },
	} {
		f := f
		old := models["strings."+n]
		models["strings."+n] = func(c *Call) ([]Outcome, bool) {
			if t, ok := isStr(c.Args[0]); ok {
				p, known := predicate(c, c.Args[1]), true
				v := f(t, func(rn rune) bool {
					b, ok := p(rn)
					y, ok2 := isBool(b)
					known = known && ok && ok2
					return y
				})
				if known {
					return ret1(c, v), true
				}
			}
			if old != nil {
				return old(c)
			}
			return nil, false
		}
	}
	old := models["strings.Map"]
	models["strings.Map"] = func(c *Call) ([]Outcome, bool) {
		if t, ok := isStr(c.Args[1]); ok {
			p, known := predicate(c, c.Args[0]), true
			v := strings.Map(func(rn rune) rune {
				b, ok := p(rn)
				y, ok2 := isInt(b)
				known = known && ok && ok2
				return rune(y)
			}, t)
			if known {
				return ret1(c, cStr(v)), true
			}
		}
		if old != nil {
			return old(c)
		}
		return nil, false
	}
}
