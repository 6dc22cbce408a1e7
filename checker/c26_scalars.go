package main

import (
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"
)

func init() {
	register(&Check{ID: "C26", Min: 10000, Rule: "Abstract interpretation of the scalar path from the event of the parser to the characters written. Reading: the function that turns events into YAML nodes is followed for a table of notations (all core-schema forms of null, booleans, integers, floats, and texts that resemble them) in the five scalar styles and with explicit tags; the engine's parser for each tag, position and anchor with symbolic texts; evaluation for the notations in both modes, against a reader of the YAML core schema written for the check. Writing: rendering followed by the encoder's scalar branch, for each kind of value, requested style and place, with symbolic text too: the event emitted must read back as the same kind and value. Characters: the emitter's analysis and scalar writer for texts of each class (indicators, blanks, breaks, controls, non-ASCII, trailing and leading spaces) x 5 styles x 3 places, judged by an independent reader of YAML scalars.", Run: runC26})
}

const yamlPkg = modPath + "/internal/yaml"

// The numbers that are no constants of the language.
var (
	posInf = Sym{"+inf", floatT}
	negInf = Sym{"-inf", floatT}
	nan    = Sym{"nan", floatT}
)

func special(v Val) (float64, bool) {
	switch v.Key() {
	case posInf.Key():
		return math.Inf(1), true
	case negInf.Key():
		return math.Inf(-1), true
	case nan.Key():
		return math.NaN(), true
	}
	if c, ok := v.(Const); ok && (c.C.Kind() == constant.Float || c.C.Kind() == constant.Int) {
		f, _ := constant.Float64Val(constant.ToFloat(c.C))
		return f, true
	}
	return 0, false
}

func floatVal(f float64) Val {
	switch {
	case math.IsInf(f, 1):
		return posInf
	case math.IsInf(f, -1):
		return negInf
	case math.IsNaN(f):
		return nan
	}
	return cFloat(f)
}

// notations folds the conversions between numbers and their texts.
func (s *Scn) notations() {
	ret := func(c *Call, v Val, err error) ([]Outcome, bool) {
		var e Val = Nil{}
		if err != nil {
			e = nonnilErr(c, "not a number")
		}
		return ret1(c, v, e), true
	}
	f := func(c *Call) ([]Outcome, bool) {
		a := func(i int) int { n, _ := isInt(c.Args[i]); return n }
		switch c.Name {
		case "strconv.ParseInt", "strconv.ParseUint", "strconv.ParseFloat":
			t, ok := isStr(c.Args[0])
			if !ok {
				return nil, false
			}
			switch c.Name {
			case "strconv.ParseInt":
				n, err := strconv.ParseInt(t, a(1), a(2))
				return ret(c, Const{constant.MakeInt64(n)}, err)
			case "strconv.ParseUint":
				n, err := strconv.ParseUint(t, a(1), a(2))
				return ret(c, Const{constant.MakeUint64(n)}, err)
			}
			x, err := strconv.ParseFloat(t, a(1))
			return ret(c, floatVal(x), err)
		case "strconv.FormatFloat":
			x, ok := special(c.Args[0])
			if !ok {
				return nil, false
			}
			return ret1(c, cStr(strconv.FormatFloat(x, byte(a(1)), a(2), a(3)))), true
		case "strconv.FormatInt":
			k, ok := c.Args[0].(Const)
			if !ok {
				return nil, false
			}
			n, ok := constant.Int64Val(constant.ToInt(k.C))
			if !ok {
				return nil, false
			}
			return ret1(c, cStr(strconv.FormatInt(n, a(1)))), true
		case "time.Parse":
			l, ok := isStr(c.Args[0])
			t, ok2 := isStr(c.Args[1])
			if ok && ok2 {
				_, err := time.Parse(l, t)
				return ret(c, Top{c.Sig.Results().At(0).Type()}, err)
			}
		case "math.Inf":
			if a(0) < 0 {
				return ret1(c, negInf), true
			}
			return ret1(c, posInf), true
		case "math.NaN":
			return ret1(c, nan), true
		case "math.IsInf":
			if x, ok := special(c.Args[0]); ok {
				return ret1(c, cBool(math.IsInf(x, a(1)))), true
			}
		case "math.IsNaN":
			if x, ok := special(c.Args[0]); ok {
				return ret1(c, cBool(math.IsNaN(x))), true
			}
		case "regexp.MustCompile":
			if t, ok := isStr(c.Args[0]); ok {
				return ret1(c, mkTerm("regexp", c.Sig.Results().At(0).Type(), cStr(t))), true
			}
		case "(*regexp.Regexp).MatchString":
			t, ok := c.Args[0].(*Term)
			x, ok2 := isStr(c.Args[1])
			if ok && ok2 && t.Op == "regexp" {
				p, _ := isStr(t.Args[0])
				return ret1(c, cBool(regexp.MustCompile(p).MatchString(x))), true
			}
		}
		return nil, false
	}
	s.In.Hooks = append([]Hook{f}, s.In.Hooks...)
}

// coreScalar reads an unquoted scalar by the rules of YAML: its tag and, for
// numbers, its value.
func coreScalar(t string) (tag string, v Val) {
	switch t {
	case "", "~", "null", "Null", "NULL":
		return "!!null", nil
	case "true", "True", "TRUE":
		return "!!bool", cBool(true)
	case "false", "False", "FALSE":
		return "!!bool", cBool(false)
	case ".inf", ".Inf", ".INF", "+.inf", "+.Inf", "+.INF":
		return "!!float", posInf
	case "-.inf", "-.Inf", "-.INF":
		return "!!float", negInf
	case ".nan", ".NaN", ".NAN":
		return "!!float", nan
	case "<<":
		return "!!merge", nil
	}
	digits := strings.ReplaceAll(t, "_", "")
	if len(t) > 0 && strings.IndexByte("+-0123456789", t[0]) < 0 {
		digits = t
	}
	neg := strings.HasPrefix(digits, "-")
	d := strings.TrimPrefix(strings.TrimPrefix(digits, "-"), "+")
	if len(digits)-len(d) <= 1 {
		base, body := 10, d
		switch {
		case len(d) > 1 && d[0] == '0' && strings.IndexByte("xX", d[1]) >= 0:
			base, body = 16, d[2:]
		case len(d) > 1 && d[0] == '0' && strings.IndexByte("bB", d[1]) >= 0:
			base, body = 2, d[2:]
		case len(d) > 1 && d[0] == '0' && strings.IndexByte("oO", d[1]) >= 0:
			base, body = 8, d[2:]
		case len(d) > 1 && d[0] == '0':
			base, body = 8, d[1:]
		}
		ok := body != "" && strings.IndexByte("+-", body[0]) < 0
		for i := 0; ok && i < len(body); i++ {
			_, err := strconv.ParseUint(body[i:i+1], base, 8)
			ok = err == nil
		}
		if ok {
			n, _ := new(big.Int).SetString(body, base)
			if neg {
				n.Neg(n)
			}
			if n.IsInt64() || n.IsUint64() {
				return "!!int", Const{constant.Make(n)}
			}
		}
	}
	if floatText.MatchString(digits) {
		if x, err := strconv.ParseFloat(digits, 64); err == nil {
			return "!!float", floatVal(x)
		}
	}
	return "!!str", nil
}

var floatText = regexp.MustCompile(`^[-+]?(\.[0-9]+|[0-9]+(\.[0-9]*)?)([eE][-+]?[0-9]+)?$`)

func sameVal(a, b Val) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	x, ok := a.(Const)
	y, ok2 := b.(Const)
	if ok && ok2 && x.C.Kind() != constant.Bool && x.C.Kind() != constant.String {
		return constant.Compare(constant.ToFloat(x.C), 39, constant.ToFloat(y.C))
	}
	return a.Key() == b.Key()
}

func runC26(r *Report) {
	w := r.W()
	parse26(r, w)
	eval26(r, w)
	st := yamlState(w)
	read26(r, st)
	write26(r, st)
	emit26(r, st)
}

// notations of scalars, in the order tag, texts
var texts26 = [][]string{
	{"!!null", "null", "~", "", "Null", "NULL"},
	{"!!bool", "true", "false", "True", "False", "TRUE", "FALSE"},
	{"!!int", "0", "1", "-1", "+7", "42", "007", "017", "0o17", "0x1F", "0Xff", "-0x10", "0b101", "-0b1", "1_000", "0x_1F", "9223372036854775807", "-9223372036854775808"},
	{"!!float", "1.5", "-1.5", "+.5", ".5", "1.", "1e3", "1E-3", "1_000.5", "0.1", "123456789012345678901234567890", "1e300", "5e-324", "08", ".inf", "-.inf", "+.INF", ".NaN", ".nan", "2.0", "100000000000000000000000"},
}

func parse26(r *Report, w *World) {
	fn := w.P.fn("engine", "Parse")
	yp := w.P.pkg("internal/yaml")
	nt := w.P.typ("internal/yaml", "Node")
	kinds := map[string]string{"!!null": "Null", "!!bool": "Bool", "!!int": "Int", "!!float": "Float", "!!str": "String", "!!timestamp": "String", "other": "String", "": "String"}
	for _, tag := range sortedKeys(kinds) {
		for _, at := range []string{"alone", "in a document", "in a list", "in a map", "deep inside"} {
			for _, anchored := range []bool{false, true} {
				name := "a scalar tagged " + tag + " " + at
				if anchored {
					name += ", with an anchor"
				}
				s := w.scn(name)
				var tv Val = cStr(tag)
				if tag == "other" {
					tv = s.str("tag")
					for _, k := range []string{"!!null", "!!bool", "!!int", "!!float", "!!str", "!null", "!bool", "!int", "!float", "!string", ""} {
						s.assume(tv, cStr(k), LT|GT)
					}
				}
				mk := func(label, kind string, kv map[string]Val, content ...Val) Ptr {
					kv["Kind"] = cInt(constInt(yp, kind))
					kv["Line"] = s.sym(label+".line", intT)
					kv["Column"] = s.sym(label+".column", intT)
					if len(content) > 0 {
						kv["Content"] = s.list(label+".c", types.NewSlice(ptrTo(nt)), content...)
					}
					return s.alloc(label, nt, s.strct(nt, kv))
				}
				kv := map[string]Val{"Tag": tv, "Value": s.str("text")}
				if anchored {
					kv["Anchor"] = cStr("anchor")
				}
				sc := mk("n", "ScalarNode", kv)
				key := func(l string) Ptr {
					return mk(l, "ScalarNode", map[string]Val{"Tag": cStr("!!str"), "Value": cStr(l)})
				}
				other := func(l string) Ptr {
					return mk(l, "ScalarNode", map[string]Val{"Tag": cStr("!!int"), "Value": cStr("1")})
				}
				root := sc
				switch at {
				case "in a document":
					root = mk("doc", "DocumentNode", map[string]Val{}, sc)
				case "in a list":
					root = mk("l", "SequenceNode", map[string]Val{"Tag": cStr("!!seq")}, other("before"), sc, other("after"))
				case "in a map":
					root = mk("m", "MappingNode", map[string]Val{"Tag": cStr("!!map")}, key("a"), other("before"), key("b"), sc, key("c"), other("after"))
				case "deep inside":
					l := mk("l", "SequenceNode", map[string]Val{"Tag": cStr("!!seq")}, sc)
					m := mk("m", "MappingNode", map[string]Val{"Tag": cStr("!!map")}, key("b"), l)
					root = mk("doc", "DocumentNode", map[string]Val{}, m)
				}
				outs := s.run(fn, s.str("file"), root)
				s.exp(r, "scalars are read with kind, value, tag and position", "function Parse", outs, func(o Outcome) string {
					if m := s.noErr(o); m != "" {
						return m
					}
					n := o.Res[0]
					line, col := Val(s.sym("n.line", intT)), Val(s.sym("n.column", intT))
					pick := func(i int) string {
						el, ok := s.elems(o.St, n)
						if !ok || i >= len(el) {
							return "a list is not read with its elements"
						}
						n = el[i]
						return ""
					}
					get := func(k string) string {
						es, ok := s.entries(o.St, n)
						if !ok {
							return "a map is not read with its entries"
						}
						for _, e := range es {
							if e.K.Key() == cStr(k).Key() {
								n = e.V
								return ""
							}
						}
						return "the entry " + k + " is missing"
					}
					m := ""
					switch at {
					case "in a document":
						line, col = nil, nil // those of the document
					case "in a list":
						m = pick(1)
					case "in a map":
						m = get("b")
					case "deep inside":
						if m = get("b"); m == "" {
							m = pick(0)
						}
					}
					if m != "" {
						return m
					}
					if k := s.kindOf(o.St, n); k != kinds[tag] {
						return "the kind is " + k + " instead of " + kinds[tag]
					}
					if v := s.value(o.St, n); v.Key() != s.str("text").Key() {
						return "the value is " + v.Key() + " instead of the text"
					}
					if t := s.nodeField(o.St, n, "Tag"); t.Key() != tv.Key() {
						return "the tag is " + t.Key()
					}
					a := Val(cStr(""))
					if anchored {
						a = cStr("anchor")
					}
					if t := s.nodeField(o.St, n, "Anchor"); t.Key() != a.Key() {
						return "the anchor is " + t.Key() + " instead of " + a.Key()
					}
					if line == nil {
						return ""
					}
					at, _ := s.nodeField(o.St, n, "Attr").(StructV)
					if at.T == nil {
						return "the position is not determined"
					}
					el, ok := s.In.listElems(o.St, at.F[s.fieldIdx(w.T.Attr, "Sources")])
					if !ok || len(el) != 1 {
						return "not exactly one position is recorded"
					}
					fp, ok := el[0].(StructV)
					if !ok {
						return "the position is not determined"
					}
					for i, f := range []string{"File", "Line", "Column"} {
						want := []Val{s.str("file"), line, col}[i]
						if g := fp.F[s.fieldIdx(w.T.FilePos, f)]; g.Key() != want.Key() {
							return "the position has the " + strings.ToLower(f) + " " + g.Key()
						}
					}
					return ""
				})
			}
		}
	}
}

func eval26(r *Report, w *World) {
	run := func(name, kind string, text Val, tag string, want Val, isError bool) {
		for _, mode := range []int{w.T.ModeQuote, w.T.ModeEval} {
			md := "data"
			if mode == w.T.ModeEval {
				md = "code"
			}
			s := w.scn(name + ", as " + md)
			s.notations()
			e, et := s.engine(nil)
			attr := s.attrIn(s.str("file"))
			n := s.node("n", kind, s.anyStr(text), "Tag", cStr(tag), "Attr", attr)
			outs := s.run(s.engMethod(et, "Eval"), e, n, s.env("env", nil), cInt(mode))
			rule := "evaluated scalars keep kind, value, tag and position"
			if isError {
				s.expErr(r, rule, "function Eval", outs)
				continue
			}
			s.exp(r, rule, "function Eval", outs, func(o Outcome) string {
				if m := s.noErr(o); m != "" {
					return m
				}
				if k := s.kindOf(o.St, o.Res[0]); k != kind {
					return "the kind is " + k + " instead of " + kind
				}
				v := s.value(o.St, o.Res[0])
				if kind == "Null" {
					v = nil
				}
				if !sameVal(v, want) {
					return "the value is " + v.Key() + " instead of " + want.Key()
				}
				if _, ok := s.nodeField(o.St, o.Res[0], "Value").(Iface); !ok && kind != "Null" {
					return "the type of the value is not determined"
				}
				if t := s.nodeField(o.St, o.Res[0], "Tag"); t.Key() != cStr(tag).Key() {
					return "the tag is " + t.Key()
				}
				if a := s.nodeField(o.St, o.Res[0], "Attr"); a.Key() != attr.Key() {
					return "the position and style are not those of the scalar"
				}
				return ""
			})
		}
	}
	kinds := map[string]string{"!!null": "Null", "!!bool": "Bool", "!!int": "Int", "!!float": "Float", "!!str": "String"}
	for _, row := range texts26 {
		for _, t := range row[1:] {
			_, v := coreScalar(t)
			run("the "+kinds[row[0]]+" "+strconv.Quote(t), kinds[row[0]], cStr(t), row[0], v, false)
			run("the text "+strconv.Quote(t), "String", cStr(t), "!!str", cStr(t), false)
		}
	}
	run("any text", "String", Sym{"text", strT}, "!!str", Sym{"text", strT}, false)
	run("any untagged text", "String", Sym{"text", strT}, "", Sym{"text", strT}, false)
	run("a date", "String", Sym{"text", strT}, "!!timestamp", Sym{"text", strT}, false)
	for _, t := range []string{"9223372036854775808", "18446744073709551615", "-9223372036854775809"} {
		run("the integer "+t+" out of range", "Int", cStr(t), "!!int", nil, true)
	}
}

// yamlState is the state after the initialisers of the YAML package.
func yamlState(w *World) *State {
	s := w.scn("initialisers of the YAML package")
	s.notations()
	s.In.Inline = map[string]bool{yamlPkg: true}
	s.In.Cap = 300
	f := w.P.pkg("internal/yaml").Func("init")
	outs := s.run(f)
	if len(outs) != 1 {
		anchorf("the initialisers of the YAML package have %d outcomes", len(outs))
	}
	return outs[0].St
}

// yamlScn is a scenario in which the functions of the YAML package are followed.
func yamlScn(w *World, st *State, name string) *Scn {
	s := w.scn(name)
	s.notations()
	s.St = st.clone()
	s.In.Inline = map[string]bool{yamlPkg: true}
	s.In.Cap = 300
	return s
}

func (s *Scn) bytes(label, text string) Val {
	var el []Val
	for i := 0; i < len(text); i++ {
		el = append(el, cInt(int(text[i])))
	}
	return s.list(label, types.NewSlice(types.Typ[types.Byte]), el...)
}

// bytesOf reads a text from the first n elements of a list of bytes.
func (s *Scn) bytesOf(st *State, v Val, n int) (string, bool) {
	el, ok := s.In.listElems(st, v)
	if !ok || n > len(el) {
		return "", false
	}
	var b []byte
	for _, e := range el[:n] {
		k, ok := isInt(e)
		if !ok {
			return "", false
		}
		b = append(b, byte(k))
	}
	return string(b), true
}

var styles26 = []string{"PLAIN", "SINGLE_QUOTED", "DOUBLE_QUOTED", "LITERAL", "FOLDED"}

// emit26: every text of every class, requested in every style and in every
// place, is written so that its characters spell the same text.
func emit26(r *Report, base *State) {
	var texts []string
	classes := []string{"a", " ", "\n", "\t", "'", "\"", "\\", ":", "#", "-", ",", "[", "é", "\x01", "\x7f", "\u0085", "\u2028", "\ufeff", "\U0001F600"}
	for _, a := range classes {
		texts = append(texts, a)
		for _, b := range classes {
			texts = append(texts, a+b)
		}
	}
	few := classes[:4]
	for _, a := range few {
		for _, b := range few {
			for _, c := range few {
				texts = append(texts, a+b+c)
				for _, d := range few {
					texts = append(texts, a+b+c+d)
				}
			}
		}
	}
	texts = append(texts, "", "a\n\n\nb", "a\n b\nc", "a\n\n b\n\nc\n", "a: b", "a #b", "- a", "? a", "---", "...", "--- a", "{a", "a]", "&a", "*a", "!a", "|a", ">a", "%a", "@a", "`a", "a,b", "it's", "a \"b\"", "a: ", "a:", ":a", "a\\nb", "?", "a b c", "a\nb\n c\nd\n")
	places := []string{"a block", "a flow", "a key"}
	r.parallel(len(texts), func(i int, r *Report) {
		for _, style := range styles26 {
			if strings.Contains(texts[i], "\u2028") && style != "DOUBLE_QUOTED" {
				continue // versions of YAML differ about which characters are line breaks
			}
			if texts[i] == "" && style == "PLAIN" {
				continue // nothing is null: the encoder never asks for it (write26)
			}
			for _, place := range places {
				emitOne(r, base, texts[i], style, place, false)
			}
		}
	})
	var plain []string
	for _, row := range texts26 {
		for _, t := range row[1:] {
			if t != "" {
				plain = append(plain, t)
			}
		}
	}
	r.parallel(len(plain), func(i int, r *Report) {
		for _, place := range places {
			emitOne(r, base, plain[i], "PLAIN", place, true)
		}
	})
}

func emitOne(r *Report, base *State, text, style, place string, mustPlain bool) {
	w := r.W()
	yp := w.P.pkg("internal/yaml")
	s := yamlScn(w, base, "the text "+strconv.Quote(text)+", requested "+strings.ToLower(style)+", in "+place)
	et := w.P.typ("internal/yaml", "yaml_emitter_t")
	evt := w.P.typ("internal/yaml", "yaml_event_t")
	const size = 120
	ints := func(l string, v ...int) Val {
		var el []Val
		for _, x := range v {
			el = append(el, cInt(x))
		}
		return s.list(l, types.NewSlice(intT), el...)
	}
	em := map[string]Val{
		"buffer": s.bytes("buffer", strings.Repeat("\x00", size)), "line_break": cInt(constInt(yp, "yaml_LN_BREAK")), "unicode": cBool(true),
		"best_indent": cInt(2), "best_width": cInt(1 << 30), "foot_indent": cInt(-1), "column": cInt(2), "whitespace": cBool(false),
		"indents": ints("indents", -1, 0), "indent": cInt(0),
	}
	stt := et.Underlying().(*types.Struct).Field(s.fieldIdx(et, "states")).Type()
	state := cInt(constInt(yp, "yaml_EMIT_BLOCK_MAPPING_KEY_STATE"))
	em["states"] = s.list("states", stt, state, state)
	switch place {
	case "a flow":
		em["flow_level"] = cInt(1)
		em["mapping_context"] = cBool(true)
	case "a key":
		em["simple_key_context"] = cBool(true)
		em["mapping_context"] = cBool(true)
	default:
		em["mapping_context"] = cBool(true)
	}
	e := s.alloc("emitter", et, s.strct(et, em))
	ev := s.alloc("event", evt, s.strct(evt, map[string]Val{
		"typ": cInt(constInt(yp, "yaml_SCALAR_EVENT")), "value": s.bytes("text", text), "implicit": cBool(true), "quoted_implicit": cBool(true),
		"style": cInt(constInt(yp, "yaml_"+style+"_SCALAR_STYLE")),
	}))
	outs := s.run(yp.Func("yaml_emitter_analyze_event"), e, ev)
	construct := "analysis and output of scalars in the YAML package"
	rule := "written texts spell the text"
	if len(outs) != 1 || len(outs[0].Res) != 1 || outs[0].Res[0].Key() != cBool(true).Key() {
		s.exp(r, rule, construct, outs, func(o Outcome) string { return "the analysis of the event is not determined or fails" })
		return
	}
	s.St = outs[0].St
	outs = s.run(yp.Func("yaml_emitter_emit_scalar"), e, ev)
	s.exp(r, rule, construct, outs, func(o Outcome) string {
		if o.Res[0].Key() != cBool(true).Key() {
			return "the scalar is not written"
		}
		pos, ok := isInt(s.field(o.St, e, et, "buffer_pos"))
		if !ok {
			return "cannot be decided: the length of the output is not determined"
		}
		col, ok := isInt(s.field(o.St, e, et, "column"))
		if !ok {
			return "cannot be decided: the column is not determined"
		}
		out, ok := s.bytesOf(o.St, s.field(o.St, e, et, "buffer"), pos)
		if !ok {
			return "cannot be decided: the output is not determined"
		}
		if col > 0 {
			out += "\n"
		}
		got, how, err := readScalar(out, place)
		if err != "" {
			return "the output " + strconv.Quote(out) + " cannot be read: " + err
		}
		if got != text {
			return "the output " + strconv.Quote(out) + " reads as " + strconv.Quote(got)
		}
		if mustPlain && how != "plain" {
			return "the output " + strconv.Quote(out) + " of a value that is not a text is a text"
		}
		if how == "plain" && style != "PLAIN" {
			return "the text is written without the quotes that were requested"
		}
		return ""
	})
}

// readScalar reads one scalar by the rules of YAML. It stands in the place of
// the value of an entry at indentation 0; the text ends with a line break.
func readScalar(out, place string) (text, how, err string) {
	if strings.HasPrefix(out, "\n") || !strings.HasPrefix(out, " ") {
		return "", "", "it does not begin behind a space"
	}
	t := out[1:]
	switch {
	case strings.HasPrefix(t, "'"), strings.HasPrefix(t, "\""):
		q := t[0]
		end := -1
		for i := 1; i < len(t); i++ {
			if t[i] == '\\' && q == '"' {
				i++
			} else if t[i] == q && q == '\'' && i+1 < len(t) && t[i+1] == q {
				i++
			} else if t[i] == q {
				end = i
				break
			}
		}
		if end < 0 {
			return "", "", "the quote is not closed"
		}
		if t[end+1:] != "\n" {
			return "", "", "something follows the closing quote"
		}
		body := t[1:end]
		if place == "a key" && strings.Contains(body, "\n") {
			return "", "", "a key of several lines"
		}
		for _, c := range body {
			if !printable(c) {
				return "", "", "unprintable characters"
			}
		}
		for _, l := range strings.Split(body, "\n")[1:] {
			if l != "" && !strings.HasPrefix(l, " ") {
				return "", "", "a line is not indented"
			}
		}
		if q == '\'' {
			return strings.ReplaceAll(foldLines(body), "''", "'"), "quoted", ""
		}
		return unescape(body)
	case strings.HasPrefix(t, "|"), strings.HasPrefix(t, ">"):
		if place != "a block" {
			return "", "", "a block in " + place
		}
		text, err = readBlock(t)
		return text, "block", err
	}
	t = strings.TrimSuffix(t, "\n")
	if place == "a flow" || place == "a key" {
		if t == "" {
			return "", "", "an empty text"
		}
	}
	if m := plainUnsafe(t, place == "a flow"); m != "" {
		return "", "", m
	}
	return t, "plain", ""
}

func printable(c rune) bool {
	switch {
	case c == '\t', c == '\n', c >= 0x20 && c <= 0x7e, c == 0x85, c >= 0xa0 && c <= 0xd7ff, c >= 0xe000 && c <= 0xfffd && c != 0xfeff, c >= 0x10000:
		return true
	}
	return false
}

func yamlBreak(c rune) bool { return c == '\n' || c == '\r' || c == 0x85 || c == 0x2028 || c == 0x2029 }

func plainUnsafe(t string, flow bool) string {
	if t == "" {
		return ""
	}
	for _, c := range t {
		if !printable(c) || yamlBreak(c) {
			return "an unprintable character or line break without quotes"
		}
	}
	if strings.Trim(t, " \t") != t {
		return "blanks at the ends without quotes"
	}
	blank := func(i int) bool { return i >= len(t) || t[i] == ' ' || t[i] == '\t' }
	in := func(i int) bool { return flow && i < len(t) && strings.IndexByte(",[]{}", t[i]) >= 0 }
	if strings.IndexByte(",[]{}#&*!|>'\"%@`", t[0]) >= 0 || strings.IndexByte("-?:", t[0]) >= 0 && (blank(1) || in(1)) {
		return "an indicator at the start without quotes"
	}
	if (strings.HasPrefix(t, "---") || strings.HasPrefix(t, "...")) && blank(3) {
		return "a document marker without quotes"
	}
	for i := range t {
		if in(i) || t[i] == ':' && (blank(i+1) || in(i+1)) || t[i] == '#' && i > 0 && blank(i-1) {
			return "an indicator inside without quotes"
		}
	}
	return ""
}

// foldLines joins the lines of a quoted text.
func foldLines(b string) string {
	ls := strings.Split(b, "\n")
	for i := range ls {
		if i > 0 {
			ls[i] = strings.TrimLeft(ls[i], " \t")
		}
		if i < len(ls)-1 {
			ls[i] = strings.TrimRight(ls[i], " \t")
		}
	}
	out := ls[0]
	for i := 1; i < len(ls); {
		n := 1
		for i < len(ls)-1 && ls[i] == "" {
			i++
			n++
		}
		if n == 1 {
			out += " "
		} else {
			out += strings.Repeat("\n", n-1)
		}
		out += ls[i]
		i++
	}
	return out
}

func unescape(b string) (string, string, string) {
	if strings.Contains(b, "\n") {
		b = foldLines(b)
	}
	var out []rune
	rs := []rune(b)
	simple := map[rune]rune{'0': 0, 'a': 7, 'b': 8, 't': 9, '\t': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, 'e': 27, ' ': ' ', '"': '"', '/': '/', '\\': '\\', 'N': 0x85, '_': 0xa0, 'L': 0x2028, 'P': 0x2029}
	for i := 0; i < len(rs); i++ {
		if rs[i] != '\\' {
			out = append(out, rs[i])
			continue
		}
		i++
		if i == len(rs) {
			return "", "", "an incomplete escape"
		}
		if c, ok := simple[rs[i]]; ok {
			out = append(out, c)
			continue
		}
		n := map[rune]int{'x': 2, 'u': 4, 'U': 8}[rs[i]]
		if n == 0 || i+n >= len(rs) {
			return "", "", "an unknown escape"
		}
		k, e := strconv.ParseUint(string(rs[i+1:i+1+n]), 16, 32)
		if e != nil {
			return "", "", "an unknown escape"
		}
		out = append(out, rune(k))
		i += n
	}
	return string(out), "quoted", ""
}

func readBlock(t string) (string, string) {
	head, rest, _ := strings.Cut(t, "\n")
	indent, chomp := 0, byte(0)
	for i := 1; i < len(head); i++ {
		switch c := head[i]; {
		case c == '+' || c == '-':
			chomp = c
		case c >= '1' && c <= '9':
			indent = int(c - '0')
		default:
			return "", "an unknown header"
		}
	}
	var ls []string
	if rest != "" {
		ls = strings.Split(strings.TrimSuffix(rest, "\n"), "\n")
	}
	if indent == 0 {
		for _, l := range ls {
			if x := strings.TrimLeft(l, " "); x != "" {
				if x[0] == '\t' {
					return "", "a tab where the indentation is found out"
				}
				indent = len(l) - len(x)
				break
			}
		}
		if indent == 0 {
			indent = 1 << 20
		}
	}
	for i, l := range ls {
		if strings.TrimLeft(l, " ") == "" && len(l) <= indent {
			ls[i] = ""
			continue
		}
		if len(l) < indent || strings.Trim(l[:indent], " ") != "" {
			return "", "a line is not indented"
		}
		ls[i] = l[indent:]
		for _, c := range l {
			if !printable(c) {
				return "", "unprintable characters"
			}
		}
	}
	last := len(ls)
	for last > 0 && ls[last-1] == "" {
		last--
	}
	trail := len(ls) - last
	var out string
	if t[0] == '|' {
		out = strings.Join(ls[:last], "\n")
	} else {
		more := func(l string) bool { return l != "" && (l[0] == ' ' || l[0] == '\t') }
		i := 0
		for i < last && ls[i] == "" {
			out += "\n"
			i++
		}
		for ; i < last; i++ {
			out += ls[i]
			n := 0
			j := i + 1
			for j < last && ls[j] == "" {
				n++
				j++
			}
			if j >= last {
				break
			}
			switch {
			case more(ls[i]) || more(ls[j]):
				out += strings.Repeat("\n", n+1)
			case n == 0:
				out += " "
			default:
				out += strings.Repeat("\n", n)
			}
			i = j - 1
		}
	}
	switch chomp {
	case '-':
	case '+':
		if last > 0 {
			out += "\n"
		}
		out += strings.Repeat("\n", trail)
	default:
		if last > 0 {
			out += "\n"
		}
	}
	return out, ""
}

// strange26 are texts that look like something else.
var strange26 = []string{"yes", "no", "on", "off", "y", "N", "1:30", "0x", "1e", "e3", "=", "-", "+", ".", "1.2.3", "0b", "0o8", "1e400", "nUll", "12a", "0x1G", "tRue", "~~", "0b12", "1,5", "--1", "+-1", ".inf1", "1.5f", "text", "123 456", "é", ".5.", "1e+", "infinity", "nan", "NaN", ".iNf", "_1"}

// read26: the parser of the YAML package takes unquoted scalars for what they
// are, and quoted ones for text.
func read26(r *Report, base *State) {
	w := r.W()
	yp := w.P.pkg("internal/yaml")
	nt := w.P.typ("internal/yaml", "Node")
	pt := w.P.typ("internal/yaml", "parser")
	evt := w.P.typ("internal/yaml", "yaml_event_t")
	parse := w.P.method(ptrTo(pt), "parse")
	one := func(name, style, tag string, value Val, wantTag string, hook func(s *Scn)) {
		s := yamlScn(w, base, name)
		if hook != nil {
			hook(s)
		}
		s.hook("(*"+yamlPkg+".parser).expect (*"+yamlPkg+".parser).init", func(c *Call) []Outcome { return ret1(c) })
		bs := types.NewSlice(types.Typ[types.Byte])
		val := mkTerm("conv:stringtobytes", bs, value)
		var tg Val = Nil{}
		if tag != "" {
			tg = mkTerm("conv:stringtobytes", bs, cStr(tag))
		}
		ev := s.strct(evt, map[string]Val{
			"typ": cInt(constInt(yp, "yaml_SCALAR_EVENT")), "value": val, "tag": tg,
			"style": cInt(constInt(yp, "yaml_"+style+"_SCALAR_STYLE")),
		})
		p := s.alloc("parser", pt, s.strct(pt, map[string]Val{"event": ev, "doneInit": cBool(true)}))
		outs := s.run(parse, p)
		s.exp(r, "scalars are taken for what they are", "parser of the YAML package", outs, func(o Outcome) string {
			n := o.Res[0]
			if _, ok := n.(Ptr); !ok {
				return "no node is returned"
			}
			if k := s.field(o.St, n, nt, "Kind"); k.Key() != cInt(constInt(yp, "ScalarNode")).Key() {
				return "the kind is " + k.Key()
			}
			if t := s.field(o.St, n, nt, "Tag"); t.Key() != cStr(wantTag).Key() {
				return "the tag is " + t.Key() + " instead of " + wantTag
			}
			if v := s.field(o.St, n, nt, "Value"); s.In.relate(o.St, v, value) != EQ {
				return "the text is " + v.Key() + " instead of " + value.Key()
			}
			return ""
		})
	}
	long := func(t string) string { return "tag:yaml.org,2002:" + strings.TrimPrefix(t, "!!") }
	for _, row := range texts26 {
		for _, t := range row[1:] {
			one("the unquoted "+strconv.Quote(t), "PLAIN", "", cStr(t), row[0], nil)
			if tag, _ := coreScalar(t); tag != row[0] {
				anchorf("the reader of the check takes %q for %s", t, tag)
			}
			for _, st := range styles26[1:] {
				one("the "+strings.ToLower(st)+" "+strconv.Quote(t), st, "", cStr(t), "!!str", nil)
			}
		}
	}
	for _, t := range strange26 {
		one("the unquoted "+strconv.Quote(t), "PLAIN", "", cStr(t), "!!str", nil)
	}
	for _, st := range styles26 {
		for _, tag := range []string{"!!null", "!!bool", "!!int", "!!float", "!!str"} {
			one("a "+strings.ToLower(st)+" scalar tagged "+tag, st, long(tag), cStr("5"), tag, nil)
		}
		one("a "+strings.ToLower(st)+" scalar with a tag of its own", st, "!own", cStr("5"), "!own", nil)
	}
}

// write26: each scalar becomes an event that, read back, is the same scalar.
func write26(r *Report, base *State) {
	type val struct {
		name, kind, tag string
		v               Val
	}
	vals := []val{{"null", "Null", "!!null", nil}, {"true", "Bool", "!!bool", cBool(true)}, {"false", "Bool", "!!bool", cBool(false)}}
	for _, n := range []int64{0, 1, -1, 8, 10, 511, -4096, math.MaxInt64, math.MinInt64} {
		vals = append(vals, val{"the integer " + strconv.FormatInt(n, 10), "Int", "!!int", Const{constant.MakeInt64(n)}})
	}
	for _, f := range []float64{0, 1, -1, 0.5, -2.5, 1e21, 1e-7, 1e300, 5e-324, 123456789, 1e20, 100000, 1.0 / 3, math.MaxFloat64, 16777217, math.Inf(1), math.Inf(-1), math.NaN()} {
		vals = append(vals, val{"the float " + strconv.FormatFloat(f, 'g', -1, 64), "Float", "!!float", floatVal(f)})
	}
	for _, row := range texts26 {
		for _, t := range row[1:] {
			vals = append(vals, val{"the text " + strconv.Quote(t), "String", "!!str", cStr(t)})
		}
	}
	for _, t := range append([]string{"<<", "2001-02-03", "a\nb", "1\n", "2001-02-03T04:05:06Z"}, strange26...) {
		vals = append(vals, val{"the text " + strconv.Quote(t), "String", "!!str", cStr(t)})
	}
	vals = append(vals, val{"any text", "String", "!!str", Sym{"text", strT}})
	styles := []string{"", "TaggedStyle", "DoubleQuotedStyle", "SingleQuotedStyle", "LiteralStyle", "FoldedStyle", "FlowStyle", "TaggedStyle DoubleQuotedStyle"}
	r.parallel(len(vals), func(i int, r *Report) {
		for _, style := range styles {
			for _, place := range []string{"alone", "in a list", "in a map", "in a flow list"} {
				v := vals[i]
				writeOne(r, base, v.name, v.kind, v.tag, v.v, style, place)
			}
		}
	})
}

func writeOne(r *Report, base *State, name, kind, tag string, v Val, style, place string) {
	w := r.W()
	yp := w.P.pkg("internal/yaml")
	s := yamlScn(w, base, name+" with the style "+style+" "+place)
	st := 0
	for _, f := range strings.Fields(style) {
		st |= constInt(yp, f)
	}
	attr := func(n int) Val {
		return s.strct(w.T.Attr, map[string]Val{"Style": cInt(n)})
	}
	var iv Val = Nil{}
	switch kind {
	case "Bool":
		iv = s.anyBool(v)
	case "Int":
		iv = s.anyInt(v)
	case "Float":
		iv = s.anyFloat(v)
	case "String":
		iv = s.anyStr(v)
	}
	n := s.node("n", kind, iv, "Attr", attr(st))
	root := n
	switch place {
	case "in a list":
		root = s.arrNode("l", n)
	case "in a flow list":
		root = s.node("l", "Array", s.arr(n), "Attr", attr(constInt(yp, "FlowStyle")))
	case "in a map":
		root = s.mapNode("m", cStr("k"), n)
	}
	construct := "rendering and encoding of scalars"
	rule := "written scalars read back as the same kind and value"
	nd := s.node("docs", "Array", s.arr(root), "IsDocumentRoot", cBool(true))
	s.encoder(-1)
	e, et := s.engine(nil)
	outs := s.run(s.engMethod(et, "Render"), e, nd)
	var out Outcome
	if !s.exp(r, rule, construct, outs, func(o Outcome) string {
		out = o
		if m := s.noErr(o); m != "" {
			return m
		}
		if len(outs) > 1 {
			return "cannot be decided: there are several outcomes"
		}
		return ""
	}) {
		return
	}
	enc, ok := encoded(out)
	if !ok || len(enc) != 1 {
		s.exp(r, rule, construct, outs, func(o Outcome) string { return "not exactly one document is encoded" })
		return
	}
	yn := enc[0]
	if i, ok := yn.(Iface); ok {
		yn = i.V
	}
	if place != "alone" { // the scalar inside of its list or map
		el, ok := s.In.listElems(out.St, s.yfield(out.St, yn, "Content"))
		if want := map[string]int{"in a map": 2}[place]; !ok || len(el) != max(want, 1) {
			s.exp(r, rule, construct, outs, func(o Outcome) string { return "the list or map is not rendered with its member" })
			return
		}
		yn = el[len(el)-1]
	}
	// the scalar goes through the encoder; its event is collected
	s2 := yamlScn(w, base, s.Name)
	fields := map[string]Val{}
	for _, f := range []string{"Kind", "Style", "Tag", "Value", "Anchor", "Alias", "Content"} {
		fields[f] = s.yfield(out.St, yn, f)
	}
	yn = s2.alloc("scalar", s2.yT(), s2.strct(s2.yT(), fields))
	enT := w.P.typ("internal/yaml", "encoder")
	evt := w.P.typ("internal/yaml", "yaml_event_t")
	_, isKnown := isStr(v)
	s2.hook(yamlPkg+".yaml_emitter_emit", func(c *Call) []Outcome {
		f := func(n string) Val { return s2.field(c.St, c.Args[1], evt, n) }
		if f("typ").Key() == cInt(constInt(yp, "yaml_SCALAR_EVENT")).Key() {
			str := func(v Val) Val {
				if t, ok := v.(*Term); ok && t.Op == "conv:stringtobytes" {
					return t.Args[0]
				}
				if n, ok := c.In.listElems(c.St, v); ok {
					if t, ok := s2.bytesOf(c.St, v, len(n)); ok {
						return cStr(t)
					}
				}
				return v
			}
			appendLog(c.St, mkTerm("scalar", intT, f("implicit"), f("quoted_implicit"), f("style"), str(f("tag")), str(f("value"))))
		}
		return ret1(c, cBool(true))
	})
	if !isKnown && kind == "String" {
		// what an unknown text would be taken for is open
		s2.hook(yamlPkg+".resolve", func(c *Call) []Outcome {
			var out []Outcome
			for _, t := range []string{"!!str", "!!int", "!!float", "!!null", "!!bool", "!!timestamp", "!!merge"} {
				st := c.St.clone()
				appendLog(st, mkTerm("looks", intT, cStr(t)))
				out = append(out, Outcome{st, []Val{cStr(t), Top{c.Sig.Results().At(1).Type()}}})
			}
			return out
		})
		s2.hook("unicode/utf8.ValidString", func(c *Call) []Outcome { return ret1(c, cBool(true)) })
	}
	en := s2.alloc("encoder", enT, s2.strct(enT, map[string]Val{}))
	outs = s2.run(w.P.method(ptrTo(enT), "node"), en, yn, cStr(""))
	s2.exp(r, rule, construct, outs, func(o Outcome) string {
		l, ok := logOf(o.St)
		if !ok {
			return "cannot be decided: the events are not determined"
		}
		var last *Term
		var looks Val
		for _, x := range l {
			t, ok := x.(*Term)
			if !ok {
				return "cannot be decided: an event is not determined: " + x.Key()
			}
			switch t.Op {
			case "scalar":
				last = t
			case "looks":
				looks = t.Args[0]
			}
		}
		if last == nil {
			return "no scalar is emitted"
		}
		impl, ok1 := isBool(last.Args[0])
		sty, ok2 := isInt(last.Args[2])
		if !ok1 || !ok2 {
			return "cannot be decided: the style " + last.Args[2].Key() + " is not determined"
		}
		plain := sty == constInt(yp, "yaml_PLAIN_SCALAR_STYLE") || sty == 0
		var got string
		var val Val
		txt, isTxt := isStr(last.Args[4])
		switch {
		case !impl:
			t, ok := isStr(last.Args[3])
			if !ok {
				return "cannot be decided: the tag is not determined"
			}
			got = strings.Replace(t, "tag:yaml.org,2002:", "!!", 1)
			_, val = coreScalar(txt)
		case !plain:
			got = "!!str"
		case isTxt:
			got, val = coreScalar(txt)
			if strings.HasPrefix(txt, "2001-") {
				got = "!!timestamp"
			}
			if got == "!!merge" { // the merge key is a text where it is no key
				got = "!!str"
			}
		default:
			got = "!!str"
			if looks == nil || looks.Key() != cStr("!!str").Key() {
				return "a text that may look like something else is written without quotes"
			}
		}
		if got != tag {
			return "the text " + last.Args[4].Key() + " is written so that it reads as " + got + " instead of " + tag
		}
		switch kind {
		case "String":
			if s2.In.relate(o.St, last.Args[4], v) != EQ && !strings.Contains(last.Args[4].Key(), v.Key()) {
				return "the text is " + last.Args[4].Key() + " instead of " + v.Key()
			}
		case "Null":
		default:
			if !sameVal(val, v) {
				return "the value written is " + last.Args[4].Key() + " instead of " + v.Key()
			}
		}
		return ""
	})
}
