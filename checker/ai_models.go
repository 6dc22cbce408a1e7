package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"net/url"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"unicode"
	"unicode/utf8"
)

type model func(c *Call) ([]Outcome, bool)

var models map[string]model

var omPkg = "github.com/elliotchance/orderedmap/v3"

var strT, intT, boolT = types.Typ[types.String], types.Typ[types.Int], types.Typ[types.Bool]

func init() {
	models = map[string]model{}
	ret := func(c *Call, v ...Val) ([]Outcome, bool) { return []Outcome{{c.St, v}}, true }

	// constant folding of pure string functions -------------------------------
	fold := func(name string, f any) {
		fv := reflect.ValueOf(f)
		ft := fv.Type()
		models[name] = func(c *Call) ([]Outcome, bool) {
			if len(c.Args) != ft.NumIn() {
				return nil, false
			}
			var in []reflect.Value
			for i, a := range c.Args {
				switch ft.In(i).Kind() {
				case reflect.String:
					s, ok := isStr(a)
					if !ok {
						return nil, false
					}
					in = append(in, reflect.ValueOf(s))
				case reflect.Int, reflect.Int32, reflect.Uint8:
					n, ok := isInt(a)
					if !ok {
						return nil, false
					}
					in = append(in, reflect.ValueOf(n).Convert(ft.In(i)))
				case reflect.Float64:
					k, ok := a.(Const)
					if !ok || k.C.Kind() != constant.Float && k.C.Kind() != constant.Int {
						return nil, false
					}
					f, _ := constant.Float64Val(constant.ToFloat(k.C))
					in = append(in, reflect.ValueOf(f))
				case reflect.Bool:
					n, ok := isBool(a)
					if !ok {
						return nil, false
					}
					in = append(in, reflect.ValueOf(n))
				case reflect.Slice:
					el, ok := c.In.listElems(c.St, a)
					if !ok {
						return nil, false
					}
					var ss []string
					for _, e := range el {
						s, ok := isStr(e)
						if !ok {
							return nil, false
						}
						ss = append(ss, s)
					}
					in = append(in, reflect.ValueOf(ss))
				default:
					return nil, false
				}
			}
			var outs []reflect.Value
			outs = fv.Call(in)
			var res []Val
			for i, o := range outs {
				switch o.Kind() {
				case reflect.String:
					res = append(res, cStr(o.String()))
				case reflect.Bool:
					res = append(res, cBool(o.Bool()))
				case reflect.Int, reflect.Int64, reflect.Int32:
					res = append(res, cInt(int(o.Int())))
				case reflect.Uint8:
					res = append(res, cInt(int(o.Uint())))
				case reflect.Float64:
					res = append(res, cFloat(o.Float()))
				case reflect.Slice:
					if o.IsNil() {
						res = append(res, Nil{})
						break
					}
					var el []Val
					for j := 0; j < o.Len(); j++ {
						el = append(el, cStr(o.Index(j).String()))
					}
					res = append(res, c.In.newList(c.St, c.Site, fmt.Sprint("f", i), c.Sig.Results().At(i).Type(), el))
				case reflect.Interface:
					if o.IsNil() {
						res = append(res, Nil{})
					} else {
						res = append(res, nonnilErr(c, name))
					}
				default:
					return nil, false
				}
			}
			return []Outcome{{c.St, res}}, true
		}
	}
	for n, f := range map[string]any{
		"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
		"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
		"strings.Cut": strings.Cut, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
		"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.Contains": strings.Contains,
		"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Join": strings.Join, "strings.Index": strings.Index,
		"strings.LastIndex": strings.LastIndex, "strings.Count": strings.Count, "strings.Fields": strings.Fields, "strings.EqualFold": strings.EqualFold,
		"strings.ContainsAny": strings.ContainsAny, "strings.Compare": strings.Compare,
		"strings.ContainsRune": strings.ContainsRune, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny,
		"strings.LastIndexByte": strings.LastIndexByte, "strings.LastIndexAny": strings.LastIndexAny, "strings.SplitAfter": strings.SplitAfter, "strings.SplitAfterN": strings.SplitAfterN,
		"strings.Clone": strings.Clone, "strconv.Unquote": strconv.Unquote, "strconv.QuoteToASCII": strconv.QuoteToASCII,
		"unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
		"unicode.IsPrint": unicode.IsPrint, "unicode.IsNumber": unicode.IsNumber, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper,
		"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidRune": utf8.ValidRune, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString,
		"unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString, "math.Ceil": math.Ceil,
		"strconv.Atoi": strconv.Atoi, "strconv.Itoa": strconv.Itoa, "strconv.Quote": strconv.Quote, "strconv.ParseBool": strconv.ParseBool,
		"path/filepath.Join": func(e []string) string { return filepath.Join(e...) }, "path/filepath.Clean": filepath.Clean, "path/filepath.Dir": filepath.Dir,
		"path/filepath.Base": filepath.Base, "path/filepath.Ext": filepath.Ext, "path/filepath.IsAbs": filepath.IsAbs,
		"path.Join": func(e []string) string { return filepath.Join(e...) }, "path.Clean": filepath.Clean, "path.Dir": filepath.Dir, "path.Base": filepath.Base,
		"strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatInt": func(i int, b int) string { return strconv.FormatInt(int64(i), b) },
		"strconv.FormatBool": strconv.FormatBool, "unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString, "math.Mod": math.Mod, "math.Floor": math.Floor, "math.Trunc": math.Trunc, "math.Abs": math.Abs, "math.Remainder": math.Remainder, "net/url.PathEscape": url.PathEscape, "regexp.QuoteMeta": regexp.QuoteMeta,
	} {
		fold(n, f)
	}
	wrap := func(name string, f model) {
		old := models[name]
		models[name] = func(c *Call) ([]Outcome, bool) {
			if old != nil {
				if o, ok := old(c); ok {
					return o, true
				}
			}
			return f(c)
		}
	}
	// decided on parts of concatenations
	wrap("strings.HasPrefix", func(c *Call) ([]Outcome, bool) {
		p, ok := isStr(c.Args[1])
		if !ok {
			return nil, false
		}
		if p == "" {
			return ret(c, cBool(true))
		}
		if s, ok := isStr(pieces(c.Args[0])[0]); ok && len(pieces(c.Args[0])) > 1 {
			if strings.HasPrefix(s, p) {
				return ret(c, cBool(true))
			}
			n := min(len(s), len(p))
			if s[:n] != p[:n] {
				return ret(c, cBool(false))
			}
		}
		if v, ok := c.In.eqConst(c.St, c.Args[0]); ok {
			return ret(c, cBool(strings.HasPrefix(v, p)))
		}
		return nil, false
	})
	wrap("strings.Contains", func(c *Call) ([]Outcome, bool) {
		p, ok := isStr(c.Args[1])
		if ok {
			for _, q := range pieces(c.Args[0]) {
				if s, ok := isStr(q); ok && strings.Contains(s, p) {
					return ret(c, cBool(true))
				}
			}
		}
		return nil, false
	})
	wrap("strings.CutPrefix", func(c *Call) ([]Outcome, bool) {
		p, ok := isStr(c.Args[1])
		ps := pieces(c.Args[0])
		if ok && len(ps) > 1 {
			if s, ok := isStr(ps[0]); ok {
				if strings.HasPrefix(s, p) {
					return ret(c, mkCat(append([]Val{cStr(s[len(p):])}, ps[1:]...)...), cBool(true))
				}
				n := min(len(s), len(p))
				if s[:n] != p[:n] {
					return ret(c, c.Args[0], cBool(false))
				}
			}
		}
		// fork on the prefix test
		hp := mkTerm("call:strings.HasPrefix", boolT, c.Args...)
		if _, top := hp.(Top); top {
			return nil, false
		}
		var outs []Outcome
		y, n := c.St.clone(), c.St
		if d := c.In.decide(c.St, hp); d != 0 {
			if d == 1 || c.In.constrain(y, hp, true) {
				outs = append(outs, Outcome{y, []Val{mkTerm("cutprefix", strT, c.Args...), cBool(true)}})
			}
			if d == 1 {
				return outs, true
			}
		}
		if c.In.decide(n, hp) == 0 || c.In.constrain(n, hp, false) {
			outs = append(outs, Outcome{n, []Val{c.Args[0], cBool(false)}})
		}
		return outs, true
	})
	wrap("strings.TrimPrefix", func(c *Call) ([]Outcome, bool) {
		p, ok := isStr(c.Args[1])
		ps := pieces(c.Args[0])
		if ok && len(ps) > 1 {
			if s, ok := isStr(ps[0]); ok {
				if strings.HasPrefix(s, p) {
					return ret(c, mkCat(append([]Val{cStr(s[len(p):])}, ps[1:]...)...))
				}
				n := min(len(s), len(p))
				if s[:n] != p[:n] {
					return ret(c, c.Args[0])
				}
			}
		}
		return nil, false
	})
	wrap("strings.Split", func(c *Call) ([]Outcome, bool) {
		t := mkTerm("call:strings.Split", c.Sig.Results().At(0).Type(), c.Args...)
		if _, ok := t.(Top); ok {
			return nil, false
		}
		if s, ok := isStr(c.Args[1]); ok && s != "" {
			// split around the separators that are visible; parts without one
			// stay whole only when declared separator-free
			if el, ok := c.In.splitCat(c.St, c.Args[0], s); ok {
				return ret(c, c.In.newList(c.St, c.Site, "sp", c.Sig.Results().At(0).Type(), el))
			}
			c.St.addRel(mkTerm("len", intT, t), cInt(0), GT)
			c.In.addRelDeep(c.St, t, Nil{}, LT|GT)
		}
		return ret(c, t)
	})
	wrap("strings.Join", func(c *Call) ([]Outcome, bool) {
		el, ok := c.In.listElems(c.St, c.Args[0])
		if !ok {
			return nil, false
		}
		var ps []Val
		for i, e := range el {
			if i > 0 {
				ps = append(ps, c.Args[1])
			}
			switch e.(type) {
			case Top, Set:
				return nil, false
			}
			ps = append(ps, e)
		}
		return ret(c, mkCat(ps...))
	})
	wrap("strconv.Atoi", func(c *Call) ([]Outcome, bool) {
		if t, ok := c.Args[0].(*Term); ok && t.Op == "fmt:%d" && valType(t.Args[0]) != nil && types.Identical(valType(t.Args[0]), intT) {
			return ret(c, t.Args[0], Nil{})
		} else if ok && t.Op == "fmt:%g" {
			return ret(c, cInt(0), nonnilErr(c, c.Name))
		}
		return nil, false
	})
	models["strconv.Itoa"] = func(c *Call) ([]Outcome, bool) {
		if i, ok := isInt(c.Args[0]); ok {
			return ret(c, cStr(strconv.Itoa(i)))
		}
		return ret(c, mkTerm("fmt:%d", strT, c.Args[0]))
	}
	models["strings.Clone"] = func(c *Call) ([]Outcome, bool) { return ret(c, c.Args[0]) }

	// fmt / errors --------------------------------------------------------------
	models["fmt.Sprintf"] = func(c *Call) ([]Outcome, bool) { return ret(c, c.In.sprintf(c, c.Args[0], c.Args[1])) }
	models["fmt.Sprint"] = func(c *Call) ([]Outcome, bool) {
		el, ok := c.In.listElems(c.St, c.Args[0])
		if ok && len(el) == 1 {
			return ret(c, c.In.fmtVerb(c, "%v", el[0]))
		}
		return nil, false
	}
	mkErr := func(c *Call) ([]Outcome, bool) { return ret(c, nonnilErr(c, c.Name)) }
	models["fmt.Errorf"] = mkErr
	models["errors.New"] = mkErr
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintln"} {
		n := n
		models[n] = func(c *Call) ([]Outcome, bool) {
			if c.In.Watch != nil && c.In.Watch(n) {
				c.In.event(c.St, "call:"+n, c.Site, c.Args...)
				c.St.must["call:"+n] = true
			}
			if c.In.External != nil {
				c.In.External(c)
			}
			return ret(c, Top{intT}, Nil{})
		}
	}
	models["fmt.Fprintf"] = func(c *Call) ([]Outcome, bool) {
		if c.In.Watch != nil && c.In.Watch(c.Name) {
			c.In.event(c.St, "call:"+c.Name, c.Site, c.Args...)
		}
		if c.In.External != nil {
			c.In.External(c)
		}
		if i, ok := c.Args[0].(Iface); ok {
			if p, ok := i.V.(Ptr); ok && bufType(i.Dyn) {
				c.In.bufAppend(c.St, p, c.In.sprintf(c, c.Args[1], c.Args[2]))
			}
		}
		return ret(c, Top{intT}, Nil{})
	}
	models["os.Exit"] = func(c *Call) ([]Outcome, bool) {
		c.In.event(c.St, "exit", c.Site, c.Args...)
		return nil, true
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln"} {
		models[n] = func(c *Call) ([]Outcome, bool) {
			c.In.event(c.St, "exit", c.Site, cInt(1))
			return nil, true
		}
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		models[n] = func(c *Call) ([]Outcome, bool) {
			c.In.event(c.St, "panic", c.Site, cStr("log.Panic"))
			return nil, true
		}
	}

	// string builders --------------------------------------------------------------
	for _, ty := range []string{"(*strings.Builder)", "(*bytes.Buffer)"} {
		models[ty+".WriteString"] = func(c *Call) ([]Outcome, bool) {
			if p, ok := c.Args[0].(Ptr); ok {
				c.In.bufAppend(c.St, p, c.Args[1])
				return ret(c, c.In.lenOf(c.St, c.Args[1]), Nil{})
			}
			return nil, false
		}
		models[ty+".WriteByte"] = func(c *Call) ([]Outcome, bool) {
			if p, ok := c.Args[0].(Ptr); ok {
				if i, ok := isInt(c.Args[1]); ok {
					c.In.bufAppend(c.St, p, cStr(string(rune(i))))
				} else {
					c.In.bufAppend(c.St, p, mkTerm("conv:runetostring", strT, c.Args[1]))
				}
				return ret(c, Nil{})
			}
			return nil, false
		}
		models[ty+".WriteRune"] = func(c *Call) ([]Outcome, bool) {
			if p, ok := c.Args[0].(Ptr); ok {
				if i, ok := isInt(c.Args[1]); ok {
					c.In.bufAppend(c.St, p, cStr(string(rune(i))))
				} else {
					c.In.bufAppend(c.St, p, mkTerm("conv:runetostring", strT, c.Args[1]))
				}
				return ret(c, Top{intT}, Nil{})
			}
			return nil, false
		}
		models[ty+".String"] = func(c *Call) ([]Outcome, bool) {
			if p, ok := c.Args[0].(Ptr); ok {
				if v := c.In.bufGet(c.St, p); v != nil {
					return ret(c, v)
				}
			}
			return nil, false
		}
		models[ty+".Len"] = func(c *Call) ([]Outcome, bool) {
			if p, ok := c.Args[0].(Ptr); ok {
				if v := c.In.bufGet(c.St, p); v != nil {
					return ret(c, c.In.lenOf(c.St, v))
				}
			}
			return nil, false
		}
	}

	// ordered maps --------------------------------------------------------------------
	om := "(*" + omPkg + ".OrderedMap)"
	newMap := func(c *Call) ([]Outcome, bool) {
		id := c.In.objID(c.Site, "om")
		t := c.Sig.Results().At(0).Type()
		c.In.newObj(c.St, id, &Obj{Kind: OMap, Ordered: true, T: elemOf(t)})
		return ret(c, Ptr{id, "", elemOf(t)})
	}
	models[omPkg+".NewOrderedMap"] = newMap
	models[omPkg+".NewOrderedMapWithCapacity"] = newMap
	recvT := func(c *Call) types.Type {
		if c.Fn != nil && c.Fn.Signature.Recv() != nil {
			return c.Fn.Signature.Recv().Type()
		}
		return nil
	}
	nilRecv := func(c *Call) bool {
		if _, ok := c.Args[0].(Nil); ok {
			c.In.event(c.St, "panic", c.Site, cStr("nil map receiver"))
			return true
		}
		return false
	}
	models[om+".Get"] = func(c *Call) ([]Outcome, bool) {
		if nilRecv(c) {
			return nil, true
		}
		var outs []Outcome
		for _, r := range c.In.mapGetVal(c.St, c.Args[0], c.Args[1], c.Sig.Results().At(0).Type(), recvT(c)) {
			outs = append(outs, Outcome{r.St, []Val{r.V, cBool(r.Ok)}})
		}
		return outs, true
	}
	models[om+".GetOrDefault"] = func(c *Call) ([]Outcome, bool) {
		if nilRecv(c) {
			return nil, true
		}
		var outs []Outcome
		for _, r := range c.In.mapGetVal(c.St, c.Args[0], c.Args[1], c.Sig.Results().At(0).Type(), recvT(c)) {
			v := r.V
			if !r.Ok {
				v = c.Args[2]
			}
			outs = append(outs, Outcome{r.St, []Val{v}})
		}
		return outs, true
	}
	models[om+".Has"] = func(c *Call) ([]Outcome, bool) {
		if nilRecv(c) {
			return nil, true
		}
		var outs []Outcome
		for _, r := range c.In.mapGetVal(c.St, c.Args[0], c.Args[1], types.NewInterfaceType(nil, nil), recvT(c)) {
			outs = append(outs, Outcome{r.St, []Val{cBool(r.Ok)}})
		}
		return outs, true
	}
	models[om+".Set"] = func(c *Call) ([]Outcome, bool) {
		if nilRecv(c) {
			return nil, true
		}
		if c.In.External != nil {
			c.In.External(c)
		}
		ps, _, unknown := c.In.mapObjs(c.St, c.Args[0], recvT(c))
		for _, p := range ps {
			c.In.mapPut(c.St, p, c.Args[1], c.Args[2], len(ps) > 1 || unknown)
		}
		return ret(c, Top{boolT})
	}
	models[om+".Delete"] = func(c *Call) ([]Outcome, bool) {
		if nilRecv(c) {
			return nil, true
		}
		if c.In.External != nil {
			c.In.External(c)
		}
		ps, _, _ := c.In.mapObjs(c.St, c.Args[0], recvT(c))
		var outs []Outcome
		if len(ps) == 1 {
			for _, r := range c.In.mapGetVal(c.St, c.Args[0], c.Args[1], types.NewInterfaceType(nil, nil), recvT(c)) {
				if r.Ok {
					c.In.mapDel(r.St, ps[0], c.Args[1])
				}
				outs = append(outs, Outcome{r.St, []Val{cBool(r.Ok)}})
			}
			return outs, true
		}
		for _, p := range ps {
			c.In.mapDel(c.St, p, c.Args[1])
		}
		return ret(c, Top{boolT})
	}
	models[om+".Len"] = func(c *Call) ([]Outcome, bool) {
		if nilRecv(c) {
			return nil, true
		}
		ps, _, unknown := c.In.mapObjs(c.St, c.Args[0], recvT(c))
		if unknown || len(ps) == 0 {
			return ret(c, Top{intT})
		}
		var r Val
		for _, p := range ps {
			r = join(r, c.In.mapLen(c.St, p, c.St.heap[p.Obj]))
		}
		return ret(c, r)
	}
	models[om+".Copy"] = func(c *Call) ([]Outcome, bool) {
		if nilRecv(c) {
			return nil, true
		}
		ps, _, unknown := c.In.mapObjs(c.St, c.Args[0], recvT(c))
		if unknown || len(ps) != 1 {
			return nil, false
		}
		id := c.In.objID(c.Site, "omcopy")
		c.In.newObj(c.St, id, c.St.heap[ps[0].Obj].clone())
		return ret(c, Ptr{id, "", ps[0].T})
	}
	// a list element is a cell of its key and value with a cursor beside it
	cursor := &ssa.Next{}
	advance := func(c *Call, src, pos Val) ([]Outcome, bool) {
		t := c.Sig.Results().At(0).Type()
		et := elemOf(t)
		es, ok := et.Underlying().(*types.Struct)
		if !ok || es.NumFields() != 4 {
			return nil, false
		}
		id := c.In.objID(c.Site, "omelem")
		var outs []Outcome
		for _, m := range members(src) {
			st := c.St.clone()
			c.In.newObj(st, id+".it", &Obj{Kind: OIter, V: m, Pos: pos, T: c.mapType})
			for _, s := range c.In.nextFrom(st, cursor, c.Site, Ptr{id + ".it", "", nil}, pos, m, es.Field(2).Type(), es.Field(3).Type()) {
				tu, _ := s.env[cursor].(Tuple)
				delete(s.env, cursor)
				if len(tu.Vs) != 3 {
					return nil, false
				}
				if more, _ := isBool(tu.Vs[0]); !more {
					outs = append(outs, Outcome{s, []Val{Nil{}}})
					continue
				}
				z := zeroVal(et).(StructV)
				z.F[0], z.F[1] = Top{es.Field(0).Type()}, Top{es.Field(1).Type()}
				z.F[2], z.F[3] = tu.Vs[1], tu.Vs[2]
				c.In.newObj(s, id, &Obj{Kind: OCell, T: et, V: z})
				outs = append(outs, Outcome{s, []Val{Ptr{id, "", et}}})
			}
		}
		return outs, true
	}
	for n, mode := range map[string]string{"Front": "kv", "Back": "back"} {
		models[om+"."+n] = func(c *Call) ([]Outcome, bool) {
			if nilRecv(c) {
				return nil, true
			}
			var src Val
			for _, m := range members(c.Args[0]) {
				src = join(src, mkTerm("vseq", intT, mkTerm("seq:"+mode, intT, m)))
			}
			c.mapType = recvT(c)
			return advance(c, src, cInt(0))
		}
	}
	for n, mode := range map[string]string{"Next": "kv", "Prev": "back"} {
		models["(*"+omPkg+".Element)."+n] = func(c *Call) ([]Outcome, bool) {
			var outs []Outcome
			for _, m := range members(c.Args[0]) {
				p, ok := m.(Ptr)
				if !ok {
					return nil, false
				}
				it := c.St.heap[p.Obj+".it"]
				if it == nil || it.Kind != OIter || it.Multi {
					return nil, false
				}
				for _, v := range members(it.V) {
					if !strings.HasPrefix(v.Key(), "vseq(seq:"+mode) {
						return nil, false
					}
				}
				c.mapType = it.T
				for _, pos := range members(it.Pos) {
					o, ok := advance(c, it.V, pos)
					if !ok {
						return nil, false
					}
					outs = append(outs, o...)
				}
			}
			return outs, true
		}
	}
	seq := func(kind string) model {
		return func(c *Call) ([]Outcome, bool) {
			if _, ok := c.Args[0].(Nil); ok {
				if c.Fn != nil && c.Fn.Signature.Recv() != nil {
					c.In.event(c.St, "panic", c.Site, cStr("nil map receiver"))
					return nil, true
				}
			}
			var r Val
			for _, m := range members(c.Args[0]) {
				r = join(r, mkTerm("seq:"+kind, c.Sig.Results().At(0).Type(), m))
			}
			return ret(c, r)
		}
	}
	models[om+".AllFromFront"] = seq("kv")
	models[om+".AllFromBack"] = seq("back")
	models[om+".Keys"] = seq("kv")
	models[om+".Values"] = seq("values")
	models["maps.All"] = seq("kv")
	models["maps.Keys"] = seq("kv")
	models["maps.Values"] = seq("values")
	models["slices.All"] = seq("sliceall")
	models["slices.Values"] = seq("slicevalues")

	// slices / maps ------------------------------------------------------------------------
	models["maps.Copy"] = func(c *Call) ([]Outcome, bool) {
		ds, _, u1 := c.In.mapObjs(c.St, c.Args[0], valTypeOr(c.Args[0]))
		ss, nilS, u2 := c.In.mapObjs(c.St, c.Args[1], valTypeOr(c.Args[1]))
		if nilS && len(ss) == 0 {
			return ret(c)
		}
		if u1 || u2 || len(ds) != 1 || len(ss) != 1 {
			for _, d := range ds {
				o := c.St.heap[d.Obj].clone()
				o.Entries, o.Base = nil, Top{}
				c.St.heap[d.Obj] = o
			}
			return ret(c)
		}
		src := c.St.heap[ss[0].Obj]
		if src.Base != nil {
			o := c.St.heap[ds[0].Obj].clone()
			if len(o.Entries) == 0 && o.Base == nil {
				o.Base = src.Base
				o.Deleted = src.Deleted
			} else {
				o.Base = Top{}
			}
			c.St.heap[ds[0].Obj] = o
		}
		for _, e := range src.Entries {
			c.In.mapPut(c.St, ds[0], e.K, e.V, e.Maybe)
		}
		return ret(c)
	}
	models["maps.Clone"] = func(c *Call) ([]Outcome, bool) {
		if _, ok := c.Args[0].(Nil); ok {
			return ret(c, Nil{})
		}
		ss, _, u := c.In.mapObjs(c.St, c.Args[0], valTypeOr(c.Args[0]))
		if u || len(ss) != 1 {
			return nil, false
		}
		id := c.In.objID(c.Site, "mclone")
		c.In.newObj(c.St, id, c.St.heap[ss[0].Obj].clone())
		return ret(c, Ptr{id, "", ss[0].T})
	}
	models["slices.Contains"] = func(c *Call) ([]Outcome, bool) {
		el, ok := c.In.listElems(c.St, c.Args[0])
		if !ok {
			return nil, false
		}
		var und []Val
		for _, e := range el {
			m := c.In.relate(c.St, e, c.Args[1])
			if m == EQ {
				return ret(c, cBool(true))
			}
			if m&EQ != 0 {
				und = append(und, e)
			}
		}
		if len(und) == 0 {
			return ret(c, cBool(false))
		}
		if len(und) > 4 {
			return ret(c, Top{boolT})
		}
		var outs []Outcome
		cur := c.St
		for _, e := range und {
			y := cur.clone()
			if c.In.addRelDeep(y, e, c.Args[1], EQ) {
				outs = append(outs, Outcome{y, []Val{cBool(true)}})
			}
			cur = cur.clone()
			if !c.In.addRelDeep(cur, e, c.Args[1], LT|GT|UN) {
				return outs, true
			}
		}
		return append(outs, Outcome{cur, []Val{cBool(false)}}), true
	}
	collect := func(srt bool) model {
		return func(c *Call) ([]Outcome, bool) {
			t, ok := c.Args[0].(*Term)
			if !ok || !strings.HasPrefix(t.Op, "seq:") {
				return nil, false
			}
			var el []Val
			if strings.HasPrefix(t.Op, "seq:slice") {
				e, ok := c.In.listElems(c.St, t.Args[0])
				if !ok || t.Op != "seq:slicevalues" {
					return nil, false
				}
				el = e
			} else {
				ps, nilable, unknown := c.In.mapObjs(c.St, t.Args[0], valTypeOr(t.Args[0]))
				if nilable || unknown || len(ps) != 1 {
					return nil, false
				}
				o := c.St.heap[ps[0].Obj]
				if o.Base != nil || o.Multi {
					return nil, false
				}
				for _, e := range o.Entries {
					if e.Maybe {
						return nil, false
					}
					if t.Op == "seq:values" {
						el = append(el, e.V)
					} else {
						el = append(el, e.K)
					}
				}
			}
			if srt && !sortConsts(el) && len(el) > 1 {
				return nil, false
			}
			return ret(c, c.In.newList(c.St, c.Site, "col", c.Sig.Results().At(0).Type(), el))
		}
	}
	models["slices.Collect"] = collect(false)
	models["slices.Sorted"] = collect(true)
	sortModel := func(c *Call) ([]Outcome, bool) {
		for _, m := range members(c.Args[0]) {
			if i, ok := m.(Iface); ok {
				m = i.V
			}
			s, ok := m.(Slice)
			if !ok {
				continue
			}
			o := c.St.heap[s.Obj]
			if o == nil {
				continue
			}
			n := o.clone()
			if n.Known && s.Known && s.Hi <= len(n.Elems) {
				if !sortConsts(n.Elems[s.Lo:s.Hi]) || strings.Contains(c.Name, "Func") || c.Name == "sort.Slice" || c.Name == "sort.SliceStable" {
					var e Val
					for _, x := range o.Elems[s.Lo:s.Hi] {
						e = join(e, x)
					}
					for i := s.Lo; i < s.Hi; i++ {
						n.Elems[i] = e
					}
				}
			}
			c.St.heap[s.Obj] = n
		}
		return ret(c)
	}
	for _, n := range []string{"sort.Strings", "sort.Ints", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable"} {
		models[n] = sortModel
	}
	models["slices.Clone"] = func(c *Call) ([]Outcome, bool) {
		el, ok := c.In.listElems(c.St, c.Args[0])
		if !ok {
			return nil, false
		}
		if _, ok := c.Args[0].(Nil); ok {
			return ret(c, Nil{})
		}
		return ret(c, c.In.newList(c.St, c.Site, "cl", c.Sig.Results().At(0).Type(), el))
	}
	models["slices.Concat"] = func(c *Call) ([]Outcome, bool) {
		ls, ok := c.In.listElems(c.St, c.Args[0])
		if !ok {
			return nil, false
		}
		var el []Val
		for _, l := range ls {
			e, ok := c.In.listElems(c.St, l)
			if !ok {
				return nil, false
			}
			el = append(el, e...)
		}
		return ret(c, c.In.newList(c.St, c.Site, "cc", c.Sig.Results().At(0).Type(), el))
	}
	models["slices.Insert"] = func(c *Call) ([]Outcome, bool) {
		a, ok1 := c.In.listElems(c.St, c.Args[0])
		i, ok2 := isInt(c.Args[1])
		b, ok3 := c.In.listElems(c.St, c.Args[2])
		if !ok1 || !ok2 || !ok3 || i < 0 || i > len(a) {
			return nil, false
		}
		el := append(append(append([]Val(nil), a[:i]...), b...), a[i:]...)
		return ret(c, c.In.newList(c.St, c.Site, "ins", c.Sig.Results().At(0).Type(), el))
	}
	models["slices.Delete"] = func(c *Call) ([]Outcome, bool) {
		a, ok1 := c.In.listElems(c.St, c.Args[0])
		i, ok2 := isInt(c.Args[1])
		j, ok3 := isInt(c.Args[2])
		if !ok1 || !ok2 || !ok3 || i < 0 || j > len(a) || i > j {
			return nil, false
		}
		el := append(append([]Val(nil), a[:i]...), a[j:]...)
		if s, ok := c.Args[0].(Slice); ok {
			// shifts in place
			c.In.copySlice(c.St, Slice{Obj: s.Obj, Lo: s.Lo + i, Hi: s.Hi, Known: s.Known, T: s.T}, c.In.newList(c.St, c.Site, "tmp", s.T, a[j:]))
			return ret(c, Slice{Obj: s.Obj, Lo: s.Lo, Hi: s.Lo + len(el), Known: true, T: s.T})
		}
		return nil, false
	}
	models["slices.Reverse"] = func(c *Call) ([]Outcome, bool) {
		s, ok := c.Args[0].(Slice)
		if !ok || !s.Known {
			return nil, false
		}
		o := c.St.heap[s.Obj].clone()
		if !o.Known {
			return nil, false
		}
		for i, j := s.Lo, s.Hi-1; i < j; i, j = i+1, j-1 {
			o.Elems[i], o.Elems[j] = o.Elems[j], o.Elems[i]
		}
		c.St.heap[s.Obj] = o
		return ret(c)
	}

	// reflect ---------------------------------------------------------------------------
	models["reflect.TypeOf"] = func(c *Call) ([]Outcome, bool) {
		t := c.Sig.Results().At(0).Type()
		switch x := c.Args[0].(type) {
		case Nil:
			return ret(c, Nil{})
		case Iface:
			if c.In.rtypes == nil {
				c.In.rtypes = map[string]types.Type{}
			}
			n := types.TypeString(x.Dyn, nil)
			c.In.rtypes[n] = x.Dyn
			return ret(c, mkTerm("nonnil", t, cStr("rtype "+n)))
		}
		return nil, false
	}
	models["(reflect.Type).Comparable"] = func(c *Call) ([]Outcome, bool) {
		if t, ok := c.Args[0].(*Term); ok && t.Op == "nonnil" {
			if s, ok := isStr(t.Args[0]); ok {
				if dt := c.In.rtypes[strings.TrimPrefix(s, "rtype ")]; dt != nil {
					return ret(c, cBool(types.Comparable(dt)))
				}
			}
		}
		return nil, false
	}
	models["(reflect.Type).Kind"] = func(c *Call) ([]Outcome, bool) {
		if t, ok := c.Args[0].(*Term); ok && t.Op == "nonnil" {
			if s, ok := isStr(t.Args[0]); ok {
				if dt := c.In.rtypes[strings.TrimPrefix(s, "rtype ")]; dt != nil {
					if k, ok := reflectKind(dt); ok {
						return ret(c, cInt(int(k)))
					}
				}
			}
		}
		return nil, false
	}

	// processes ---------------------------------------------------------------------------
	models["os/exec.Command"] = func(c *Call) ([]Outcome, bool) {
		t := c.Sig.Results().At(0).Type()
		et := elemOf(t)
		id := c.In.objID(c.Site, "cmd")
		z := zeroVal(et).(StructV)
		st := et.Underlying().(*types.Struct)
		argv := []Val{c.Args[0]}
		rest, ok := c.In.listElems(c.St, c.Args[1])
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Path":
				z.F[i] = c.Args[0]
			case "Args":
				if ok {
					z.F[i] = c.In.newList(c.St, c.Site, "argv", st.Field(i).Type(), append(argv, rest...))
				} else {
					z.F[i] = Top{st.Field(i).Type()}
				}
			}
		}
		c.In.newObj(c.St, id, &Obj{Kind: OCell, V: z, T: et})
		if c.In.Watch != nil && c.In.Watch(c.Name) {
			c.In.event(c.St, "call:"+c.Name, c.Site, c.Args...)
		}
		return ret(c, Ptr{id, "", et})
	}
	models["github.com/rs/xid.New"] = func(c *Call) ([]Outcome, bool) {
		return ret(c, c.In.fresh(c.St, "xid", c.Sig.Results().At(0).Type(), c.Site))
	}
	models["(github.com/rs/xid.ID).String"] = func(c *Call) ([]Outcome, bool) {
		return ret(c, mkTerm("xidstr", strT, c.Args[0]))
	}
}

// splitCat splits a concatenation at separators when every symbolic piece is
// known not to contain them.
func (in *Interp) splitCat(st *State, v Val, sep string) ([]Val, bool) {
	ps := pieces(v)
	var el []Val
	cur := []Val{}
	for _, p := range ps {
		if s, ok := isStr(p); ok {
			parts := strings.Split(s, sep)
			for i, q := range parts {
				if i > 0 {
					el = append(el, mkCat(cur...))
					cur = nil
				}
				cur = append(cur, cStr(q))
			}
			continue
		}
		if !st.must["nosep:"+sep+":"+p.Key()] {
			return nil, false
		}
		cur = append(cur, p)
	}
	return append(el, mkCat(cur...)), true
}

// eqConst: the value is known to equal a constant string.
func (in *Interp) eqConst(st *State, v Val) (string, bool) {
	if s, ok := isStr(v); ok {
		return s, true
	}
	k := v.Key()
	for _, f := range st.facts {
		if f.M != EQ {
			continue
		}
		if f.A.Key() == k {
			if s, ok := isStr(f.B); ok {
				return s, true
			}
		}
		if f.B.Key() == k {
			if s, ok := isStr(f.A); ok {
				return s, true
			}
		}
	}
	return "", false
}

func reflectKind(t types.Type) (reflect.Kind, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
			types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr,
			types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.String: reflect.String}
		k, ok := m[u.Kind()]
		return k, ok
	case *types.Map:
		return reflect.Map, true
	case *types.Slice:
		return reflect.Slice, true
	case *types.Array:
		return reflect.Array, true
	case *types.Pointer:
		return reflect.Pointer, true
	case *types.Struct:
		return reflect.Struct, true
	case *types.Signature:
		return reflect.Func, true
	case *types.Interface:
		return reflect.Interface, true
	}
	return 0, false
}

func nonnilErr(c *Call, what string) Val {
	t := types.Universe.Lookup("error").Type()
	return mkTerm("nonnil", t, cStr("error "+what+" "+c.Ctx))
}

func bufType(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "*strings.Builder" || s == "*bytes.Buffer"
}

func (in *Interp) bufAppend(st *State, p Ptr, v Val) {
	id := "buf:" + p.Key()
	o := st.heap[id]
	var cur Val = cStr("")
	if o != nil {
		cur = o.V
	}
	var n Val
	bad := false
	for _, x := range []Val{cur, v} {
		switch x.(type) {
		case Top, Set, nil:
			bad = true
		}
	}
	if bad {
		n = Top{strT}
	} else {
		n = mkCat(cur, v)
	}
	st.heap[id] = &Obj{Kind: OCell, V: n, T: strT}
}

func (in *Interp) bufGet(st *State, p Ptr) Val {
	if o := st.heap["buf:"+p.Key()]; o != nil {
		return o.V
	}
	if o := st.heap[p.Obj]; o != nil && o.Kind == OCell {
		return nil
	}
	return nil
}

func (in *Interp) sprintf(c *Call, f, args Val) Val {
	fs, ok := isStr(f)
	el, ok2 := in.listElems(c.St, args)
	if !ok || !ok2 {
		var as []Val
		as = append(as, in.snap(c.St, f, 0), in.snap(c.St, args, 0))
		return mkTerm("call:fmt.Sprintf", strT, as...)
	}
	var ps []Val
	lit := ""
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += string(fs[i])
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			return mkTerm("call:fmt.Sprintf", strT, f, in.snap(c.St, args, 0))
		}
		if fs[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if fs[j] == '*' || fs[j] == '[' || ai >= len(el) {
			return mkTerm("call:fmt.Sprintf", strT, f, in.snap(c.St, args, 0))
		}
		ps = append(ps, cStr(lit))
		lit = ""
		ps = append(ps, in.fmtVerb(c, fs[i:j+1], el[ai]))
		ai++
		i = j
	}
	ps = append(ps, cStr(lit))
	for i, p := range ps {
		switch p.(type) {
		case Top, Set:
			if in.Blur {
				ps[i] = Sym{fmt.Sprintf("some~%d", i), strT}
				continue
			}
			return Top{strT}
		}
	}
	return mkCat(ps...)
}

func (in *Interp) fmtVerb(c *Call, verb string, v Val) Val {
	if s, ok := v.(Set); ok {
		var r Val
		for _, m := range s.Vs {
			r = join(r, in.fmtVerb(c, verb, m))
		}
		return r
	}
	raw := v
	var dyn types.Type
	if i, ok := v.(Iface); ok {
		raw, dyn = i.V, i.Dyn
	}
	if t, ok := v.(*Term); ok && strings.HasPrefix(t.Op, "as:") {
		dyn = t.T
	}
	if s, ok := raw.(Set); ok && dyn != nil {
		var r Val
		for _, m := range s.Vs {
			r = join(r, in.fmtVerb(c, verb, Iface{dyn, m}))
		}
		return r
	}
	if dyn != nil {
		_, named := types.Unalias(dyn).(*types.Named)
		b, basic := dyn.Underlying().(*types.Basic)
		if basic && !named {
			switch {
			case b.Info()&types.IsString != 0 && (verb == "%s" || verb == "%v"):
				return raw
			case b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v"):
				if i, ok := isInt(raw); ok {
					return cStr(strconv.Itoa(i))
				}
				return mkTerm("fmt:%d", strT, raw)
			case b.Info()&types.IsBoolean != 0 && (verb == "%t" || verb == "%v"):
				if bv, ok := isBool(raw); ok {
					return cStr(strconv.FormatBool(bv))
				}
				return mkTerm("fmt:%t", strT, raw)
			}
			if cc, ok := raw.(Const); ok {
				switch cc.C.Kind() {
				case constant.String:
					return cStr(fmt.Sprintf(verb, constant.StringVal(cc.C)))
				case constant.Int:
					if b.Info()&types.IsInteger != 0 {
						n, _ := constant.Int64Val(cc.C)
						return cStr(fmt.Sprintf(verb, n))
					}
				}
				if b.Info()&types.IsFloat != 0 && (cc.C.Kind() == constant.Float || cc.C.Kind() == constant.Int) {
					n, _ := constant.Float64Val(constant.ToFloat(cc.C))
					return cStr(fmt.Sprintf(verb, n))
				}
			}
			return mkTerm("fmt:"+verb, strT, raw)
		}
		if named {
			// Stringer
			if verb == "%s" || verb == "%v" {
				ms := in.P.SSA.MethodSets.MethodSet(dyn)
				if sel := ms.Lookup(nil, "String"); sel != nil {
					if f := in.P.SSA.MethodValue(sel); f != nil && isRepoFn(f) && len(f.Blocks) > 0 && len(in.stack) < 30 {
						if _, isc := raw.(Const); isc {
							outs := in.CallFn(f, c.St.clone(), []Val{raw}, nil, c.Ctx+"S")
							if len(outs) == 1 && len(outs[0].Res) == 1 {
								return outs[0].Res[0]
							}
						}
					}
				}
			}
			return mkTerm("fmt:"+verb, strT, in.snap(c.St, raw, 0))
		}
	}
	if _, ok := v.(Nil); ok {
		return cStr(fmt.Sprintf(verb, nil))
	}
	if verb == "%x" || verb == "%X" {
		if b, ok := constBytes(in, c.St, raw); ok {
			return cStr(fmt.Sprintf(verb, b))
		}
	}
	return mkTerm("fmt:"+verb, strT, in.snap(c.St, v, 0))
}
