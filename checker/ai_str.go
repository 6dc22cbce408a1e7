package main

import (
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// String functions on concatenations of constants and identifiers. An
// identifier is a symbolic string known to be non-empty and to consist of
// letters, digits and underscores only.

func identKey(v Val) string { return "ident:" + v.Key() }

func (s *Scn) ident(name string) Val {
	v := s.str(name)
	s.St.must[identKey(v)] = true
	return v
}

func identChar(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func isIdent(st *State, v Val) bool {
	if _, ok := isStr(v); ok {
		return false
	}
	switch v.(type) {
	case Sym, *Term:
		return st.must[identKey(v)]
	}
	return false
}

func noIdentChar(c string) bool {
	for i := 0; i < len(c); i++ {
		if identChar(c[i]) {
			return false
		}
	}
	return c != ""
}

func identLike(c string) bool {
	for i := 0; i < len(c); i++ {
		if !identChar(c[i]) {
			return false
		}
	}
	return c != ""
}

// idPieces gives the pieces of v when all are constants or identifiers.
func idPieces(st *State, v Val) ([]Val, bool) {
	ps := pieces(v)
	some := false
	for _, p := range ps {
		if _, ok := isStr(p); ok {
			continue
		}
		if !isIdent(st, p) {
			return nil, false
		}
		some = true
	}
	return ps, some
}

// hasPrefix: 1 yes, 0 no, -1 unknown.
func hasPrefixDec(ps []Val, c string) int {
	for _, p := range ps {
		if c == "" {
			return 1
		}
		s, ok := isStr(p)
		if !ok {
			if !identChar(c[0]) {
				return 0
			}
			return -1
		}
		n := min(len(s), len(c))
		if s[:n] != c[:n] {
			return 0
		}
		c = c[n:]
	}
	if c == "" {
		return 1
	}
	return 0
}

func hasSuffixDec(ps []Val, c string) int {
	for i := len(ps) - 1; i >= 0; i-- {
		if c == "" {
			return 1
		}
		s, ok := isStr(ps[i])
		if !ok {
			if !identChar(c[len(c)-1]) {
				return 0
			}
			return -1
		}
		n := min(len(s), len(c))
		if s[len(s)-n:] != c[len(c)-n:] {
			return 0
		}
		c = c[:len(c)-n]
	}
	if c == "" {
		return 1
	}
	return 0
}

func containsDec(ps []Val, c string) int {
	for _, p := range ps {
		if s, ok := isStr(p); ok && strings.Contains(s, c) {
			return 1
		}
	}
	for i := 0; i < len(c); i++ {
		if identChar(c[i]) {
			continue
		}
		found := false
		for _, p := range ps {
			if s, ok := isStr(p); ok && strings.IndexByte(s, c[i]) >= 0 {
				found = true
			}
		}
		if !found {
			return 0
		}
	}
	if noIdentChar(c) {
		return 0
	}
	return -1
}

// cutAt splits pieces around the first (or last) occurrence of c, which has no
// identifier characters.
func cutAt(ps []Val, c string, last bool) (a, b Val, ok bool) {
	for k := range ps {
		i := k
		if last {
			i = len(ps) - 1 - k
		}
		s, isC := isStr(ps[i])
		if !isC {
			continue
		}
		j := strings.Index(s, c)
		if last {
			j = strings.LastIndex(s, c)
		}
		if j < 0 {
			continue
		}
		a = mkCat(append(append([]Val(nil), ps[:i]...), cStr(s[:j]))...)
		b = mkCat(append([]Val{cStr(s[j+len(c):])}, ps[i+1:]...)...)
		return a, b, true
	}
	return nil, nil, false
}

// dropFront and dropBack remove n bytes that are known constants.
func dropFront(v Val, n int) (Val, bool) {
	ps := pieces(v)
	if s, ok := isStr(ps[0]); ok && n <= len(s) {
		return mkCat(append([]Val{cStr(s[n:])}, ps[1:]...)...), true
	}
	return nil, false
}

func dropBack(v Val, n int) (Val, bool) {
	ps := pieces(v)
	k := len(ps) - 1
	if s, ok := isStr(ps[k]); ok && n <= len(s) {
		return mkCat(append(append([]Val(nil), ps[:k]...), cStr(s[:len(s)-n]))...), true
	}
	return nil, false
}

func init() {
	ret := func(c *Call, v ...Val) ([]Outcome, bool) { return []Outcome{{c.St, v}}, true }
	before := func(name string, f model) {
		old := models[name]
		models[name] = func(c *Call) ([]Outcome, bool) {
			if o, ok := f(c); ok {
				return o, true
			}
			if old != nil {
				return old(c)
			}
			return nil, false
		}
	}
	// arg gives the identifier pieces of argument 0 and the constant argument 1
	arg := func(c *Call) ([]Val, string, bool) {
		if len(c.Args) < 2 {
			return nil, "", false
		}
		s, ok := isStr(c.Args[1])
		if !ok || s == "" {
			return nil, "", false
		}
		ps, ok := idPieces(c.St, c.Args[0])
		return ps, s, ok
	}
	dec := func(name string, f func(ps []Val, c string) int) {
		before(name, func(c *Call) ([]Outcome, bool) {
			ps, s, ok := arg(c)
			if !ok {
				return nil, false
			}
			switch f(ps, s) {
			case 1:
				return ret(c, cBool(true))
			case 0:
				return ret(c, cBool(false))
			}
			return nil, false
		})
	}
	dec("strings.HasPrefix", hasPrefixDec)
	dec("strings.HasSuffix", hasSuffixDec)
	dec("strings.Contains", containsDec)
	dec("strings.ContainsAny", func(ps []Val, c string) int {
		r := 0
		for i := 0; i < len(c); i++ {
			switch containsDec(ps, c[i:i+1]) {
			case 1:
				return 1
			case -1:
				r = -1
			}
		}
		return r
	})
	before("strings.ContainsRune", func(c *Call) ([]Outcome, bool) {
		ps, ok := idPieces(c.St, c.Args[0])
		r, ok2 := isInt(c.Args[1])
		if !ok || !ok2 || r > 127 || identChar(byte(r)) {
			return nil, false
		}
		return ret(c, cBool(containsDec(ps, string(rune(r))) == 1))
	})
	for _, n := range []string{"strings.TrimPrefix", "strings.CutPrefix", "strings.TrimSuffix", "strings.CutSuffix"} {
		front, cut := strings.HasSuffix(n, "Prefix"), strings.Contains(n, "Cut")
		before(n, func(c *Call) ([]Outcome, bool) {
			ps, s, ok := arg(c)
			if !ok {
				return nil, false
			}
			d, f := hasPrefixDec, dropFront
			if !front {
				d, f = hasSuffixDec, dropBack
			}
			r := c.Args[0]
			switch d(ps, s) {
			case -1:
				return nil, false
			case 1:
				x, ok := f(r, len(s))
				if !ok {
					return nil, false
				}
				if cut {
					return ret(c, x, cBool(true))
				}
				return ret(c, x)
			}
			if cut {
				return ret(c, r, cBool(false))
			}
			return ret(c, r)
		})
	}
	before("strings.Cut", func(c *Call) ([]Outcome, bool) {
		ps, s, ok := arg(c)
		if !ok || !noIdentChar(s) {
			return nil, false
		}
		if a, b, ok := cutAt(ps, s, false); ok {
			return ret(c, a, b, cBool(true))
		}
		return ret(c, c.Args[0], cStr(""), cBool(false))
	})
	split := func(n int) model {
		return func(c *Call) ([]Outcome, bool) {
			ps, s, ok := arg(c)
			if !ok || !noIdentChar(s) {
				return nil, false
			}
			lim := n
			if n == 0 {
				l, ok := isInt(c.Args[2])
				if !ok || l == 0 {
					return nil, false
				}
				lim = l
			}
			var el []Val
			for lim < 0 || len(el) < lim-1 {
				a, b, ok := cutAt(ps, s, false)
				if !ok {
					break
				}
				el = append(el, a)
				ps = pieces(b)
			}
			el = append(el, mkCat(ps...))
			return ret(c, c.In.newList(c.St, c.Site, "sp", c.Sig.Results().At(0).Type(), el))
		}
	}
	before("strings.Split", split(-1))
	before("strings.SplitN", split(0))
	index := func(last bool) model {
		return func(c *Call) ([]Outcome, bool) {
			ps, ok := idPieces(c.St, c.Args[0])
			s, ok2 := isStr(c.Args[1])
			if i, isI := isInt(c.Args[1]); isI && !ok2 && i < 128 {
				s, ok2 = string(rune(i)), true
			}
			if !ok || !ok2 || !noIdentChar(s) {
				return nil, false
			}
			a, _, found := cutAt(ps, s, last)
			if !found {
				return ret(c, cInt(-1))
			}
			return ret(c, c.In.lenOf(c.St, a))
		}
	}
	before("strings.Index", index(false))
	before("strings.IndexByte", index(false))
	before("strings.IndexRune", index(false))
	before("strings.LastIndex", index(true))
	before("strings.LastIndexByte", index(true))
	before("strings.Count", func(c *Call) ([]Outcome, bool) {
		ps, s, ok := arg(c)
		if !ok || !noIdentChar(s) {
			return nil, false
		}
		n := 0
		for _, p := range ps {
			if x, ok := isStr(p); ok {
				n += strings.Count(x, s)
			}
		}
		return ret(c, cInt(n))
	})
	same := func(c *Call) ([]Outcome, bool) {
		ps, ok := idPieces(c.St, c.Args[0])
		if !ok {
			return nil, false
		}
		for _, p := range ps {
			if s, ok := isStr(p); ok && strings.TrimSpace(s) != s {
				return nil, false
			}
		}
		return ret(c, c.Args[0])
	}
	before("strings.TrimSpace", same)
	repl := func(c *Call) ([]Outcome, bool) {
		ps, s, ok := arg(c)
		if !ok || containsDec(ps, s) != 0 {
			return nil, false
		}
		return ret(c, c.Args[0])
	}
	before("strings.ReplaceAll", repl)
	before("strings.Replace", repl)
	before("strings.NewReplacer", func(c *Call) ([]Outcome, bool) {
		el, ok := c.In.listElems(c.St, c.Args[0])
		if !ok || len(el)%2 != 0 {
			return nil, false
		}
		for _, e := range el {
			if _, ok := isStr(e); !ok {
				return nil, false
			}
		}
		return ret(c, mkTerm("replacer", c.Sig.Results().At(0).Type(), el...))
	})
	before("(*strings.Replacer).Replace", func(c *Call) ([]Outcome, bool) {
		t, ok := c.Args[0].(*Term)
		if !ok || t.Op != "replacer" {
			return nil, false
		}
		var old []string
		for _, e := range t.Args {
			s, _ := isStr(e)
			old = append(old, s)
		}
		if s, ok := isStr(c.Args[1]); ok {
			return ret(c, cStr(strings.NewReplacer(old...).Replace(s)))
		}
		ps, ok := idPieces(c.St, c.Args[1])
		if !ok {
			return nil, false
		}
		for i := 0; i < len(old); i += 2 {
			if containsDec(ps, old[i]) != 0 {
				return nil, false
			}
		}
		return ret(c, c.Args[1])
	})
}

// substring of a concatenation with bounds that fall into constant pieces.
func (in *Interp) catSlice(st *State, v Val, x *ssa.Slice, lo int, hi Val) (Val, bool) {
	r := v
	if hi != nil {
		if h, ok := isInt(hi); ok {
			// inside the first constant piece
			if s, ok := isStr(pieces(v)[0]); ok && h <= len(s) && lo <= h {
				return cStr(s[lo:h]), true
			}
			return nil, false
		}
		// up to the length of a front part of the concatenation
		ps := pieces(v)
		done := false
		for i := len(ps); i >= 1 && !done; i-- {
			front := mkCat(ps[:i]...)
			if c, ok := isStr(ps[i-1]); ok {
				for j := 0; j <= len(c) && !done; j++ {
					f := mkCat(append(append([]Val(nil), ps[:i-1]...), cStr(c[:j]))...)
					if in.lenOf(st, f).Key() == hi.Key() {
						r, done = f, true
					}
				}
			}
			if !done && in.lenOf(st, front).Key() == hi.Key() {
				r, done = front, true
			}
		}
		if !done {
			base, off := splitSum(hi)
			if base == nil || base.Key() != in.lenOf(st, v).Key() || off > 0 {
				return nil, false
			}
			f, ok := dropBack(v, -off)
			if !ok {
				return nil, false
			}
			r = f
		}
	}
	if lo == 0 {
		return r, true
	}
	return dropFront(r, lo)
}

// catTail: the part of v after a front part whose length plus a constant is lo.
func (in *Interp) catTail(st *State, v, lo Val) (Val, bool) {
	ps := pieces(v)
	base, off := splitSum(lo)
	if base == nil || off < 0 {
		return nil, false
	}
	for i := 1; i <= len(ps); i++ {
		if in.lenOf(st, mkCat(ps[:i]...)).Key() == base.Key() {
			if i == len(ps) {
				return cStr(""), off == 0
			}
			return dropFront(mkCat(ps[i:]...), off)
		}
	}
	return nil, false
}

// words splits a concatenation of constants and identifiers into words of
// identifier characters and the separators between them: separators[i] stands
// before words[i], and the last separator at the end.
func words(st *State, ps []Val) (seps []string, ws []Val, ok bool) {
	var cur []Val
	sep := ""
	end := func() {
		if len(cur) > 0 {
			seps, ws = append(seps, sep), append(ws, mkCat(cur...))
			sep, cur = "", nil
		}
	}
	for _, p := range ps {
		c, isC := isStr(p)
		if !isC {
			if !isIdent(st, p) {
				return nil, nil, false
			}
			cur = append(cur, p)
			continue
		}
		for i := 0; i < len(c); {
			j := i
			for j < len(c) && identChar(c[j]) == identChar(c[i]) {
				j++
			}
			if identChar(c[i]) {
				cur = append(cur, cStr(c[i:j]))
			} else {
				end()
				sep += c[i:j]
			}
			i = j
		}
	}
	end()
	return append(seps, sep), ws, true
}

// relWords compares two such concatenations word by word; 0 if it cannot.
func relWords(in *Interp, st *State, pa, pb []Val) int {
	sa, wa, ok := words(st, pa)
	if !ok {
		return 0
	}
	sb, wb, ok := words(st, pb)
	if !ok || len(wa)+len(wb) <= 2 && len(sa[0])+len(sb[0])+len(sa[len(sa)-1])+len(sb[len(sb)-1]) == 0 {
		return 0
	}
	if len(wa) != len(wb) {
		return LT | GT
	}
	for i := range sa {
		if sa[i] != sb[i] {
			return LT | GT
		}
	}
	r := EQ
	for i := range wa {
		switch m := in.relate(st, wa[i], wb[i]); {
		case m&EQ == 0:
			return LT | GT
		case m != EQ:
			r = LT | EQ | GT
		}
	}
	if r != EQ {
		return 0
	}
	return EQ
}

// relQuoted compares concatenations of constants and quoted strings; a quoted
// string shows where it ends, so equal texts have equal parts.
func relQuoted(in *Interp, st *State, pa, pb []Val) int {
	quoted := func(v Val) (Val, bool) {
		t, ok := v.(*Term)
		if ok && t.Op == "fmt:%q" && len(t.Args) == 1 {
			return t.Args[0], true
		}
		return nil, false
	}
	some := false
	for _, ps := range [][]Val{pa, pb} {
		for _, p := range ps {
			_, c := isStr(p)
			_, q := quoted(p)
			if !c && !q {
				return 0
			}
			some = some || q
		}
	}
	if !some {
		return 0
	}
	pa, pb = append([]Val(nil), pa...), append([]Val(nil), pb...)
	for len(pa) > 0 && len(pb) > 0 {
		x, xs := isStr(pa[0])
		y, ys := isStr(pb[0])
		switch {
		case xs && ys:
			n := min(len(x), len(y))
			if x[:n] != y[:n] {
				return LT | GT
			}
			pa[0], pb[0] = cStr(x[n:]), cStr(y[n:])
			if n == len(x) {
				pa = pa[1:]
			}
			if n == len(y) {
				pb = pb[1:]
			}
		case xs || ys:
			// the constant must start with the quoted form of the other's argument
			c, rest, o := x, &pa[0], pb[0]
			if ys {
				c, rest, o = y, &pb[0], pa[0]
			}
			arg, _ := quoted(o)
			if c == "" {
				return 0
			}
			pre, err := strconv.QuotedPrefix(c)
			if err != nil || c[0] != '"' {
				return LT | GT
			}
			u, _ := strconv.Unquote(pre)
			switch m := in.relate(st, arg, cStr(u)); {
			case m&EQ == 0:
				return LT | GT
			case m != EQ:
				return 0
			}
			*rest = cStr(c[len(pre):])
			if xs {
				pb = pb[1:]
			} else {
				pa = pa[1:]
			}
			if c == pre {
				if xs {
					pa = pa[1:]
				} else {
					pb = pb[1:]
				}
			}
		default:
			p, _ := quoted(pa[0])
			q, _ := quoted(pb[0])
			switch m := in.relate(st, p, q); {
			case m&EQ == 0:
				return LT | GT
			case m != EQ:
				return 0
			}
			pa, pb = pa[1:], pb[1:]
		}
	}
	if len(pa)+len(pb) > 0 {
		return LT | GT
	}
	return EQ
}

func init() {
	models["strconv.Quote"] = func(c *Call) ([]Outcome, bool) {
		if s, ok := isStr(c.Args[0]); ok {
			return []Outcome{{c.St, []Val{cStr(strconv.Quote(s))}}}, true
		}
		return []Outcome{{c.St, []Val{mkTerm("fmt:%q", strT, c.Args[0])}}}, true
	}
}
