package main

import (
	"crypto/sha256"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract values -----------------------------------------------------------

type Val interface{ Key() string }

type (
	Const struct{ C constant.Value }
	Nil   struct{}
	// Sym is an opaque value about which only the recorded facts are known.
	Sym struct {
		Name string
		T    types.Type
	}
	// Term is an uninterpreted function of its arguments.
	Term struct {
		Op   string
		Args []Val
		T    types.Type
		key  string
	}
	Ptr struct {
		Obj  string
		Path string // ".field" / "[i]" / "[*]" steps
		T    types.Type
	}
	Iface struct {
		Dyn types.Type
		V   Val
	}
	Tuple struct{ Vs []Val }
	Fn    struct {
		F *ssa.Function
		B []Val
	}
	Builtin struct{ Name string }
	Slice   struct {
		Obj    string
		Lo, Hi int // bounds into a known-length backing object
		Known  bool
		Len    Val // when !Known
		T      types.Type
	}
	StructV struct {
		T types.Type
		F []Val
	}
	Set struct{ Vs []Val }
	Top struct{ T types.Type }
)

func (c Const) Key() string {
	switch c.C.Kind() {
	case constant.String:
		return strconv.Quote(constant.StringVal(c.C))
	default:
		return "#" + c.C.ExactString()
	}
}
func (Nil) Key() string   { return "nil" }
func (s Sym) Key() string { return "$" + s.Name }
func (t *Term) Key() string {
	if t.key == "" {
		var b strings.Builder
		b.WriteString(t.Op)
		b.WriteByte('(')
		for i, a := range t.Args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.Key())
		}
		b.WriteByte(')')
		t.key = b.String()
	}
	return t.key
}
func (p Ptr) Key() string { return "&" + p.Obj + p.Path }
func (i Iface) Key() string {
	return "<" + types.TypeString(i.Dyn, nil) + ":" + i.V.Key() + ">"
}
func (t Tuple) Key() string   { return "(" + keys(t.Vs) + ")" }
func (f Fn) Key() string      { return "fn:" + f.F.String() + "@" + f.F.Name() + "[" + keys(f.B) + "]" }
func (b Builtin) Key() string { return "builtin:" + b.Name }
func (s Slice) Key() string {
	if s.Known {
		return fmt.Sprintf("sl:%s[%d:%d]", s.Obj, s.Lo, s.Hi)
	}
	return "sl:" + s.Obj + "#" + s.Len.Key()
}
func (s StructV) Key() string { return "{" + keys(s.F) + "}" }
func (s Set) Key() string     { return "set{" + keys(s.Vs) + "}" }
func (t Top) Key() string     { return "T" }

func keys(vs []Val) string {
	ks := make([]string, len(vs))
	for i, v := range vs {
		if v == nil {
			ks[i] = "_"
		} else {
			ks[i] = v.Key()
		}
	}
	return strings.Join(ks, ",")
}

func mkTerm(op string, t types.Type, args ...Val) Val {
	for _, a := range args {
		if a == nil {
			return Top{t}
		}
		switch a.(type) {
		case Top, Set:
			return Top{t}
		}
	}
	tm := &Term{Op: op, Args: args, T: t}
	if len(tm.Key()) > 3000 {
		return Top{t}
	}
	return tm
}

func cInt(i int) Val       { return Const{constant.MakeInt64(int64(i))} }
func cBool(b bool) Val     { return Const{constant.MakeBool(b)} }
func cStr(s string) Val    { return Const{constant.MakeString(s)} }
func cFloat(f float64) Val { return Const{constant.ToFloat(constant.MakeFloat64(f))} }

func isBool(v Val) (bool, bool) {
	if c, ok := v.(Const); ok && c.C.Kind() == constant.Bool {
		return constant.BoolVal(c.C), true
	}
	return false, false
}

func isInt(v Val) (int, bool) {
	if c, ok := v.(Const); ok && c.C.Kind() == constant.Int {
		i, ok := constant.Int64Val(c.C)
		return int(i), ok
	}
	return 0, false
}

func isStr(v Val) (string, bool) {
	if c, ok := v.(Const); ok && c.C.Kind() == constant.String {
		return constant.StringVal(c.C), true
	}
	return "", false
}

func valType(v Val) types.Type {
	switch v := v.(type) {
	case Sym:
		return v.T
	case *Term:
		return v.T
	case Top:
		return v.T
	case StructV:
		return v.T
	case Ptr:
		return v.T
	case Slice:
		return v.T
	}
	return nil
}

// zero value of a type
func zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return cBool(false)
		case u.Info()&types.IsInteger != 0:
			return cInt(0)
		case u.Info()&types.IsFloat != 0:
			return cFloat(0)
		case u.Info()&types.IsString != 0:
			return cStr("")
		}
		return Nil{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return StructV{t, f}
	case *types.Array:
		if u.Len() <= 64 {
			f := make([]Val, u.Len())
			for i := range f {
				f[i] = zeroVal(u.Elem())
			}
			return StructV{t, f}
		}
		return Top{t}
	case *types.Tuple:
		f := make([]Val, u.Len())
		for i := range f {
			f[i] = zeroVal(u.At(i).Type())
		}
		return Tuple{f}
	case *types.TypeParam:
		return Top{t}
	}
	return Nil{}
}

func setOf(vs ...Val) Val {
	m := map[string]Val{}
	for _, v := range vs {
		if v == nil {
			continue
		}
		switch v := v.(type) {
		case Top:
			return v
		case Set:
			for _, x := range v.Vs {
				m[x.Key()] = x
			}
		default:
			m[v.Key()] = v
		}
	}
	if len(m) > 8 {
		for _, v := range vs {
			if t := valType(v); t != nil {
				return Top{t}
			}
		}
		return Top{}
	}
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 1 {
		return m[ks[0]]
	}
	out := Set{}
	for _, k := range ks {
		out.Vs = append(out.Vs, m[k])
	}
	return out
}

func join(a, b Val) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.Key() == b.Key() {
		return a
	}
	if x, ok := a.(StructV); ok {
		if y, ok := b.(StructV); ok && len(x.F) == len(y.F) {
			f := make([]Val, len(x.F))
			for i := range f {
				f[i] = join(x.F[i], y.F[i])
			}
			return StructV{x.T, f}
		}
	}
	if x, ok := a.(Tuple); ok {
		if y, ok := b.(Tuple); ok && len(x.Vs) == len(y.Vs) {
			f := make([]Val, len(x.Vs))
			for i := range f {
				f[i] = join(x.Vs[i], y.Vs[i])
			}
			return Tuple{f}
		}
	}
	return setOf(a, b)
}

// members lists the alternatives of a value.
func members(v Val) []Val {
	if s, ok := v.(Set); ok {
		return s.Vs
	}
	return []Val{v}
}

// Heap ------------------------------------------------------------------------

type Entry struct {
	K     Val
	V     Val
	Maybe bool // may be absent
}

type ObjKind int

const (
	OCell ObjKind = iota
	OArr
	OMap
	OIter
)

type Obj struct {
	Kind    ObjKind
	V       Val   // OCell: contents; OArr summarised: element; OIter: source container key
	Elems   []Val // OArr with known length
	Known   bool
	Entries []Entry // OMap
	Base    Val     // OMap: unknown remainder (nil: none)
	Deleted []Val   // OMap: keys deleted from Base
	Ordered bool
	Pos     Val // OIter
	Multi   bool
	T       types.Type
}

func (o *Obj) clone() *Obj {
	c := *o
	c.Elems = append([]Val(nil), o.Elems...)
	c.Entries = append([]Entry(nil), o.Entries...)
	c.Deleted = append([]Val(nil), o.Deleted...)
	return &c
}

func (o *Obj) key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%v|%v|", o.Kind, o.Known, o.Multi)
	if o.V != nil {
		b.WriteString(o.V.Key())
	}
	b.WriteByte('|')
	b.WriteString(keys(o.Elems))
	b.WriteByte('|')
	for _, e := range o.Entries {
		b.WriteString(e.K.Key() + "=" + e.V.Key())
		if e.Maybe {
			b.WriteByte('?')
		}
		b.WriteByte(';')
	}
	if o.Base != nil {
		b.WriteString("+" + o.Base.Key())
	}
	b.WriteString(keys(o.Deleted))
	if o.Pos != nil {
		b.WriteString("@" + o.Pos.Key())
	}
	return b.String()
}

func joinObj(a, b *Obj) *Obj {
	if a == b || a.key() == b.key() {
		return a
	}
	c := a.clone()
	c.Multi = a.Multi || b.Multi
	switch a.Kind {
	case OCell:
		c.V = join(a.V, b.V)
	case OArr:
		if a.Known && b.Known && len(a.Elems) == len(b.Elems) {
			for i := range c.Elems {
				c.Elems[i] = join(a.Elems[i], b.Elems[i])
			}
		} else {
			c.Known = false
			c.V = join(a.elem(), b.elem())
			c.Elems = nil
		}
	case OIter:
		c.V = join(a.V, b.V)
		c.Pos = join(a.Pos, b.Pos)
	case OMap:
		// entries on both sides are joined; one-sided entries become optional
		var out []Entry
		used := map[string]bool{}
		for _, e := range a.Entries {
			found := false
			for _, f := range b.Entries {
				if f.K.Key() == e.K.Key() {
					out = append(out, Entry{e.K, join(e.V, f.V), e.Maybe || f.Maybe})
					found = true
				}
			}
			if !found {
				out = append(out, Entry{e.K, e.V, true})
			}
			used[e.K.Key()] = true
		}
		for _, f := range b.Entries {
			if !used[f.K.Key()] {
				out = append(out, Entry{f.K, f.V, true})
			}
		}
		c.Entries = out
		if len(out) > 24 {
			var k, v Val
			for _, e := range out {
				k, v = join(k, e.K), join(v, e.V)
			}
			c.Entries = []Entry{{k, v, true}}
			c.Base = Top{}
		}
		switch {
		case a.Base == nil:
			c.Base = b.Base
		case b.Base != nil && a.Base.Key() != b.Base.Key():
			c.Base = Top{}
		}
		for _, d := range b.Deleted {
			dup := false
			for _, x := range c.Deleted {
				dup = dup || x.Key() == d.Key()
			}
			if !dup {
				c.Deleted = append(c.Deleted, d)
			}
		}
	}
	return c
}

func (o *Obj) elem() Val {
	if o.Known {
		var v Val
		for _, e := range o.Elems {
			v = join(v, e)
		}
		return v
	}
	return o.V
}

// Facts -----------------------------------------------------------------------

const (
	LT = 1 << iota
	EQ
	GT
	UN
)

const anyRel = LT | EQ | GT | UN

type Fact struct {
	A, B Val
	M    int
}

func flip(m int) int {
	r := m &^ (LT | GT)
	if m&LT != 0 {
		r |= GT
	}
	if m&GT != 0 {
		r |= LT
	}
	return r
}

func relKey(a, b Val) (string, bool) {
	x, y := a.Key(), b.Key()
	if x <= y {
		return x + "\x00" + y, false
	}
	return y + "\x00" + x, true
}

// State -----------------------------------------------------------------------

type State struct {
	heap  map[string]*Obj
	facts map[string]Fact
	must  map[string]bool
	env   map[ssa.Value]Val
	dfr   []deferred
	dead  bool
	tag   string
	ntag  int
}

// note makes this path distinct from those without the note.
func (s *State) note(x string) {
	if s.ntag++; s.ntag > 400 {
		anchorf("a path takes more steps than can be followed")
	}
	if s.tag += "|" + x; len(s.tag) > 200 {
		h := sha256.Sum256([]byte(s.tag))
		s.tag = fmt.Sprintf("%d#%x", len(s.tag), h[:12])
	}
}

type deferred struct {
	call *ssa.Defer
	fn   Val
	args []Val
}

func newState() *State {
	return &State{heap: map[string]*Obj{}, facts: map[string]Fact{}, must: map[string]bool{}, env: map[ssa.Value]Val{}}
}

func (s *State) clone() *State {
	n := &State{
		heap:  make(map[string]*Obj, len(s.heap)),
		facts: make(map[string]Fact, len(s.facts)),
		must:  make(map[string]bool, len(s.must)),
		env:   make(map[ssa.Value]Val, len(s.env)),
		dfr:   append([]deferred(nil), s.dfr...),
		tag:   s.tag,
		ntag:  s.ntag,
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k := range s.must {
		n.must[k] = true
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	return n
}

// joinState merges b into a and reports whether a changed.
func joinState(a, b *State) (*State, bool) {
	if a == nil {
		return b, true
	}
	ch := false
	n := a
	mod := func() {
		if !ch {
			n = a.clone()
			ch = true
		}
	}
	for k, v := range b.env {
		if o, ok := a.env[k]; ok {
			j := join(o, v)
			if j.Key() != o.Key() {
				mod()
				n.env[k] = j
			}
		} else {
			mod()
			n.env[k] = v
		}
	}
	for k, v := range b.heap {
		if o, ok := a.heap[k]; ok {
			if o == v {
				continue
			}
			j := joinObj(o, v)
			if j != o && j.key() != o.key() {
				mod()
				n.heap[k] = j
			}
		} else {
			mod()
			n.heap[k] = v
		}
	}
	for k, f := range a.facts {
		g, ok := b.facts[k]
		if !ok {
			mod()
			delete(n.facts, k)
			continue
		}
		if f.M|g.M != f.M {
			mod()
			f.M |= g.M
			n.facts[k] = f
		}
	}
	for k := range a.must {
		if !b.must[k] {
			mod()
			delete(n.must, k)
		}
	}
	if len(b.dfr) > len(a.dfr) {
		mod()
		n.dfr = b.dfr
	}
	return n, ch
}

func (s *State) rel(a, b Val) int {
	if a.Key() == b.Key() {
		switch a.(type) {
		case Top, Set:
			return anyRel
		}
		m := EQ
		if t := valType(a); t != nil && isFloat(t) {
			if f, ok := s.facts[a.Key()+"\x00"+a.Key()]; ok {
				return f.M
			}
			// a value compared with itself: equal (NaN is only modelled when stated)
		}
		return m
	}
	if x, ok := a.(Const); ok {
		if y, ok := b.(Const); ok {
			return constRel(x.C, y.C)
		}
	}
	k, fl := relKey(a, b)
	m := anyRel
	if f, ok := s.facts[k]; ok {
		m = f.M
		if fl {
			m = flip(m)
		}
	}
	// derive from relations with other constants
	if c, ok := b.(Const); ok {
		m &= s.derive(a, c)
	} else if c, ok := a.(Const); ok {
		m &= flip(s.derive(b, c))
	}
	if m&UN != 0 {
		t := valType(a)
		if t == nil {
			t = valType(b)
		}
		if t == nil || !isFloat(t) {
			m &^= UN
		}
	}
	return m
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isInteger(v Val) bool {
	t := valType(v)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNumeric(c constant.Value) bool {
	return c.Kind() == constant.Int || c.Kind() == constant.Float
}

func (s *State) derive(a Val, c Const) int {
	m := anyRel
	ak := a.Key()
	// len() and cap() are never negative
	if t, ok := a.(*Term); ok && t.Op == "len" && isNumeric(c.C) {
		if constant.Sign(c.C) < 0 {
			m &= GT
		} else if constant.Sign(c.C) == 0 {
			m &= EQ | GT
		}
	}
	// a text is empty exactly when its length is zero
	known := func(x, y Val) int {
		k, fl := relKey(x, y)
		f, ok := s.facts[k]
		switch {
		case !ok:
			return anyRel
		case fl:
			return flip(f.M)
		}
		return f.M
	}
	if t, ok := a.(*Term); ok && t.Op == "len" && isNumeric(c.C) && constant.Sign(c.C) == 0 {
		if x := valType(t.Args[0]); x != nil && types.Identical(x.Underlying(), strT) {
			switch e := known(t.Args[0], cStr("")); {
			case e&EQ == 0:
				m &= GT
			case e == EQ:
				m &= EQ
			}
		}
	}
	if str, ok := isStr(c); ok && str == "" {
		switch e := known(mkTerm("len", types.Typ[types.Int], a), cInt(0)); {
		case e&EQ == 0:
			m &^= EQ
		case e == EQ:
			m &= EQ
		}
	}
	if str, ok := isStr(c); ok && isIdent(s, a) && !identLike(str) {
		m &^= EQ
	}
	if t, ok := a.(*Term); ok {
		if t.Op == "len" && isIdent(s, t.Args[0]) && isNumeric(c.C) && constant.Sign(c.C) <= 0 {
			m &= GT
		}
		if t.Op == "index" && isIdent(s, t.Args[0]) && c.C.Kind() == constant.Int {
			if n, ok := constant.Int64Val(c.C); ok && n < 128 && !identChar(byte(n)) {
				m &^= EQ
			}
		}
	}
	for _, f := range s.facts {
		var oc Const
		fm := f.M
		if f.A.Key() == ak {
			x, ok := f.B.(Const)
			if !ok {
				continue
			}
			oc = x
		} else if f.B.Key() == ak {
			x, ok := f.A.(Const)
			if !ok {
				continue
			}
			oc = x
			fm = flip(fm)
		} else {
			continue
		}
		if oc.Key() == c.Key() {
			continue
		}
		r := constRel(oc.C, c.C) // oc ? c
		if isInteger(a) && c.C.Kind() == constant.Int && oc.C.Kind() == constant.Int {
			// neighbouring integers
			if r == LT && fm == GT && constant.Compare(constant.BinaryOp(oc.C, token.ADD, constant.MakeInt64(1)), token.EQL, c.C) {
				m &= EQ | GT
			}
			if r == GT && fm == LT && constant.Compare(constant.BinaryOp(oc.C, token.SUB, constant.MakeInt64(1)), token.EQL, c.C) {
				m &= EQ | LT
			}
		}
		switch {
		case fm == EQ:
			m &= r
		case fm&^LT == 0 && r&^(LT|EQ) == 0: // a < oc <= c
			m &= LT
		case fm&^(LT|EQ) == 0 && r == LT:
			m &= LT
		case fm&^GT == 0 && r&^(GT|EQ) == 0:
			m &= GT
		case fm&^(GT|EQ) == 0 && r == GT:
			m &= GT
		case fm&^(LT|EQ) == 0 && r == EQ:
			m &= LT | EQ
		}
	}
	return m
}

func constRel(a, b constant.Value) int {
	if a.Kind() == constant.Bool || b.Kind() == constant.Bool {
		if a.Kind() == b.Kind() && constant.BoolVal(a) == constant.BoolVal(b) {
			return EQ
		}
		return LT
	}
	if (a.Kind() == constant.String) != (b.Kind() == constant.String) {
		return LT | GT
	}
	switch {
	case constant.Compare(a, tokLSS, b):
		return LT
	case constant.Compare(a, tokEQL, b):
		return EQ
	}
	return GT
}

// addRel restricts the relation between a and b; it reports false when this is
// impossible.
func (s *State) addRel(a, b Val, m int) bool {
	switch a.(type) {
	case Top, Set:
		return true
	}
	switch b.(type) {
	case Top, Set:
		return true
	}
	cur := s.rel(a, b)
	m &= cur
	if m == 0 {
		return false
	}
	if m == cur {
		return true
	}
	k, fl := relKey(a, b)
	if fl {
		s.facts[k] = Fact{b, a, flip(m)}
	} else {
		s.facts[k] = Fact{a, b, m}
	}
	return true
}

// dynamic-type facts are kept as relations with a type token
func typeTok(t types.Type) Val { return Sym{"type " + types.TypeString(t, nil), nil} }
