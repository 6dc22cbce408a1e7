package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A demand-driven prover for facts about values at program points: which
// number is at most which other plus a constant, and which reference is not
// nil. It follows definitions, dominating conditions, calls into results and
// parameters out to call sites. Nothing is enumerated: a proof holds for every
// run that reaches the point.

// pframe is a function in the context of one call of it (site in up) or, for a
// closure, of its creation (mk in up).
type pframe struct {
	fn   *ssa.Function
	up   *pframe
	site ssa.CallInstruction
	mk   *ssa.MakeClosure
	id   int
}

// point is a place in a pframe: before instruction idx of b or, if to is set,
// on the edge from b to it.
type point struct {
	fr  *pframe
	b   *ssa.BasicBlock
	idx int
	to  *ssa.BasicBlock
}

// atom is a number: a value or the length of one. The zero atom has key "0".
type atom struct {
	key   string
	fr    *pframe
	v     ssa.Value
	isLen bool
}

var zeroAtom = atom{key: "0"}

// leqFact says a <= b + k; neq says a != b + k.
type leqFact struct {
	a, b atom
	k    int64
}

type factSet struct {
	leq, neq []leqFact
	known    map[string]string // value -> nil, nonnil, true, false
	alts     [][]point         // one of the points of each was passed
	even     map[string]bool
}

type prover struct {
	p       *Program
	sh      *shared
	funcs   []*ssa.Function
	root    map[*ssa.Function]*pframe
	kids    map[any]*pframe
	nframes int
	stores  map[*ssa.Function]map[string]bool
	trans   map[*ssa.Function]map[string]bool
	sites   map[*ssa.Function][]ssa.CallInstruction
	open    map[*ssa.Function]bool // used as a value
	entry   map[*ssa.Function][2]int64
	single  map[*ssa.Alloc]ssa.Value
	cache   map[point]*factSet
	busy    map[point]bool
	dead    map[*ssa.Function]map[*ssa.BasicBlock]bool
	steps   int
	hyp     []leqFact
	nn      map[string]bool // assumed not nil (induction)

}

func newProver(p *Program) *prover {
	q := &prover{p: p, root: map[*ssa.Function]*pframe{}, kids: map[any]*pframe{}, stores: map[*ssa.Function]map[string]bool{},
		trans: map[*ssa.Function]map[string]bool{}, sites: map[*ssa.Function][]ssa.CallInstruction{}, open: map[*ssa.Function]bool{},
		entry: map[*ssa.Function][2]int64{}, single: map[*ssa.Alloc]ssa.Value{}, cache: map[point]*factSet{}, busy: map[point]bool{}, dead: map[*ssa.Function]map[*ssa.BasicBlock]bool{}, nn: map[string]bool{}}
	q.sh = newShared(p)
	for f := range allFuncs(p) {
		pk := fnPkg(f)
		if f.Blocks == nil || pk == nil || !strings.HasPrefix(pk.Path(), modPath) || isVseq(f) {
			continue
		}
		q.funcs = append(q.funcs, f)
	}
	sort.Slice(q.funcs, func(i, j int) bool {
		a, b := q.funcs[i], q.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	for _, f := range q.funcs {
		st := map[string]bool{}
		q.stores[f] = st
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				q.index(f, i, st)
			}
		}
	}
	return q
}

func (q *prover) index(f *ssa.Function, i ssa.Instruction, st map[string]bool) {
	called := ssa.Value(nil)
	if c, ok := i.(ssa.CallInstruction); ok {
		cc := c.Common()
		if cc.IsInvoke() {
			fs, _ := q.sh.callees(cc)
			for _, g := range fs {
				q.sites[g] = append(q.sites[g], c)
			}
		} else if g := cc.StaticCallee(); g != nil {
			called = cc.Value
			q.sites[g] = append(q.sites[g], c)
		} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
			fs, _ := q.sh.callees(cc)
			for _, g := range fs {
				q.sites[g] = append(q.sites[g], c)
			}
		}
	}
	for _, o := range i.Operands(nil) {
		if *o == called {
			called = nil
			continue
		}
		switch g := (*o).(type) {
		case *ssa.Function:
			if _, ok := i.(*ssa.MakeClosure); !ok {
				q.open[g] = true
			}
		case *ssa.MakeClosure:
			q.open[g.Fn.(*ssa.Function)] = true
		}
	}
	if s, ok := i.(*ssa.Store); ok {
		q.noteStore(s.Addr, st)
		q.cobra(f, s)
	}
}

// noteStore records what a store may change that existed before.
func (q *prover) noteStore(a ssa.Value, st map[string]bool) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		if base, ok := x.X.(*ssa.Alloc); ok && base != nil {
			return
		}
		if inner, ok := x.X.(*ssa.FieldAddr); ok {
			if _, ok := inner.X.(*ssa.Alloc); ok {
				return
			}
		}
		st["f:"+fieldKey(x)] = true
	case *ssa.IndexAddr:
		st["e:"+types.TypeString(x.Type(), nil)] = true
	case *ssa.Alloc:
	case *ssa.Global:
		st["g:"+x.String()] = true
	case *ssa.FreeVar:
		st["v:"] = true
	default:
		if p, ok := a.Type().Underlying().(*types.Pointer); ok {
			st["t:"+types.TypeString(p.Elem(), nil)] = true
		}
	}
}

func fieldKey(x *ssa.FieldAddr) string {
	return types.TypeString(x.X.Type().Underlying().(*types.Pointer).Elem(), nil) + "." + fieldName(x)
}

// cobra learns the number of arguments a command's function is given.
func (q *prover) cobra(f *ssa.Function, s *ssa.Store) {
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok || !strings.HasPrefix(fieldKey(fa), cobraPkg+".Command.") {
		return
	}
	name := fieldName(fa)
	if !strings.HasPrefix(name, "Run") && !strings.HasPrefix(name, "PreRun") && !strings.HasPrefix(name, "PostRun") {
		return
	}
	var fn *ssa.Function
	switch v := s.Val.(type) {
	case *ssa.Function:
		fn = v
	case *ssa.MakeClosure:
		fn = v.Fn.(*ssa.Function)
	}
	if fn == nil {
		return
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			t, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			fb, ok := t.Addr.(*ssa.FieldAddr)
			if !ok || fb.X != fa.X || fieldName(fb) != "Args" {
				continue
			}
			v := t.Val
			if c, ok := v.(*ssa.ChangeType); ok {
				v = c.X
			}
			c, ok := v.(*ssa.Call)
			if !ok {
				if g, ok := v.(*ssa.Function); ok && g.Name() == "NoArgs" {
					q.entry[fn] = [2]int64{0, 0}
				}
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !strings.HasPrefix(g.String(), cobraPkg+".") {
				continue
			}
			n := func(k int) int64 {
				if k < len(c.Call.Args) {
					if x, ok := c.Call.Args[k].(*ssa.Const); ok {
						return x.Int64()
					}
				}
				return -1
			}
			switch g.Name() {
			case "ExactArgs":
				q.entry[fn] = [2]int64{n(0), n(0)}
			case "MinimumNArgs":
				q.entry[fn] = [2]int64{n(0), 1 << 40}
			case "RangeArgs":
				q.entry[fn] = [2]int64{n(0), n(1)}
			}
		}
	}
}

// changes lists what f and everything it calls may change.
func (q *prover) changes(f *ssa.Function) map[string]bool {
	if m, ok := q.trans[f]; ok {
		return m
	}
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{f: true}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		g := work[0]
		work = work[1:]
		for k := range q.stores[g] {
			m[k] = true
		}
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				add := func(h *ssa.Function) {
					if h != nil && !seen[h] && h.Blocks != nil {
						seen[h] = true
						work = append(work, h)
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					fs, _ := q.sh.callees(c.Common())
					for _, h := range fs {
						add(h)
					}
				}
				if c, ok := i.(*ssa.MakeClosure); ok {
					add(c.Fn.(*ssa.Function))
				}
			}
		}
	}
	q.trans[f] = m
	return m
}

// frames --------------------------------------------------------------------

func (q *prover) rootOf(f *ssa.Function) *pframe {
	if fr := q.root[f]; fr != nil {
		return fr
	}
	q.nframes++
	fr := &pframe{fn: f, id: q.nframes}
	q.root[f] = fr
	if f.Parent() != nil {
		var mk *ssa.MakeClosure
		n := 0
		for _, b := range f.Parent().Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == f {
					mk = m
					n++
				}
			}
		}
		if n == 1 {
			fr.up, fr.mk = q.rootOf(f.Parent()), mk
		}
	}
	return fr
}

type siteKey struct {
	up   *pframe
	site ssa.CallInstruction
	fn   *ssa.Function
}

func (q *prover) child(up *pframe, site ssa.CallInstruction, fn *ssa.Function) *pframe {
	k := siteKey{up, site, fn}
	if fr := q.kids[k]; fr != nil {
		return fr
	}
	q.nframes++
	fr := &pframe{fn: fn, up: up, site: site, id: q.nframes}
	if m, ok := site.Common().Value.(*ssa.MakeClosure); ok {
		fr.mk = m
	}
	q.kids[k] = fr
	return fr
}

func (fr *pframe) top() *pframe {
	for fr.up != nil {
		fr = fr.up
	}
	return fr
}

func (fr *pframe) has(fn *ssa.Function) bool {
	for ; fr != nil; fr = fr.up {
		if fr.fn == fn {
			return true
		}
	}
	return false
}

func (fr *pframe) depth() int {
	n := 0
	for ; fr.up != nil; fr = fr.up {
		n++
	}
	return n
}

// values -----------------------------------------------------------------------

// only is the value of a variable that is stored to once.
func (q *prover) only(a *ssa.Alloc) ssa.Value {
	if v, ok := q.single[a]; ok {
		return v
	}
	q.single[a] = nil
	var st *ssa.Store
	n := 0
	var visit func(x ssa.Value) bool
	visit = func(x ssa.Value) bool {
		for _, r := range *x.Referrers() {
			switch i := r.(type) {
			case *ssa.Store:
				if i.Addr != x {
					return false
				}
				st = i
				n++
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for k, b := range i.Bindings {
					if b == x && !visit(i.Fn.(*ssa.Function).FreeVars[k]) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !visit(a) || n != 1 || st.Parent() != a.Parent() {
		return nil
	}
	q.single[a] = st.Val
	return st.Val
}

func (q *prover) resolve(fr *pframe, v ssa.Value) (*pframe, ssa.Value) {
	for n := 0; n < 60; n++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			if fr.site == nil {
				return fr, v
			}
			k := paramIndex(fr.fn, x)
			cc := fr.site.Common()
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, args...)
			}
			if k < 0 || k >= len(args) {
				return fr, v
			}
			if cc.IsInvoke() && k == 0 {
				return fr, v
			}
			fr, v = fr.up, args[k]
		case *ssa.FreeVar:
			if fr.mk == nil {
				return fr, v
			}
			k := -1
			for i, y := range fr.fn.FreeVars {
				if y == x {
					k = i
				}
			}
			if k < 0 || k >= len(fr.mk.Bindings) {
				return fr, v
			}
			fr, v = fr.up, fr.mk.Bindings[k]
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return fr, v
			}
			f2, a := q.resolve(fr, x.X)
			al, ok := a.(*ssa.Alloc)
			if !ok {
				return fr, v
			}
			s := q.only(al)
			if s == nil {
				return fr, v
			}
			fr, v = f2, s
		case *ssa.ChangeType:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Convert:
			a, ok := x.X.Type().Underlying().(*types.Basic)
			b, ok2 := x.Type().Underlying().(*types.Basic)
			if !ok || !ok2 || !wide(a) || !wide(b) {
				return fr, v
			}
			v = x.X
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != x.Edges[0] {
					return fr, v
				}
			}
			v = x.Edges[0]
		default:
			return fr, v
		}
	}
	return fr, v
}

// wide kinds hold any number that is used as an index.
func wide(b *types.Basic) bool {
	return b.Kind() == types.Int || b.Kind() == types.Int64
}

func paramIndex(f *ssa.Function, p *ssa.Parameter) int {
	for i, x := range f.Params {
		if x == p {
			return i
		}
	}
	return -1
}

// key names a value so that equal names mean equal values at all points of a
// pframe where both are defined.
func (q *prover) key(fr *pframe, v ssa.Value) string { return q.key1(fr, v, 0) }

func (q *prover) key1(fr *pframe, v ssa.Value, depth int) string {
	fr, v = q.resolve(fr, v)
	plain := fmt.Sprintf("%d.%s", fr.id, v.Name())
	if depth > 8 {
		return plain
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "nil"
		}
		return "c" + x.Value.ExactString()
	case *ssa.Global, *ssa.Function:
		return v.String()
	case *ssa.FieldAddr:
		return q.key1(fr, x.X, depth+1) + "." + fieldName(x)
	case *ssa.Field:
		return q.key1(fr, x.X, depth+1) + "/" + x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.IndexAddr:
		return q.key1(fr, x.X, depth+1) + "[" + q.key1(fr, x.Index, depth+1) + "]"
	case *ssa.TypeAssert:
		return q.key1(fr, x.X, depth+1) + ".(" + x.AssertedType.String() + ")"
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok {
			if x.Index == 0 {
				return q.key1(fr, t.X, depth+1) + ".(" + t.AssertedType.String() + ")"
			}
			return "is " + q.key1(fr, t.X, depth+1) + ".(" + t.AssertedType.String() + ")"
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if q.stable(fr, x.X) {
				return "*" + q.key1(fr, x.X, depth+1)
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a, k := q.length(fr, x.Call.Args[0])
			return fmt.Sprintf("%s+%d", a.key, k)
		}
	}
	return plain
}

// stable tells whether the memory at an address keeps its content while the
// outermost function of the pframe runs.
func (q *prover) stable(fr *pframe, a ssa.Value) bool {
	f2, b := q.resolve(fr, a)
	ch := q.changes(fr.top().fn)
	switch x := b.(type) {
	case *ssa.FieldAddr:
		t := types.TypeString(x.X.Type().Underlying().(*types.Pointer).Elem(), nil)
		if ch["f:"+fieldKey(x)] || ch["t:"+t] {
			return false
		}
		if _, ok := x.X.(*ssa.Alloc); ok {
			// own storage: stores to it are ordinary assignments
			return q.storesTo(x) <= 1
		}
		_ = f2
		return true
	case *ssa.IndexAddr:
		return !ch["e:"+types.TypeString(x.Type(), nil)]
	case *ssa.Global:
		return !ch["g:"+x.String()]
	case *ssa.UnOp: // a number behind a pointer
		if x.Op == token.MUL {
			e := x.Type().Underlying().(*types.Pointer).Elem()
			_, ok := e.Underlying().(*types.Basic)
			return ok && !ch["t:"+types.TypeString(e, nil)] && q.stable(f2, x.X)
		}
	}
	return false
}

func (q *prover) storesTo(x *ssa.FieldAddr) int {
	n := 0
	for _, r := range *x.X.Referrers() {
		if f, ok := r.(*ssa.FieldAddr); ok && f.Field == x.Field {
			for _, s := range *f.Referrers() {
				if s, ok := s.(*ssa.Store); ok && s.Addr == f {
					n++
				}
			}
		}
	}
	return n
}

// lin writes an integer as atom + constant.
func (q *prover) lin(fr *pframe, v ssa.Value) (atom, int64) {
	fr, v = q.resolve(fr, v)
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(x.Value); ok {
				return zeroAtom, n
			}
		}
	case *ssa.BinOp:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 {
			switch x.Op {
			case token.ADD:
				a, k := q.lin(fr, x.X)
				c, l := q.lin(fr, x.Y)
				if c.key == "0" {
					return a, k + l
				}
				if a.key == "0" {
					return c, k + l
				}
			case token.SUB:
				a, k := q.lin(fr, x.X)
				c, l := q.lin(fr, x.Y)
				if c.key == "0" {
					return a, k - l
				}
				if c.key == a.key {
					return zeroAtom, k - l
				}
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return q.length(fr, x.Call.Args[0])
		}
	}
	return atom{q.key(fr, v), fr, v, false}, 0
}

// length writes the length of a value as atom + constant.
func (q *prover) length(fr *pframe, v ssa.Value) (atom, int64) {
	fr, v = q.resolve(fr, v)
	if n, ok := arrayLen(v.Type()); ok {
		return zeroAtom, n
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroAtom, 0
		}
		if x.Value.Kind() == constant.String {
			return zeroAtom, int64(len(constant.StringVal(x.Value)))
		}
	case *ssa.MakeSlice:
		return q.lin(fr, x.Len)
	case *ssa.Slice:
		lo := int64(0)
		okLo := x.Low == nil
		if x.Low != nil {
			if a, k := q.lin(fr, x.Low); a.key == "0" {
				lo, okLo = k, true
			}
		}
		if okLo {
			if x.High != nil {
				a, k := q.lin(fr, x.High)
				return a, k - lo
			}
			a, k := q.length(fr, x.X)
			return a, k - lo
		}
	case *ssa.Convert:
		if isStringT(x.X.Type()) || isStringT(x.Type()) {
			if byteSlice(x.X.Type()) || byteSlice(x.Type()) {
				return q.length(fr, x.X)
			}
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStringT(x.Type()) {
			a, k := q.length(fr, x.X)
			c, l := q.length(fr, x.Y)
			if c.key == "0" {
				return a, k + l
			}
			if a.key == "0" {
				return c, k + l
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 {
			a, k := q.length(fr, x.Call.Args[0])
			c, l := q.length(fr, x.Call.Args[1])
			if c.key == "0" {
				return a, k + l
			}
			if a.key == "0" {
				return c, k + l
			}
		}
		if n := calleeOf(&x.Call); n == "slices.Clone" || n == "bytes.Clone" || n == "strings.Clone" || n == "slices.Sorted" && false {
			return q.length(fr, x.Call.Args[0])
		}
	}
	return atom{"len " + q.key(fr, v), fr, v, true}, 0
}

func arrayLen(t types.Type) (int64, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

func byteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// facts -----------------------------------------------------------------------------

func (q *prover) at(fr *pframe, i ssa.Instruction) point {
	b := i.Block()
	for k, x := range b.Instrs {
		if x == i {
			return point{fr: fr, b: b, idx: k}
		}
	}
	return point{fr: fr, b: b}
}

func (q *prover) facts(pt point) *factSet {
	if f := q.cache[pt]; f != nil {
		return f
	}
	fs := &factSet{known: map[string]string{}, even: map[string]bool{}}
	if q.busy[pt] {
		return fs
	}
	q.busy[pt] = true
	defer delete(q.busy, pt)
	q.gather(fs, pt)
	q.cache[pt] = fs
	return fs
}

func (q *prover) gather(fs *factSet, pt point) {
	fr := pt.fr
	b := pt.b
	if pt.to != nil {
		q.edge(fs, fr, b, pt.to)
	}
	idx := pt.idx
	if pt.to != nil {
		idx = len(b.Instrs)
	}
	for d := b; d != nil; d = d.Idom() {
		n := len(d.Instrs)
		if d == b {
			n = idx
		}
		for k := 0; k < n; k++ {
			q.passed(fs, fr, d.Instrs[k])
		}
		if len(d.Preds) == 1 {
			q.edge(fs, fr, d.Preds[0], d)
		} else if len(d.Preds) > 1 {
			q.joined(fs, fr, d)
		}
	}
	if e, ok := q.entry[fr.fn]; ok && fr.site == nil && len(fr.fn.Params) > 1 {
		a, k := q.length(fr, fr.fn.Params[1])
		fs.leq = append(fs.leq, leqFact{zeroAtom, a, k - e[0]}, leqFact{a, zeroAtom, e[1] - k})
	}
	switch {
	case fr.site != nil:
		q.gather(fs, q.at(fr.up, fr.site))
	case fr.mk != nil:
		q.gather(fs, q.at(fr.up, fr.mk))
	}
}

// joined handles a block with several ways in, of which all but one are
// impossible.
func (q *prover) joined(fs *factSet, fr *pframe, d *ssa.BasicBlock) {
	// a join of ways out of one condition, such as a || b
	var alts []point
	dead := q.deadEnds(fr.fn)
	for _, p := range d.Preds {
		if dead[p] {
			continue
		}
		if d.Dominates(p) {
			return // a loop
		}
		alts = append(alts, point{fr: fr, b: p, to: d})
	}
	if len(alts) == 1 {
		fs.add(q.facts(alts[0]))
	} else if len(alts) > 0 && len(alts) <= 4 {
		fs.alts = append(fs.alts, alts)
	}
}

// deadEnds are the blocks of a function that are never left.
func (q *prover) deadEnds(f *ssa.Function) map[*ssa.BasicBlock]bool {
	if m, ok := q.dead[f]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]bool{}
	q.dead[f] = m
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok && q.never(&c.Call) {
				m[b] = true
			}
		}
	}
	for again := true; again; {
		again = false
		for _, b := range f.Blocks {
			if m[b] || len(b.Preds) == 0 {
				continue
			}
			all := true
			for _, p := range b.Preds {
				all = all && m[p]
			}
			if all {
				m[b], again = true, true
			}
		}
	}
	return m
}

// never tells whether a call does not return.
func (q *prover) never(c *ssa.CallCommon) bool {
	switch n := calleeOf(c); n {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return true
	}
	g := c.StaticCallee()
	if g == nil || g.Blocks == nil || !isRepoFn(g) {
		return false
	}
	dead := q.deadEnds(g)
	for _, b := range g.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !dead[b] {
			return false
		}
	}
	return true
}

func (q *prover) edge(fs *factSet, fr *pframe, from, to *ssa.BasicBlock) {
	i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return
	}
	q.cond(fs, fr, i.Cond, to == from.Succs[0], 0)
}

// passed records what an executed instruction implies.
func (q *prover) passed(fs *factSet, fr *pframe, i ssa.Instruction) {
	nn := func(v ssa.Value) { fs.known[q.key(fr, v)] = "nonnil" }
	switch x := i.(type) {
	case *ssa.FieldAddr:
		nn(x.X)
	case *ssa.IndexAddr:
		a, k := q.lin(fr, x.Index)
		c, l := q.length(fr, x.X)
		fs.leq = append(fs.leq, leqFact{a, c, l - k - 1}, leqFact{zeroAtom, a, k})
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			nn(x.X)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			nn(x.X)
		}
	case *ssa.Slice:
		c, l := q.length(fr, x.X)
		str := isStringT(x.X.Type())
		if x.High != nil {
			a, k := q.lin(fr, x.High)
			if str {
				fs.leq = append(fs.leq, leqFact{a, c, l - k})
			}
			fs.leq = append(fs.leq, leqFact{zeroAtom, a, k})
			if x.Low != nil {
				e, m := q.lin(fr, x.Low)
				fs.leq = append(fs.leq, leqFact{e, a, k - m}, leqFact{zeroAtom, e, m})
			}
		} else if x.Low != nil {
			e, m := q.lin(fr, x.Low)
			fs.leq = append(fs.leq, leqFact{e, c, l - m}, leqFact{zeroAtom, e, m})
		}
	case *ssa.Store:
		if _, ok := x.Addr.(*ssa.Global); !ok {
			nn(x.Addr)
		}
	case *ssa.Call:
		if x.Call.IsInvoke() {
			nn(x.Call.Value)
		} else if x.Call.StaticCallee() == nil {
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				nn(x.Call.Value)
			}
		}
	}
}

func (q *prover) cond(fs *factSet, fr *pframe, v ssa.Value, truth bool, depth int) {
	if depth > 6 {
		return
	}
	fr, v = q.resolve(fr, v)
	tv := "false"
	if truth {
		tv = "true"
	}
	fs.known[q.key(fr, v)] = tv
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			q.cond(fs, fr, x.X, !truth, depth+1)
		}
	case *ssa.BinOp:
		q.comparison(fs, fr, x, truth, depth)
	case *ssa.Phi:
		// the ways that give the other constant are out
		var left []int
		for i, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != truth {
				continue
			}
			left = append(left, i)
		}
		if len(left) == 1 {
			p := x.Block().Preds[left[0]]
			sub := q.facts(point{fr: fr, b: p, to: x.Block()})
			fs.add(sub)
			q.cond(fs, fr, x.Edges[left[0]], truth, depth+1)
		}
	case *ssa.Call:
		q.boolCall(fs, fr, x, truth, depth)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			q.outcome(fs, fr, c, x.Index, tv)
			if truth {
				q.found(fs, fr, c)
			}
		}
	}
}

// found records what a search that succeeded implies.
func (q *prover) found(fs *factSet, fr *pframe, c *ssa.Call) {
	switch calleeOf(&c.Call) {
	case "strings.CutPrefix", "strings.CutSuffix":
		a, k := q.length(fr, c.Call.Args[0])
		b, l := q.length(fr, c.Call.Args[1])
		fs.leq = append(fs.leq, leqFact{b, a, k - l})
	}
}

func (fs *factSet) add(o *factSet) {
	fs.leq = append(fs.leq, o.leq...)
	fs.neq = append(fs.neq, o.neq...)
	fs.alts = append(fs.alts, o.alts...)
	for k, v := range o.known {
		fs.known[k] = v
	}
	for k := range o.even {
		fs.even[k] = true
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (q *prover) comparison(fs *factSet, fr *pframe, x *ssa.BinOp, truth bool, depth int) {
	op := x.Op
	if !truth {
		op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
	}
	l, r := x.X, x.Y
	if isNilConst(l) {
		l, r = r, l
	}
	if isNilConst(r) {
		f2, lv := q.resolve(fr, l)
		what := "nonnil"
		if op == token.EQL {
			what = "nil"
		}
		if op == token.EQL || op == token.NEQ {
			fs.known[q.key(f2, lv)] = what
			if e, ok := lv.(*ssa.Extract); ok {
				if c, ok := e.Tuple.(*ssa.Call); ok {
					q.outcome(fs, f2, c, e.Index, what)
				}
			}
			if c, ok := lv.(*ssa.Call); ok {
				q.outcome(fs, f2, c, 0, what)
			}
			if what == "nonnil" {
				q.matched(fs, f2, lv)
			}
		}
		if op == token.EQL {
			if _, ok := lv.Type().Underlying().(*types.Slice); ok {
				a, k := q.length(f2, lv)
				fs.leq = append(fs.leq, leqFact{a, zeroAtom, -k})
			}
		}
		return
	}
	b, ok := x.X.Type().Underlying().(*types.Basic)
	if !ok {
		return
	}
	switch {
	case b.Info()&types.IsString != 0:
		a, k := q.length(fr, x.X)
		c, m := q.length(fr, x.Y)
		switch op {
		case token.EQL:
			fs.leq = append(fs.leq, leqFact{a, c, m - k}, leqFact{c, a, k - m})
			fs.known["eq "+q.key(fr, x.X)+" "+q.key(fr, x.Y)] = "true"
			fs.known["eq "+q.key(fr, x.Y)+" "+q.key(fr, x.X)] = "true"
		case token.NEQ:
			if s, ok := x.Y.(*ssa.Const); ok && constant.StringVal(s.Value) == "" {
				fs.neq = append(fs.neq, leqFact{a, zeroAtom, -k})
			}
			if s, ok := x.X.(*ssa.Const); ok && constant.StringVal(s.Value) == "" {
				fs.neq = append(fs.neq, leqFact{c, zeroAtom, -m})
			}
		}
	case b.Info()&types.IsBoolean != 0:
		if c, ok := x.Y.(*ssa.Const); ok && (op == token.EQL || op == token.NEQ) {
			q.cond(fs, fr, x.X, constant.BoolVal(c.Value) == (op == token.EQL), depth+1)
		}
	case b.Info()&types.IsInteger != 0:
		q.parityFact(fs, fr, x, op)
		if b.Info()&types.IsUnsigned != 0 && op != token.EQL && op != token.NEQ {
			// uint(i) < uint(n): the one comparison covers both ends
			q.unsigned(fs, fr, x, op)
			return
		}
		a, k := q.lin(fr, x.X)
		c, m := q.lin(fr, x.Y)
		switch op {
		case token.LSS:
			fs.leq = append(fs.leq, leqFact{a, c, m - k - 1})
		case token.LEQ:
			fs.leq = append(fs.leq, leqFact{a, c, m - k})
		case token.GTR:
			fs.leq = append(fs.leq, leqFact{c, a, k - m - 1})
		case token.GEQ:
			fs.leq = append(fs.leq, leqFact{c, a, k - m})
		case token.EQL:
			fs.leq = append(fs.leq, leqFact{a, c, m - k}, leqFact{c, a, k - m})
			fs.known["eq "+q.key(fr, x.X)+" "+q.key(fr, x.Y)] = "true"
		case token.NEQ:
			fs.neq = append(fs.neq, leqFact{a, c, m - k})
		}
	}
}

func (q *prover) unsigned(fs *factSet, fr *pframe, x *ssa.BinOp, op token.Token) {
	src := func(v ssa.Value) ssa.Value {
		if c, ok := v.(*ssa.Convert); ok {
			if b, ok := c.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 {
				return c.X
			}
		}
		return nil
	}
	l, r := src(x.X), src(x.Y)
	if l == nil || r == nil {
		return
	}
	if op == token.GTR || op == token.GEQ {
		l, r = r, l
		op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
	}
	a, k := q.lin(fr, l)
	c, m := q.lin(fr, r)
	if !c.isLen && c.key != "0" {
		return
	}
	if op == token.LSS {
		m--
	}
	fs.leq = append(fs.leq, leqFact{a, c, m - k}, leqFact{zeroAtom, a, k})
}

// parityFact records that a number is known to be even.
func (q *prover) parityFact(fs *factSet, fr *pframe, x *ssa.BinOp, op token.Token) {
	l, r := x.X, x.Y
	if _, ok := l.(*ssa.Const); ok {
		l, r = r, l
	}
	c, ok := r.(*ssa.Const)
	f2, lv := q.resolve(fr, l)
	b, ok2 := lv.(*ssa.BinOp)
	if !ok || !ok2 || c.Value == nil {
		return
	}
	d, ok := b.Y.(*ssa.Const)
	if !ok || d.Value == nil || !(b.Op == token.REM && d.Int64() == 2 || b.Op == token.AND && d.Int64() == 1) {
		return
	}
	n := c.Int64()
	if op == token.EQL && n == 0 || op == token.NEQ && (n == 1 || n == -1) && b.Op == token.AND {
		a, k := q.lin(f2, b.X)
		if k%2 == 0 {
			fs.even[a.key] = true
		}
	}
}

// matched records the number of groups of a match.
func (q *prover) matched(fs *factSet, fr *pframe, v ssa.Value) {}

// boolCall records what a call that gave true or false implies.
func (q *prover) boolCall(fs *factSet, fr *pframe, c *ssa.Call, truth bool, depth int) {
	g := c.Call.StaticCallee()
	if g == nil {
		return
	}
	switch fnName(g) {
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix":
		if truth {
			a, k := q.length(fr, c.Call.Args[0])
			b, l := q.length(fr, c.Call.Args[1])
			fs.leq = append(fs.leq, leqFact{b, a, k - l})
		}
		return
	case "strings.ContainsRune", "strings.ContainsAny", "slices.Contains":
		if truth {
			a, k := q.length(fr, c.Call.Args[0])
			fs.leq = append(fs.leq, leqFact{zeroAtom, a, k - 1})
		}
		return
	}
	tv := "false"
	if truth {
		tv = "true"
	}
	q.outcome(fs, fr, c, 0, tv)
}

// outcome records that result k of a call within the repository was nil,
// nonnil, true or false: one of the returns that can give that was taken.
func (q *prover) outcome(fs *factSet, fr *pframe, c *ssa.Call, k int, what string) {
	alts, ok := q.returns(fr, c, func(j int) string {
		if j == k {
			return what
		}
		return ""
	})
	if !ok {
		return
	}
	if len(alts) == 1 {
		q.gatherReturn(fs, alts[0], k, what)
		return
	}
	if len(alts) > 0 && len(alts) <= 6 {
		fs.alts = append(fs.alts, alts)
	}
}

func (q *prover) gatherReturn(fs *factSet, pt point, k int, what string) {
	fs.add(q.facts(pt))
	ret := pt.b.Instrs[pt.idx].(*ssa.Return)
	if k < len(ret.Results) && (what == "true" || what == "false") {
		q.cond(fs, pt.fr, ret.Results[k], what == "true", 3)
	}
}

// returns lists the returns of the callee that agree with what is known of its
// results.
func (q *prover) returns(fr *pframe, c *ssa.Call, known func(j int) string) ([]point, bool) {
	g := c.Call.StaticCallee()
	if g == nil || g.Blocks == nil || fr.has(g) || fr.depth() > 4 || !isRepoFn(g) || len(g.Blocks) > 60 {
		return nil, false
	}
	ch := q.child(fr, c, g)
	var out []point
	for _, b := range g.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		possible := true
		for j, v := range ret.Results {
			switch known(j) {
			case "nil":
				if q.surelyNot(ch, v, b, true) {
					possible = false
				}
			case "nonnil":
				if isNilConst(v) {
					possible = false
				}
			case "true", "false":
				if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != (known(j) == "true") {
					possible = false
				}
			}
		}
		if possible {
			out = append(out, point{fr: ch, b: b, idx: len(b.Instrs) - 1})
		}
	}
	return out, true
}

// surelyNot tells whether an error or pointer is certainly not nil.
func (q *prover) surelyNot(fr *pframe, v ssa.Value, b *ssa.BasicBlock, local bool) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return q.surelyNot(fr, x.X, b, local)
		}
		return true
	case *ssa.Alloc, *ssa.Function, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeSlice, *ssa.FieldAddr, *ssa.IndexAddr:
		return true
	case *ssa.ChangeInterface:
		return q.surelyNot(fr, x.X, b, local)
	case *ssa.Call:
		switch calleeOf(&x.Call) {
		case "fmt.Errorf", "errors.New":
			return true
		}
		if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil && isRepoFn(g) && len(g.Blocks) < 8 && !fr.has(g) && fr.depth() < 6 {
			ch := q.child(fr, x, g)
			n, all := 0, true
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					n++
					all = all && len(ret.Results) == 1 && q.surelyNot(ch, ret.Results[0], b, false)
				}
			}
			if n > 0 && all {
				return true
			}
		}
	}
	if isNilConst(v) {
		return false
	}
	// a dominating test
	key := q.key(fr, v)
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		p := d.Preds[0]
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.EQL && c.Op != token.NEQ || !isNilConst(c.Y) || q.key(fr, c.X) != key {
			continue
		}
		return (c.Op == token.NEQ) == (d == p.Succs[0])
	}
	return false
}

// inequalities -----------------------------------------------------------------------

type closure struct {
	ids  map[string]int
	at   []atom
	d    [][]int64
	bad  bool // the point is never reached
	even map[string]bool
	fs   *factSet
}

const inf = int64(1) << 50

func (c *closure) id(a atom) int {
	if i, ok := c.ids[a.key]; ok {
		return i
	}
	i := len(c.at)
	c.ids[a.key] = i
	c.at = append(c.at, a)
	for j := range c.d {
		c.d[j] = append(c.d[j], inf)
	}
	row := make([]int64, i+1)
	for j := range row {
		row[j] = inf
	}
	row[i] = 0
	c.d = append(c.d, row)
	return i
}

func (c *closure) put(f leqFact) {
	i, j := c.id(f.a), c.id(f.b)
	if f.k < c.d[i][j] {
		c.d[i][j] = f.k
	}
}

func (q *prover) close(fs *factSet, extra []leqFact, goal ...atom) *closure {
	c := &closure{ids: map[string]int{}, fs: fs}
	c.id(zeroAtom)
	for _, g := range goal {
		c.id(g)
	}
	for _, f := range fs.leq {
		c.put(f)
	}
	for _, f := range fs.neq {
		c.id(f.a)
		c.id(f.b)
	}
	for _, f := range extra {
		c.put(f)
	}
	for i := 0; i < len(c.at) && i < 120; i++ {
		for _, f := range q.defs(c.at[i], fs) {
			c.put(f)
		}
	}
	n := len(c.at)
	for round := 0; round < 3; round++ {
		for k := 0; k < n; k++ {
			for i := 0; i < n; i++ {
				if c.d[i][k] >= inf {
					continue
				}
				for j := 0; j < n; j++ {
					if c.d[k][j] >= inf {
						continue
					}
					if s := c.d[i][k] + c.d[k][j]; s < c.d[i][j] {
						c.d[i][j] = s
					}
				}
			}
		}
		again := false
		for _, f := range fs.neq {
			i, j := c.id(f.a), c.id(f.b)
			if c.d[i][j] == f.k {
				c.d[i][j] = f.k - 1
				again = true
			}
			if c.d[j][i] == -f.k {
				c.d[j][i] = -f.k - 1
				again = true
			}
		}
		if !again {
			break
		}
	}
	for i := 0; i < n; i++ {
		if c.d[i][i] < 0 {
			c.bad = true
		}
	}
	return c
}

// defs are the facts that hold of a number by what it is.
func (q *prover) defs(a atom, fs *factSet) []leqFact {
	if a.key == "0" {
		return nil
	}
	var out []leqFact
	le := func(x atom, y atom, k int64) { out = append(out, leqFact{x, y, k}) }
	fr := a.fr
	if a.isLen {
		le(zeroAtom, a, 0)
		switch x := a.v.(type) {
		case *ssa.Slice:
			c, k := q.length(fr, x.X)
			if isStringT(x.X.Type()) || x.High == nil {
				le(a, c, k)
			}
		case *ssa.BinOp:
			c, k := q.length(fr, x.X)
			le(c, a, -k)
			c, k = q.length(fr, x.Y)
			le(c, a, -k)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				c, k := q.length(fr, x.Call.Args[0])
				le(c, a, -k)
				c, k = q.length(fr, x.Call.Args[1])
				le(c, a, -k)
			}
			arg := func(i int) (atom, int64) { return q.length(fr, x.Call.Args[i]) }
			switch calleeOf(&x.Call) {
			case "strings.Split", "strings.SplitAfter":
				if s, ok := x.Call.Args[1].(*ssa.Const); ok && len(constant.StringVal(s.Value)) > 0 {
					le(zeroAtom, a, -1)
				}
			case "strings.SplitN", "strings.SplitAfterN":
				if s, ok := x.Call.Args[1].(*ssa.Const); ok && len(constant.StringVal(s.Value)) > 0 {
					if n, ok := x.Call.Args[2].(*ssa.Const); ok && n.Int64() != 0 {
						le(zeroAtom, a, -1)
						if n.Int64() > 0 {
							le(a, zeroAtom, n.Int64())
						}
					}
				}
			case "strconv.Quote", "strconv.QuoteToASCII", "strconv.QuoteToGraphic", "strconv.QuoteRune":
				le(zeroAtom, a, -2)
			case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat", "strconv.FormatBool":
				le(zeroAtom, a, -1)
			case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "bytes.TrimSpace":
				c, k := arg(0)
				le(a, c, k)
			}
			if g := x.Call.StaticCallee(); g != nil && strings.HasPrefix(fnName(g), "(*regexp.Regexp).FindStringSubmatch") {
				if n, ok := q.groups(fr, x.Call.Args[0]); ok && fs.known[q.key(fr, x)] == "nonnil" {
					le(zeroAtom, a, -n)
					le(a, zeroAtom, n)
				}
			}
		}
		return out
	}
	switch x := a.v.(type) {
	case *ssa.Call:
		args := x.Call.Args
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "min":
				for _, y := range args {
					c, k := q.lin(fr, y)
					le(a, c, k)
				}
			case "max":
				for _, y := range args {
					c, k := q.lin(fr, y)
					le(c, a, -k)
				}
			case "cap":
				c, k := q.length(fr, args[0])
				le(c, a, -k)
			case "copy":
				le(zeroAtom, a, 0)
				for _, y := range args {
					c, k := q.length(fr, y)
					le(a, c, k)
				}
			}
			return out
		}
		n := calleeOf(&x.Call)
		if i := strings.IndexByte(n, '['); i >= 0 {
			n = n[:i]
		}
		switch n {
		case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
			le(zeroAtom, a, 1)
			c, k := q.length(fr, args[0])
			m := int64(0)
			if s, ok := args[1].(*ssa.Const); ok && s.Value != nil && s.Value.Kind() == constant.String {
				m = int64(len(constant.StringVal(s.Value)))
			}
			if m > 0 {
				// found: index + m <= length; not found: -1 < length
				c2 := k - m
				if c2 < -1 {
					c2 = -1
				}
				if q.geq0(fs, a) {
					c2 = k - m
				}
				le(a, c, c2)
			} else {
				le(a, c, k)
			}
		case "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc", "strings.LastIndexByte", "strings.LastIndexAny", "strings.LastIndexFunc",
			"bytes.IndexByte", "bytes.IndexAny", "bytes.IndexFunc", "bytes.LastIndexByte", "slices.Index", "slices.IndexFunc":
			le(zeroAtom, a, 1)
			c, k := q.length(fr, args[0])
			le(a, c, k-1)
		case "sort.Search":
			le(zeroAtom, a, 0)
			c, k := q.lin(fr, args[0])
			le(a, c, k)
		case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount", "strings.Count":
			le(zeroAtom, a, 0)
		}
		if strings.HasSuffix(n, ").Len") || strings.HasSuffix(n, ").NumIn") || strings.HasSuffix(n, ").NumField") {
			le(zeroAtom, a, 0)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if t.IsString && x.Index == 1 {
				le(zeroAtom, a, 0)
				if r, ok := t.Iter.(*ssa.Range); ok {
					c, k := q.length(fr, r.X)
					le(a, c, k-1)
				}
			}
		case *ssa.Call:
			switch calleeOf(&t.Call) {
			case "unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune", "unicode/utf8.DecodeLastRuneInString":
				if x.Index == 1 {
					le(zeroAtom, a, 0)
					c, k := q.length(fr, t.Call.Args[0])
					le(a, c, k)
				}
			case "slices.BinarySearch", "sort.Find":
				if x.Index == 0 {
					le(zeroAtom, a, 0)
					c, k := q.length(fr, t.Call.Args[0])
					le(a, c, k)
				}
			}
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.REM:
			c, k := q.lin(fr, x.Y)
			n, m := q.lin(fr, x.X)
			if q.below(fs, zeroAtom, n, m) {
				le(zeroAtom, a, 0)
				le(a, n, m)
				if c.key != "0" || k > 0 {
					le(a, c, k-1)
				}
			} else if c.key == "0" && k > 0 {
				le(a, zeroAtom, k-1)
				le(zeroAtom, a, k-1)
			}
		case token.QUO, token.SHR:
			n, m := q.lin(fr, x.X)
			if q.below(fs, zeroAtom, n, m) {
				le(zeroAtom, a, 0)
				le(a, n, m)
			}
		case token.AND:
			for _, y := range []ssa.Value{x.X, x.Y} {
				if c, ok := y.(*ssa.Const); ok && c.Value != nil && c.Int64() >= 0 {
					le(zeroAtom, a, 0)
					le(a, zeroAtom, c.Int64())
				}
			}
		case token.SUB:
			c, k := q.lin(fr, x.X)
			n, m := q.lin(fr, x.Y)
			if q.below(fs, zeroAtom, n, m) {
				le(a, c, k)
			}
			if q.below(fs, n, c, k-m) {
				le(zeroAtom, a, 0)
			}
		case token.ADD:
			c, k := q.lin(fr, x.X)
			n, m := q.lin(fr, x.Y)
			if q.below(fs, zeroAtom, n, m) {
				le(c, a, -k)
			}
			if q.below(fs, zeroAtom, c, k) {
				le(n, a, -m)
			}
		case token.MUL:
			c, k := q.lin(fr, x.X)
			n, m := q.lin(fr, x.Y)
			if q.below(fs, zeroAtom, n, m) && q.below(fs, zeroAtom, c, k) {
				le(zeroAtom, a, 0)
			}
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 && (b.Kind() == types.Uint8 || b.Kind() == types.Uint16 || b.Kind() == types.Uint32) {
			le(zeroAtom, a, 0)
			if b.Kind() == types.Uint8 {
				le(a, zeroAtom, 255)
			}
		}
	}
	if b, ok := a.v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		le(zeroAtom, a, 0)
	}
	return out
}

// below is a <= b + k from the conditions at hand alone.
func (q *prover) below(fs *factSet, a, b atom, k int64) bool {
	if a.key == b.key {
		return k >= 0
	}
	if a.key == "0" && b.isLen && k >= 0 {
		return true
	}
	for _, f := range fs.leq {
		if f.a.key == a.key && f.b.key == b.key && f.k <= k {
			return true
		}
		// through one more fact
		if f.a.key == a.key {
			for _, g := range fs.leq {
				if g.a.key == f.b.key && g.b.key == b.key && f.k+g.k <= k {
					return true
				}
			}
		}
	}
	return false
}

func (q *prover) geq0(fs *factSet, a atom) bool {
	if q.below(fs, zeroAtom, a, 0) {
		return true
	}
	for _, f := range fs.neq {
		if f.a.key == a.key && f.b.key == "0" && f.k == -1 {
			return true
		}
	}
	return false
}

// groups is the number of parts a match of the expression has.
func (q *prover) groups(fr *pframe, v ssa.Value) (int64, bool) {
	_, v = q.resolve(fr, v)
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			for _, f := range q.funcs {
				if !isInit(f) || f.Pkg != g.Pkg {
					continue
				}
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if s, ok := i.(*ssa.Store); ok && s.Addr == g {
							v = s.Val
						}
					}
				}
			}
		}
	}
	c, ok := v.(*ssa.Call)
	if !ok || calleeOf(&c.Call) != "regexp.MustCompile" {
		return 0, false
	}
	s, ok := c.Call.Args[0].(*ssa.Const)
	if !ok {
		return 0, false
	}
	return groupCount(constant.StringVal(s.Value))
}

// leq proves a <= b + k at pt.
func (q *prover) leq(a, b atom, k int64, pt point, depth int) bool {
	q.steps++
	if q.steps > 20000 {
		return false
	}
	fs := q.facts(pt)
	return q.leqIn(a, b, k, pt, fs, depth)
}

func (q *prover) leqIn(a, b atom, k int64, pt point, fs *factSet, depth int) bool {
	c := q.close(fs, q.assumed(pt), a, b)
	i, j := c.id(a), c.id(b)
	if c.bad || c.d[i][j] <= k {
		return true
	}
	if depth <= 0 {
		return false
	}
	// parity
	if c.d[i][j] == k+1 {
		pa, oka := q.parity(a, pt, fs, 4)
		pb, okb := q.parity(b, pt, fs, 4)
		if oka && okb && (pa+pb+k+1)&1 != 0 {
			return true
		}
	}
	for y := range c.at {
		if d := c.d[i][y]; d < inf && c.at[y].v != nil && q.expand(c.at[y], b, k-d, pt, fs, depth, true) {
			return true
		}
	}
	for y := range c.at {
		if d := c.d[y][j]; d < inf && c.at[y].v != nil && q.expand(c.at[y], a, k-d, pt, fs, depth, false) {
			return true
		}
	}
	// one of several ways was taken
	for n, alts := range fs.alts {
		ok := true
		for _, alt := range alts {
			sub := &factSet{known: map[string]string{}, even: map[string]bool{}}
			sub.add(q.facts(alt))
			rest := sub.alts
			sub.alts = nil
			sub.add(fs)
			sub.alts = append(append([][]point{}, rest...), append(append([][]point{}, fs.alts[:n]...), fs.alts[n+1:]...)...)
			if len(sub.alts) > 8 {
				sub.alts = sub.alts[:8]
			}
			nd := depth - 2
			if nd < 0 {
				nd = 0
			}
			q.steps++
			if q.steps > 20000 || !q.leqIn(a, b, k, pt, sub, nd) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// expand proves y <= o + k (up) or o <= y + k by the definition of y.
func (q *prover) expand(y, o atom, k int64, pt point, fs *factSet, depth int, up bool) bool {
	if y.key == o.key {
		return false
	}
	part := func(fr *pframe, v ssa.Value) (atom, int64) {
		if y.isLen {
			return q.length(fr, v)
		}
		return q.lin(fr, v)
	}
	try := func(e atom, m int64, at point, other atom) bool {
		if up {
			return q.leq(e, other, k-m, at, depth-1)
		}
		return q.leq(other, e, k+m, at, depth-1)
	}
	switch x := y.v.(type) {
	case *ssa.Phi:
		op, samePhi := o.v.(*ssa.Phi)
		samePhi = samePhi && o.fr == y.fr && op.Block() == x.Block()
		if !samePhi && !q.invariant(o, y.fr, x.Block()) {
			return false
		}
		h := leqFact{y, o, k}
		if !up {
			h = leqFact{o, y, k}
		}
		for _, g := range q.hyp {
			if g.a.key == h.a.key && g.b.key == h.b.key {
				return false // already being proved, and what is assumed did not do
			}
		}
		n := len(q.hyp)
		q.hyp = append(q.hyp, h)
		defer func() { q.hyp = q.hyp[:n] }()
		for i, e := range x.Edges {
			p := x.Block().Preds[i]
			ea, em := part(y.fr, e)
			other := o
			kk := k
			if samePhi {
				oa, om := zeroAtom, int64(0)
				if o.isLen {
					oa, om = q.length(o.fr, op.Edges[i])
				} else {
					oa, om = q.lin(o.fr, op.Edges[i])
				}
				other = oa
				if up {
					kk = k + om
				} else {
					kk = k - om
				}
			}
			at := point{fr: y.fr, b: p, to: x.Block()}
			var ok bool
			if up {
				ok = q.leq(ea, other, kk-em, at, depth-1)
			} else {
				ok = q.leq(other, ea, kk+em, at, depth-1)
			}
			if !ok {
				return false
			}
		}
		return true
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		return q.viaCall(y, c, x.Index, fs, part, func(e atom, m int64, at point) bool { return try(e, m, at, o) })
	case *ssa.Call:
		return q.viaCall(y, x, 0, fs, part, func(e atom, m int64, at point) bool { return try(e, m, at, o) })
	}
	return false
}

func (q *prover) viaCall(y atom, c *ssa.Call, k int, fs *factSet, part func(*pframe, ssa.Value) (atom, int64), try func(atom, int64, point) bool) bool {
	known := map[int]string{}
	if c.Referrers() != nil {
		for _, r := range *c.Referrers() {
			if e, ok := r.(*ssa.Extract); ok {
				known[e.Index] = fs.known[q.key(y.fr, e)]
			}
		}
	}
	rets, ok := q.returns(y.fr, c, func(j int) string { return known[j] })
	if !ok || len(rets) == 0 {
		return false
	}
	for _, r := range rets {
		ret := r.b.Instrs[r.idx].(*ssa.Return)
		e, m := part(r.fr, ret.Results[k])
		if !try(e, m, r) {
			return false
		}
	}
	return true
}

// outside tells whether the values of frame in are the same whenever block b
// of frame fr is entered: it surrounds fr, or is a call before b.
func (q *prover) outside(in, fr *pframe, b *ssa.BasicBlock) bool {
	for f := fr; f != nil; f = f.up {
		if f == in {
			return true
		}
	}
	for f := in; f != nil && f.up != nil; f = f.up {
		if f.up == fr {
			var at *ssa.BasicBlock
			if f.site != nil {
				at = f.site.Block()
			} else {
				at = f.mk.Block()
			}
			return at != b && at.Dominates(b)
		}
	}
	return false
}

// assumed are the induction hypotheses that hold at a point: those about
// numbers that have been computed on every way there.
func (q *prover) assumed(pt point) []leqFact {
	var out []leqFact
	for _, h := range q.hyp {
		ok := true
		for _, a := range []atom{h.a, h.b} {
			if x, is := a.v.(*ssa.Phi); is && !q.computed(a.fr, x.Block(), pt) {
				ok = false
			}
		}
		if ok {
			out = append(out, h)
		}
	}
	return out
}

func (q *prover) computed(fr *pframe, b *ssa.BasicBlock, pt point) bool {
	at := pt.b
	for f := pt.fr; f != nil; f = f.up {
		if f == fr {
			return b.Dominates(at)
		}
		if f.site != nil {
			at = f.site.Block()
		} else if f.mk != nil {
			at = f.mk.Block()
		}
	}
	return false
}

// invariant tells whether a number is the same whenever block b of the pframe is
// entered, once it is reached.
func (q *prover) invariant(a atom, fr *pframe, b *ssa.BasicBlock) bool {
	if a.v == nil {
		return true
	}
	if a.fr != fr {
		return q.outside(a.fr, fr, b)
	}
	return q.fixed(fr, a.v, b, 0)
}

func (q *prover) fixed(fr *pframe, v ssa.Value, b *ssa.BasicBlock, depth int) bool {
	f2, w := q.resolve(fr, v)
	if f2 != fr {
		return q.outside(f2, fr, b)
	}
	i, ok := w.(ssa.Instruction)
	if !ok {
		return true
	}
	if i.Block() != b && i.Block().Dominates(b) {
		return true
	}
	if depth > 6 {
		return false
	}
	switch x := w.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL && q.stable(fr, x.X) && q.fixed(fr, x.X, b, depth+1)
	case *ssa.FieldAddr:
		return q.fixed(fr, x.X, b, depth+1)
	case *ssa.Field:
		return q.fixed(fr, x.X, b, depth+1)
	case *ssa.IndexAddr:
		return q.fixed(fr, x.X, b, depth+1) && q.fixed(fr, x.Index, b, depth+1)
	case *ssa.BinOp:
		return q.fixed(fr, x.X, b, depth+1) && q.fixed(fr, x.Y, b, depth+1)
	case *ssa.TypeAssert:
		return q.fixed(fr, x.X, b, depth+1)
	case *ssa.Extract:
		if t, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return q.fixed(fr, t.X, b, depth+1)
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return q.fixed(fr, x.Call.Args[0], b, depth+1)
		}
	}
	return false
}

// parity of a number, if known.
func (q *prover) parity(a atom, pt point, fs *factSet, depth int) (int64, bool) {
	if a.key == "0" {
		return 0, true
	}
	if fs.even[a.key] {
		return 0, true
	}
	if depth == 0 {
		return 0, false
	}
	if a.isLen {
		if q.pairs(a, fs) {
			return 0, true
		}
		return 0, false
	}
	if x, ok := a.v.(*ssa.Phi); ok {
		res := int64(-1)
		for _, e := range x.Edges {
			b, k := q.lin(a.fr, e)
			if b.key == a.key {
				if k&1 != 0 {
					return 0, false
				}
				continue
			}
			p, ok := q.parity(b, pt, fs, depth-1)
			if !ok {
				return 0, false
			}
			p = (p + k) & 1
			if res >= 0 && res != p {
				return 0, false
			}
			res = p
		}
		if res < 0 {
			return 0, false
		}
		return res, true
	}
	if x, ok := a.v.(*ssa.BinOp); ok && x.Op == token.MUL {
		for _, y := range []ssa.Value{x.X, x.Y} {
			if c, ok := y.(*ssa.Const); ok && c.Int64()&1 == 0 {
				return 0, true
			}
		}
	}
	return 0, false
}

// pairs: the content of a YAML mapping node consists of keys and values.
func (q *prover) pairs(a atom, fs *factSet) bool {
	u, ok := a.v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok || fieldName(fa) != "Content" || !strings.HasSuffix(fieldKey(fa), "yaml.Node.Content") && !strings.Contains(fieldKey(fa), "yaml.v3.Node.") {
		return false
	}
	base := q.key(a.fr, fa.X)
	for _, n := range []string{"4"} { // MappingNode
		if fs.known["eq *"+base+".Kind c"+n] == "true" {
			return true
		}
	}
	return false
}

// calleeOf names the function called, if it is known.
func calleeOf(c *ssa.CallCommon) string {
	g := c.StaticCallee()
	if g == nil {
		return ""
	}
	n := fnName(g)
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	return n
}
