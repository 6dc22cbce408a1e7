package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C29", Min: 150, Rule: "Over the call graph of the YAML package: every exported function from which a panic with the internal failure type can be reached has deferred the handler that turns it into the returned error, before any call that can fail that way; every call of a parser, scanner or emitter step that can fail is followed on its failing side by failure of the caller, and a step that records an error fails; every error result is used; nesting depth is limited and an alias inside its own value is an error. No other explicit panic exists in the YAML package than its listed assertions, and none in the evaluation packages.", Run: runC29})
}

// assertions are the panics of the YAML package that mark states its code
// excludes, by the constant text they start with.
var assertions = []string{
	"must set the input source only once", "must set the encoding only once", "must set the output target only once", "must set the output encoding only once",
	"failed to initialize YAML emitter", "internal error: ", "yaml internal error: please report the issue", "unknown line break setting", "unknown character width",
	"invalid emitter state", "unknown scalar style", "cannot marshal type: ", "cannot have key ", "invalid parser state", "read handler must be set", "impossible",
	"invalid character sequence",
	"iszero", // given the value of an object only, as C38 decides
	"not a number", "write handler not set", "yaml: cannot indent to a negative number of spaces",
}

type yamlCheck struct {
	r       *Report
	p       *Program
	s       *shared
	funcs   []*ssa.Function
	signal  types.Type // the failure type
	handler map[*ssa.Function]bool
	escapes map[*ssa.Function]ssa.Instruction
	fall    map[*ssa.Function]bool // steps that can fail
	never   map[*ssa.Function]bool // steps that always fail
}

func runC29(r *Report) {
	p := r.P
	y := &yamlCheck{r: r, p: p, s: newShared(p), handler: map[*ssa.Function]bool{}, escapes: map[*ssa.Function]ssa.Instruction{}, fall: map[*ssa.Function]bool{}, never: map[*ssa.Function]bool{}}
	for _, f := range y.s.funcs {
		if pk := fnPkg(f); pk.Path() == modPath+"/internal/yaml" {
			y.funcs = append(y.funcs, f)
		}
	}
	if len(y.funcs) == 0 {
		anchorf("the YAML package has no functions")
	}
	r.guard("failures are turned into errors", "handler", y.handlers)
	y.panics()
	y.boundary()
	y.steps()
	y.errors()
	y.depth()
	r.note("functions", len(y.funcs))
}

// handlers finds the failure type and the functions that recover from it.
func (y *yamlCheck) handlers() {
	const rule = "failures are turned into errors"
	for _, f := range y.funcs {
		var rec *ssa.Call
		callsOf(f, func(i ssa.Instruction, c *ssa.CallCommon) {
			if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
				rec, _ = i.(*ssa.Call)
			}
		})
		if rec == nil {
			continue
		}
		y.handler[f] = true
		var as *ssa.TypeAssert
		for _, u := range *rec.Referrers() {
			if t, ok := u.(*ssa.TypeAssert); ok {
				as = t
			}
		}
		if as == nil || types.IsInterface(as.AssertedType) {
			continue
		}
		if y.signal != nil && !types.Identical(y.signal, as.AssertedType) {
			anchorf("two failure types, %s and %s", y.signal, as.AssertedType)
		}
		y.signal = as.AssertedType
		y.handled(f, rec)
	}
	if y.signal == nil {
		anchorf("no function recovers from a failure type")
	}
	y.r.ok(rule, "failure type "+y.signal.String(), "")
}

// handled: whenever something is recovered, the error is set or the panic goes on.
func (y *yamlCheck) handled(f *ssa.Function, rec *ssa.Call) {
	const rule = "failures are turned into errors"
	if len(f.Params) != 1 {
		y.r.fail(rule, fnName(f), y.p.pos(f.Pos()), "the handler takes %d arguments", len(f.Params))
		return
	}
	// blocks in which the error parameter is assigned something recovered
	set := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && s.Addr == f.Params[0] {
				if c, isC := s.Val.(*ssa.Const); !isC || !c.IsNil() {
					set[b] = true
				}
			}
		}
	}
	bad := ""
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || set[b] {
			return
		}
		seen[b] = true
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			bad = y.p.instrPos(t) + ": returns with something recovered but no error set"
		case *ssa.If:
			// nothing was recovered on the side on which the value is nil
			if q, ok := t.Cond.(*ssa.BinOp); ok && (q.X == rec || q.Y == rec) {
				if q.Op == token.NEQ {
					walk(b.Succs[0])
				} else {
					walk(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(f.Blocks[0])
	y.r.check(bad == "", rule, fnName(f), y.p.pos(f.Pos()), "%s", bad)
}

func (y *yamlCheck) isSignal(x *ssa.Panic) bool {
	m, ok := x.X.(*ssa.MakeInterface)
	return ok && y.signal != nil && types.Identical(m.X.Type(), y.signal)
}

// panics checks every explicit panic.
func (y *yamlCheck) panics() {
	const rule = "panics are failure signals or listed assertions"
	n := map[string]int{}
	for _, f := range y.s.funcs {
		inYaml := fnPkg(f).Path() == modPath+"/internal/yaml"
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				x, ok := i.(*ssa.Panic)
				if !ok {
					continue
				}
				text := panicText(x.X)
				con := fmt.Sprintf("panic in %s", fnName(f))
				if n[con]++; n[con] > 1 {
					con += fmt.Sprintf(" #%d", n[con])
				}
				good := false
				switch {
				case inYaml && (y.isSignal(x) || y.handler[f]):
					good = true
				case inYaml && fromCall(x.X, "getStructInfo"):
					good = true // about the Go type given, not about a document
				default:
					for _, a := range assertions {
						good = good || inYaml == (a != "iszero") && text != "" && strings.HasPrefix(text, a)
					}
				}
				y.r.check(good, rule, con, y.p.instrPos(i), "panics with %q, which nothing turns into an error", text)
			}
		}
	}
}

func panicText(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return panicText(x.X)
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value)
		}
	case *ssa.BinOp:
		return panicText(x.X)
	case *ssa.Call:
		if name, _, _ := calleeSig(&x.Call); strings.HasPrefix(name, "fmt.") && len(x.Call.Args) > 0 {
			return panicText(x.Call.Args[0])
		}
	}
	return ""
}

func fromCall(v ssa.Value, name string) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return fromCall(x.X, name)
	case *ssa.ChangeInterface:
		return fromCall(x.X, name)
	case *ssa.Extract:
		return fromCall(x.Tuple, name)
	case *ssa.Call:
		n, _, _ := calleeSig(&x.Call)
		return strings.HasSuffix(n, "."+name)
	}
	return false
}

// covered tells whether a handler was deferred before an instruction.
func (y *yamlCheck) covered(f *ssa.Function, at ssa.Instruction) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			d, ok := i.(*ssa.Defer)
			if !ok || !before(d, at) {
				continue
			}
			if y.converts(f, &d.Call) {
				return true
			}
		}
	}
	return false
}

// converts tells whether a deferred call is the handler for the error result
// of the function itself.
func (y *yamlCheck) converts(f *ssa.Function, c *ssa.CallCommon) bool {
	g := c.StaticCallee()
	if g == nil {
		return false
	}
	var target ssa.Value
	switch {
	case y.handler[g] && len(c.Args) == 1:
		target = c.Args[0]
	default:
		return false
	}
	// what is returned after a recovered panic is what the handler assigned
	if f.Recover == nil {
		return false
	}
	for _, i := range f.Recover.Instrs {
		if t, ok := i.(*ssa.Return); ok && len(t.Results) > 0 {
			l, ok := t.Results[len(t.Results)-1].(*ssa.UnOp)
			return ok && l.X == target
		}
	}
	return false
}

// boundary computes which functions let a failure signal out.
func (y *yamlCheck) boundary() {
	const rule = "no failure signal leaves the package"
	for again := true; again; {
		again = false
		for _, f := range y.funcs {
			if y.escapes[f] != nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					out := false
					switch x := i.(type) {
					case *ssa.Panic:
						out = y.isSignal(x)
					case ssa.CallInstruction:
						fs, _ := y.s.callees(x.Common())
						for _, g := range fs {
							out = out || y.escapes[g] != nil
						}
						if y.handler[f] {
							out = false
						}
					}
					if out && y.escapes[f] == nil && !y.covered(f, i) {
						y.escapes[f] = i
						again = true
					}
				}
			}
		}
	}
	used := map[*ssa.Function]bool{}
	for f := range allFuncs(y.p) {
		if k := fnPkg(f); k == nil || k.Path() == modPath+"/internal/yaml" {
			continue
		}
		callsOf(f, func(i ssa.Instruction, c *ssa.CallCommon) {
			if g := c.StaticCallee(); g != nil {
				used[g] = true
			}
		})
	}
	n := 0
	for _, f := range y.funcs {
		if f.Parent() != nil || f.Synthetic != "" || !token.IsExported(f.Name()) {
			continue
		}
		if rc := f.Signature.Recv(); rc != nil {
			t := rc.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if nt, ok := t.(*types.Named); ok && !nt.Obj().Exported() {
				continue
			}
		}
		if !used[f] {
			continue // not an entry point of this program
		}
		n++
		at := y.escapes[f]
		msg, pos := "", y.p.pos(f.Pos())
		if at != nil {
			pos = y.p.instrPos(at)
			msg = "a failure reaches the caller as a panic through " + y.path(f)
		}
		y.r.check(at == nil, rule, fnName(f), pos, "%s", msg)
	}
	y.r.note("exported_functions", n)
	y.r.note("signalling_functions", len(y.escapes))
}

func (y *yamlCheck) path(f *ssa.Function) string {
	var out []string
	for d := 0; f != nil && d < 12; d++ {
		out = append(out, f.Name())
		at, ok := y.escapes[f].(ssa.CallInstruction)
		if !ok {
			break
		}
		fs, _ := y.s.callees(at.Common())
		f = nil
		for _, g := range fs {
			if y.escapes[g] != nil {
				f = g
				break
			}
		}
	}
	return strings.Join(out, " > ")
}

// steps: the parser, scanner and emitter record an error and return false.
func (y *yamlCheck) steps() {
	const rule = "a failed step fails its caller"
	state := func(f *ssa.Function) bool {
		if len(f.Params) == 0 || f.Signature.Results().Len() == 0 {
			return false
		}
		p, ok := f.Params[0].Type().(*types.Pointer)
		return ok && errorField(p.Elem()) >= 0 && failValue(f.Signature.Results())
	}
	records := map[*ssa.Function]ssa.Instruction{}
	for _, f := range y.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && recordsError(s) {
					records[f] = s
					if state(f) {
						y.fall[f] = true
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, f := range y.funcs {
			if y.fall[f] || !state(f) {
				continue
			}
			callsOf(f, func(i ssa.Instruction, c *ssa.CallCommon) {
				if g := c.StaticCallee(); g != nil && y.fall[g] {
					y.fall[f] = true
					again = true
				}
			})
		}
	}
	// steps that fail whatever happens
	for again := true; again; {
		again = false
		for _, f := range y.funcs {
			if !y.fall[f] || y.never[f] {
				continue
			}
			all := true
			for _, b := range f.Blocks {
				t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				v := t.Results[len(t.Results)-1]
				c, isCall := v.(*ssa.Call)
				all = all && (isFailConst(v) || isCall && c.Call.StaticCallee() != nil && y.never[c.Call.StaticCallee()])
			}
			if all {
				y.never[f] = true
				again = true
			}
		}
	}
	y.r.note("fallible_steps", len(y.fall))
	y.r.check(len(y.fall) >= 20, rule, "steps", "", "only %d functions record failures", len(y.fall))
	n := 0
	for _, f := range y.funcs {
		if at := records[f]; at != nil {
			ok := y.fails(at, nil)
			y.r.check(ok, "recording an error fails the step", fnName(f), y.p.instrPos(at), "after the error is recorded the function can go on as if it had succeeded")
		}
		if f.Synthetic != "" {
			continue
		}
		count := map[string]int{}
		callsOf(f, func(i ssa.Instruction, c *ssa.CallCommon) {
			g := c.StaticCallee()
			if g == nil || !y.fall[g] {
				return
			}
			n++
			v, _ := i.(*ssa.Call)
			con := g.Name() + " in " + fnName(f)
			if count[con]++; count[con] > 1 {
				con += fmt.Sprintf(" #%d", count[con])
			}
			if v == nil {
				y.r.fail(rule, con, y.p.instrPos(i), "the result of a deferred step is lost")
				return
			}
			why := y.consumed(v)
			if why != "" && y.readAhead(f, g, v) {
				why = ""
			}
			y.r.check(why == "", rule, con, y.p.instrPos(i), "%s", why)
		})
	}
	y.r.note("step_calls", n)
}

// readAhead tells whether a failure may be left to the next step, which meets
// it again: looking ahead for comments by a variable distance, a look at the
// next token in a function that has no outcome of its own, and the token that
// was already there when a state was entered.
func (y *yamlCheck) readAhead(f, g *ssa.Function, v *ssa.Call) bool {
	if f.Signature.Results().Len() == 0 {
		_, ptr := g.Signature.Results().At(0).Type().(*types.Pointer)
		return ptr
	}
	if strings.Contains(f.Name(), "comment") && len(v.Call.Args) == 2 {
		_, isC := v.Call.Args[1].(*ssa.Const)
		return !isC
	}
	if len(v.Block().Preds) == 1 {
		i, ok := v.Block().Preds[0].Instrs[len(v.Block().Preds[0].Instrs)-1].(*ssa.If)
		if ok && v.Block().Preds[0].Succs[0] == v.Block() {
			p, ok := i.Cond.(*ssa.Parameter)
			_, ptr := v.Type().(*types.Pointer)
			return ok && ptr && p.Parent() == f
		}
	}
	return false
}

func errorField(t types.Type) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Name() == "error" {
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return i
			}
		}
	}
	return -1
}

// failValue: the last result is a truth value or a pointer, false and nil
// standing for failure.
func failValue(t *types.Tuple) bool {
	switch u := t.At(t.Len() - 1).Type().Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.Bool
	case *types.Pointer:
		return true
	}
	return false
}

func recordsError(s *ssa.Store) bool {
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok || errorField(p.Elem()) != fa.Field {
		return false
	}
	c, isC := s.Val.(*ssa.Const)
	return !isC || c.Value == nil || constant.Sign(c.Value) != 0
}

func isFailConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	return c.Value == nil || c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value)
}

func after(i ssa.Instruction) int {
	for k, j := range i.Block().Instrs {
		if j == i {
			return k + 1
		}
	}
	return 0
}

// consumed tells why the outcome of a step is not passed on; "" if it is.
func (y *yamlCheck) consumed(v *ssa.Call) string {
	var out ssa.Value = v
	if t, ok := v.Type().(*types.Tuple); ok {
		out = nil
		for _, u := range *v.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && e.Index == t.Len()-1 {
				out = e
			}
			if _, ok := u.(*ssa.Return); ok {
				return ""
			}
		}
		if out == nil {
			return "the outcome of the step is dropped"
		}
	}
	if y.never[v.Call.StaticCallee()] && len(live(out)) == 0 {
		if y.fails(v, nil) {
			return ""
		}
	}
	if len(live(out)) == 0 {
		return "the outcome of the step is dropped"
	}
	if !y.fails(v, out) {
		return "after the step failed the function can go on as if it had succeeded"
	}
	return ""
}

func live(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, u := range *v.Referrers() {
		if _, d := u.(*ssa.DebugRef); !d {
			out = append(out, u)
		}
	}
	return out
}

// A truth is what is known of a value on a path: the outcome of a failed step
// is false (or nil), and what is computed from it follows.
type truth map[ssa.Value]bool

func (t truth) with(v ssa.Value, b bool) truth {
	n := truth{}
	for k, x := range t {
		n[k] = x
	}
	n[v] = b
	return n
}

func (t truth) key() string {
	var ks []string
	for k, b := range t {
		ks = append(ks, fmt.Sprintf("%p%v", k, b))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// of gives the known truth of a value.
func (t truth) of(v ssa.Value) (val, known bool) {
	if b, ok := t[v]; ok {
		return b, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return false, true
		}
		if x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := t.of(x.X)
			return !b, ok
		}
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false, false
		}
		l, okL := t.of(x.X)
		r, okR := t.of(x.Y)
		if okL && okR {
			return (l == r) == (x.Op == token.EQL), true
		}
	}
	return false, false
}

type yamlPath struct {
	y    *yamlCheck
	call ssa.Instruction
	seen map[string]bool
	n    int
}

// fails tells whether after an instruction, its outcome being false, every way
// on makes the function fail.
func (y *yamlCheck) fails(at ssa.Instruction, out ssa.Value) bool {
	t := truth{}
	if out != nil {
		t[out] = false
	}
	w := &yamlPath{y: y, call: at, seen: map[string]bool{}}
	return w.walk(at.Block(), after(at), t)
}

func (w *yamlPath) walk(b *ssa.BasicBlock, start int, t truth) bool {
	if w.n++; w.n > 20000 {
		return false
	}
	y := w.y
	for _, i := range b.Instrs[start:] {
		if i == w.call {
			return false // the step is tried again, its outcome forgotten
		}
		switch x := i.(type) {
		case *ssa.Panic:
			return true
		case *ssa.Call:
			if g := x.Call.StaticCallee(); g != nil {
				if y.diverges(g, 0) || y.signals(g, x, t) {
					return true
				}
			}
		case *ssa.Store:
			if c, ok := t.of(x.Val); ok && boolean(x.Val.Type()) {
				t = t.with(x.Addr, c)
			} else if _, had := t[x.Addr]; had {
				n := t.with(x.Addr, false)
				delete(n, x.Addr)
				t = n
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if c, ok := t[x.X]; ok {
					t = t.with(x, c)
				} else if _, ok := t[x]; ok {
					n := t.with(x, false)
					delete(n, x)
					t = n
				}
			}
		case *ssa.Return:
			if len(x.Results) == 0 {
				// a closure that changes the result of the function around it
				for v, c := range t {
					if _, ok := v.(*ssa.FreeVar); ok && !c {
						return true
					}
				}
				return false
			}
			v := x.Results[len(x.Results)-1]
			if c, ok := t.of(v); ok && !isErrorT(v.Type()) {
				return !c
			}
			if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil && y.never[c.Call.StaticCallee()] {
				return true
			}
			if isErrorT(v.Type()) {
				c, isC := v.(*ssa.Const)
				return !isC || !c.IsNil()
			}
			return false
		}
	}
	if len(b.Succs) == 0 {
		return false
	}
	next := b.Succs
	if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		if c, ok := t.of(f.Cond); ok {
			if c {
				next = next[:1]
			} else {
				next = next[1:]
			}
		}
	}
	for _, s := range next {
		u := t
		for _, i := range s.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			for k, p := range s.Preds {
				if p != b {
					continue
				}
				if c, ok := t.of(ph.Edges[k]); ok {
					u = u.with(ph, c)
				} else if _, had := u[ph]; had {
					u = u.with(ph, false)
					delete(u, ph)
				}
			}
		}
		k := fmt.Sprint(s.Index, " ", u.key())
		if w.seen[k] {
			continue
		}
		w.seen[k] = true
		if !w.walk(s, 0, u) {
			return false
		}
	}
	return true
}

func boolean(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// signals: the outcome is handed to a function that does not return when it
// is false.
func (y *yamlCheck) signals(g *ssa.Function, c *ssa.Call, t truth) bool {
	if g.Blocks == nil || !isModule(g) {
		return false
	}
	for k, a := range c.Call.Args {
		if b, ok := t[a]; !ok || b || k >= len(g.Params) || !boolean(g.Params[k].Type()) {
			continue
		}
		w := &yamlPath{y: y, call: c, seen: map[string]bool{}}
		if w.walk(g.Blocks[0], 0, truth{g.Params[k]: false}) {
			return true
		}
	}
	return false
}

// diverges: the function never returns to its caller.
func (y *yamlCheck) diverges(f *ssa.Function, d int) bool {
	if f.Blocks == nil || d > 4 || !isModule(f) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Panic:
				return true
			case *ssa.Return:
				return false
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && y.diverges(g, d+1) {
					return true
				}
			}
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return len(b.Succs) > 0
	}
	return walk(f.Blocks[0])
}

// errors: error values within the package are looked at.
func (y *yamlCheck) errors() {
	const rule = "errors within the package are used"
	var con []string
	for _, f := range y.funcs {
		if f.Synthetic != "" {
			continue
		}
		count := map[string]int{}
		callsOf(f, func(i ssa.Instruction, c *ssa.CallCommon) {
			rs := c.Signature().Results()
			if rs.Len() == 0 || !isErrorT(rs.At(rs.Len()-1).Type()) {
				return
			}
			name, _, _ := calleeSig(c)
			if name == "" {
				name = "a function value"
			}
			if strings.HasPrefix(name, "fmt.Print") {
				return
			}
			k := name + " in " + fnName(f)
			if count[k]++; count[k] > 1 {
				k += fmt.Sprintf(" #%d", count[k])
			}
			con = append(con, k)
			v, _ := i.(*ssa.Call)
			ok := false
			if v != nil {
				if rs.Len() == 1 {
					ok = len(live(v)) > 0
				} else {
					for _, u := range live(v) {
						switch e := u.(type) {
						case *ssa.Extract:
							ok = ok || e.Index == rs.Len()-1 && len(live(e)) > 0
						case *ssa.Return:
							ok = true
						}
					}
				}
			}
			y.r.check(ok, rule, k, y.p.instrPos(i), "the error of %s is dropped", name)
		})
	}
	sort.Strings(con)
	y.r.note("error_calls", len(con))
}

// depth: nesting and references that lead back to themselves end in an error,
// not in exhaustion of the stack.
func (y *yamlCheck) depth() {
	const rule = "nesting is limited"
	n := 0
	for _, f := range y.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "flow_level" && fieldName(fa) != "indents" || !grows(s.Val, fa) {
					continue
				}
				if pt, ok := fa.X.Type().Underlying().(*types.Pointer); !ok || !strings.HasSuffix(pt.Elem().String(), "yaml_parser_t") {
					continue // an emitter writes what is already built
				}
				n++
				y.r.check(y.limited(f, fa, s), rule, "growth of "+fieldName(fa)+" in "+fnName(f), y.p.instrPos(i), "no limit is checked before the next level")
			}
		}
	}
	y.r.check(n >= 2, rule, "levels", "", "only %d places in which the nesting grows were found", n)
	n = 0
	for _, f := range y.funcs {
		callsOf(f, func(i ssa.Instruction, c *ssa.CallCommon) {
			if c.StaticCallee() == nil || !y.s.inYamlRecursion(c) {
				return
			}
			if f.Signature.Recv() == nil || !strings.HasSuffix(f.Signature.Recv().Type().String(), "decoder") {
				return
			}
			n++
			y.r.check(y.visited(f, i), "a value that contains itself is an error", "alias followed in "+fnName(f), y.p.instrPos(i), "an alias is followed without a test that it is not being followed already")
		})
	}
	y.r.check(n >= 1, "a value that contains itself is an error", "aliases", "", "no place was found in which an alias is followed")
}

// inYamlRecursion: an argument is the node an alias stands for.
func (s *shared) inYamlRecursion(c *ssa.CallCommon) bool {
	for _, a := range c.Args {
		if l, ok := a.(*ssa.UnOp); ok && l.Op == token.MUL {
			if fa, ok := l.X.(*ssa.FieldAddr); ok && fieldName(fa) == "Alias" {
				return true
			}
		}
	}
	return false
}

func grows(v ssa.Value, fa *ssa.FieldAddr) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		return x.Op == token.ADD
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append"
	}
	return false
}

// limited: past the store (or before it) the level is compared with a constant
// and the function fails on one side.
func (y *yamlCheck) limited(f *ssa.Function, fa *ssa.FieldAddr, s *ssa.Store) bool {
	var about func(v ssa.Value, d int) bool
	about = func(v ssa.Value, d int) bool {
		switch x := v.(type) {
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.FieldAddr)
			return ok && x.Op == token.MUL && g.Field == fa.Field && types.Identical(g.X.Type(), fa.X.Type())
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "len" && d < 3 && about(x.Call.Args[0], d+1)
		case *ssa.BinOp:
			return d < 3 && x.Op == token.ADD && (about(x.X, d+1) || about(x.Y, d+1))
		}
		return s != nil && v == s.Val
	}
	if s != nil {
		// the test may be in a step of its own
		found := false
		callsOf(f, func(i ssa.Instruction, c *ssa.CallCommon) {
			if g := c.StaticCallee(); g != nil && g != f && g.Blocks != nil && y.fall[g] && (before(i, s) || passes(s, i)) {
				found = found || y.limited(g, fa, nil)
			}
		})
		if found {
			return true
		}
	}
	for _, b := range f.Blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		q, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		side := -1
		limit := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Const)
			return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Compare(c.Value, token.LSS, constant.MakeInt64(1000000)) && constant.Compare(c.Value, token.GTR, constant.MakeInt64(1))
		}
		switch {
		case about(q.X, 0) && limit(q.Y):
			switch q.Op {
			case token.GTR, token.GEQ:
				side = 0
			case token.LSS, token.LEQ:
				side = 1
			}
		case about(q.Y, 0) && limit(q.X):
			switch q.Op {
			case token.LSS, token.LEQ:
				side = 0
			case token.GTR, token.GEQ:
				side = 1
			}
		}
		if side < 0 {
			continue
		}
		// the test lies on every way from the store to the end, or before it
		w := &yamlPath{y: y, call: nil, seen: map[string]bool{}}
		if w.walk(b.Succs[side], 0, truth{}) && (s == nil && passes(f.Blocks[0].Instrs[0], i) || s != nil && (before(i, s) || passes(s, i))) {
			return true
		}
	}
	return false
}

// passes: every way from one instruction to a return goes through another.
func passes(from, through ssa.Instruction) bool {
	if from.Block() == through.Block() {
		return after(through) > after(from)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == through.Block() || seen[b] {
			return true
		}
		seen[b] = true
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return len(b.Succs) > 0
	}
	for _, s := range from.Block().Succs {
		if !walk(s) {
			return false
		}
	}
	return len(from.Block().Succs) > 0
}

// visited: following an alias comes after a test of a set of aliases whose one
// side fails, and after an entry was made in that set.
func (y *yamlCheck) visited(f *ssa.Function, at ssa.Instruction) bool {
	mark := ""
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if m, ok := i.(*ssa.MapUpdate); ok && before(i, at) {
				mark = mapName(m.Map)
			}
		}
	}
	if mark == "" {
		return false
	}
	for _, b := range f.Blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !before(i, at) {
			continue
		}
		cond, neg := i.Cond, false
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, neg = u.X, !neg
		}
		if e, ok := cond.(*ssa.Extract); ok {
			cond = e.Tuple
		}
		l, ok := cond.(*ssa.Lookup)
		if !ok || mapName(l.X) != mark {
			continue
		}
		side := 0
		if neg {
			side = 1
		}
		w := &yamlPath{y: y, seen: map[string]bool{}}
		if w.walk(b.Succs[side], 0, truth{}) {
			return true
		}
	}
	return false
}

func mapName(v ssa.Value) string {
	if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
		if fa, ok := l.X.(*ssa.FieldAddr); ok {
			return fieldName(fa)
		}
	}
	return v.Name()
}
