package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C12", Min: 60, Rule: "Flow of package-level storage through assignments, fields, containers, calls and closures over all functions of the evaluation packages and the YAML package. After initialisation nothing reachable from a package-level variable is written, extended, deleted from or handed to code outside that could change it, and the fields of an engine are written only while it is created and by setting an option on that very engine.", Run: runC12})
}

// shared follows references to memory that package-level variables lead to.
// A value is marked when it may refer to such memory. What a memory location
// holds is tracked per local variable, per field of a type and per element of
// a container type.
type shared struct {
	p       *Program
	funcs   []*ssa.Function
	val     map[ssa.Value]string // marked values and the variable they come from
	content map[any]string
	ret     map[*ssa.Function]map[int]string
	impls   map[string][]*ssa.Function
	taken   map[string][]*ssa.Function
	source  func(v ssa.Value) string
	dynamic map[string]bool // types that marked interface values can hold
	changed bool
	shallow bool // elements of containers are not followed
}

func hasRefs(t types.Type) bool { return hasRefs1(t, map[types.Type]bool{}) }

// unchangeable are types whose values never change after they were made.
func unchangeable(t types.Type) bool {
	switch types.TypeString(t, nil) {
	case "reflect.Type", "*regexp.Regexp", "error", "reflect.Value":
		return true
	}
	return false
}

func hasRefs1(t types.Type, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasRefs1(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs1(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs1(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	}
	return true
}

// sharedFuncs are the functions of the module that evaluation can run.
func (p *Program) sharedFuncs() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for f := range allFuncs(p) {
		if f.Blocks == nil || seen[f] {
			continue
		}
		pk := fnPkg(f)
		if pk == nil || !strings.HasPrefix(pk.Path(), modPath) || isVseq(f) {
			continue
		}
		if pk.Name() == "main" || strings.HasPrefix(pk.Path(), modPath+"/cmd") {
			continue
		}
		seen[f] = true
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].String() != out[j].String() {
			return out[i].String() < out[j].String()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

func newShared(p *Program) *shared {
	s := &shared{p: p, funcs: p.sharedFuncs(), val: map[ssa.Value]string{}, content: map[any]string{}, ret: map[*ssa.Function]map[int]string{}, impls: map[string][]*ssa.Function{}, taken: map[string][]*ssa.Function{}}
	s.source = func(v ssa.Value) string {
		g, ok := v.(*ssa.Global)
		if !ok || strings.HasPrefix(g.Name(), "init$") {
			return ""
		}
		if !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			return "(outside) " + g.Pkg.Pkg.Name() + "." + g.Name()
		}
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	s.dynamic = map[string]bool{}
	for f := range s.onlyInit() {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MakeInterface); ok {
					s.dynamic[m.X.Type().String()] = true
				}
			}
		}
	}
	for _, f := range s.funcs {
		if f.Signature.Recv() != nil && f.Synthetic == "" {
			s.impls[f.Name()] = append(s.impls[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var callee *ssa.Value
				if c, ok := i.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = &c.Common().Value
				}
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && (callee == nil || o != callee) {
						k := g.Signature.Params().String() + g.Signature.Results().String()
						s.taken[k] = append(s.taken[k], g)
					}
				}
			}
		}
	}
	return s
}

func (s *shared) mark(v ssa.Value, why string) {
	if why == "" || v == nil || s.val[v] != "" || !hasRefs(v.Type()) || unchangeable(v.Type()) {
		return
	}
	s.val[v] = why
	s.changed = true
}

func (s *shared) of(v ssa.Value) string {
	if w := s.source(v); w != "" {
		return w
	}
	return s.val[v]
}

func (s *shared) put(k any, why string) {
	if n, ok := k.(string); ok && s.shallow && strings.HasPrefix(n, "map ") {
		return
	}
	if why == "" || k == nil || s.content[k] != "" {
		return
	}
	s.content[k] = why
	s.changed = true
}

// memPlaces are the content keys an address stands for.
func memPlaces(a ssa.Value, shallow bool) []any {
	switch x := a.(type) {
	case *ssa.Alloc:
		return []any{x}
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		k := fmt.Sprintf("%s.%s", t, t.Underlying().(*types.Struct).Field(x.Field).Name())
		return append([]any{k}, memPlaces(x.X, shallow)...)
	case *ssa.IndexAddr:
		if shallow {
			return memPlaces(x.X, shallow)
		}
		k := "[]" + x.Type().Underlying().(*types.Pointer).Elem().String()
		return append([]any{k}, memPlaces(x.X, shallow)...)
	case *ssa.FreeVar:
		return []any{x}
	case *ssa.Phi:
		var out []any
		for _, e := range x.Edges {
			if _, again := e.(*ssa.Phi); !again {
				out = append(out, memPlaces(e, shallow)...)
			}
		}
		return out
	}
	return nil
}

// callees of a call within the module; ok is false when it also leaves it.
func (s *shared) callees(c *ssa.CallCommon) (fs []*ssa.Function, inside bool) {
	if c.IsInvoke() {
		for _, f := range s.impls[c.Method.Name()] {
			if types.Identical(f.Signature.Params(), c.Method.Type().(*types.Signature).Params()) {
				fs = append(fs, f)
			}
		}
		pk := c.Method.Pkg()
		return fs, pk != nil && strings.HasPrefix(pk.Path(), modPath)
	}
	if f := c.StaticCallee(); f != nil {
		if f.Blocks != nil && s.inModule(f) {
			return []*ssa.Function{f}, true
		}
		return nil, false
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	sig := c.Signature()
	return s.taken[sig.Params().String()+sig.Results().String()], true
}

func (s *shared) inModule(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && strings.HasPrefix(pk.Path(), modPath) && !isVseq(f)
}

func (s *shared) solve() {
	for s.changed = true; s.changed; {
		s.changed = false
		for _, f := range s.funcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					s.step(f, i)
				}
			}
		}
	}
}

func (s *shared) step(f *ssa.Function, i ssa.Instruction) {
	switch x := i.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			s.mark(x, s.of(x.X))
			for _, k := range memPlaces(x.X, s.shallow) {
				s.mark(x, s.content[k])
			}
			return
		}
		s.mark(x, s.of(x.X))
	case *ssa.Store:
		if w := s.of(x.Val); w != "" {
			for _, k := range memPlaces(x.Addr, s.shallow) {
				s.put(k, w)
			}
		}
	case *ssa.FieldAddr:
		s.mark(x, s.of(x.X))
	case *ssa.IndexAddr:
		s.mark(x, s.of(x.X))
	case *ssa.Field:
		s.mark(x, s.of(x.X))
		t := x.X.Type()
		s.mark(x, s.content[fmt.Sprintf("%s.%s", t, t.Underlying().(*types.Struct).Field(x.Field).Name())])
	case *ssa.Index:
		s.mark(x, s.of(x.X))
	case *ssa.Lookup:
		s.mark(x, s.of(x.X))
		s.mark(x, s.content["map "+x.X.Type().String()])
	case *ssa.MapUpdate:
		s.put("map "+x.Map.Type().String(), s.of(x.Value))
		s.put("map "+x.Map.Type().String(), s.of(x.Key))
	case *ssa.Range:
		s.mark(x, s.of(x.X))
		s.mark(x, s.content["map "+x.X.Type().String()])
		if w := s.of(x.X); w != "" && s.val[x] == "" {
			s.val[x] = w
			s.changed = true
		}
	case *ssa.Next:
		if w := s.val[x.Iter]; w != "" {
			s.mark(x, w)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			s.results(x, &c.Call, x.Index)
			return
		}
		s.mark(x, s.of(x.Tuple))
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.mark(x, s.of(e))
		}
	case *ssa.Slice:
		s.mark(x, s.of(x.X))
	case *ssa.Convert:
		s.mark(x, s.of(x.X))
	case *ssa.ChangeType:
		s.mark(x, s.of(x.X))
	case *ssa.ChangeInterface:
		s.mark(x, s.of(x.X))
	case *ssa.SliceToArrayPointer:
		s.mark(x, s.of(x.X))
	case *ssa.MakeInterface:
		if w := s.of(x.X); w != "" && hasRefs(x.X.Type()) {
			if k := x.X.Type().String(); !s.dynamic[k] {
				s.dynamic[k] = true
				s.changed = true
			}
			s.mark(x, w)
		}
	case *ssa.TypeAssert:
		if types.IsInterface(x.AssertedType) || s.dynamic[x.AssertedType.String()] {
			s.mark(x, s.of(x.X))
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for k, b := range x.Bindings {
			s.mark(g.FreeVars[k], s.of(b))
			s.mark(x, s.of(b))
			for _, pl := range memPlaces(b, s.shallow) {
				s.put(g.FreeVars[k], s.content[pl])
			}
			if a, ok := b.(*ssa.Alloc); ok {
				s.put(a, s.content[g.FreeVars[k]])
			}
		}
	case *ssa.Return:
		for k, v := range x.Results {
			if w := s.of(v); w != "" {
				if s.ret[f] == nil {
					s.ret[f] = map[int]string{}
				}
				if s.ret[f][k] == "" {
					s.ret[f][k] = w
					s.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		c := x.Common()
		fs, _ := s.callees(c)
		for _, g := range fs {
			ps := g.Params
			args := c.Args
			if c.IsInvoke() {
				if len(ps) > 0 {
					s.mark(ps[0], s.of(c.Value))
				}
				ps = ps[1:]
			}
			for k, a := range args {
				if k < len(ps) {
					s.mark(ps[k], s.of(a))
				}
			}
		}
		if name, _, _ := calleeSig(c); strings.HasPrefix(name, orderedMap) {
			for _, a := range c.Args[1:] {
				s.put("map "+c.Args[0].Type().String(), s.of(a))
			}
			if v := x.Value(); v != nil && len(c.Args) > 0 {
				s.mark(v, s.content["map "+c.Args[0].Type().String()])
			}
		}
		if v := x.Value(); v != nil {
			s.results(v, c, 0)
		}
	}
}

// results marks what a call yields.
func (s *shared) results(v ssa.Value, c *ssa.CallCommon, k int) {
	if _, tuple := v.Type().(*types.Tuple); tuple {
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			for _, a := range c.Args {
				s.mark(v, s.of(a))
			}
		}
		return
	}
	fs, inside := s.callees(c)
	for _, g := range fs {
		s.mark(v, s.ret[g][k])
	}
	if !inside {
		if e, ok := v.Type().Underlying().(*types.Interface); ok && e.NumMethods() > 0 && e.Method(0).Name() == "Error" {
			return
		}
		for _, a := range c.Args {
			if (flatElems(a.Type()) || flatElems(v.Type())) && !types.Identical(a.Type(), v.Type()) {
				continue
			}
			if name, _, _ := calleeSig(c); flatElems(a.Type()) && copying[name] {
				continue
			}
			s.mark(v, s.of(a))
		}
		if c.IsInvoke() {
			s.mark(v, s.of(c.Value))
		}
	}
}

const orderedMap = "(*github.com/elliotchance/orderedmap/v3.OrderedMap)."

// flatElems are containers whose elements refer to nothing.
func flatElems(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return !hasRefs(u.Elem())
	case *types.Map:
		return !hasRefs(u.Elem()) && !hasRefs(u.Key())
	}
	return false
}

// copying are library functions whose result is a new container.
var copying = map[string]bool{"slices.Clone": true, "maps.Clone": true, "slices.Concat": true, "slices.Sorted": true, "slices.Collect": true, "slices.Repeat": true, "maps.Collect": true, "bytes.Clone": true}

// quiet are functions outside the module that do not change what they are given.
func quietExternal(name string) bool {
	if strings.HasPrefix(name, "iface:error.") || strings.HasPrefix(name, "(error).") {
		return true
	}
	if strings.Contains(name, ".__vseq") {
		return true
	}
	const om = orderedMap
	for _, p := range []string{om + "Get", om + "Len", om + "Keys", om + "Values", om + "AllFrom", om + "Has", om + "Copy", "(*sync.Mutex).", "(*sync.RWMutex).", "(*regexp.Regexp).", "reflect.", "(reflect.Type).", "(reflect.Value).", "fmt.", "errors.", "strings.", "strconv.", "bytes.", "maps.Keys", "maps.Values", "maps.All", "maps.Clone", "slices.Contains", "slices.Index", "slices.Clone", "slices.Collect", "slices.Sorted", "slices.Values", "slices.Equal", "path.", "path/filepath.", "(time.Time).", "time.", "encoding/json.Marshal", "(*encoding/json.Encoder).Encode", "slices.Concat", "slices.Max", "slices.Min", "slices.BinarySearch", "os/exec.Command", "io.WriteString", "(*text/template.Template).Exec"} {
		if strings.HasPrefix(name, p) && !strings.Contains(name, ").Set") {
			return true
		}
	}
	return false
}

// onlyInit tells which functions run only while packages are initialised.
func (s *shared) onlyInit() map[*ssa.Function]bool {
	callers := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	for _, f := range s.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var callee *ssa.Value
				if c, ok := i.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = &c.Common().Value
					if g, ok := (*callee).(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
				for _, o := range i.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && (callee == nil || o != callee) {
						escapes[g] = true
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for _, f := range s.funcs {
		if isInit(f) {
			out[f] = true
		}
	}
	for again := true; again; {
		again = false
		for _, f := range s.funcs {
			if out[f] || escapes[f] || len(callers[f]) == 0 || f.Signature.Recv() != nil || f.Parent() != nil {
				continue
			}
			all := true
			for _, c := range callers[f] {
				all = all && out[c]
			}
			if all {
				out[f] = true
				again = true
			}
		}
	}
	return out
}

func runC12(r *Report) {
	p := r.P
	s := newShared(p)
	s.solve()
	init := s.onlyInit()
	n, writes := 0, 0
	const rule = "package-level state is written only during initialisation"
	seen := map[string]int{}
	for _, f := range s.funcs {
		if init[f] {
			continue
		}
		n++
		r.funcs[f.String()] = true
		bad := ""
		pos := p.pos(f.Pos())
		report := func(i ssa.Instruction, why, what string) {
			if bad == "" && !s.underLock(f, i, why) {
				bad = fmt.Sprintf("%s %s %s", fnName(f), what, why)
				pos = p.instrPos(i)
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					writes++
					if w := s.of(x.Addr); w != "" {
						report(i, w, "writes to")
					} else if fv, ok := x.Addr.(*ssa.FreeVar); ok && s.initClosure(f, init) {
						report(i, fv.Name(), "writes to the variable shared by a closure made during initialisation,")
					}
				case *ssa.MapUpdate:
					writes++
					if w := s.of(x.Map); w != "" {
						report(i, w, "changes the map")
					}
				case *ssa.Send:
					if w := s.of(x.Chan); w != "" {
						report(i, w, "sends on")
					}
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "delete", "clear", "copy", "close":
							writes++
							if w := s.of(c.Args[0]); w != "" {
								report(i, w, "changes, with "+bi.Name()+",")
							}
						}
						continue
					}
					if fs, inside := s.callees(c); inside && len(fs) > 0 {
						continue
					} else if inside && !c.IsInvoke() && c.StaticCallee() == nil {
						continue // a function value: its code is analysed wherever it is
					}
					name, _, _ := calleeSig(c)
					args := c.Args
					if c.IsInvoke() {
						args = append([]ssa.Value{c.Value}, args...)
					}
					for k, a := range args {
						if k > 0 && (name == "maps.Copy" || strings.HasPrefix(name, orderedMap)) {
							continue
						}
						if w := s.of(a); w != "" && !strings.HasPrefix(w, "(outside) ") && hasRefs(a.Type()) && !quietExternal(name) && !isErrorT(a.Type()) {
							report(i, w, "passes to "+name+", which can change it,")
						}
					}
				}
			}
		}
		con := fnName(f)
		seen[con]++
		if seen[con] > 1 {
			con = fmt.Sprintf("%s #%d", con, seen[con])
		}
		r.check(bad == "", rule, con, pos, "%s", bad)
	}
	r.note("functions", n)
	r.note("write_sites", writes)
	s.engines(r, init)
}

func isErrorT(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 1 && i.Method(0).Name() == "Error"
}

// initClosure tells whether a function is a closure made during initialisation.
func (s *shared) initClosure(f *ssa.Function, init map[*ssa.Function]bool) bool {
	for q := f.Parent(); q != nil; q = q.Parent() {
		if init[q] {
			return true
		}
	}
	return false
}

// underLock accepts an entry of a table that depends on nothing but the Go
// type it is about, as long as every use of the table is under a lock.
func (s *shared) underLock(f *ssa.Function, i ssa.Instruction, why string) bool {
	u, ok := i.(*ssa.MapUpdate)
	if !ok || types.TypeString(u.Key.Type(), nil) != "reflect.Type" || !locked(i, "Lock") {
		return false
	}
	for _, f := range s.funcs {
		for _, b := range f.Blocks {
			for _, j := range b.Instrs {
				switch x := j.(type) {
				case *ssa.Lookup:
					if ofGlobal(x.X) && s.of(x.X) == why && !locked(j, "Lock", "RLock") {
						return false
					}
				case *ssa.Range:
					if ofGlobal(x.X) && s.of(x.X) == why && !locked(j, "Lock", "RLock") {
						return false
					}
				}
			}
		}
	}
	return true
}

func ofGlobal(v ssa.Value) bool {
	l, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, ok = l.X.(*ssa.Global)
	return ok
}

// locked tells whether the nearest preceding operation on a mutex took it.
func locked(i ssa.Instruction, how ...string) bool {
	for b := i.Block(); b != nil; b = b.Idom() {
		from := len(b.Instrs) - 1
		if b == i.Block() {
			for from = 0; b.Instrs[from] != i; from++ {
			}
		}
		for k := from; k >= 0; k-- {
			c, ok := b.Instrs[k].(*ssa.Call)
			if !ok {
				continue
			}
			name, _, _ := calleeSig(&c.Call)
			if !strings.HasPrefix(name, "(*sync.") {
				continue
			}
			for _, h := range how {
				if strings.HasSuffix(name, ")."+h) {
					return true
				}
			}
			return false
		}
	}
	return false
}

// processState are functions that change state of the whole process.
var processState = map[string]bool{
	"os.Setenv": true, "os.Unsetenv": true, "os.Clearenv": true, "os.Chdir": true, "(*os.File).Chdir": true,
	"syscall.Setenv": true, "syscall.Unsetenv": true, "syscall.Chdir": true, "syscall.Umask": true,
	"log.SetOutput": true, "log.SetFlags": true, "log.SetPrefix": true, "os/signal.Notify": true, "os/signal.Ignore": true,
	"runtime.GOMAXPROCS": true, "runtime/debug.SetGCPercent": true, "runtime/debug.SetMemoryLimit": true, "runtime/debug.SetMaxStack": true,
	"net/http.Handle": true, "net/http.HandleFunc": true, "math/rand.Seed": true, "reflect.SetFinalizer": true,
}

// engines checks that what an engine holds is its own and stays as it was
// while documents are evaluated.
func (s *shared) engines(r *Report, init map[*ssa.Function]bool) {
	p := r.P
	api := p.typ("core", "Engine").Underlying().(*types.Interface)
	var impl []*types.Named
	sp := p.pkg("engine")
	for _, m := range sp.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		if n, ok := t.Type().(*types.Named); ok && !types.IsInterface(n) && types.Implements(types.NewPointer(n), api) {
			if _, ok := n.Underlying().(*types.Struct); ok {
				impl = append(impl, n)
			}
		}
	}
	if len(impl) == 0 {
		anchorf("no engine type found")
	}
	isEngine := func(t types.Type) *types.Named {
		q, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return nil
		}
		for _, n := range impl {
			if types.Identical(q.Elem(), n) {
				return n
			}
		}
		return nil
	}
	e := newShared(p)
	e.shallow = true
	e.source = func(v ssa.Value) string {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || isEngine(fa.X.Type()) == nil {
			return ""
		}
		if _, fresh := fa.X.(*ssa.Alloc); fresh {
			return ""
		}
		return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
	}
	e.solve()
	setters := map[*ssa.Function]bool{}
	for _, n := range impl {
		setters[p.method(types.NewPointer(n), "SetOption")] = true
	}
	const keep = "engines are changed only by setting an option on them"
	const own = "an engine holds containers of its own"
	const state = "evaluation does not change options or state of the process"
	for _, f := range e.funcs {
		if init[f] {
			continue
		}
		bad, pos := "", p.pos(f.Pos())
		touches := false
		note := func(i ssa.Instruction, t string, a ...any) {
			if bad == "" {
				bad, pos = fmt.Sprintf(t, a...), p.instrPos(i)
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					touches = touches || isEngine(x.X.Type()) != nil
				case *ssa.Store:
					if n := isEngine(x.Addr.Type()); n != nil {
						if _, fresh := x.Addr.(*ssa.Alloc); !fresh {
							note(i, "an engine is overwritten")
						}
					}
					if w := e.of(x.Addr); w != "" {
						note(i, "writes to %s of an engine", w)
					}
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && isEngine(fa.X.Type()) != nil {
						r.check(ownContainer(x.Val, 0), own, fnName(f)+" sets "+fieldName(fa), p.instrPos(i), "the engine may share what it keeps in %s with others", fieldName(fa))
					}
				case *ssa.MapUpdate:
					if w := e.of(x.Map); w != "" && !(setters[f] && ofReceiver(f, x.Map)) {
						note(i, "changes %s of an engine", w)
					}
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "delete", "clear", "copy", "close":
							if w := e.of(c.Args[0]); w != "" && bi.Name() != "append" {
								note(i, "changes %s of an engine", w)
							}
						}
					}
				}
			}
		}
		if touches || bad != "" {
			r.check(bad == "", keep, fnName(f), pos, "%s", bad)
		}
		n := 0
		worst := ""
		callsOf(f, func(i ssa.Instruction, c *ssa.CallCommon) {
			name, _, _ := calleeSig(c)
			if processState[name] {
				worst = "calls " + name
			} else if c.IsInvoke() && c.Method.Name() == "SetOption" {
				worst = "sets an option"
			} else if g := c.StaticCallee(); g != nil && setters[g] && f.Synthetic == "" {
				worst = "sets an option"
			}
			n++
		})
		if n > 0 && f.Synthetic == "" && f.Parent() == nil {
			r.check(worst == "", state, fnName(f), p.pos(f.Pos()), "%s %s", fnName(f), worst)
		}
	}
}

func fieldName(fa *ssa.FieldAddr) string {
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
}

// ownContainer tells whether a value cannot be shared: it has no references or
// was made right here.
func ownContainer(v ssa.Value, depth int) bool {
	if !hasRefs(v.Type()) || depth > 8 {
		return depth <= 8
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Function:
		return true
	case *ssa.Alloc:
		return true
	case *ssa.Slice:
		return ownContainer(x.X, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ownContainer(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.MakeInterface:
		return ownContainer(x.X, depth+1)
	case *ssa.ChangeType:
		return ownContainer(x.X, depth+1)
	case *ssa.Call:
		name, _, _ := calleeSig(&x.Call)
		if name == "maps.Clone" || name == "slices.Clone" {
			return true
		}
		if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil && isRepoFn(g) {
			for _, b := range g.Blocks {
				if t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(t.Results) != 1 || !ownContainer(t.Results[0], depth+1)) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// ofReceiver tells whether a map is a field of the receiver of a method.
func ofReceiver(f *ssa.Function, m ssa.Value) bool {
	l, ok := m.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := l.X.(*ssa.FieldAddr)
	if !ok || len(f.Params) == 0 {
		return false
	}
	return fa.X == f.Params[0]
}
