package main

import (
	"os"

	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C09", Min: 100, Rule: "Every path of every function with an error result in the packages core, engine, lib and cmd is followed, with every call that can fail succeeding and failing on it. Where a call failed and neither the same step succeeded afterwards (alternatives) nor, for a lookup or a conversion that is only tried, another step replaced it, the function has to return an error that is not nil. The end of the input is not a failure.", Run: runC09})
}

// tried are steps whose failure can mean that something else is to be done.
func tried(name string) bool {
	switch name {
	case "os.Open", "os.OpenFile", "os.Stat", "os.Lstat", "os.ReadFile", "os.Getwd", "os.UserHomeDir", "os.UserCacheDir",
		"(encoding/json.Number).Float64", "(encoding/json.Number).Int64", "path/filepath.Rel", "path/filepath.Abs":
		return true
	}
	return strings.HasPrefix(name, "strconv.")
}

// harmless are steps that cannot fail, or whose failure concerns no result.
func harmless(name string) bool {
	for _, p := range []string{"(*bytes.Buffer).", "(*strings.Builder).", "(bytes.", "fmt.", "(hash.Hash).", "(*bytes.Reader).", "(*strings.Reader).", "errors.", "(*github.com/spf13/pflag.FlagSet).Get"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasSuffix(name, ".Close") || name == "os.Remove" || name == "os.RemoveAll"
}

// wrappers are the functions of the repository that only make errors.
func wrappers(p *Program, errT types.Type) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, f := range p.repoFuncs() {
			if out[f] || f.Signature.Results().Len() != 1 || !types.Implements(f.Signature.Results().At(0).Type(), errT.Underlying().(*types.Interface)) || len(f.Blocks) == 0 {
				continue
			}
			good, n := true, 0
			var made func(v ssa.Value, d int) bool
			made = func(v ssa.Value, d int) bool {
				switch x := v.(type) {
				case *ssa.MakeInterface:
					return !isPtrType(x.X.Type()) || made(x.X, d)
				case *ssa.Alloc:
					return true
				case *ssa.Call:
					if c := x.Common().StaticCallee(); c != nil {
						return out[c] || fnName(c) == "fmt.Errorf" || fnName(c) == "errors.New"
					}
				case *ssa.Phi:
					if d > 3 {
						return false
					}
					for _, e := range x.Edges {
						if !made(e, d+1) {
							return false
						}
					}
					return true
				case *ssa.ChangeInterface:
					return made(x.X, d)
				}
				return false
			}
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					n++
					good = good && made(ret.Results[0], 0)
				}
			}
			if good && n > 0 {
				out[f] = true
				again = true
			}
		}
	}
	return out
}

func runC09(r *Report) {
	w := r.W()
	p := w.P
	wrap := wrappers(p, w.T.Err)
	const rule = "a failure reaches the caller"
	type job struct {
		f     *ssa.Function
		sites int
	}
	var jobs []job
	quiet := 0
	for _, f := range p.repoFuncs() {
		if f.Synthetic != "" || len(f.Blocks) == 0 || isInit(f) {
			continue
		}
		n := 0
		callsOf(f, func(i ssa.Instruction, c *ssa.CallCommon) {
			_, _, sig := calleeSig(c)
			if k := sig.Results().Len(); k > 0 && isErrorT(sig.Results().At(k-1).Type()) {
				if fn := c.StaticCallee(); fn == nil || !wrap[fn] && !harmless(fnName(fn)) {
					n++
				}
			}
		})
		if n == 0 {
			continue
		}
		k := f.Signature.Results().Len()
		if k == 0 || !isErrorT(f.Signature.Results().At(k-1).Type()) {
			quiet++
			continue
		}
		jobs = append(jobs, job{f, n})
	}
	r.note("functions without an error result, not judged", quiet)
	r.note("functions", len(jobs))
	r.parallel(len(jobs), func(i int, r *Report) {
		followErrors(r, jobs[i].f, wrap, rule)
	})
}

func followErrors(r *Report, f *ssa.Function, wrap map[*ssa.Function]bool, rule string) {
	w := r.W()
	p := w.P
	variants := []string{""}
	if rc := f.Signature.Recv(); rc != nil && strings.HasSuffix(rc.Type().String(), "/engine.engine") {
		// a manifest without a type may be allowed, then a type that is not found is no failure
		variants = []string{"types demanded", "types not demanded"}
	}
	for _, v := range variants {
		x := p.flow(w, f, nil)
		if v != "" {
			hooks := x.s.In.Hooks
			x.s.In.Hooks = []Hook{skipExternalInit}
			opts := map[string]Val{}
			st := w.P.typ("engine", "Options").Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				opts[st.Field(i).Name()] = Sym{"option~" + st.Field(i).Name(), st.Field(i).Type()}
			}
			if opts["AllowUntypedManifest"] == nil {
				anchorf("the engine has no option AllowUntypedManifest")
			}
			opts["AllowUntypedManifest"] = cBool(v == "types not demanded")
			x.recv, _ = x.s.engine(opts)
			x.s.In.Hooks = hooks
		}
		followPaths(r, x, f, wrap, rule, v)
	}
}

func followPaths(r *Report, x *flow, f *ssa.Function, wrap map[*ssa.Function]bool, rule, variant string) {
	p := x.s.W.P
	sites := map[string]ssa.Instruction{}
	lookups := map[string]bool{} // failure means absence
	x.s.In.Hooks = append([]Hook{func(k *Call) ([]Outcome, bool) {
		if k.Fn != nil && isRepoFn(k.Fn) {
			for q := k.Fn.Parent(); q != nil; q = q.Parent() {
				if q == f {
					return nil, false
				}
			}
		}
		n := k.Sig.Results().Len()
		if k.Fn != nil && wrap[k.Fn] {
			return ret1(k, mkTerm("nonnil", k.Sig.Results().At(0).Type(), cStr("made"))), true
		}
		if k.Name == "(error).Error" && k.Recv != nil {
			return ret1(k, mkTerm("errtext", strT, k.Recv)), true
		}
		if asks(k) {
			// asking what failed: the kind asked for is no failure
			yes := k.St.clone()
			for q := range flowFacts(yes) {
				if t, ok := k.Args[0].(*Term); !ok || t.Op != "nonnil" || t.Key() == failTerm(x, q).Key() {
					setFact(yes, q, "")
				}
			}
			return []Outcome{{yes, []Val{cBool(true)}}, {k.St, []Val{cBool(false)}}}, true
		}
		if n == 0 || !isErrorT(k.Sig.Results().At(n-1).Type()) || harmless(k.Name) {
			if k.Fn != nil && isRepoFn(k.Fn) || k.Fn == nil && k.Recv != nil {
				for _, a := range k.Args {
					if !x.isRecv(a) {
						k.In.havocPtr(k.St, a, k.Site)
					}
				}
				return x.fork(k), true
			}
			return nil, false
		}
		if k.Fn != nil && (strings.HasPrefix(k.Name, "fmt.") || strings.HasPrefix(k.Name, "errors.")) {
			return nil, false
		}
		if k.Fn != nil && isRepoFn(k.Fn) && givenError(k) {
			// it decides about a failure it is given
			if x.inline == nil {
				x.inline = map[*ssa.Function]bool{}
			}
			x.inline[k.Fn] = true
			return nil, false
		}
		at := p.instrPos(k.Site)
		key := "e:" + at
		if sites[key] == nil {
			sites[key] = k.Site
			lookups[key] = (k.Fn != nil && isRepoFn(k.Fn) || tried(k.Name)) && onlyOnSuccess(k.Site)
		}
		name := k.Name
		if name == "" {
			name = "a function value"
		}
		outs := x.fork(k)
		for _, a := range k.Args {
			if x.isRecv(a) {
				continue // its options never change, see C12
			}
			k.In.havocPtr(outs[0].St, a, k.Site)
			k.In.havocPtr(outs[len(outs)-1].St, a, k.Site)
		}
		ok := outs[0].St
		for q, v := range flowFacts(ok) {
			if q == key || v == name || lookups[q] {
				setFact(ok, q, "")
			}
		}
		if len(outs) > 1 {
			if !scratch(k.Site) && within(k.Site.Parent(), f) {
				setFact(outs[1].St, key, name)
			}
			outs[1].Res[n-1] = failTerm(x, key)
		}
		return outs, true
	}}, x.s.In.Hooks...)
	x.s.In.OnAssume = func(st *State) {
		for q := range flowFacts(st) {
			if strings.HasPrefix(q, "e:") && eofOnly(x, st, q) {
				setFact(st, q, "")
			}
		}
	}
	var outs []Outcome
	msg := ""
	func() {
		defer func() {
			switch e := recover().(type) {
			case nil:
			case anchorError:
				msg = e.msg
			case budgetError:
				msg = e.msg
			default:
				panic(e)
			}
		}()
		outs = x.run()
	}()
	if msg != "" {
		r.fail(rule, f.String(), p.pos(f.Pos()), "cannot be decided: %s", msg)
		return
	}
	bad := map[string]string{}
	unreached := map[string]bool{}
	for _, o := range outs {
		for q, v := range flowFacts(o.St) {
			if !strings.HasPrefix(q, "e:") {
				continue
			}
			e := o.Res[len(o.Res)-1]
			if x.s.In.relate(o.St, e, Nil{})&EQ == 0 {
				continue
			}
			if variant == "types not demanded" && strings.Contains(v, "/core.LoadSchemaFrom") {
				continue
			}
			if eofOnly(x, o.St, q) {
				continue
			}
			bad[q] = v
		}
	}
	callsOf(f, func(i ssa.Instruction, c *ssa.CallCommon) {
		n, _, sig := calleeSig(c)
		if k := sig.Results().Len(); k > 0 && isErrorT(sig.Results().At(k-1).Type()) && !harmless(n) && sites["e:"+p.instrPos(i)] == nil {
			if fn := c.StaticCallee(); fn != nil && wrap[fn] {
				return
			}
			unreached[p.instrPos(i)] = true
			if os.Getenv("CHECK_DEBUG") == "unreached" {
				fmt.Println("UNREACHED", p.instrPos(i), n, "in", f, len(outs))
			}
		}
	})
	var ks []string
	for q := range sites {
		ks = append(ks, q)
	}
	sort.Strings(ks)
	r.note("calls on no path", len(unreached))
	for _, q := range ks {
		at := strings.TrimPrefix(q, "e:")
		v := bad[q]
		if v != "" {
			r.fail(rule, strings.TrimSuffix(fmt.Sprintf("%s in %s, %s", v, f, variant), ", "), at, "when %s fails, the function can still return without an error", v)
			continue
		}
		c, _ := sites[q].(ssa.CallInstruction)
		name := "call"
		if c != nil {
			if n, _, _ := calleeSig(c.Common()); n != "" {
				name = n
			}
		}
		r.ok(rule, strings.TrimSuffix(fmt.Sprintf("%s in %s, %s", name, f, variant), ", "), at)
	}
}

// within tells whether a function is f or a part of it.
func within(g, f *ssa.Function) bool {
	for ; g != nil; g = g.Parent() {
		if g == f {
			return true
		}
	}
	return false
}

func givenError(k *Call) bool {
	c, ok := k.Site.(ssa.CallInstruction)
	if !ok {
		return false
	}
	for _, a := range c.Common().Args {
		if isErrorT(a.Type()) {
			return true
		}
	}
	return false
}

func (x *flow) isRecv(v Val) bool {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	return x.recv != nil && v.Key() == x.recv.Key()
}

func failTerm(x *flow, key string) Val { return mkTerm("nonnil", x.s.W.T.Err, cStr(key)) }

// asks tells whether a call asks for a failure that only means that there is
// nothing, or nothing more.
func asks(k *Call) bool {
	if k.Name == "os.IsNotExist" {
		return true
	}
	if k.Name != "errors.Is" || len(k.Args) != 2 {
		return false
	}
	c, ok := k.Site.(ssa.CallInstruction)
	if !ok || len(c.Common().Args) != 2 {
		return false
	}
	if u, ok := c.Common().Args[1].(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.Name() == "EOF" || g.Name() == "ErrNotExist"
		}
	}
	return false
}

// eofOnly tells whether the failure was found to be the end of the input.
func eofOnly(x *flow, st *State, key string) bool {
	fail := failTerm(x, key)
	if x.s.In.relate(st, mkTerm("errtext", strT, fail), cStr("EOF")) == EQ {
		return true
	}
	return x.s.In.relate(st, fail, Sym{"global io.EOF", x.s.W.T.Err}) == EQ
}

// onlyOnSuccess tells whether a call has a result besides the error and none
// of them is used unless it succeeded.
func onlyOnSuccess(site ssa.Instruction) bool {
	c, ok := site.(*ssa.Call)
	if !ok || c.Referrers() == nil {
		return false
	}
	n := c.Common().Signature().Results().Len()
	if n < 2 {
		return false
	}
	var values, fails []ssa.Value
	for _, u := range *c.Referrers() {
		if e, ok := u.(*ssa.Extract); ok {
			if e.Index == n-1 {
				fails = append(fails, e)
			} else {
				values = append(values, e)
			}
		}
	}
	good := successOf(fails)
	in := func(b *ssa.BasicBlock) bool { return dominated(good, b) }
	for _, v := range values {
		for _, u := range *v.Referrers() {
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			if p, ok := u.(*ssa.Phi); ok {
				for i, e := range p.Edges {
					if e == v && !in(p.Block().Preds[i]) {
						return false
					}
				}
				continue
			}
			if !in(u.Block()) {
				return false
			}
		}
	}
	return len(good) > 0
}

func dominated(good []*ssa.BasicBlock, b *ssa.BasicBlock) bool {
	for _, g := range good {
		if g.Dominates(b) {
			return true
		}
	}
	return false
}

// successOf lists the blocks entered only if none of the given errors occurred.
func successOf(fails []ssa.Value) []*ssa.BasicBlock {
	var good []*ssa.BasicBlock
	for _, e := range fails {
		for _, u := range *e.Referrers() {
			b, ok := u.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ {
				continue
			}
			for _, v := range *b.Referrers() {
				if i, ok := v.(*ssa.If); ok {
					k := 0
					if b.Op == token.NEQ {
						k = 1
					}
					if to := i.Block().Succs[k]; len(to.Preds) == 1 {
						good = append(good, to)
					}
				}
			}
		}
	}
	return good
}

// scratch tells whether a step of the repository only fills a value made for
// it, which is thrown away unless the step succeeds: then nothing depends on it.
func scratch(site ssa.Instruction) bool {
	c, ok := site.(*ssa.Call)
	if !ok || c.Call.IsInvoke() || c.Call.Signature().Results().Len() != 1 || c.Call.StaticCallee() == nil || !isRepoFn(c.Call.StaticCallee()) {
		return false
	}
	good := successOf([]ssa.Value{c})
	args := c.Call.Args
	if c.Call.Signature().Recv() != nil {
		args = args[1:]
	}
	n := 0
	for _, a := range args {
		if !isPtrType(a.Type()) {
			continue
		}
		al, ok := a.(*ssa.Alloc)
		if !ok {
			return false
		}
		n++
		for _, u := range *al.Referrers() {
			if u == ssa.Instruction(c) || dominated(good, u.Block()) || u.Block() != c.Block() && u.Block().Dominates(c.Block()) {
				continue
			}
			if _, ok := u.(*ssa.DebugRef); ok {
				continue
			}
			if u.Block() == c.Block() {
				early := false
				for _, i := range c.Block().Instrs {
					if i == u {
						early = true
						break
					}
					if i == ssa.Instruction(c) {
						break
					}
				}
				if early {
					continue
				}
			}
			if p, ok := u.(*ssa.Phi); ok {
				bad := false
				for i, e := range p.Edges {
					if e == ssa.Value(al) && !dominated(good, p.Block().Preds[i]) {
						bad = true
					}
				}
				if !bad {
					continue
				}
			}
			return false
		}
	}
	return n > 0 && len(good) > 0
}
