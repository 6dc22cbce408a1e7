package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C11", Min: 60, Rule: "Every function of the repository is searched for what differs between runs: iteration over Go maps and lists made from one, the clock, random numbers, process identity, addresses as text, goroutines. A loop over a map must have effects that do not depend on the order (entries keyed by the iterated key, constants, commuting sums) and a list collected from one must be sorted before anything else reads it; everything called outside the repository must be known to depend on its arguments and files only.", Run: runC11})
}

// varying are functions whose results differ between runs on the same input.
var varying = []string{
	"time.Now", "time.Since", "time.Until", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.Sleep", "(time.Time).Local", "time.LoadLocation",
	"math/rand", "crypto/rand", "hash/maphash", "os.Getpid", "os.Getppid", "os.MkdirTemp", "runtime.", "net.", "os/signal", "log.", "testing.", "context.WithTimeout", "context.WithDeadline",
	"(reflect.Value).Pointer", "(reflect.Value).UnsafeAddr", "(reflect.Value).UnsafePointer", "(reflect.Value).MapRange", "sync.", "(*sync.Map).Range", "(*sync.Pool).Get", "sync/atomic", "github.com/rs/xid", "github.com/google/uuid",
	"os.Hostname", "os.TempDir", "(os.FileInfo).ModTime", "(io/fs.FileInfo).ModTime", "unique.", "weak.", "reflect.Select",
}

// steady are the packages whose other functions depend on arguments and files.
var steadyPkgs = map[string]bool{
	"fmt": true, "strings": true, "strconv": true, "bytes": true, "errors": true, "io": true, "io/fs": true, "bufio": true, "math": true, "math/big": true, "math/bits": true, "sort": true, "slices": true, "maps": true, "cmp": true, "iter": true,
	"os": true, "os/exec": true, "path": true, "path/filepath": true, "reflect": true, "regexp": true, "encoding": true, "encoding/json": true, "encoding/base64": true, "encoding/hex": true, "encoding/binary": true, "crypto/sha256": true, "crypto/sha1": true, "crypto/md5": true, "hash": true, "hash/fnv": true, "hash/crc32": true,
	"net/http": true, "net/url": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "unicode/norm": true, "text/template": true, "runtime/debug": true, "time": true, "sync": true, "unsafe": true, "context": true, "embed": true, "html": true, "text/tabwriter": true,
	"github.com/elliotchance/orderedmap/v3": true, "github.com/bmatcuk/doublestar/v4": true, "gopkg.in/yaml.v3": true, "github.com/spf13/cobra": true, "github.com/spf13/viper": true, "github.com/spf13/pflag": true,
}

func isVarying(name string) bool {
	for _, v := range varying {
		if name == v || strings.HasPrefix(name, v) && (strings.HasSuffix(v, ".") || strings.Contains(v, "/") || strings.HasSuffix(v, "rand")) {
			return true
		}
	}
	return false
}

// unordered are functions that yield the contents of a map in any order.
var unordered = map[string]bool{"maps.Keys": true, "maps.Values": true, "maps.All": true, "(reflect.Value).MapKeys": true}

type orderCheck struct {
	r    *Report
	p    *Program
	pure map[*ssa.Function]int // 1 being examined, 2 pure, 3 not
}

func runC11(r *Report) {
	p := r.P
	o := &orderCheck{r, p, map[*ssa.Function]int{}}
	const rule = "results do not vary between runs"
	seen := map[string]int{}
	loops, lists, calls := 0, 0, 0
	var funcs []*ssa.Function
	for f := range allFuncs(p) {
		if pk := fnPkg(f); f.Blocks != nil && pk != nil && strings.HasPrefix(pk.Path(), modPath) && !isVseq(f) && f.Synthetic == "" {
			funcs = append(funcs, f)
		}
	}
	sort.Slice(funcs, func(i, j int) bool {
		if funcs[i].String() != funcs[j].String() {
			return funcs[i].String() < funcs[j].String()
		}
		return funcs[i].Pos() < funcs[j].Pos()
	})
	for _, f := range funcs {
		bad, pos := "", p.pos(f.Pos())
		note := func(i ssa.Instruction, t string, a ...any) {
			if bad == "" {
				bad, pos = fmt.Sprintf(t, a...), p.instrPos(i)
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Go:
					note(i, "starts a goroutine: the order in which it runs varies")
				case *ssa.Select:
					note(i, "chooses among channels")
				case *ssa.Range:
					if _, isMap := x.X.Type().Underlying().(*types.Map); isMap && o.anyOrder(x.X) {
						loops++
						for _, n := range *x.Referrers() {
							if nx, ok := n.(*ssa.Next); ok {
								if why, at := o.loop(nx); why != "" {
									note(at, "the loop over a map %s, so that the order of the map shows", why)
								}
							}
						}
					}
				case *ssa.Convert:
					if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
						if _, ok := x.Type().Underlying().(*types.Basic); ok {
							note(i, "turns an address into a number")
						}
					}
				case ssa.CallInstruction:
					c := x.Common()
					name, pkg, _ := calleeSig(c)
					if name == "" {
						continue
					}
					if isVarying(name) {
						note(i, "calls %s, which differs from run to run", name)
					}
					if unordered[name] {
						lists++
						if why, at := o.collected(x.Value(), x); why != "" {
							note(at, "%s %s, so that the order of the map shows", name, why)
						}
					}
					if pkg != "" && !strings.HasPrefix(pkg, modPath) {
						calls++
						if !steadyPkgs[pkg] {
							note(i, "calls %s, not known to depend on its arguments only", name)
						}
					}
					if why := o.printsAddress(f, name, c); why != "" {
						o.format(f, i, name, why)
					}
				}
			}
		}
		con := fnName(f)
		seen[con]++
		if seen[con] > 1 {
			con = fmt.Sprintf("%s #%d", con, seen[con])
		}
		r.funcs[f.String()] = true
		r.check(bad == "", rule, con, pos, "%s", bad)
	}
	r.note("functions", len(funcs))
	r.note("map_loops", loops)
	r.note("lists_from_maps", lists)
	r.note("outside_calls", calls)
}

// anyOrder tells whether ranging over a map yields its entries in any order;
// the helpers standing for iterators do so only if the iterator does.
func (o *orderCheck) anyOrder(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok || !isVseq(c.Call.StaticCallee()) {
		return true
	}
	it, ok := c.Call.Args[0].(*ssa.Call)
	if !ok {
		return false
	}
	name, _, _ := calleeSig(&it.Call)
	return unordered[name]
}

// natural loop of a header.
func loopOf(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var q []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !in[p] {
			in[p] = true
			q = append(q, p)
		}
	}
	for len(q) > 0 {
		b := q[0]
		q = q[1:]
		for _, p := range b.Preds {
			if !in[p] && h.Dominates(p) {
				in[p] = true
				q = append(q, p)
			}
		}
	}
	return in
}

func (o *orderCheck) loop(n *ssa.Next) (string, ssa.Instruction) {
	keys := map[ssa.Value]bool{}
	for _, u := range *n.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == 1 {
			keys[e] = true
		}
	}
	return o.body(n.Block(), keys, nil)
}

// body decides whether a loop does the same in whatever order it runs. Blocks
// reached from it that only leave the function count as part of it.
func (o *orderCheck) body(h *ssa.BasicBlock, keys map[ssa.Value]bool, counter ssa.Value) (string, ssa.Instruction) {
	in := loopOf(h)
	all := map[*ssa.BasicBlock]bool{}
	for b := range in {
		all[b] = true
	}
	// the block after the loop is the one the header itself leaves to
	var q []*ssa.BasicBlock
	after := map[*ssa.BasicBlock]bool{}
	for _, s := range h.Succs {
		if !in[s] {
			after[s] = true
		}
	}
	for b := range in {
		for _, s := range b.Succs {
			if !in[s] && !after[s] && len(s.Preds) == 1 {
				q = append(q, s)
			}
		}
	}
	for len(q) > 0 {
		b := q[0]
		q = q[1:]
		if all[b] {
			continue
		}
		all[b] = true
		for _, s := range b.Succs {
			if !all[s] && !after[s] && len(s.Preds) == 1 {
				q = append(q, s)
			}
		}
	}
	inside := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && all[i.Block()]
	}
	fromKey := func(v ssa.Value) bool { return o.fromKey(v, keys, 0) }
	returns := map[string]bool{}
	var blocks []*ssa.BasicBlock
	for b := range all {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi:
				if x.Block() != h || x == counter {
					continue
				}
				if why, at := o.carried(x, in, keys); why != "" {
					return why, at
				}
			case *ssa.Store:
				if a := rootAlloc(x.Addr); a != nil && inside(a) {
					continue
				}
				if _, ok := x.Val.(*ssa.Const); ok || !inside(x.Val) {
					continue
				}
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					if why, at := o.carriedVar(a, x, in, keys); why == "" {
						continue
					} else {
						return why, at
					}
				}
				return "stores a value that depends on the entry", i
			case *ssa.MapUpdate:
				if !fromKey(x.Key) {
					if _, ok := x.Value.(*ssa.Const); !ok {
						return "fills another map under keys that entries may share", i
					}
				}
			case *ssa.Send:
				return "sends values", i
			case *ssa.Go, *ssa.Defer:
				return "starts or defers calls", i
			case *ssa.Return:
				t := ""
				for _, v := range x.Results {
					if c, ok := v.(*ssa.Const); ok {
						t += c.String() + ","
						continue
					}
					if inside(v) && !o.constantMade(v, in, all) {
						return "returns something that depends on the entry", i
					}
					t += v.Name() + ","
				}
				returns[t] = true
				if len(returns) > 1 {
					return "returns different results from within", i
				}
			case *ssa.Call:
				if why := o.effect(&x.Call, inside, fromKey); why != "" {
					return why, i
				}
			}
			// values that leave the loop
			if v, ok := i.(ssa.Value); ok && v.Referrers() != nil {
				for _, u := range *v.Referrers() {
					if all[u.Block()] {
						continue
					}
					ph, isPhi := v.(*ssa.Phi)
					if isPhi && ph.Block() == h {
						continue // judged by carried
					}
					if nx, ok := i.(*ssa.Extract); ok && nx.Index == 0 {
						continue
					}
					if _, isA := v.(*ssa.Alloc); isA {
						continue
					}
					return "lets a value of one entry out", u
				}
			}
		}
	}
	// constants chosen on leaving
	for b := range after {
		for _, i := range b.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			vals := map[string]bool{}
			for k, e := range ph.Edges {
				if !all[b.Preds[k]] || b.Preds[k] == h {
					continue
				}
				if c, ok := e.(*ssa.Const); ok {
					vals[c.String()] = true
				} else {
					vals[e.Name()] = true
				}
			}
			if len(vals) > 1 {
				return "ends with different results", ph
			}
		}
	}
	return "", nil
}

// constantMade accepts results made without using the entry.
func (o *orderCheck) constantMade(v ssa.Value, in, all map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		i, ok := v.(ssa.Instruction)
		if !ok || !all[i.Block()] {
			return true
		}
		switch x := v.(type) {
		case *ssa.Next, *ssa.Extract, *ssa.Phi, *ssa.Lookup, *ssa.Index, *ssa.IndexAddr:
			return false
		case *ssa.Alloc:
			for _, u := range *x.Referrers() {
				if s, ok := u.(*ssa.Store); ok && !walk(s.Val) {
					return false
				}
				if fa, ok := u.(ssa.Value); ok {
					if _, isFA := u.(*ssa.FieldAddr); isFA {
						for _, u2 := range *fa.Referrers() {
							if s, ok := u2.(*ssa.Store); ok && !walk(s.Val) {
								return false
							}
						}
					}
				}
			}
			return true
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return false
			}
		}
		for _, op := range i.Operands(nil) {
			if *op != nil && !walk(*op) {
				return false
			}
		}
		return true
	}
	return walk(v)
}

func (o *orderCheck) fromKey(v ssa.Value, keys map[ssa.Value]bool, d int) bool {
	if keys[v] {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return o.fromKey(x.X, keys, d+1)
	case *ssa.ChangeType:
		return o.fromKey(x.X, keys, d+1)
	case *ssa.MakeInterface:
		return o.fromKey(x.X, keys, d+1)
	case *ssa.BinOp:
		if x.Op != token.ADD {
			return false
		}
		_, c := x.Y.(*ssa.Const)
		_, c2 := x.X.(*ssa.Const)
		return c && o.fromKey(x.X, keys, d+1) || c2 && o.fromKey(x.Y, keys, d+1)
	case *ssa.UnOp:
		// a variable of the loop that holds the key
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			n := 0
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == a {
					n++
					if !o.fromKey(s.Val, keys, d+1) {
						return false
					}
				}
			}
			return n > 0
		}
	}
	return false
}

// carried judges a variable that passes from one round to the next.
func (o *orderCheck) carried(ph *ssa.Phi, in map[*ssa.BasicBlock]bool, keys map[ssa.Value]bool) (string, ssa.Instruction) {
	if ph.Referrers() == nil || len(*ph.Referrers()) == 0 {
		return "", nil
	}
	consts := map[string]bool{}
	appends, sums := false, false
	seen := map[ssa.Value]bool{ph: true}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			consts[x.String()] = true
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !walk(e) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			b, ok := x.Type().Underlying().(*types.Basic)
			if ok && b.Info()&types.IsInteger != 0 && (x.Op == token.ADD || x.Op == token.MUL || x.Op == token.OR || x.Op == token.AND || x.Op == token.XOR) {
				if seen[x.X] && !carriesInto(x.Y, ph) || seen[x.Y] && !carriesInto(x.X, ph) {
					sums = true
					return walk(x.X) || walk(x.Y)
				}
			}
			return false
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				appends = true
				return walk(x.Call.Args[0])
			}
			return false
		}
		return false
	}
	for k, e := range ph.Edges {
		if !in[ph.Block().Preds[k]] {
			continue
		}
		if !walk(e) {
			return "carries a value over from entry to entry", ph
		}
	}
	kinds := 0
	if len(consts) > 0 {
		kinds++
	}
	if sums {
		kinds++
	}
	if appends {
		kinds++
	}
	if kinds > 1 || len(consts) > 1 {
		return "carries a value over from entry to entry", ph
	}
	if appends {
		return o.sorted(ph, in)
	}
	if sums {
		// the running total must not be looked at within the loop
		for v := range seen {
			for _, u := range *refs(v) {
				if !in[u.Block()] {
					continue
				}
				if w, ok := u.(ssa.Value); ok && seen[w] {
					continue
				}
				return "looks at a running total", u
			}
		}
	}
	return "", nil
}

func refs(v ssa.Value) *[]ssa.Instruction {
	if _, c := v.(*ssa.Const); c || v.Referrers() == nil {
		return &[]ssa.Instruction{}
	}
	return v.Referrers()
}

func carriesInto(v ssa.Value, ph *ssa.Phi) bool { return v == ph }

// carriedVar judges a variable that is assigned in the loop.
func (o *orderCheck) carriedVar(a *ssa.Alloc, s *ssa.Store, in map[*ssa.BasicBlock]bool, keys map[ssa.Value]bool) (string, ssa.Instruction) {
	if c, ok := s.Val.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if l, ok := c.Call.Args[0].(*ssa.UnOp); ok && l.X == a {
				return o.sorted(a, in)
			}
		}
	}
	if b, ok := s.Val.(*ssa.BinOp); ok && b.Op == token.ADD {
		if bt, ok := b.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			if l, ok := b.X.(*ssa.UnOp); ok && l.X == a {
				return "", nil
			}
		}
	}
	return "assigns a value that depends on the entry", s
}

func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
}

var sorters = map[string]bool{
	"sort.Strings": true, "sort.Ints": true, "sort.Float64s": true, "sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true,
}

var orderless = map[string]bool{"slices.Contains": true, "slices.Max": true, "slices.Min": true, "slices.Sorted": true, "slices.SortedFunc": true, "slices.SortedStableFunc": true, "maps.Collect": true, "maps.Insert": true}

// sorted requires that a list in any order is sorted before it is read.
func (o *orderCheck) sorted(root ssa.Value, in map[*ssa.BasicBlock]bool) (string, ssa.Instruction) {
	alias := map[ssa.Value]bool{}
	var uses []ssa.Instruction
	var sorts []ssa.Instruction
	var add func(v ssa.Value)
	visit := func(v ssa.Value, u ssa.Instruction) {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			add(x)
		case *ssa.Convert:
			add(x)
		case *ssa.ChangeType:
			add(x)
		case *ssa.MakeInterface:
			add(x)
		case *ssa.Slice:
			add(x)
		case *ssa.MakeClosure:
			// the closure given to the sort itself
			for _, w := range *x.Referrers() {
				c, ok := w.(*ssa.Call)
				if ok {
					if name, _, _ := calleeSig(&c.Call); sorters[name] {
						continue
					}
				}
				uses = append(uses, w)
			}
		case *ssa.Store:
			if x.Val == v {
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					add(a)
				} else {
					uses = append(uses, u)
				}
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				add(x)
			} else {
				uses = append(uses, u)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
					return
				case "append":
					if x.Call.Args[0] == v {
						add(x)
						return
					}
					add(x)
					return
				}
				uses = append(uses, u)
				return
			}
			name, _, _ := calleeSig(&x.Call)
			switch {
			case sorters[name]:
				sorts = append(sorts, u)
			case orderless[name]:
			case name == "slices.Clone" || name == "slices.Clip" || name == "slices.Compact" || name == "slices.Grow":
				add(x)
			default:
				uses = append(uses, u)
			}
		case *ssa.IndexAddr:
			if why, _ := o.elements(x, in); why != "" {
				uses = append(uses, u)
			}
		default:
			uses = append(uses, u)
		}
	}
	add = func(v ssa.Value) {
		if alias[v] {
			return
		}
		alias[v] = true
		for _, u := range *refs(v) {
			visit(v, u)
		}
	}
	add(root)
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			ok = ok || before(s, u)
		}
		if !ok {
			return "collects a list that is read without having been sorted", u
		}
	}
	return "", nil
}

// elements judges reading the elements of a list one after another.
func (o *orderCheck) elements(x *ssa.IndexAddr, in map[*ssa.BasicBlock]bool) (string, ssa.Instruction) {
	var h *ssa.BasicBlock
	for b := x.Block(); b != nil; b = b.Idom() {
		if l := loopOf(b); len(l) > 1 && l[x.Block()] {
			h = b
			break
		}
	}
	if h == nil {
		return "reads one element", x
	}
	var counter ssa.Value
	ix := x.Index
	if b, ok := ix.(*ssa.BinOp); ok {
		ix = b.X
	}
	if p, ok := ix.(*ssa.Phi); ok && p.Block() == h {
		counter = p
	}
	keys := map[ssa.Value]bool{}
	for _, u := range *x.Referrers() {
		if l, ok := u.(*ssa.UnOp); ok {
			keys[l] = true
		}
	}
	return o.body(h, keys, counter)
}

func before(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return a.Block().Dominates(b.Block())
	}
	for _, i := range a.Block().Instrs {
		if i == a {
			return true
		}
		if i == b {
			return false
		}
	}
	return false
}

// collected judges what becomes of an iterator or list over a map.
func (o *orderCheck) collected(v ssa.Value, at ssa.Instruction) (string, ssa.Instruction) {
	if v == nil {
		return "is deferred", at
	}
	if _, list := v.Type().Underlying().(*types.Slice); list {
		return o.sorted(v, nil)
	}
	for _, u := range *refs(v) {
		c, ok := u.(*ssa.Call)
		if !ok {
			if ct, ok := u.(*ssa.ChangeType); ok {
				if why, at := o.collected(ct, u); why != "" {
					return why, at
				}
				continue
			}
			return "is kept", u
		}
		name, _, _ := calleeSig(&c.Call)
		switch {
		case isVseq(c.Call.StaticCallee()), orderless[name]:
		case name == "slices.Collect" || name == "slices.AppendSeq":
			if why, at := o.sorted(c, nil); why != "" {
				return why, at
			}
		default:
			return "is passed to " + name, u
		}
	}
	return "", nil
}

// effect judges a call within a loop over a map.
func (o *orderCheck) effect(c *ssa.CallCommon, inside func(ssa.Value) bool, fromKey func(ssa.Value) bool) string {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete":
			if !fromKey(c.Args[1]) {
				return "deletes other entries"
			}
		case "copy", "clear", "close", "print", "println":
			return "calls " + b.Name()
		}
		return ""
	}
	name, _, _ := calleeSig(c)
	if isVseq(c.StaticCallee()) {
		return ""
	}
	if name == "(reflect.Value).SetMapIndex" && fromKey(c.Args[1]) {
		return ""
	}
	if f := c.StaticCallee(); f != nil && f.Blocks != nil && isModule(f) {
		if o.isPure(f) {
			return ""
		}
		return "calls " + fnName(f) + ", which has effects"
	}
	if c.IsInvoke() || c.StaticCallee() == nil {
		return "calls code that is not known"
	}
	if pureExternal(name) {
		return ""
	}
	if recv := c.StaticCallee().Signature.Recv(); recv != nil && len(c.Args) > 0 {
		if a := rootAlloc(c.Args[0]); a != nil && inside(a) {
			return ""
		}
	}
	return "calls " + name
}

func isModule(f *ssa.Function) bool {
	pk := fnPkg(f)
	return pk != nil && strings.HasPrefix(pk.Path(), modPath)
}

func pureExternal(name string) bool {
	if isVarying(name) {
		return false
	}
	for _, p := range []string{"strings.", "strconv.", "unicode", "math.", "errors.", "fmt.Sprint", "fmt.Errorf", "path.", "path/filepath.", "os.Open", "os.ReadFile", "os.Stat", "os.UserHomeDir", "os.Getenv", "io.ReadAll", "encoding/json.Marshal", "encoding/json.NewDecoder", "encoding/base64.", "(*encoding/base64.", "crypto/sha256.", "(reflect.", "reflect.", "slices.Contains", "slices.Index", "slices.Equal", "slices.Clone", "maps.Clone", "(*os.File).Close", "(*os.File).Read", "(time.Time)", "(*regexp.Regexp)", "(*bytes.Buffer).String", "(*strings.Builder).String", "net/url.", "(*github.com/elliotchance/orderedmap/v3.OrderedMap).Get", "(*github.com/elliotchance/orderedmap/v3.OrderedMap).Len", "(*github.com/elliotchance/orderedmap/v3.OrderedMap).AllFrom", "(*github.com/elliotchance/orderedmap/v3.OrderedMap).Keys", "(*github.com/elliotchance/orderedmap/v3.OrderedMap).Values"} {
		if strings.HasPrefix(name, p) {
			return !strings.Contains(name, ").Set")
		}
	}
	return false
}

// isPure tells whether a function only computes and reads.
func (o *orderCheck) isPure(f *ssa.Function) bool {
	switch o.pure[f] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	o.pure[f] = 1
	ok := true
	local := func(v ssa.Value) bool {
		if a := rootAlloc(v); a != nil {
			return true
		}
		switch v.(type) {
		case *ssa.MakeMap, *ssa.MakeSlice:
			return true
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				ok = ok && (local(x.Addr) || localSlice(x.Addr))
			case *ssa.MapUpdate:
				ok = ok && local(x.Map)
			case *ssa.Send, *ssa.Go, *ssa.Select:
				ok = false
			case ssa.CallInstruction:
				c := x.Common()
				if bi, isB := c.Value.(*ssa.Builtin); isB {
					switch bi.Name() {
					case "copy", "delete", "clear", "close":
						ok = ok && local(c.Args[0])
					case "print", "println":
						ok = false
					}
					continue
				}
				g := c.StaticCallee()
				if g == nil {
					name, _, _ := calleeSig(c)
					ok = ok && c.IsInvoke() && strings.HasSuffix(name, ").Error")
					continue
				}
				if isVseq(g) {
					continue
				}
				if g.Blocks != nil && isModule(g) {
					ok = ok && o.isPure(g)
					continue
				}
				name := fnName(g)
				if pureExternal(name) {
					continue
				}
				if len(c.Args) > 0 && g.Signature.Recv() != nil {
					if local(c.Args[0]) {
						continue
					}
					if cl, isCall := c.Args[0].(*ssa.Call); isCall {
						if n, _, _ := calleeSig(&cl.Call); strings.HasPrefix(n, "encoding/json.NewDecoder") || strings.Contains(n, ".New") {
							continue
						}
					}
				}
				if name == "encoding/json.Unmarshal" && local(unwrapIface(c.Args[1])) {
					continue
				}
				ok = false
			}
		}
	}
	o.pure[f] = 2
	if !ok {
		o.pure[f] = 3
	}
	return ok
}

func unwrapIface(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

// localSlice: an element of a slice made in the same function.
func localSlice(v ssa.Value) bool {
	ia, ok := v.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	_, ok = ia.X.(*ssa.MakeSlice)
	return ok
}

// printsAddress tells why a formatting call may write an address.
func (o *orderCheck) printsAddress(f *ssa.Function, name string, c *ssa.CallCommon) string {
	at := -1
	switch name {
	case "fmt.Sprintf", "fmt.Printf":
		at = 0
	case "fmt.Fprintf", "fmt.Appendf":
		at = 1
	default:
		return ""
	}
	if len(c.Args) <= at {
		return ""
	}
	formats, ok := constStrings(c.Args[at], 0)
	for _, s := range formats {
		if hasVerb(s, 'p') {
			return "the verb %p writes an address"
		}
	}
	if ok {
		return ""
	}
	// a format that is not known: what it is given must not have an address
	if len(c.Args) > at+1 && flatOperands(c.Args[at+1]) {
		return ""
	}
	return "a format that is not fixed can write the addresses of lists and maps"
}

func hasVerb(s string, verb rune) bool {
	in := false
	for _, r := range s {
		if !in {
			in = r == '%'
			continue
		}
		if r == '%' {
			in = false
			continue
		}
		if strings.ContainsRune("+-# 0123456789.*[]", r) {
			continue
		}
		if r == verb {
			return true
		}
		in = false
	}
	return false
}

func constStrings(v ssa.Value, d int) ([]string, bool) {
	if d > 5 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return []string{constant.StringVal(x.Value)}, true
		}
	case *ssa.Phi:
		var out []string
		ok := true
		for _, e := range x.Edges {
			s, k := constStrings(e, d+1)
			out = append(out, s...)
			ok = ok && k
		}
		return out, ok
	case *ssa.BinOp:
		a, k := constStrings(x.X, d+1)
		b, l := constStrings(x.Y, d+1)
		if k && l && len(a) == 1 && len(b) == 1 {
			return []string{a[0] + b[0]}, true
		}
	}
	return nil, false
}

// flatOperands: all variadic operands are of types without an address.
func flatOperands(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok {
		c, ok := v.(*ssa.Const)
		return ok && c.IsNil()
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *a.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok {
				continue
			}
			m, ok := st.Val.(*ssa.MakeInterface)
			if !ok || hasRefs(m.X.Type()) {
				return false
			}
		}
	}
	return true
}

// format reports a formatting call by the operators that lead to it.
func (o *orderCheck) format(f *ssa.Function, at ssa.Instruction, name, why string) {
	g := o.p.static()
	up := g.reaching(map[*ssa.Function]bool{f: true})
	var ops []string
	for op, h := range o.r.W().opFuncs() {
		if up[h] {
			ops = append(ops, op)
		}
	}
	sort.Strings(ops)
	con := "formatting in " + strings.Join(ops, ", ")
	if len(ops) == 0 || len(ops) > 5 {
		con = "formatting in " + fnName(f)
	}
	o.r.fail("no address becomes text", con, o.p.instrPos(at), "%s: %s", name, why)
}
