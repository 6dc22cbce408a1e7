package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C04", Min: 8, Rule: "Every function that receives an HTTP response is followed over all its paths with an unknown status, every call it makes succeeding and failing. A path on which the request failed, or on which the status is not known to be 200, must end in an error, and must not store anything.", Run: func(r *Report) { runFlows(r, "C04") }})
	register(&Check{ID: "C05", Min: 20, Rule: "Every function that opens a file, a response or another handle, and every caller of one that returns it, is followed over all its paths, every call succeeding and failing. At the end of each path each handle is closed or is part of the result.", Run: func(r *Report) { runFlows(r, "C05") }})
	register(&Check{ID: "C30", Min: 4, Rule: "Every function that creates or renames files of the cache is followed over all its paths. No file is created under a name that the loaders of schemas open or that files are renamed to, and a file is renamed only on paths on which all of its content was written, flushed and, if received, parsed as a schema, and is not written afterwards.", Run: func(r *Report) { runFlows(r, "C30") }})
}

var fileEffects = map[string]bool{
	"os.WriteFile": true, "io/ioutil.WriteFile": true, "os.Rename": true, "os.Link": true, "os.Symlink": true,
	"os.Remove": true, "os.RemoveAll": true, "os.Truncate": true, "os.Chmod": true, "os.Chown": true, "os.Chtimes": true,
	"os.Mkdir": true, "os.MkdirAll": true, "os.MkdirTemp": true,
}

// callGraph of static calls within the repository.
type callGraph struct {
	calls, callers map[*ssa.Function][]*ssa.Function
	funcs          []*ssa.Function
}

func (p *Program) static() *callGraph {
	g := &callGraph{calls: map[*ssa.Function][]*ssa.Function{}, callers: map[*ssa.Function][]*ssa.Function{}}
	g.funcs = p.repoFuncs()
	add := func(a, b *ssa.Function) {
		for _, x := range g.calls[a] {
			if x == b {
				return
			}
		}
		g.calls[a] = append(g.calls[a], b)
		g.callers[b] = append(g.callers[b], a)
	}
	for _, f := range g.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, o := range i.Operands(nil) {
					if c, ok := (*o).(*ssa.Function); ok && isRepoFn(c) {
						add(f, c)
					}
				}
			}
		}
	}
	return g
}

// closure lists what reaches the given functions.
func (g *callGraph) reaching(set map[*ssa.Function]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var q []*ssa.Function
	for f := range set {
		q = append(q, f)
		out[f] = true
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, c := range g.callers[f] {
			if !out[c] {
				out[c] = true
				q = append(q, c)
			}
		}
	}
	return out
}

func callsOf(f *ssa.Function, visit func(i ssa.Instruction, c *ssa.CallCommon)) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				visit(i, c.Common())
			}
		}
	}
}

type flowRun struct {
	f       *flow
	outs    []Outcome
	callers []*ssa.Function
}

type flowSet struct {
	g     *callGraph
	order []*ssa.Function
	runs  map[*ssa.Function]*flowRun
	sites map[ssa.Instruction]string
}

// namers are the small functions that only make up text, such as the names of
// files.
func namers(g *callGraph) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range g.funcs {
		res := f.Signature.Results()
		if f.Synthetic != "" || f.Parent() != nil || res.Len() == 0 || !isStringT(res.At(0).Type()) || len(f.Blocks) == 0 || len(f.Blocks) > 20 {
			continue
		}
		fits := true
		for i := 1; i < res.Len(); i++ {
			b, _ := res.At(i).Type().Underlying().(*types.Basic)
			fits = fits && (isErrorT(res.At(i).Type()) || b != nil && b.Info()&(types.IsString|types.IsBoolean) != 0)
		}
		for _, q := range f.Params {
			switch t := q.Type().Underlying().(type) {
			case *types.Basic:
			case *types.Slice:
				_, ok := t.Elem().Underlying().(*types.Basic)
				fits = fits && ok
			default:
				fits = false
			}
		}
		out[f] = fits
	}
	for again := true; again; {
		again = false
		for f, ok := range out {
			if !ok {
				continue
			}
			callsOf(f, func(i ssa.Instruction, c *ssa.CallCommon) {
				callee := c.StaticCallee()
				if callee == nil {
					_, isB := c.Value.(*ssa.Builtin)
					ok = ok && isB
					return
				}
				if isRepoFn(callee) {
					ok = ok && out[callee]
					return
				}
				name, pkg, _ := calleeSig(c)
				switch pkg {
				case "path/filepath", "path", "strings", "fmt", "strconv", "encoding/base64", "encoding/hex", "net/url", "slices", "errors", "crypto/sha256":
				default:
					ok = ok && (name == "os.UserHomeDir" || name == "os.UserCacheDir" || name == "os.Getenv" || name == "os.Getwd")
				}
			})
			if !ok {
				out[f] = false
				again = true
			}
		}
	}
	for f, ok := range out {
		if !ok {
			delete(out, f)
		}
	}
	return out
}

// flows follows every function that opens, creates or changes files or
// receives responses, and callers as long as they decide what happens.
func (r *Report) flows() *flowSet {
	w := r.W()
	p := w.P
	g := p.static()
	fs := &flowSet{g: g, runs: map[*ssa.Function]*flowRun{}, sites: map[ssa.Instruction]string{}}
	direct, closes := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range g.funcs {
		if f.Synthetic != "" {
			continue
		}
		callsOf(f, func(i ssa.Instruction, c *ssa.CallCommon) {
			name, pkg, sig := calleeSig(c)
			if acquires(name, sig, pkg) >= 0 || fileEffects[name] {
				direct[f] = true
				fs.sites[i] = name
			}
			if strings.HasSuffix(name, ".Close") {
				closes[f] = true
			}
		})
		for _, q := range f.Params {
			if isResponse(q.Type()) {
				closes[f] = true
			}
		}
	}
	relevant := g.reaching(direct)
	for f := range namers(g) {
		relevant[f] = true
	}
	follow := g.reaching(closes)
	var queue []*ssa.Function
	for _, f := range g.funcs {
		if direct[f] {
			root := f
			for root.Parent() != nil && root.Parent().Synthetic == "" && !isInit(root.Parent()) {
				root = root.Parent()
			}
			queue = append(queue, root)
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		if fs.runs[f] != nil {
			continue
		}
		x := &flowRun{}
		for _, c := range g.callers[f] {
			if c.Synthetic == "" && !isInit(c) {
				x.callers = append(x.callers, c)
			}
		}
		fs.runs[f] = x
		msg := ""
		func() {
			defer func() {
				switch e := recover().(type) {
				case nil:
				case anchorError:
					msg = e.msg
				case budgetError:
					msg = e.msg
				default:
					panic(e)
				}
			}()
			x.f = p.flow(w, f, relevant)
			x.f.follow = follow
			x.outs = x.f.run()
		}()
		if msg != "" {
			r.fail("every path is followed", f.String(), "", "cannot be decided: %s", msg)
			continue
		}
		fs.order = append(fs.order, f)
		lift := false
		for _, o := range x.outs {
			for id := range x.f.in(o.St, o.Res...) {
				lift = lift || fact(o.St, "h:"+id) == "open"
			}
		}
		for _, l := range [][]creation{x.f.creations, x.f.moves, x.f.touched} {
			for _, c := range l {
				_, at := cacheDir(c.path)
				lift = lift || strings.Contains(c.path.Key(), "param~") && !at
			}
		}
		for _, c := range x.f.creations {
			lift = lift || tail(c.path) == ""
		}
		if lift {
			queue = append(queue, x.callers...)
		}
	}
	return fs
}

func runFlows(r *Report, about string) {
	fs := r.flows()
	// the names under which the cache is read and filled
	var finals []creation
	for _, f := range fs.order {
		x := fs.runs[f]
		finals = append(finals, x.f.moves...)
		for _, v := range x.f.read {
			if strings.Contains(v.Key(), ".cache") {
				finals = append(finals, creation{"", "read", v})
			}
		}
	}
	reached := map[ssa.Instruction]bool{}
	for _, f := range fs.order {
		x := fs.runs[f]
		for i := range x.f.sites {
			reached[i] = true
		}
		x.judge(r, about)
		if about == "C30" {
			x.names(r, finals, len(x.callers) > 0)
		}
		var ms []string
		for m := range x.f.problems {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			if a, text, _ := strings.Cut(m, " "); a == about {
				r.fail(flowRules[about], f.String()+": "+text, x.f.problems[m], "%s", text)
			}
		}
	}
	for i, n := range fs.sites {
		if !reached[i] {
			// code that no path reaches does nothing
			r.ok("unreachable", fmt.Sprintf("%s in %s", n, i.Parent()), r.P.instrPos(i))
		}
	}
}

var flowRules = map[string]string{"C04": "a response is used only with status 200", "C05": "handles are closed", "C30": "files get their final name when complete"}

// components splits a path; the last result tells whether all are known.
func components(v Val) ([]Val, bool) {
	switch t := v.(type) {
	case *Term:
		switch t.Op {
		case "call:path/filepath.Join", "call:path.Join":
			l, ok := t.Args[0].(*Term)
			if !ok {
				return nil, false
			}
			var out []Val
			for _, a := range l.Args {
				c, ok := components(a)
				if !ok {
					return nil, false
				}
				out = append(out, c...)
			}
			return out, true
		case "call:path/filepath.Clean", "call:path.Clean":
			return components(t.Args[0])
		case "call:path/filepath.Dir", "call:path.Dir":
			c, ok := components(t.Args[0])
			if !ok || len(c) == 0 {
				return nil, false
			}
			return c[:len(c)-1], true
		case "cat":
			var out []Val
			var cur []Val
			for i, p := range t.Args {
				s, ok := isStr(p)
				if !ok {
					if q, ok := components(p); ok && i == 0 && len(q) > 1 {
						out, cur = append(out, q[:len(q)-1]...), []Val{q[len(q)-1]}
						continue
					}
					cur = append(cur, p)
					continue
				}
				for j, e := range strings.Split(s, "/") {
					if j > 0 {
						if len(cur) > 0 {
							out = append(out, mkCat(cur...))
						}
						cur = nil
					}
					if e != "" {
						cur = append(cur, cStr(e))
					}
				}
			}
			if len(cur) > 0 {
				out = append(out, mkCat(cur...))
			}
			return out, true
		}
		return []Val{v}, true
	}
	if s, ok := isStr(v); ok {
		var out []Val
		for _, e := range strings.Split(s, "/") {
			if e != "" {
				out = append(out, cStr(e))
			}
		}
		return out, true
	}
	if _, ok := v.(Top); ok {
		return nil, false
	}
	return []Val{v}, true
}

// cacheDir tells where in the user's cache of schemas a path is.
func cacheDir(v Val) ([]Val, bool) {
	c, ok := components(v)
	if !ok || len(c) < 3 {
		return nil, false
	}
	for i, want := range []string{"", ".cache", "yisp"} {
		if i == 0 {
			if !strings.HasPrefix(c[0].Key(), "$call:os.UserHomeDir0") {
				if strings.HasPrefix(c[0].Key(), "$call:os.UserCacheDir0") {
					c = append([]Val{c[0], cStr(".cache")}, c[1:]...)
					continue
				}
				return nil, false
			}
			continue
		}
		if s, ok := isStr(c[i]); !ok || s != want {
			return nil, false
		}
	}
	return c[3:], true
}

// tail is the constant end of a path.
func tail(v Val) string {
	ps := pieces(v)
	if len(ps) == 0 {
		return ""
	}
	last := ps[len(ps)-1]
	if t, ok := last.(*Term); ok && len(t.Args) > 0 {
		switch t.Op {
		case "call:path/filepath.Join", "call:path.Join", "list":
			return tail(t.Args[len(t.Args)-1])
		case "call:path/filepath.Clean", "call:path.Clean", "call:path/filepath.Abs#0":
			return tail(t.Args[0])
		}
	}
	t, _ := isStr(last)
	return t
}

func (x *flowRun) judge(r *Report, about string) {
	f := x.f
	errLast := false
	if n := f.root.Signature.Results().Len(); n > 0 {
		errLast = f.root.Signature.Results().At(n-1).Type().String() == "error"
	}
	for i, o := range x.outs {
		esc := f.in(o.St, o.Res...)
		res := f.s.In
		fails := errLast && res.relate(o.St, o.Res[len(o.Res)-1], Nil{})&EQ == 0
		for id, h := range f.handles {
			st := fact(o.St, "h:"+id)
			name := fmt.Sprintf("%s in %s, path %d", h.call, f.root, i)
			if about == "C05" && st != "" {
				r.check(st == "closed" || esc[id], flowRules[about], name, h.pos, "what %s opened stays open on a path through %s%s", h.call, f.root, pathText(o.St))
			}
			if about != "C04" || !h.response {
				continue
			}
			if fact(o.St, "t:"+id) == "failed" && errLast {
				r.check(fails, flowRules[about], name+" failed", h.pos, "%s succeeds although the request failed", f.root)
			}
			if st == "" || esc[id] && len(o.Res) > 0 && isResponse(f.root.Signature.Results().At(0).Type()) {
				continue
			}
			is200 := res.relate(o.St, h.status, cInt(200)) == EQ
			if errLast {
				r.check(fails || is200, flowRules[about], name, h.pos, "%s succeeds although the status may not be 200%s", f.root, pathText(o.St))
			}
		}
	}
}

func pathText(st *State) string {
	if t := factsString(st); t != "" {
		return " (" + clip(t) + ")"
	}
	return ""
}

func (x *flowRun) names(r *Report, finals []creation, called bool) {
	const rule = "final names are never written directly"
	for _, c := range x.f.creations {
		t := tail(c.path)
		what := fmt.Sprintf("%s of %s in %s", c.call, clip(c.path.Key()), x.f.root)
		if os.Getenv("CHECK_DEBUG") == "flow" {
			fmt.Fprintln(os.Stderr, x.f.root, c.pos, c.call, c.path.Key())
		}
		if t == "" {
			if !called {
				r.fail(rule, what, c.pos, "the name of the file is not determined")
			}
			continue
		}
		bad := ""
		for _, m := range finals {
			u := tail(m.path)
			if u == "" || strings.Contains(c.path.Key(), "tempdir~") && !strings.Contains(m.path.Key(), "tempdir~") {
				continue
			}
			if strings.HasSuffix(t, u) || strings.HasSuffix(u, t) {
				bad = fmt.Sprintf("the file %s is created although complete files are expected under names like %s", clip(c.path.Key()), clip(m.path.Key()))
			}
		}
		r.check(bad == "", rule, what, c.pos, "%s", bad)
	}
	for _, m := range x.f.moves {
		r.ok(flowRules["C30"], fmt.Sprintf("%s to %s in %s", m.call, clip(m.path.Key()), x.f.root), m.pos)
	}
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
