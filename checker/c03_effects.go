package main

import (
	"fmt"
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C03", Min: 30, Rule: "Every use of a function of the packages os, net, net/http, os/exec, syscall and the like, called or passed as a value anywhere in the evaluation packages, is one of: a read, a GET request, a process start reachable only from the two execution operators, or a change of files. Every path given to a change of files must, on all paths of the function and its callers, lie below the schema cache of the user, with unknown parts spelled by an encoder that produces no separators of its own making.", Run: runC03})
}

// effectPkgs have to be looked at function by function.
var effectPkgs = map[string]bool{
	"os": true, "os/exec": true, "os/signal": true, "os/user": true, "net": true, "net/http": true, "net/rpc": true, "net/smtp": true,
	"net/http/httputil": true, "syscall": true, "io/ioutil": true, "plugin": true, "log/syslog": true, "runtime/debug": true, "net/textproto": true,
	"golang.org/x/sys/unix": true, "runtime/pprof": true, "runtime/trace": true, "testing": true,
}

// reads neither change anything outside the process nor start anything.
var readOnly = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`os.Open os.ReadFile os.ReadDir os.Stat os.Lstat os.Getwd os.Getenv os.LookupEnv os.Environ os.ExpandEnv os.UserHomeDir
os.UserCacheDir os.UserConfigDir os.DirFS os.IsNotExist os.IsExist os.IsPermission os.TempDir os.Getpid os.Hostname os.Executable os.Readlink os.SameFile
os.Exit os.NewFile os.Getuid os.Expand os.OpenInRoot os.OpenRoot
(*os.File).Read (*os.File).ReadAt (*os.File).Close (*os.File).Name (*os.File).Stat (*os.File).ReadDir (*os.File).Readdir (*os.File).Readdirnames (*os.File).Seek
(*os.File).Fd (*os.File).ReadFrom (*os.File).Write (*os.File).WriteString (*os.File).WriteAt (*os.File).Sync (*os.File).Truncate (*os.File).WriteTo
io/ioutil.ReadFile io/ioutil.ReadAll io/ioutil.ReadDir
os/exec.Command os/exec.CommandContext os/exec.LookPath (*os/exec.Cmd).String
net/http.StatusText (*net/http.Response).Location (net/http.Header).Get (net/http.Header).Set (net/http.Header).Add (net/http.Header).Values
net.ParseIP net.ParseCIDR net.SplitHostPort net.JoinHostPort os/user.Current
runtime/debug.Stack runtime/debug.PrintStack runtime/debug.ReadBuildInfo`) {
		readOnly[n] = true
	}
}

// changes are followed to the paths they are given.
var changes = map[string]bool{"os.Create": true, "os.CreateTemp": true, "os.OpenFile": true, "io/ioutil.TempFile": true}

// encoders give names that cannot leave a directory.
var encoders = []string{"encoding/base64.", "(*encoding/base64.Encoding).EncodeToString", "encoding/hex.EncodeToString", "net/url.PathEscape", "net/url.QueryEscape", "strconv.", "fmt:%x", "fmt:%d", "fmt:%X", "random~"}

func runC03(r *Report) {
	w := r.W()
	p := w.P
	ops := w.opFuncs()
	allowed := map[*ssa.Function]bool{}
	for _, n := range []string{"exec.cmd", "exec.go"} {
		if ops[n] == nil {
			anchorf("there is no operator %s", n)
		}
		allowed[ops[n]] = true
	}
	g := p.static()
	inEval := func(f *ssa.Function) bool {
		pk := fnPkg(f)
		return pk != nil && !strings.HasSuffix(pk.Path(), "/cmd") && pk.Path() != modPath && f.Synthetic == ""
	}
	funcs := append([]*ssa.Function{}, g.funcs...)
	for f := range allFuncs(p) {
		if pk := fnPkg(f); pk != nil && strings.HasPrefix(pk.Path(), modPath+"/internal/") {
			funcs = append(funcs, f)
		}
	}
	sort.Slice(funcs, func(i, j int) bool { return funcs[i].String() < funcs[j].String() })
	n := 0
	const rule = "outside effects are known and harmless"
	for _, f := range funcs {
		if !inEval(f) {
			continue
		}
		n++
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for name, c := range effectsAt(i) {
					construct := fmt.Sprintf("%s in %s", name, f)
					pos := p.instrPos(i)
					switch {
					case readOnly[name]:
						r.ok(rule, construct, pos)
					case changes[name], fileEffects[name]:
						if c == nil {
							r.fail(rule, construct, pos, "%s is used as a value, so that what it changes is not known", name)
						} else {
							r.ok("changes of files are followed", construct, pos)
						}
					case name == "net/http.Get" || name == "(*net/http.Client).Get":
						r.ok(rule, construct, pos)
					case name == "net/http.NewRequest" || name == "net/http.NewRequestWithContext":
						k := 0
						if strings.HasSuffix(name, "Context") {
							k = 1
						}
						m := "unknown"
						if c != nil {
							if x, ok := c.Args[k].(*ssa.Const); ok && x.Value != nil && x.Value.Kind() == constant.String {
								m = constant.StringVal(x.Value)
							}
						}
						r.check(m == "GET" || m == "", rule, construct, pos, "a request with method %s is made", m)
					case name == "(*net/http.Client).Do", name == "(*net/http.Client).CloseIdleConnections":
						r.ok(rule, construct, pos)
					case strings.HasPrefix(name, "(*os/exec.Cmd)."), starters[name] != 0:
						bad := ""
						for _, t := range tops(g, f) {
							if !allowed[t] {
								bad = t.String()
							}
						}
						r.check(bad == "", rule, construct, pos, "a process can be started through %s, which is not one of the execution operators", bad)
					default:
						r.fail(rule, construct, pos, "%s is not among the harmless functions", name)
					}
				}
				// variables of the process
				if st, ok := i.(*ssa.Store); ok {
					if gl, ok := st.Addr.(*ssa.Global); ok && gl.Pkg != nil && effectPkgs[gl.Pkg.Pkg.Path()] {
						r.fail(rule, fmt.Sprintf("%s in %s", gl, f), p.instrPos(i), "the variable %s is changed", gl)
					}
				}
			}
		}
	}
	r.note("functions", n)
	// where files are changed
	const under = "files are changed only in the schema cache"
	fs := r.flows()
	for _, f := range fs.order {
		if !inEval(f) {
			continue
		}
		x := fs.runs[f]
		for _, l := range [][]creation{x.f.creations, x.f.moves, x.f.touched} {
			for _, c := range l {
				comps, ok := cacheDir(c.path)
				construct := fmt.Sprintf("%s of %s in %s", c.call, clip(c.path.Key()), f)
				if !ok {
					if len(x.callers) == 0 || !strings.Contains(c.path.Key(), "param~") {
						r.fail(under, construct, c.pos, "%s changes %s, which is not known to be in the cache", c.call, clip(c.path.Key()))
					}
					continue
				}
				bad := ""
				for k, e := range comps {
					s, isConst := isStr(e)
					switch {
					case isConst && (k > 0 || s == "schemas" || s == "gvk"):
						if s == ".." {
							bad = "the path leaves the cache"
						}
					case k == 0:
						bad = "the directory below the cache is " + e.Key()
					default:
						if !encoded1(e) {
							bad = clip(e.Key()) + " is part of the path and can contain .."
						}
					}
				}
				if len(comps) == 0 {
					bad = "the cache itself is changed"
				}
				if len(comps) == 1 && (strings.Contains(c.call, "Remove") || strings.Contains(c.call, "Rename")) {
					bad = "a whole directory is changed"
				}
				r.check(bad == "", under, construct, c.pos, "%s changes %s: %s", c.call, clip(c.path.Key()), bad)
			}
		}
	}
}

// encoded1 tells whether all unknown parts of a name come from encoders.
func encoded1(v Val) bool {
	ps := []Val{v}
	if t, ok := v.(*Term); ok && t.Op == "cat" {
		ps = t.Args
	}
	for _, p := range ps {
		if s, ok := isStr(p); ok {
			if strings.Contains(s, "/") {
				return false
			}
			continue
		}
		k := p.Key()
		k = strings.TrimPrefix(strings.TrimPrefix(k, "$"), "call:")
		good := false
		for _, e := range encoders {
			good = good || strings.HasPrefix(k, e)
		}
		if !good {
			return false
		}
	}
	return true
}

// tops are the functions without callers in the repository from which f is
// reached.
func tops(g *callGraph, f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		n := 0
		for _, c := range g.callers[f] {
			if isInit(c) {
				continue
			}
			n++
			walk(c)
		}
		if n == 0 {
			out = append(out, f)
		}
	}
	walk(f)
	return out
}

// effectsAt lists the functions of effectPkgs an instruction mentions, with
// the call if it is one.
func effectsAt(i ssa.Instruction) map[string]*ssa.CallCommon {
	out := map[string]*ssa.CallCommon{}
	var callee ssa.Value
	if ci, ok := i.(ssa.CallInstruction); ok {
		c := ci.Common()
		name, pkg, _ := calleeSig(c)
		if effectPkgs[pkg] && !strings.HasPrefix(name, "(io.") && !strings.HasPrefix(name, "(io/fs.") {
			out[name] = c
		}
		callee = c.Value
	}
	for _, o := range i.Operands(nil) {
		if f, ok := (*o).(*ssa.Function); ok && *o != callee {
			k := Call{Fn: f}
			if effectPkgs[k.pkgPath()] {
				out[fnName(f)] = nil
			}
		}
	}
	return out
}
