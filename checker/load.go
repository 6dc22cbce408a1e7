package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/totegamma/yisp"

// Program is the type-checked and SSA-built form of the repository.
type Program struct {
	Repo   string
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	SSA    *ssa.Program
	ByPath map[string]*ssa.Package
	TPkgs  map[string]*packages.Package
	Funcs  []*ssa.Function // every function with a body in the module (not internal/yaml)
	Yaml   []*ssa.Function // functions of the vendored yaml fork
	RoF    int             // range-over-func loops rewritten
}

// anchorError is a failure to resolve something the checks rest on; it is
// reported as a violation, never ignored.
type anchorError struct{ msg string }

func (a anchorError) Error() string { return a.msg }

func anchorf(f string, a ...any) { panic(anchorError{fmt.Sprintf(f, a...)}) }

func repoDir() string {
	if d := os.Getenv("YISP_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// Load type-checks the repository and builds SSA for it. Loops ranging over an
// iterator function are presented to SSA as loops over an opaque map (see
// rewriteRangeFunc) so that loop bodies stay in their enclosing function.
func Load() (*Program, error) {
	dir := repoDir()
	first, err := loadPkgs(dir, nil)
	if err != nil {
		return nil, err
	}
	overlay, n := rewriteRangeFunc(first)
	pkgs := first
	if n > 0 {
		pkgs, err = loadPkgs(dir, overlay)
		if err != nil {
			return nil, err
		}
	}
	p := &Program{Repo: dir, Pkgs: pkgs, ByPath: map[string]*ssa.Package{}, TPkgs: map[string]*packages.Package{}, RoF: n}
	p.Fset = pkgs[0].Fset
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	for _, path := range interpretedPkgs {
		if sp := prog.ImportedPackage(path); sp != nil {
			sp.Build()
		}
	}
	for _, sp := range spkgs {
		if sp != nil {
			sp.Build()
		}
	}
	p.SSA = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for package %s", pkgs[i].PkgPath)
		}
		p.ByPath[sp.Pkg.Path()] = sp
		p.TPkgs[sp.Pkg.Path()] = pkgs[i]
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		pk := fnPkg(fn)
		if pk == nil || !strings.HasPrefix(pk.Path(), modPath) {
			continue
		}
		if strings.HasSuffix(p.Fset.Position(fn.Pos()).Filename, "zz_vseq.go") {
			continue
		}
		if strings.HasPrefix(pk.Path(), modPath+"/internal/") {
			p.Yaml = append(p.Yaml, fn)
		} else {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	byName := func(fs []*ssa.Function) {
		sort.Slice(fs, func(i, j int) bool {
			if fs[i].String() != fs[j].String() {
				return fs[i].String() < fs[j].String()
			}
			return fs[i].Pos() < fs[j].Pos()
		})
	}
	byName(p.Funcs)
	byName(p.Yaml)
	return p, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg()
		}
	}
	return nil
}

// interpretedPkgs are library packages whose bodies are analysed when no model
// covers a call.
var interpretedPkgs = []string{"slices", "maps", "cmp"}

func loadPkgs(dir string, overlay map[string][]byte) ([]*packages.Package, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		if len(p.Syntax) == 0 || p.TypesInfo == nil {
			return nil, fmt.Errorf("%s: no syntax", p.PkgPath)
		}
	}
	return pkgs, nil
}

const vseqSrc = `
func __vseq2[K comparable, V any](f func(yield func(K, V) bool)) map[K]V { return nil }
func __vseq1[K comparable](f func(yield func(K) bool)) map[K]struct{} { return nil }
`

// rewriteRangeFunc returns overlay contents in which "range f" over an
// iterator function reads "range __vseq2(f)".
func rewriteRangeFunc(pkgs []*packages.Package) (map[string][]byte, int) {
	overlay := map[string][]byte{}
	n := 0
	for _, p := range pkgs {
		touched := ""
		for _, f := range p.Syntax {
			type ins struct {
				off  int
				text string
			}
			var edits []ins
			ast.Inspect(f, func(nd ast.Node) bool {
				r, ok := nd.(*ast.RangeStmt)
				if !ok {
					return true
				}
				tv, ok := p.TypesInfo.Types[r.X]
				if !ok {
					return true
				}
				sig, ok := tv.Type.Underlying().(*types.Signature)
				if !ok || sig.Params().Len() != 1 {
					return true
				}
				y, ok := sig.Params().At(0).Type().Underlying().(*types.Signature)
				if !ok {
					return true
				}
				np := y.Params().Len()
				if np != 1 && np != 2 {
					return true
				}
				if !types.Comparable(y.Params().At(0).Type()) {
					return true
				}
				o := func(ps token.Pos) int { return p.Fset.Position(ps).Offset }
				edits = append(edits, ins{o(r.X.Pos()), fmt.Sprintf("__vseq%d(", np)}, ins{o(r.X.End()), ")"})
				n++
				return true
			})
			if len(edits) == 0 {
				continue
			}
			name := p.Fset.Position(f.Pos()).Filename
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
			var b strings.Builder
			last := 0
			for _, e := range edits {
				b.Write(src[last:e.off])
				b.WriteString(e.text)
				last = e.off
			}
			b.Write(src[last:])
			overlay[name] = []byte(b.String())
			touched = filepath.Dir(name)
		}
		if touched != "" {
			overlay[filepath.Join(touched, "zz_vseq.go")] = []byte("package " + p.Name + "\n" + vseqSrc)
		}
	}
	return overlay, n
}

// isVseq reports whether fn is one of the opaque iteration helpers.
func isVseq(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return strings.HasPrefix(fn.Name(), "__vseq")
}

func (p *Program) pos(ps token.Pos) string {
	q := p.Fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Program) instrPos(in ssa.Instruction) string {
	ps := in.Pos()
	if ps == token.NoPos {
		if v, ok := in.(ssa.Value); ok {
			for _, r := range *v.Referrers() {
				if r.Pos() != token.NoPos {
					ps = r.Pos()
					break
				}
			}
		}
	}
	if ps == token.NoPos {
		b := in.Block()
		for _, i2 := range b.Instrs {
			if i2.Pos() != token.NoPos {
				ps = i2.Pos()
				break
			}
		}
	}
	if ps == token.NoPos {
		ps = in.Parent().Pos()
	}
	return p.pos(ps)
}

// lookups of exported API ------------------------------------------------

func (p *Program) pkg(rel string) *ssa.Package {
	path := modPath
	if rel != "" {
		path += "/" + rel
	}
	sp := p.ByPath[path]
	if sp == nil {
		anchorf("package %s not found", path)
	}
	return sp
}

func (p *Program) fn(rel, name string) *ssa.Function {
	f := p.pkg(rel).Func(name)
	if f == nil {
		anchorf("function %s.%s not found", rel, name)
	}
	return f
}

func (p *Program) typ(rel, name string) types.Type {
	m := p.pkg(rel).Type(name)
	if m == nil {
		anchorf("type %s.%s not found", rel, name)
	}
	return m.Type()
}

// method resolves a method of *T.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := p.SSA.MethodValue(ms.At(i))
			if f != nil {
				return f
			}
		}
	}
	anchorf("method %s of %s not found", name, t)
	return nil
}

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }
