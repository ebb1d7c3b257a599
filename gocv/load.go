package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const specPath = "github.com/stephen/cssc/internal/verifspec"

// Program is /repo with the contract files overlaid, in SSA form.
type Program struct {
	end         time.Time
	prog        *ssa.Program
	fset        *token.FileSet
	pkgs        map[string]*ssa.Package
	contracts   map[string]*ssa.Function // verified function's key -> contract
	lemmas      []*ssa.Function
	recursive   map[*ssa.Function]bool
	callees     map[*ssa.Function][]*ssa.Function
	types       map[string]types.Type
	impls       map[*types.Named][]int64
	invs        map[*types.Named]*ssa.Function
	ranks       map[*ssa.Function]bool
	invPkgs     map[*types.Package]bool
	kinds       map[*types.Named]*ssa.Function
	made        map[string]types.Type
	leafs       map[string]leaf
	builderType types.Type
	files       map[string]string // overlay: path in /repo -> file of ours
	repo        string
	opaques     map[*ssa.Function]int
	dropped     map[string]string // contracts and lemmas that do not fit the code
}

var contractName = regexp.MustCompile(`(?m)^func ((?:contract|lemma)_\w+)`)

// overlayFiles maps paths inside the repository to our contract files.
func overlayFiles(repo, dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		out[filepath.Join(repo, filepath.Dir(rel), filepath.Base(rel))] = p
		return nil
	})
	return out, err
}

func load(repo, dir string, patterns []string) (*Program, error) {
	files, err := overlayFiles(repo, dir)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for p, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[p] = b
	}
	dropped := map[string]string{}
	var ps []*packages.Package
again:
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	ps, err = packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	bad := map[string]string{}
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
			if i := strings.Index(e.Pos, ".go:"); i > 0 {
				f := e.Pos[:i+3]
				if _, ours := ov[f]; ours && bad[f] == "" {
					bad[f] = e.Error()
				}
			}
		}
	})
	if len(errs) > 0 && len(bad) > 0 {
		// The contracts of these files do not fit the code; the others may still be decided.
		for f, e := range bad {
			dropped[f] = e
			delete(ov, f)
		}
		goto again
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{opaques: map[*ssa.Function]int{}, prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, contracts: map[string]*ssa.Function{}, files: files, repo: repo, dropped: map[string]string{}}
	for f, e := range dropped {
		b, _ := os.ReadFile(files[f])
		pkg := filepath.Base(filepath.Dir(f))
		for _, m := range contractName.FindAllStringSubmatch(string(b), -1) {
			p.dropped[pkg+"."+strings.TrimPrefix(m[1], "contract_")] = e
		}
	}
	for _, pk := range prog.AllPackages() {
		if strings.HasPrefix(pk.Pkg.Path(), "github.com/stephen/cssc") {
			pk.Build()
			p.pkgs[pk.Pkg.Path()] = pk
		}
	}
	for _, pk := range p.pkgs {
		for name, m := range pk.Members {
			fn, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			if strings.HasPrefix(name, "contract_") {
				p.contracts[pk.Pkg.Path()+"."+strings.TrimPrefix(name, "contract_")] = fn
			}
			if isLemma(name) {
				p.lemmas = append(p.lemmas, fn)
			}
		}
	}
	p.findRecursion()
	p.indexTypes()
	p.findInvariants()
	p.findMade()
	return p, nil
}

// key names a function the way contracts refer to it: pkg.Func, pkg.Type_Method.
func key(fn *ssa.Function) string {
	if fn.Pkg == nil {
		return fn.String()
	}
	n := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name() + "_" + n
		}
	}
	return fn.Pkg.Pkg.Path() + "." + n
}

func shortKey(k string) string {
	return k[strings.LastIndex(k, "/")+1:]
}

// lookup finds the function a contract is about.
func (p *Program) lookup(k string) *ssa.Function {
	i := strings.LastIndex(k, ".")
	pk := p.pkgs[k[:i]]
	if pk == nil {
		return nil
	}
	n := k[i+1:]
	if fn := pk.Func(n); fn != nil {
		return fn
	}
	if j := strings.Index(n, "_"); j > 0 {
		t := pk.Type(n[:j])
		if t == nil {
			return nil
		}
		for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := p.prog.MethodSets.MethodSet(ty)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == n[j+1:] {
					if fn := p.prog.MethodValue(ms.At(k)); fn != nil && fn.Synthetic == "" {
						return fn
					}
				}
			}
		}
	}
	return nil
}

// findRecursion marks the functions in /repo's packages that can call themselves.
func (p *Program) findRecursion() {
	p.recursive = map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Pkg != nil && p.pkgs[fn.Pkg.Pkg.Path()] != nil {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	callees := map[*ssa.Function][]*ssa.Function{}
	p.callees = callees
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						callees[fn] = append(callees[fn], f)
					}
				}
			}
		}
	}
	for _, fn := range fns {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			for _, g := range callees[f] {
				if g == fn {
					return true
				}
				if !seen[g] && !p.byType(g) {
					seen[g] = true
					if walk(g) {
						return true
					}
				}
			}
			return false
		}
		if walk(fn) {
			p.recursive[fn] = true
		}
	}
}

// sameSCC holds if f and g can call each other.
func (p *Program) sameSCC(f, g *ssa.Function) bool {
	if f == nil || g == nil || !p.recursive[f] || !p.recursive[g] {
		return false
	}
	return f == g || p.reach(f, g) && p.reach(g, f)
}

func (p *Program) reach(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{f: true}
	work := []*ssa.Function{f}
	for len(work) > 0 {
		h := work[len(work)-1]
		work = work[:len(work)-1]
		for _, k := range p.callees[h] {
			if k == g {
				return true
			}
			if !seen[k] {
				seen[k] = true
				work = append(work, k)
			}
		}
	}
	return false
}

// typeByString finds a named type of the repository, or a pointer to one.
func (p *Program) typeByString(s string) types.Type { return p.types[s] }

// leafByKey finds a field by its key.
func (p *Program) leafByKey(k string) (leaf, bool) { l, ok := p.leafs[k]; return l, ok }

func (p *Program) indexTypes() {
	p.types = map[string]types.Type{}
	p.leafs = map[string]leaf{}
	if sp := p.prog.ImportedPackage("strings"); sp != nil {
		p.builderType = sp.Type("Builder").Type()
	}
	var paths []string
	for path := range p.pkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		pk := p.pkgs[path]
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			ty := t.Type()
			p.types[types.TypeString(ty, nil)] = ty
			p.types["*"+types.TypeString(ty, nil)] = types.NewPointer(ty)
			if _, ok := isStruct(ty); ok {
				for _, l := range leaves(ty) {
					p.leafs[l.key] = l
				}
			}
		}
	}
}

// opaque holds for specification functions that call verifspec.Opaque or Hidden.
func (p *Program) opaque(f *ssa.Function) bool { return p.opacity(f) > 0 }

// hidden holds for those that call Hidden.
func (p *Program) hidden(f *ssa.Function) bool { return p.opacity(f) == 2 }

// byType holds for those that call ByType.
func (p *Program) byType(f *ssa.Function) bool { return p.opacity(f) == 3 }

func (p *Program) opacity(f *ssa.Function) int {
	loopMu.Lock()
	defer loopMu.Unlock()
	if v, ok := p.opaques[f]; ok {
		return v
	}
	v := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == specPath {
					switch g.Name() {
					case "Opaque":
						v = 1
					case "Hidden":
						v = 2
					case "ByType":
						v = 3
					}
				}
			}
		}
	}
	p.opaques[f] = v
	return v
}

func isLemma(name string) bool {
	return strings.HasPrefix(name, "lemma_") || strings.HasPrefix(name, "Lemma_")
}
