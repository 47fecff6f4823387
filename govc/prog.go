package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the program under verification, in SSA form.
type Prog struct {
	prog         *ssa.Program
	pkgs         []*ssa.Package
	byName       map[string][]*ssa.Package
	modPath      string
	dir          string
	constGlobals map[*ssa.Global]bool
	funcs        map[string]*ssa.Function
	names        map[*ssa.Function]string
	loopTab      map[*ssa.Function]map[*ssa.BasicBlock]*LoopInfo
	mu           sync.Mutex
}

func loadProg(dir, modPath string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%v", p.Errors[0])
		}
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{prog: prog, modPath: modPath, dir: dir, byName: map[string][]*ssa.Package{}, constGlobals: map[*ssa.Global]bool{},
		funcs: map[string]*ssa.Function{}, names: map[*ssa.Function]string{}, loopTab: map[*ssa.Function]map[*ssa.BasicBlock]*LoopInfo{}}
	_ = spkgs
	for _, sp := range prog.AllPackages() {
		if strings.HasPrefix(sp.Pkg.Path(), modPath) {
			p.pkgs = append(p.pkgs, sp)
		}
		p.byName[sp.Pkg.Name()] = append(p.byName[sp.Pkg.Name()], sp)
	}
	sort.Slice(p.pkgs, func(i, j int) bool { return p.pkgs[i].Pkg.Path() < p.pkgs[j].Pkg.Path() })
	for n := range p.byName {
		l := p.byName[n]
		sort.SliceStable(l, func(i, j int) bool {
			a, b := strings.HasPrefix(l[i].Pkg.Path(), modPath), strings.HasPrefix(l[j].Pkg.Path(), modPath)
			if a != b {
				return a
			}
			return l[i].Pkg.Path() < l[j].Pkg.Path()
		})
	}
	var all []*ssa.Function
	for f := range ssautil.AllFunctions(prog) {
		all = append(all, f)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	for _, f := range all {
		n := p.fnName(f)
		if n == "" {
			continue
		}
		if g, dup := p.funcs[n]; dup {
			// methods of values are also present as pointer wrappers
			if g.Synthetic == "" {
				continue
			}
		}
		p.funcs[n] = f
	}
	p.findConstGlobals(all)
	return p, nil
}

// fnName is the name contracts use: pkg.Func, pkg.Type.Method; main packages are named by their directory.
func (p *Prog) fnName(f *ssa.Function) string {
	p.mu.Lock()
	n, ok := p.names[f]
	p.mu.Unlock()
	if ok {
		return n
	}
	n = p.fnName0(f)
	p.mu.Lock()
	p.names[f] = n
	p.mu.Unlock()
	return n
}

func (p *Prog) pkgLabel(pk *types.Package) string {
	if pk.Name() == "main" {
		return "cmd/" + filepath.Base(pk.Path())
	}
	return pk.Name()
}

func (p *Prog) fnName0(f *ssa.Function) string {
	if o := f.Origin(); o != nil && o != f {
		f = o
	}
	if f.Parent() != nil {
		// f.Name() is parent$n
		i := strings.LastIndex(f.Name(), "$")
		return p.fnName(f.Parent()) + f.Name()[i:]
	}
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return ""
		}
		if f.Synthetic != "" && f.Pkg == nil && f.Object() == nil {
			return ""
		}
		return p.pkgLabel(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + f.Name()
	}
	if f.Pkg == nil {
		return ""
	}
	return p.pkgLabel(f.Pkg.Pkg) + "." + f.Name()
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), p.modPath)
	}
	return false
}

func (p *Prog) loops(f *ssa.Function) map[*ssa.BasicBlock]*LoopInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	l, ok := p.loopTab[f]
	if !ok {
		l = findLoops(f)
		p.loopTab[f] = l
	}
	return l
}

func (p *Prog) loopOf(f *ssa.Function, b *ssa.BasicBlock) *LoopInfo { return p.loops(f)[b] }

func (p *Prog) pos(x token.Pos) string {
	ps := p.prog.Fset.Position(x)
	f, err := filepath.Rel(p.dir, ps.Filename)
	if err != nil {
		f = ps.Filename
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// findConstGlobals: repo globals that only their package initialiser stores to, and whose address is only
// used for loads (or stores in the initialiser).
func (p *Prog) findConstGlobals(all []*ssa.Function) {
	bad := map[*ssa.Global]bool{}
	for _, f := range all {
		isInit := f.Synthetic == "package initializer" || (f.Parent() == nil && strings.HasPrefix(f.Name(), "init"))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.DebugRef:
					case *ssa.UnOp: // what a slice, map or pointer refers to must not be written either
						if !isInit && refers(x.Type()) && !onlyRead(x) {
							bad[g] = true
						}
					case *ssa.Store:
						if x.Addr != g || !isInit || f.Pkg != g.Pkg {
							bad[g] = true
						}
					case *ssa.IndexAddr, *ssa.FieldAddr:
						v := in.(ssa.Value)
						if !isInit && !onlyRead(v) {
							bad[g] = true
						}
					default:
						if !isInit {
							bad[g] = true
						}
					}
				}
			}
		}
	}
	for _, sp := range p.pkgs {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !bad[g] {
				p.constGlobals[g] = true
			}
		}
	}
}

func onlyRead(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if refers(x.Type()) && !onlyRead(x) {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyRead(x) {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyRead(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// refers reports whether a value of this type gives access to memory that can be written.
func refers(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return true
	}
	return false
}
