package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Mod is the module path of the code under analysis.
const Mod = "github.com/freerware/negotiator"

// Prog is the resolved program under analysis.
type Prog struct {
	Root string
	SSA  *ssa.Program
	Pkgs map[string]*ssa.Package // by path relative to the module ("" is the root)
	Src  []*packages.Package
	// constGlobals are the package variables of the module that are stored to
	// by their package initializer only, exactly once, and never otherwise
	// have their address taken for anything but loads and field reads.
	initStore     map[*ssa.Global]*ssa.Store
	mutated       map[*ssa.Global]token.Pos
	globalsByName map[string]*ssa.Global
	staticVals    map[*ssa.Package]map[string]*Term
	Funcs         []*ssa.Function // all non-synthetic functions of the module, closures included
}

// loadProg loads the program under root. What is not code under analysis may
// fail to load for reasons of the moment, and is tried again.
func loadProg(root string) (p *Prog, err error) {
	for i := 0; i < 4; i++ {
		if p, err = load(root); err == nil {
			return p, nil
		}
		time.Sleep(time.Duration(i) * 2 * time.Second)
	}
	return nil, err
}

func load(root string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: root, Env: os.Environ()}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, Mod) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Root: root, SSA: prog, Pkgs: map[string]*ssa.Package{}, Src: ps}
	for _, pk := range ps {
		sp := prog.Package(pk.Types)
		if sp == nil {
			why := ""
			packages.Visit(ps, nil, func(p *packages.Package) {
				if len(p.Errors) > 0 && len(why) < 300 {
					why += fmt.Sprintf("; %s: %v", p.PkgPath, p.Errors)
				}
			})
			return nil, fmt.Errorf("no SSA for %s%s", pk.PkgPath, why)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, Mod), "/")
		p.Pkgs[rel] = sp
	}
	p.collectFuncs()
	p.classifyGlobals()
	return p, nil
}

func (p *Prog) inModule(pk *ssa.Package) bool {
	return pk != nil && (pk.Pkg.Path() == Mod || strings.HasPrefix(pk.Pkg.Path(), Mod+"/"))
}

func (p *Prog) isTestHelper(pk *ssa.Package) bool {
	return pk != nil && (strings.HasPrefix(pk.Pkg.Path(), Mod+"/internal/test") ||
		strings.HasPrefix(pk.Pkg.Path(), Mod+"/internal/representation"))
}

func fnPkg(f *ssa.Function) *ssa.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o != f {
			f = o
			continue
		}
		if f.Parent() != nil {
			f = f.Parent()
			continue
		}
		// wrappers and bound methods
		if obj := f.Object(); obj != nil && obj.Pkg() != nil {
			return f.Prog.Package(obj.Pkg())
		}
		return nil
	}
	return nil
}

func (p *Prog) collectFuncs() {
	all := ssautil.AllFunctions(p.SSA)
	for f := range all {
		if f.Blocks == nil || !p.inModule(fnPkg(f)) {
			continue
		}
		p.Funcs = append(p.Funcs, f)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
}

// classifyGlobals finds the package variables that keep the value their
// initializer gives them.
func (p *Prog) classifyGlobals() {
	p.initStore = map[*ssa.Global]*ssa.Store{}
	p.mutated = map[*ssa.Global]token.Pos{}
	for _, f := range p.Funcs {
		isInit := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m := updatedMap(in); m != nil && !isInit && !strings.HasPrefix(f.Name(), "init#") {
					if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
						if g := globalRoot(u.X); g != nil {
							p.mutated[g] = in.Pos()
						}
					}
				}
				st, ok := in.(*ssa.Store)
				if ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if isInit && p.initStore[g] == nil {
							p.initStore[g] = st
						} else {
							p.mutated[g] = st.Pos()
						}
						continue
					}
					if g := globalRoot(st.Addr); g != nil && !isInit {
						p.mutated[g] = st.Pos()
					}
				}
			}
		}
	}
}

// updatedMap is the map whose entries an instruction changes.
func updatedMap(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		return x.Map
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
			return x.Call.Args[0]
		}
	}
	return nil
}

func globalRoot(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (p *Prog) posn(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.SSA.Fset.Position(pos)
	rel, err := filepath.Rel(p.Root, ps.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// posOf finds the closest known position of an instruction.
func (p *Prog) posOf(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.posn(in.Pos())
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return p.posn((*op).Pos())
		}
	}
	if in.Parent() != nil {
		return p.posn(in.Parent().Pos())
	}
	return "?"
}

// fn resolves a function or method by package and name, such as
// ("proactive", "Negotiator", "Negotiate").
func (p *Prog) method(rel, typ, name string) *ssa.Function {
	pk := p.Pkgs[rel]
	if pk == nil {
		return nil
	}
	m := pk.Type(typ)
	if m == nil {
		return nil
	}
	return p.methodOf(m.Type(), name)
}

func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := p.SSA.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			sel := ms.At(i)
			if sel.Obj().Name() == name {
				f := p.SSA.MethodValue(sel)
				// the declared method rather than a wrapper around it.
				if d := p.SSA.FuncValue(sel.Obj().(*types.Func)); d != nil && len(sel.Index()) == 1 && types.Identical(d.Signature.Recv().Type(), tt) {
					return d
				}
				return f
			}
		}
	}
	return nil
}

func (p *Prog) fun(rel, name string) *ssa.Function {
	pk := p.Pkgs[rel]
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func (p *Prog) global(rel, name string) *ssa.Global {
	pk := p.Pkgs[rel]
	if pk == nil {
		return nil
	}
	return pk.Var(name)
}
