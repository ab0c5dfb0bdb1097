// Command mut lists changes of the repository, as JSON lines: with -kind bug
// those that alter what the code does (operators, constants, statements), with
// -kind same those that do not (rewritings of control flow and expressions).
// It is used to try the checks, never by them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	Off, End int
	New      string
}

type mutant struct {
	ID    string
	Op    string
	File  string
	Line  int
	Fn    string
	Edits []edit
}

type gen struct {
	fset *token.FileSet
	info *types.Info
	src  []byte
	file string
	fn   string
	base int
	out  []mutant
	n    int
	tf   *token.File
}

func (g *gen) off(p token.Pos) int { return g.tf.Offset(p) }

func (g *gen) text(n ast.Node) string { return string(g.src[g.off(n.Pos()):g.off(n.End())]) }

func (g *gen) span(a, b token.Pos) string { return string(g.src[g.off(a):g.off(b)]) }

func (g *gen) add(op string, at token.Pos, es ...edit) {
	g.n++
	g.out = append(g.out, mutant{
		ID: fmt.Sprintf("%s-%s-%d-%d", op, strings.TrimSuffix(filepath.Base(g.file), ".go"), g.fset.Position(at).Line, g.n),
		Op: op, File: g.file, Line: g.fset.Position(at).Line, Fn: g.fn, Edits: es,
	})
}

func (g *gen) rep(n ast.Node, s string) edit { return edit{g.off(n.Pos()), g.off(n.End()), s} }

func main() {
	kind := flag.String("kind", "bug", "bug or same")
	root := flag.String("repo", "/repo", "")
	flag.Parse()
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: *root}, "./...")
	if err != nil {
		panic(err)
	}
	var all []mutant
	for _, p := range ps {
		if strings.Contains(p.PkgPath, "internal/test") {
			continue
		}
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			rel, _ := filepath.Rel(*root, name)
			g := &gen{fset: p.Fset, info: p.TypesInfo, src: src, file: rel, tf: p.Fset.File(f.Pos())}
			for _, d := range f.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					g.fn = x.Name.Name
					if x.Recv != nil {
						g.fn = types.ExprString(x.Recv.List[0].Type) + "." + g.fn
					}
				case *ast.GenDecl:
					if x.Tok == token.IMPORT {
						continue
					}
					g.fn = "decl"
				}
				if *kind == "bug" {
					g.bugs(d)
				} else {
					g.sames(d, f)
				}
			}
			all = append(all, g.out...)
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].File < all[j].File })
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, m := range all {
		enc.Encode(m)
	}
}

var swaps = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR},
	token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
}

// logging reports whether the call is one of a logger.
func (g *gen) logging(n ast.Node) bool {
	c, ok := n.(*ast.CallExpr)
	if !ok {
		return false
	}
	s := types.ExprString(c.Fun)
	return strings.Contains(s, "logger.") || strings.HasPrefix(s, "zap.")
}

func (g *gen) bugs(d ast.Decl) {
	var stack []ast.Node
	ast.Inspect(d, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if g.logging(n) {
			return false
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.BinaryExpr:
			for _, t := range swaps[x.Op] {
				g.add("bin", x.OpPos, edit{g.off(x.OpPos), g.off(x.OpPos) + len(x.Op.String()), t.String()})
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				g.add("left", x.Pos(), g.rep(x, "("+g.text(x.X)+")"))
				g.add("right", x.Pos(), g.rep(x, "("+g.text(x.Y)+")"))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				g.add("unnot", x.Pos(), g.rep(x, g.text(x.X)))
			}
		case *ast.IfStmt:
			g.add("iffalse", x.Cond.Pos(), g.rep(x.Cond, "false && ("+g.text(x.Cond)+")"))
			g.add("iftrue", x.Cond.Pos(), g.rep(x.Cond, "true || ("+g.text(x.Cond)+")"))
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				v, err := strconv.Atoi(x.Value)
				if err == nil {
					g.add("int", x.Pos(), g.rep(x, strconv.Itoa(v+1)))
					if v > 0 {
						g.add("int", x.Pos(), g.rep(x, strconv.Itoa(v-1)))
					}
				}
			case token.FLOAT:
				g.add("float", x.Pos(), g.rep(x, "0.5"))
			case token.STRING:
				if len(stack) > 1 {
					if _, ok := stack[len(stack)-2].(*ast.Field); ok {
						// a tag.
						break
					}
				}
				s, err := strconv.Unquote(x.Value)
				if err == nil {
					g.add("str", x.Pos(), g.rep(x, strconv.Quote(s+"x")))
					if s != "" {
						g.add("str", x.Pos(), g.rep(x, `""`))
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				g.add("bool", x.Pos(), g.rep(x, strconv.FormatBool(x.Name == "false")))
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				g.add("brk", x.Pos(), g.rep(x, "continue"))
			}
			if x.Label == nil && x.Tok == token.CONTINUE {
				g.add("brk", x.Pos(), g.rep(x, "break"))
			}
		case *ast.BlockStmt:
			for i, s := range x.List {
				g.stmt(x.List, i, s)
			}
		case *ast.CaseClause:
			for i, s := range x.Body {
				g.stmt(x.Body, i, s)
			}
			if len(x.List) > 1 {
				g.add("casedrop", x.Pos(), edit{g.off(x.List[0].Pos()), g.off(x.List[1].Pos()), ""})
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && types.Identical(g.info.TypeOf(id), types.Universe.Lookup("error").Type()) {
					g.add("nilerr", r.Pos(), g.rep(r, "nil"))
				}
			}
		case *ast.RangeStmt:
			if _, ok := g.info.TypeOf(x.X).Underlying().(*types.Slice); ok {
				g.add("rng1", x.X.Pos(), g.rep(x.X, g.text(x.X)+"[min(1, len("+g.text(x.X)+")):]"))
				g.add("rngl", x.X.Pos(), g.rep(x.X, g.text(x.X)+"[:max(0, len("+g.text(x.X)+")-1)]"))
			}
		case *ast.CallExpr:
			if len(x.Args) >= 2 {
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := x.Args[i], x.Args[i+1]
					ta, tb := g.info.TypeOf(a), g.info.TypeOf(b)
					if ta != nil && tb != nil && types.Identical(ta, tb) && g.text(a) != g.text(b) {
						g.add("argswap", a.Pos(), g.rep(a, g.text(b)), g.rep(b, g.text(a)))
					}
				}
			}
			if x.Ellipsis.IsValid() {
				a := x.Args[len(x.Args)-1]
				if _, ok := g.info.TypeOf(a).Underlying().(*types.Slice); ok {
					g.add("spread1", a.Pos(), g.rep(a, g.text(a)+"[:min(1, len("+g.text(a)+"))]"))
				}
			}
		case *ast.SelectorExpr:
			// another field or method of the same type.
			sel := g.info.Selections[x]
			if sel == nil {
				// another function or constant of the same package and type.
				if id, ok := x.X.(*ast.Ident); ok {
					if pn, ok := g.info.Uses[id].(*types.PkgName); ok {
						o := g.info.Uses[x.Sel]
						if o != nil {
							g.others(x.Sel, o, pn.Imported().Scope(), 2)
						}
					}
				}
				break
			}
			t := sel.Recv()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			k := 0
			if sel.Kind() == types.FieldVal {
				if st, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields() && k < 2; i++ {
						f := st.Field(i)
						if f.Name() != x.Sel.Name && types.Identical(f.Type(), g.info.TypeOf(x)) && (f.Exported() || f.Pkg() == sel.Obj().Pkg()) {
							k++
							g.add("field", x.Sel.Pos(), g.rep(x.Sel, f.Name()))
						}
					}
				}
			} else if sel.Kind() == types.MethodVal {
				ms := types.NewMethodSet(t)
				for i := 0; i < ms.Len() && k < 3; i++ {
					f := ms.At(i).Obj()
					if f.Name() != x.Sel.Name && f.Exported() && types.Identical(f.Type().(*types.Signature), g.info.TypeOf(x)) {
						k++
						g.add("method", x.Sel.Pos(), g.rep(x.Sel, f.Name()))
					}
				}
			}
		}
		return true
	})
}

// others: other functions or constants of the same type.
func (g *gen) others(id *ast.Ident, o types.Object, sc *types.Scope, max int) {
	if _, ok := o.(*types.TypeName); ok {
		return
	}
	k := 0
	names := sc.Names()
	at := sort.SearchStrings(names, o.Name())
	for d := 1; d < len(names) && k < max; d++ {
		for _, j := range []int{at - d, at + d} {
			if j < 0 || j >= len(names) || k >= max {
				continue
			}
			p := sc.Lookup(names[j])
			if !p.Exported() || fmt.Sprintf("%T", p) != fmt.Sprintf("%T", o) || !types.Identical(p.Type(), o.Type()) {
				continue
			}
			k++
			g.add("other", id.Pos(), g.rep(id, p.Name()))
		}
	}
}

// stmt removes a statement.
func (g *gen) stmt(list []ast.Stmt, i int, s ast.Stmt) {
	switch x := s.(type) {
	case *ast.ExprStmt:
		if g.logging(x.X) {
			return
		}
		g.add("del", s.Pos(), g.rep(s, ""))
	case *ast.IncDecStmt, *ast.DeferStmt:
		g.add("del", s.Pos(), g.rep(s, ""))
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			var keep []string
			for _, r := range x.Rhs {
				keep = append(keep, g.text(r))
			}
			bl := strings.TrimSuffix(strings.Repeat("_, ", len(x.Lhs)), ", ")
			g.add("del", s.Pos(), g.rep(s, bl+" = "+strings.Join(keep, ", ")))
		}
	case *ast.IfStmt:
		if x.Else == nil && x.Init == nil {
			g.add("delif", s.Pos(), g.rep(s, "_ = "+g.text(x.Cond)))
		}
	case *ast.ForStmt, *ast.RangeStmt:
	case *ast.ReturnStmt:
	}
	if i+1 < len(list) {
		// exchange two statements.
		t := list[i+1]
		_, a := s.(*ast.ExprStmt)
		_, b := t.(*ast.ExprStmt)
		if _, ok := s.(*ast.AssignStmt); ok {
			a = true
		}
		if _, ok := t.(*ast.AssignStmt); ok {
			b = true
		}
		if _, ok := s.(*ast.IfStmt); ok {
			a = true
		}
		if _, ok := t.(*ast.IfStmt); ok {
			b = true
		}
		if a && b {
			g.add("swap", s.Pos(), g.rep(s, g.text(t)), g.rep(t, g.text(s)))
		}
	}
}
