package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// jumps reports whether a statement leaves what encloses it.
func jumps(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.BranchStmt, *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt:
			r = true
		case *ast.FuncLit:
			return false
		}
		return !r
	})
	return r
}

func branches(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.BranchStmt:
			r = true
		case *ast.FuncLit:
			return false
		}
		return !r
	})
	return r
}

// simple reports whether evaluating the expression can have no effect.
func simple(n ast.Expr) bool {
	r := true
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.CallExpr, *ast.IndexExpr, *ast.StarExpr, *ast.TypeAssertExpr, *ast.SliceExpr, *ast.FuncLit:
			r = false
		case *ast.BinaryExpr:
			if y.Op == token.QUO || y.Op == token.REM {
				r = false
			}
		}
		return r
	})
	return r
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch x := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok != token.FALLTHROUGH
	}
	return false
}

func (g *gen) block(b *ast.BlockStmt) string { return g.text(b) }

func (g *gen) sames(d ast.Decl, f *ast.File) {
	if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
		g.helper(fd)
	}
	var stack []ast.Node
	ast.Inspect(d, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if g.logging(n) {
			return false
		}
		stack = append(stack, n)
		var parent ast.Node
		if len(stack) > 1 {
			parent = stack[len(stack)-2]
		}
		switch x := n.(type) {
		case *ast.IfStmt:
			_, elseIf := parent.(*ast.IfStmt)
			cond := g.text(x.Cond)
			if e, ok := x.Else.(*ast.BlockStmt); ok {
				g.add("invert", x.Pos(), g.rep(x.Cond, "!("+cond+")"), g.rep(x.Body, g.block(e)), g.rep(e, g.block(x.Body)))
			}
			if x.Else == nil && !elseIf {
				g.add("emptythen", x.Pos(), g.rep(x.Cond, "!("+cond+")"), edit{g.off(x.Body.Pos()), g.off(x.Body.Pos()), "{\n} else "})
				if x.Init == nil && !branches(x.Body) {
					g.add("ifswitch", x.Pos(), edit{g.off(x.Pos()), g.off(x.End()), "switch {\ncase " + cond + ":\n" + g.span(x.Body.Lbrace+1, x.Body.Rbrace) + "\n}"})
				}
				if b, ok := x.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
					g.add("nest", x.Pos(), g.rep(x.Cond, g.text(b.X)), edit{g.off(x.Body.Lbrace), g.off(x.Body.Rbrace) + 1, "{\nif " + g.text(b.Y) + " " + g.block(x.Body) + "\n}"})
				}
				if !jumps(x.Body) {
					g.add("iife", x.Pos(), edit{g.off(x.Body.Lbrace), g.off(x.Body.Rbrace) + 1, "{\nfunc() " + g.block(x.Body) + "()\n}"})
				}
			}
			if x.Init == nil {
				g.add("condvar", x.Cond.Pos(), g.rep(x.Cond, "isCond := "+cond+"; isCond"))
			} else if !elseIf {
				g.add("hoist", x.Pos(), edit{g.off(x.Pos()), g.off(x.Cond.Pos()), "{\n" + g.text(x.Init) + "\nif "}, edit{g.off(x.End()), g.off(x.End()), "\n}"})
			}
		case *ast.BlockStmt:
			g.blockSames(x.List, x.Rbrace, parent)
		case *ast.CaseClause:
			g.blockSames(x.Body, x.End(), nil)
		case *ast.ReturnStmt:
			g.ret(x)
		case *ast.RangeStmt:
			t := g.info.TypeOf(x.X)
			_, slice := t.Underlying().(*types.Slice)
			switch x.X.(type) {
			case *ast.Ident, *ast.SelectorExpr:
			default:
				slice = false
			}
			if slice && x.Tok == token.DEFINE {
				k := "iter"
				if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
					k = id.Name
				}
				v := ""
				if x.Value != nil {
					if id, ok := x.Value.(*ast.Ident); ok && id.Name != "_" {
						v = "\n" + id.Name + " := " + g.text(x.X) + "[" + k + "]"
					}
				}
				if !assigned(x.Body, g.text(x.X)) && !assigned(x.Body, k) {
					g.add("index", x.Pos(), edit{g.off(x.Pos()), g.off(x.Body.Lbrace) + 1, "for " + k + " := 0; " + k + " < len(" + g.text(x.X) + "); " + k + "++ {" + v})
				}
			}
			if x.Tok == token.DEFINE {
				g.add("rangevar", x.Pos(), edit{g.off(x.Pos()), g.off(x.Pos()), "{\nover := " + g.text(x.X) + "\n"}, g.rep(x.X, "over"), edit{g.off(x.End()), g.off(x.End()), "\n}"})
			}
		case *ast.BinaryExpr:
			switch x.Op {
			case token.LAND:
				g.add("demorgan", x.Pos(), g.rep(x, "!(!("+g.text(x.X)+") || !("+g.text(x.Y)+"))"))
			case token.LOR:
				g.add("demorgan", x.Pos(), g.rep(x, "!(!("+g.text(x.X)+") && !("+g.text(x.Y)+"))"))
			case token.EQL, token.NEQ:
				g.add("flip", x.Pos(), g.rep(x, g.text(x.Y)+" "+x.Op.String()+" "+g.text(x.X)))
				op := "=="
				if x.Op == token.EQL {
					op = "!="
				}
				g.add("negcmp", x.Pos(), g.rep(x, "!("+g.text(x.X)+" "+op+" "+g.text(x.Y)+")"))
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				r := map[token.Token]string{token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<="}[x.Op]
				g.add("flip", x.Pos(), g.rep(x, g.text(x.Y)+" "+r+" "+g.text(x.X)))
				if b, ok := g.info.TypeOf(x.X).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					r := map[token.Token]string{token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<"}[x.Op]
					g.add("negcmp", x.Pos(), g.rep(x, "!("+g.text(x.X)+" "+r+" "+g.text(x.Y)+")"))
				}
			}
			if (x.Op == token.LAND || x.Op == token.LOR) && simple(x.X) && simple(x.Y) {
				g.add("commute", x.Pos(), g.rep(x, g.text(x.Y)+" "+x.Op.String()+" "+g.text(x.X)))
			}
		case *ast.IncDecStmt:
			op := " += 1"
			if x.Tok == token.DEC {
				op = " -= 1"
			}
			g.add("inc", x.Pos(), g.rep(x, g.text(x.X)+op))
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
				switch parent.(type) {
				case *ast.BlockStmt, *ast.CaseClause:
					g.add("var", x.Pos(), g.rep(x, "var "+g.text(x.Lhs[0])+" = "+g.text(x.Rhs[0])))
				}
			}
			if x.Tok == token.ADD_ASSIGN || x.Tok == token.MUL_ASSIGN || x.Tok == token.SUB_ASSIGN {
				g.add("opassign", x.Pos(), g.rep(x, g.text(x.Lhs[0])+" = "+g.text(x.Lhs[0])+" "+strings.TrimSuffix(x.Tok.String(), "=")+" "+g.text(x.Rhs[0])))
			}
			if x.Tok == token.ASSIGN && len(x.Lhs) > 1 && len(x.Rhs) == 1 {
				// by way of temporaries.
				switch parent.(type) {
				case *ast.BlockStmt, *ast.CaseClause:
					ok := true
					var ts, as []string
					for i, l := range x.Lhs {
						id, isId := l.(*ast.Ident)
						if !isId {
							ok = false
							break
						}
						if id.Name == "_" {
							ts = append(ts, "_")
							continue
						}
						t := fmt.Sprintf("tmp%dx%d", i, g.n)
						ts = append(ts, t)
						as = append(as, id.Name+" = "+t)
					}
					if ok && len(as) > 0 {
						g.add("temps", x.Pos(), g.rep(x, strings.Join(ts, ", ")+" := "+g.text(x.Rhs[0])+"\n"+strings.Join(as, "\n")))
					}
				}
			}
		case *ast.SwitchStmt:
			g.switches(x)
		case *ast.CompositeLit:
			if len(x.Elts) > 1 {
				keyed := true
				for _, e := range x.Elts {
					kv, ok := e.(*ast.KeyValueExpr)
					if !ok {
						keyed = false
						break
					}
					_ = kv
				}
				if keyed {
					var es []string
					for i := len(x.Elts) - 1; i >= 0; i-- {
						es = append(es, g.text(x.Elts[i]))
					}
					g.add("litorder", x.Pos(), edit{g.off(x.Lbrace) + 1, g.off(x.Rbrace), "\n" + strings.Join(es, ",\n") + ",\n"})
				}
			}
		case *ast.BasicLit:
			if x.Kind == token.STRING && len(stack) > 2 {
				if _, ok := parent.(*ast.Field); ok {
					break
				}
				if _, ok := parent.(*ast.ImportSpec); ok {
					break
				}
				name := fmt.Sprintf("lit%d", g.off(x.Pos()))
				g.add("const", x.Pos(), g.rep(x, name), edit{len(g.src), len(g.src), "\nconst " + name + " = " + x.Value + "\n"})
			}
		case *ast.FuncLit:
			if as, ok := parent.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == 1 {
				_ = as
			}
			g.add("wrapfn", x.Pos(), g.rep(x, "("+g.text(x)+")"))
		case *ast.ParenExpr:
		}
		return true
	})
}

// assigned reports whether the block assigns to the variable of the name.
func assigned(b ast.Node, name string) bool {
	r := false
	ast.Inspect(b, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if types.ExprString(l) == name {
					r = true
				}
			}
		case *ast.IncDecStmt:
			r = r || types.ExprString(y.X) == name
		}
		return !r
	})
	return r
}

// blockSames rewrites runs of statements.
func (g *gen) blockSames(list []ast.Stmt, end token.Pos, parent ast.Node) {
	for i, s := range list {
		if x, ok := s.(*ast.IfStmt); ok && x.Else == nil && terminates(x.Body) && i+1 < len(list) {
			last := list[len(list)-1]
			_, fn := parent.(*ast.FuncDecl)
			_, lit := parent.(*ast.FuncLit)
			_, loop := parent.(*ast.RangeStmt)
			if !(fn || lit || loop) {
				continue
			}
			_ = last
			a, b := list[i+1].Pos(), list[len(list)-1].End()
			g.add("else", s.Pos(), edit{g.off(x.Body.Rbrace) + 1, g.off(a), " else {\n"}, edit{g.off(b), g.off(b), "\n}"})
		}
		// the operand of a call first.
		var call *ast.CallExpr
		switch x := s.(type) {
		case *ast.ExprStmt:
			call, _ = x.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(x.Rhs) == 1 {
				call, _ = x.Rhs[0].(*ast.CallExpr)
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 {
				call, _ = x.Results[0].(*ast.CallExpr)
			}
		}
		if call != nil && !g.logging(call) {
			for k, a := range call.Args {
				if _, isLit := a.(*ast.BasicLit); isLit {
					continue
				}
				tv, ok := g.info.Types[a]
				if !ok || tv.IsType() || tv.IsNil() || tv.Value != nil || tv.IsBuiltin() {
					continue
				}
				if _, isFn := a.(*ast.FuncLit); isFn && len(list) < 1 {
					continue
				}
				if _, isTuple := tv.Type.(*types.Tuple); isTuple {
					continue
				}
				name := fmt.Sprintf("arg%dx%d", k, g.n)
				g.add("argvar", a.Pos(), edit{g.off(s.Pos()), g.off(s.Pos()), name + " := " + g.text(a) + "\n"}, g.rep(a, name))
			}
		}
		if i == 0 && parent != nil {
			g.add("deadstmt", s.Pos(), edit{g.off(s.Pos()), g.off(s.Pos()), "if false {\npanic(\"unreachable\")\n}\n"})
		}
		// a block of its own.
		switch s.(type) {
		case *ast.ExprStmt, *ast.IfStmt, *ast.RangeStmt, *ast.ForStmt, *ast.SwitchStmt:
			g.add("braces", s.Pos(), edit{g.off(s.Pos()), g.off(s.End()), "{\n" + g.text(s) + "\n}"})
			if !jumps(s) {
				if e, ok := s.(*ast.ExprStmt); !ok || !g.logging(e.X) {
					g.add("closure", s.Pos(), edit{g.off(s.Pos()), g.off(s.End()), "func() {\n" + g.text(s) + "\n}()"})
				}
			}
		}
	}
}

func (g *gen) ret(x *ast.ReturnStmt) {
	if len(x.Results) == 0 {
		return
	}
	ok := true
	var ns, es []string
	for i, r := range x.Results {
		tv := g.info.Types[r]
		if tv.Value != nil || tv.IsNil() {
			ok = false
		}
		if _, isLit := r.(*ast.FuncLit); isLit {
			ok = false
		}
		ns = append(ns, fmt.Sprintf("out%d", i))
		es = append(es, g.text(r))
	}
	if len(x.Results) == 1 {
		if tp, isTuple := g.info.TypeOf(x.Results[0]).(*types.Tuple); isTuple {
			ns = nil
			for i := 0; i < tp.Len(); i++ {
				ns = append(ns, fmt.Sprintf("out%d", i))
			}
		}
	}
	if ok {
		g.add("retvar", x.Pos(), edit{g.off(x.Pos()), g.off(x.End()), strings.Join(ns, ", ") + " := " + strings.Join(es, ", ") + "\nreturn " + strings.Join(ns, ", ")})
	}
	if len(x.Results) == 1 {
		if b, isB := g.info.TypeOf(x.Results[0]).(*types.Basic); isB && b.Kind() == types.Bool {
			if g.info.Types[x.Results[0]].Value == nil {
				g.add("retif", x.Pos(), edit{g.off(x.Pos()), g.off(x.End()), "if " + g.text(x.Results[0]) + " {\nreturn true\n}\nreturn false"})
			}
		}
	}
}

// helper moves the body of a function to another one.
func (g *gen) helper(fd *ast.FuncDecl) {
	if fd.Type.TypeParams != nil || fd.Name.Name == "init" {
		return
	}
	var args []string
	for _, p := range fd.Type.Params.List {
		if len(p.Names) == 0 {
			return
		}
		for _, n := range p.Names {
			if n.Name == "_" {
				return
			}
			a := n.Name
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				a += "..."
			}
			args = append(args, a)
		}
	}
	name := "do" + strings.ToUpper(fd.Name.Name[:1]) + fd.Name.Name[1:]
	call := name + "(" + strings.Join(args, ", ") + ")"
	recv := ""
	if fd.Recv != nil {
		if len(fd.Recv.List[0].Names) == 0 {
			return
		}
		call = fd.Recv.List[0].Names[0].Name + "." + call
		recv = g.text(fd.Recv) + " "
	}
	if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
		call = "return " + call
	}
	sig := g.span(fd.Type.Params.Pos(), fd.Body.Lbrace)
	g.add("helper", fd.Pos(), edit{g.off(fd.Body.Lbrace), g.off(fd.Body.Rbrace) + 1, "{\n" + call + "\n}\n\n// " + name + " does the work of " + fd.Name.Name + ".\nfunc " + recv + name + sig + g.text(fd.Body)})
	if fd.Recv != nil {
		// as a function rather than a method.
		if _, ok := fd.Recv.List[0].Type.(*ast.StarExpr); !ok {
			fname := "run" + strconv.Itoa(g.off(fd.Pos()))
			c := fname + "(" + strings.Join(append([]string{fd.Recv.List[0].Names[0].Name}, args...), ", ") + ")"
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				c = "return " + c
			}
			ps := strings.TrimSpace(g.span(fd.Type.Params.Opening+1, fd.Type.Params.Closing))
			r := g.span(fd.Recv.Opening+1, fd.Recv.Closing)
			if ps != "" {
				r += ", " + strings.TrimSuffix(ps, ",")
			}
			res := g.span(fd.Type.Params.Closing+1, fd.Body.Lbrace)
			g.add("function", fd.Pos(), edit{g.off(fd.Body.Lbrace), g.off(fd.Body.Rbrace) + 1, "{\n" + c + "\n}\n\nfunc " + fname + "(" + r + ")" + res + g.text(fd.Body)})
		}
	}
}

// switches turns a switch into a chain of ifs.
func (g *gen) switches(x *ast.SwitchStmt) {
	if x.Init != nil || branches(x.Body) {
		return
	}
	tag := ""
	if x.Tag != nil {
		switch x.Tag.(type) {
		case *ast.Ident, *ast.SelectorExpr:
		default:
			return
		}
		tag = g.text(x.Tag)
	}
	var sb strings.Builder
	var def *ast.CaseClause
	first := true
	for _, s := range x.Body.List {
		cc := s.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var cs []string
		for _, e := range cc.List {
			if tag != "" {
				cs = append(cs, tag+" == "+g.text(e))
			} else {
				cs = append(cs, "("+g.text(e)+")")
			}
		}
		if !first {
			sb.WriteString(" else ")
		}
		first = false
		sb.WriteString("if " + strings.Join(cs, " || ") + " {\n" + g.body(cc) + "\n}")
	}
	if def != nil && !first {
		sb.WriteString(" else {\n" + g.body(def) + "\n}")
	}
	if !first {
		g.add("switchif", x.Pos(), edit{g.off(x.Pos()), g.off(x.End()), sb.String()})
	}
}

func (g *gen) body(cc *ast.CaseClause) string {
	if len(cc.Body) == 0 {
		return ""
	}
	return g.span(cc.Body[0].Pos(), cc.Body[len(cc.Body)-1].End())
}
