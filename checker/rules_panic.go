package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C27"] = ruleC27
}

func ruleC27(c *Ctx) {
	c.Rule = "every index, slice, dereference, division, unchecked type assertion, map store, make, call of a function value and explicit panic in the functions reachable from the negotiators, the algorithms, the header parsers and the representations' coding is an obligation that must follow from the facts of every path that reaches it; support functions are analysed for arbitrary arguments, everything else in the context of its callers. Every reachable function must have been analysed."
	c.Trusted = append([]string{"the negotiator comes from New, the context has a request with a URL and a response writer, representations are not nil, and functions configured by the user do not panic or provide nil", "standard library and x/text functions do not panic, other than those whose name starts with Must"}, trustedStd...)
	obls := map[string]*Obl{}
	cover := map[*ssa.Function]bool{}
	keeps := map[*ssa.Function]int{}
	run := func(f *ssa.Function, args []*Term, cfg Cfg) {
		if f == nil {
			return
		}
		cfg.Obligations = true
		cfg.NonEmpty = func(st *State, t *Term) bool { return c.remains(st, t, keeps) }
		old := cfg.Opaque
		cfg.Opaque = func(g *ssa.Function) bool { return old(g) && !inContext[c.P.fkey(g)] }
		st := newState()
		c.lessFacts(f, st)
		outs, e := c.runE(f, cfg, args, st)
		for _, o := range outs {
			c.must(o.Panic == nil, c.end(&o), "%s ends in a panic when %s", c.P.fkey(f), c.facts(&o))
		}
		if e == nil {
			return
		}
		for k, o := range e.Obls {
			if old := obls[k]; old == nil || old.OK && !o.OK {
				obls[k] = o
			}
		}
		for g := range e.Fns {
			cover[g] = true
		}
	}
	eff := c.P.effects()
	reach := map[*ssa.Function]bool{}
	for _, r := range []string{"proactive", "reactive", "transparent"} {
		f := c.P.method(r, "Negotiator", "Negotiate")
		if f == nil {
			c.must(false, "", "%s.Negotiator.Negotiate no longer exists", r)
			continue
		}
		run(f, nil, atAnchors(c.P))
		eff.reach(f, reach)
	}
	cfg := atAnchors(c.P)
	cfg.OpaqueDyn = isFilter
	for _, x := range [][2]string{{"proactive", "ApacheHTTPD"}, {"transparent", "RVSA1"}} {
		f, recv := c.chooserFn(x[0], x[1])
		if f == nil {
			continue
		}
		ps := rootParams(f)
		ps[0] = recv
		run(f, ps, cfg)
		eff.reach(f, reach)
	}
	for _, x := range [][2]string{{"List", "Bytes"}, {"List", "FromBytes"}, {"Base", "Bytes"}, {"Base", "FromBytes"}} {
		if f := c.P.method("representation", x[0], x[1]); f != nil {
			eff.reach(f, reach)
		}
	}
	var fs []*ssa.Function
	for f := range reach {
		if c.P.inModule(fnPkg(f)) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		if anchors[c.P.fkey(f)] && !inContext[c.P.fkey(f)] || isFilter(f) || !cover[f] && f.Synthetic == "" {
			run(f, nil, atAnchors(c.P))
		}
	}
	for _, f := range fs {
		if f.Synthetic == "" {
			c.must(cover[f], c.P.posn(f.Pos()), "%s was not analysed", c.P.fkey(f))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					if x.Op == token.EQL || x.Op == token.NEQ {
						c.must(comparable(x.X) || comparable(x.Y), c.P.posOf(in), "%s compares values whose types may not be comparable", c.P.fkey(f))
					}
				case *ssa.MapUpdate:
					c.must(comparable(x.Key), c.P.posOf(in), "%s uses a map key whose type may not be comparable", c.P.fkey(f))
				case *ssa.Lookup:
					c.must(comparable(x.Index), c.P.posOf(in), "%s uses a map key whose type may not be comparable", c.P.fkey(f))
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && strings.HasPrefix(g.Name(), "Must") && !constArgs(ci.Common()) {
					c.must(false, c.P.posOf(in), "%s may call %s, which panics on failure", c.P.fkey(f), g.Name())
				}
			}
		}
	}
	kinds := map[string]int{}
	for _, k := range sortedKeys(obls) {
		o := obls[k]
		kinds[o.Kind]++
		c.must(o.OK, c.P.posOf(o.Site), "%s in %s may panic: %s (%s)", o.Kind, c.P.fkey(o.Site.Parent()), o.What, o.Why)
	}
	for _, k := range sortedKeys(kinds) {
		c.sample("%d obligations of kind %s", kinds[k], k)
	}
	c.minimum(len(obls), 60, "operations that may panic")
}

// inContext are support functions whose callers guarantee what they need.
var inContext = map[string]bool{"(~/internal/header.FeatureSet).Add": true}

// remains reports whether what the steps of an algorithm leave of a set has
// an element: the set has one and every step keeps one.
func (c *Ctx) remains(st *State, t *Term, keeps map[*ssa.Function]int) bool {
	for n := 0; n < 32; n++ {
		if st.known(mkBin("==", mkLen(t), tInt(0), nil)) == 0 || lowerBound(st, mkLen(t)) > 0 {
			return true
		}
		if t.Op != "res" || t.Aux != "0" || t.Args[0].Op != "call" || !strings.HasPrefix(t.Args[0].Aux, "F:") {
			return false
		}
		var g *ssa.Function
		key := strings.TrimPrefix(t.Args[0].Aux, "F:")
		if i := strings.LastIndex(key, "#"); i > 0 {
			key = key[:i]
		}
		for _, f := range c.P.Funcs {
			if isFilter(f) && c.P.fkey(f) == key {
				g = f
			}
		}
		if g == nil || len(t.Args[0].Args) != 1 {
			return false
		}
		if keeps[g] == 0 {
			keeps[g] = 1
			if !c.keepsOne(g) {
				keeps[g] = -1
			}
		}
		if keeps[g] < 0 {
			return false
		}
		t = t.Args[0].Args[0]
	}
	return false
}

// keepsOne: a filter keeps an element of a set that has one.
func (c *Ctx) keepsOne(g *ssa.Function) bool {
	st := newState()
	arg := rootParams(g)[0]
	st.assume(mkBin("==", mkLen(arg), tInt(0), nil), false)
	same := func(own, x *Term) bool { return x == own }
	for _, o := range c.run(g, atAnchors(c.P), nil, st) {
		if _, e := retError(&o); o.Panic != nil || e == 1 || len(o.Ret) == 0 {
			continue
		}
		t := o.Ret[0]
		for t.Op == "sorted" {
			t = t.Args[0]
		}
		if t == arg || o.St.known(mkBin("==", mkLen(o.Ret[0]), tInt(0), nil)) == 0 || lowerBound(o.St, mkLen(t)) > 0 {
			continue
		}
		if sel, _ := c.bestOnly(&o, o.Ret[0], arg, same); sel == nil {
			return false
		}
	}
	return true
}

// lessFacts: a comparison made for sorting a variable is asked about
// positions within it.
func (c *Ctx) lessFacts(f *ssa.Function, st *State) {
	if f.Parent() == nil || f.Signature.Params().Len() != 2 || len(f.Params) != 2 {
		return
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			var src ssa.Value
			for _, r := range *mc.Referrers() {
				v := sortedBy(r, mc)
				if v == nil {
					if ch, ok := r.(*ssa.ChangeType); ok && ch.Referrers() != nil && len(*ch.Referrers()) == 1 {
						v = sortedBy((*ch.Referrers())[0], ch)
					}
				}
				if v == nil || src != nil && src != v {
					return
				}
				src = v
			}
			ld, ok := src.(*ssa.UnOp)
			if !ok {
				return
			}
			for i, bd := range mc.Bindings {
				if bd != ld.X {
					continue
				}
				fv := f.FreeVars[i]
				coll := raw("deref", "", elemOf(fv.Type()), raw("param", "free:"+fv.Name(), fv.Type()))
				for _, p := range rootParams(f) {
					st.assume(mkBin("<", p, tInt(0), nil), false)
					st.assume(mkBin("<", p, mkLen(coll), nil), true)
				}
			}
		}
	}
}

// sortedBy is the variable a call sorts by the comparison given, if any.
func sortedBy(in ssa.Instruction, less ssa.Value) ssa.Value {
	call, ok := in.(*ssa.Call)
	if !ok || call.Call.IsInvoke() || len(call.Call.Args) != 2 || call.Call.Args[1] != less {
		return nil
	}
	g := call.Call.StaticCallee()
	if g == nil {
		return nil
	}
	v := call.Call.Args[0]
	switch g.String() {
	case "sort.Slice", "sort.SliceStable":
	default:
		// a function that sorts its argument so.
		n := 0
		for _, b := range g.Blocks {
			for _, i2 := range b.Instrs {
				if c2, ok := i2.(ssa.CallInstruction); ok {
					s := sortedBy(i2, g.Params[len(g.Params)-1])
					if s == nil || len(g.Params) != 2 || s != ssa.Value(g.Params[0]) {
						_ = c2
						return nil
					}
					n++
				}
			}
		}
		if n != 1 {
			return nil
		}
	}
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		return v
	}
}

// comparable: comparing the value cannot panic. Errors are compared with
// errors of this module and the standard library, which are.
func comparable(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return comparable(x.X)
	}
	return !dynamic(v.Type(), 0)
}

func dynamic(t types.Type, d int) bool {
	if isErrorType(t) || d > 5 {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "golang.org/x/text/language" {
		return false // documented to be comparable
	}
	switch x := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if dynamic(x.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return dynamic(x.Elem(), d+1)
	}
	return false
}

// constArgs reports whether all arguments are constants, so that the call does
// the same whatever is negotiated.
func constArgs(c *ssa.CallCommon) bool {
	for _, a := range c.Args {
		if _, ok := a.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}
