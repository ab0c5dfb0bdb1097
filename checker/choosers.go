package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Chooser is an analysed selection algorithm.
type Chooser struct {
	Name      string
	Fn        *ssa.Function
	Recv, Req *Term
	Reps      *Term
	Outs      []Outcome
	Eng       *Engine
}

// isFilter recognizes the steps of an algorithm: functions from a set of
// representations to one.
func isFilter(f *ssa.Function) bool {
	s := f.Signature
	if s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 2 {
		return false
	}
	return isNamed(s.Params().At(0).Type(), "representation", "Set") && isNamed(s.Results().At(0).Type(), "representation", "Set") && isErrorType(s.Results().At(1).Type())
}

func isNamed(t types.Type, rel, name string) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	return n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == Mod+"/"+rel
}

// chooserFn is the Choose method of what a constructor provides.
func (c *Ctx) chooserFn(rel, ctor string) (*ssa.Function, *Term) {
	f := c.P.fun(rel, ctor)
	if f == nil {
		c.must(false, "", "%s.%s no longer exists", rel, ctor)
		return nil, nil
	}
	outs := c.run(f, atAnchors(c.P), nil, nil)
	if len(outs) != 1 || len(outs[0].Ret) != 1 || outs[0].Ret[0].Op != "mk" {
		c.must(false, c.P.posn(f.Pos()), "what %s.%s constructs is not determined", rel, ctor)
		return nil, nil
	}
	mk := outs[0].Ret[0]
	m := c.P.methodOf(mk.Typ, "Choose")
	if m == nil {
		c.must(false, c.P.posn(f.Pos()), "what %s.%s constructs has no Choose method", rel, ctor)
	}
	return m, mk.Args[0]
}

func (c *Ctx) chooser(rel, ctor string, cfg Cfg) *Chooser {
	f, recv := c.chooserFn(rel, ctor)
	if f == nil {
		return nil
	}
	ps := rootParams(f)
	ps[0] = recv
	ch := &Chooser{Name: ctor, Fn: f, Recv: recv, Req: ps[1], Reps: ps[2]}
	ch.Outs, ch.Eng = c.runE(f, cfg, ps, nil)
	for _, o := range ch.Outs {
		c.must(o.Panic == nil, c.end(&o), "%s: may panic", ctor)
	}
	return ch
}

func (c *Ctx) choosers() []*Chooser {
	cfg := atAnchors(c.P)
	cfg.OpaqueDyn = isFilter
	var cs []*Chooser
	for _, x := range [][2]string{{"proactive", "ApacheHTTPD"}, {"transparent", "RVSA1"}} {
		if ch := c.chooser(x[0], x[1], cfg); ch != nil {
			cs = append(cs, ch)
		}
	}
	return cs
}
