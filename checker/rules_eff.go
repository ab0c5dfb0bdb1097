package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C24"] = ruleC24
}

// runRoots are the functions a negotiation or an algorithm run starts with.
func (c *Ctx) runRoots() []*ssa.Function {
	var fs []*ssa.Function
	for _, r := range []string{"proactive", "reactive", "transparent"} {
		f := c.P.method(r, "Negotiator", "Negotiate")
		if c.must(f != nil, "", "%s.Negotiator.Negotiate no longer exists", r) {
			fs = append(fs, f)
		}
	}
	for _, x := range [][2]string{{"proactive", "ApacheHTTPD"}, {"transparent", "RVSA1"}} {
		if f, _ := c.chooserFn(x[0], x[1]); f != nil {
			fs = append(fs, f)
		}
	}
	for _, x := range [][2]string{{"List", "Bytes"}, {"Base", "Bytes"}} {
		f := c.P.method("representation", x[0], x[1])
		if c.must(f != nil, "", "representation.%s.%s no longer exists", x[0], x[1]) {
			fs = append(fs, f)
		}
	}
	return fs
}

func ruleC24(c *Ctx) {
	c.Rule = "interprocedural write effects over storage regions (parameter, captured variable, package variable, allocation site): no function a negotiation or an algorithm run may reach writes storage reached from a package variable, and no such root writes storage reached from its receiver, the context, the request or the list of representations; the response is written through http.ResponseWriter only; no go statement is reachable. Sorting a package variable's slice is no write when its only value has at most one element."
	c.Trusted = append([]string{"functions of the standard library, x/text and yaml.Marshal write nothing but what their documentation says; zap and tally are safe for concurrent use; representations and functions supplied by the user share no state"}, trustedStd...)
	e := c.P.effects()
	all := map[*ssa.Function]bool{}
	roots := c.runRoots()
	for _, f := range roots {
		seen := map[*ssa.Function]bool{}
		e.reach(f, seen)
		for g := range seen {
			all[g] = true
		}
		s := e.Sums[f]
		if !c.must(s != nil, "", "%s was not analysed", c.P.fkey(f)) {
			continue
		}
		for _, w := range sortedWrites(s) {
			if w.r.kind == "global" && w.sort && c.shortGlobal(w.r.of.(*ssa.Global)) {
				c.must(true, s.writes[w], "")
				continue
			}
			c.must(false, s.writes[w], "%s may write storage reached from %v", c.P.fkey(f), w.r)
		}
		c.must(true, c.P.posn(f.Pos()), "")
		c.sample("%s: %d reachable functions, %d write effects visible to the caller", c.P.fkey(f), len(seen), len(s.writes))
	}
	var fs []*ssa.Function
	for g := range all {
		fs = append(fs, g)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	n := 0
	for _, g := range fs {
		c.Fns[c.P.fkey(g)] = true
		for _, at := range e.Gos[g] {
			c.must(false, at, "%s starts a goroutine", c.P.fkey(g))
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Store, *ssa.MapUpdate, ssa.CallInstruction:
					n++
					c.must(true, c.P.posOf(in), "")
				}
			}
		}
	}
	c.minimum(n, 300, "writes and calls")
	c.minimum(len(fs), 100, "reachable functions")
}

func sortedWrites(s *effSum) []wkey {
	var ks []wkey
	for k := range s.writes {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		if a.r.String() != b.r.String() {
			return a.r.String() < b.r.String()
		}
		return !a.sort && b.sort
	})
	return ks
}

// shortGlobal: the only value of the variable is a slice of at most one
// element.
func (c *Ctx) shortGlobal(g *ssa.Global) bool {
	e := newEngine(c.P, Cfg{})
	t := raw("gval", e.gname(g), elemOf(g.Type()))
	s := e.staticOf(t)
	for s != nil && s.Op == "gval" {
		s = e.staticOf(s)
	}
	if s == nil {
		return false
	}
	if s.isNil() {
		return true
	}
	return s.Op == "list" && len(s.Args) <= 1
}
