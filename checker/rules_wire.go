package main

import (
	"strings"
)

func init() {
	rules["C15"] = ruleC15
}

func ruleC15(c *Ctx) {
	c.Rule = "wiring by provenance: in both algorithms every scoring path's quality of a dimension is 1 where the attribute or the header is known to be empty, and otherwise that of a range of that dimension's own request header known to match that dimension's own attribute (0 if none does); every compatibility question of the strict checks asks that header (or, if it is absent, its all-accepting default) about that attribute."
	c.Trusted = trustedStd
	for _, x := range []struct {
		rel, ctor string
		names     []string
	}{{"proactive", "ApacheHTTPD", apacheDims}, {"transparent", "RVSA1", rvsaDims}} {
		ch := c.chooser(x.rel, x.ctor, filterCfg(c.P))
		if ch == nil {
			continue
		}
		f, rs := c.scoring(ch, x.names)
		if f == nil {
			continue
		}
		roles := c.roleFields(ch, rs, x.names)
		for _, n := range x.names {
			c.must(roles[n] != "", c.P.posn(ch.Fn.Pos()), "%s: no field of the records holds the %s quality from its own header and attribute on every path", ch.Name, n)
		}
		cnt := map[string]int{}
		for _, r := range rs {
			for _, n := range x.names {
				q := r.quals[n]
				if r.adds == nil {
					// eliminated: only what is known to be zero matters.
					if q.state != "" {
						cnt[n+" "+q.state]++
					}
					continue
				}
				if !c.must(q.state != "", r.site, "%s: the %s quality is not decided by %s and the representation's own %s (%v)", ch.Name, n, dims[n].hdr, dims[n].acc, sortedLits(r.st.order)) {
					continue
				}
				cnt[n+" "+q.state]++
				if roles[n] == "" {
					continue
				}
				v := mkField(r.adds, roles[n], nil)
				c.must(q.is(v), r.site, "%s: the %s quality is %v where %s (%v)", ch.Name, n, v, q.meaning(), sortedLits(r.st.order))
			}
			if r.adds == nil {
				ok := false
				for _, n := range x.names {
					ok = ok || r.quals[n].zeroKnown(r.st) == 1
				}
				c.must(ok, r.site, "%s: a representation is left out without a quality of zero from its own header and attribute (%v)", ch.Name, sortedLits(r.st.order))
			}
		}
		for _, n := range x.names {
			for _, s := range []string{"lack", "absent", "match"} {
				c.must(cnt[n+" "+s] > 0, c.P.posn(ch.Fn.Pos()), "%s: no path for the %s quality where %s", ch.Name, n, qual{state: s}.meaning())
			}
		}
		c.sample("%s: %v", ch.Name, cnt)
	}
	c.strictWiring()
}

func (q qual) meaning() string {
	switch q.state {
	case "lack":
		return "the representation lacks the attribute"
	case "absent":
		return "the header is absent"
	case "match":
		return "a range of the header matches"
	case "none":
		return "no range of the header matches"
	}
	return "nothing is known"
}

func (c *Ctx) strictWiring() {
	n := c.negotiator("proactive")
	if n == nil {
		return
	}
	asked := map[string]int{}
	seen := map[string]bool{}
	for i := range n.Outs {
		o := &n.Outs[i]
		eachEvent(o, func(ev *Event, st *State, in bool) {
			if ev.Kind != "call" || !strings.HasSuffix(ev.Key, ").Compatible") || len(ev.Args) != 2 {
				return
			}
			at := c.P.posOf(ev.Site)
			known := false
			for _, g := range gates {
				if ev.Key != "(~/internal/header."+g.typ+").Compatible" {
					continue
				}
				known = true
				lines := mkLookup(mkField(raw("deref", "", nil, n.Req), "Header", nil), tStr(g.hdr), nil)
				r := ev.Args[0].strip()
				call, ok := resOf(r, "0", hdrPkg+"New"+g.typ)
				ok = ok && call.Args[0] == lines
				def := c.acceptsAll(g.typ, r)
				if !ok && def {
					h := mkField(raw("deref", "", nil, n.Req), "Header", nil)
					has := o.St.known(raw("has", "", nil, h, tStr(g.hdr)))
					empty := o.St.known(mkBin("==", mkLen(lines), tInt(0), nil))
					ok = has == 0 || empty == 1
				}
				c.must(ok, at, "%s is asked whether it is compatible, which is neither the request's %s nor the default of an absent one", r, g.hdr)
				a := ev.Args[1]
				ok = isCall(a, "I:"+g.acc) && a.Args[0].Op == "index" && a.Args[0].Args[0] == n.Reps
				c.must(ok, at, "%s is compared with %v rather than with the %s of a representation", g.hdr, a, g.acc)
				key := g.hdr
				if def {
					key += " default"
				}
				if !seen[key+at] {
					seen[key+at] = true
					asked[key]++
				}
			}
			c.must(known, at, "an unknown compatibility question: %s", ev.Key)
		})
	}
	for _, g := range gates {
		c.must(asked[g.hdr] > 0 && asked[g.hdr+" default"] > 0, "", "the compatibility of representations with %s is not asked for a present and an absent header", g.hdr)
	}
	c.sample("strict checks: %v", asked)
}

// acceptsAll recognizes the value of a header that accepts everything: a
// package variable whose only element is the wildcard with quality 1.
func (c *Ctx) acceptsAll(typ string, t *Term) bool {
	v := t
	if t.Op == "gval" {
		e := newEngine(c.P, atAnchors(c.P))
		if s := e.staticOf(t); s != nil {
			v = s
		}
	}
	for v.Op == "conv" {
		v = v.Args[0]
	}
	if v.Op != "list" || len(v.Args) != 1 {
		return false
	}
	r := v.Args[0]
	if r.Op == "gval" {
		e := newEngine(c.P, atAnchors(c.P))
		if s := e.staticOf(r); s != nil {
			r = s
		}
	}
	rt := map[string]string{"Accept": "MediaRange", "AcceptLanguage": "LanguageRange", "AcceptCharset": "CharsetRange"}[typ]
	q := c.accessor("internal/header", rt, "QualityValue", r)
	if q == nil {
		return false
	}
	if n, ok := q.intv(); !ok || n != 1 {
		return false
	}
	if typ == "Accept" {
		return isStr(c.accessor("internal/header", rt, "Type", r), "*") && isStr(c.accessor("internal/header", rt, "SubType", r), "*")
	}
	w := c.accessor("internal/header", rt, "IsWildcard", r)
	return w != nil && w.isTrue()
}
