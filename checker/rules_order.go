package main

import (
	"fmt"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C19"] = ruleC19
}

func ruleC19(c *Ctx) {
	c.Rule = "the comparison by which the ranges of a header are sorted is evaluated on every pair of classes of ranges (wildcards, parameters, weight): it puts the more specific first, then the greater weight; the ranges of a language header end with the wildcard. Every quality is that of the range at the position of a forward traversal of the sorted ranges that ends with the first match."
	c.Trusted = append(append([]string{}, trustedStd...), "language.ParseAcceptLanguage provides its tags from the greatest weight to the least")
	n := 0
	for _, h := range []struct{ hdr, method, elem string }{
		{"Accept", "MediaRanges", "MediaRange"},
		{"AcceptCharset", "CharsetRanges", "CharsetRange"},
		{"AcceptEncoding", "CodingRanges", "ContentCodingRange"},
	} {
		n += c.orderOf(h.hdr, h.method, h.elem)
	}
	n += c.languageOrder()
	c.minimum(n, 4, "headers with an order of ranges")
	c.weightRelations()
	c.hasParams()
	c.minimum(c.firstMatch(), 7, "qualities taken from the first matching range")
}

// class is a class of ranges.
type class struct {
	name   string
	tier   int // specificity
	set    func(w *World, x *Term)
	q      float64
	params bool
}

// comparison is a function by which a slice is sorted, run on two elements.
type comparison struct {
	ev   *Event
	outs []Outcome
	a, b *Term
	n0   int
}

func (c *Ctx) comparisonOf(ev *Event, opaque func(g *ssa.Function) bool) (*comparison, string) {
	less, slice := ev.Args[1], ev.Args[2]
	k := &comparison{ev: ev, n0: len(ev.St.order)}
	var f *ssa.Function
	var args, free []*Term
	var rev bool
	f, args, free, rev = c.comparator(less)
	if f == nil {
		return nil, "sorted by a function not known statically"
	}
	ps := f.Params[len(args):]
	if len(ps) != 2 {
		return nil, "sorted by a function of unknown shape"
	}
	x, y := raw("sym", "x", ps[0].Type()), raw("sym", "y", ps[1].Type())
	if isInt(ps[0].Type()) {
		k.a, k.b = mkIndex(slice, x, nil), mkIndex(slice, y, nil)
	} else {
		k.a, k.b = x, y
	}
	e := newEngine(c.P, Cfg{Opaque: opaque})
	if rev {
		x, y = y, x
	}
	outs, err := e.runFree(f, append(args, x, y), free, ev.St.clone())
	if err != nil {
		return nil, err.Error()
	}
	k.outs = outs
	return k, ""
}

// before tells whether the comparison puts the first element first in a world:
// 1, 0, or -1 with what it depends on.
func (k *comparison) before(w *World, skip func(t *Term) bool, also func(o *Outcome) int) (int, string) {
	r := -2
	for i := range k.outs {
		o := k.outs[i]
		st := *o.St
		st.order = o.St.order[k.n0:]
		o.St = &st
		h, un := w.fits(&o, skip)
		if h == 0 || also != nil && also(&o) == 0 {
			continue
		}
		if h < 0 {
			return -1, un.String()
		}
		if o.Panic != nil || len(o.Ret) != 1 {
			return -1, "a panic"
		}
		v := -1
		switch x := w.eval(o.Ret[0]).(type) {
		case bool:
			v = b2i(x)
		case float64:
			v = b2i(x < 0)
		default:
			v = w.holds(o.Ret[0])
		}
		if v < 0 || r >= 0 && r != v {
			return -1, o.Ret[0].String()
		}
		r = v
	}
	if r == -2 {
		return -1, "no path"
	}
	return r, ""
}

// ordered checks a comparison over all pairs of classes. Elements of the same
// class may be put either way unless the sort needs to tell them apart.
func (c *Ctx) ordered(name string, k *comparison, cs []class, byWeight bool, parts func(x *Term) *agreement) {
	at := c.P.posOf(k.ev.Site)
	ag := map[*Term]*agreement{}
	for _, x := range []*Term{k.a, k.b} {
		if a := parts(x); a != nil {
			ag[x] = a
		}
	}
	var any *agreement
	for _, a := range ag {
		any = a
	}
	got := map[[2]int]int{}
	pairs := 0
	for i, p := range cs {
		for j, q := range cs {
			w := newWorld(c.P)
			p.set(w, k.a)
			q.set(w, k.b)
			w.more = func(t *Term) int {
				for x, a := range ag {
					has := p.params
					if x == k.b {
						has = q.params
					}
					if h := a.truth(t, !has); h >= 0 {
						return h
					}
				}
				return -1
			}
			var skip func(t *Term) bool
			if any != nil {
				skip = func(t *Term) bool {
					for _, a := range ag {
						if a.internal(t) && w.holds(t) < 0 {
							return true
						}
					}
					return false
				}
			}
			r, un := k.before(w, skip, func(o *Outcome) int {
				for x, a := range ag {
					has := p.params
					if x == k.b {
						has = q.params
					}
					if h := a.ofPath(o); h == -2 || h >= 0 && (h == 1) == has {
						return 0
					}
				}
				return 1
			})
			pairs++
			got[[2]int{i, j}] = r
			less := p.tier - q.tier
			if less == 0 && byWeight && p.q != q.q {
				less = 1
				if p.q < q.q {
					less = -1
				}
			}
			if less == 0 {
				continue
			}
			if !c.must(r >= 0, at, "%s: the order of %s and %s depends on %s", name, p.name, q.name, un) {
				return
			}
			if !c.must((r == 1) == (less > 0), at, "%s: %s is put %s %s", name, p.name, map[int]string{1: "before", 0: "after"}[r], q.name) {
				return
			}
		}
	}
	for ij, r := range got {
		if r == 1 && got[[2]int{ij[1], ij[0]}] == 1 {
			c.must(false, at, "%s: %s and %s are each put before the other", name, cs[ij[0]].name, cs[ij[1]].name)
			break
		}
	}
	c.sample("%s: %d paths of the comparison at %s over %d pairs of classes", name, len(k.outs), at, pairs)
}

// sortedAs finds the sort that made t, on the path o.
func sortedAs(e *Engine, o *Outcome, t *Term) *Event {
	t = e.contents(o.St, unconv(t))
	for _, ev := range o.St.trace {
		if ev.Kind == "sort" && (ev.Res == t || ev.Res == base1(t)) {
			return ev
		}
	}
	return nil
}

// base1 leaves out what copies all of a slice.
func base1(t *Term) *Term {
	for {
		t = unconv(t)
		switch {
		case t.Op == "append" && (t.Args[0].isNil() || mkLen(t.Args[0]) == tInt(0)):
			t = t.Args[1]
		default:
			return t
		}
	}
}

func (c *Ctx) orderOf(hdr, method, elem string) int {
	f := c.P.method(hdrRel, hdr, method)
	if f == nil {
		c.must(false, "", "%s.%s no longer exists", hdr, method)
		return 0
	}
	name := hdr + "." + method
	has := "(~/" + hdrRel + "." + elem + ").HasParams"
	opaque := func(g *ssa.Function) bool {
		return g != f && (anchors[c.P.fkey(g)] || c.P.fkey(g) == has)
	}
	outs, e := c.runE(f, Cfg{Opaque: opaque}, nil, nil)
	recv := rootParams(f)[0]
	for i := range outs {
		o := &outs[i]
		if !c.must(o.Panic == nil && len(o.Ret) == 1, c.end(o), "%s does not return", name) {
			continue
		}
		if n, ok := mkLen(recv).intv(); ok && n == 0 || o.St.known(mkBin("==", mkLen(recv), tInt(0), nil)) == 1 {
			continue
		}
		if small(o.St, recv) {
			c.must(base1(o.Ret[0]) == recv, c.end(o), "%s is %s", name, o.Ret[0])
			continue
		}
		ev := sortedAs(e, o, o.Ret[0])
		if !c.must(ev != nil, c.end(o), "%s provides %s, which is not sorted", name, o.Ret[0]) {
			continue
		}
		if !c.must(base(base1(ev.Args[2])) == recv, c.P.posOf(ev.Site), "%s sorts %s", name, ev.Args[2]) {
			continue
		}
		k, why := c.comparisonOf(ev, opaque)
		if !c.must(k != nil, c.P.posOf(ev.Site), "%s: %s", name, why) {
			continue
		}
		cs, parts := c.classes(elem, k.a, has, about(k.outs))
		if cs == nil {
			c.must(false, c.P.posn(f.Pos()), "%s: the parts of a range are not determined", name)
			return 0
		}
		c.ordered(name, k, cs, true, parts)
	}
	return 1
}

// small reports whether a slice is known to have at most one element.
func small(st *State, s *Term) bool {
	return st.known(mkBin("<", mkLen(s), tInt(2), nil)) == 1
}

// classes are the classes of ranges of a kind, as far as their order goes.
func (c *Ctx) classes(elem string, x *Term, has string, ts []*Term) ([]class, func(x *Term) *agreement) {
	noParts := func(x *Term) *agreement { return nil }
	qs := weightsAbout(ts, 0, 0.3, 1)
	near := namesAbout(ts)
	var cs []class
	if elem == "MediaRange" {
		if c.accessor(hdrRel, elem, "Type", x) == nil || c.accessor(hdrRel, elem, "SubType", x) == nil || c.accessor(hdrRel, elem, "QualityValue", x) == nil {
			return nil, nil
		}
		par := func(x *Term) *Term {
			if p := c.accessor(hdrRel, elem, "Param", x); p != nil && p.Op == "lookup" {
				return p.Args[0]
			}
			return nil
		}
		if par(x) == nil {
			return nil, nil
		}
		ns := []string{"text/html", "image/png", "text/*", "image/*", "*/*"}
		known := len(ns)
		for _, n := range near {
			ns = append(ns, n+"/html", "text/"+n, n+"/*")
		}
		for i, n := range ns {
			for _, hp := range []bool{false, true} {
				for j, q := range qs {
					if i >= known && (hp || j > 0 && j != 2) {
						continue
					}
					ty, sub, _ := strings.Cut(n, "/")
					tier := 4
					if sub == "*" {
						tier = 2
					}
					if ty == "*" {
						tier = 0
					}
					tier += b2i(hp)
					hp, q := hp, q
					label := fmt.Sprintf("%s;q=%v", n, q)
					if hp {
						label = fmt.Sprintf("%s;p=1;q=%v", n, q)
					}
					for np := b2i(hp); np <= b2i(hp)+1; np++ {
						np := np // with the weight, if it is among them, or not
						cs = append(cs, class{name: label, tier: tier, q: q, params: hp, set: func(w *World, x *Term) {
							w.with(c.accessor(hdrRel, elem, "Type", x), ty)
							w.with(c.accessor(hdrRel, elem, "SubType", x), sub)
							w.with(c.accessor(hdrRel, elem, "QualityValue", x), q)
							w.with(mkCall(has, nil, x), hp)
							w.with(mkLen(par(x)), float64(np))
							w.with(mkHas(par(x), tStr("q")), np > b2i(hp))
						}})
					}
				}
			}
		}
		return cs, func(x *Term) *agreement { return &agreement{mine: par(x)} }
	}
	names := map[string]string{"CharsetRange": "Charset", "ContentCodingRange": "CodingRange", "LanguageRange": "Range"}
	part := c.rangeName(elem, names[elem], x)
	if part == nil || c.accessor(hdrRel, elem, "QualityValue", x) == nil {
		return nil, nil
	}
	for _, n := range append([]string{"*", "gzip", "utf-8"}, near...) {
		for _, q := range qs {
			n, q := n, q
			cs = append(cs, class{name: fmt.Sprintf("%s;q=%v", n, q), tier: b2i(n != "*"), q: q, set: func(w *World, x *Term) {
				w.with(c.rangeName(elem, names[elem], x), n)
				w.with(c.accessor(hdrRel, elem, "QualityValue", x), q)
			}})
		}
	}
	return cs, noParts
}

// rangeName is what IsWildcard of a range compares with the asterisk.
func (c *Ctx) rangeName(elem, acc string, x *Term) *Term {
	if t := c.accessor(hdrRel, elem, "IsWildcard", x); t != nil && t.Op == "bin" && t.Aux == "==" {
		for i := range t.Args {
			if isStr(t.Args[i], "*") {
				return t.Args[1-i]
			}
		}
	}
	return c.accessor(hdrRel, elem, acc, x)
}

// languageOrder checks that the wildcard is the last of the ranges of a
// language header, and the others are by weight.
func (c *Ctx) languageOrder() int {
	f := c.P.fun(hdrRel, "NewAcceptLanguage")
	if f == nil {
		c.must(false, "", "NewAcceptLanguage no longer exists")
		return 0
	}
	cfg := c.atElements()
	outs, e := c.runE(f, cfg, nil, nil)
	n := 0
	for i := range outs {
		o := &outs[i]
		if _, k := retError(o); k == 1 || o.Panic != nil {
			continue
		}
		r := e.contents(o.St, unconv(o.Ret[0]))
		if mkLen(r) == tInt(0) || o.St.known(mkBin("==", mkLen(r), tInt(0), nil)) == 1 || isKnownEmpty(o.St, rootParams(f)[0]) {
			continue
		}
		if small(o.St, r) {
			continue
		}
		ev := sortedAs(e, o, o.Ret[0])
		if !c.must(ev != nil, c.end(o), "NewAcceptLanguage provides %s, which is not sorted", o.Ret[0]) {
			continue
		}
		k, why := c.comparisonOf(ev, cfg.Opaque)
		if !c.must(k != nil, c.P.posOf(ev.Site), "NewAcceptLanguage: %s", why) {
			continue
		}
		cs, parts := c.classes("LanguageRange", k.a, "", about(k.outs))
		if !c.must(cs != nil, c.P.posn(f.Pos()), "the parts of a language range are not determined") {
			return 0
		}
		c.ordered("NewAcceptLanguage", k, cs, false, parts)
		// among equals, by weight: the comparison says so, or it keeps the
		// order of a list made so.
		byQ, keeps := true, stableSort(ev)
		for _, p := range cs {
			for _, q := range cs {
				if p.tier != q.tier {
					continue
				}
				w := newWorld(c.P)
				p.set(w, k.a)
				q.set(w, k.b)
				b, _ := k.before(w, nil, nil)
				keeps = keeps && b == 0
				if p.q != q.q {
					byQ = byQ && b >= 0 && (b == 1) == (p.q > q.q)
				}
			}
		}
		if !byQ && c.must(keeps, c.P.posOf(ev.Site), "NewAcceptLanguage: equally specific ranges are neither ordered by weight nor kept in their order") {
			c.must(c.descending(ev.Args[2]), c.P.posOf(ev.Site), "NewAcceptLanguage: the ranges sorted are not known to be by weight: %s", ev.Args[2])
		}
		n++
	}
	return b2i(n > 0)
}

// descending recognizes a list of language ranges made by adding the tags that
// the parser provides, in order, and then only ranges of weight zero.
func (c *Ctx) descending(t *Term) bool {
	t = base1(t)
	f := foldOf(t)
	if f == nil {
		return t.isNil() || mkLen(t) == tInt(0)
	}
	for i, nx := range f.Next {
		if nx == f.Sym {
			continue
		}
		if nx.Op != "append" || nx.Args[0] != f.Sym || nx.Args[1].Op != "list" || len(nx.Args[1].Args) != 1 {
			return false
		}
		el := nx.Args[1].Args[0]
		q := c.accessor(hdrRel, "LanguageRange", "QualityValue", el)
		if q == nil {
			return false
		}
		if n, ok := q.intv(); ok && n == 0 {
			continue
		}
		st := factState(f.Loop.Iters[i].Conds)
		if st.known(mkBin("==", q, tInt(0), nil)) == 1 || st.known(mkBin("<", tInt(0), q, nil)) == 0 {
			continue
		}
		// the weights of the parser, in order, onto nothing.
		if !(f.Init.isNil() || mkLen(f.Init) == tInt(0)) || f.Loop.Rev || f.Loop.Pos == nil {
			return false
		}
		ok := q.any(func(x *Term) bool {
			if x.Op != "index" || x.Args[1] != f.Loop.Pos {
				return false
			}
			_, is := resOf(x.Args[0], "1", "golang.org/x/text/language.ParseAcceptLanguage")
			return is
		})
		if !ok {
			return false
		}
		return true
	}
	return c.descending(f.Init)
}

// weightRelations checks how weights are compared and rounded.
func (c *Ctx) weightRelations() {
	c.rounding()
	for _, m := range []struct {
		name string
		want func(x, y float64) bool
	}{
		{"Equals", func(x, y float64) bool { return x == y }},
		{"GreaterThan", func(x, y float64) bool { return x > y }},
		{"LessThan", func(x, y float64) bool { return x < y }},
	} {
		f := c.P.method(hdrRel, "QualityValue", m.name)
		if f == nil {
			continue
		}
		ps := rootParams(f)
		outs := c.run(f, atAnchors(c.P), nil, nil)
		ws := weightsAbout(about(outs), 0, 0.25, 0.5, 1)
		for _, x := range ws {
			for _, y := range ws {
				w := newWorld(c.P).with(ps[0], x).with(ps[1], y)
				c.decided(f, outs, w, nil, nil, fmt.Sprintf("%v, %v", x, y), b2i(m.want(x, y)), false)
			}
		}
		// not coarser than the thousandth.
		for i := range outs {
			for _, t := range append(append([]*Term{}, outs[i].Ret...), litAtoms(outs[i].St.order)...) {
				t.any(func(x *Term) bool {
					if isCall(x, "(~/internal/header.QualityValue).Round") {
						n, ok := x.Args[1].intv()
						c.must(ok && n >= 3, c.end(&outs[i]), "QualityValue.%s compares weights rounded to %s decimals", m.name, x.Args[1])
					}
					return false
				})
			}
		}
	}
}

func litAtoms(ls []Lit) []*Term {
	var r []*Term
	for _, l := range ls {
		r = append(r, l.Atom)
	}
	return r
}

// rounding checks that rounding to a number of decimals divides by the power
// of ten that it multiplied with.
func (c *Ctx) rounding() {
	f := c.P.method(hdrRel, "QualityValue", "Round")
	if f == nil {
		return
	}
	q := rootParams(f)[0]
	for _, n := range []int64{1, 3, 5} {
		outs := c.run(f, Cfg{}, []*Term{q, tInt(n)}, nil)
		for i := range outs {
			o := &outs[i]
			if !c.must(o.Panic == nil && len(o.Ret) == 1, c.end(o), "Round does not return") {
				continue
			}
			ten := func(t *Term) bool {
				t = unconv(t)
				if isCall(t, "math.Pow10") {
					m, ok := unconv(t.Args[0]).intv()
					return ok && m == n
				}
				if isCall(t, "math.Pow") {
					b, ok1 := unconv(t.Args[0]).intv()
					m, ok2 := unconv(t.Args[1]).intv()
					return ok1 && ok2 && b == 10 && m == n
				}
				m, ok := t.intv()
				return ok && float64(m) == math.Pow10(int(n))
			}
			scaled := func(t *Term) bool {
				t = unconv(t)
				return t.Op == "bin" && t.Aux == "*" && (unconv(t.Args[0]) == q && ten(t.Args[1]) || unconv(t.Args[1]) == q && ten(t.Args[0]))
			}
			r := unconv(o.Ret[0])
			ok := false
			if r.Op == "bin" && r.Aux == "/" && ten(r.Args[1]) {
				z := unconv(r.Args[0])
				ok = (isCall(z, "math.Round") || isCall(z, "math.RoundToEven")) && scaled(z.Args[0])
			}
			c.must(ok, c.end(o), "rounding to %d decimals provides %s", n, r)
		}
	}
}

// hasParams checks that a media range has parameters exactly if one is not the
// weight.
func (c *Ctx) hasParams() {
	f := c.P.method(hdrRel, "MediaRange", "HasParams")
	if f == nil {
		return
	}
	x := rootParams(f)[0]
	p := c.accessor(hdrRel, "MediaRange", "Param", x)
	if !c.must(p != nil && p.Op == "lookup", c.P.posn(f.Pos()), "the parameters of a media range are not determined") {
		return
	}
	outs := c.run(f, Cfg{Opaque: func(g *ssa.Function) bool { return g != f && anchors[c.P.fkey(g)] }}, nil, nil)
	a := &agreement{mine: p.Args[0]}
	for _, n := range [][3]int{{0, 0, 0}, {0, 1, 1}, {1, 0, 1}, {1, 0, 2}, {1, 1, 2}, {1, 1, 3}} {
		has := n[0] == 1
		w := newWorld(c.P).with(mkHas(a.mine, tStr("q")), n[1] == 1).with(mkLen(a.mine), float64(n[2]))
		w.more = func(t *Term) int { return a.truth(t, !has) }
		skip := func(t *Term) bool { return a.internal(t) && w.holds(t) < 0 }
		c.decided(f, outs, w, skip, func(o *Outcome) int {
			if h := a.ofPath(o); h == -2 || h >= 0 && (h == 1) == has {
				return 0
			}
			return 1
		}, fmt.Sprintf("a range with parameters other than the weight: %v", has), b2i(has), false)
	}
}

// firstMatch checks that the qualities the algorithms use are those of the
// first range that matches.
func (c *Ctx) firstMatch() int {
	n := 0
	for _, x := range []struct {
		rel, ctor string
		dims      []string
	}{{"proactive", "ApacheHTTPD", apacheDims}, {"transparent", "RVSA1", rvsaDims}} {
		ch := c.chooser(x.rel, x.ctor, filterCfg(c.P))
		if ch == nil {
			continue
		}
		f, rs := c.scoring(ch, x.dims)
		if f == nil {
			continue
		}
		seen := map[string]bool{}
		for _, r := range rs {
			for _, d := range x.dims {
				q := r.quals[d]
				if q.state != "match" || q.rng == nil {
					continue
				}
				seen[d] = true
				why := c.firstOf(ch, dims[d], r, q.rng)
				if !c.must(why == "", r.site, "%s: the %s quality is not that of the first matching range: %s", ch.Name, d, why) {
					return n
				}
			}
		}
		for _, d := range x.dims {
			if d == "features" {
				continue
			}
			if c.must(seen[d], c.P.posn(ch.Fn.Pos()), "%s: no %s quality is taken from a matching range", ch.Name, d) {
				n++
			}
		}
	}
	return n
}

// firstOf checks that the range is the first that matches, on a path.
func (c *Ctx) firstOf(ch *Chooser, d dim, r ranked, rng *Term) string {
	for _, ev := range r.evs {
		if ev.Kind != "loop" || ev.Loop.Coll != rng.Args[0] || ev.Loop.Pos != rng.Args[1] {
			continue
		}
		l := ev.Loop
		if l.Rev {
			return "the ranges are traversed from the last"
		}
		if ev.ExitKind == "normal" {
			return "the traversal goes on after a match"
		}
		for _, it := range l.Iters {
			no := ch.noMatch(d, r.own, it)
			if d.multi {
				// none of the codings of the representation.
				no = ch.none(d, r.own, it.Events)
			}
			if !no {
				return fmt.Sprintf("the traversal may go on after a match (%v)", it.Conds)
			}
		}
		return ""
	}
	return "no traversal of the ranges determines it"
}
