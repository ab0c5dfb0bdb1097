package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C18"] = ruleC18
}

func ruleC18(c *Ctx) {
	c.Rule = "each Compatible is compared with the documented rule on every class of inputs that the wildcard, letter case, being known and agreement of parameters tell apart, by evaluating the conditions of all its paths; agreement of parameters is decided from the loops over them; header wide matching and the recognition of directives are true exactly where some element matches."
	c.Trusted = append(append([]string{}, trustedStd...), "which tags a language range other than the wildcard matches is golang.org/x/text/language's decision")
	n := 0
	n += c.matchMedia()
	n += c.matchCharset()
	n += c.matchCoding()
	n += c.matchLanguage()
	c.minimum(n, 4, "kinds of ranges with a rule to match")
	n = c.namesRead("CharsetRange", "Charset", false)
	n += c.namesRead("ContentCodingRange", "CodingRange", false)
	c.minimum(n, 2, "readers of names")
	n = 0
	for _, k := range [][2]string{{"Accept", "MediaRange"}, {"AcceptCharset", "CharsetRange"}, {"AcceptLanguage", "LanguageRange"}} {
		n += c.matchAny(k[0], k[1])
	}
	n += c.directives()
	c.minimum(n, 5, "header wide matches")
}

// matcher finds a Compatible method and its paths.
func (c *Ctx) matcher(typ string) (*ssa.Function, []*Term, []Outcome) {
	f := c.P.method(hdrRel, typ, "Compatible")
	if f == nil {
		c.must(false, "", "%s.Compatible no longer exists", typ)
		return nil, nil, nil
	}
	outs := c.run(f, Cfg{Opaque: func(g *ssa.Function) bool { return g != f && anchors[c.P.fkey(g)] }}, nil, nil)
	return f, rootParams(f), outs
}

// decided checks the paths of a boolean function against what is wanted in a
// world; label describes the world.
func (c *Ctx) decided(f *ssa.Function, outs []Outcome, w *World, skip func(t *Term) bool, also func(o *Outcome) int, label string, want int, wantErr bool) {
	hits := 0
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		h, un := w.fits(o, skip)
		if h == 0 {
			continue
		}
		if also != nil {
			if a := also(o); a == 0 {
				continue
			}
		}
		if !c.must(h == 1, at, "%s depends on %v", c.P.fkey(f), un) {
			return
		}
		hits++
		if !c.must(o.Panic == nil, at, "%s may panic", c.P.fkey(f)) {
			continue
		}
		if len(o.Ret) == 2 {
			_, k := retError(o)
			if !c.must(k >= 0 && (k == 1) == wantErr, at, "%s: error for %s: %v", c.P.fkey(f), label, o.Ret[1]) {
				continue
			}
			if wantErr {
				continue
			}
		}
		r := w.holds(o.Ret[0])
		c.must(r == want, at, "%s: %s is %s, wanted %d", c.P.fkey(f), label, o.Ret[0], want)
	}
	c.must(hits > 0, c.P.posn(f.Pos()), "%s: no path for %s", c.P.fkey(f), label)
}

// lowered reports whether every reader provides elements whose accessor is in
// lower case.
func (c *Ctx) lowered(typ, acc string) bool {
	for _, f := range c.P.readersOf(typ) {
		e := newEngine(c.P, Cfg{Opaque: func(g *ssa.Function) bool { return anchors[c.P.fkey(g)] && c.P.reads(g) != typ }})
		outs, err := e.Run(f, rootParams(f), nil)
		if err != nil {
			return false
		}
		for i := range outs {
			o := &outs[i]
			if _, k := retError(o); k == 1 {
				continue
			}
			v := c.accessor(hdrRel, typ, acc, o.Ret[0])
			if v == nil || !isLower(v) {
				return false
			}
		}
	}
	return true
}

func isLower(t *Term) bool {
	if s, ok := t.str(); ok {
		return s == strings.ToLower(s)
	}
	switch {
	case isCall(t, "strings.ToLower"):
		return true
	case t.Op == "res" && isCall(t.Args[0], "mime.ParseMediaType") && t.Aux == "0":
		return true
	case t.Op == "res" && isCall(t.Args[0], "strings.Cut"), t.Op == "index" && (isCall(t.Args[0], "strings.Split") || isCall(t.Args[0], "strings.SplitN")):
		return isLower(t.Args[0].Args[0])
	case isCall(t, "strings.TrimSpace"):
		return isLower(t.Args[0])
	}
	return false
}

func (c *Ctx) matchCharset() int {
	f, ps, outs := c.matcher("CharsetRange")
	if outs == nil {
		return 0
	}
	r := c.accessor(hdrRel, "CharsetRange", "Charset", ps[0])
	if !c.must(r != nil, c.P.posn(f.Pos()), "the charset of a range is not determined") {
		return 0
	}
	rs := []string{"*", "utf-8", "x"}
	if !c.lowered("CharsetRange", "Charset") {
		rs = append(rs, "UTF-8", "X")
	}
	near := namesAbout(about(outs))
	rs = append(rs, near...)
	for _, rv := range rs {
		for _, v := range append([]string{"utf-8", "UTF-8", "Utf-8", "x", "X", "utf", "utf-8x"}, near...) {
			w := newWorld(c.P).with(r, rv).with(ps[1], v)
			c.decided(f, outs, w, nil, nil, fmt.Sprintf("range %s, charset %s", rv, v), b2i(rv == "*" || strings.EqualFold(rv, v)), false)
		}
	}
	c.sample("CharsetRange.Compatible: %d paths over classes of range and charset", len(outs))
	return 1
}

func (c *Ctx) matchCoding() int {
	f, ps, outs := c.matcher("ContentCodingRange")
	if outs == nil {
		return 0
	}
	r := c.accessor(hdrRel, "ContentCodingRange", "CodingRange", ps[0])
	if !c.must(r != nil, c.P.posn(f.Pos()), "the coding of a range is not determined") {
		return 0
	}
	known := []string{"gzip", "x-gzip", "deflate", "compress", "x-compress", "identity"}
	rs := append([]string{"*"}, known...)
	if !c.lowered("ContentCodingRange", "CodingRange") {
		rs = append(rs, "GZIP")
	}
	near := namesAbout(about(outs))
	rs = append(rs, near...)
	for _, rv := range rs {
		for _, k := range append(append([]string{"br", "unknown", "gzi"}, near...), known...) {
			in := false
			for _, x := range known {
				in = in || x == k
			}
			for _, v := range []string{k, strings.ToUpper(k), strings.ToUpper(k[:1]) + k[1:]} {
				w := newWorld(c.P).with(r, rv).with(ps[1], v)
				c.decided(f, outs, w, nil, nil, fmt.Sprintf("range %s, coding %s", rv, v), b2i(in && (rv == "*" || strings.EqualFold(rv, v))), false)
			}
		}
	}
	c.sample("ContentCodingRange.Compatible: %d paths over classes of range and coding", len(outs))
	return 1
}

// chosenTag is the index that the matcher of x/text chose for a tag among those
// that it was offered, how many those are, and the index of the range's own.
func (c *Ctx) chosenTag(outs []Outcome, lr *Term) (*Term, int, int) {
	var at *Term
	n, own := 0, -1
	many := false
	note := func(t *Term) {
		t.any(func(x *Term) bool {
			call, ok := resOf(x, "1", "golang.org/x/text/language.MatchStrings")
			if !ok {
				call, ok = resOf(x, "1", "I:Match")
			}
			if !ok || x == at {
				return false
			}
			m := call.Args[0].strip()
			if !isCall(m, "golang.org/x/text/language.NewMatcher") || m.Args[0].Op != "list" || at != nil {
				many = true
				return false
			}
			at, n = x, len(m.Args[0].Args)
			for i, tag := range m.Args[0].Args {
				if tag.contains(lr) {
					many = many || own >= 0
					own = i
				}
			}
			return false
		})
	}
	for i := range outs {
		for _, l := range outs[i].St.order {
			note(l.Atom)
		}
		for _, r := range outs[i].Ret {
			note(r)
		}
	}
	if many || at == nil || own < 0 {
		return nil, 0, 0
	}
	return at, n, own
}

func (c *Ctx) matchLanguage() int {
	f, ps, outs := c.matcher("LanguageRange")
	if outs == nil {
		return 0
	}
	wild := c.accessor(hdrRel, "LanguageRange", "IsWildcard", ps[0])
	var parse *Term
	for i := range outs {
		for _, ev := range outs[i].St.trace {
			if ev.Kind == "call" && isCall(ev.Res, "golang.org/x/text/language.Parse") && ev.Args[0] == ps[1] {
				parse = ev.Res
			}
		}
	}
	if !c.must(wild != nil && parse != nil, c.P.posn(f.Pos()), "whether a tag is valid is not considered") {
		return 0
	}
	er := errNil(mkRes(parse, "1", nil))
	for _, valid := range []bool{true, false} {
		for _, wc := range []bool{true, false} {
			w := newWorld(c.P).with(er, valid).with(wild, wc)
			if valid && !wc {
				// which of the tags offered the matcher chooses.
				if at, n, own := c.chosenTag(outs, ps[0]); at != nil {
					for k := 0; k < n; k++ {
						w := newWorld(c.P).with(er, valid).with(wild, wc).with(at, float64(k))
						c.decided(f, outs, w, nil, nil, fmt.Sprintf("the matcher chooses %d, the range's tag being %d of %d", k, own, n), b2i(k == own), false)
					}
				}
				for i := range outs {
					o := &outs[i]
					if h, _ := w.fits(o, nil); h == 0 {
						continue
					}
					fixed := o.Ret[0].isConst()
					own := o.Ret[0].contains(ps[0]) && o.Ret[0].contains(ps[1])
					for _, l := range o.St.order {
						if l.Atom != er && l.Atom != wild {
							own = own || l.Atom.contains(ps[0]) && l.Atom.contains(ps[1])
						}
					}
					c.must(own, c.end(o), "LanguageRange.Compatible: a tag matches without being compared with the range: %s (%v)", o.Ret[0], fixed)
				}
				continue
			}
			c.decided(f, outs, w, nil, nil, fmt.Sprintf("wildcard %v, valid tag %v", wc, valid), b2i(valid), false)
		}
	}
	// the wildcard is the one of the header, in the readers and in the list.
	c.languageList(false)
	c.namesRead("LanguageRange", "Tag", true)
	return 1
}

// matchMedia checks media ranges.
func (c *Ctx) matchMedia() int {
	f, ps, outs := c.matcher("MediaRange")
	if outs == nil {
		return 0
	}
	mr := ps[0]
	typ, sub := c.accessor(hdrRel, "MediaRange", "Type", mr), c.accessor(hdrRel, "MediaRange", "SubType", mr)
	par := c.accessor(hdrRel, "MediaRange", "Param", mr)
	if !c.must(typ != nil && sub != nil && par != nil && par.Op == "lookup", c.P.posn(f.Pos()), "the parts of a media range are not determined") {
		return 0
	}
	a := &agreement{mine: par.Args[0]}
	others := &agreement{mine: par.Args[0]}
	mime := mkCall("mime.ParseMediaType", nil, ps[1])
	a.theirs = mkRes(mime, "1", nil)
	name, er := mkRes(mime, "0", nil), errNil(mkRes(mime, "2", nil))
	ts, ss := []string{"*", "text"}, []string{"*", "html", ""}
	if !c.lowered("MediaRange", "Type") || !c.lowered("MediaRange", "SubType") {
		ts, ss = append(ts, "TEXT"), append(ss, "HTML")
	}
	loops := 0
	for i := range outs {
		for _, ev := range outs[i].St.trace {
			if ev.Kind == "loop" && ev.Loop.MapT == a.mine {
				loops++
			}
		}
	}
	c.must(loops > 0, c.P.posn(f.Pos()), "the parameters of a media range are not traversed")
	bad := newWorld(c.P).with(er, false)
	bad.more = func(t *Term) int { return -1 }
	c.decided(f, outs, bad, nil, nil, "a media type that cannot be read", 0, true)
	near := namesAbout(about(outs))
	ts, ss = append(ts, near...), append(ss, near...)
	mvs := []string{"text/html", "text/png", "image/html", "image/png", "text", "*/*"}
	added := map[string]bool{}
	for _, n := range near {
		added[n] = true
	}
	for _, tv := range ts {
		for _, sv := range ss {
			// what the code may tell from others, with itself and others.
			own := mvs
			if added[tv] || added[sv] {
				if tv != sv && tv != "text" && tv != "*" && sv != "html" && sv != "*" {
					continue
				}
				own = []string{tv + "/" + sv, tv + "/html", "text/" + sv, "text/html"}
				for _, n := range near {
					if tv == "text" {
						own = append(own, "text/"+n)
					} else if sv == "html" {
						own = append(own, n+"/html")
					}
				}
			} else if tv == "*" || sv == "*" {
				own = append([]string{}, mvs...)
				for _, n := range near {
					own = append(own, n+"/html", "text/"+n, n+"/"+n)
				}
			}
			for _, mv := range own {
				for _, n := range []struct {
					agree, other, weight bool
					n                    float64
				}{{true, false, false, 0}, {true, false, true, 1}, {true, true, false, 1}, {false, true, false, 2}, {true, true, true, 2}, {false, true, true, 3}} {
					agree, other := n.agree, n.other
					w := newWorld(c.P).with(er, true).with(typ, tv).with(sub, sv).with(name, mv)
					w.with(mkHas(a.mine, tStr("q")), n.weight).with(mkLen(a.mine), n.n)
					w.more = func(t *Term) int {
						if h := a.truth(t, agree); h >= 0 {
							return h
						}
						return others.truth(t, !other)
					}
					mt, ms, _ := strings.Cut(mv, "/")
					want := (tv == "*" || strings.EqualFold(tv, mt)) && (sv == "*" || strings.EqualFold(sv, ms)) && agree
					skip := func(t *Term) bool { return a.internal(t) && w.holds(t) < 0 }
					c.decided(f, outs, w, skip, func(o *Outcome) int {
						if p := a.ofPath(o); p == -2 || p >= 0 && (p == 1) != agree {
							return 0
						}
						if p := others.ofPath(o); p == -2 || p >= 0 && (p == 1) == other {
							return 0
						}
						return 1
					}, fmt.Sprintf("range %s/%s, type %s, parameters agree %v", tv, sv, mv, agree), b2i(want), false)
				}
			}
		}
	}
	c.sample("MediaRange.Compatible: %d paths, parameters compared in %d loops", len(outs), loops)
	return 1
}

// agreement decides whether the parameters of a range, other than the weight,
// are all present in those of a media type; or, without another's parameters,
// whether there are none but the weight.
type agreement struct {
	mine, theirs *Term
	loops        map[string]bool
}

// judge tells what conditions on one parameter say: 1 it agrees, 0 it does
// not, -1 nothing.
func (a *agreement) judge(l *Loop, conds []Lit) int {
	k := l.KeyT
	weight, has, eq := -1, -1, -1
	var v, vv *Term
	if a.theirs != nil {
		v, vv = raw("lookup", "", nil, a.mine, k), raw("lookup", "", nil, a.theirs, k)
	}
	for _, c := range conds {
		t := c.Atom
		switch {
		case t == mkBin("==", k, tStr("q"), nil):
			weight = b2i(c.Pol)
		case isCall(t, "strings.EqualFold") && (t.Args[0] == k && isStr(t.Args[1], "q") || t.Args[1] == k && isStr(t.Args[0], "q")):
			weight = b2i(c.Pol)
		case a.theirs != nil && t == mkHas(a.theirs, k):
			has = b2i(c.Pol)
		case a.theirs != nil && t == mkBin("==", v, vv, nil):
			eq = b2i(c.Pol)
		}
	}
	if a.theirs == nil {
		return weight
	}
	switch {
	case weight == 1, has == 1 && eq == 1:
		return 1
	case weight == 0 && (has == 0 || eq == 0):
		return 0
	}
	return -1
}

// internal reports whether a condition is about one parameter in a loop.
func (a *agreement) internal(t *Term) bool {
	return t.any(func(x *Term) bool {
		return x.Op == "sym" && (strings.HasSuffix(x.Aux, ".key") || strings.HasSuffix(x.Aux, ".ok"))
	}) || t.Op == "bin" && t.Args[0] == mkLen(a.mine) || t.Op == "bin" && t.Args[1] == mkLen(a.mine)
}

// ofPath is what the loops of a path say about the agreement, -2 if they
// contradict each other.
func (a *agreement) ofPath(o *Outcome) int {
	r, bad := -1, false
	set := func(v int) {
		bad = bad || r >= 0 && r != v
		r = v
	}
	n := mkLen(a.mine)
	if o.St.known(mkBin("==", n, tInt(0), nil)) == 1 {
		set(1)
	}
	for _, ev := range o.St.trace {
		if ev.Kind != "loop" || ev.Loop.MapT != a.mine {
			continue
		}
		if ev.ExitKind == "normal" {
			all := len(ev.Loop.Iters) > 0
			for _, it := range ev.Loop.Iters {
				all = all && a.judge(ev.Loop, it.Conds) == 1
			}
			if all {
				set(1)
			}
			continue
		}
		if a.judge(ev.Loop, o.St.order) == 0 {
			set(0)
		}
	}
	if bad {
		return -2
	}
	return r
}

// truth decides what a traversal that collects the agreement provides.
func (a *agreement) truth(t *Term, agree bool) int {
	f := foldOf(t)
	if f == nil || f.Loop.MapT != a.mine || !isBool(f.Sym.Typ) {
		return -1
	}
	for _, x := range f.Loop.Exits {
		if x.Kind != "normal" {
			return -1
		}
	}
	// the value is "agrees so far", or its opposite.
	for _, pos := range []bool{true, false} {
		ok := f.Init.isTrue() == pos && f.Init.isFalse() == !pos
		for i, nx := range f.Next {
			st := factState(f.Loop.Iters[i].Conds)
			j := a.judge(f.Loop, f.Loop.Iters[i].Conds)
			for _, sofar := range []bool{true, false} {
				if k := st.known(f.Sym); k >= 0 && (k == 1) != (sofar == pos) {
					continue
				}
				v := -1
				switch {
				case nx == f.Sym:
					v = b2i(sofar)
				case nx.isTrue():
					v = b2i(pos)
				case nx.isFalse():
					v = b2i(!pos)
				}
				switch {
				case !sofar:
					ok = ok && v == 0
				case j >= 0:
					ok = ok && v == j
				default:
					ok = false
				}
			}
		}
		if ok {
			return b2i(agree == pos)
		}
	}
	return -1
}

// matchAny checks that a header matches when one of its ranges does.
func (c *Ctx) matchAny(hdr, typ string) int {
	f := c.P.method(hdrRel, hdr, "Compatible")
	if f == nil {
		return 1 // nothing to go wrong
	}
	root := f
	outs := c.run(f, Cfg{Opaque: func(g *ssa.Function) bool { return g != root && anchors[c.P.fkey(g)] }}, nil, nil)
	if outs == nil {
		return 0
	}
	ps := rootParams(f)
	key := "(~/" + hdrRel + "." + typ + ").Compatible"
	over := func(t *Term) bool {
		if t == nil {
			return false
		}
		t = unconv(t)
		if t.Op == "call" && len(t.Args) == 1 && strings.Contains(t.Aux, "Ranges") || t.Op == "sorted" {
			t = unconv(t.Args[0])
		}
		return t == ps[0]
	}
	// of is the truth of an atom that tells a match, its error, and whether it is one.
	of := func(t *Term) (kind string) {
		if call, ok := resOf(t, "0", key); ok {
			t = call
		}
		if isCall(t, key) && len(t.Args) == 2 && t.Args[1] == ps[1] && t.Args[0].Op == "index" && over(t.Args[0].Args[0]) {
			return "match"
		}
		if t.Op == "bin" && t.Aux == "==" && t.Args[1].isNil() && t.Args[0].Op == "res" && t.Args[0].Aux == "1" && isCall(t.Args[0].Args[0], key) {
			return "error"
		}
		return ""
	}
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		if !c.must(o.Panic == nil && len(o.Ret) >= 1, at, "%s.Compatible does not return", hdr) {
			continue
		}
		match, fail := -1, -1
		for _, l := range o.St.order {
			switch of(l.Atom) {
			case "match":
				match = b2i(l.Pol)
			case "error":
				fail = b2i(!l.Pol)
			}
		}
		all := false
		for _, ev := range o.St.trace {
			if ev.Kind == "loop" && ev.ExitKind == "normal" && over(ev.Loop.Coll) && len(ev.Loop.Iters) > 0 {
				all = true
				for _, it := range ev.Loop.Iters {
					no := false
					for _, l := range it.Conds {
						no = no || of(l.Atom) == "match" && !l.Pol
					}
					all = all && no
				}
			}
		}
		r := resultIs(o)
		er, e := retError(o)
		if e < 0 && always(er, o.St, func(t *Term, st *State) bool { return t.isNil() || st.known(errNil(t)) == 1 }) {
			e = 0
		}
		if len(o.Ret) < 2 {
			e = 0
		}
		switch {
		case fail == 1:
			c.must(e == 1, at, "%s.Compatible: the failure of a comparison is lost", hdr)
		case match == 1:
			// an error of the comparison that matched, if any, is returned as well.
			own := e < 0 && er != nil && er.Op == "res" && er.Aux == "1" && isCall(er.Args[0], key)
			c.must(r == 1 && (e == 0 || own), at, "%s.Compatible: where a range matches the result is %s", hdr, o.Ret[0])
		case isKnownEmpty(o.St, ps[0]), all:
			c.must(r == 0 && e == 0, at, "%s.Compatible: where no range matches the result is %s", hdr, o.Ret[0])
		default:
			c.must(false, at, "%s.Compatible: %s without comparing every range (%s)", hdr, o.Ret[0], c.facts(o))
		}
	}
	return 1
}

// always reports whether a value that a traversal carries keeps satisfying
// test in every iteration.
func always(t *Term, st *State, test func(t *Term, st *State) bool) bool {
	var rec func(t *Term, st *State, so map[*Term]bool) bool
	rec = func(t *Term, st *State, so map[*Term]bool) bool {
		if so[t] || test(t, st) {
			return true
		}
		f := foldOf(t)
		if f == nil || !rec(f.Init, st, so) {
			return false
		}
		so2 := map[*Term]bool{f.Sym: true}
		for k := range so {
			so2[k] = true
		}
		for i, nx := range f.Next {
			if !rec(nx, factState(f.Loop.Iters[i].Conds), so2) {
				return false
			}
		}
		return true
	}
	return rec(t, st, map[*Term]bool{})
}

// resultIs is the boolean a path ends with: 1, 0, or -1.
func resultIs(o *Outcome) int {
	t := o.Ret[0]
	if k := o.St.known(t); k >= 0 {
		return k
	}
	for v := 0; v <= 1; v++ {
		if always(t, o.St, func(t *Term, st *State) bool { return st.known(t) == v }) {
			return v
		}
	}
	return -1
}

// directives checks the recognition of the Negotiate directives.
func (c *Ctx) directives() int {
	n := 0
	for _, name := range []string{"Contains", "ContainsRVSA"} {
		f := c.P.method(hdrRel, "Negotiate", name)
		if f == nil {
			c.must(false, "", "Negotiate.%s no longer exists", name)
			continue
		}
		root := f
		outs := c.run(f, Cfg{Opaque: func(g *ssa.Function) bool { return g != root && anchors[c.P.fkey(g)] }}, nil, nil)
		if outs == nil {
			continue
		}
		n++
		ps := rootParams(f)
		elem := func(t *Term, of *Term) bool {
			t = foldCase(unconv(t))
			t = unconv(t)
			return t.Op == "index" && unconv(t.Args[0]) == of
		}
		arg := func(t *Term) bool {
			if name == "Contains" {
				return elem(t, ps[1])
			}
			return unconv(foldCase(unconv(t))) == ps[1]
		}
		// same recognizes the comparison of a directive with one asked for.
		same := func(t *Term) bool {
			if !isCall(t, "strings.EqualFold") && !(t.Op == "bin" && t.Aux == "==" && isLower(t.Args[0]) && isLower(t.Args[1])) {
				return false
			}
			return elem(t.Args[0], ps[0]) && arg(t.Args[1]) || elem(t.Args[1], ps[0]) && arg(t.Args[0])
		}
		isVersion := func(t *Term) bool {
			return isCall(t, "(~/"+hdrRel+".NegotiateDirective).IsRVSAVersion") && (elem(t.Args[0], ps[0]) || arg(t.Args[0]))
		}
		differ := func(ls []Lit) bool {
			for _, l := range ls {
				if !l.Pol && (same(l.Atom) || isVersion(l.Atom)) {
					return true
				}
			}
			return false
		}
		var none func(evs []*Event) bool
		none = func(evs []*Event) bool {
			for _, ev := range evs {
				if ev.Kind != "loop" || ev.ExitKind != "normal" || len(ev.Loop.Iters) == 0 || ev.Loop.Coll == nil {
					continue
				}
				if u := unconv(ev.Loop.Coll); u != ps[0] && (u != ps[1] || name != "Contains") {
					continue
				}
				all := true
				for _, it := range ev.Loop.Iters {
					all = all && (differ(it.Conds) || none(it.Events))
				}
				if all {
					return true
				}
			}
			return false
		}
		for i := range outs {
			o := &outs[i]
			at := c.end(o)
			if !c.must(o.Panic == nil && len(o.Ret) == 1, at, "Negotiate.%s does not return", name) {
				continue
			}
			found := false
			for _, l := range o.St.order {
				found = found || l.Pol && same(l.Atom)
			}
			r := resultIs(o)
			switch {
			case found && !differ(o.St.order):
				c.must(r == 1, at, "Negotiate.%s: a directive that is present is not found: %s", name, o.Ret[0])
			case none(o.St.trace) || isKnownEmpty(o.St, ps[0]):
				c.must(r == 0, at, "Negotiate.%s: a directive that is absent is found: %s", name, o.Ret[0])
			default:
				c.must(false, at, "Negotiate.%s: %s without comparing every directive (%s)", name, o.Ret[0], c.facts(o))
			}
		}
	}
	// versions are numbers.
	f := c.P.method(hdrRel, "NegotiateDirective", "IsRVSAVersion")
	if f == nil {
		c.must(false, "", "NegotiateDirective.IsRVSAVersion no longer exists")
		return n
	}
	outs := c.run(f, Cfg{Opaque: func(g *ssa.Function) bool { return g != f && anchors[c.P.fkey(g)] }}, nil, nil)
	ps := rootParams(f)
	for i := range outs {
		o := &outs[i]
		ok := false
		for _, bits := range []int64{32, 64} {
			er := errNil(mkRes(mkCall("strconv.ParseFloat", nil, ps[0], tInt(bits)), "1", nil))
			if o.Ret[0] == er || o.St.known(er) >= 0 && o.St.known(o.Ret[0]) == o.St.known(er) {
				ok = true
			}
		}
		c.must(ok, c.end(o), "NegotiateDirective.IsRVSAVersion: %s is not whether the directive is a number", o.Ret[0])
	}
	return n
}
