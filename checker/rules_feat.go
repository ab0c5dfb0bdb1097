package main

import (
	"fmt"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C20"] = ruleC20
}

const (
	fsContains = "(~/internal/header.FeatureSet).Contains"
	fsValues   = "(~/internal/header.FeatureSet).Values"
	fsAdd      = "(~/internal/header.FeatureSet).Add"
	tagEq      = "(~/internal/header.FeatureTag).Equals"
	valEq      = "(~/internal/header.FeatureTagValue).Equals"
	newPred    = "~/internal/header.NewFeaturePredicate"
	newBag     = "~/internal/header.NewFeaturePredicateBag"
	bagEval    = "(~/internal/header.FeaturePredicateBag).Evaluate"
	newPredEl  = "~/internal/header.NewPredicateListElement"
	newBagEl   = "~/internal/header.NewPredicateBagListElement"
)

func ruleC20(c *Ctx) {
	c.Rule = "the degradation is a product over the whole list with the factor that the element's own truth selects; factors are traced to the groups of the expression that reads them, whose place in the text is decided by regular language inclusion; each predicate, found by the language of texts that it is made from, is compared with its meaning on every class of feature sets by evaluating the conditions of all paths; the operations of feature sets and the reading of Accept-Features likewise."
	c.Trusted = append(append([]string{}, trustedStd...), "the highest value of a range predicate is decided for lists of up to three values of every relative order and for the loop traversing all values")
	c.degradationFold()
	c.minimum(c.elementFactors(newPredEl, newPred)+c.elementFactors(newBagEl, newBag), 2, "kinds of elements of feature lists")
	c.featureListOf()
	c.bagHolds()
	c.bagOf()
	c.minimum(c.predicates(), 5, "kinds of predicates")
	c.setOperations()
	c.tagEquality()
	c.requestSets()
}

// keeping keeps the functions named, and nothing else, opaque.
func (c *Ctx) keeping(root *ssa.Function, keys ...string) Cfg {
	return Cfg{Opaque: func(f *ssa.Function) bool {
		k := c.P.fkey(f)
		for _, x := range keys {
			if f != root && k == x {
				return true
			}
		}
		return false
	}}
}

// some decides from loops whether an element of a collection satisfies a
// condition.
type some struct {
	over  func(l *Loop) bool
	judge func(l *Loop, conds []Lit) int // of the element of the iteration
}

// ofPath is what the loops of a path say: 1 some element does, 0 none does,
// -1 nothing, -2 they contradict each other.
func (s *some) ofPath(o *Outcome) int {
	r, bad := -1, false
	set := func(v int) {
		bad = bad || r >= 0 && r != v
		r = v
	}
	for _, ev := range o.St.trace {
		if ev.Kind != "loop" || !s.over(ev.Loop) {
			continue
		}
		if ev.ExitKind == "normal" {
			none := len(ev.Loop.Iters) > 0
			for _, it := range ev.Loop.Iters {
				none = none && s.judge(ev.Loop, it.Conds) == 0
			}
			if none {
				set(0)
			}
		} else if s.judge(ev.Loop, o.St.order) == 1 {
			set(1)
		}
	}
	for _, l := range o.St.order {
		if a, b := s.truth(l.Atom, true), s.truth(l.Atom, false); a >= 0 && b >= 0 && a != b {
			set(b2i((a == 1) == l.Pol))
		}
	}
	if bad {
		return -2
	}
	return r
}

// truth is the value of what a traversal collects, given whether some element
// does.
func (s *some) truth(t *Term, v bool) int {
	f := foldOf(t)
	if f == nil {
		f = symFold(t)
	}
	if f == nil || !s.over(f.Loop) || f.Sym.Typ == nil || !isBool(f.Sym.Typ) {
		return -1
	}
	// what is the same whatever happens.
	always := f.Init.isTrue() || f.Init.isFalse()
	for i, nx := range f.Next {
		always = always && (nx == f.Sym || factState(f.Loop.Iters[i].Conds).known(nx) == b2i(f.Init.isTrue()))
	}
	if always {
		return b2i(f.Init.isTrue())
	}
	for _, pos := range []bool{true, false} {
		ok := f.Init.isTrue() == !pos && f.Init.isFalse() == pos
		for _, x := range f.Loop.Exits {
			// it may end early when the answer is known.
			ok = ok && (x.Kind == "normal" || factState(x.Conds).known(f.Sym) == b2i(pos))
		}
		for i, nx := range f.Next {
			conds := f.Loop.Iters[i].Conds
			st := factState(conds)
			j := s.judge(f.Loop, conds)
			for _, sofar := range []bool{true, false} {
				if k := st.known(f.Sym); k >= 0 && (k == 1) != (sofar == pos) {
					continue
				}
				n := -1
				switch {
				case nx == f.Sym:
					n = b2i(sofar)
				case nx.isTrue():
					n = b2i(pos)
				case nx.isFalse():
					n = b2i(!pos)
				default:
					j1 := s.judge(f.Loop, append(append([]Lit{}, conds...), litOf(nx, true)))
					j0 := s.judge(f.Loop, append(append([]Lit{}, conds...), litOf(nx, false)))
					if !sofar && (pos && j1 == 1 && j0 == 0 || !pos && j1 == 0 && j0 == 1) {
						continue
					}
				}
				switch {
				case sofar:
					ok = ok && n == 1
				case j >= 0:
					ok = ok && n == j
				default:
					ok = false
				}
			}
		}
		if ok {
			return b2i(v == pos)
		}
	}
	return -1
}

// symFold is what t is the value of in an iteration.
func symFold(t *Term) *Fold {
	if t.Op != "sym" {
		return nil
	}
	for _, f := range tt.folds {
		if f.Sym == t {
			return f
		}
	}
	return nil
}

func litOf(t *Term, v bool) Lit {
	for t.Op == "not" {
		t, v = t.Args[0], !v
	}
	return Lit{t, v}
}

// internal reports whether a condition is about the progress of a traversal.
func internal(o *Outcome, t *Term) bool {
	for _, ev := range o.St.trace {
		if ev.Kind == "loop" && ev.Loop.Pos != nil && t.contains(ev.Loop.Pos) {
			return true
		}
	}
	return t.any(func(x *Term) bool {
		return x.Op == "sym" && (strings.HasSuffix(x.Aux, ".key") || strings.HasSuffix(x.Aux, ".ok"))
	})
}

// knownCall is what the facts say about a call.
func knownCall(conds []Lit, key string, args ...*Term) int {
	for _, l := range conds {
		if sameCall(l.Atom, raw("call", key, nil, args...)) {
			return b2i(l.Pol)
		}
	}
	return -1
}

// sameCall reports whether t is the call, at whatever time.
func sameCall(t, call *Term) bool {
	if !isCall(t, call.Aux) || len(t.Args) != len(call.Args) {
		return false
	}
	for i := range t.Args {
		if unconv(t.Args[i]) != call.Args[i] {
			return false
		}
	}
	return true
}

// after is a path without the first facts.
func after(o *Outcome, n int) *Outcome {
	x := *o
	st := *o.St
	st.order = o.St.order[n:]
	x.St = &st
	return &x
}

func (c *Ctx) degradationFold() {
	f := c.P.method(hdrRel, "FeatureList", "QualityDegradation")
	if f == nil {
		c.must(false, "", "FeatureList.QualityDegradation no longer exists")
		return
	}
	ps := rootParams(f)
	outs := c.run(f, c.keeping(f), nil, nil)
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		if !c.must(o.Panic == nil && len(o.Ret) == 1, at, "the degradation is not determined") {
			continue
		}
		t := unconv(o.Ret[0])
		if isKnownEmpty(o.St, ps[0]) {
			n, ok := t.intv()
			c.must(ok && n == 1, at, "the degradation of an empty list is %s", t)
			continue
		}
		fd := foldOf(t)
		if !c.must(fd != nil && fd.Loop.Coll == ps[0] && fd.Loop.Pos != nil && len(fd.Next) > 0, at, "the degradation is %s, not a product over the list", t) {
			continue
		}
		l := fd.Loop
		n, ok := unconv(fd.Init).intv()
		c.must(ok && n == 1, at, "the product starts with %s", fd.Init)
		for _, x := range l.Exits {
			c.must(x.Kind == "normal", at, "the product leaves out elements where %v", x.Conds)
		}
		el := mkIndex(ps[0], l.Pos, nil)
		call := func(n string, args ...*Term) *Term { return raw("call", "I:"+n, nil, append([]*Term{el}, args...)...) }
		for k, nx := range fd.Next {
			h := knownCall(l.Iters[k].Conds, "I:Evaluate", el, ps[1], ps[2])
			if !c.must(h >= 0, at, "a factor does not depend on whether its element holds (%v)", l.Iters[k].Conds) {
				continue
			}
			want := call("FalseDegradation")
			if h == 1 {
				want = call("TrueImprovement")
			}
			got := unconv(nx)
			ok := got.Op == "bin" && got.Aux == "*"
			if ok {
				a, b := unconv(got.Args[0]), unconv(got.Args[1])
				ok = a == fd.Sym && sameCall(b, want) || b == fd.Sym && sameCall(a, want)
			}
			c.must(ok, at, "where an element holds (%s) the product becomes %s", tri(h), nx)
		}
		c.sample("FeatureList.QualityDegradation: product over %d ways of an iteration", len(fd.Next))
	}
	c.must(len(outs) > 0, c.P.posn(f.Pos()), "the degradation is not determined")
}

// markOf is the language of an expression with a group replaced by a mark.
func markOf(re *syntax.Regexp, k int) *nfa {
	p := capture(re, k)
	if p == nil {
		return nil
	}
	return nfaOf(replaceRe(re, p[len(p)-1], &syntax.Regexp{Op: syntax.OpLiteral, Rune: []rune{1}}), false)
}

func (c *Ctx) reOf(v *Term) *syntax.Regexp {
	if v.Op == "gval" {
		v = newEngine(c.P, Cfg{}).staticOf(v)
	}
	if v == nil || v.Op != "call" || !isCall(v, "regexp.MustCompile") {
		return nil
	}
	s, ok := v.Args[0].str()
	if !ok {
		return nil
	}
	return parseRe(s)
}

// matches tells what a fact says about an expression matching: the expression,
// the text and the truth.
func matches(l Lit) (re, text *Term, m bool) {
	t := l.Atom
	if isCall(t, "(*regexp.Regexp).MatchString") {
		return t.Args[0], t.Args[1], l.Pol
	}
	if t.Op == "bin" && t.Aux == "==" {
		x := t.Args[0]
		none := t.Args[1].isNil()
		if n, ok := t.Args[1].intv(); ok && n == 0 && x.Op == "len" {
			x, none = x.Args[0], true
		}
		if none && isCall(x, "(*regexp.Regexp).FindStringSubmatch") {
			return x.Args[0], x.Args[1], !l.Pol
		}
	}
	return nil, nil, false
}

// groupAt is the expression, the text and the number of a group.
func groupAt(t *Term) (re, text *Term, k int) {
	t = unconv(t)
	if t.Op != "index" || !isCall(t.Args[0], "(*regexp.Regexp).FindStringSubmatch") {
		return nil, nil, 0
	}
	n, ok := t.Args[1].intv()
	if !ok {
		return nil, nil, 0
	}
	return t.Args[0].Args[0], t.Args[0].Args[1], int(n)
}

const (
	factors3 = `^(\+\d+(\.\d{1,3})?)?(-\d+(\.\d{1,3})?)?$`
	factorsW = `^(\+[\d.]+)?(-[\d.]+)?$`
)

// elementFactors checks the factors of the elements a constructor makes, and
// that they hold when their predicate does.
func (c *Ctx) elementFactors(ctor, pred string) int {
	f := c.P.fun(hdrRel, ctor[strings.LastIndex(ctor, ".")+1:])
	if f == nil {
		c.must(false, "", "%s no longer exists", ctor)
		return 0
	}
	in := rootParams(f)[0]
	cfg := c.keeping(f, newPred, newBag, bagEval)
	outs, _ := c.runE(f, cfg, nil, nil)
	split := mkCall("strings.Split", nil, in, tStr(";"))
	cut := mkCall("strings.Cut", nil, in, tStr(";"))
	first := mkRes(cut, "0", nil)
	made := mkCall(pred, nil, first)
	n := 0
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		if !c.must(o.Panic == nil && len(o.Ret) == 2, at, "%s does not return", ctor) {
			continue
		}
		if _, k := retError(o); k == 1 {
			continue
		}
		r := o.Ret[0]
		if !c.must(r.Op == "mk", at, "%s provides %s", ctor, r) {
			continue
		}
		n++
		method := func(name string, args ...*Term) []Outcome {
			m := c.P.methodOf(r.Typ, name)
			if m == nil {
				c.must(false, at, "what %s provides has no %s", ctor, name)
				return nil
			}
			e := newEngine(c.P, cfg)
			rs, err := e.Run(m, append([]*Term{r.Args[0]}, args...), o.St.clone())
			c.must(err == nil, at, "%s: %v", name, err)
			return rs
		}
		// it holds when its predicate does.
		sup, uns := raw("sym", "supported", nil), raw("sym", "unsupported", nil)
		for _, x := range method("Evaluate", sup, uns) {
			h := x.Ret[0]
			// errors from the fact that the predicate was made surface before.
			p := mkRes(made, "0", nil)
			tells := func(h *Term) bool {
				return h.Op == "call" && len(h.Args) == 3 && (isCall(h, "I:Evaluate") || isCall(h, bagEval)) && h.Args[0] == p && h.Args[1] == sup && h.Args[2] == uns
			}
			is := tells(h)
			for _, l := range x.St.order {
				is = is || (h.isTrue() || h.isFalse()) && tells(l.Atom) && l.Pol == h.isTrue()
			}
			c.must(is, c.end(&x), "an element of %s holds where %s", ctor, h)
		}
		// the groups with the factors.
		var plus, minus *Term
		for _, l := range o.St.order {
			l.Atom.any(func(t *Term) bool {
				re, text, k := groupAt(t)
				if re == nil {
					return false
				}
				s := c.reOf(re)
				ok := s != nil
				if ok {
					if y, x := subsetOf(nfaOf(parseRe(factors3), false), nfaOf(s, false)); !c.must(y, at, "%s refuses the factors %s", re, quoted(x)) {
						return true
					}
					if y, x := subsetOf(nfaOf(s, false), nfaOf(parseRe(factorsW), false)); !c.must(y, at, "%s accepts the factors %s", re, quoted(x)) {
						return true
					}
				}
				c.must(ok && (text == mkIndex(split, tInt(1), nil) || text == mkRes(cut, "1", nil)), at, "the factors are read from %s", text)
				m := nfaOf(&syntax.Regexp{Op: syntax.OpNoMatch}, false)
				if ok {
					m = markOf(s, k)
				}
				if m == nil {
					return false
				}
				in := func(p string) bool { y, _ := subsetOf(m, nfaOf(parseRe(p), false)); return y }
				gone := func(p string) bool {
					// without the group, or with it empty, there is no such factor.
					g := capture(s, k)
					last := g[len(g)-1]
					if !nonEmptyRe(last) {
						return false
					}
					y, _ := subsetOf(nfaOf(replaceRe(s, last, &syntax.Regexp{Op: syntax.OpNoMatch}), false), nfaOf(parseRe(p), false))
					return y
				}
				switch {
				case in(`^(\+\x01)?(-[\d.]+)?$`) && gone(`^(-[\d.]+)?$`):
					plus = t
				case in(`^(\+[\d.]+)?(-\x01)?$`) && gone(`^(\+[\d.]+)?$`):
					minus = t
				}
				return false
			})
		}
		type factors struct {
			parts    int
			t, f     string
			wt, wf   float64
			describe string
		}
		w4s := []factors{
			{1, "", "", 1, 0, "no factors"},
			{2, "", "", 1, 0, "an empty list of factors"},
			{2, "1.5", "", 1.5, 1, "a true factor"},
			{2, "", "0.25", 1, 0.25, "a false factor"},
			{2, "1.5", "0.25", 1.5, 0.25, "both factors"},
			{2, "0", "0", 0, 0, "both factors zero"},
		}
		ts := about([]Outcome{*o})
		for _, m := range []string{"TrueImprovement", "FalseDegradation"} {
			ts = append(ts, about(method(m))...)
		}
		for _, v := range weightsAbout(ts) {
			s := strconv.FormatFloat(v, 'f', -1, 64)
			w4s = append(w4s, factors{2, s, "", v, 1, "a true factor of " + s}, factors{2, "", s, 1, v, "a false factor of " + s})
		}
		for _, w4 := range w4s {
			if w4.parts == 2 && (plus == nil || minus == nil) {
				continue
			}
			w := newWorld(c.P).with(mkLen(split), float64(w4.parts)).with(mkRes(cut, "2", nil), w4.parts == 2)
			if plus != nil {
				w.with(plus, w4.t)
			}
			if minus != nil {
				w.with(minus, w4.f)
			}
			w.more = func(t *Term) int {
				if _, _, m := matches(Lit{t, true}); m {
					return 1
				}
				if re, _, _ := matches(Lit{t, true}); re != nil {
					return 0
				}
				if t == errNil(mkRes(made, "1", nil)) {
					return 1
				}
				return -1
			}
			for _, m := range []struct {
				name string
				want float64
			}{{"TrueImprovement", w4.wt}, {"FalseDegradation", w4.wf}} {
				if h, _ := w.fits(o, nil); h == 0 {
					continue
				}
				hits := 0
				for _, x := range method(m.name) {
					h, un := w.fits(&x, nil)
					if h == 0 {
						continue
					}
					hits++
					if !c.must(h == 1 && x.Panic == nil, c.end(&x), "%s of an element with %s depends on %v", m.name, w4.describe, un) {
						continue
					}
					v, ok := w.eval(unconv(x.Ret[0])).(float64)
					c.must(ok && v == m.want, c.end(&x), "%s of an element with %s is %s", m.name, w4.describe, x.Ret[0])
				}
				c.must(hits > 0, at, "%s of an element with %s is not determined", m.name, w4.describe)
			}
		}
		if plus == nil || minus == nil {
			// a path without factors.
			bare := o.St.known(mkBin("==", mkLen(split), tInt(1), nil)) == 1 || o.St.known(mkBin("<", mkLen(split), tInt(2), nil)) == 1 || o.St.known(mkRes(cut, "2", nil)) == 0
			c.must(bare, at, "%s: the factors are not known (%s)", ctor, c.facts(o))
		}
	}
	c.minimum(n, 3, "ways "+ctor+" provides an element")
	return 1
}

// featureListOf checks that every feature becomes an element, a bag if it
// starts with a bracket.
func (c *Ctx) featureListOf() {
	f := c.P.fun(hdrRel, "NewFeatureList")
	if f == nil {
		c.must(false, "", "NewFeatureList no longer exists")
		return
	}
	in := rootParams(f)[0]
	outs := c.run(f, c.keeping(f, newPredEl, newBagEl), nil, nil)
	n := 0
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		if !c.must(o.Panic == nil && len(o.Ret) == 2, at, "NewFeatureList does not return") {
			continue
		}
		er, k := retError(o)
		if k == 1 {
			ok := er.Op == "res" && er.Aux == "1" && (isCall(er.Args[0], newPredEl) || isCall(er.Args[0], newBagEl))
			c.must(ok, at, "NewFeatureList fails with %s", er)
			continue
		}
		if isKnownEmpty(o.St, in) {
			continue
		}
		n++
		why := ""
		ok := collects(unconv(o.Ret[0]), in, func(l *Loop, el *Term) bool { return true })
		fd := foldOf(unconv(o.Ret[0]))
		if ok && fd != nil {
			for j, nx := range fd.Next {
				var el *Term
				if nx.Op == "append" {
					el = nx.Args[1].Args[0]
				} else {
					el = nx.Args[2]
				}
				x := mkIndex(in, fd.Loop.Pos, nil)
				st := factState(fd.Loop.Iters[j].Conds)
				type kindOf struct {
					text string
					ctor string
				}
				kinds := []kindOf{{"[a b]", newBagEl}, {"[a b];+1-0.5", newBagEl}, {"a", newPredEl}, {"a=[1-5]", newPredEl}, {"!a;-0.5", newPredEl}, {"a = [-5];+2", newPredEl}}
				var ts []*Term
				for _, l := range fd.Loop.Iters[j].Conds {
					ts = append(ts, l.Atom)
				}
				for _, t := range textsAbout(ts, func(n string) string { return "[" + n + " b]" }) {
					kinds = append(kinds, kindOf{t, newBagEl}, kindOf{t + ";+1-0.5", newBagEl})
				}
				for _, t := range textsAbout(ts, func(n string) string { return n }) {
					kinds = append(kinds, kindOf{t, newPredEl}, kindOf{t + "=[1-5]", newPredEl}, kindOf{"!" + t + ";-0.5", newPredEl})
				}
				for _, kind := range kinds {
					w := newWorld(c.P).with(x, kind.text)
					w.more = func(t *Term) int {
						if t.Op == "bin" && t.Args[1].isNil() && t.Args[0].Op == "res" && (isCall(t.Args[0].Args[0], newPredEl) || isCall(t.Args[0].Args[0], newBagEl)) {
							return 1
						}
						return -1
					}
					h, un := w.fits(&Outcome{St: st}, func(t *Term) bool { return t == mkBin("<", fd.Loop.Pos, mkLen(in), nil) })
					if h == 0 {
						continue
					}
					if h < 0 {
						why = "the kind of an element depends on " + un.String()
						continue
					}
					if call, is := resOf(el, "0", kind.ctor); !is || len(call.Args) != 1 || call.Args[0] != x {
						why = fmt.Sprintf("the element of %q is %s", kind.text, el)
					} else if st.known(errNil(mkRes(call, "1", nil))) != 1 {
						why = fmt.Sprintf("the failure to read %q is ignored", kind.text)
					}
				}
			}
		}
		c.must(ok, at, "NewFeatureList provides %s, not an element of every feature", o.Ret[0])
		c.must(why == "", at, "NewFeatureList: %s", why)
	}
	c.minimum(n, 1, "ways to make a feature list")
}

func (c *Ctx) bagHolds() {
	f := c.P.method(hdrRel, "FeaturePredicateBag", "Evaluate")
	if f == nil {
		c.must(false, "", "FeaturePredicateBag.Evaluate no longer exists")
		return
	}
	ps := rootParams(f)
	outs := c.run(f, Cfg{NoUnroll: true, Opaque: c.keeping(f).Opaque}, nil, nil)
	s := &some{
		over: func(l *Loop) bool { return l.Coll == ps[0] && l.Pos != nil },
		judge: func(l *Loop, conds []Lit) int {
			return knownCall(conds, "I:Evaluate", mkIndex(ps[0], l.Pos, nil), ps[1], ps[2])
		},
	}
	for _, v := range []bool{false, true} {
		w := newWorld(c.P)
		w.more = func(t *Term) int { return s.truth(t, v) }
		hits := 0
		for i := range outs {
			o := &outs[i]
			if p := s.ofPath(o); p == -2 || p >= 0 && (p == 1) != v {
				continue
			}
			if v && isKnownEmpty(o.St, ps[0]) {
				continue
			}
			h, un := w.fits(o, func(t *Term) bool { return internal(o, t) || t.contains(mkLen(ps[0])) })
			if h == 0 {
				continue
			}
			hits++
			if !c.must(h == 1 && o.Panic == nil, c.end(o), "whether a bag holds depends on %v", un) {
				continue
			}
			c.must(w.holds(o.Ret[0]) == b2i(v), c.end(o), "a bag with some predicate holding (%v) is %s", v, o.Ret[0])
		}
		c.must(hits > 0, c.P.posn(f.Pos()), "no path decides a bag with some predicate holding (%v)", v)
	}
}

// bagOf checks that the predicates of a bag are those written between its
// brackets.
func (c *Ctx) bagOf() {
	f := c.P.fun(hdrRel, "NewFeaturePredicateBag")
	if f == nil {
		c.must(false, "", "NewFeaturePredicateBag no longer exists")
		return
	}
	in := rootParams(f)[0]
	outs := c.run(f, c.keeping(f, newPred), nil, nil)
	n := 0
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		if !c.must(o.Panic == nil && len(o.Ret) == 2, at, "NewFeaturePredicateBag does not return") {
			continue
		}
		if _, k := retError(o); k == 1 {
			continue
		}
		n++
		fd := foldOf(unconv(o.Ret[0]))
		if !c.must(fd != nil && fd.Loop.Coll != nil, at, "the predicates of a bag are %s", o.Ret[0]) {
			continue
		}
		coll := fd.Loop.Coll
		ok := collects(unconv(o.Ret[0]), coll, func(l *Loop, el *Term) bool {
			call, is := resOf(el, "0", newPred)
			return is && trimmed(call.Args[0]) == mkIndex(coll, l.Pos, nil)
		})
		c.must(ok, at, "the predicates of a bag are %s", o.Ret[0])
		// the text between the brackets, at spaces.
		sp := isCall(coll, "strings.Fields") || isCall(coll, "strings.Split") && isStr(coll.Args[1], " ")
		if !c.must(sp, at, "the predicates of a bag are read from %s", coll) {
			continue
		}
		texts := [][2]string{{"[a b]", "a b"}, {"[ a !b ]", "a !b"}, {"[a c=[1-5]]", "a c=[1-5]"}, {"[c=[-5] a=b]", "c=[-5] a=b"}, {"[a]", "a"}}
		for _, t := range textsAbout(append(about([]Outcome{*o}), coll), func(n string) string { return "[" + n + " !b]" }) {
			texts = append(texts, [2]string{t, t[1 : len(t)-1]})
		}
		for _, t := range textsAbout(append(about([]Outcome{*o}), coll), func(n string) string { return "[b !" + n + "]" }) {
			texts = append(texts, [2]string{t, t[1 : len(t)-1]})
		}
		for _, tx := range texts {
			v, is := newWorld(c.P).with(in, tx[0]).eval(coll.Args[0]).(string)
			c.must(is && strings.Join(strings.Fields(v), " ") == tx[1], at, "the predicates of the bag %s are read from %s", tx[0], coll.Args[0])
		}
		w := newWorld(c.P)
		w.more = func(t *Term) int {
			if t.Op == "bin" && t.Aux == "==" && t.Args[0].Op == "call" && t.Args[0].Aux == "strings.Count" {
				return 1
			}
			return -1
		}
	}
	c.minimum(n, 1, "ways to make a bag")
}

type predKind struct {
	name, core, wide string
	parts            map[string]string
}

const tagW = `[^\s=!\[\]\x01]+`

var predKinds = []predKind{
	{"exists", `^\w+$`, `^` + tagW + `$`, map[string]string{"T": `^\x01$`}},
	{"absent", `^!\w+$`, `^!` + tagW + `$`, map[string]string{"T": `^!\x01$`}},
	{"equals", `^\w+=\w+$`, `^` + tagW + `\s*=\s*` + tagW + `$`, map[string]string{"T": `^\x01\s*=\s*` + tagW + `$`, "V": `^` + tagW + `\s*=\s*\x01$`}},
	{"notEquals", `^\w+!=\w+$`, `^` + tagW + `\s*!=\s*` + tagW + `$`, map[string]string{"T": `^\x01\s*!=\s*` + tagW + `$`, "V": `^` + tagW + `\s*!=\s*\x01$`}},
	{"within", `^\w+=\[\d*-\d*\]$`, `^` + tagW + `\s*=\s*\[\s*\d*\s*-\s*\d*\s*\]$`, map[string]string{
		"T": `^\x01\s*=\s*\[\s*\d*\s*-\s*\d*\s*\]$`,
		"L": `^` + tagW + `\s*=\s*\[\s*\x01?\s*-\s*\d*\s*\]$`,
		"H": `^` + tagW + `\s*=\s*\[\s*\d*\s*-\s*\x01?\s*\]$`}},
}

// predicates checks the predicate made from each kind of text.
func (c *Ctx) predicates() int {
	f := c.P.fun(hdrRel, "NewFeaturePredicate")
	if f == nil {
		c.must(false, "", "NewFeaturePredicate no longer exists")
		return 0
	}
	in := rootParams(f)[0]
	outs := c.run(f, c.keeping(f), nil, nil)
	found := map[string]bool{}
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		if !c.must(o.Panic == nil && len(o.Ret) == 2, at, "NewFeaturePredicate does not return") {
			continue
		}
		var re *Term
		for _, l := range o.St.order {
			if r, text, m := matches(l); m && unconv(text) == in {
				re = r
			}
		}
		if _, k := retError(o); k == 1 {
			c.must(re == nil, at, "a text that %s matches is refused", re)
			continue
		}
		if !c.must(re != nil && o.Ret[0].Op == "mk", at, "the predicate %s is made of any text (%s)", o.Ret[0], c.facts(o)) {
			continue
		}
		s := c.reOf(re)
		if !c.must(s != nil, at, "the expression %s is not known", re) {
			continue
		}
		var k *predKind
		for j := range predKinds {
			if ok, _ := subsetOf(nfaOf(s, false), nfaOf(parseRe(predKinds[j].wide), false)); ok {
				k = &predKinds[j]
			}
		}
		if !c.must(k != nil, at, "the texts of %s are of no single kind of predicate", re) {
			continue
		}
		if ok, x := subsetOf(nfaOf(parseRe(k.core), false), nfaOf(s, false)); !c.must(ok, at, "%s refuses %s", re, quoted(x)) {
			continue
		}
		found[k.name] = true
		// the parts of the text in what is made.
		parts := map[string]*Term{}
		bad := ""
		made := o.Ret[0]
		if v, ok := o.St.mem[made.Args[0]]; ok {
			made = v
		}
		made.any(func(t *Term) bool {
			r, text, n := groupAt(t)
			if r == nil {
				return false
			}
			if r != re || unconv(text) != in {
				bad = t.String()
				return true
			}
			m := markOf(s, n)
			for name, p := range k.parts {
				if m != nil {
					if ok, _ := subsetOf(m, nfaOf(parseRe(p), false)); ok {
						parts[name] = unconv(t)
						return false
					}
				}
			}
			bad = t.String()
			return true
		})
		if !c.must(bad == "", at, "the part %s of a predicate is not one of its parts in the text", bad) {
			continue
		}
		if !c.must(len(parts) == len(k.parts), at, "the predicate of %s has only the parts %v", k.name, sortedKeys(parts)) {
			continue
		}
		c.predicateHolds(k, o, parts)
	}
	for _, k := range predKinds {
		c.must(found[k.name], c.P.posn(f.Pos()), "no predicate is made for the texts of kind %s", k.name)
	}
	return len(found)
}

// predicateHolds compares a predicate with its meaning.
func (c *Ctx) predicateHolds(k *predKind, o *Outcome, parts map[string]*Term) {
	r := o.Ret[0]
	m := c.P.methodOf(r.Typ, "Evaluate")
	if !c.must(m != nil, c.end(o), "the predicate %s cannot be evaluated", k.name) {
		return
	}
	sup, uns := raw("sym", "supported", nil), raw("sym", "unsupported", nil)
	T := parts["T"]
	cfg := c.keeping(nil, fsContains, fsValues, fsAdd, tagEq, valEq)
	run := func(cfg Cfg) []Outcome {
		e := newEngine(c.P, cfg)
		st := o.St.clone()
		outs, err := e.Run(m, []*Term{r.Args[0], sup, uns}, st)
		c.must(err == nil, c.P.posn(m.Pos()), "%s: %v", k.name, err)
		c.Paths += len(outs)
		return outs
	}
	n0 := len(o.St.order)
	values := func(set *Term) *Term { return mkRes(mkCall(fsValues, nil, set, T), "0", nil) }
	if k.name == "within" {
		c.withinHolds(k, m, run, n0, sup, parts)
		return
	}
	outs := run(cfg)
	same := &some{
		over: func(l *Loop) bool { return l.Coll == values(sup) && l.Pos != nil },
		judge: func(l *Loop, conds []Lit) int {
			st := factState(conds)
			el, v := mkIndex(l.Coll, l.Pos, nil), parts["V"]
			if v == nil {
				return -1
			}
			if h := st.known(mkCall(valEq, nil, v, el)); h >= 0 {
				return h
			}
			return st.known(mkCall(valEq, nil, el, v))
		},
	}
	for _, x := range []struct {
		inS bool
		nS  int
		eq  bool
		inU bool
		nU  int
	}{
		{false, 0, false, false, 0}, {false, 0, false, true, 0}, {false, 0, false, true, 1}, {false, 0, false, true, 2},
		{true, 0, false, false, 0}, {true, 0, false, true, 0}, {true, 0, false, true, 1},
		{true, 1, false, false, 0}, {true, 1, true, false, 0}, {true, 1, false, true, 0}, {true, 1, true, true, 0}, {true, 1, false, true, 1},
		{true, 2, false, false, 0}, {true, 2, true, false, 0}, {true, 2, false, true, 0}, {true, 2, true, true, 2}, {true, 3, true, false, 0},
	} {
		var want bool
		switch k.name {
		case "exists":
			want = x.inS
		case "absent":
			want = x.inU && x.nU == 0 && !x.inS
		case "equals":
			want = x.eq
		case "notEquals":
			want = x.inS && !x.eq
		}
		w := newWorld(c.P)
		for _, s := range []struct {
			set *Term
			in  bool
			n   int
		}{{sup, x.inS, x.nS}, {uns, x.inU, x.nU}} {
			v := mkCall(fsValues, nil, s.set, T)
			w.with(mkCall(fsContains, nil, s.set, T), s.in)
			w.with(mkRes(v, "1", nil), s.in)
			w.with(mkLen(mkRes(v, "0", nil)), float64(s.n))
			w.with(mkBin("==", mkRes(v, "0", nil), tNil, nil), s.n == 0)
			w.with(mkHas(s.set, T), s.in)
		}
		w.more = func(t *Term) int { return same.truth(t, x.eq) }
		hits := 0
		for i := range outs {
			p := after(&outs[i], n0)
			if q := same.ofPath(p); q == -2 || q >= 0 && (q == 1) != x.eq {
				continue
			}
			h, un := w.fits(p, func(t *Term) bool { return internal(p, t) })
			if h == 0 {
				continue
			}
			hits++
			if !c.must(h == 1 && p.Panic == nil, c.end(p), "whether %s holds depends on %v", k.name, un) {
				return
			}
			c.must(w.holds(p.Ret[0]) == b2i(want), c.end(p), "%s: supported %v with %d values, the value among them %v, unsupported %v with %d values: %s, wanted %v", k.name, x.inS, x.nS, x.eq, x.inU, x.nU, p.Ret[0], want)
		}
		c.must(hits > 0, c.P.posn(m.Pos()), "%s is not decided: supported %v with %d values, the value among them %v, unsupported %v with %d values", k.name, x.inS, x.nS, x.eq, x.inU, x.nU)
	}
	c.sample("%s: %d paths over classes of feature sets", k.name, len(outs))
}

// withinHolds compares a range predicate with its meaning for lists of up to
// three values, and checks that it traverses all values.
func (c *Ctx) withinHolds(k *predKind, m *ssa.Function, run func(Cfg) []Outcome, n0 int, sup *Term, parts map[string]*Term) {
	T, L, H := parts["T"], parts["L"], parts["H"]
	base := c.keeping(nil, fsContains, fsValues, fsAdd, tagEq, valEq)
	inS := raw("sym", "is supported", nil)
	paths := 0
	for n := 0; n <= 3; n++ {
		var vs []*Term
		for i := 0; i < n; i++ {
			vs = append(vs, raw("sym", fmt.Sprintf("value%d", i), nil))
		}
		cfg := base
		cfg.Model = func(key string, args []*Term) []*Term {
			if len(args) == 2 && args[0] == sup && args[1] == T {
				switch key {
				case fsValues:
					return []*Term{raw("list", "", nil, vs...), inS}
				case fsContains:
					return []*Term{inS}
				}
			}
			return nil
		}
		outs := run(cfg)
		paths += len(outs)
		texts := []string{"x", "2", "5", "7"}
		bounds := []string{"", "0", "2", "5", "6", "8"}
		near := numbersAbout(about(outs))
		if n == 1 {
			texts = append(texts, "0", "300", "40000", "1099511627776")
			texts = append(texts, near...)
			bounds = append(bounds, near...)
		}
		total := 1
		for i := 0; i < n; i++ {
			total *= len(texts)
		}
		for x := 0; x < total; x++ {
			for _, lo := range bounds {
				for _, hi := range bounds {
					for _, in := range []bool{true, false} {
						if !in && n > 0 {
							continue
						}
						w := newWorld(c.P).with(L, lo).with(H, hi).with(inS, in)
						label := ""
						best, numeric := 0, false
						for i, y := 0, x; i < n; i, y = i+1, y/len(texts) {
							tx := texts[y%len(texts)]
							w.with(vs[i], tx)
							label += " " + tx
							var v int
							if _, err := fmt.Sscan(tx, &v); err == nil {
								if !numeric || v > best {
									best = v
								}
								numeric = true
							}
						}
						l, h := 0, 1<<62
						fmt.Sscan(lo, &l)
						fmt.Sscan(hi, &h)
						want := in && numeric && best >= l && best <= h
						hits := 0
						for i := range outs {
							p := after(&outs[i], n0)
							f, un := w.fits(p, nil)
							if f == 0 {
								continue
							}
							hits++
							if !c.must(f == 1 && p.Panic == nil, c.end(p), "whether a range holds depends on %v", un) {
								return
							}
							if !c.must(w.holds(p.Ret[0]) == b2i(want), c.end(p), "the range [%s-%s] over the values%s, tag supported %v: %s, wanted %v", lo, hi, label, in, p.Ret[0], want) {
								return
							}
						}
						if !c.must(hits > 0, c.P.posn(m.Pos()), "a range is not decided: [%s-%s] over the values%s", lo, hi, label) {
							return
						}
					}
				}
			}
		}
	}
	// all of the values.
	coll := mkRes(mkCall(fsValues, nil, sup, T), "0", nil)
	base.NoUnroll = true
	all := false
	for _, o := range run(base) {
		for _, ev := range o.St.trace {
			if ev.Kind != "loop" || ev.Loop.Coll != coll || ev.Loop.Pos == nil {
				continue
			}
			all = true
			l := ev.Loop
			inside := mkBin("<", l.Pos, mkLen(coll), nil)
			for _, x := range l.Exits {
				for _, lt := range x.Conds {
					counts := lt.Atom != inside && subst(lt.Atom, map[*Term]*Term{mkIndex(coll, l.Pos, nil): raw("sym", "value", nil)}, map[*Term]*Term{}).contains(l.Pos)
					c.must(!counts, c.P.posOf(ev.Site), "the values of a range predicate are not all considered: %s", lt)
				}
			}
		}
	}
	c.must(all, c.P.posn(m.Pos()), "the values of a range predicate are not all traversed")
	c.sample("within: %d paths over up to three values", paths)
}

// setOperations checks Contains, Values and Add of feature sets.
func (c *Ctx) setOperations() {
	eqJudge := func(s, tag *Term) *some {
		return &some{
			over: func(l *Loop) bool { return l.MapT == s && l.KeyT != nil },
			judge: func(l *Loop, conds []Lit) int {
				st := factState(conds)
				if h := st.known(mkCall(tagEq, nil, l.KeyT, tag)); h >= 0 {
					return h
				}
				return st.known(mkCall(tagEq, nil, tag, l.KeyT))
			},
		}
	}
	for _, name := range []string{"Contains", "Values"} {
		f := c.P.method(hdrRel, "FeatureSet", name)
		if f == nil {
			c.must(name == "Contains", "", "FeatureSet.%s no longer exists", name)
			continue
		}
		ps := rootParams(f)
		outs := c.run(f, c.keeping(f, tagEq, fsContains), nil, nil)
		s := eqJudge(ps[0], ps[1])
		for _, v := range []bool{false, true} {
			w := newWorld(c.P).with(mkCall(fsContains, nil, ps[0], ps[1]), v)
			w.more = func(t *Term) int { return s.truth(t, v) }
			hits := 0
			for i := range outs {
				o := &outs[i]
				if p := s.ofPath(o); p == -2 || p >= 0 && (p == 1) != v {
					continue
				}
				h, un := w.fits(o, func(t *Term) bool { return internal(o, t) })
				if h == 0 {
					continue
				}
				hits++
				at := c.end(o)
				if !c.must(h == 1 && o.Panic == nil, at, "FeatureSet.%s depends on %v", name, un) {
					continue
				}
				c.must(w.holds(o.Ret[len(o.Ret)-1]) == b2i(v), at, "FeatureSet.%s: where the tag is in the set (%v) it says %s", name, v, o.Ret[len(o.Ret)-1])
				if name == "Values" {
					c.must(c.gathers(s, o, o.Ret[0], v), at, "FeatureSet.Values: where the tag is in the set (%v) the values are %s", v, o.Ret[0])
				}
			}
			c.must(hits > 0, c.P.posn(f.Pos()), "FeatureSet.%s is not decided for a tag in the set (%v)", name, v)
		}
	}
	f := c.P.method(hdrRel, "FeatureSet", "Add")
	if f == nil {
		c.must(false, "", "FeatureSet.Add no longer exists")
		return
	}
	ps := rootParams(f)
	outs := c.run(f, c.keeping(f, tagEq, fsContains), nil, nil)
	s := eqJudge(ps[0], ps[1])
	seen := map[int]bool{}
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		if !c.must(o.Panic == nil, at, "FeatureSet.Add may panic") {
			continue
		}
		in := o.St.known(mkCall(fsContains, nil, ps[0], ps[1]))
		if p := s.ofPath(o); in < 0 {
			in = p
		} else if p == -2 || p >= 0 && p != in {
			continue
		}
		if !c.must(in >= 0, at, "FeatureSet.Add does not depend on the tag being in the set") {
			continue
		}
		seen[in] = true
		var own []*Event
		for _, ev := range o.St.trace {
			if ev.Kind == "mapset" {
				own = append(own, ev)
			}
		}
		if in == 0 {
			ok := len(own) == 1 && own[0].Args[0] == ps[0] && unconv(own[0].Args[1]) == ps[1] && base1(own[0].Args[2]) == ps[2]
			c.must(ok, at, "FeatureSet.Add does not add a new tag with its values")
			continue
		}
		// the values are added to those of the equal tag.
		adds := func(ev *Event, l *Loop) bool {
			if ev.Args[0] != ps[0] || ev.Args[1] != l.KeyT {
				return false
			}
			v := ev.Args[2]
			if v.Op != "append" || v.Args[1] != ps[2] {
				return false
			}
			old := base1(v.Args[0])
			return (old.Op == "lookup" || old.Op == "index") && old.Args[1] == l.KeyT || old.Op == "sym"
		}
		done := false
		for _, ev := range o.St.trace {
			if ev.Kind != "loop" || !s.over(ev.Loop) {
				continue
			}
			writes := false
			for _, it := range ev.Loop.Iters {
				var ms []*Event
				for _, x := range it.Events {
					if x.Kind == "mapset" {
						ms = append(ms, x)
					}
				}
				j := s.judge(ev.Loop, it.Conds)
				switch {
				case len(ms) == 0 && j == 0:
				case len(ms) == 1 && j == 1 && adds(ms[0], ev.Loop):
					writes = true
				case len(ms) == 0 && j == 1:
					c.must(ev.ExitKind != "normal" || !writes, at, "FeatureSet.Add leaves out an equal tag")
				case len(ms) == 0:
				default:
					c.must(false, at, "FeatureSet.Add changes %v where the tag is equal: %s", ms[0].Args, tri(j))
				}
			}
			if ev.ExitKind == "normal" && writes {
				done = true
			}
			if ev.ExitKind != "normal" && len(own) == 1 && adds(own[0], ev.Loop) && s.judge(ev.Loop, o.St.order) == 1 {
				done = true
			}
		}
		c.must(done, at, "FeatureSet.Add does not add the values to those of a tag of the set")
	}
	c.must(seen[0] && seen[1], c.P.posn(f.Pos()), "FeatureSet.Add is not decided")
}

// gathers reports whether t is the values of all tags that are equal.
func (c *Ctx) gathers(s *some, o *Outcome, t *Term, in bool) bool {
	t = unconv(t)
	isVal := func(x *Term, l *Loop) bool {
		x = base1(x)
		return x.Op == "lookup" && x.Args[1] == l.KeyT
	}
	f := foldOf(t)
	if f != nil && s.over(f.Loop) {
		if !(f.Init.isNil() || mkLen(f.Init) == tInt(0)) {
			return false
		}
		for i, nx := range f.Next {
			j := s.judge(f.Loop, f.Loop.Iters[i].Conds)
			switch {
			case nx == f.Sym && j == 0:
			case nx.Op == "append" && nx.Args[0] == f.Sym && isVal(nx.Args[1], f.Loop) && j == 1:
			default:
				return false
			}
		}
		return true
	}
	if !in {
		return t.isNil() || mkLen(t) == tInt(0)
	}
	for _, ev := range o.St.trace {
		if ev.Kind == "loop" && s.over(ev.Loop) && ev.ExitKind != "normal" {
			if t.Op == "append" && foldOf(t.Args[0]) == nil && t.Args[0].Op == "sym" {
				t = t.Args[1]
			}
			return isVal(t, ev.Loop)
		}
	}
	return false
}

func (c *Ctx) tagEquality() {
	for _, k := range []struct {
		typ  string
		fold bool
	}{{"FeatureTag", true}, {"FeatureTagValue", false}} {
		f := c.P.method(hdrRel, k.typ, "Equals")
		if f == nil {
			continue
		}
		ps := rootParams(f)
		outs := c.run(f, Cfg{}, nil, nil)
		texts := []string{"a", "A", "b", "ab", `"a"`, `"A"`, `"b"`, "a1", ""}
		for _, n := range namesAbout(about(outs)) {
			texts = append(texts, n, strings.ToUpper(n))
		}
		for _, x := range texts {
			for _, y := range texts {
				a, b := strings.Trim(x, `"`), strings.Trim(y, `"`)
				want := a == b || k.fold && strings.EqualFold(a, b)
				w := newWorld(c.P).with(ps[0], x).with(ps[1], y)
				c.decided(f, outs, w, nil, nil, fmt.Sprintf("%s and %s", x, y), b2i(want), false)
			}
		}
	}
}

// requestSets checks what the expressions of Accept-Features add to the sets.
func (c *Ctx) requestSets() {
	f := c.P.method(hdrRel, "AcceptFeatures", "AsFeatureSets")
	if f == nil {
		c.must(false, "", "AcceptFeatures.AsFeatureSets no longer exists")
		return
	}
	recv := rootParams(f)[0]
	outs := c.run(f, Cfg{NoUnroll: true, Opaque: c.keeping(f, fsAdd, fsContains, fsValues).Opaque}, nil, nil)
	type add struct{ set, tag, val string }
	cases := map[string][]add{
		"paper":      {{"supported", "paper", ""}},
		"x":          {{"supported", "x", ""}},
		"!paper":     {{"unsupported", "paper", ""}},
		"paper=A4":   {{"supported", "paper", "A4"}},
		"res=100":    {{"supported", "res", "100"}},
		"paper!=A4":  {{"supported", "paper", ""}, {"unsupported", "paper", "A4"}},
		"paper={A4}": {{"supported", "paper", "A4"}},
		"*":          {},
	}
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		if !c.must(o.Panic == nil && len(o.Ret) == 2, at, "AsFeatureSets does not return") {
			continue
		}
		if isKnownEmpty(o.St, recv) {
			continue
		}
		sets := map[*Term]string{}
		for j, n := range []string{"supported", "unsupported"} {
			r := unconv(o.Ret[j])
			if fd := foldOf(r); fd != nil {
				r = fd.Init
			}
			sets[r] = n
			c.must(r.Op == "mkmap", at, "the %s features start as %s", n, r)
		}
		c.must(len(sets) == 2, at, "the supported and unsupported features are one set")
		done := false
		for _, ev := range o.St.trace {
			if ev.Kind != "loop" || ev.Loop.Coll != recv || ev.Loop.Pos == nil {
				continue
			}
			l := ev.Loop
			done = true
			for _, x := range l.Exits {
				c.must(x.Kind == "normal", at, "expressions are left out where %v", x.Conds)
			}
			el := mkIndex(recv, l.Pos, nil)
			// names that what the code mentions may tell from others.
			var ts []*Term
			for _, it := range l.Iters {
				for _, lt := range it.Conds {
					ts = append(ts, lt.Atom)
				}
				for _, x := range it.Events {
					ts = append(ts, x.Args...)
				}
			}
			for _, n := range namesAbout(ts) {
				cases[n] = []add{{"supported", n, ""}}
				cases["!"+n] = []add{{"unsupported", n, ""}}
				cases[n+"=A4"] = []add{{"supported", n, "A4"}}
				cases[n+"={A4}"] = cases[n+"=A4"]
				cases["paper="+n] = []add{{"supported", "paper", n}}
				cases["paper={"+n+"}"] = cases["paper="+n]
				cases["paper!="+n] = []add{{"supported", "paper", ""}, {"unsupported", "paper", n}}
			}
			for _, text := range sortedKeys(cases) {
				w := newWorld(c.P).with(el, text)
				hits := 0
				for _, it := range l.Iters {
					h, un := w.fits(&Outcome{St: factState(it.Conds)}, func(t *Term) bool { return t == mkBin("<", l.Pos, mkLen(recv), nil) })
					if h == 0 {
						continue
					}
					hits++
					if !c.must(h == 1, c.P.posOf(ev.Site), "what %s adds depends on %v", text, un) {
						continue
					}
					var got []add
					for _, x := range it.Events {
						if x.Kind == "mapset" {
							c.must(false, c.P.posOf(ev.Site), "a set is changed without Add")
						}
						if x.Kind != "call" || x.Key != fsAdd {
							continue
						}
						a := add{set: sets[unconv(x.Args[0])]}
						tag, ok := w.eval(x.Args[1]).(string)
						a.tag = tag
						switch v := w.eval(x.Args[2]).(type) {
						case []any:
							if len(v) == 1 {
								a.val, ok = v[0].(string), true
							} else if len(v) > 1 {
								ok = false
							}
						default:
							ok = ok && (x.Args[2].isNil() || mkLen(x.Args[2]) == tInt(0))
						}
						c.must(ok, c.P.posOf(ev.Site), "the expression %s adds %v", text, show(x.Args))
						got = append(got, a)
					}
					want := cases[text]
					same := len(got) == len(want)
					for _, g := range want {
						n := 0
						for _, x := range got {
							if x == g {
								n++
							}
						}
						same = same && n == 1
					}
					c.must(same, c.P.posOf(ev.Site), "the expression %s adds %v, wanted %v", text, got, want)
				}
				c.must(hits == 1, c.P.posOf(ev.Site), "what the expression %s adds is decided by %d ways of an iteration", text, hits)
			}
		}
		c.must(done, at, "the expressions of Accept-Features are not traversed")
	}
	c.must(len(outs) > 0, c.P.posn(f.Pos()), "AsFeatureSets is not determined")
}
