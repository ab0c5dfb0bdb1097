package main

import (
	"strings"
)

func init() {
	rules["C06"] = ruleC06
	rules["C07"] = ruleC07
	rules["C08"] = ruleC08
	rules["C09"] = ruleC09
}

// gate is one strict mode header of proactive negotiation.
type gate struct {
	opt, typ, acc, hdr string
}

var gates = []gate{
	{"StrictAccept", "Accept", "ContentType", "Accept"},
	{"StrictAcceptLanguage", "AcceptLanguage", "ContentLanguage", "Accept-Language"},
	{"StrictAcceptCharset", "AcceptCharset", "ContentCharset", "Accept-Charset"},
}

// compat recognizes the compatibility of an element of the representations
// with the gate's header and provides that element.
func (n *Neg) compat(g gate, t *Term) *Term {
	call, ok := resOf(t, "0", "(~/internal/header."+g.typ+").Compatible")
	if !ok || len(call.Args) != 2 {
		return nil
	}
	a := call.Args[1]
	if !isCall(a, "I:"+g.acc) || len(a.Args) != 1 {
		return nil
	}
	el := a.Args[0]
	if el.Op == "index" && el.Args[0] == n.Reps {
		return el
	}
	return nil
}

// iterCompat is what the facts of an iteration say about the compatibility of
// the iteration's own element.
func (n *Neg) iterCompat(g gate, l *Loop, conds []Lit) (int, *Term) {
	k, atom := -1, (*Term)(nil)
	for _, c := range conds {
		if el := n.compat(g, c.Atom); el != nil && l.Pos != nil && el.Args[1] == l.Pos {
			atom = c.Atom
			if c.Pol {
				k = 1
			} else {
				k = 0
			}
		}
	}
	return k, atom
}

// compatAtom finds the compatibility term of the element of the loop.
func (n *Neg) compatAtom(g gate, l *Loop) *Term {
	var found *Term
	look := func(t *Term) {
		t.any(func(x *Term) bool {
			if el := n.compat(g, x); el != nil && l.Pos != nil && el.Args[1] == l.Pos {
				found = x
			}
			return false
		})
	}
	for _, it := range l.Iters {
		for _, c := range it.Conds {
			look(c.Atom)
		}
	}
	for _, f := range l.Folds {
		for _, t := range f.Next {
			if t != nil {
				look(t)
			}
		}
	}
	return found
}

// foldMeaning classifies what a fold over the representations says about
// their compatibility: "incompatible" and "compatible" counts, "any"
// compatible, "all" incompatible.
func (n *Neg) foldMeaning(g gate, f *Fold) string {
	l := f.Loop
	if l.Coll != n.Reps || l.Pos == nil || len(f.Next) != len(l.Iters) {
		return ""
	}
	atom := n.compatAtom(g, l)
	if atom == nil {
		return ""
	}
	fits := map[string]bool{"incompatible": true, "compatible": true, "any": true, "all": true}
	init := f.Init
	zero := mkLen(init).Op == "const" && (init.isNil() || init.Op == "list")
	if v, ok := init.intv(); ok && v == 0 {
		zero = true
	}
	if !zero {
		fits["incompatible"], fits["compatible"] = false, false
	}
	if !init.isFalse() {
		fits["any"] = false
	}
	if !init.isTrue() {
		fits["all"] = false
	}
	covered := map[bool]bool{}
	for i, it := range l.Iters {
		for _, cv := range []bool{false, true} {
			st := factState(it.Conds)
			if !st.assume(atom, cv) {
				continue
			}
			covered[cv] = true
			nx := f.Next[i]
			d := step(f, nx)
			if d != 0 && d != 1 {
				fits["incompatible"], fits["compatible"] = false, false
			}
			if cv && d != 0 || !cv && d != 1 {
				fits["incompatible"] = false
			}
			if cv && d != 1 || !cv && d != 0 {
				fits["compatible"] = false
			}
			for _, sv := range []bool{false, true} {
				s2 := st.clone()
				if !s2.assume(f.Sym, sv) {
					continue
				}
				v := s2.known(nx)
				if v != b2i(sv || cv) {
					fits["any"] = false
				}
				if v != b2i(sv && !cv) {
					fits["all"] = false
				}
			}
		}
	}
	if !covered[true] || !covered[false] {
		return ""
	}
	for _, k := range []string{"incompatible", "compatible", "any", "all"} {
		if fits[k] {
			return k
		}
	}
	return ""
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// step is by how much an iteration makes a count or the length of a list
// grow.
func step(f *Fold, nx *Term) int {
	if nx == f.Sym {
		return 0
	}
	if nx.Op == "bin" && nx.Aux == "+" && nx.Args[0] == f.Sym {
		if v, ok := nx.Args[1].intv(); ok && v >= 0 && v < 9 {
			return int(v)
		}
	}
	if nx.Op == "append" && nx.Args[0] == f.Sym && nx.Args[1].Op == "list" {
		return len(nx.Args[1].Args)
	}
	return -1
}

// allIncompatible decides from the facts of the path whether none of the
// representations is compatible with the gate's header: 1, 0 or -1.
func (n *Neg) allIncompatible(g gate, o *Outcome) int {
	st := o.St
	h := mkField(raw("deref", "", nil, n.Req), "Header", nil)
	for _, l := range st.order {
		// an absent header is compatible with everything.
		if l.Atom.Op == "has" && !l.Pol && l.Atom.Args[0] == h && isStr(l.Atom.Args[1], g.hdr) {
			if n.usesDefault(g, o) {
				continue
			}
			return 0
		}
		// a known compatible element.
		if el := n.compat(g, l.Atom); el != nil && l.Pol {
			return 0
		}
	}
	for _, l := range st.order {
		res := -1
		l.Atom.any(func(x *Term) bool {
			f := foldOf(x)
			if f == nil {
				return false
			}
			ln := x
			if f.Init.isNil() || f.Init.Op == "list" {
				ln = mkLen(x)
			}
			switch n.foldMeaning(g, f) {
			case "incompatible":
				res = st.known(mkBin("==", ln, n.lenReps(), nil))
				if st.known(mkBin("<", ln, n.lenReps(), nil)) == 1 {
					res = 0
				}
			case "compatible":
				res = st.known(mkBin("==", ln, tInt(0), nil))
				if v := st.known(mkBin("<", tInt(0), ln, nil)); res < 0 && v >= 0 {
					res = 1 - v
				}
			case "any":
				if v := st.known(x); v >= 0 {
					res = 1 - v
				}
			case "all":
				res = st.known(x)
			}
			return res >= 0
		})
		if res >= 0 {
			return res
		}
	}
	// a search that found no compatible element.
	for _, ev := range st.trace {
		if ev.Kind != "loop" || ev.ExitKind != "normal" || ev.Loop.Coll != n.Reps || len(ev.Loop.Iters) == 0 {
			continue
		}
		all := true
		for _, it := range ev.Loop.Iters {
			if k, _ := n.iterCompat(g, ev.Loop, it.Conds); k != 0 {
				all = false
			}
		}
		if all {
			return 1
		}
	}
	return -1
}

// usesDefault reports whether compatibility was asked of the default value of
// the header.
func (n *Neg) usesDefault(g gate, o *Outcome) bool {
	for _, l := range o.St.order {
		if l.Atom.any(func(x *Term) bool { return foldOf(x) != nil && n.foldMeaning(g, foldOf(x)) != "" }) {
			return true
		}
		if n.compat(g, l.Atom) != nil {
			return true
		}
	}
	return false
}

func isStr(t *Term, s string) bool {
	v, ok := t.str()
	return ok && v == s
}

func chooseAll(n *Neg, o *Outcome) *Event {
	for _, ev := range o.St.trace {
		if ev.Kind == "call" && ev.Key == "I:Choose" && len(ev.Args) == 3 && ev.Args[2] == n.Reps {
			return ev
		}
	}
	return nil
}

func ruleC06(c *Ctx) {
	c.Rule = "on every path of proactive negotiation, for each of the three gates: the facts that reach the algorithm include that the gate is off or that not all representations are incompatible (count, flag and early-exit loops over all representations are recognized by their transition), and a 406 without the algorithm having been asked only happens where some gate is on and all are incompatible; the algorithm is given the request and all representations."
	c.Trusted = trustedStd
	n := c.negotiator("proactive")
	if n == nil {
		return
	}
	chosen, refused := 0, map[string]int{}
	for i := range n.Outs {
		o := &n.Outs[i]
		at := c.end(o)
		S, A := map[string]int{}, map[string]int{}
		ch := chooseAll(n, o)
		r := n.response(c, o)
		is406 := false
		if len(r.Status) == 1 {
			v, ok := r.Status[0].intv()
			is406 = ok && v == 406
		}
		gated := ch == nil && (is406 || anyChoose(o))
		if ch == nil && !gated {
			continue
		}
		for _, g := range gates {
			S[g.opt] = o.St.known(n.setting(c, g.opt))
			A[g.opt] = n.allIncompatible(g, o)
		}
		if ch != nil {
			chosen++
			for _, g := range gates {
				c.must(S[g.opt] == 0 || A[g.opt] == 0, c.P.posOf(ch.Site), "the algorithm is asked on a path where %s may be on (%s) and no representation compatible (all incompatible: %s) with %s", g.opt, tri(S[g.opt]), tri(A[g.opt]), g.hdr)
			}
			c.must(ch.Args[0] == n.setting(c, "Chooser") && ch.Args[1] == n.Req, c.P.posOf(ch.Site), "the algorithm asked is %v with the request %v", ch.Args[0], ch.Args[1])
			continue
		}
		ok := false
		for _, g := range gates {
			if S[g.opt] == 1 && A[g.opt] == 1 {
				ok = true
				refused[g.opt]++
			}
		}
		c.must(ok, at, "not acceptable without the algorithm although no strict header is known to rule out all representations (strict %v, all incompatible %v)", S, A)
	}
	for _, g := range gates {
		c.must(refused[g.opt] > 0, "", "no path on which %s refuses all representations", g.opt)
	}
	c.sample("%d paths reach the algorithm, refusals: %v", chosen, refused)
	c.minimum(chosen, 4, "paths that reach the algorithm")
}

func anyChoose(o *Outcome) bool {
	for _, ev := range o.St.trace {
		if ev.Kind == "call" && ev.Key == "I:Choose" {
			return true
		}
	}
	return false
}

// collects reports whether t is the list of what mk gives for every element of
// coll, in order: mk is asked about one element added by an iteration.
func collects(t, coll *Term, mk func(l *Loop, elem *Term) bool) bool {
	return collectsFrom(t, coll, false, mk)
}

func collectsFrom(t, coll *Term, allowInit bool, mk func(l *Loop, elem *Term) bool) bool {
	f := foldOf(t)
	if f == nil {
		return false
	}
	l := f.Loop
	if l.Coll != coll || l.Rev || l.Pos == nil || len(l.Iters) == 0 {
		return false
	}
	if f.Init.Op == "mkslice" && f.Init.Args[0] == mkLen(coll) {
		// filled in place.
		for _, nx := range f.Next {
			if nx.Op != "upd" || nx.Args[0] != f.Sym || nx.Args[1] != l.Pos || !mk(l, nx.Args[2]) {
				return false
			}
		}
		return true
	}
	if !allowInit && !(f.Init.isNil() || f.Init.Op == "list" && len(f.Init.Args) == 0) {
		return false
	}
	for _, nx := range f.Next {
		if nx.Op != "append" || nx.Args[0] != f.Sym || nx.Args[1].Op != "list" || len(nx.Args[1].Args) != 1 || !mk(l, nx.Args[1].Args[0]) {
			return false
		}
	}
	return true
}

func ruleC07(c *Ctx) {
	c.Rule = "on every proactive path that ends in 406 with the representation enabled, the algorithm configured is given the request and the list collected over all configured constructors applied to all representations, and the body is its choice where that is known not to be nil and the default constructor's list of all representations otherwise; with the representation disabled nothing but the status is sent."
	c.Trusted = trustedStd
	n := c.negotiator("proactive")
	if n == nil {
		return
	}
	on := n.setting(c, "NotAcceptableRepresentation")
	ctors := n.setting(c, "RepresentationConstructors")
	def := n.setting(c, "DefaultRepresentationConstructor")
	chooser := n.setting(c, "Chooser")
	cnt := map[string]int{}
	for i := range n.Outs {
		o := &n.Outs[i]
		at := c.end(o)
		r := n.response(c, o)
		if len(r.Status) != 1 {
			continue
		}
		if v, ok := r.Status[0].intv(); !ok || v != 406 {
			continue
		}
		if len(r.Bodies) == 0 {
			cnt["off"]++
			c.must(o.St.known(on) == 0, at, "406 without a body although the representation may be enabled")
			c.must(len(r.Touched) == 0, at, "406 without a body sets headers %v", r.Touched)
			continue
		}
		c.must(o.St.known(on) == 1, at, "406 with a body although the representation may be disabled")
		var ask *Event
		for _, ev := range o.St.trace {
			if ev.Kind == "call" && ev.Key == "I:Choose" && len(ev.Args) == 3 && ev.Args[2] != n.Reps {
				ask = ev
			}
		}
		if !c.must(ask != nil, at, "the algorithm is not asked to choose among the lists") {
			continue
		}
		s := c.P.posOf(ask.Site)
		c.must(ask.Args[0] == chooser && ask.Args[1] == n.Req, s, "the lists are chosen among by %v for the request %v", ask.Args[0], ask.Args[1])
		ok := collects(ask.Args[2], ctors, func(l *Loop, el *Term) bool {
			return strings.HasPrefix(el.Aux, "D:") && el.Op == "call" && len(el.Args) == 2 &&
				el.Args[0] == mkIndex(ctors, l.Pos, nil) && el.Args[1] == n.Reps
		})
		c.must(ok, s, "the lists offered are not those of every configured constructor for all representations: %v", ask.Args[2])
		chosen := mkRes(ask.Res, "0", nil)
		src := r.source()
		switch o.St.known(errNil(chosen)) {
		case 0:
			cnt["chosen"]++
			c.must(src == chosen, at, "the body is %v although the algorithm chose a list", src)
		case 1:
			cnt["default"]++
			k, call := n.kind(src)
			c.must(k == "list" && call.Args[0] == def && call.Args[1] == n.Reps, at, "the body is %v rather than the default list of all representations", src)
		default:
			c.must(false, at, "whether a list was chosen is not tested")
		}
	}
	for _, k := range []string{"off", "chosen", "default"} {
		c.must(cnt[k] > 0, "", "no path found for a 406 with: %s", k)
	}
	c.sample("406 paths: %v", cnt)
}

func ruleC08(c *Ctx) {
	c.Rule = "in transparent negotiation every path returns ErrVariantListSizeExceeded exactly if it knows the number of representations to be greater than the configured maximum, that fact is established before any parsing, choice, constructor or response call, and the option clamps the maximum to at least 1 (as does the default)."
	c.Trusted = trustedStd
	n := c.negotiator("transparent")
	if n == nil {
		return
	}
	max := n.setting(c, "MaximumVariantListSize")
	exceeded := 0
	for i := range n.Outs {
		o := &n.Outs[i]
		at := c.end(o)
		over := o.St.known(mkBin("<", max, n.lenReps(), nil))
		ret, _ := retError(o)
		isErr := ret.any(func(t *Term) bool { return t.Op == "gval" && strings.HasSuffix(t.Aux, ".ErrVariantListSizeExceeded") })
		if n.emptyKnown(o) == 1 && over < 0 {
			// nothing exceeds a maximum of at least one.
			c.must(!isErr, at, "a negotiation of nothing exceeds the maximum")
			continue
		}
		if isErr {
			exceeded++
			c.must(over == 1, at, "the variant list is refused although it may not be larger than the maximum (%s)", c.facts(o))
			r := n.response(c, o)
			c.must(len(r.Order) == 0, at, "the response is touched before the size of the variant list is checked")
			for _, ev := range o.St.trace {
				if ev.Kind == "call" {
					bad := strings.HasPrefix(ev.Key, "~/internal/header") || strings.HasPrefix(ev.Key, "D:") || ev.Key == "I:Choose" || ev.Key == "I:Bytes"
					c.must(!bad, c.P.posOf(ev.Site), "%s is called before the size of the variant list is refused", ev.Key)
				}
			}
			continue
		}
		c.must(over == 0, at, "the path does not establish that the number of representations is at most the maximum")
	}
	c.minimum(exceeded, 1, "paths that refuse the variant list")
	// the configured maximum.
	opt := c.optionEffects("transparent")
	found := 0
	for name, effs := range opt {
		for _, e := range effs {
			for f, v := range e.Sets {
				if f != "MaximumVariantListSize" {
					continue
				}
				found++
				lo := int64(-inf)
				if k, ok := v.intv(); ok {
					lo = k
				} else {
					lo, _, _, _ = e.Out.St.bounds(v)
				}
				c.must(lo >= 1, c.end(e.Out), "option %s may configure a maximum below 1: %v", name, v)
			}
		}
	}
	c.minimum(found, 1, "options that set the maximum")
	d := c.defaults("transparent")
	if v := d["MaximumVariantListSize"]; c.must(v != nil, "", "no default for the maximum") {
		k, ok := v.intv()
		c.must(ok && k >= 1, "", "the default maximum is %v", v)
	}
}

// directive recognizes the question whether the Negotiate header contains one
// of some directives.
func directive(t *Term) ([]string, *Term) {
	if isCall(t, "(~/internal/header.Negotiate).Contains") && len(t.Args) == 2 && t.Args[1].Op == "list" {
		var ds []string
		for _, a := range t.Args[1].Args {
			s, ok := a.str()
			if !ok {
				return nil, nil
			}
			ds = append(ds, strings.ToLower(s))
		}
		return ds, t.Args[0]
	}
	if isCall(t, "(~/internal/header.Negotiate).ContainsRVSA") && len(t.Args) == 2 {
		if s, ok := t.Args[1].str(); ok {
			return []string{"rvsa " + s}, t.Args[0]
		}
	}
	return nil, nil
}

func ruleC09(c *Ctx) {
	c.Rule = "truth table: over all transparent paths that respond or ask the algorithm, the algorithm is asked iff the path knows Contains(*), ContainsRVSA(1.0) or Contains(guess-small) of the request's Negotiate header to be true, and not asked iff all three are known false; a nil choice is answered by the list."
	c.Trusted = trustedStd
	n := c.negotiator("transparent")
	if n == nil {
		return
	}
	asked, notAsked := 0, 0
	lines := mkLookup(mkField(raw("deref", "", nil, n.Req), "Header", nil), tStr("Negotiate"), nil)
	for i := range n.Outs {
		o := &n.Outs[i]
		at := c.end(o)
		r := n.response(c, o)
		ch := chooseAll(n, o)
		if ch == nil && (len(r.Status) == 0 || n.emptyKnown(o) == 1) {
			continue
		}
		yes := false
		know := map[string]int{"*": -1, "rvsa 1.0": -1, "guess-small": -1}
		for _, l := range o.St.order {
			ds, h := directive(l.Atom)
			if ds == nil {
				continue
			}
			call, ok := resOf(h, "0", "~/internal/header.NewNegotiate")
			c.must(ok && call.Args[0] == lines, at, "the directives %s are looked for in %v", ds, h)
			allowed := true
			for _, d := range ds {
				if _, ok := know[d]; !ok {
					allowed = false
				} else if !l.Pol || len(ds) == 1 {
					know[d] = b2i(l.Pol)
				}
			}
			yes = yes || l.Pol && allowed
		}
		no := true
		for _, d := range []string{"*", "rvsa 1.0", "guess-small"} {
			if know[d] == 1 {
				yes = true
			}
			if know[d] != 0 {
				no = false
			}
		}
		// an absent header has no directives.
		if o.St.known(mkBin("==", mkLen(lines), tInt(0), nil)) == 1 {
			no = true
		}
		if ch != nil {
			asked++
			c.must(yes, c.P.posOf(ch.Site), "the algorithm is asked although the user agent has not allowed it (%v)", know)
			c.must(ch.Args[0] == n.setting(c, "Chooser") && ch.Args[1] == n.Req, c.P.posOf(ch.Site), "the algorithm asked is %v with the request %v", ch.Args[0], ch.Args[1])
			if len(r.Bodies) > 0 && o.St.known(errNil(mkRes(ch.Res, "0", nil))) == 1 {
				k, _ := n.kind(r.source())
				c.must(k == "list", at, "a response with %v although nothing was chosen", r.source())
			}
			continue
		}
		notAsked++
		c.must(no, at, "the algorithm is not asked although the user agent may have allowed it (%v)", know)
		k, _ := n.kind(r.source())
		c.must(k == "list", at, "a response with %v although the algorithm was not asked", r.source())
	}
	c.minimum(asked, 5, "paths that ask the algorithm")
	c.minimum(notAsked, 1, "paths that answer with a list at once")
	c.sample("%d paths ask the algorithm, %d don't", asked, notAsked)
}
