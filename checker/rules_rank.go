package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C13"] = ruleC13
}

// selection describes what a filter keeps: the elements of coll whose key is
// the greatest (or least), or those for which a condition holds.
type selection struct {
	key  *Term // key of the element X
	desc bool
}

// kept analyses a list made by a traversal: per iteration whether the own
// element (through proj) is kept, with the facts.
type keptIter struct {
	keeps bool
	st    *State
}

// keptBy recognizes t as the list of proj(own) for some elements of coll, in
// the order of coll (or of coll sorted).
func keptBy(t, coll *Term, proj func(own, x *Term) bool) (*Fold, *Term, []keptIter) {
	f := foldOf(t)
	if f == nil || f.Loop.Rev || f.Loop.Pos == nil {
		return nil, nil, nil
	}
	if !(f.Init.isNil() || mkLen(f.Init) == tInt(0)) {
		return nil, nil, nil
	}
	l := f.Loop
	if base(l.Coll) != base(coll) {
		return nil, nil, nil
	}
	var own *Term
	var ks []keptIter
	for i, nx := range f.Next {
		k := keptIter{st: factState(l.Iters[i].Conds)}
		if nx != f.Sym {
			if nx.Op != "append" || nx.Args[0] != f.Sym || nx.Args[1].Op != "list" || len(nx.Args[1].Args) != 1 {
				return nil, nil, nil
			}
			x := nx.Args[1].Args[0]
			var o *Term
			x.any(func(y *Term) bool {
				if y.Op == "index" && y.Args[1] == l.Pos && base(y.Args[0]) == base(coll) {
					o = y
				}
				return o != nil
			})
			if o == nil || !proj(o, x) || own != nil && own != o {
				return nil, nil, nil
			}
			own, k.keeps = o, true
		}
		ks = append(ks, k)
	}
	return f, own, ks
}

// base is the list that a sorted list was.
func base(t *Term) *Term {
	for t != nil {
		if t.Op == "sorted" {
			t = t.Args[0]
			continue
		}
		if c := copied(t); c != t {
			t = c
			continue
		}
		break
	}
	return t
}

// bestOnly recognizes t as the elements of coll whose key equals the best.
func (c *Ctx) bestOnly(o *Outcome, t, coll *Term, proj func(own, x *Term) bool) (*selection, string) {
	X := raw("sym", "X", nil)
	_, own, ks := keptBy(t, coll, proj)
	if own == nil {
		sorted := false
		for _, ev := range o.St.trace {
			sorted = sorted || ev.Kind == "sort"
		}
		if sel := c.runningBest(t, coll, proj, nil); sel != nil && !sorted {
			return sel, ""
		}
		return nil, "not a traversal of its argument that keeps elements"
	}
	var sortEv *Event
	for _, ev := range o.St.trace {
		if ev.Kind == "sort" && base(ev.Args[2]) == base(coll) {
			if sortEv != nil {
				return nil, "sorted more than once"
			}
			sortEv = ev
		}
	}
	var sel *selection
	try := func(a, b *Term) bool {
		if !a.contains(own) {
			a, b = b, a
		}
		if !a.contains(own) || b.contains(own) {
			return false
		}
		k := subst(a, map[*Term]*Term{own: X}, map[*Term]*Term{})
		if sortEv != nil {
			first := mkIndex(sortEv.Res, tInt(0), nil)
			if subst(b, map[*Term]*Term{first: X}, map[*Term]*Term{}) != k {
				return false
			}
			sk, desc, why := c.keyOf(sortEv)
			if why != "" || sk != k {
				return false
			}
			sel = &selection{k, desc}
			return true
		}
		// the best by a traversal.
		if ok, desc := bestValue(b, k, coll, X); ok {
			sel = &selection{k, desc}
			return true
		}
		return false
	}
	var eq, lt, gt *Term
	for _, k := range ks {
		for _, l := range k.st.order {
			if t := l.Atom; t.Op == "bin" && (t.Aux == "==" || t.Aux == "<") && eq == nil && try(t.Args[0], t.Args[1]) {
				// being as good as the best, worse, and better than it.
				a, b := t.Args[0], t.Args[1]
				if !a.contains(own) {
					a, b = b, a
				}
				eq, lt, gt = mkBin("==", a, b, nil), mkBin("<", a, b, nil), mkBin("<", b, a, nil)
				if !sel.desc {
					lt, gt = gt, lt
				}
			}
		}
	}
	asBest := func(st *State) int {
		switch {
		case st.known(eq) >= 0:
			return st.known(eq)
		case st.known(lt) == 1, st.known(gt) == 1:
			return 0
		}
		if st.known(lt) == 0 {
			return 1 // nothing is better than the best
		}
		return -1
	}
	if eq == nil {
		why := "no comparison with the best of a sort or traversal by the same key"
		if sortEv != nil {
			if _, _, w := c.keyOf(sortEv); w != "" {
				why = w
			}
		}
		return nil, why
	}
	if sortEv != nil && !stableSort(sortEv) {
		return nil, "the sort is not stable"
	}
	for _, k := range ks {
		failed := false
		for _, l := range k.st.order {
			if l.Atom.Op == "bin" && l.Atom.Aux == "==" && l.Atom.Args[1].isNil() && !l.Pol {
				failed = true
			}
		}
		if !failed && asBest(k.st) != b2i(k.keeps) {
			return nil, "an element is kept or dropped whether or not it equals the best"
		}
	}
	return sel, ""
}

// bestValue recognizes the greatest or least key found by a traversal.
func bestValue(b, k, coll, X *Term) (bool, bool) {
	f := foldOf(b)
	val := func(x *Term) *Term { return subst(k, map[*Term]*Term{X: x}, map[*Term]*Term{}) }
	whole := false
	if f == nil {
		// the key of the element kept.
		b.any(func(y *Term) bool {
			if g := foldOf(y); g != nil && val(y) == b {
				f, whole = g, true
			}
			return f != nil
		})
	}
	if f == nil {
		return false, false
	}
	if g := foldOf(base(coll)); g != nil && g.Loop == f.Loop && !whole {
		return bestOfKept(f, g, val)
	}
	if f.Loop.Rev || f.Loop.Pos == nil {
		return false, false
	}
	l := f.Loop
	rest := l.Coll != nil && l.Coll.Op == "slice" && base(l.Coll.Args[0]) == base(coll)
	if l.Coll == nil || base(l.Coll) != base(coll) && !rest {
		return false, false
	}
	own := mkIndex(l.Coll, l.Pos, nil)
	first := mkIndex(coll, tInt(0), nil)
	cur, mine, init := f.Sym, val(own), val(first)
	if whole {
		cur, init = val(f.Sym), first
	}
	set := mine
	if whole {
		set = own
	}
	low := isZero(f.Init) && !whole // qualities and lengths are not negative
	if f.Init != init && !low {
		return false, false
	}
	desc, any := false, false
	for i, nx := range f.Next {
		st := factState(l.Iters[i].Conds)
		gt, lt := st.known(mkBin("<", cur, mine, nil)), st.known(mkBin("<", mine, cur, nil))
		switch {
		case gt == 1 && nx == set:
			if any && !desc {
				return false, false
			}
			desc, any = true, true
		case lt == 1 && nx == set:
			if any && desc || low {
				return false, false
			}
			any = true
		case gt == 0 && nx == f.Sym || lt == 0 && nx == f.Sym:
		default:
			return false, false
		}
	}
	// the decision must be on the same comparison throughout.
	for i, nx := range f.Next {
		st := factState(l.Iters[i].Conds)
		if nx == f.Sym {
			c := mkBin("<", cur, mine, nil)
			if !desc {
				c = mkBin("<", mine, cur, nil)
			}
			if st.known(c) != 0 {
				return false, false
			}
		}
	}
	return any, desc
}

// bestOfKept recognizes the greatest or least key of what a traversal keeps in
// the list, found as it keeps it.
func bestOfKept(f, list *Fold, val func(*Term) *Term) (bool, bool) {
	if z := mkLen(list.Init); !isZero(z) {
		return false, false
	}
	set, desc := false, false
	for i, nx := range f.Next {
		g := list.Next[i]
		if g == list.Sym {
			if nx != f.Sym {
				return false, false
			}
			continue
		}
		if g.Op != "append" || g.Args[0] != list.Sym || g.Args[1].Op != "list" || len(g.Args[1].Args) != 1 {
			return false, false
		}
		mine := val(g.Args[1].Args[0])
		st := factState(f.Loop.Iters[i].Conds)
		if st.known(mkBin("==", mkLen(list.Sym), tInt(0), nil)) == 1 {
			if nx != mine {
				return false, false
			}
			continue
		}
		if st.known(mkBin("==", mkLen(list.Sym), tInt(0), nil)) != 0 && lowerBound(st, mkLen(list.Sym)) < 1 {
			return false, false
		}
		gt, lt := st.known(mkBin("<", f.Sym, mine, nil)), st.known(mkBin("<", mine, f.Sym, nil))
		switch {
		case gt >= 0 && (!set || desc) && nx == pick(gt == 1, mine, f.Sym):
			set, desc = true, true
		case lt >= 0 && (!set || !desc) && nx == pick(lt == 1, mine, f.Sym):
			set = true
		default:
			return false, false
		}
	}
	return set, desc
}

func pick(c bool, a, b *Term) *Term {
	if c {
		return a
	}
	return b
}

// classify decides which documented step a filter is.
func (c *Ctx) classify(g *ssa.Function, free []*Term, roles map[string]string) (string, string) {
	X := raw("sym", "X", nil)
	arg := rootParams(g)[0]
	same := func(own, x *Term) bool { return x == own }
	kind, why := "", "no path of it returns"
	var outs []Outcome
	all, _ := c.runBound(g, atAnchors(c.P), []*Term{arg}, free, nil)
	for _, o := range all {
		if _, e := retError(&o); o.Panic == nil && e != 1 {
			outs = append(outs, o)
		}
	}
	note := func(k, w string) bool {
		if k == "" || kind != "" && kind != k {
			if w == "" {
				w = "its paths select differently: " + kind + " and " + k
			}
			kind, why = "", w
			return false
		}
		kind, why = k, ""
		return true
	}
	isFieldX := func(t *Term, n string) bool {
		t = unconv(t)
		return n != "" && t.Op == "field" && t.Args[0] == X && t.Aux == n
	}
	// paths that give back the argument: decided with the others.
	var whole []Outcome
	for _, o := range outs {
		t := o.Ret[0]
		if t == arg {
			whole = append(whole, o)
			continue
		}
		sel, w := c.bestOnly(&o, t, arg, same)
		if sel != nil {
			k := sel.key
			rep := mkField(X, roles["rep"], nil)
			switch {
			case sel.desc && c.product(k, X, 3, roles["source"], roles["type"]):
				kind = "type"
			case sel.desc && c.product(k, X, 3, roles["language"]):
				kind = "language"
			case sel.desc && c.product(k, X, 3, roles["charset"]):
				kind = "charset"
			case sel.desc && c.product(k, X, 3, roles["encoding"]):
				kind = "encoding"
			case sel.desc && isFieldX(k, roles["order"]):
				kind = "order"
			case !sel.desc && k.Op == "len":
				if call, ok := resOf(k.Args[0], "0", "I:Bytes"); ok && call.Args[0].strip() == rep {
					kind = "length"
				}
			}
			if kind == "" {
				return "", "it selects by " + k.String()
			}
			why = ""
			continue
		}
		if c.notLatin(&o, t, arg, roles) {
			if !note("latin", "") {
				return kind, why
			}
			continue
		}
		lk, lw := c.level(&o, t, arg, roles)
		if lk || c.onePass(&o, t, arg, roles) {
			if !note("level", "") {
				return kind, why
			}
			continue
		}
		if lw != "" {
			w = lw
		}
		return "", w
	}
	for _, o := range whole {
		if o.St.known(mkBin("<", tInt(1), mkLen(arg), nil)) == 0 {
			continue // nothing to narrow
		}
		ok := false
		for _, l := range o.St.order {
			l.Atom.any(func(x *Term) bool {
				f := foldOf(x)
				if f == nil {
					return false
				}
				st := o.St
				empty := st.known(mkBin("==", mkLen(x), tInt(0), nil)) == 1
				full := st.known(mkBin("==", mkLen(x), mkLen(arg), nil)) == 1
				switch kind {
				case "latin":
					ok = ok || (empty || full) && c.latinFold(x, arg, roles)
				case "level":
					_, lv := c.levelList(x, arg, roles)
					ok = ok || empty && (lv != "" || c.noLevels(x, arg, roles))
				}
				return ok
			})
		}
		if !ok {
			return "", "it gives back its argument (" + c.facts(&o) + ")"
		}
	}
	return kind, why
}

// latinFold recognizes the elements of arg whose charset is not ISO-8859-1.
func (c *Ctx) latinFold(t, arg *Term, roles map[string]string) bool {
	_, own, ks := keptBy(t, arg, func(own, x *Term) bool { return own == x })
	if own == nil {
		return false
	}
	cs := raw("call", "I:ContentCharset", nil, mkField(own, roles["rep"], nil))
	isAtom := func(a *Term) bool {
		ss := ""
		var v *Term
		if a.Op == "bin" && a.Aux == "==" || a.Op == "call" && a.Aux == "strings.EqualFold" {
			for i := 0; i < 2; i++ {
				if s, ok := a.Args[i].str(); ok {
					ss, v = s, a.Args[1-i]
				}
			}
		}
		if v == nil {
			return false
		}
		low := a.Op == "call" || v.Op == "call" && v.Aux == "strings.ToLower" && ss == strings.ToLower(ss) || v.Op == "call" && v.Aux == "strings.ToUpper" && ss == strings.ToUpper(ss)
		return low && strings.EqualFold(ss, "iso-8859-1") && foldCase(v) == cs
	}
	for _, k := range ks {
		v := -1
		for _, l := range k.st.order {
			if isAtom(l.Atom) {
				v = b2i(l.Pol)
			}
		}
		if v != 1-b2i(k.keeps) {
			return false
		}
	}
	return true
}

func (c *Ctx) notLatin(o *Outcome, t, arg *Term, roles map[string]string) bool {
	if !c.latinFold(t, arg, roles) {
		return false
	}
	return o.St.known(mkBin("==", mkLen(t), tInt(0), nil)) == 0
}

// levelList recognizes the list of the text/html elements of arg with their
// levels, and provides the fields of its records.
func (c *Ctx) levelList(t, arg *Term, roles map[string]string) (elem, lv string) {
	f := foldOf(base(t))
	if f == nil || f.Loop.Coll != arg || f.Loop.Rev || !(f.Init.isNil() || mkLen(f.Init) == tInt(0)) {
		return "", ""
	}
	own := mkIndex(arg, f.Loop.Pos, nil)
	pm := func(i string) *Term {
		return mkRes(raw("call", "mime.ParseMediaType", nil, raw("call", "I:ContentType", nil, mkField(own, roles["rep"], nil))), i, nil)
	}
	for i, nx := range f.Next {
		html, has := htmlLevel(factState(f.Loop.Iters[i].Conds), pm)
		if nx == f.Sym {
			if !(html == 0 || has == 0) {
				return "", ""
			}
			continue
		}
		if html != 1 || has != 1 || nx.Op != "append" || nx.Args[0] != f.Sym || nx.Args[1].Op != "list" || len(nx.Args[1].Args) != 1 {
			return "", ""
		}
		r := nx.Args[1].Args[0]
		s := structOf(r.Typ)
		if s == nil {
			return "", ""
		}
		for k := 0; k < s.NumFields(); k++ {
			v := unconv(mkField(r, s.Field(k).Name(), s.Field(k).Type()))
			if v == own {
				elem = s.Field(k).Name()
				continue
			}
			for _, fn := range []string{"strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint"} {
				if call, ok := resOf(v, "0", fn); ok && len(call.Args) > 0 {
					a := call.Args[0]
					if a.Op == "lookup" && a.Args[0] == pm("1") && isStr(a.Args[1], "level") {
						lv = s.Field(k).Name()
					}
				}
			}
		}
	}
	if elem == "" || lv == "" {
		return "", ""
	}
	return elem, lv
}

// htmlLevel is what is known of the type being HTML and of it having a level.
func htmlLevel(st *State, pm func(string) *Term) (html, has int) {
	html, has = -1, -1
	for _, l := range st.order {
		a := l.Atom
		switch {
		case a.Op == "has" && a.Args[0] == pm("1") && isStr(a.Args[1], "level"):
			has = b2i(l.Pol)
		case a.Op == "bin" && a.Aux == "==" && a.Args[0] == pm("0") && isStr(a.Args[1], "text/html"),
			a.Op == "bin" && a.Aux == "==" && a.Args[1] == pm("0") && isStr(a.Args[0], "text/html"):
			html = b2i(l.Pol)
		}
	}
	return html, has
}

// onePass recognizes the elements of the highest level, kept by one traversal.
func (c *Ctx) onePass(o *Outcome, t, arg *Term, roles map[string]string) bool {
	for _, ev := range o.St.trace {
		if ev.Kind == "sort" {
			return false
		}
	}
	parsed := func(own *Term) func(string) *Term {
		return func(i string) *Term {
			return mkRes(raw("call", "mime.ParseMediaType", nil, raw("call", "I:ContentType", nil, mkField(own, roles["rep"], nil))), i, nil)
		}
	}
	sel := c.runningBest(t, arg, func(own, x *Term) bool { return own == x }, func(own *Term, st *State) bool {
		html, has := htmlLevel(st, parsed(own))
		return html == 0 || has == 0
	})
	if sel == nil || !sel.desc {
		return false
	}
	// only those of HTML with a level are kept.
	f := foldOf(t)
	own := mkIndex(arg, f.Loop.Pos, nil)
	for i, nx := range f.Next {
		html, has := htmlLevel(factState(f.Loop.Iters[i].Conds), parsed(own))
		if nx != f.Sym && !(html == 1 && has == 1) {
			return false
		}
	}
	if o.St.known(mkBin("==", mkLen(t), tInt(0), nil)) != 0 {
		return false
	}
	for _, fn := range []string{"strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint"} {
		if call, ok := resOf(unconv(sel.key), "0", fn); ok && len(call.Args) > 0 {
			a := call.Args[0]
			return a.Op == "lookup" && a.Args[0] == parsed(raw("sym", "X", nil))("1") && isStr(a.Args[1], "level")
		}
	}
	return false
}

// noLevels recognizes the elements with a level, one way or the other.
func (c *Ctx) noLevels(t, arg *Term, roles map[string]string) bool {
	f := foldOf(base(t))
	if f == nil || f.Loop.Coll != arg || f.Loop.Pos == nil || f.Loop.Rev || !(f.Init.isNil() || mkLen(f.Init) == tInt(0)) {
		return false
	}
	own := mkIndex(arg, f.Loop.Pos, nil)
	pm := func(i string) *Term {
		return mkRes(raw("call", "mime.ParseMediaType", nil, raw("call", "I:ContentType", nil, mkField(own, roles["rep"], nil))), i, nil)
	}
	some := false
	for i, nx := range f.Next {
		html, has := htmlLevel(factState(f.Loop.Iters[i].Conds), pm)
		if nx == f.Sym && (html == 0 || has == 0) {
			continue
		}
		if nx == f.Sym {
			// left out for another: the list is not empty then.
			if factState(f.Loop.Iters[i].Conds).known(mkBin("==", mkLen(f.Sym), tInt(0), nil)) != 0 {
				return false
			}
			continue
		}
		one := nx.Op == "list" && len(nx.Args) > 0 || nx.Op == "append" && nx.Args[1].Op == "list" && len(nx.Args[1].Args) > 0
		if html != 1 || has != 1 || !one {
			return false
		}
		some = true
	}
	return some
}

func (c *Ctx) level(o *Outcome, t, arg *Term, roles map[string]string) (bool, string) {
	X := raw("sym", "X", nil)
	f := foldOf(t)
	if f == nil || f.Loop.Coll == nil {
		return false, ""
	}
	list := base(f.Loop.Coll)
	elem, lv := c.levelList(list, arg, roles)
	if elem == "" {
		return false, ""
	}
	if o.St.known(mkBin("==", mkLen(list), tInt(0), nil)) != 0 {
		return false, "the elements of a level are selected although there may be none"
	}
	sel, why := c.bestOnly(o, t, list, func(own, x *Term) bool { return x == mkField(own, elem, nil) })
	if sel == nil {
		return false, why
	}
	if !sel.desc || sel.key != mkField(X, lv, nil) {
		return false, "it selects by " + sel.key.String()
	}
	return true, ""
}

func ruleC13(c *Ctx) {
	c.Rule = "each filter of the Apache algorithm is classified by what it selects (the key of its stable sort and of the elements it keeps, evaluated symbolically for two arbitrary elements); the filters applied on every path are a prefix of the documented order, complete unless one variant is known to be left, and the first of the last set is returned; the order score of a language decreases with its position."
	c.Trusted = trustedStd
	ch := c.chooser("proactive", "ApacheHTTPD", filterCfg(c.P))
	if ch == nil {
		return
	}
	f, rs := c.scoring(ch, apacheDims)
	if f == nil {
		return
	}
	roles := c.roleFields(ch, rs, apacheDims)
	for _, n := range append([]string{"rep", "source", "order"}, apacheDims...) {
		c.must(roles[n] != "", "", "no field of the records holds the %s of the iteration's own representation on every path", n)
	}
	if len(c.Viol) > 0 {
		return
	}
	// the records.
	orders := 0
	for _, r := range rs {
		if r.adds == nil {
			continue
		}
		for _, n := range apacheDims {
			q := r.quals[n]
			c.must(q.is(mkField(r.adds, roles[n], nil)), r.site, "the %s quality of a record is %v where it is %s %v (%v)", n, mkField(r.adds, roles[n], nil), q.state, q.q, sortedLits(r.st.order))
		}
		lq := r.quals["language"]
		ord := unconv(mkField(r.adds, roles["order"], nil))
		if lq.state == "match" {
			orders++
			// strictly decreasing with the position.
			pos := lq.rng.Args[1]
			n := linearIn(ord, pos)
			c.must(n < 0, r.site, "the order score of a language listed later is not lower: %v", ord)
		}
	}
	c.minimum(orders, 4, "ways to match a language")
	set := raw("fold", f.ID, f.Sym.Typ)
	want := []string{"type", "language", "order", "level", "charset", "latin", "encoding", "length"}
	kinds := map[string]string{}
	full, short := 0, 0
	for i := range ch.Outs {
		o := &ch.Outs[i]
		at := c.end(o)
		if _, e := retError(o); e == 1 {
			continue
		}
		cur := set
		one := o.St.known(mkBin("==", mkLen(cur), tInt(1), nil)) == 1
		var seq []string
		for _, ev := range filterCalls(o) {
			k, ok := kinds[ev.filter()]
			if !ok {
				var why string
				k, why = c.classify(ev.Target, ev.Free, roles)
				c.must(k != "", c.P.posn(ev.Target.Pos()), "a filter is none of the documented steps: %s", why)
				kinds[ev.filter()] = k
			}
			seq = append(seq, k)
			c.must(ev.Args[0] == cur, c.P.posOf(ev.Site), "a filter is applied to %v", ev.Args[0])
			cur = mkRes(ev.Res, "0", nil)
			one = one || o.St.known(mkBin("==", mkLen(cur), tInt(1), nil)) == 1
		}
		inOrder := len(seq) <= len(want)
		for k := range seq {
			inOrder = inOrder && k < len(want) && seq[k] == want[k]
		}
		c.must(inOrder, at, "the steps are %v instead of %v", seq, want)
		v := o.Ret[0].strip()
		if v.isNil() {
			empty := o.St.known(mkBin("==", mkLen(cur), tInt(0), nil)) == 1
			c.must(empty, at, "nothing is returned although variants remain")
			continue
		}
		if len(seq) < len(want) {
			short++
			c.must(one, at, "the ranking stops after %v although more than one variant may remain", seq)
		} else {
			full++
		}
		ok := v == mkField(mkIndex(cur, tInt(0), nil), roles["rep"], nil)
		// any step before the first that left a single variant does as well.
		if !ok && one {
			for _, ev := range filterCalls(o) {
				ok = ok || v == mkField(mkIndex(mkRes(ev.Res, "0", nil), tInt(0), nil), roles["rep"], nil) && o.St.known(mkBin("==", mkLen(mkRes(ev.Res, "0", nil)), tInt(1), nil)) == 1
			}
		}
		c.must(ok, at, "%v is returned rather than the first that remains", v)
	}
	c.minimum(full, 1, "ways through all steps")
	c.minimum(len(kinds), 8, "steps")
	c.sample("%d complete and %d shortened rankings; steps %v", full, short, want)
}

// linearIn is the sign of the coefficient of pos in t, 0 if there is none or
// t is not linear.
func linearIn(t, pos *Term) int {
	t = unconv(t)
	if t == pos {
		return 1
	}
	switch {
	case t.Op == "bin" && t.Aux == "+":
		a, b := linearIn(t.Args[0], pos), linearIn(t.Args[1], pos)
		if a*b == 0 && (a != 0 || !t.Args[0].contains(pos)) && (b != 0 || !t.Args[1].contains(pos)) {
			return a + b
		}
	case t.Op == "bin" && t.Aux == "-":
		a, b := linearIn(t.Args[0], pos), linearIn(t.Args[1], pos)
		if a*b == 0 && (a != 0 || !t.Args[0].contains(pos)) && (b != 0 || !t.Args[1].contains(pos)) {
			return a - b
		}
	case t.Op == "neg":
		return -linearIn(t.Args[0], pos)
	}
	return 0
}

// runningBest recognizes t as the elements of coll with the best key, kept by
// one traversal that starts over at each better one.
func (c *Ctx) runningBest(t, coll *Term, proj func(own, x *Term) bool, skip func(own *Term, st *State) bool) *selection {
	f := foldOf(t)
	if f == nil || f.Loop.Rev || f.Loop.Pos == nil || f.Loop.Coll == nil || base(f.Loop.Coll) != base(coll) || f.Loop.Coll != coll {
		return nil
	}
	if !(f.Init.isNil() || mkLen(f.Init) == tInt(0)) {
		return nil
	}
	X := raw("sym", "X", nil)
	l := f.Loop
	own := mkIndex(l.Coll, l.Pos, nil)
	const keep, add, reset = 0, 1, 2
	kind := make([]int, len(f.Next))
	one := func(t *Term) bool { return t.Op == "list" && len(t.Args) == 1 && proj(own, t.Args[0]) }
	for i, nx := range f.Next {
		switch {
		case nx == f.Sym:
			kind[i] = keep
		case nx.Op == "append" && nx.Args[0] == f.Sym && one(nx.Args[1]):
			kind[i] = add
		case one(nx), nx.Op == "append" && mkLen(nx.Args[0]) == tInt(0) && one(nx.Args[1]):
			kind[i] = reset
		default:
			return nil
		}
	}
	// what the elements are compared by.
	var key, mine, cur *Term
	front := mkIndex(f.Sym, tInt(0), nil)
	find := func(a, b *Term) bool {
		if !a.contains(own) {
			a, b = b, a
		}
		if !a.contains(own) || b.contains(own) {
			return false
		}
		k := subst(a, map[*Term]*Term{own: X}, map[*Term]*Term{})
		if subst(b, map[*Term]*Term{front: X}, map[*Term]*Term{}) == k {
			key, mine, cur = k, a, b
			return true
		}
		// kept beside: the key of those kept, or what it is made from.
		for _, g := range l.Folds {
			if !b.contains(g.Sym) || g.Sym == f.Sym {
				continue
			}
			var v *Term
			for i, nx := range g.Next {
				if kind[i] == reset {
					v = nx
				}
			}
			if v == nil || v == g.Sym || !v.contains(own) || subst(a, map[*Term]*Term{v: g.Sym}, map[*Term]*Term{}) != b {
				return false
			}
			for i, nx := range g.Next {
				if !(nx == v && kind[i] != keep || nx == g.Sym && kind[i] != reset) {
					return false
				}
			}
			key, mine, cur = k, a, b
			return true
		}
		return false
	}
	for i := range f.Next {
		for _, ct := range factState(l.Iters[i].Conds).order {
			if a := ct.Atom; key == nil && a.Op == "bin" && (a.Aux == "==" || a.Aux == "<") {
				find(a.Args[0], a.Args[1])
			}
		}
	}
	if key == nil {
		return nil
	}
	none := mkBin("==", mkLen(f.Sym), tInt(0), nil)
	up, down := mkBin("<", cur, mine, nil), mkBin("<", mine, cur, nil)
	same := mkBin("==", mine, cur, nil)
	dir := 0
	for i := range f.Next {
		st := factState(l.Iters[i].Conds)
		if kind[i] == reset && st.known(none) != 1 {
			switch {
			case st.known(up) == 1 && dir >= 0:
				dir = 1
			case st.known(down) == 1 && dir <= 0:
				dir = -1
			default:
				return nil
			}
		}
	}
	if dir == 0 {
		return nil
	}
	better, worse := up, down
	if dir < 0 {
		better, worse = down, up
	}
	for i := range f.Next {
		st := factState(l.Iters[i].Conds)
		if kind[i] == keep && skip != nil && skip(own, st) {
			continue
		}
		empty := st.known(none)
		equal := st.known(same) == 1 || st.known(better) == 0 && st.known(worse) == 0
		switch kind[i] {
		case keep:
			if empty != 0 || !(st.known(worse) == 1 || st.known(better) == 0 && st.known(same) == 0) {
				return nil
			}
		case add:
			// the key kept beside is not that of an element when there is none.
			if empty == 1 && cur.contains(f.Sym) {
				continue
			}
			if empty != 0 || !equal {
				return nil
			}
		case reset:
			if !(empty == 1 || empty == 0 && st.known(better) == 1) {
				return nil
			}
		}
	}
	return &selection{key, dir > 0}
}
