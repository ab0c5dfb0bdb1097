package main

import (
	"go/types"
	"math"
	"math/rand"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C12"] = ruleC12
	rules["C14"] = ruleC14
}

// dim is a dimension of negotiation: a request header and the attribute of a
// representation that it governs.
type dim struct {
	name, hdr, ctor, acc string
	ranges, rtyp         string
	multi                bool
}

var dims = map[string]dim{
	"type":     {"type", "Accept", "NewAccept", "ContentType", "(~/internal/header.Accept).MediaRanges", "MediaRange", false},
	"charset":  {"charset", "Accept-Charset", "NewAcceptCharset", "ContentCharset", "(~/internal/header.AcceptCharset).CharsetRanges", "CharsetRange", false},
	"language": {"language", "Accept-Language", "NewAcceptLanguage", "ContentLanguage", "", "LanguageRange", false},
	"encoding": {"encoding", "Accept-Encoding", "NewAcceptEncoding", "ContentEncoding", "(~/internal/header.AcceptEncoding).CodingRanges", "ContentCodingRange", true},
	"features": {"features", "Accept-Features", "NewAcceptFeatures", "ContentFeatures", "", "", true},
}

// qual is what a path knows about the quality of one dimension of the
// iteration's own representation.
type qual struct {
	state string // lack, absent, match, none, or "" if unknown
	q     *Term
	wild  int
	rng   *Term
}

func (ch *Chooser) lines(d dim) *Term {
	return mkLookup(mkField(raw("deref", "", nil, ch.Req), "Header", nil), tStr(d.hdr), nil)
}

// header recognizes the parsed request header of a dimension.
func (ch *Chooser) header(d dim, t *Term) bool {
	call, ok := resOf(t, "0", hdrPkg+d.ctor)
	return ok && len(call.Args) == 1 && call.Args[0] == ch.lines(d)
}

// rangesOf recognizes the ranges of the header of a dimension.
func (ch *Chooser) rangesOf(d dim, t *Term) bool {
	if d.ranges != "" {
		return isCall(t, d.ranges) && ch.header(d, t.Args[0])
	}
	return ch.header(d, t) || isCall(t, "(~/internal/header.AcceptLanguage).LanguageRanges") && ch.header(d, t.Args[0])
}

// attr recognizes an attribute of a representation.
func (d dim) attr(t, own *Term) bool {
	t = t.strip()
	if d.multi && t.Op == "index" {
		t = t.Args[0]
	}
	return isCall(t, "I:"+d.acc) && t.Args[0] == own
}

// compatible recognizes that a range of the header matches the attribute, and
// provides the range.
func (ch *Chooser) compatible(d dim, t, own *Term) *Term {
	key := "(~/internal/header." + d.rtyp + ").Compatible"
	if call, ok := resOf(t, "0", key); ok {
		t = call
	}
	if !isCall(t, key) || len(t.Args) != 2 || !d.attr(t.Args[1], own) {
		return nil
	}
	r := t.Args[0].strip()
	if r.Op == "index" && ch.rangesOf(d, r.Args[0]) {
		return r
	}
	return nil
}

// accessor evaluates a method without side effects on a term.
func (c *Ctx) accessor(rel, typ, method string, recv *Term) *Term {
	key := accessed{rel, typ, method, recv}
	r, ok := c.accessors[key]
	if !ok {
		if r = c.access(key); c.accessors == nil {
			c.accessors = map[accessed]*Term{}
		}
		c.accessors[key] = r
	}
	return r
}

type accessed struct {
	rel, typ, method string
	recv             *Term
}

func (c *Ctx) access(k accessed) *Term {
	f := c.P.method(k.rel, k.typ, k.method)
	if f == nil {
		return nil
	}
	recv := k.recv
	e := newEngine(c.P, atAnchors(c.P))
	outs, err := e.Run(f, append([]*Term{recv}, rootParams(f)[1:]...), nil)
	if err == nil && len(outs) == 2 {
		outs = joinBool(outs)
	}
	if err != nil || len(outs) != 1 || len(outs[0].Ret) == 0 {
		return nil
	}
	return unconv(outs[0].Ret[0])
}

func unconv(t *Term) *Term {
	t = t.strip()
	for t.Op == "conv" || t.Op == "widen" {
		t = t.Args[0].strip()
	}
	return t
}

// none reports whether the events tell that no range matched.
func (ch *Chooser) none(d dim, own *Term, evs []*Event) bool {
	for _, ev := range evs {
		if ev.Kind != "loop" || ev.ExitKind != "normal" {
			continue
		}
		l := ev.Loop
		over := l.Coll != nil && (ch.rangesOf(d, l.Coll) || d.multi && d.attr(l.Coll, own))
		if !over || len(l.Iters) == 0 {
			continue
		}
		all := true
		for _, it := range l.Iters {
			no := ch.noMatch(d, own, it)
			all = all && no
		}
		if all {
			return true
		}
	}
	return false
}

// noMatch reports whether an iteration tells that its range does not match.
func (ch *Chooser) noMatch(d dim, own *Term, it Iter) bool {
	no := false
	for _, lt := range it.Conds {
		if ch.compatible(d, lt.Atom, own) != nil && !lt.Pol {
			no = true
		}
		// the error of a comparison is as good.
		if lt.Atom.Op == "bin" && lt.Atom.Args[0].Op == "res" && lt.Atom.Args[0].Aux == "1" && !lt.Pol {
			if ch.compatible(d, raw("res", "0", nil, lt.Atom.Args[0].Args[0]), own) != nil {
				no = true
			}
		}
	}
	if !no {
		no = ch.none(d, own, it.Events)
	}
	return no
}

func (c *Ctx) qualOf(ch *Chooser, d dim, own *Term, st *State, evs []*Event) qual {
	attr := raw("call", "I:"+d.acc, nil, own)
	var hdr *Term
	look := func(t *Term) {
		t.any(func(x *Term) bool {
			if ch.header(d, x) {
				hdr = x
			}
			return hdr != nil
		})
	}
	for _, l := range st.order {
		look(l.Atom)
	}
	zero := func(t *Term) int { return st.known(mkBin("==", mkLen(t), tInt(0), nil)) }
	if zero(attr) == 1 {
		return qual{state: "lack", wild: 0}
	}
	if hdr != nil && zero(hdr) == 1 || zero(ch.lines(d)) == 1 {
		return qual{state: "absent", wild: 1}
	}
	if d.name == "features" {
		var q *Term
		fit := func(t *Term) {
			t.any(func(x *Term) bool {
				if isCall(x, "(~/internal/header.FeatureList).QualityDegradation") {
					q = x
				}
				return q != nil
			})
		}
		for _, ev := range evs {
			if ev.Res != nil {
				fit(ev.Res)
			}
		}
		if q != nil && c.degradation(ch, own, q) {
			return qual{state: "match", q: q, wild: 0}
		}
		return qual{wild: -1}
	}
	for _, l := range st.order {
		if r := ch.compatible(d, l.Atom, own); r != nil && l.Pol {
			return qual{state: "match", q: c.accessor("internal/header", d.rtyp, "QualityValue", r), wild: c.wild(d, r, st), rng: r}
		}
	}
	if ch.none(d, own, evs) {
		return qual{state: "none", q: tInt(0), wild: 0}
	}
	return qual{wild: -1}
}

// degradation recognizes the degradation of the representation's features over
// the sets of the request.
func (c *Ctx) degradation(ch *Chooser, own, q *Term) bool {
	d := dims["features"]
	if len(q.Args) != 3 {
		return false
	}
	call, ok := resOf(q.Args[0], "0", hdrPkg+"NewFeatureList")
	if !ok || !d.attr(call.Args[0], own) {
		return false
	}
	for i, s := range []string{"0", "1"} {
		set, ok := resOf(q.Args[i+1], s, "(~/internal/header.AcceptFeatures).AsFeatureSets")
		if !ok || !ch.header(d, set.Args[0]) {
			return false
		}
	}
	return true
}

// wild tells whether the range is a wildcard, from the facts of the path.
func (c *Ctx) wild(d dim, r *Term, st *State) int {
	if d.name == "type" {
		t, s := c.accessor("internal/header", d.rtyp, "Type", r), c.accessor("internal/header", d.rtyp, "SubType", r)
		if t == nil || s == nil {
			return -1
		}
		a, b := st.known(mkBin("==", t, tStr("*"), nil)), st.known(mkBin("==", s, tStr("*"), nil))
		switch {
		case a == 1 || b == 1:
			return 1
		case a == 0 && b == 0:
			return 0
		}
		return -1
	}
	w := c.accessor("internal/header", d.rtyp, "IsWildcard", r)
	if w == nil {
		return -1
	}
	return st.known(w)
}

// ranked is what an iteration of an algorithm's scoring loop does with its
// representation.
type ranked struct {
	loop  *Loop
	iter  int
	st    *State
	evs   []*Event
	own   *Term
	adds  *Term // record added, or nil
	quals map[string]qual
	site  string
}

// scoring finds the loop over the representations that ranks them, and
// describes its iterations.
func (c *Ctx) scoring(ch *Chooser, names []string) (*Fold, []ranked) {
	for i := range ch.Outs {
		for _, ev := range ch.Outs[i].St.trace {
			if ev.Kind != "loop" || ev.Loop.Coll != ch.Reps || ev.Loop.Rev || ev.Loop.Pos == nil || ev.ExitKind != "normal" {
				continue
			}
			l := ev.Loop
			for _, f := range l.Folds {
				grows := false
				for _, nx := range f.Next {
					if nx.Op == "append" {
						grows = true
					}
				}
				if !grows || f.Sym.Typ == nil || !strings.HasPrefix(f.Sym.Typ.Underlying().String(), "[]") || structOf(elemOf(f.Sym.Typ)) == nil {
					continue
				}
				var rs []ranked
				own := mkIndex(ch.Reps, l.Pos, nil)
				for k, it := range l.Iters {
					conds := append(append([]Lit{}, ch.Outs[i].St.order[:ev.NFacts]...), it.Conds...)
					r := ranked{loop: l, iter: k, st: factState(conds), evs: it.Events, own: own, quals: map[string]qual{}, site: c.P.posOf(ev.Site)}
					nx := f.Next[k]
					switch {
					case nx == f.Sym:
					case nx.Op == "append" && nx.Args[0] == f.Sym && nx.Args[1].Op == "list" && len(nx.Args[1].Args) == 1:
						r.adds = nx.Args[1].Args[0]
					default:
						c.must(false, r.site, "an iteration makes the ranked representations %v", nx)
						continue
					}
					for _, n := range names {
						r.quals[n] = c.qualOf(ch, dims[n], own, r.st, it.Events)
					}
					rs = append(rs, r)
				}
				c.must(f.Init.isNil() || mkLen(f.Init) == tInt(0), c.P.posOf(ev.Site), "the ranking starts with %v", f.Init)
				return f, rs
			}
		}
	}
	c.must(false, c.P.posn(ch.Fn.Pos()), "%s: no loop that ranks the representations", ch.Name)
	return nil, nil
}

// zeroKnown tells whether a quality is known to be zero.
func (q qual) zeroKnown(st *State) int {
	switch q.state {
	case "lack", "absent":
		return 0
	case "none":
		return 1
	case "match":
		if q.q == nil {
			return -1
		}
		if v := st.known(mkBin("==", q.q, tInt(0), nil)); v >= 0 {
			return v
		}
		if v := st.known(mkBin("<", tInt(0), q.q, nil)); v >= 0 {
			return 1 - v
		}
	}
	return -1
}

// is reports whether t is the value of the quality.
func (q qual) is(t *Term) bool {
	t = unconv(t)
	switch q.state {
	case "lack", "absent":
		v, ok := t.intv()
		return ok && v == 1
	case "none":
		v, ok := t.intv()
		return ok && v == 0
	case "match":
		return q.q != nil && t == unconv(q.q)
	}
	return false
}

// roleFields finds which field of the records holds what: the field that has
// the value of the quality on every path.
func (c *Ctx) roleFields(ch *Chooser, rs []ranked, names []string) map[string]string {
	m := map[string]string{}
	var s *types.Struct
	var mt types.Type
	for _, r := range rs {
		if r.adds != nil && r.adds.Typ != nil {
			s, mt = structOf(r.adds.Typ), r.adds.Typ
		}
	}
	_ = mt
	if s == nil {
		c.must(false, c.P.posn(ch.Fn.Pos()), "%s: no representation is ever ranked", ch.Name)
		return m
	}
	for _, n := range append([]string{"source", "rep", "definite", "order"}, names...) {
		for i := 0; i < s.NumFields(); i++ {
			fits, seen := true, 0
			for _, r := range rs {
				if r.adds == nil {
					continue
				}
				v := mkField(r.adds, s.Field(i).Name(), s.Field(i).Type())
				switch n {
				case "source":
					v = unconv(v)
					fits = fits && isCall(v, "I:SourceQuality") && v.Args[0] == r.own
					seen++
				case "rep":
					fits = fits && v.strip() == r.own
					seen++
				case "definite":
					fits = fits && isBool(s.Field(i).Type())
					seen++
				case "order":
					fits = fits && isInt(s.Field(i).Type())
					seen++
				default:
					q := r.quals[n]
					if q.state == "match" {
						fits = fits && q.is(v)
						seen++
					}
				}
			}
			if fits && seen > 0 {
				m[n] = s.Field(i).Name()
			}
		}
	}
	return m
}

var apacheDims = []string{"type", "charset", "language", "encoding"}
var rvsaDims = []string{"type", "charset", "language", "features"}

func filterCfg(p *Prog) Cfg {
	cfg := atAnchors(p)
	cfg.OpaqueDyn = isFilter
	old := cfg.Opaque
	cfg.Opaque = func(f *ssa.Function) bool { return old(f) || isFilter(f) }
	return cfg
}

// chain lists the filter calls of a path.
func filterCalls(o *Outcome) []*Event {
	var evs []*Event
	for _, ev := range o.St.trace {
		if ev.Kind == "call" && ev.Target != nil && isFilter(ev.Target) {
			evs = append(evs, ev)
		}
	}
	return evs
}

// filter names a filter together with what it has captured.
func (ev *Event) filter() string {
	k := ev.Target.String()
	for _, b := range ev.Free {
		k += "," + b.String()
	}
	return k
}

func ruleC12(c *Ctx) {
	c.Rule = "every iteration of the Apache algorithm's scoring loop over the representations either adds a record of its own representation, with every quality known not to be zero, or adds nothing, with some quality known to be zero; the value returned is nil where the set is known to be empty, or the representation of the first record of that set after filters, each of which provides records of its argument only."
	c.Trusted = trustedStd
	ch := c.chooser("proactive", "ApacheHTTPD", filterCfg(c.P))
	if ch == nil {
		return
	}
	f, rs := c.scoring(ch, apacheDims)
	if f == nil {
		return
	}
	roles := c.roleFields(ch, rs, apacheDims)
	if !c.must(roles["rep"] != "", "", "the records do not hold the iteration's own representation") {
		return
	}
	in, out := 0, 0
	for _, r := range rs {
		zero, unknown := "", ""
		for _, n := range apacheDims {
			switch r.quals[n].zeroKnown(r.st) {
			case 1:
				zero = n
			case -1:
				unknown = n
			}
		}
		if r.adds != nil {
			in++
			c.must(zero == "" && unknown == "", r.site, "a representation is ranked although the quality of its %s may be zero (%v)", zero+unknown, sortedLits(r.st.order))
		} else {
			out++
			c.must(zero != "", r.site, "a representation is eliminated although none of its qualities is known to be zero (%v)", sortedLits(r.st.order))
		}
	}
	c.minimum(in, 16, "ways to rank a representation")
	c.minimum(out, 4, "ways to eliminate a representation")
	c.sample("%d ways to rank, %d ways to eliminate; record fields %v", in, out, roles)
	set := raw("fold", f.ID, f.Sym.Typ)
	filters := map[string]*Event{}
	rets := 0
	for i := range ch.Outs {
		o := &ch.Outs[i]
		at := c.end(o)
		sets := []*Term{set}
		for _, ev := range filterCalls(o) {
			filters[ev.filter()] = ev
			if len(ev.Args) == 1 && ev.Args[0] == sets[len(sets)-1] {
				sets = append(sets, mkRes(ev.Res, "0", nil))
			} else {
				c.must(false, c.P.posOf(ev.Site), "a filter is applied to %v rather than to what the step before left", ev.Args[0])
			}
		}
		if _, e := retError(o); e == 1 {
			continue
		}
		rets++
		v := o.Ret[0].strip()
		if v.isNil() {
			empty := false
			for _, s := range sets {
				if o.St.known(mkBin("==", mkLen(s), tInt(0), nil)) == 1 {
					empty = true
				}
			}
			c.must(empty, at, "nothing is chosen although there may be an acceptable representation")
			continue
		}
		ok := v.Op == "field" && v.Aux == roles["rep"] && v.Args[0].Op == "index"
		if ok {
			ok = false
			for _, s := range sets {
				ok = ok || v.Args[0].Args[0] == s
			}
		}
		c.must(ok, at, "%v is chosen, which is not known to be one of the representations left", v)
	}
	c.minimum(rets, 3, "ways to choose")
	for _, ev := range filters {
		c.subset(ev.Target, ev.Free)
	}
	c.minimum(len(filters), 1, "filters")
}

// subset checks that what a filter provides are elements of its argument.
func (c *Ctx) subset(g *ssa.Function, free []*Term) {
	arg := rootParams(g)[0]
	outs, _ := c.runBound(g, atAnchors(c.P), []*Term{arg}, free, nil)
	for _, o := range outs {
		if o.Panic != nil {
			continue
		}
		if _, e := retError(&o); e == 1 {
			continue
		}
		if len(o.Ret) == 0 {
			continue
		}
		c.must(partOf(o.Ret[0], arg, 0), c.end(&o), "a filter provides %v, which is not known to be part of its argument", o.Ret[0])
	}
}

// partOf reports whether every element of t is an element of arg.
func partOf(t, arg *Term, depth int) bool {
	if depth > 6 {
		return false
	}
	if t == arg {
		return true
	}
	switch t.Op {
	case "sorted":
		return partOf(t.Args[0], arg, depth+1)
	case "slice":
		return partOf(t.Args[0], arg, depth+1)
	case "list":
		for _, x := range t.Args {
			if !elemOfSet(x, arg, depth+1) {
				return false
			}
		}
		return true
	case "append":
		return partOf(t.Args[0], arg, depth+1) && partOf(t.Args[1], arg, depth+1)
	case "const":
		return t.isNil()
	case "fold":
		f := foldOf(t)
		if !partOf(f.Init, arg, depth+1) {
			return false
		}
		for _, nx := range f.Next {
			for nx.Op == "append" {
				if nx.Args[1].Op != "list" {
					return false
				}
				for _, x := range nx.Args[1].Args {
					if !elemOfSet(x, arg, depth+1) {
						return false
					}
				}
				nx = nx.Args[0]
			}
			if nx != f.Sym && !partOf(nx, arg, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func elemOfSet(x, arg *Term, depth int) bool {
	x = x.strip()
	if x.Op == "index" {
		return partOf(x.Args[0], arg, depth+1)
	}
	// a field of an element of a list of records made here.
	if x.Op == "field" && x.Args[0].Op == "index" {
		src := x.Args[0].Args[0]
		for src.Op == "sorted" {
			src = src.Args[0]
		}
		f := foldOf(src)
		if f == nil || !(f.Init.isNil() || mkLen(f.Init) == tInt(0)) {
			return false
		}
		for _, nx := range f.Next {
			if nx == f.Sym {
				continue
			}
			if nx.Op != "append" || nx.Args[0] != f.Sym || nx.Args[1].Op != "list" {
				return false
			}
			for _, r := range nx.Args[1].Args {
				if !elemOfSet(mkField(r, x.Aux, nil), arg, depth+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// keyOf gives the key by which a less function orders, as a function of the
// element X, and whether greater keys come first.
func (c *Ctx) keyOf(ev *Event) (key *Term, desc bool, why string) {
	X := raw("sym", "X", nil)
	less := ev.Args[1]
	fn, pre, free, rev := c.comparator(less)
	if fn == nil {
		return nil, false, "sorted by a function not known statically"
	}
	params := fn.Params[len(pre):]
	var args []*Term
	var a, b *Term
	if len(params) != 2 {
		return nil, false, "sorted by a function of unknown shape"
	}
	if isInt(params[0].Type()) {
		i, j := raw("sym", "i", params[0].Type()), raw("sym", "j", params[1].Type())
		args = []*Term{i, j}
		a, b = mkIndex(ev.Args[2], i, nil), mkIndex(ev.Args[2], j, nil)
	} else {
		a, b = raw("sym", "a", params[0].Type()), raw("sym", "b", params[1].Type())
		args = []*Term{a, b}
	}
	e := newEngine(c.P, atAnchors(c.P))
	if rev {
		args[0], args[1] = args[1], args[0]
	}
	outs, err := e.runFree(fn, append(pre, args...), free, ev.St.clone())
	if err != nil {
		return nil, false, err.Error()
	}
	n0 := len(ev.St.order)
	set := false
	take := func(x, y *Term, less1 bool) string {
		// x < y orders the first before the second (less1), or the reverse.
		if !less1 {
			x, y = y, x
		}
		d := false
		if x.contains(b) && y.contains(a) && !x.contains(a) && !y.contains(b) {
			d = true
			x, y = y, x
		} else if !(x.contains(a) && y.contains(b) && !x.contains(b) && !y.contains(a)) {
			return "the comparison of " + x.String() + " and " + y.String() + " is not one of the two elements"
		}
		kx := subst(x, map[*Term]*Term{a: X}, map[*Term]*Term{})
		ky := subst(y, map[*Term]*Term{b: X}, map[*Term]*Term{})
		if kx != ky {
			return "the elements are compared by different keys: " + kx.String() + " and " + ky.String()
		}
		if set && (key != kx || desc != d) {
			return "the order is by more than one key"
		}
		key, desc, set = kx, d, true
		return ""
	}
	for _, o := range outs {
		if o.Panic != nil || len(o.Ret) != 1 {
			return nil, false, "the comparison may panic"
		}
		failed := false
		for _, l := range o.St.order[n0:] {
			if l.Atom.Op == "bin" && l.Atom.Aux == "==" && l.Atom.Args[1].isNil() && !l.Pol {
				failed = true // an error; it surfaces elsewhere
			}
		}
		if failed {
			continue
		}
		r := o.Ret[0]
		neg := false
		for r.Op == "not" {
			r, neg = r.Args[0], !neg
		}
		switch {
		case r.Op == "bin" && r.Aux == "<" && !neg:
			if w := take(r.Args[0], r.Args[1], true); w != "" {
				return nil, false, w
			}
		case r.isTrue() || r.isFalse():
			found := false
			for _, l := range o.St.order[n0:] {
				if l.Atom.Op == "bin" && l.Atom.Aux == "<" && l.Pol == r.isTrue() {
					if w := take(l.Atom.Args[0], l.Atom.Args[1], true); w != "" {
						return nil, false, w
					}
					found = true
				}
			}
			if !found {
				return nil, false, "the order is not by a key"
			}
		case r.Op == "call" && strings.HasPrefix(r.Aux, "cmp.Compare"):
			if w := take(r.Args[0], r.Args[1], true); w != "" {
				return nil, false, w
			}
		case r.Op == "neg" && r.Args[0].Op == "call" && strings.HasPrefix(r.Args[0].Aux, "cmp.Compare"):
			if w := take(r.Args[0].Args[1], r.Args[0].Args[0], true); w != "" {
				return nil, false, w
			}
		default:
			return nil, false, "the order is not by a key: " + r.String()
		}
	}
	if !set {
		return nil, false, "no comparison was found"
	}
	return key, desc, ""
}

func stableSort(ev *Event) bool {
	return ev.Key == "sort.SliceStable" || ev.Key == "slices.SortStableFunc" || ev.Key == "sort.Stable"
}

// factors lists the factors of a product.
func factors(t *Term) []*Term {
	t = unconv(t)
	if t.Op == "bin" && t.Aux == "*" {
		return append(factors(t.Args[0]), factors(t.Args[1])...)
	}
	return []*Term{t}
}

// product reports whether t orders by the product of exactly the named fields
// of X, rounded to that many decimals: it is that product, or compares as it
// does on every sample.
func (c *Ctx) product(t, X *Term, digits int64, fields ...string) bool {
	t = unconv(t)
	if isCall(t, "(~/internal/header.QualityValue).Round") && len(t.Args) == 2 {
		if n, ok := t.Args[1].intv(); ok && n == digits && exactFactors(unconv(t.Args[0]), X, fields) {
			return true
		}
	}
	var fs []*Term
	for _, f := range fields {
		fs = append(fs, mkField(X, f, nil))
	}
	if !t.contains(X) || t.any(func(x *Term) bool {
		return x.Op == "field" && x.Args[0] == X && !slices.Contains(fs, x)
	}) {
		return false
	}
	scale := math.Pow10(int(digits))
	var got, want []float64
	r := rand.New(rand.NewSource(1))
	for len(got) < 120 {
		w, p := newWorld(c.P), 1.0
		for _, f := range fs {
			v := float64(r.Intn(10001)) / 10000
			switch {
			case len(got)%40 == 0:
				v = 0
			case len(got)%3 == 0:
				v = float64(1+r.Intn(150)) / 10000
			case len(got)%3 == 1:
				v = 1 - float64(r.Intn(40))/10000
			}
			w.with(f, v)
			p *= v
		}
		if x := p * scale; math.Abs(x-math.Floor(x)-0.5) < 0.01 {
			continue
		}
		v, ok := w.eval(t).(float64)
		if !ok {
			return false
		}
		got, want = append(got, v), append(want, math.Round(p*scale))
	}
	for i := range got {
		if (got[i] > 0) != (want[i] > 0) || got[i] < 0 {
			return false
		}
		for k := range got[:i] {
			if (got[i] > got[k]) != (want[i] > want[k]) || (got[i] < got[k]) != (want[i] < want[k]) {
				return false
			}
		}
	}
	return true
}

// exactFactors reports whether t is the product of exactly the named fields
// of X.
func exactFactors(t, X *Term, fields []string) bool {
	want := map[string]int{}
	for _, f := range fields {
		want[f]++
	}
	for _, x := range factors(t) {
		if v, ok := x.intv(); ok && v == 1 {
			continue
		}
		if x.Op != "field" || x.Args[0] != X {
			return false
		}
		want[x.Aux]--
	}
	for _, n := range want {
		if n != 0 {
			return false
		}
	}
	return true
}

func ruleC14(c *Ctx) {
	c.Rule = "RVSA/1.0: every iteration of the scoring loop adds a record of its own representation with its source quality and the four qualities known on that path and a definiteness equal to no wildcard match and no absent header; the set is sorted once, stably, by the descending product of the five; the first is returned exactly where that product is known positive and its definiteness known true, nil otherwise."
	c.Trusted = trustedStd
	ch := c.chooser("transparent", "RVSA1", filterCfg(c.P))
	if ch == nil {
		return
	}
	f, rs := c.scoring(ch, rvsaDims)
	if f == nil {
		return
	}
	roles := c.roleFields(ch, rs, rvsaDims)
	for _, n := range append([]string{"rep", "source", "definite"}, rvsaDims...) {
		c.must(roles[n] != "", "", "no field of the records holds the %s of the iteration's own representation on every path", n)
	}
	if len(c.Viol) > 0 {
		return
	}
	def := 0
	for _, r := range rs {
		if !c.must(r.adds != nil, r.site, "a representation is not scored (%v)", sortedLits(r.st.order)) {
			continue
		}
		w := 0
		for _, n := range rvsaDims {
			q := r.quals[n]
			c.must(q.is(mkField(r.adds, roles[n], nil)), r.site, "the %s quality of a record is %v where it is %s %v (%v)", n, mkField(r.adds, roles[n], nil), q.state, q.q, sortedLits(r.st.order))
			if q.wild == 1 {
				w = 1
			} else if q.wild < 0 && w == 0 {
				w = -1
			}
		}
		d := mkField(r.adds, roles["definite"], nil)
		v := r.st.known(d)
		if w >= 0 {
			c.must(v == 1-w, r.site, "the record of a representation is definite: %s, where wildcards or absent headers were used: %s (%v)", tri(v), tri(w), sortedLits(r.st.order))
		} else {
			// decide every case of what the path leaves open.
			c.must(c.definiteCases(r, d), r.site, "the definiteness of a record is %v, which is not the absence of wildcard matches and absent headers (%v)", d, sortedLits(r.st.order))
		}
		def++
	}
	c.minimum(def, 80, "ways to score a representation")
	set := raw("fold", f.ID, f.Sym.Typ)
	X := raw("sym", "X", nil)
	five := []string{roles["source"]}
	for _, n := range rvsaDims {
		five = append(five, roles[n])
	}
	chosen, nothing := 0, 0
	for i := range ch.Outs {
		o := &ch.Outs[i]
		at := c.end(o)
		if _, e := retError(o); e == 1 {
			continue
		}
		v := o.Ret[0].strip()
		if o.St.known(mkBin("==", mkLen(set), tInt(0), nil)) == 1 || o.St.known(mkBin("==", mkLen(ch.Reps), tInt(0), nil)) == 1 {
			c.must(v.isNil(), at, "%v is chosen among no representations", v)
			continue
		}
		var sorts []*Event
		for _, ev := range o.St.trace {
			if ev.Kind == "sort" {
				sorts = append(sorts, ev)
			}
		}
		best, why := c.bestOf(o, set, sorts, func(k *Term) bool { return c.product(k, X, 5, five...) })
		if !c.must(best != nil, at, "the best representation is not determined: %s", why) {
			continue
		}
		// what is known about the best.
		pos, def := -1, o.St.known(mkField(best, roles["definite"], nil))
		for _, l := range o.St.order {
			a := l.Atom
			if a.Op == "bin" && a.Aux == "<" && isZero(a.Args[0]) && c.product(subst(a.Args[1], map[*Term]*Term{best: X}, map[*Term]*Term{}), X, 5, five...) {
				pos = b2i(l.Pol)
			}
			if a.Op == "bin" && a.Aux == "==" && isZero(a.Args[1]) && c.product(subst(a.Args[0], map[*Term]*Term{best: X}, map[*Term]*Term{}), X, 5, five...) {
				pos = b2i(!l.Pol)
			}
			if a.Op == "bin" && a.Aux == "<=" && isZero(a.Args[1]) && c.product(subst(a.Args[0], map[*Term]*Term{best: X}, map[*Term]*Term{}), X, 5, five...) {
				pos = b2i(!l.Pol)
			}
		}
		if v.isNil() {
			nothing++
			c.must(pos == 0 || def == 0, at, "nothing is chosen although the best representation may have a positive (%s) and definite (%s) score", tri(pos), tri(def))
		} else {
			chosen++
			c.must(pos == 1 && def == 1, at, "a representation is chosen although its score may not be positive (%s) or definite (%s)", tri(pos), tri(def))
			c.must(v == mkField(best, roles["rep"], nil), at, "%v is chosen rather than the first with the highest score", v)
		}
	}
	c.minimum(chosen, 1, "ways to choose")
	c.minimum(nothing, 2, "ways to choose nothing")
	c.sample("%d scoring paths, %d/%d ways to choose something/nothing, record fields %v", def, chosen, nothing, roles)
}

func isZero(t *Term) bool {
	v, ok := unconv(t).intv()
	return ok && v == 0
}

// definiteCases checks a definiteness that is computed rather than branched
// on, over all cases of the wildcards left open.
func (c *Ctx) definiteCases(r ranked, d *Term) bool {
	var atoms []*Term
	for _, n := range rvsaDims {
		q := r.quals[n]
		if q.wild >= 0 || q.rng == nil {
			if q.state == "" {
				return false
			}
			continue
		}
		if n == "type" {
			atoms = append(atoms, mkBin("==", c.accessor("internal/header", "MediaRange", "Type", q.rng), tStr("*"), nil), mkBin("==", c.accessor("internal/header", "MediaRange", "SubType", q.rng), tStr("*"), nil))
		} else if w := c.accessor("internal/header", dims[n].rtyp, "IsWildcard", q.rng); w != nil {
			atoms = append(atoms, w)
		} else {
			return false
		}
	}
	for m := 0; m < 1<<len(atoms); m++ {
		st := r.st.clone()
		ok := true
		for i, a := range atoms {
			ok = ok && st.assume(a, m>>i&1 == 1)
		}
		if !ok {
			continue
		}
		w := 0
		for _, n := range rvsaDims {
			q := r.quals[n]
			x := q.wild
			if x < 0 {
				x = c.wild(dims[n], q.rng, st)
			}
			if x != 0 {
				w = 1
			}
		}
		if st.known(d) != 1-w {
			return false
		}
	}
	return true
}

// copied is the list that t has the elements of.
func copied(t *Term) *Term {
	for t.Op == "append" && (t.Args[0].isNil() || mkLen(t.Args[0]) == tInt(0)) {
		t = t.Args[1]
	}
	return t
}

// bestIndex recognizes a traversal that keeps the index of the first element
// of set with the greatest key.
func bestIndex(l *Loop, set, X *Term, isKey func(*Term) bool) *Term {
	for _, f := range l.Folds {
		if f.Init != tInt(0) || len(f.Next) == 0 || l.Idx == nil {
			continue
		}
		for _, pos := range []*Term{l.Pos, l.Idx, mkBin("+", l.Idx, tInt(1), nil)} {
			if pos == nil || pos == l.Pos && l.Coll != set {
				continue
			}
			ok := true
			cur, own := mkIndex(set, f.Sym, nil), mkIndex(set, pos, nil)
			for i, nx := range f.Next {
				st := factState(l.Iters[i].Conds)
				in, gt := l.Pos == pos || st.known(mkBin("<", pos, mkLen(set), nil)) == 1, -1
				for _, lt := range st.order {
					a := lt.Atom
					if a.Op == "bin" && a.Aux == "<" && a.Args[0].contains(cur) && a.Args[1].contains(own) {
						x := subst(a.Args[0], map[*Term]*Term{cur: X}, map[*Term]*Term{})
						if isKey(x) && x == subst(a.Args[1], map[*Term]*Term{own: X}, map[*Term]*Term{}) {
							gt = b2i(lt.Pol)
						}
					}
				}
				ok = ok && in && (gt == 1 && nx == pos || gt == 0 && nx == f.Sym)
			}
			if ok {
				return mkIndex(set, raw("fold", f.ID, f.Sym.Typ), nil)
			}
		}
	}
	return nil
}

// bestOf finds the element that a path takes for the first with the greatest
// key.
func (c *Ctx) bestOf(o *Outcome, set *Term, sorts []*Event, isKey func(*Term) bool) (*Term, string) {
	if len(sorts) == 1 {
		ev := sorts[0]
		if copied(ev.Args[2]) != set {
			return nil, "sorted is " + ev.Args[2].String()
		}
		if !stableSort(ev) {
			return nil, "the sort is not stable"
		}
		k, desc, why := c.keyOf(ev)
		if why != "" {
			return nil, why
		}
		if !desc || !isKey(k) {
			return nil, "sorted by " + k.String()
		}
		return mkIndex(ev.Res, tInt(0), nil), ""
	}
	if len(sorts) > 1 {
		return nil, "sorted more than once"
	}
	// a traversal that keeps the greatest.
	X := raw("sym", "X", nil)
	for _, ev := range o.St.trace {
		if ev.Kind != "loop" || ev.ExitKind != "normal" || ev.Loop.Rev {
			continue
		}
		l := ev.Loop
		if b := bestIndex(l, set, X, isKey); b != nil {
			return b, ""
		}
		if l.Pos == nil {
			continue
		}
		for _, f := range l.Folds {
			own := mkIndex(l.Coll, l.Pos, nil)
			first := mkIndex(set, tInt(0), nil)
			from0 := l.Coll == set
			rest := l.Coll != nil && l.Coll.Op == "slice" && l.Coll.Args[0] == set
			if !(from0 || rest) || f.Init != first {
				continue
			}
			ok := len(f.Next) > 0
			for i, nx := range f.Next {
				st := factState(l.Iters[i].Conds)
				gt := -1
				for _, lt := range st.order {
					a := lt.Atom
					if a.Op == "bin" && a.Aux == "<" {
						x := subst(a.Args[0], map[*Term]*Term{f.Sym: X}, map[*Term]*Term{})
						y := subst(a.Args[1], map[*Term]*Term{own: X}, map[*Term]*Term{})
						if isKey(x) && x == y {
							gt = b2i(lt.Pol)
						}
					}
				}
				ok = ok && (gt == 1 && nx == own || gt == 0 && nx == f.Sym)
			}
			if ok {
				return raw("fold", f.ID, f.Sym.Typ), ""
			}
		}
	}
	return nil, "no sort and no traversal that keeps the greatest"
}
