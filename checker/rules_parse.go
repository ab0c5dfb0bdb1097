package main

import (
	"math"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C16"] = ruleC16
}

const hdrRel = "internal/header"

// rangeCtor is a constructor of one element of a header.
type rangeCtor struct {
	fn, typ string
	list    string
}

var rangeCtors = []rangeCtor{
	{"NewMediaRange", "MediaRange", "NewAccept"},
	{"NewCharsetRange", "CharsetRange", "NewAcceptCharset"},
	{"NewContentCodingRange", "ContentCodingRange", "NewAcceptEncoding"},
	{"NewLanguageRange", "LanguageRange", "NewAcceptLanguage"},
}

const (
	// what the weighted elements of a header must at least and at most be;
	// the weight is not told apart by its range.
	lowerElem = `^[!#$%&'*+\-.^_\x60|~0-9A-Za-z]+([ \t]*;[ \t]*[qQ]=(0(\.[0-9]{0,3})?|1(\.0{0,3})?))?$`
	upperElem = `^[^\s;,="]+(\s*;\s*[qQ]\s*=\s*[0-9]*\.?[0-9]*\s*)?$`
	numeric   = `^([0-9]+(\.[0-9]*)?|\.[0-9]+)$`
)

func ruleC16(c *Ctx) {
	c.Rule = "(a) NewQualityValue evaluated over regions of its argument (negative, 0 to 1, greater, not a number, infinite) succeeds exactly between 0 and 1 and then provides its argument; (b) on every path of an element's constructor that succeeds, the quality is 1 with the weight known absent, or the checked NewQualityValue of the checked ParseFloat of the whole weight; regular expressions are compared with the grammar by inclusion of automata; (c) the constructors of lists return every element's failure; Accept-Language pairs each tag with its own weight."
	c.Trusted = trustedStd
	c.qualityDomain()
	n := 0
	for _, k := range rangeCtors {
		for _, f := range c.P.readersOf(k.typ) {
			k.fn = f.Name()
			n += c.elementWeights(k)
		}
	}
	c.minimum(n, 9, "paths that give an element its quality")
	lists := 0
	for _, k := range rangeCtors {
		if k.list == "NewAcceptLanguage" {
			c.languageWeights()
			lists++
			continue
		}
		lists += c.listErrors(k)
	}
	c.minimum(lists, 4, "constructors of weighted lists")
}

// floatRegions represent the values of a weight.
var floatRegions = []float64{math.Inf(-1), -1000, -1, -0.5, -0.0001, 0, 0.0001, 0.001, 0.5, 0.999, 1, 1.0001, 1.001, 1.5, 2, 5, 10, 1000, math.Inf(1), math.NaN()}

// holdsF is holds with the predicates of floating point numbers.
func holdsF(t *Term, env map[*Term]float64) int {
	if t.Op == "not" {
		if v := holdsF(t.Args[0], env); v >= 0 {
			return 1 - v
		}
		return -1
	}
	if t.Op == "call" && len(t.Args) > 0 {
		v, ok := number(t.Args[0], env)
		if ok {
			switch t.Aux {
			case "math.IsNaN":
				return b2i(math.IsNaN(v))
			case "math.IsInf":
				if len(t.Args) == 2 {
					if k, ok := t.Args[1].intv(); ok {
						return b2i(math.IsInf(v, int(k)))
					}
				}
			}
		}
	}
	return holds(t, env)
}

func (c *Ctx) qualityDomain() {
	f := c.P.fun(hdrRel, "NewQualityValue")
	outs := c.run(f, atAnchors(c.P), nil, nil)
	if outs == nil {
		return
	}
	q := rootParams(f)[0]
	for _, r := range floatRegions {
		env := map[*Term]float64{q: r}
		in := r >= 0 && r <= 1
		hit := 0
		for i := range outs {
			o := &outs[i]
			fits := true
			for _, l := range o.St.order {
				h := holdsF(l.Atom, env)
				if !c.must(h >= 0, c.end(o), "NewQualityValue: depends on %s", l.Atom) {
					return
				}
				if (h == 1) != l.Pol {
					fits = false
					break
				}
			}
			if !fits {
				continue
			}
			hit++
			if !c.must(o.Panic == nil && len(o.Ret) == 2, c.end(o), "NewQualityValue(%v) does not return", r) {
				continue
			}
			_, k := retError(o)
			if in {
				c.must(k == 0, c.end(o), "NewQualityValue(%v) is refused", r)
				v, ok := number(unconv(o.Ret[0]), env)
				c.must(ok && v == r, c.end(o), "NewQualityValue(%v) is %s", r, o.Ret[0])
			} else {
				c.must(k == 1, c.end(o), "NewQualityValue(%v) is accepted", r)
			}
		}
		c.must(hit == 1, c.P.posn(f.Pos()), "NewQualityValue(%v): %d paths", r, hit)
	}
	// reading it back.
	for _, m := range []string{"Float"} {
		g := c.P.method(hdrRel, "QualityValue", m)
		if g == nil {
			continue
		}
		r := rootParams(g)[0]
		for _, o := range c.run(g, atAnchors(c.P), nil, nil) {
			c.must(len(o.Ret) == 1 && unconv(o.Ret[0]) == r, c.end(&o), "QualityValue.%s changes the value to %v", m, show(o.Ret))
		}
	}
}

// weighing knows how the text of an element is taken apart.
type weighing struct {
	c  *Ctx
	k  rangeCtor
	s  *Term
	re map[*Term]*reInfo
}

type reInfo struct {
	re    *syntax.Regexp
	quest *syntax.Regexp // the optional part with the weight
	why   string
}

func trimmed(t *Term) *Term {
	for t.Op == "call" && (t.Aux == "strings.TrimSpace" || t.Aux == "strings.Trim" && isStrAny(t.Args[1], " ", " \t", "\t ")) {
		t = t.Args[0]
	}
	return t
}

func (w *weighing) isInput(t *Term) bool { return trimmed(t) == w.s }

// rest reports whether t is what follows the first semicolon of the element.
func (w *weighing) rest(t *Term) bool {
	t = trimmed(t)
	if t.Op == "res" && t.Aux == "1" && isCall(t.Args[0], "strings.Cut") {
		return w.isInput(t.Args[0].Args[0]) && isStr(t.Args[0].Args[1], ";")
	}
	if t.Op == "index" {
		if n, ok := t.Args[1].intv(); ok && n == 1 {
			return w.split(t.Args[0])
		}
	}
	return false
}

func (w *weighing) split(t *Term) bool {
	return t.Op == "call" && (t.Aux == "strings.Split" || t.Aux == "strings.SplitN") && w.isInput(t.Args[0]) && isStr(t.Args[1], ";")
}

// group is the regular expression and number if t is a group of a match of
// the element.
func (w *weighing) group(t *Term) (*Term, int) {
	if t.Op != "index" || !isCall(t.Args[0], "(*regexp.Regexp).FindStringSubmatch") || !w.isInput(t.Args[0].Args[1]) {
		return nil, 0
	}
	n, ok := t.Args[1].intv()
	if !ok {
		return nil, 0
	}
	return t.Args[0].Args[0], int(n)
}

// info analyses the expression that takes an element apart.
func (w *weighing) info(re *Term) *reInfo {
	if i, ok := w.re[re]; ok {
		return i
	}
	i := &reInfo{}
	w.re[re] = i
	v := re
	if v.Op == "gval" {
		v = newEngine(w.c.P, Cfg{}).staticOf(re)
	}
	if v == nil || v.Op != "call" || !isCall(v, "regexp.MustCompile") {
		i.why = "the expression " + re.String() + " is not known"
		return i
	}
	src, ok := v.Args[0].str()
	if ok {
		i.re = parseRe(src)
	}
	if i.re == nil {
		i.why = "the expression " + re.String() + " is not known"
		return i
	}
	n := nfaOf(i.re, false)
	if ok, x := subsetOf(nfaOf(parseRe(lowerElem), false), n); !ok {
		i.why = "the expression " + re.String() + " refuses " + quoted(x)
		return i
	}
	if ok, x := subsetOf(n, nfaOf(parseRe(upperElem), false)); !ok {
		i.why = "the expression " + re.String() + " accepts " + quoted(x)
		return i
	}
	// the one optional part.
	var find func(r *syntax.Regexp)
	find = func(r *syntax.Regexp) {
		if r.Op == syntax.OpQuest {
			if ok, _ := subsetOf(nfaOf(without(i.re, r), false), nfaOf(parseRe(`^[^;]*$`), false)); ok && i.quest == nil {
				i.quest = r
			}
			return
		}
		for _, s := range r.Sub {
			find(s)
		}
	}
	find(i.re)
	if i.quest == nil {
		i.why = "the weight is not an optional part of the expression " + re.String()
	}
	return i
}

func quoted(s string) string { return `"` + strings.ReplaceAll(s, `"`, `\"`) + `"` }

// always reports whether group k takes part, and is not empty, exactly when
// the weight does.
func (i *reInfo) always(k int) bool {
	if i.quest == nil {
		return false
	}
	path := capture(i.quest, k)
	if path == nil {
		return false
	}
	for _, r := range path[1:] {
		switch r.Op {
		case syntax.OpQuest, syntax.OpStar, syntax.OpAlternate:
			return false
		case syntax.OpRepeat:
			if r.Min == 0 {
				return false
			}
		}
	}
	return nonEmptyRe(path[len(path)-1])
}

// wholeWeight reports whether group k is the whole number of the weight.
func (i *reInfo) wholeWeight(k int) bool {
	if !i.always(k) {
		return false
	}
	path := capture(i.re, k)
	g := path[len(path)-1]
	if ok, _ := subsetOf(nfaOf(g, true), nfaOf(parseRe(numeric), true)); !ok {
		return false
	}
	mark := replaceRe(mandatory(i.re, i.quest), g, &syntax.Regexp{Op: syntax.OpLiteral, Rune: []rune{1}})
	ok, _ := subsetOf(nfaOf(mark, false), nfaOf(parseRe(`^[^;=\x01]+;\s*[qQ]\s*=\s*\x01\s*$`), false))
	return ok
}

func replaceRe(r, part, by *syntax.Regexp) *syntax.Regexp {
	if r == part {
		return by
	}
	c := *r
	c.Sub = make([]*syntax.Regexp, len(r.Sub))
	for i, s := range r.Sub {
		c.Sub[i] = replaceRe(s, part, by)
	}
	return &c
}

// params are the parameters of the element.
func (w *weighing) params() *Term {
	return mkRes(mkCall("mime.ParseMediaType", nil, w.s), "1", nil)
}

// present tells what a fact says about there being a weight: 1 present, 0
// absent, -1 nothing.
func (w *weighing) present(l Lit, st *State) int {
	t, pol := l.Atom, l.Pol
	is := func(p bool) int { return b2i(p) }
	switch {
	case t.Op == "has" && t == mkHas(w.params(), tStr("q")):
		return is(pol)
	case t.Op == "bin" && t.Aux == "==" && t.Args[0].Op == "len" && t.Args[1] == tInt(0):
		if re, k := w.group(t.Args[0].Args[0]); re != nil && w.info(re).why == "" && w.info(re).always(k) {
			return is(!pol)
		}
	case t.Op == "call" && t.Aux == "strings.HasPrefix" && w.rest(t.Args[0]) && isStrAny(t.Args[1], "q="):
		if trimmed(t.Args[0]) == t.Args[0] {
			return -1 // blanks may precede the weight
		}
		return is(pol)
	case t.Op == "res" && t.Aux == "1" && isCall(t.Args[0], "strings.CutPrefix") && w.rest(t.Args[0].Args[0]) && isStrAny(t.Args[0].Args[1], "q="):
		return is(pol)
	case t.Op == "res" && t.Aux == "2" && isCall(t.Args[0], "strings.Cut") && w.isInput(t.Args[0].Args[0]) && isStr(t.Args[0].Args[1], ";"):
		if !pol {
			return 0
		}
	case t.Op == "call" && t.Aux == "strings.Contains" && w.isInput(t.Args[0]) && isStr(t.Args[1], ";"):
		if !pol {
			return 0
		}
	case t.Op == "call" && t.Aux == "strings.EqualFold" && (isStr(t.Args[0], "q") && w.weightName(t.Args[1]) || isStr(t.Args[1], "q") && w.weightName(t.Args[0])):
		return is(pol)
	case t.Op == "bin" && t.Aux == "==" && isStr(t.Args[1], "q") && w.weightName(t.Args[0]):
		return is(pol)
	case t.Op == "bin" && t.Args[0].Op == "len" && w.split(t.Args[0].Args[0]):
		if _, hi, _, _ := st.bounds(t.Args[0]); hi <= 1 {
			return 0
		}
	}
	return -1
}

// weightName reports whether t is what precedes the "=" of the weight.
func (w *weighing) weightName(t *Term) bool {
	t = trimmed(t)
	return t.Op == "res" && t.Aux == "0" && isCall(t.Args[0], "strings.Cut") && w.rest(t.Args[0].Args[0]) && isStr(t.Args[0].Args[1], "=")
}

func (w *weighing) presence(st *State) int {
	r := -1
	for _, l := range st.order {
		if p := w.present(l, st); p >= 0 {
			r = p
		}
	}
	return r
}

// isWeight reports whether t is the whole text of the weight; checked tells
// whether it is known to be a number.
func (w *weighing) isWeight(t *Term) (ok, checked bool) {
	if t == mkLookup(w.params(), tStr("q"), nil) {
		return true, false
	}
	if re, k := w.group(t); re != nil {
		i := w.info(re)
		return i.why == "" && i.wholeWeight(k), true
	}
	t = trimmed(t)
	switch {
	case t.Op == "call" && t.Aux == "strings.TrimPrefix" && w.rest(t.Args[0]) && isStr(t.Args[1], "q="):
		return true, false
	case t.Op == "res" && t.Aux == "0" && isCall(t.Args[0], "strings.CutPrefix") && w.rest(t.Args[0].Args[0]) && isStr(t.Args[0].Args[1], "q="):
		return true, false
	case t.Op == "res" && t.Aux == "1" && isCall(t.Args[0], "strings.Cut") && w.rest(t.Args[0].Args[0]) && isStr(t.Args[0].Args[1], "="):
		return true, false
	case t.Op == "slice" && w.rest(t.Args[0]) && t.Args[2].Aux == "none":
		n, ok := t.Args[1].intv()
		return ok && n == 2, false
	}
	return false, false
}

// parsed recognizes the checked number of the weight: ParseFloat's result.
func (w *weighing) parsed(t *Term, st *State) string {
	call, ok := resOf(unconv(t), "0", "strconv.ParseFloat")
	if !ok {
		return "the quality " + t.String() + " is not the number that the weight says"
	}
	is, checked := w.isWeight(call.Args[0])
	if !is {
		if re, _ := w.group(call.Args[0]); re != nil && w.info(re).why != "" {
			return w.info(re).why
		}
		return call.Args[0].String() + " is not the whole weight of the element"
	}
	if !checked && st.known(errNil(mkRes(call, "1", nil))) != 1 {
		return "the failure to read the weight is ignored"
	}
	return ""
}

func (c *Ctx) elementWeights(k rangeCtor) int {
	f := c.P.fun(hdrRel, k.fn)
	outs := c.run(f, Cfg{Opaque: func(g *ssa.Function) bool { return anchors[c.P.fkey(g)] && c.P.reads(g) != k.typ }}, nil, nil)
	if outs == nil {
		return 0
	}
	w := &weighing{c: c, k: k, s: rootParams(f)[0], re: map[*Term]*reInfo{}}
	if k.typ == "ContentCodingRange" {
		c.codingsAccepted(k, f, outs)
	}
	n := 0
	kinds := map[string]int{}
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		if !c.must(o.Panic == nil && len(o.Ret) == 2, at, "%s does not return", k.fn) {
			continue
		}
		_, e := retError(o)
		if !c.must(e >= 0, at, "%s: whether it fails is not determined", k.fn) {
			continue
		}
		pres := w.presence(o.St)
		if e == 1 {
			c.refusal(w, o, pres)
			continue
		}
		n++
		v := c.accessor(hdrRel, k.typ, "QualityValue", o.Ret[0])
		if !c.must(v != nil, at, "%s: the quality of %s is not determined", k.fn, o.Ret[0]) {
			continue
		}
		// nothing that failed is passed over.
		for _, ev := range o.St.trace {
			er := errOf(ev)
			if er == nil || isCall(ev.Res, "strconv.ParseFloat") || o.St.known(errNil(er)) == 1 {
				continue
			}
			if isCall(ev.Res, "golang.org/x/text/language.Parse") && starKnown(o.St, ev.Args[0]) == 1 {
				continue
			}
			c.must(false, at, "%s: the failure of %s is ignored", k.fn, ev.Key)
		}
		for _, l := range o.St.order {
			l.Atom.any(func(t *Term) bool {
				if re, _ := w.group(t); re != nil {
					why := w.info(re).why
					c.must(why == "", at, "%s: %s", k.fn, why)
					c.must(o.St.known(mkCall("(*regexp.Regexp).MatchString", nil, re, t.Args[0].Args[1])) == 1 ||
						o.St.known(mkBin("==", t.Args[0], tNil, nil)) == 0, at, "%s: the element is not known to match %s", k.fn, re)
				}
				return false
			})
		}
		if q, ok := resOf(v, "0", "~/internal/header.NewQualityValue"); ok {
			kinds["weight"]++
			c.must(o.St.known(errNil(mkRes(q, "1", nil))) == 1, at, "%s: a quality that NewQualityValue refuses is used", k.fn)
			why := w.parsed(q.Args[0], o.St)
			c.must(why == "", at, "%s: %s", k.fn, why)
			c.must(pres == 1, at, "%s: a weight is read where there may be none", k.fn)
			c.sample("%s: quality %s", k.fn, v)
			continue
		}
		one, ok := v.intv()
		kinds["default"]++
		c.must(ok && one == 1, at, "%s: the quality of an element is %s", k.fn, v)
		c.must(pres == 0, at, "%s: the quality is %s where a weight may be given", k.fn, v)
		c.sample("%s: quality %s without a weight", k.fn, v)
	}
	c.must(kinds["weight"] > 0 && kinds["default"] > 0, c.P.posn(f.Pos()), "%s does not tell elements with and without a weight apart", k.fn)
	return n
}

// codingsAccepted checks that the codings known are accepted in any case.
func (c *Ctx) codingsAccepted(k rangeCtor, f *ssa.Function, outs []Outcome) {
	s := rootParams(f)[0]
	for _, name := range []string{"gzip", "x-gzip", "deflate", "compress", "x-compress", "identity"} {
		for _, text := range []string{name, strings.ToUpper(name), strings.ToUpper(name[:1]) + name[1:]} {
			w := newWorld(c.P).with(s, text)
			accepts, refuses, at := 0, 0, ""
			for i := range outs {
				if h, _ := w.fits(&outs[i], nil); h == 0 {
					continue
				}
				if _, e := retError(&outs[i]); e == 1 {
					refuses, at = refuses+1, c.end(&outs[i])
				} else {
					accepts++
				}
			}
			c.must(refuses == 0 || accepts > 0, at, "%s: refuses %s", k.fn, text)
			if accepts > 0 && refuses > 0 {
				c.sample("%s: whether %s is refused is decided by structure", k.fn, text)
			}
		}
	}
}

// starKnown is whether the path knows that the range is "*".
func starKnown(st *State, r *Term) int {
	for _, t := range []*Term{r, foldCase(r)} {
		if k := st.known(mkCall("strings.EqualFold", nil, t, tStr("*"))); k >= 0 {
			return k
		}
		if k := st.known(mkBin("==", t, tStr("*"), nil)); k >= 0 {
			return k
		}
	}
	return -1
}

// refusal checks that a path that fails has a reason to.
func (c *Ctx) refusal(w *weighing, o *Outcome, pres int) {
	at := c.end(o)
	st := o.St
	for _, l := range st.order {
		t := l.Atom
		switch {
		case t.Op == "bin" && t.Aux == "==" && t.Args[0].Op == "len" && t.Args[1] == tInt(0) && l.Pol && w.isInput(t.Args[0].Args[0]):
			return
		case isCall(t, "(*regexp.Regexp).MatchString") && !l.Pol && w.isInput(t.Args[1]):
			why := w.info(t.Args[0]).why
			c.must(why == "", at, "%s: %s", w.k.fn, why)
			return
		case t.Op == "bin" && t.Aux == "==" && t.Args[1].isNil() && l.Pol && isCall(t.Args[0], "(*regexp.Regexp).FindStringSubmatch") && w.isInput(t.Args[0].Args[1]):
			why := w.info(t.Args[0].Args[0]).why
			c.must(why == "", at, "%s: %s", w.k.fn, why)
			return
		}
	}
	for _, ev := range st.trace {
		er := errOf(ev)
		if er == nil || st.known(errNil(er)) != 0 {
			continue
		}
		switch {
		case isCall(ev.Res, "mime.ParseMediaType"):
			return
		case isCall(ev.Res, "golang.org/x/text/language.Parse"):
			if starKnown(st, ev.Args[0]) == 0 {
				return
			}
		case isCall(ev.Res, "strconv.ParseFloat"):
			is, _ := w.isWeight(ev.Args[0])
			c.must(is && pres == 1, at, "%s: an element without a weight is refused for %s", w.k.fn, ev.Args[0])
			return
		case isCall(ev.Res, "~/internal/header.NewQualityValue"):
			why := ""
			if call, ok := resOf(unconv(ev.Args[0]), "0", "strconv.ParseFloat"); ok {
				is, _ := w.isWeight(call.Args[0])
				if !is {
					why = call.Args[0].String() + " is not the whole weight"
				}
			} else {
				why = ev.Args[0].String() + " is not the weight"
			}
			c.must(why == "" && pres == 1, at, "%s: an element is refused for a weight it does not have (%s)", w.k.fn, why)
			return
		}
	}
	if w.k.typ == "ContentCodingRange" {
		// a coding that is not among those known.
		for _, l := range st.order {
			if !l.Pol && l.Atom.any(func(t *Term) bool { re, g := w.group(t); return re != nil && g > 0 }) && l.Atom.Op != "bin" {
				return
			}
		}
		for _, q := range st.quants {
			if q.Loop != nil {
				return
			}
		}
	}
	c.must(false, at, "%s: refuses an element without a reason known (%s)", w.k.fn, c.facts(o))
}

// listErrors checks that the constructor of a list returns the failure of any
// element, and only those.
func (c *Ctx) listErrors(k rangeCtor) int {
	f := c.P.fun(hdrRel, k.list)
	outs := c.run(f, c.atElements(), nil, nil)
	if outs == nil {
		return 0
	}
	h := rootParams(f)[0]
	n := 0
	for i := range outs {
		o := &outs[i]
		er, e := retError(o)
		c.must(e >= 0, c.end(o), "%s: whether it fails is not determined", k.list)
		if e == 1 {
			ok := c.readFails(k.typ, er)
			c.must(ok, c.end(o), "%s: refuses the header without a reason known (%s)", k.list, er)
		}
		if e != 0 || isKnownEmpty(o.St, h) && c.emptyHeader(o) {
			continue
		}
		n = 1
		coll := c.elementsIn(o, h)
		ok := coll != nil && collects(listOf(o.Ret[0]), coll, func(l *Loop, el *Term) bool { return c.readElement(k.typ, l, el) })
		c.must(ok, c.end(o), "%s: the header is not made of every element, each read without failure, but is %s", k.list, o.Ret[0])
	}
	return n
}
