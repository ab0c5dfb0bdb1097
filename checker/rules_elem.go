package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C17"] = ruleC17
}

// isSplitter recognizes functions from the lines of a header to its elements.
func (p *Prog) isSplitter(f *ssa.Function) bool {
	s := f.Signature
	if f.Pkg == nil || f.Pkg.Pkg.Path() != Mod+"/"+hdrRel || s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 1 {
		return false
	}
	str := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && isString(sl.Elem())
	}
	return str(s.Params().At(0).Type()) && types.Identical(s.Results().At(0).Type(), types.NewSlice(types.Typ[types.String]))
}

// isReader recognizes functions from the text of an element to the element.
func (p *Prog) isReader(f *ssa.Function) bool { return p.reads(f) != "" }

// reads is the type of element that a reader provides.
func (p *Prog) reads(f *ssa.Function) string {
	s := f.Signature
	if f.Pkg == nil || f.Pkg.Pkg.Path() != Mod+"/"+hdrRel || s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 2 {
		return ""
	}
	n, ok := s.Results().At(0).Type().(*types.Named)
	if !ok || !isString(s.Params().At(0).Type()) || !isErrorType(s.Results().At(1).Type()) {
		return ""
	}
	return n.Obj().Name()
}

// readersOf are the functions that read elements of a type.
func (p *Prog) readersOf(typ string) []*ssa.Function {
	var fs []*ssa.Function
	for _, f := range p.headerFuncs() {
		if p.reads(f) == typ {
			fs = append(fs, f)
		}
	}
	return fs
}

// atElements keeps anchors, splitters and readers opaque.
func (c *Ctx) atElements() Cfg {
	return Cfg{NoUnroll: true, Opaque: func(f *ssa.Function) bool {
		return anchors[c.P.fkey(f)] || c.P.isSplitter(f) || c.P.isReader(f)
	}}
}

// elementsOf decides whether t is the list of the elements of the lines h, and
// provides the reason if not.
func (c *Ctx) elementsOf(t, h *Term) string {
	if t.Op == "call" && len(t.Args) == 1 && t.Args[0] == h {
		for _, f := range c.P.headerFuncs() {
			if c.P.isSplitter(f) && isCall(t, c.P.fkey(f)) {
				return c.splitterOK(f)
			}
		}
	}
	if foldOf(t) != nil {
		return c.splitsLines(t, h)
	}
	return t.String() + " is not the list of the elements"
}

// headerFuncs are the functions of the header package.
func (p *Prog) headerFuncs() []*ssa.Function {
	var fs []*ssa.Function
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() != Mod+"/"+hdrRel {
			continue
		}
		for _, m := range pk.Members {
			if f, ok := m.(*ssa.Function); ok && f.Blocks != nil {
				fs = append(fs, f)
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}

func (c *Ctx) splitterOK(f *ssa.Function) string {
	if c.splitters == nil {
		c.splitters = map[*ssa.Function]string{}
	}
	if w, ok := c.splitters[f]; ok {
		return w
	}
	why := ""
	for _, o := range c.run(f, Cfg{NoUnroll: true, Opaque: atAnchors(c.P).Opaque}, nil, nil) {
		if o.Panic != nil || len(o.Ret) != 1 {
			why = f.Name() + " does not return"
			break
		}
		h := rootParams(f)[0]
		if isKnownEmpty(o.St, h) && mkLen(o.Ret[0]) == tInt(0) {
			continue
		}
		if w := c.splitsLines(o.Ret[0], h); w != "" {
			why = w
			break
		}
	}
	c.splitters[f] = why
	return why
}

// splitsLines decides whether t is made of the elements of every line of h.
func (c *Ctx) splitsLines(t, h *Term) string {
	f := foldOf(t)
	if f == nil || f.Loop.Coll != h || f.Loop.Rev || f.Loop.Pos == nil {
		return "the lines of the header are not traversed one by one: " + t.String()
	}
	if mkLen(f.Init) != tInt(0) {
		return "the list of elements does not start empty"
	}
	for _, x := range f.Loop.Exits {
		if x.Kind != "normal" {
			return "not every line is visited"
		}
	}
	value := mkIndex(h, f.Loop.Pos, nil)
	for i, nx := range f.Next {
		st := factState(f.Loop.Iters[i].Conds)
		if why := c.splitsLine(nx, f.Sym, value, st); why != "" {
			return why
		}
	}
	if len(f.Next) == 0 {
		return "no line is taken"
	}
	return ""
}

// noComma reports whether the path knows that the line has no comma.
func noComma(st *State, value *Term) bool {
	if st.known(mkCall("strings.Contains", types.Typ[types.Bool], value, tStr(","))) == 0 {
		return true
	}
	for _, fn := range []string{"strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.LastIndex"} {
		for _, sep := range []*Term{tStr(","), tInt(',')} {
			x := raw("call", fn, nil, value, sep)
			if st.known(mkBin("==", x, tInt(-1), nil)) == 1 || st.known(mkBin("<", x, tInt(0), nil)) == 1 {
				return true
			}
		}
	}
	n := raw("call", "strings.Count", nil, value, tStr(","))
	return st.known(mkBin("==", n, tInt(0), nil)) == 1 || st.known(mkBin("<", n, tInt(1), nil)) == 1
}

// splitsLine decides whether t is base followed by the elements of one line.
func (c *Ctx) splitsLine(t, base, value *Term, st *State) string {
	if t == base {
		// nothing in it.
		if isKnownEmpty(st, value) || isKnownEmpty(st, mkCall("strings.TrimSpace", nil, value)) {
			return ""
		}
		return "a line is passed over"
	}
	if t.Op == "append" && t.Args[0] == base {
		x := t.Args[1]
		if x.Op == "list" && len(x.Args) == 1 && trimmed(x.Args[0]) == value && noComma(st, value) {
			return ""
		}
		if foldOf(x) != nil {
			return c.splitsLine(x, tNil, value, st)
		}
		if x.Op == "list" && len(x.Args) == 1 || x.Op == "append" {
			return c.lineTail(t, base, value, st)
		}
		return "an element " + x.String() + " is not taken from its line as a whole"
	}
	return c.lineTail(t, base, value, st)
}

// lineTail handles the element after the last comma.
func (c *Ctx) lineTail(t, base, value *Term, st *State) string {
	f := foldOf(t)
	var last *Term
	if t.Op == "append" && t.Args[1].Op == "list" && len(t.Args[1].Args) == 1 {
		f, last = foldOf(t.Args[0]), t.Args[1].Args[0]
	}
	if f == nil {
		return "the elements of a line are " + t.String()
	}
	if f.Init != base && !(base.isNil() && mkLen(f.Init) == tInt(0)) {
		return "elements of earlier lines are lost"
	}
	s := &scan{c: c, f: f, l: f.Loop, value: value}
	if why := s.roles(); why != "" {
		return why
	}
	if why := s.simulate(); why != "" {
		return why
	}
	if s.inclusive {
		if last != nil {
			return "the rest of a line is taken twice"
		}
		return ""
	}
	// what is left after the traversal.
	rest := func(x *Term) bool {
		x = trimmed(x)
		return x.Op == "slice" && x.Args[0] == value && x.Args[1] == raw("fold", s.start.ID, s.start.Sym.Typ) &&
			(x.Args[2].Aux == "none" || x.Args[2] == mkLen(value))
	}
	if last != nil {
		if !rest(last) {
			return "the last element is " + last.String()
		}
		return ""
	}
	for _, l := range st.order {
		if l.Atom.Op == "bin" && l.Atom.Aux == "==" && l.Atom.Args[0].Op == "len" && l.Atom.Args[1] == tInt(0) && l.Pol && rest(l.Atom.Args[0].Args[0]) {
			return ""
		}
	}
	return "the element after the last comma is lost"
}

// scan is a traversal of the characters of a line.
type scan struct {
	c         *Ctx
	f         *Fold
	l         *Loop
	value     *Term
	pos       *Term
	start     *Fold
	flags     []*Fold
	inclusive bool // the traversal includes the position after the last
}

func (s *scan) roles() string {
	switch {
	case s.l.KeyT != nil && !s.l.IsMap:
		s.pos = s.l.KeyT
	case s.l.Coll == s.value || s.l.Bound == mkLen(s.value):
		s.pos = s.l.Pos
	default:
		s.pos, s.inclusive = s.l.Idx, true
	}
	if s.l.Rev {
		return "the line is traversed backwards"
	}
	for _, x := range s.l.Exits {
		if x.Kind != "normal" {
			return "the traversal of a line can be cut short"
		}
	}
	for _, f := range s.l.Folds {
		switch {
		case f == s.f:
		case isBool(f.Sym.Typ):
			if !f.Init.isTrue() && !f.Init.isFalse() {
				return "the traversal of a line starts in an unknown state"
			}
			s.flags = append(s.flags, f)
		default:
			if n, ok := f.Init.intv(); ok && n == 0 && s.start == nil {
				s.start = f
			}
		}
	}
	if s.start == nil {
		return "where an element starts is not remembered"
	}
	return ""
}

// cond evaluates a condition of the traversal: 1, 0, or -1 if it is not known.
func (s *scan) cond(t *Term, ch byte, end, blank bool, st map[*Term]bool) int {
	if t.Op == "not" {
		if v := s.cond(t.Args[0], ch, end, blank, st); v >= 0 {
			return 1 - v
		}
		return -1
	}
	if v, ok := st[t]; ok {
		return b2i(v)
	}
	n := mkLen(s.value)
	switch t {
	case mkBin("==", s.pos, n, nil):
		return b2i(end)
	case mkBin("<", s.pos, n, nil):
		return b2i(!end)
	case mkBin("<", n, s.pos, nil):
		return 0
	}
	if t.Op == "sym" && strings.HasSuffix(t.Aux, ".ok") {
		return 1
	}
	if t.Op == "bin" && s.isChar(t.Args[0]) {
		if end {
			return -1
		}
		if k, ok := t.Args[1].intv(); ok && t.Aux == "==" {
			return b2i(int64(ch) == k)
		}
	}
	if t.Op == "bin" && t.Aux == "==" && t.Args[0].Op == "len" && t.Args[1] == tInt(0) && s.isPiece(t.Args[0].Args[0]) {
		return b2i(blank)
	}
	return -1
}

func (s *scan) isChar(t *Term) bool {
	t = unconv(t)
	if t.Op == "index" && t.Args[0] == s.value && t.Args[1] == s.pos {
		return true
	}
	return s.l.KeyT != nil && t.Op == "sym" && t.Aux == strings.TrimSuffix(s.l.KeyT.Aux, ".key")+".rune"
}

// isPiece reports whether t is the text since the last comma.
func (s *scan) isPiece(t *Term) bool {
	if trimmed(t) == t {
		return false
	}
	t = trimmed(t)
	return t.Op == "slice" && t.Args[0] == s.value && t.Args[1] == s.start.Sym && t.Args[2] == s.pos
}

// simulate compares the traversal with the reference: commas outside quoted
// strings separate, quotes toggle, a backslash escapes within quotes.
func (s *scan) simulate() string {
	type ref struct{ q, e bool }
	type state struct {
		r ref
		k string
	}
	key := func(m map[*Term]bool) string {
		k := ""
		for _, f := range s.flags {
			k += itoa(b2i(m[f.Sym]))
		}
		return k
	}
	init := map[*Term]bool{}
	for _, f := range s.flags {
		init[f.Sym] = f.Init.isTrue()
	}
	type item struct {
		r ref
		m map[*Term]bool
		w string
	}
	seen := map[state]bool{}
	q := []item{{ref{}, init, ""}}
	for len(q) > 0 {
		it := q[0]
		q = q[1:]
		sk := state{it.r, key(it.m)}
		if seen[sk] {
			continue
		}
		seen[sk] = true
		for _, ch := range []byte{',', '"', '\\', 'a', 0} {
			end := ch == 0
			if end && !s.inclusive {
				continue
			}
			w := it.w + string(ch)
			if end {
				w = it.w + "<end>"
			}
			r := it.r
			split := end
			if !end {
				switch {
				case ch == ',' && !r.q:
					split = true
				case r.e:
					r.e = false
				case ch == '\\' && r.q:
					r.e = true
				case ch == '"':
					r.q = !r.q
				}
			}
			for _, blank := range []bool{false, true} {
				hits := 0
				for i, iter := range s.l.Iters {
					fits := true
					for _, l := range iter.Conds {
						v := s.cond(l.Atom, ch, end, blank, it.m)
						if v < 0 {
							if end && s.mentionsChar(l.Atom) {
								// reading past the end: another iteration applies.
								fits = false
								break
							}
							return "the traversal of a line depends on " + l.Atom.String()
						}
						if (v == 1) != l.Pol {
							fits = false
							break
						}
					}
					if !fits {
						continue
					}
					hits++
					nx := s.f.Next[i]
					took := nx != s.f.Sym
					if took && !(nx.Op == "append" && nx.Args[0] == s.f.Sym && nx.Args[1].Op == "list" && len(nx.Args[1].Args) == 1 && s.isPiece(nx.Args[1].Args[0])) {
						return "the element taken after " + quoted(w) + " is " + nx.String()
					}
					if took != (split && !blank) {
						if took {
							return "an element is taken after " + quoted(w)
						}
						return "no element is taken after " + quoted(w)
					}
					sn := s.start.Next[i]
					if split && !end && sn != mkBin("+", s.pos, tInt(1), types.Typ[types.Int]) {
						return "after " + quoted(w) + " the next element starts at " + sn.String()
					}
					if !split && sn != s.start.Sym {
						return "after " + quoted(w) + " the element starts at " + sn.String()
					}
					if end {
						continue
					}
					m := map[*Term]bool{}
					for _, f := range s.flags {
						v := s.cond(f.Next[i], ch, end, blank, it.m)
						if f.Next[i].isTrue() {
							v = 1
						} else if f.Next[i].isFalse() {
							v = 0
						}
						if v < 0 {
							return "the state after " + quoted(w) + " is not known: " + f.Next[i].String()
						}
						m[f.Sym] = v == 1
					}
					q = append(q, item{r, m, w})
				}
				if hits == 0 {
					return "no iteration applies to " + quoted(w)
				}
			}
		}
	}
	s.c.Loops++
	return ""
}

func (s *scan) mentionsChar(t *Term) bool { return t.any(s.isChar) }

// --- the lists ---

// listOf looks through conversions of a list.
func listOf(t *Term) *Term { return unconv(t) }

func (c *Ctx) emptyHeader(o *Outcome) bool {
	t := listOf(o.Ret[0])
	if t.Op == "gval" {
		if v := newEngine(c.P, Cfg{}).staticOf(t); v != nil {
			t = listOf(v)
		}
	}
	return mkLen(t) == tInt(0)
}

// noElements reports whether the path knows that there is no element.
func (c *Ctx) noElements(o *Outcome, h *Term) bool {
	for _, l := range o.St.order {
		t := l.Atom
		if t.Op != "bin" || len(t.Args) != 2 || t.Args[0].Op != "len" {
			continue
		}
		if x := t.Args[0].Args[0]; x != h && isKnownEmpty(o.St, x) && c.elementsOf(x, h) == "" {
			return true
		}
	}
	return false
}

// elementsIn is the list of elements that a path traverses.
func (c *Ctx) elementsIn(o *Outcome, h *Term) *Term {
	for _, ev := range o.St.trace {
		if ev.Kind == "call" && ev.Target != nil && c.P.isSplitter(ev.Target) && len(ev.Args) == 1 && ev.Args[0] == h {
			return ev.Res
		}
	}
	for _, ev := range o.St.trace {
		if ev.Kind == "loop" && ev.Loop.Coll != nil && foldOf(ev.Loop.Coll) != nil {
			return ev.Loop.Coll
		}
	}
	return nil
}

// readElement reports whether el is what the constructor makes of the own
// element of the iteration, without failure.
func (c *Ctx) readElement(typ string, l *Loop, el *Term) bool {
	own := mkIndex(l.Coll, l.Pos, nil)
	if typ == "" {
		return unconv(el) == own
	}
	call := c.readOf(typ, unconv(el))
	if call == nil {
		return false
	}
	if len(call.Args) != 1 || trimmed(call.Args[0]) != own {
		return false
	}
	for _, it := range l.Iters {
		if factState(it.Conds).known(errNil(mkRes(call, "1", nil))) != 1 {
			return false
		}
	}
	return true
}

// readOf is the call of a reader whose element el is, or nil.
func (c *Ctx) readOf(typ string, el *Term) *Term {
	if el.Op != "res" || el.Aux != "0" {
		return nil
	}
	for _, f := range c.P.readersOf(typ) {
		if isCall(el.Args[0], c.P.fkey(f)) {
			return el.Args[0]
		}
	}
	return nil
}

// readFails reports whether er is the failure of reading an element.
func (c *Ctx) readFails(typ string, er *Term) bool {
	return er.any(func(t *Term) bool {
		return t.Op == "res" && t.Aux == "1" && c.readOf(typ, mkRes(t.Args[0], "0", nil)) != nil
	})
}

// listCtors are the constructors of headers and the types of their elements.
var listCtors = []struct{ list, elem string }{
	{"NewAccept", "MediaRange"},
	{"NewAcceptCharset", "CharsetRange"},
	{"NewAcceptEncoding", "ContentCodingRange"},
	{"NewAcceptFeatures", ""},
	{"NewNegotiate", "NegotiateDirective"},
}

func ruleC17(c *Ctx) {
	c.Rule = "every header constructor provides, on each path that succeeds, the list of what the element's constructor makes of every element, in order, or the empty header for no lines; the elements are those of the reference splitter, with which the traversal of each line is compared as an automaton over all states and characters; Accept-Language joins all lines for the parser and adds the elements of weight zero."
	c.Trusted = append(append([]string{}, trustedStd...), "language.ParseAcceptLanguage reads every element of positive weight of a comma separated list")
	lists, full := 0, 0
	for _, k := range listCtors {
		f := c.P.fun(hdrRel, k.list)
		if f == nil {
			c.must(false, "", "%s no longer exists", k.list)
			continue
		}
		lists++
		h := rootParams(f)[0]
		outs := c.run(f, c.atElements(), nil, nil)
		for i := range outs {
			o := &outs[i]
			at := c.end(o)
			_, e := retError(o)
			if !c.must(o.Panic == nil && e >= 0, at, "%s: whether it fails is not determined", k.list) || e == 1 {
				continue
			}
			if isKnownEmpty(o.St, h) && c.emptyHeader(o) {
				continue
			}
			if c.noElements(o, h) && c.emptyHeader(o) {
				continue
			}
			coll := c.elementsIn(o, h)
			if !c.must(coll != nil, at, "%s: the elements of all lines are not traversed (%s)", k.list, o.Ret[0]) {
				continue
			}
			why := c.elementsOf(coll, h)
			c.must(why == "", at, "%s: %s", k.list, why)
			ok := collects(listOf(o.Ret[0]), coll, func(l *Loop, el *Term) bool { return c.readElement(k.elem, l, el) })
			c.must(ok, at, "%s: the header is not the list of every element in order, but %s", k.list, o.Ret[0])
			full++
			c.sample("%s: each element of %s", k.list, coll)
		}
	}
	c.minimum(lists, 5, "constructors of headers")
	c.minimum(full, 5, "headers built from their elements")
	c.languageList(false)
}

// languageList checks the constructor of Accept-Language.
func (c *Ctx) languageList(weights bool) int {
	f := c.P.fun(hdrRel, "NewAcceptLanguage")
	outs := c.run(f, c.atElements(), nil, nil)
	if outs == nil {
		return 0
	}
	h := rootParams(f)[0]
	n := 0
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		er, e := retError(o)
		if !c.must(o.Panic == nil && e >= 0, at, "NewAcceptLanguage: whether it fails is not determined") {
			continue
		}
		if e == 1 {
			ok := er.any(func(t *Term) bool {
				return isCall(t, "golang.org/x/text/language.ParseAcceptLanguage") || c.readFails("LanguageRange", t) || isCall(t, "~/internal/header.NewQualityValue")
			})
			c.must(ok, at, "NewAcceptLanguage: refuses the header without a reason known (%s)", er)
			continue
		}
		if isKnownEmpty(o.St, h) && c.emptyHeader(o) {
			continue
		}
		n++
		t := base(listOf(o.Ret[0]))
		if coll := c.elementsIn(o, h); coll != nil && collects(t, coll, func(l *Loop, el *Term) bool { return c.readElement("LanguageRange", l, el) }) {
			why := c.elementsOf(coll, h)
			c.must(why == "", at, "NewAcceptLanguage: %s", why)
			continue
		}
		tags, zeros := 0, 0
		for t != nil && mkLen(t) != tInt(0) {
			f := foldOf(t)
			if !c.must(f != nil, at, "NewAcceptLanguage: the ranges are %s", t) {
				break
			}
			pal, isTags := resOf(f.Loop.Coll2(), "0", "golang.org/x/text/language.ParseAcceptLanguage")
			if isTags {
				tags++
				c.languageTags(o, f, pal, h, weights)
			} else {
				zeros++
				c.languageZeros(o, f, h, weights)
			}
			t = base(f.Init)
		}
		c.must(tags == 1, at, "NewAcceptLanguage: the parsed ranges are taken %d times", tags)
		c.must(zeros == 1, at, "NewAcceptLanguage: the ranges of weight zero are taken %d times", zeros)
	}
	c.minimum(n, 1, "ways to build Accept-Language")
	return n
}

// Coll2 is the traversed collection, or nothing.
func (l *Loop) Coll2() *Term {
	if l.Coll == nil {
		return tNil
	}
	return l.Coll
}

func (c *Ctx) languageTags(o *Outcome, f *Fold, pal, h *Term, weights bool) {
	at := c.P.posOf(f.Loop.Header.Instrs[0])
	c.must(pal.Args[0] == mkCall("strings.Join", nil, h, tStr(",")) || pal.Args[0] == mkCall("strings.Join", nil, h, tStr(", ")), at, "NewAcceptLanguage: parses %s instead of all lines", pal.Args[0])
	c.must(o.St.known(errNil(mkRes(pal, "2", nil))) == 1, at, "NewAcceptLanguage: the failure to parse the header is ignored")
	if !c.must(!f.Loop.Rev && f.Loop.Pos != nil, at, "NewAcceptLanguage: the ranges are not taken in order") {
		return
	}
	tag := mkIndex(mkRes(pal, "0", nil), f.Loop.Pos, nil)
	qv := mkIndex(mkRes(pal, "1", nil), f.Loop.Pos, nil)
	for i, nx := range f.Next {
		st := factState(f.Loop.Iters[i].Conds)
		if !c.must(nx.Op == "append" && nx.Args[0] == f.Sym && nx.Args[1].Op == "list" && len(nx.Args[1].Args) == 1, at, "NewAcceptLanguage: a parsed range is passed over") {
			continue
		}
		el := nx.Args[1].Args[0]
		own := el.contains(tag)
		foreign := el.any(func(t *Term) bool {
			return t.Op == "index" && (t.Args[0] == tag.Args[0] || t.Args[0] == qv.Args[0]) && t != tag && t != qv
		})
		c.must(own && !foreign, at, "NewAcceptLanguage: an element is made of %s", el)
		c.languageParsed(at, f.Loop.Iters[i].Conds, el, tag)
		if !weights {
			continue
		}
		v := c.accessor(hdrRel, "LanguageRange", "QualityValue", el)
		ok := false
		if v != nil {
			if call, is := resOf(v, "0", "~/internal/header.NewQualityValue"); is {
				ok = unconv(call.Args[0]) == qv && st.known(errNil(mkRes(call, "1", nil))) == 1
			}
		}
		c.must(ok, at, "NewAcceptLanguage: the quality of a range is %v, which is not its own checked weight", v)
	}
}

func (c *Ctx) languageZeros(o *Outcome, f *Fold, h *Term, weights bool) {
	at := c.P.posOf(f.Loop.Header.Instrs[0])
	l := f.Loop
	if !c.must(l.Coll != nil && !l.Rev && l.Pos != nil, at, "NewAcceptLanguage: the ranges of weight zero are not taken in order") {
		return
	}
	why := c.elementsOf(l.Coll, h)
	c.must(why == "", at, "NewAcceptLanguage: %s", why)
	var call *Term
	for _, it := range l.Iters {
		for _, ev := range it.Events {
			if ev.Kind == "call" && ev.Res != nil && c.readOf("LanguageRange", mkRes(ev.Res, "0", nil)) != nil {
				call = ev.Res
			}
		}
	}
	if !c.must(call != nil && trimmed(call.Args[0]) == mkIndex(l.Coll, l.Pos, nil), at, "NewAcceptLanguage: the elements are not read as language ranges") {
		return
	}
	r, er := mkRes(call, "0", nil), mkRes(call, "1", nil)
	q := c.accessor(hdrRel, "LanguageRange", "QualityValue", r)
	if !c.must(q != nil, at, "NewAcceptLanguage: the quality of a range is not determined") {
		return
	}
	for i, nx := range f.Next {
		st := factState(l.Iters[i].Conds)
		takes := nx != f.Sym
		if takes && !c.must(nx.Op == "append" && nx.Args[0] == f.Sym && nx.Args[1].Op == "list" && len(nx.Args[1].Args) == 1 && nx.Args[1].Args[0] == r, at, "NewAcceptLanguage: an element of weight zero is taken as %s", nx) {
			continue
		}
		isNil := st.known(errNil(er))
		for _, v := range []float64{0, 0.001, 0.5, 1} {
			fits := true
			for _, lt := range l.Iters[i].Conds {
				if h := holdsF(lt.Atom, map[*Term]float64{q: v}); h >= 0 && (h == 1) != lt.Pol {
					fits = false
				}
			}
			if !fits || isNil == 0 {
				continue
			}
			c.must(takes == (v == 0), at, "NewAcceptLanguage: a range of weight %v is taken: %v", v, takes)
		}
		if takes {
			c.must(isNil == 1, at, "NewAcceptLanguage: a range that cannot be read is taken")
		} else if isNil != 1 && weights {
			bad := mkCall("errors.Is", nil, er, raw("gval", "~/internal/header.ErrInvalidQualityValue", nil))
			ok := st.known(bad) == 0 || st.known(mkBin("==", er, bad.Args[1], nil)) == 0
			c.must(ok, at, "NewAcceptLanguage: a range with an invalid weight is passed over")
		}
	}
}

func (c *Ctx) languageWeights() { c.languageList(true) }
