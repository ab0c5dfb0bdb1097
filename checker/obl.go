package main

import (
	"go/token"
	"go/types"

	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// inRange decides whether 0 <= i < len(b) follows from the facts.
func (fr *frame) inRange(st *State, b, i *Term) bool {
	n := mkLen(b)
	if c, ok := i.intv(); ok && c == 0 && fr.e.Cfg.NonEmpty != nil && fr.e.Cfg.NonEmpty(st, b) {
		return true
	}
	return fr.nonNegative(st, i) && fr.less(st, i, n)
}

func (fr *frame) nonNegative(st *State, i *Term) bool {
	if c, ok := i.intv(); ok {
		return c >= 0
	}
	if nonNeg(i) || fr.e.trail[i] != nil {
		return true
	}
	if st.known(mkBin("<", i, tInt(0), nil)) == 0 {
		return true
	}
	lo, _, _, ne := st.bounds(i)
	if lo >= 0 {
		return true
	}
	if isIndexCall(i) {
		// -1 or a position
		if ne[tInt(-1)] || lo >= 0 {
			return true
		}
	}
	if isKey(i) {
		return true
	}
	if f := foldOf(i); f != nil && fr.foldNonNeg(st, f) {
		return true
	}
	// a - b with b at most a.
	if i.Op == "bin" && i.Aux == "-" && fr.leq(st, i.Args[1], i.Args[0]) {
		return true
	}
	for _, l := range st.order {
		// more than something that is not negative.
		if t := l.Atom; l.Pol && t.Op == "bin" && t.Aux == "<" && t.Args[1] == i && t.Args[0] != i && nonNeg(t.Args[0]) {
			return true
		}
	}
	if i.Op == "bin" && i.Aux == "+" {
		return fr.nonNegative(st, i.Args[0]) && fr.nonNegative(st, i.Args[1]) || fr.offsetOK(st, i)
	}
	return false
}

// isKey reports whether the term is the position in the traversal of a string.
func isKey(t *Term) bool {
	return t.Op == "sym" && len(t.Args) == 1 && strings.HasSuffix(t.Aux, ".key")
}

// below reports whether t is n less something that is not negative.
func (fr *frame) below(t, n *Term) bool {
	for {
		switch {
		case t == n:
			return true
		case t.Op == "bin" && t.Aux == "-" && nonNeg(t.Args[1]):
			t = t.Args[0]
		case t.Op == "bin" && t.Aux == "+":
			if c, ok := t.Args[1].intv(); !ok || c > 0 {
				return false
			}
			t = t.Args[0]
		default:
			return false
		}
	}
}

// offsetOK handles x + c with c negative and x known to be at least -c.
func (fr *frame) offsetOK(st *State, i *Term) bool {
	c, ok := i.Args[1].intv()
	if !ok {
		return false
	}
	lo, _, _, ne := st.bounds(i.Args[0])
	if isIndexCall(i.Args[0]) {
		lo = -1
		if ne[tInt(-1)] {
			lo = 0
		}
	}
	return lo+c >= 0
}

func isIndexCall(t *Term) bool {
	if t.Op != "call" {
		return false
	}
	switch t.Aux {
	case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc", "bytes.IndexByte":
		return true
	}
	return false
}

// less decides i < n.
func (fr *frame) less(st *State, i, n *Term) bool {
	lt := mkBin("<", i, n, nil)
	if lt.isTrue() || st.known(lt) == 1 {
		return true
	}
	if c, ok := i.intv(); ok {
		lo, _, eq, _ := st.bounds(n)
		if eq != nil {
			v, ok := eq.intv()
			return ok && c < v
		}
		if lo > c {
			return true
		}
		// len(append(x, ...)) and the like.
		return lowerBound(st, n) > c
	}
	// x - idx with x <= len-1.
	if i.Op == "bin" && i.Aux == "-" && nonNeg(i.Args[1]) {
		return fr.less(st, i.Args[0], n)
	}
	// len(s)+c with c negative.
	if i.Op == "bin" && i.Aux == "+" {
		if c, ok := i.Args[1].intv(); ok {
			if c < 0 && (i.Args[0] == n || fr.leq(st, i.Args[0], n)) {
				return true
			}
			if c <= 0 && fr.less(st, i.Args[0], n) {
				return true
			}
		}
	}
	if isIndexCall(i) && n == mkLen(i.Args[0]) {
		return true
	}
	if f := foldOf(i); f != nil && fr.foldBelow(st, f, n) {
		return true
	}
	if isKey(i) && n == mkLen(i.Args[0]) {
		return st.known(raw("sym", strings.TrimSuffix(i.Aux, ".key")+".ok", types.Typ[types.Bool], i.Args[0])) == 1
	}
	for _, l := range st.order {
		// less than something that is at most n.
		if t := l.Atom; l.Pol && t.Op == "bin" && t.Aux == "<" && t.Args[0] == i && fr.below(t.Args[1], n) {
			return true
		}
	}
	// the tags and qualities of a parsed Accept-Language go together.
	if n.Op == "len" && n.Args[0].Op == "res" && n.Args[0].Aux == "1" && isCall(n.Args[0].Args[0], "golang.org/x/text/language.ParseAcceptLanguage") {
		if m := mkLen(mkRes(n.Args[0].Args[0], "0", nil)); m != n && fr.less(st, i, m) {
			return true
		}
	}
	return false
}

func (fr *frame) leq(st *State, i, n *Term) bool {
	if i == n || fr.less(st, i, n) {
		return true
	}
	if c, ok := i.intv(); ok {
		return c <= lowerBound(st, n)
	}
	if st.known(mkBin("<", n, i, nil)) == 0 {
		return true
	}
	// i <= m-1 from i < m.
	if n.Op == "bin" && n.Aux == "+" && n.Args[1] == tInt(-1) && fr.less(st, i, n.Args[0]) {
		return true
	}
	// idx+1 <= n from idx < n.
	if i.Op == "bin" && i.Aux == "+" {
		if c, ok := i.Args[1].intv(); ok && c == 1 && fr.less(st, i.Args[0], n) {
			return true
		}
	}
	// a variable that is never more than the number of iterations.
	if t := fr.e.trail[i]; t != nil {
		return fr.leq(st, t, n)
	}
	return false
}

// lowerBound is the least value of a length term.
func lowerBound(st *State, n *Term) int64 {
	if c, ok := n.intv(); ok {
		return c
	}
	lo, _, eq, _ := st.bounds(n)
	if eq != nil {
		if v, ok := eq.intv(); ok {
			return v
		}
	}
	if n.Op == "bin" && n.Aux == "+" {
		a, b := lowerBound(st, n.Args[0]), lowerBound(st, n.Args[1])
		if a > -inf && b > -inf && a+b > lo {
			lo = a + b
		}
	}
	if n.Op == "len" {
		c := n.Args[0]
		base := int64(0)
		if c.Op == "call" && (c.Aux == "strings.Split" || c.Aux == "strings.SplitAfter" || c.Aux == "strings.SplitN" || c.Aux == "strings.SplitAfterN") && len(c.Args) >= 2 {
			sep, isC := c.Args[1].str()
			if isC && sep != "" {
				base = 1
			}
			if len(c.Args) == 3 {
				if k, ok := c.Args[2].intv(); !ok || k == 0 {
					base = 0
				}
				if k, ok := c.Args[2].intv(); !ok || k == 1 {
					isC = false
				}
			}
			if isC && sep != "" && base == 1 && separates(st, c.Args[0], c.Args[1]) {
				base = 2
			}
		}
		if isCall(c, "(*regexp.Regexp).FindStringSubmatch") || isCall(c, "(*regexp.Regexp).FindStringSubmatchIndex") {
			if st.known(mkCall("(*regexp.Regexp).MatchString", types.Typ[types.Bool], c.Args...)) == 1 || st.known(mkBin("==", c, tNil, nil)) == 0 || lo > 0 {
				if g := groupsOf(c.Args[0]); g >= 0 {
					base = int64(g + 1)
					if strings.HasSuffix(c.Aux, "Index") {
						base *= 2
					}
				}
			}
		}
		// a string that has a part known.
		for _, l := range st.order {
			if t := l.Atom; l.Pol && t.Op == "call" && len(t.Args) == 2 && t.Args[0] == c {
				switch t.Aux {
				case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
					base = max(base, lowerBound(st, mkLen(t.Args[1])))
				}
			}
		}
		if base > lo {
			lo = base
			_, _, _, ne := st.bounds(n)
			for ne[tInt(lo)] {
				lo++
			}
		}
		if c.Op == "upd" || c.Op == "sorted" {
			return lowerBound(st, mkLen(c.Args[0]))
		}
		if f := foldOf(c); f != nil {
			// a slice that only ever grows.
			grow := true
			for _, nx := range f.Next {
				x := nx
				for x.Op == "append" {
					x = x.Args[0]
				}
				if x != f.Sym {
					grow = false
				}
			}
			if grow {
				b := lowerBound(st, mkLen(f.Init))
				if perElement(f) {
					b += max(lowerBound(st, mkLen(f.Loop.Coll)), 0)
				}
				lo = max(lo, b)
			}
		}
		// no length is negative.
		_, _, _, ne := st.bounds(n)
		for lo = max(lo, 0); ne[tInt(lo)]; lo++ {
		}
	}
	return lo
}

// separates reports whether the text is known to contain the separator.
func separates(st *State, x, sep *Term) bool {
	bt := types.Typ[types.Bool]
	for _, k := range []string{"strings.Contains", "strings.HasPrefix", "strings.HasSuffix"} {
		if st.known(mkCall(k, bt, x, sep)) == 1 {
			return true
		}
	}
	in := types.Typ[types.Int]
	for _, k := range []string{"strings.Index", "strings.LastIndex"} {
		if st.known(mkBin("<", mkCall(k, in, x, sep), tInt(0), nil)) == 0 || st.known(mkBin("==", mkCall(k, in, x, sep), tInt(-1), nil)) == 0 {
			return true
		}
	}
	return st.known(mkBin("<", tInt(0), mkCall("strings.Count", in, x, sep), nil)) == 1
}

// perElement reports whether a slice gets an element or more for every one of
// what the loop traverses.
func perElement(f *Fold) bool {
	l := f.Loop
	if l == nil || l.Coll == nil || l.IsMap || len(f.Next) == 0 {
		return false
	}
	for _, nx := range f.Next {
		if nx.Op != "append" || nx.Args[0] != f.Sym || lowerBound(newState(), mkLen(nx.Args[1])) < 1 {
			return false
		}
	}
	return true
}

// foldBelow: a variable set to a position below n whenever it is set.
func (fr *frame) foldBelow(st *State, f *Fold, n *Term) bool {
	if f.Loop == nil || len(f.Next) == 0 || !fr.less(st, f.Init, n) {
		return false
	}
	for i, nx := range f.Next {
		if nx != f.Sym && factState(f.Loop.Iters[i].Conds).known(mkBin("<", nx, n, nil)) != 1 {
			return false
		}
	}
	return true
}

// foldNonNeg: a variable that starts and is set to what is not negative.
func (fr *frame) foldNonNeg(st *State, f *Fold) bool {
	if len(f.Next) == 0 || !fr.nonNegative(st, f.Init) {
		return false
	}
	for _, nx := range f.Next {
		if nx != f.Sym && !fr.nonNegative(st, nx) {
			return false
		}
	}
	return true
}

// groupsOf is the number of groups of a regular expression known from the
// source, or -1.
func groupsOf(re *Term) int {
	if theProg == nil {
		return -1
	}
	if re.Op == "gval" {
		re = newEngine(theProg, Cfg{}).staticOf(re)
	}
	if re == nil || re.Op != "call" || !isCall(re, "regexp.MustCompile") && !isCall(re, "regexp.Compile") || len(re.Args) < 1 {
		return -1
	}
	s, ok := re.Args[0].str()
	if !ok {
		return -1
	}
	r, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return -1
	}
	return r.MaxCap()
}

// trails reports that low is never more than the counter high+hc during an
// iteration: it starts at zero and is only ever set to at most one more than
// the counter.
func trails(low, high ssa.Value) bool {
	phi, ok := low.(*ssa.Phi)
	if !ok {
		return false
	}
	isInc := func(v, ctr ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ctr {
			return false
		}
		c, ok := b.Y.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == 1
	}
	// the counter: an index of a traversal, or a variable incremented by one.
	ctr := high
	switch x := high.(type) {
	case *ssa.Phi:
		if x.Block() != phi.Block() {
			return false
		}
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Int64() >= 0 {
				continue
			}
			if !isInc(e, x) {
				return false
			}
		}
	case *ssa.Extract:
		nx, ok := x.Tuple.(*ssa.Next)
		if !ok || x.Index != 1 || nx.Block() != phi.Block() {
			return false
		}
	default:
		return false
	}
	seen := map[ssa.Value]bool{}
	var okv func(v ssa.Value) bool
	okv = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if c, ok := v.(*ssa.Const); ok {
			return c.Value != nil && c.Int64() == 0
		}
		if v == ctr || isInc(v, ctr) {
			return true
		}
		if p, ok := v.(*ssa.Phi); ok {
			if p != phi && !phi.Block().Dominates(p.Block()) {
				return false
			}
			for _, e := range p.Edges {
				if !okv(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	return okv(low)
}

func (fr *frame) indexObl(fs *fstate, site ssa.Instruction, b, i *Term, bt types.Type) {
	if !fr.e.Cfg.Obligations {
		return
	}
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
	}
	if a, ok := bt.Underlying().(*types.Array); ok {
		c, isC := i.intv()
		fr.e.oblige(fs.st, site, "index", "index "+i.String()+" of array", isC && c >= 0 && c < a.Len() || fr.nonNegative(fs.st, i) && fr.less(fs.st, i, tInt(a.Len())))
		return
	}
	c := fr.e.contents(fs.st, b)
	ok := fr.inRange(fs.st, c, i) || (c != b && fr.inRange(fs.st, b, i))
	fr.e.oblige(fs.st, site, "index", "index "+i.String()+" of "+c.String(), ok)
}

func (fr *frame) sliceObl(fs *fstate, site *ssa.Slice, c, lo, hi *Term) {
	st := fs.st
	n := mkLen(c)
	if p, ok := site.X.Type().Underlying().(*types.Pointer); ok {
		if a, ok := p.Elem().Underlying().(*types.Array); ok {
			n = tInt(a.Len())
		}
	}
	ok := true
	if lo != nil {
		ok = ok && (fr.nonNegative(st, lo) || hi != nil && trails(site.Low, site.High))
		if hi == nil {
			ok = ok && fr.leq(st, lo, n)
		} else {
			ok = ok && (fr.leq(st, lo, hi) || trails(site.Low, site.High))
		}
	}
	if hi != nil {
		ok = ok && fr.nonNegative(st, hi) && fr.leq(st, hi, n)
	}
	w := "slice of " + c.String() + " from "
	if lo != nil {
		w += lo.String()
	} else {
		w += "start"
	}
	if hi != nil {
		w += " to " + hi.String()
	}
	fr.e.oblige(st, site, "slice", w, ok)
}

// mayBeNil classifies pointers and interfaces that can be nil on this path.
func (fr *frame) mayBeNil(st *State, t *Term) bool {
	if t.isNil() {
		return true
	}
	if st.known(mkBin("==", t, tNil, nil)) == 0 {
		return false
	}
	switch t.Op {
	case "lookup":
		// the zero value, unless the key is known to be present.
		return st.known(mkHas(t.Args[0], t.Args[1])) != 1
	case "assert":
		return st.known(raw("isa", t.Aux, nil, t.Args[0])) != 1
	case "res":
		// the value of a fallible call is usable once its error is known nil.
		c := t.Args[0]
		if c.Op != "call" {
			return false
		}
		if isChoose(c.Aux) {
			return true
		}
		for k := 1; k < 4; k++ {
			r := raw("res", string(rune('0'+k)), nil, c)
			if r.Typ != nil && types.Identical(r.Typ, types.Universe.Lookup("error").Type()) {
				return st.known(mkBin("==", r, tNil, nil)) != 1
			}
		}
		return false
	case "call":
		switch t.Aux {
		case "(*net/url.URL).Parse":
			return true
		}
	}
	return false
}

func isChoose(key string) bool { return len(key) >= 8 && key[:8] == "I:Choose" }

func (fr *frame) derefObl(fs *fstate, site ssa.Instruction, a *Term) {
	if !fr.e.Cfg.Obligations {
		return
	}
	switch a.Op {
	case "obj", "global", "faddr", "iaddr":
		return
	}
	fr.e.oblige(fs.st, site, "nil", "dereference of "+a.String(), !fr.mayBeNil(fs.st, a))
}

func (fr *frame) invokeObl(fs *fstate, site ssa.Instruction, recv *Term) {
	if !fr.e.Cfg.Obligations {
		return
	}
	fr.e.oblige(fs.st, site, "nil", "method call on "+recv.String(), !fr.mayBeNil(fs.st, recv))
}

func (fr *frame) mapNonNil(fs *fstate, m *Term) bool {
	switch m.Op {
	case "param", "free":
		return false
	case "call":
		return m.Aux == "I:Header"
	}
	return false
}
