package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// built names the text that a local strings.Builder holds.
func built(b *Term) *Term {
	b = b.strip()
	if b.Op != "obj" || b.Typ == nil || b.Typ.String() != "*strings.Builder" {
		return nil
	}
	k := raw("built", "", types.Typ[types.String], b)
	if x, ok := births[b]; ok {
		births[k] = x
	}
	return k
}

// building models what is done with a strings.Builder of the function: it is
// text that grows.
func (fr *frame) building(fs *fstate, site ssa.Instruction, key string, args []*Term) ([]callRes, bool) {
	if len(args) == 0 {
		return nil, false
	}
	k := built(args[0])
	if k == nil {
		return nil, false
	}
	now := tStr("")
	if x, ok := fs.st.cont[k]; ok {
		now = x
	}
	str := types.Typ[types.String]
	add := func(t *Term) ([]callRes, bool) {
		fs.st.cont[k] = mkBin("+", now, t, str)
		return []callRes{{fs: fs, ret: []*Term{mkLen(t), tNil}}}, true
	}
	switch key {
	case "(*strings.Builder).WriteString", "io.WriteString":
		return add(args[1])
	case "(*strings.Builder).Write":
		return add(mkConv(fr.e.contents(fs.st, args[1]), str, args[1].Typ))
	case "(*strings.Builder).WriteByte":
		t := mkChar(args[1])
		if t == nil {
			return nil, false
		}
		fs.st.cont[k] = mkBin("+", now, t, str)
		return []callRes{{fs: fs, ret: []*Term{tNil}}}, true
	case "(*strings.Builder).WriteRune":
		if t := mkChar(args[1]); t != nil {
			return add(t)
		}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln":
		var as []*Term
		for _, a := range args[1:] {
			as = append(as, fr.snapshot(fs, fr.e.val(fs.st, a)))
		}
		return add(mkCall("fmt.S"+key[len("fmt.F"):], str, as...))
	case "(*strings.Builder).String":
		return []callRes{{fs: fs, ret: []*Term{now}}}, true
	case "(*strings.Builder).Len":
		return []callRes{{fs: fs, ret: []*Term{mkLen(now)}}}, true
	case "(*strings.Builder).Reset":
		fs.st.cont[k] = tStr("")
		return []callRes{{fs: fs}}, true
	case "(*strings.Builder).Grow":
		return []callRes{{fs: fs}}, true
	}
	return nil, false
}

// mkChar is the text that one character is.
func mkChar(t *Term) *Term {
	n, ok := t.intv()
	if !ok || n < 0 || n > 127 {
		return nil
	}
	return tStr(string(rune(n)))
}

// flatText lists what a text is put together from.
func flatText(t *Term) []*Term {
	if t.Op == "bin" && t.Aux == "+" && isString(t.Typ) {
		return append(flatText(t.Args[0]), flatText(t.Args[1])...)
	}
	return []*Term{t}
}

// joined recognizes text put together by a loop as the elements of a list with
// a separator between them.
func joined(f *Fold, all []*Fold) *Term {
	l := f.Loop
	if f.Sym == nil || !isString(f.Sym.Typ) || len(f.Next) == 0 || len(f.Next) != len(l.Iters) {
		return nil
	}
	// what stands for the first iteration, and what for another one.
	first, later := map[*Term]*Term{}, []map[*Term]*Term{}
	for _, n := range []int64{1, 2, 7, 1000} {
		m := map[*Term]*Term{}
		for _, p := range []*Term{l.Idx, l.Pos} {
			if p != nil && (p == l.Idx || !l.Rev && l.Coll != nil) && len(p.Args) == 0 {
				m[p] = tInt(n)
			}
		}
		later = append(later, m)
	}
	for p := range later[0] {
		first[p] = tInt(0)
	}
	for _, g := range all {
		if g == f || g.Sym == nil || !g.Init.isConst() {
			continue
		}
		same := len(g.Next) > 0 && g.Next[0].isConst()
		for _, x := range g.Next {
			same = same && (x == g.Next[0] || x == g.Sym && g.Next[0] == g.Init)
		}
		if !same {
			continue
		}
		first[g.Sym] = g.Init
		for _, m := range later {
			m[g.Sym] = g.Next[0]
		}
	}
	byText := false
	if s, ok := f.Init.str(); ok && s == "" {
		first[f.Sym] = f.Init
		for _, m := range later {
			m[f.Sym] = tStr("x")
		}
		byText = true
	}
	// what stands for the last iteration: there are ten.
	last, notLast := map[*Term]*Term{}, []map[*Term]*Term{}
	if l.Coll != nil && l.Pos != nil && !l.Rev && len(l.Pos.Args) == 0 && !mkLen(l.Coll).isConst() {
		at := func(n int64) map[*Term]*Term {
			m := map[*Term]*Term{l.Pos: tInt(n), mkLen(l.Coll): tInt(10)}
			if l.Idx != nil && len(l.Idx.Args) == 0 {
				m[l.Idx] = tInt(n)
			}
			return m
		}
		last = at(9)
		for _, n := range []int64{0, 1, 4, 8} {
			notLast = append(notLast, at(n))
		}
	}
	sep, known := "", false
	type item struct {
		ps    []*Term
		first int // 1: the first iteration, 0: another one, -1: either
		last  int
	}
	var items []item
	textual := false
	for i, nx := range f.Next {
		ps := flatText(nx)
		anew := ps[0] != f.Sym
		if anew {
			ps = append([]*Term{f.Sym}, ps...)
		}
		it := item{ps: ps[1:], first: -1, last: -1}
		for _, c := range l.Iters[i].Conds {
			if d := tells(c.Atom, last, notLast); d != 0 {
				it.last = 0
				if (d > 0) == c.Pol {
					it.last = 1
				}
				continue
			}
			d := tells(c.Atom, first, later)
			if d == 0 {
				continue
			}
			if c.Atom.contains(f.Sym) {
				if !byText {
					return nil
				}
				textual = true
			}
			if (d > 0) == c.Pol {
				it.first = 1
			} else {
				it.first = 0
			}
		}
		if anew && (it.first != 1 || !byText) || len(it.ps) == 0 {
			return nil
		}
		items = append(items, it)
	}
	// texts that follow one another are one.
	lead, trail := "", ""
	for _, it := range items {
		if it.first == 1 {
			lead, _ = it.ps[0].str()
		}
		if it.last == 1 {
			trail, _ = it.ps[len(it.ps)-1].str()
		}
	}
	if b := l.Coll; b != nil && b.Op == "slice" && b.Args[1] == tInt(1) && b.Args[2].Aux == "none" && f.Init == mkIndex(b.Args[0], tInt(0), nil) && !l.Rev && l.Pos != nil {
		// all but the first, which is there already.
		sp, ok := items[0].ps[0].str()
		for _, it := range items {
			ok = ok && len(it.ps) == 2 && isStr(it.ps[0], sp) && it.ps[1] == mkIndex(b, l.Pos, nil)
		}
		if ok {
			return mkCall("strings.Join", types.Typ[types.String], b.Args[0], tStr(sp))
		}
	}
	setSep := func(s string) bool {
		if known && sep != s {
			return false
		}
		sep, known = s, true
		return true
	}
	for i := range items {
		it := &items[i]
		n := len(it.ps) - 1
		switch {
		case it.last >= 0 && it.first >= 0:
			return nil
		case it.last == 1:
		case it.last == 0:
			s, ok := it.ps[n].str()
			if !ok {
				// it may be one text with what precedes it.
				return nil
			}
			it.ps = append([]*Term{}, it.ps...)
			if trail != "" && strings.HasPrefix(s, trail) {
				it.ps[n], s, n = tStr(trail), s[len(trail):], n+1
			}
			if n == 0 || !setSep(s) {
				return nil
			}
			it.ps = it.ps[:n]
		case it.first == -1:
			// the separator may be a variable.
			s := ""
			if a, ok := first[it.ps[0]]; ok {
				if x, ok := a.str(); !ok || x != "" {
					return nil
				}
				s, ok = later[0][it.ps[0]].str()
				if !ok {
					return nil
				}
				it.ps = it.ps[1:]
			}
			if !setSep(s) {
				return nil
			}
		case it.first == 0:
			s, ok := it.ps[0].str()
			rest := it.ps[1:]
			if lead != "" && strings.HasSuffix(s, lead) {
				s, rest = s[:len(s)-len(lead)], append([]*Term{tStr(lead)}, rest...)
			}
			if !ok || !setSep(s) {
				return nil
			}
			it.ps = rest
		}
	}
	if !known {
		return nil
	}
	str := types.Typ[types.String]
	lt := types.NewSlice(str)
	sym := raw("sym", "parts:"+f.Sym.Aux, lt, f.Sym)
	g := &Fold{Name: f.Name, Pos: f.Pos, Loop: l, Init: tNil, Sym: sym}
	h := ""
	for i, it := range items {
		if len(it.ps) == 0 {
			return nil
		}
		x := it.ps[0]
		solid := false
		for j, p := range it.ps {
			if j > 0 {
				x = mkBin("+", x, p, str)
			}
			if p.contains(f.Sym) {
				return nil
			}
			solid = solid || neverEmptyText(p)
		}
		if textual && !solid {
			return nil
		}
		g.Next = append(g.Next, mkAppend(sym, raw("list", "", lt, x), lt))
		h += fmt.Sprintf("|%d", g.Next[i].id)
		for _, c := range sortedLits(l.Iters[i].Conds) {
			h += fmt.Sprintf(",%d%v", c.Atom.id, c.Pol)
		}
	}
	var parts *Term
	if l.Coll != nil && !l.Rev && l.Pos != nil {
		parts = l.Coll
		for _, nx := range g.Next {
			if e := nx.Args[1].Args[0]; e != mkIndex(l.Coll, l.Pos, nil) {
				parts = nil
				break
			}
		}
	}
	if parts == nil {
		g.ID = hashID(l.ID + "|parts|" + f.ID + h)
		tt.folds[g.ID] = g
		parts = raw("fold", g.ID, lt)
	}
	j := mkCall("strings.Join", str, parts, tStr(sep))
	if s, ok := f.Init.str(); ok && s == "" {
		return j
	}
	return mkBin("+", f.Init, j, str)
}

// tells reports whether the condition holds in the first situation and in none
// of the others (1), or in all of the others but not in the first (-1).
func tells(a *Term, one map[*Term]*Term, others []map[*Term]*Term) int {
	x := subst(a, one, map[*Term]*Term{})
	if len(others) == 0 || !x.isTrue() && !x.isFalse() {
		return 0
	}
	for _, m := range others {
		y := subst(a, m, map[*Term]*Term{})
		if !y.isTrue() && !y.isFalse() || y.isTrue() == x.isTrue() {
			return 0
		}
	}
	if x.isTrue() {
		return 1
	}
	return -1
}

// untrailed is text put together with a separator after each element, without
// the last separator.
func untrailed(t, suffix *Term) *Term {
	s, ok := suffix.str()
	if !ok || s == "" || !isCall(t, "strings.Join") || !isStr(t.Args[1], "") {
		return nil
	}
	f := foldOf(t.Args[0])
	if f == nil || f.Sym == nil || !f.Init.isNil() {
		return nil
	}
	str := types.Typ[types.String]
	g := &Fold{Name: f.Name, Pos: f.Pos, Loop: f.Loop, Init: tNil, Sym: f.Sym}
	h := ""
	whole := f.Loop.Coll != nil && !f.Loop.Rev && f.Loop.Pos != nil
	for _, nx := range f.Next {
		if nx.Op != "append" || nx.Args[0] != f.Sym || nx.Args[1].Op != "list" || len(nx.Args[1].Args) != 1 {
			return nil
		}
		ps := flatText(nx.Args[1].Args[0])
		n := len(ps) - 1
		if n < 1 || !isStr(ps[n], s) {
			return nil
		}
		x := ps[0]
		for _, p := range ps[1:n] {
			x = mkBin("+", x, p, str)
		}
		whole = whole && x == mkIndex(f.Loop.Coll, f.Loop.Pos, nil)
		g.Next = append(g.Next, mkAppend(f.Sym, raw("list", "", t.Args[0].Typ, x), t.Args[0].Typ))
		h += fmt.Sprintf("|%d", x.id)
	}
	if whole {
		return mkCall("strings.Join", str, f.Loop.Coll, suffix)
	}
	g.ID = hashID(f.ID + "|untrailed" + h)
	tt.folds[g.ID] = g
	return mkCall("strings.Join", str, raw("fold", g.ID, t.Args[0].Typ), suffix)
}

// neverEmptyText reports text that is known not to be empty.
func neverEmptyText(t *Term) bool {
	if s, ok := t.str(); ok {
		return s != ""
	}
	switch {
	case t.Op == "call" && t.Aux == "fmt.Sprintf":
		f, ok := t.Args[0].str()
		return ok && f != "" && f[0] != '%'
	case t.Op == "call" && t.Aux == "strconv.Quote":
		return true
	}
	return false
}
