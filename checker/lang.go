package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
)

// Languages of regular expressions: inclusion is decided on the product of the
// two automata, over classes of runes that neither tells apart.

// nfa is the program of an expression.
type nfa struct {
	p    *syntax.Prog
	open bool // an unanchored match: anything may precede and follow
	bad  bool // word boundaries and line anchors are not modelled
}

func parseRe(s string) *syntax.Regexp {
	r, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil
	}
	return r
}

// nfaOf is the automaton of the strings that contain a match (whole: that are
// a match).
func nfaOf(r *syntax.Regexp, whole bool) *nfa {
	p, err := syntax.Compile(r.Simplify())
	if err != nil {
		return &nfa{bad: true}
	}
	n := &nfa{p: p, open: !whole}
	for _, in := range p.Inst {
		if in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			n.bad = true
		}
	}
	return n
}

// nset is a set of states: the instructions waiting for a rune, and whether a
// match has been completed.
type nset struct {
	pcs  []int
	done bool // a match, whatever follows
	end  bool // a match if the input ends here
}

func (s nset) key() string { return fmt.Sprint(s.pcs, s.done, s.end) }

func (n *nfa) closure(from []int, begin bool) nset {
	var s nset
	collect := func(atEnd bool) (pcs []int, match bool) {
		seen := map[int]bool{}
		var rec func(pc int)
		rec = func(pc int) {
			if seen[pc] {
				return
			}
			seen[pc] = true
			in := n.p.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				rec(int(in.Out))
				rec(int(in.Arg))
			case syntax.InstCapture, syntax.InstNop:
				rec(int(in.Out))
			case syntax.InstEmptyWidth:
				op := syntax.EmptyOp(in.Arg)
				if op&syntax.EmptyBeginText != 0 && !begin || op&syntax.EmptyEndText != 0 && !atEnd {
					return
				}
				rec(int(in.Out))
			case syntax.InstMatch:
				match = true
			case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
				pcs = append(pcs, pc)
			}
		}
		for _, pc := range from {
			rec(pc)
		}
		return
	}
	var m bool
	s.pcs, m = collect(false)
	s.done = m && n.open
	_, s.end = collect(true)
	sort.Ints(s.pcs)
	return s
}

func (n *nfa) start() nset { return n.closure([]int{n.p.Start}, true) }

func (n *nfa) step(s nset, r rune) nset {
	if s.done {
		return s
	}
	var next []int
	for _, pc := range s.pcs {
		if n.p.Inst[pc].MatchRune(r) {
			next = append(next, int(n.p.Inst[pc].Out))
		}
	}
	if n.open {
		next = append(next, n.p.Start)
	}
	t := n.closure(next, false)
	return t
}

func (s nset) accepts() bool { return s.done || s.end }

// alphabet has a rune of every class of runes the automata tell apart.
func alphabet(ns ...*nfa) []rune {
	cut := map[rune]bool{0: true, '\n': true, '\n' + 1: true}
	for _, n := range ns {
		for _, in := range n.p.Inst {
			if in.Op != syntax.InstRune && in.Op != syntax.InstRune1 {
				continue
			}
			fold := syntax.Flags(in.Arg)&syntax.FoldCase != 0
			for i, r := range in.Rune {
				cut[r] = true
				if i%2 == 1 || len(in.Rune) == 1 {
					cut[r+1] = true
				}
				if fold {
					for _, d := range []rune{r &^ 0x20, r | 0x20} {
						cut[d] = true
						cut[d+1] = true
					}
					// runes beyond ASCII that fold to ASCII letters.
					for _, d := range []rune{0x17f, 0x180, 0x212a, 0x212b} {
						cut[d] = true
					}
				}
			}
		}
	}
	var rs []rune
	for r := range cut {
		if r >= 0 && r <= 0x10ffff {
			rs = append(rs, r)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return rs
}

// subsetOf decides whether every string of a is one of b; otherwise it
// provides one that is not.
func subsetOf(a, b *nfa) (bool, string) {
	if a.bad || b.bad {
		return false, "an expression uses assertions that are not decided"
	}
	type pair struct{ a, b nset }
	sigma := alphabet(a, b)
	seen := map[string]bool{}
	type item struct {
		p pair
		w string
	}
	q := []item{{pair{a.start(), b.start()}, ""}}
	for len(q) > 0 {
		it := q[0]
		q = q[1:]
		if it.p.a.accepts() && !it.p.b.accepts() {
			return false, it.w
		}
		if it.p.b.done {
			continue
		}
		for _, r := range sigma {
			na := a.step(it.p.a, r)
			if len(na.pcs) == 0 && !na.accepts() {
				continue
			}
			nb := b.step(it.p.b, r)
			k := na.key() + nb.key()
			if !seen[k] {
				seen[k] = true
				if len(seen) > 20000 {
					return false, "the expressions are too large to compare"
				}
				q = append(q, item{pair{na, nb}, it.w + string(r)})
			}
		}
	}
	return true, ""
}

// capture finds a group and the expressions around it, outermost first.
func capture(r *syntax.Regexp, k int) []*syntax.Regexp {
	if r.Op == syntax.OpCapture && r.Cap == k {
		return []*syntax.Regexp{r}
	}
	for _, s := range r.Sub {
		if p := capture(s, k); p != nil {
			return append([]*syntax.Regexp{r}, p...)
		}
	}
	return nil
}

// without is the expression with a part replaced by the empty string.
func without(r, part *syntax.Regexp) *syntax.Regexp {
	if r == part {
		return &syntax.Regexp{Op: syntax.OpEmptyMatch}
	}
	c := *r
	c.Sub = make([]*syntax.Regexp, len(r.Sub))
	for i, s := range r.Sub {
		c.Sub[i] = without(s, part)
	}
	return &c
}

// mandatory is the expression with an optional part made to take part.
func mandatory(r, part *syntax.Regexp) *syntax.Regexp {
	if r == part {
		return r.Sub[0]
	}
	c := *r
	c.Sub = make([]*syntax.Regexp, len(r.Sub))
	for i, s := range r.Sub {
		c.Sub[i] = mandatory(s, part)
	}
	return &c
}

// nonEmptyRe reports whether the expression never matches the empty string.
func nonEmptyRe(r *syntax.Regexp) bool {
	n := nfaOf(r, true)
	return !n.bad && !n.start().accepts()
}
