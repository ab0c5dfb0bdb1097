package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 64

// loop interprets the loop entered from prev and provides how it is left.
func (fr *frame) loop(l *natLoop, prev *ssa.BasicBlock, fs *fstate, n int) []exit {
	if n < maxUnroll && !fr.e.Cfg.NoUnroll {
		switch fr.peek(l, prev, fs) {
		case 1:
			// a traversal of a known table: take the iteration as it is.
			var out []exit
			for _, x := range fr.run(l.header, prev, fs, l, false) {
				if x.kind == "edge" && x.to == l.header {
					out = append(out, fr.loop(l, x.from, x.fs, n+1)...)
					continue
				}
				out = append(out, x)
			}
			return out
		case 0:
			return fr.run(l.header, prev, fs, l, false)
		}
	}
	return fr.generic(l, prev, fs)
}

// peek evaluates the loop condition without effects: 1 or 0 if it is a
// constant, -1 otherwise.
func (fr *frame) peek(l *natLoop, prev *ssa.BasicBlock, fs *fstate) int {
	f2 := &fstate{env: cloneEnv(fs.env), st: fs.st}
	for b, d := l.header, 0; d < 3; d++ {
		c, iff, next := fr.peekAt(l, b, prev, fs, f2)
		if c != 1 {
			return c
		}
		// that a flag is not set yet does not tell how often.
		cond := iff.Cond
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond = u.X
		}
		if p, ok := cond.(*ssa.Phi); !ok || p.Block() != l.header || len(next.Preds) != 1 {
			return 1
		}
		b = next
	}
	return -1
}

// peekAt is the same for one of the conditions.
func (fr *frame) peekAt(l *natLoop, h, prev *ssa.BasicBlock, fs, f2 *fstate) (int, *ssa.If, *ssa.BasicBlock) {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return -1, nil, nil
	}
	in, out := 0, 0
	var next *ssa.BasicBlock
	for _, s := range h.Succs {
		if l.blocks[s] {
			in++
			next = s
		} else {
			out++
		}
	}
	if in != 1 || out != 1 {
		return -1, nil, nil
	}
	for _, instr := range h.Instrs {
		switch x := instr.(type) {
		case *ssa.Phi:
			if h != l.header {
				return -1, nil, nil
			}
			f2.env[x] = fr.phiVal(x, h, prev, fs)
		case *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr:
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.ARROW {
				return -1, nil, nil
			}
			obl := fr.e.Cfg.Obligations
			fr.e.Cfg.Obligations = false
			fr.instr(instr, f2)
			fr.e.Cfg.Obligations = obl
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return -1, nil, nil
			}
			fr.instr(instr, f2)
		case *ssa.If, *ssa.DebugRef:
		default:
			return -1, nil, nil
		}
	}
	c := fr.get(f2, iff.Cond)
	if l.blocks[h.Succs[1]] {
		c = mkNot(c)
	}
	if c.isTrue() {
		return 1, iff, next
	}
	if c.isFalse() {
		return 0, iff, next
	}
	return -1, nil, nil
}

// derivation says that a loop variable is always a function of another one.
type derivation struct {
	of *Term // the variable
	k  *Term // its value in terms of derX
}

var derX = raw("sym", "derived", nil)

// whole is the value of the variable in an arbitrary iteration.
func (d derivation) whole() *Term { return d.at(d.of) }

func (d derivation) at(x *Term) *Term {
	return subst(d.k, map[*Term]*Term{derX: x}, map[*Term]*Term{})
}

// generic summarizes a loop by one arbitrary iteration. What the first summary
// tells about its variables, that one is a function of another or is never
// more than the number of iterations, is used to summarize it again.
func (fr *frame) generic(l *natLoop, prev *ssa.BasicBlock, fs *fstate) []exit {
	e := fr.e
	var exits []exit
	der := map[*Term]derivation{}
	for pass := 0; pass < 4; pass++ {
		saved := fs.clone()
		obls := map[string]*Obl{}
		for k, o := range e.Obls {
			c := *o
			obls[k] = &c
		}
		ex, lp := fr.summarize(l, prev, saved, der)
		if ex == nil {
			e.Obls = obls
			break
		}
		exits = ex
		grew := e.trailing(lp)
		for k, d := range derivations(lp) {
			if _, had := der[k]; !had {
				der[k] = d
				grew = true
			}
		}
		if !grew || pass == 3 {
			break
		}
		e.Obls = obls
	}
	return exits
}

// trailing finds the variables that are never negative and never more than the
// number of iterations made and a constant: they are only set to constants, to
// that number and a constant, or to one more, which is it in the next iteration.
func (e *Engine) trailing(lp *Loop) bool {
	grew := false
	ctr := lp.Idx
	if lp.KeyT != nil && !lp.IsMap {
		// positions in a string, which only get greater.
		ctr = lp.KeyT
	}
	for _, f := range lp.Folds {
		c, isC := f.Init.intv()
		if !isInt(f.Sym.Typ) || !isC || c < 0 || len(f.Next) == 0 || e.trail[f.Sym] != nil {
			continue
		}
		ok := true
		k := c
		for _, x := range f.Next {
			n := int64(0)
			switch {
			case x == nil:
				ok = false
				continue
			case x == f.Sym:
				continue
			case x == ctr:
			case x.Op == "bin" && x.Aux == "+" && x.Args[0] == ctr:
				n, isC = x.Args[1].intv()
				ok = ok && isC && n >= 0
			default:
				n, isC = x.intv()
				ok = ok && isC && n >= 0
			}
			ok = ok && (ctr == lp.Idx || n <= 1)
			k = max(k, n-1)
		}
		if ok && (ctr == lp.Idx || k == 0) {
			e.trail[f.Sym] = mkBin("+", ctr, tInt(k), lp.Idx.Typ)
			grew = true
		}
	}
	return grew
}

// derivations finds the variables of a loop that are functions of others.
func derivations(lp *Loop) map[*Term]derivation {
	var out map[*Term]derivation
	root := map[*Term]bool{}
	// the variables that count the iterations.
	for _, g := range lp.Folds {
		if len(g.Next) == 0 || !isInt(g.Sym.Typ) || mentions(g.Init, lp.ID) {
			continue
		}
		up, down := true, true
		for _, y := range g.Next {
			up = up && y == mkBin("+", g.Sym, tInt(1), g.Sym.Typ)
			down = down && (y == mkBin("-", g.Sym, tInt(1), g.Sym.Typ) || y == mkBin("+", g.Sym, tInt(-1), g.Sym.Typ))
		}
		k := raw("sym", "none", nil)
		if up {
			k = mkBin("+", derX, g.Init, g.Sym.Typ)
		} else if down {
			k = mkBin("-", g.Init, derX, g.Sym.Typ)
		} else {
			continue
		}
		if out == nil {
			out = map[*Term]derivation{}
		}
		out[g.Sym] = derivation{lp.Idx, k}
		root[g.Sym] = true
	}
	for _, g := range lp.Folds {
		if root[g.Sym] {
			continue
		}
		for _, f := range lp.Folds {
			if f == g || out[f.Sym].k != nil {
				continue
			}
			var k *Term
			for i, x := range f.Next {
				y := g.Next[i]
				if x == nil || y == nil || x == f.Sym || y == g.Sym || x == y || x.isConst() || !y.contains(x) {
					continue
				}
				k = subst(y, map[*Term]*Term{x: derX}, map[*Term]*Term{})
				break
			}
			if k == nil || k == derX || mentions(k, lp.ID) {
				continue
			}
			d := derivation{f.Sym, k}
			if d.at(f.Init) != g.Init {
				continue
			}
			ok := true
			for i, x := range f.Next {
				y := g.Next[i]
				ok = ok && x != nil && y != nil && (x == f.Sym && y == g.Sym || d.at(x) == y)
			}
			if !ok {
				continue
			}
			if out == nil {
				out = map[*Term]derivation{}
			}
			out[g.Sym] = d
			root[f.Sym] = true
			break
		}
	}
	return out
}

// summarize runs one arbitrary iteration; der gives the variables known to be
// functions of others. The result is nil if they turn out not to be.
func (fr *frame) summarize(l *natLoop, prev *ssa.BasicBlock, fs *fstate, der map[*Term]derivation) ([]exit, *Loop) {
	e := fr.e
	stand := func(t *Term) *Term {
		if d, ok := der[t]; ok {
			return d.whole()
		}
		return t
	}
	h := l.header
	base := fmt.Sprintf("%s.%d", e.P.fkey(fr.fn), h.Index)
	fs.st.occ["loop:"+base]++
	id := fmt.Sprintf("L(%s#%d)", base, fs.st.occ["loop:"+base])
	entryOcc := map[string]int{}
	for k, v := range fs.st.occ {
		entryOcc[k] = v
	}
	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	initOf := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		if prev == nil {
			initOf[p] = raw("sym", "entry:"+p.Name(), p.Type())
		} else {
			initOf[p] = fr.phiVal(p, h, prev, fs)
		}
	}
	idx := raw("idx", id, types.Typ[types.Int])
	symOf := map[*ssa.Phi]*Term{}
	cells := map[*ssa.Phi]*Term{}
	counter := map[*ssa.Phi]int64{}
	for _, p := range phis {
		if isCellPhi(p) {
			// a variable of the loop that is captured: each iteration has its
			// own copy.
			t := elemOf(p.Type())
			o := raw("obj", id+".cell."+phiName(p), p.Type())
			births[o] = birth{"loop:" + base, entryOcc["loop:"+base]}
			symOf[p] = o
			cells[p] = stand(raw("sym", id+"."+phiName(p), t))
		} else if c, ok := fr.counterStep(l, p); ok {
			counter[p] = c
			if c == 1 {
				symOf[p] = mkBin("+", idx, initOf[p], types.Typ[types.Int])
			} else {
				symOf[p] = mkBin("-", initOf[p], idx, types.Typ[types.Int])
			}
		} else {
			symOf[p] = stand(raw("sym", id+"."+phiName(p), p.Type()))
		}
	}
	// a flag that ends the loop: the iteration that sets it is the last.
	flag, bound := l.stopFlag(phis, func(p *ssa.Phi) *Term {
		if cells[p] != nil {
			return nil
		}
		return initOf[p]
	})
	if flag != nil {
		symOf[flag] = initOf[flag]
	}
	havM := map[*Term]*Term{}
	havC := map[*Term]*Term{}
	var exits []exit
	var startOrder, startTrace, startQ int
	var startSt *State
	for round := 0; ; round++ {
		if round > 12 {
			e.bail("loop in %s does not stabilize", fr.fn)
		}
		it := fs.clone()
		it.st.loopIDs = append(it.st.loopIDs, id)
		for _, p := range phis {
			it.env[p] = symOf[p]
			if v := cells[p]; v != nil {
				it.st.mem[symOf[p]] = v
			}
		}
		for k, s := range havM {
			it.st.mem[k] = s
		}
		for k, s := range havC {
			it.st.cont[k] = s
		}
		startOrder, startTrace, startQ = len(it.st.order), len(it.st.trace), len(it.st.quants)
		startSt = it.st.clone()
		exits = fr.run(h, prev, it, l, true)
		if flag != nil {
			exits = fr.stopped(l, flag, initOf[flag], phis, exits)
			if exits == nil {
				e.bail("loop in %s goes on although it has ended", fr.fn)
			}
		}
		grew := false
		for _, x := range exits {
			if x.kind != "edge" || x.to != h {
				continue
			}
			for k, v := range x.fs.st.mem {
				if _, ok := havM[k]; ok || isFresh(k, entryOcc) || isCell(cells, symOf, k) {
					continue
				}
				old, had := startSt.mem[k]
				if had && old == v {
					continue
				}
				if !had && k.Op == "obj" {
					continue
				}
				if !had && (k.contains(idx) || mentions(k, id)) {
					continue
				}
				t := elemOf(k.Typ)
				havM[k] = stand(raw("sym", id+".mem."+k.Aux+fmt.Sprint(k.id), t))
				grew = true
			}
			for k, v := range x.fs.st.cont {
				if _, ok := havC[k]; ok || isFresh(k, entryOcc) {
					continue
				}
				old, had := startSt.cont[k]
				if had && old == v {
					continue
				}
				if mentions(k, id) || k.contains(idx) {
					continue
				}
				havC[k] = stand(raw("sym", id+".cont."+fmt.Sprint(k.id), k.Typ))
				grew = true
			}
		}
		if !grew {
			break
		}
	}
	lp := &Loop{ID: id, Fn: fr.fn, Header: h, Idx: idx, Entry: entryOcc}
	// what is traversed.
	if iff, ok := bound.Instrs[len(bound.Instrs)-1].(*ssa.If); ok {
		var cond *Term
		// the condition as evaluated in the arbitrary iteration.
		for _, x := range exits {
			if x.fs.env[iff.Cond] != nil && !x.set {
				cond = x.fs.env[iff.Cond]
				break
			}
		}
		if cond != nil {
			if l.blocks[bound.Succs[1]] && !l.blocks[bound.Succs[0]] {
				cond = mkNot(cond)
			}
			fr.traversal(lp, cond, idx)
			for _, in := range h.Instrs {
				if nx, ok := in.(*ssa.Next); ok && lp.KeyT != nil {
					if it := fs.env[nx.Iter]; it != nil && it.Op == "range" {
						lp.MapT = it.Args[0]
					}
				}
			}
		}
	}
	// one entry per way to reach the next iteration.
	type fold struct {
		f    *Fold
		phi  *ssa.Phi
		mk   *Term
		ck   *Term
		init *Term
		sym  *Term
	}
	var folds []*fold
	for _, p := range phis {
		if _, ok := counter[p]; ok || p == flag {
			continue
		}
		if v := cells[p]; v != nil {
			folds = append(folds, &fold{f: &Fold{Name: phiName(p), Pos: p.Pos()}, phi: p, init: e.load(fs.st, initOf[p], elemOf(p.Type())), sym: v})
			continue
		}
		folds = append(folds, &fold{f: &Fold{Name: phiName(p), Pos: p.Pos()}, phi: p, init: initOf[p], sym: symOf[p]})
	}
	for k, s := range havM {
		init := fs.st.mem[k]
		if init == nil {
			init = e.load(fs.st, k, elemOf(k.Typ))
		}
		folds = append(folds, &fold{f: &Fold{Name: k.Aux}, mk: k, init: init, sym: s})
	}
	for k, s := range havC {
		init := fs.st.cont[k]
		if init == nil {
			init = e.contents(fs.st, k)
		}
		folds = append(folds, &fold{f: &Fold{Name: k.Aux}, ck: k, init: init, sym: s})
	}
	for _, x := range exits {
		conds := append([]Lit{}, x.fs.st.order[startOrder:]...)
		evs := append([]*Event{}, x.fs.st.trace[startTrace:]...)
		if x.kind == "edge" && x.to == h {
			lp.Iters = append(lp.Iters, Iter{Conds: conds, Events: evs, Quants: append([]Quant{}, x.fs.st.quants[startQ:]...)})
			for _, f := range folds {
				var v *Term
				switch {
				case f.phi != nil:
					v = fr.phiVal(f.phi, h, x.from, x.fs)
					if cells[f.phi] != nil {
						v = e.load(x.fs.st, v, elemOf(f.phi.Type()))
					}
				case f.mk != nil:
					v = x.fs.st.mem[f.mk]
				default:
					v = x.fs.st.cont[f.ck]
				}
				f.f.Next = append(f.f.Next, v)
			}
			continue
		}
		kind := "break"
		switch {
		case x.kind == "ret":
			kind = "return"
		case x.kind == "panic":
			kind = "panic"
		case x.from == bound && !x.set:
			kind = "normal"
		}
		le := LoopExit{Kind: kind, Conds: conds, Events: evs, Ret: x.ret}
		lp.Exits = append(lp.Exits, le)
	}
	if len(der) > 0 {
		var rest []*fold
		for _, f := range folds {
			if f.sym.Op == "sym" {
				rest = append(rest, f)
				continue
			}
			// what it is a function of.
			ok := false
			for _, d := range der {
				if d.whole() != f.sym {
					continue
				}
				if d.of == idx {
					ok = f.init == d.at(tInt(0))
					for _, x := range f.f.Next {
						ok = ok && x == d.at(mkBin("+", idx, tInt(1), idx.Typ))
					}
					break
				}
				if f.init != d.at(initIn(folds, d.of, func(g *fold) (*Term, *Term) { return g.sym, g.init })) {
					continue
				}
				ok = true
				for _, g := range folds {
					if g.sym != d.of {
						continue
					}
					for i, x := range g.f.Next {
						ok = ok && x != nil && f.f.Next[i] == d.at(x)
					}
				}
				break
			}
			if !ok {
				return nil, nil
			}
		}
		folds = rest
	}
	for _, f := range folds {
		f.f.Loop, f.f.Init, f.f.Sym = lp, f.init, f.sym
		var sb strings.Builder
		fmt.Fprintf(&sb, "%s|%s|%d|%d", id, f.f.Name, f.init.id, f.sym.id)
		for i, nx := range f.f.Next {
			fmt.Fprintf(&sb, "|%d", nx.id)
			for _, c := range sortedLits(lp.Iters[i].Conds) {
				fmt.Fprintf(&sb, ",%d%v", c.Atom.id, c.Pol)
			}
		}
		f.f.ID = hashID(sb.String())
		tt.folds[f.f.ID] = f.f
		lp.Folds = append(lp.Folds, f.f)
	}
	// leave.
	var out []exit
	for _, x := range exits {
		if x.kind == "edge" && x.to == h {
			continue
		}
		st := x.fs.st
		st.loopIDs = fs.st.loopIDs
		kind := "break"
		switch {
		case x.kind == "ret":
			kind = "return"
		case x.kind == "panic":
			kind = "panic"
		case x.from == bound && !x.set:
			kind = "normal"
		}
		ev := &Event{Kind: "loop", Fn: fr.fn, Site: h.Instrs[0], Loop: lp, ExitKind: kind, NFacts: startOrder}
		tr := append([]*Event{}, st.trace[:startTrace]...)
		tr = append(tr, ev)
		tr = append(tr, st.trace[startTrace:]...)
		st.trace = tr
		for _, le := range lp.Exits {
			if le.Kind == "normal" || len(le.Conds) == 0 {
				continue
			}
			st.quants = append(st.quants, Quant{Loop: lp, Conds: le.Conds})
		}
		if kind == "normal" {
			m := map[*Term]*Term{}
			for _, f := range folds {
				var ft *Term
				if len(f.f.Next) == 0 || allSame(f.f.Next, f.sym) {
					ft = f.init
				} else {
					ft = raw("fold", f.f.ID, f.sym.Typ)
					if j := joined(f.f, lp.Folds); j != nil {
						ft = j
					}
				}
				m[f.sym] = ft
			}
			if lp.Coll != nil && !lp.Rev {
				m[idx] = mkLen(lp.Coll)
			} else if lp.Bound != nil {
				m[idx] = lp.Bound
			} else {
				m[idx] = raw("idxend", id, types.Typ[types.Int])
			}
			for _, f := range folds {
				if ft := m[f.sym]; ft != nil && e.trail[f.sym] != nil && ft.Op == "fold" {
					if k := lp.KeyT; k != nil && !lp.IsMap {
						// positions and one more are at most the length.
						e.trail[ft] = mkLen(k.Args[0])
						continue
					}
					e.trail[ft] = subst(e.trail[f.sym], m, map[*Term]*Term{})
				}
			}
			// facts of the header about the arbitrary iteration say nothing
			// about the state after the loop.
			kept := st.order[:startOrder:startOrder]
			for _, lt := range st.order[startOrder:] {
				delete(st.facts, lt.Atom)
			}
			memo := map[*Term]*Term{}
			var re []Lit
			for _, lt := range st.order[startOrder:] {
				if a := subst(lt.Atom, m, memo); a != lt.Atom && !a.isConst() && !mentions(a, id) {
					re = append(re, Lit{a, lt.Pol})
				}
			}
			st.order = kept
			for _, lt := range re {
				if lp.Coll == nil && lp.Bound == nil {
					st.assume(lt.Atom, lt.Pol)
				}
			}
			for k, v := range x.fs.env {
				in, ok := k.(ssa.Instruction)
				if ok && in.Parent() == fr.fn && l.blocks[in.Block()] {
					x.fs.env[k] = subst(v, m, memo)
				}
			}
			for k, v := range st.mem {
				if _, ok := havM[k]; ok || v.Op != "const" {
					st.mem[k] = subst(v, m, memo)
				}
			}
			for k, v := range st.cont {
				st.cont[k] = subst(v, m, memo)
			}
		}
		out = append(out, x)
	}
	return out, lp
}

// stopFlag recognizes a variable that ends the loop once it is not what it is
// at first, which is tested before anything else is done but for comparing
// the bound. It also provides the block that compares the bound.
func (l *natLoop) stopFlag(phis []*ssa.Phi, init func(p *ssa.Phi) *Term) (*ssa.Phi, *ssa.BasicBlock) {
	h := l.header
	test := func(b *ssa.BasicBlock) (*ssa.If, *ssa.BasicBlock) {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if b != h {
					return nil, nil
				}
			case *ssa.BinOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Field:
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return nil, nil
				}
			case *ssa.Call:
				if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
					return nil, nil
				}
			case *ssa.If:
				for i, s := range b.Succs {
					if l.blocks[s] && s != h && !l.blocks[b.Succs[1-i]] {
						return x, s
					}
				}
				return nil, nil
			default:
				return nil, nil
			}
		}
		return nil, nil
	}
	bound := h
	for b, d := h, 0; d < 3; d++ {
		iff, next := test(b)
		if iff == nil {
			return nil, h
		}
		cond, on := iff.Cond, b.Succs[0] != next // leaves when cond is this
		for {
			u, ok := cond.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			cond, on = u.X, !on
		}
		if p, ok := cond.(*ssa.Phi); ok && p.Block() == h {
			if v := init(p); v != nil && (v.isTrue() || v.isFalse()) && v.isTrue() != on {
				if b == h {
					if i2, _ := test(next); i2 != nil && len(next.Preds) == 1 {
						bound = next
					}
				}
				return p, bound
			}
		}
		if len(next.Preds) != 1 {
			return nil, h
		}
		b = next
	}
	return nil, h
}

// stopped turns the iterations that set the flag of a loop into ways to leave
// it. The result is nil if some do not leave.
func (fr *frame) stopped(l *natLoop, flag *ssa.Phi, init *Term, phis []*ssa.Phi, exits []exit) []exit {
	out := []exit{}
	for _, x := range exits {
		if x.kind != "edge" || x.to != l.header {
			out = append(out, x)
			continue
		}
		v := fr.phiVal(flag, l.header, x.from, x.fs)
		if v == init {
			out = append(out, x)
			continue
		}
		sets := x.fs
		if !v.isConst() {
			stays := x.fs.clone()
			if stays.st.assume(v, init.isTrue()) {
				y := x
				y.fs = stays
				out = append(out, y)
			}
			sets = x.fs.clone()
			if !sets.st.assume(v, !init.isTrue()) {
				continue
			}
		}
		vals := map[*ssa.Phi]*Term{}
		for _, p := range phis {
			vals[p] = fr.phiVal(p, l.header, x.from, sets)
		}
		vals[flag] = tBool(!init.isTrue())
		for p, v := range vals {
			sets.env[p] = v
		}
		after := sets.st.clone()
		var seen []exit
		for _, y := range fr.run(l.header, nil, sets, l, true) {
			if y.kind != "edge" || y.to == l.header {
				return nil
			}
			dup := false
			for _, z := range seen {
				same := z.to == y.to
				for _, in := range y.to.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					same = same && fr.phiVal(p, y.to, y.from, y.fs) == fr.phiVal(p, z.to, z.from, z.fs)
				}
				dup = dup || same
			}
			if dup {
				continue
			}
			// how the bound compares then does not matter.
			y.fs.st = after.clone()
			y.set = true
			seen = append(seen, y)
			out = append(out, y)
		}
	}
	return out
}

// isCellPhi reports whether the phi is the current copy of a captured variable.
func isCellPhi(p *ssa.Phi) bool {
	if _, ok := p.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for _, v := range p.Edges {
		if _, ok := v.(*ssa.Alloc); !ok {
			return false
		}
	}
	return true
}

func isCell(cells, symOf map[*ssa.Phi]*Term, k *Term) bool {
	for p := range cells {
		if symOf[p] == k {
			return true
		}
	}
	return false
}

// initIn is what the variable with symbol s starts from.
func initIn[F any](fs []F, s *Term, of func(F) (*Term, *Term)) *Term {
	for _, f := range fs {
		if sym, init := of(f); sym == s {
			return init
		}
	}
	return s
}

func allSame(ts []*Term, s *Term) bool {
	for _, t := range ts {
		if t != s {
			return false
		}
	}
	return true
}

// mentions reports whether the term refers to a value of the loop.
func mentions(t *Term, id string) bool {
	return t.any(func(x *Term) bool {
		return (x.Op == "sym" || x.Op == "idx" || x.Op == "idxend") && strings.HasPrefix(x.Aux, id)
	})
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment + "." + p.Name()
	}
	return p.Name()
}

// counterStep recognizes a variable that every iteration changes by one.
func (fr *frame) counterStep(l *natLoop, p *ssa.Phi) (int64, bool) {
	if !isInt(p.Type()) {
		return 0, false
	}
	step := int64(0)
	any := false
	for i, pr := range p.Block().Preds {
		if !l.blocks[pr] {
			continue
		}
		any = true
		b, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || b.X != ssa.Value(p) {
			return 0, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		v := c.Int64()
		if b.Op == token.SUB {
			v = -v
		} else if b.Op != token.ADD {
			return 0, false
		}
		if v != 1 && v != -1 || step != 0 && v != step {
			return 0, false
		}
		step = v
	}
	return step, any
}

// traversal works out what the loop runs over from its condition.
func (fr *frame) traversal(lp *Loop, cond, idx *Term) {
	switch {
	case cond.Op == "bin" && cond.Aux == "<" && cond.Args[0] == idx:
		b := cond.Args[1]
		if b.Op == "len" {
			lp.Coll = b.Args[0]
		} else {
			lp.Bound = b
		}
		lp.Pos = idx
	case cond.Op == "not" && cond.Args[0].Op == "bin" && cond.Args[0].Aux == "<" && cond.Args[0].Args[1].isConst():
		// !(init - idx < 0)
		x := cond.Args[0].Args[0]
		if c, _ := cond.Args[0].Args[1].intv(); c == 0 && x.Op == "bin" && x.Aux == "-" && x.Args[1] == idx {
			in := x.Args[0]
			if in.Op == "bin" && in.Aux == "+" && in.Args[0].Op == "len" {
				if k, ok := in.Args[1].intv(); ok && k == -1 {
					lp.Coll = in.Args[0].Args[0]
					lp.Rev = true
					lp.Pos = x
				}
			}
		}
	case cond.Op == "sym" && strings.HasSuffix(cond.Aux, ".ok"):
		for _, in := range lp.Header.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				lp.IsMap = !nx.IsString
				lp.KeyT = raw("sym", strings.TrimSuffix(cond.Aux, ".ok")+".key", nx.Type().(*types.Tuple).At(1).Type(), cond.Args...)
			}
		}
	}
}

func hashID(s string) string {
	if foldIDs == nil {
		foldIDs = map[string]string{}
	}
	if r, ok := foldIDs[s]; ok {
		return r
	}
	r := fmt.Sprintf("F%d", len(foldIDs)+1)
	foldIDs[s] = r
	return r
}

var foldIDs map[string]string

func foldOf(t *Term) *Fold {
	if t.Op != "fold" {
		return nil
	}
	return tt.folds[t.Aux]
}
