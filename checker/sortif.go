package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// sortedThrough works out what sort.Sort and sort.Stable do with a value: the
// slice they sort and the comparison, provided that its Len is the length of
// that slice and its Swap swaps two elements of it. The comparison is the term
// method, with the function and its receiver; Aux tells whether it is reversed.
func (fr *frame) sortedThrough(v *Term, fs *fstate) (slice, less *Term) {
	if v.Op == "call" && v.Aux == "sort.Reverse" && len(v.Args) == 1 {
		s, l := fr.sortedThrough(v.Args[0], fs)
		if l == nil {
			return s, nil
		}
		r := raw("method", "reversed", nil, l.Args...)
		if l.Aux == "reversed" {
			r = raw("method", "", nil, l.Args...)
		}
		r.Fn = l.Fn
		return s, r
	}
	if v.Op != "mk" {
		return v, nil
	}
	e, t, recv := fr.e, v.Typ, v.Args[0]
	ln, sw, ls := e.P.methodOf(t, "Len"), e.P.methodOf(t, "Swap"), e.P.methodOf(t, "Less")
	if ln == nil || sw == nil || ls == nil || len(sw.Params) != 3 || len(ls.Params) != 3 {
		return recv, nil
	}
	sub := newEngine(e.P, Cfg{Opaque: func(*ssa.Function) bool { return false }})
	outs, err := sub.runFree(ln, []*Term{recv}, nil, fs.st.clone())
	if err != nil || len(outs) != 1 || outs[0].Panic != nil || len(outs[0].Ret) != 1 {
		return recv, nil
	}
	n := outs[0].Ret[0]
	i, j := raw("sym", "i", types.Typ[types.Int]), raw("sym", "j", types.Typ[types.Int])
	outs, err = sub.runFree(sw, []*Term{recv, i, j}, nil, fs.st.clone())
	if err != nil || len(outs) != 1 || outs[0].Panic != nil {
		return recv, nil
	}
	// the one slice whose contents Swap changed.
	for k, after := range outs[0].St.cont {
		if old, ok := fs.st.cont[k]; ok && old == after {
			continue
		}
		if slice != nil {
			return recv, nil
		}
		c := e.contents(fs.st, k)
		a, b := mkIndex(c, i, nil), mkIndex(c, j, nil)
		if mkLen(c) != n || after != mkUpd(mkUpd(c, i, b, c.Typ), j, a, c.Typ) && after != mkUpd(mkUpd(c, j, a, c.Typ), i, b, c.Typ) {
			return recv, nil
		}
		slice = k
	}
	if slice == nil {
		return recv, nil
	}
	for k, m := range outs[0].St.mem {
		if old, ok := fs.st.mem[k]; (!ok || old != m) && !fresh(k) {
			return recv, nil
		}
	}
	less = raw("method", "", nil, recv, raw("fn", e.P.fkey(ls), nil))
	less.Fn = ls
	return slice, less
}

// fresh reports whether an address is one of a variable of its function.
func fresh(k *Term) bool {
	for k.Op == "faddr" || k.Op == "iaddr" {
		k = k.Args[0]
	}
	return k.Op == "obj"
}

// comparator provides the function of a sort, the arguments that precede the
// elements, its captured values, and whether its result is reversed.
func (c *Ctx) comparator(less *Term) (f *ssa.Function, args, free []*Term, reversed bool) {
	switch less.Op {
	case "closure", "fn":
		return less.Fn, nil, less.Args, false
	case "method":
		return less.Fn, less.Args[:1:1], nil, less.Aux == "reversed"
	}
	return nil, nil, nil, false
}
