package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type forkRes struct {
	fs       *fstate
	panicked bool
	at       ssa.Instruction
}

// birth remembers where and as which occurrence an object was made.
type birth struct {
	site string
	k    int
}

var births = map[*Term]birth{}

// fresh makes a new object of the given kind for the instruction.
func (fr *frame) fresh(fs *fstate, op string, in ssa.Instruction, typ types.Type, args ...*Term) *Term {
	site := fmt.Sprintf("%s:%s.%s", op, fr.e.P.fkey(fr.fn), regName(in))
	fs.st.occ[site]++
	k := fs.st.occ[site]
	aux := site
	if c, ok := in.(*ssa.Alloc); ok && c.Comment != "" {
		aux = c.Comment + "@" + site
	}
	if k > 1 {
		aux += "#" + strconv.Itoa(k)
	}
	t := raw(op, aux, typ, args...)
	births[t] = birth{site, k}
	return t
}

func regName(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return v.Name()
	}
	return "?"
}

// isFresh reports whether the object was made after the state with the
// provided occurrence counts.
func isFresh(t *Term, occ map[string]int) bool {
	b, ok := births[t]
	return ok && b.k > occ[b.site]
}

// addrRoot is what an address is relative to.
func addrRoot(a *Term) *Term {
	for a.Op == "faddr" || a.Op == "iaddr" {
		a = a.Args[0]
	}
	return a
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Byte]
		}
	}
	return nil
}

func isPtrToArray(t types.Type) bool {
	if t == nil {
		return false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

// load reads memory.
func (e *Engine) load(st *State, a *Term, typ types.Type) *Term {
	if v, ok := st.mem[a]; ok {
		return v
	}
	switch a.Op {
	case "faddr":
		return mkField(e.load(st, a.Args[0], elemOf(a.Args[0].Typ)), a.Aux, typ)
	case "iaddr":
		b := a.Args[0]
		if isPtrToArray(b.Typ) {
			return mkIndex(e.load(st, b, elemOf(b.Typ)), a.Args[1], typ)
		}
		return mkIndex(e.contents(st, b), a.Args[1], typ)
	case "global":
		return e.loadGlobal(a, typ)
	}
	return raw("deref", "", typ, a)
}

// store writes memory functionally.
func (e *Engine) store(st *State, a, v *Term, typ types.Type) {
	switch a.Op {
	case "faddr":
		base := a.Args[0]
		bt := elemOf(base.Typ)
		old := e.load(st, base, bt)
		e.store(st, base, mkSetField(old, bt, a.Aux, v), bt)
		return
	case "iaddr":
		b := a.Args[0]
		if isPtrToArray(b.Typ) {
			bt := elemOf(b.Typ)
			e.store(st, b, mkUpd(e.load(st, b, bt), a.Args[1], v, bt), bt)
			return
		}
		e.written(st, b, mkUpd(e.contents(st, b), a.Args[1], v, b.Typ))
		return
	}
	st.mem[a] = v
}

// contents is what a slice or map currently holds.
func (e *Engine) contents(st *State, t *Term) *Term {
	if c, ok := st.cont[t]; ok {
		return c
	}
	if t.Op == "built" {
		return tStr("")
	}
	if t.Op == "gval" {
		if s := e.staticOf(t); s != nil {
			return s
		}
	}
	if t.Op == "mkslice" {
		if n, ok := t.Args[0].intv(); ok && n >= 0 && n <= 64 {
			if el := elemOf(t.Typ); el != nil {
				zs := make([]*Term, n)
				for i := range zs {
					zs[i] = mkZero(el)
				}
				return raw("list", "", t.Typ, zs...)
			}
		}
	}
	return t
}

// val is the value of a term with modified contents resolved.
func (e *Engine) val(st *State, t *Term) *Term {
	if c, ok := st.cont[t]; ok {
		return c
	}
	if t.Op == "mk" {
		if c, ok := st.cont[t.Args[0]]; ok {
			return raw("mk", t.Aux, t.Typ, c)
		}
	}
	return t
}

// now is a value with the lists that it consists of as they are now.
func now(st *State, t *Term, d int) *Term {
	if d > 6 || len(st.cont) == 0 {
		return t
	}
	if c, ok := st.cont[t]; ok && c != t {
		switch {
		case t.Op == "mkmap" || c.Op == "mapset" || c.Op == "mapdel":
			return t
		}
		return c
	}
	switch t.Op {
	case "struct", "mk", "conv", "list", "tuple":
	default:
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = now(st, a, d+1)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	return rebuild(t, args)
}

// written notes what a list contains now. What it is a part of changes too.
func (e *Engine) written(st *State, b, c *Term) {
	st.cont[b] = c
	for d := 0; b.Op == "slice" && d < 4; d++ {
		lo, x := b.Args[1], b.Args[0]
		old := e.contents(st, x)
		if c.Op == "upd" && (lo.isNil() || lo.Op == "const") {
			i := c.Args[1]
			if n, ok := lo.intv(); ok {
				i = mkBin("+", i, tInt(n), nil)
			}
			c = mkUpd(old, i, c.Args[2], x.Typ)
		} else {
			c = raw("sym", "written through a part of it", x.Typ, old, c)
		}
		st.cont[x] = c
		b = x
	}
}

func mkUpd(base, i, v *Term, typ types.Type) *Term {
	if n, ok := i.intv(); ok && (base.Op == "list" || base.Op == "array") && n >= 0 && int(n) < len(base.Args) {
		args := append([]*Term{}, base.Args...)
		args[n] = v
		return raw(base.Op, base.Aux, base.Typ, args...)
	}
	if base.Op == "upd" && base.Args[1] == i {
		base = base.Args[0]
	}
	return raw("upd", "", typ, base, i, v)
}

func mkLookup(m, k *Term, typ types.Type) *Term {
	for m.Op == "mapset" {
		if m.Args[1] == k {
			return m.Args[2]
		}
		if m.Args[1].isConst() && k.isConst() {
			m = m.Args[0]
			continue
		}
		return raw("lookup", "", typ, m, k)
	}
	if m.Op == "mkmap" || m.isNil() {
		return mkZero(typ)
	}
	return raw("lookup", "", typ, m, k)
}

func mkHas(m, k *Term) *Term {
	for m.Op == "mapset" {
		if m.Args[1] == k {
			return tBool(true)
		}
		if m.Args[1].isConst() && k.isConst() {
			m = m.Args[0]
			continue
		}
		return raw("has", "", types.Typ[types.Bool], m, k)
	}
	if m.Op == "mkmap" || m.isNil() {
		return tBool(false)
	}
	return raw("has", "", types.Typ[types.Bool], m, k)
}

// loadGlobal provides the value of a package variable.
func (e *Engine) loadGlobal(a *Term, typ types.Type) *Term {
	g := e.globals()[a.Aux]
	if g == nil {
		return raw("gval", a.Aux, typ)
	}
	if _, mut := e.P.mutated[g]; mut {
		return raw("deref", "", typ, a)
	}
	t := raw("gval", a.Aux, typ)
	if e.noStatic {
		return t
	}
	if s := e.staticOf(t); s != nil {
		if neverNil(s) {
			errGlobal[t.Aux] = true
		}
		switch s.Op {
		case "const", "fn", "closure":
			return s
		case "mk":
			// an error or another boxed value keeps its name.
			return t
		}
	}
	return t
}

func (e *Engine) globals() map[string]*ssa.Global {
	if e.P.globalsByName == nil {
		e.P.globalsByName = map[string]*ssa.Global{}
		for _, pk := range e.P.SSA.AllPackages() {
			if !e.P.inModule(pk) {
				continue
			}
			for _, m := range pk.Members {
				if g, ok := m.(*ssa.Global); ok {
					e.P.globalsByName[e.gname(g)] = g
				}
			}
		}
	}
	return e.P.globalsByName
}

// staticOf provides the value the initializer of its package gives to a
// package variable that nothing else stores to.
func (e *Engine) staticOf(t *Term) *Term {
	if e.noStatic {
		return nil
	}
	g := e.globals()[t.Aux]
	if g == nil || g.Pkg == nil {
		return nil
	}
	if _, mut := e.P.mutated[g]; mut {
		return nil
	}
	return e.P.statics(g.Pkg)[t.Aux]
}

// statics evaluates the package initializer over terms.
func (p *Prog) statics(pk *ssa.Package) map[string]*Term {
	if p.staticVals == nil {
		p.staticVals = map[*ssa.Package]map[string]*Term{}
	}
	if m, ok := p.staticVals[pk]; ok {
		return m
	}
	m := map[string]*Term{}
	p.staticVals[pk] = m
	init := pk.Func("init")
	if init == nil || init.Blocks == nil {
		return m
	}
	e := newEngine(p, Cfg{Opaque: func(f *ssa.Function) bool {
		return f.Pkg != pk || !strings.HasPrefix(f.Name(), "init#") && !makesFunc(f)
	}, OpaqueDyn: func(f *ssa.Function) bool { return true }})
	e.noStatic = true
	st := newState()
	outs, err := e.Run(init, nil, st)
	if err != nil {
		return m
	}
	var best *Outcome
	for i := range outs {
		if best == nil || len(outs[i].St.mem) > len(best.St.mem) {
			best = &outs[i]
		}
	}
	if best == nil {
		return m
	}
	for a, v := range best.St.mem {
		if a.Op == "global" {
			m[a.Aux] = deepVal(e, best.St, v, 0, nil)
		}
	}
	return m
}

// readsCaptured reports whether the variables that the named function and its
// siblings capture are never changed by them.
func readsCaptured(f *ssa.Function) bool {
	if f == nil || f.Parent() == nil {
		return false
	}
	var only func(fs []*ssa.Function) bool
	only = func(fs []*ssa.Function) bool {
		for _, g := range fs {
			for _, v := range g.FreeVars {
				for _, r := range *v.Referrers() {
					switch x := r.(type) {
					case *ssa.UnOp:
						if x.Op != token.MUL {
							return false
						}
					case *ssa.MakeClosure, *ssa.DebugRef:
						// captured again: the functions inside are looked at too.
					default:
						return false
					}
				}
			}
			if !only(g.AnonFuncs) {
				return false
			}
		}
		return true
	}
	return only(f.Parent().AnonFuncs)
}

// makesFunc reports whether the result of f is a function.
func makesFunc(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() != 1 {
		return false
	}
	_, ok := r.At(0).Type().Underlying().(*types.Signature)
	return ok
}

// deepVal resolves contents inside a value.
func deepVal(e *Engine, st *State, t *Term, d int, in []*Term) *Term {
	if d > 12 {
		return t
	}
	if containsTerm(in, t) {
		// what something was before it was changed.
		return t
	}
	if c, ok := st.cont[t]; ok && c != t {
		return deepVal(e, st, c, d, append(append([]*Term{}, in...), t))
	}
	if len(t.Args) == 0 || t.Op == "obj" || t.Op == "mkmap" || t.Op == "mkslice" {
		if t.Op == "obj" {
			if v, ok := st.mem[t]; ok {
				return raw("ptr", "", t.Typ, deepVal(e, st, v, d+1, in))
			}
		}
		return t
	}
	if t.Op == "closure" && !readsCaptured(t.Fn) {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = deepVal(e, st, a, d+1, in)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	return rebuild(t, args)
}

func typeKey(t types.Type) string {
	return strings.ReplaceAll(strings.ReplaceAll(types.TypeString(t, nil), Mod+"/", "~/"), Mod+".", "~.")
}

// instr interprets one instruction. It provides nil if the state was updated
// in place, and the states to continue from otherwise.
func (fr *frame) instr(in ssa.Instruction, fs *fstate) []forkRes {
	e := fr.e
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := fr.fresh(fs, "obj", x, x.Type())
		fs.st.mem[o] = mkZero(elemOf(x.Type()))
		fs.env[x] = o
	case *ssa.Store:
		a, v := fr.get(fs, x.Addr), fr.get(fs, x.Val)
		fr.derefObl(fs, x, a)
		if r := addrRoot(a); r.Op != "obj" {
			fs.st.trace = append(fs.st.trace, &Event{Kind: "store", Args: []*Term{a, v}, Fn: fr.fn, Site: x, NFacts: len(fs.st.order)})
		}
		e.store(fs.st, a, v, x.Val.Type())
	case *ssa.FieldAddr:
		b := fr.get(fs, x.X)
		fr.derefObl(fs, x, b)
		s := structOf(elemOf(x.X.Type()))
		f := s.Field(x.Field)
		if b.Op == "ptr" {
			// address into a statically known object: only read.
			o := raw("faddr", f.Name(), x.Type(), b)
			fs.st.mem[o] = mkField(b.Args[0], f.Name(), f.Type())
			fs.env[x] = o
			break
		}
		if b.Typ == nil {
			b.Typ = x.X.Type()
		}
		fs.env[x] = raw("faddr", f.Name(), x.Type(), b)
	case *ssa.Field:
		f := structOf(x.X.Type()).Field(x.Field)
		fs.env[x] = mkField(fr.get(fs, x.X), f.Name(), f.Type())
	case *ssa.IndexAddr:
		b, i := fr.get(fs, x.X), fr.get(fs, x.Index)
		fr.indexObl(fs, x, b, i, x.X.Type())
		if b.Typ == nil {
			b.Typ = x.X.Type()
		}
		fs.env[x] = raw("iaddr", "", x.Type(), b, i)
	case *ssa.Index:
		b, i := fr.get(fs, x.X), fr.get(fs, x.Index)
		fr.indexObl(fs, x, b, i, x.X.Type())
		fs.env[x] = mkIndex(e.contents(fs.st, b), i, x.Type())
	case *ssa.Lookup:
		m, k := e.contents(fs.st, fr.get(fs, x.X)), fr.get(fs, x.Index)
		if isString(x.X.Type()) {
			fr.indexObl(fs, x, m, k, x.X.Type())
			fs.env[x] = mkIndex(m, k, x.Type())
			break
		}
		et := elemOf(x.X.Type())
		v, h := mkLookup(m, k, et), mkHas(m, k)
		if fs.st.known(h) == 0 {
			v = mkZero(et)
		}
		if x.CommaOk {
			fs.env[x] = raw("tuple", "", nil, v, h)
		} else {
			fs.env[x] = v
		}
	case *ssa.Slice:
		return fr.slice(x, fs)
	case *ssa.MakeSlice:
		n := fr.get(fs, x.Len)
		if c, ok := n.intv(); ok && c == 0 {
			fs.env[x] = raw("list", "", x.Type())
			break
		}
		if e.Cfg.Obligations {
			ok := nonNeg(n) || fs.st.known(mkBin("<", n, tInt(0), nil)) == 0
			e.oblige(fs.st, x, "makeslice", "length of make may be negative: "+n.String(), ok)
		}
		fs.env[x] = fr.fresh(fs, "mkslice", x, x.Type(), n)
	case *ssa.MakeMap:
		fs.env[x] = fr.fresh(fs, "mkmap", x, x.Type())
	case *ssa.MakeChan:
		fs.env[x] = fr.fresh(fs, "mkchan", x, x.Type())
	case *ssa.MapUpdate:
		m, k, v := fr.get(fs, x.Map), fr.get(fs, x.Key), fr.get(fs, x.Value)
		c := e.contents(fs.st, m)
		fs.st.trace = append(fs.st.trace, &Event{Kind: "mapset", Args: []*Term{m, k, e.val(fs.st, v)}, Fn: fr.fn, Site: x, NFacts: len(fs.st.order)})
		if e.Cfg.Obligations {
			e.oblige(fs.st, x, "mapnil", "assignment to a map that may be nil: "+m.String(), m.Op == "mkmap" || neverNil(m) || fs.st.known(mkBin("==", m, tNil, nil)) == 0 || m.Op == "gval" || fr.mapNonNil(fs, m))
		}
		base := c
		if base.Op == "mapset" && base.Args[1] == k {
			base = base.Args[0]
		}
		fs.st.cont[m] = raw("mapset", "", x.Map.Type(), base, k, v)
	case *ssa.MakeInterface:
		v := fr.get(fs, x.X)
		if v.Op == "mk" {
			fs.env[x] = v
			break
		}
		fs.env[x] = raw("mk", typeKey(x.X.Type()), x.X.Type(), v)
	case *ssa.ChangeInterface:
		fs.env[x] = fr.get(fs, x.X)
	case *ssa.ChangeType:
		v := fr.get(fs, x.X)
		fs.env[x] = v
	case *ssa.Convert:
		fs.env[x] = mkConv(fr.get(fs, x.X), x.Type(), x.X.Type())
	case *ssa.MultiConvert:
		fs.env[x] = mkConv(fr.get(fs, x.X), x.Type(), x.X.Type())
	case *ssa.SliceToArrayPointer:
		fs.env[x] = raw("sym", "slice2array", x.Type())
	case *ssa.TypeAssert:
		v := fr.get(fs, x.X)
		var val, ok *Term
		if v.Op == "mk" && !types.IsInterface(x.AssertedType) {
			if types.Identical(v.Typ, x.AssertedType) {
				val, ok = v.Args[0], tBool(true)
			} else {
				val, ok = mkZero(x.AssertedType), tBool(false)
			}
		} else {
			val = raw("assert", typeKey(x.AssertedType), x.AssertedType, v)
			ok = raw("isa", typeKey(x.AssertedType), types.Typ[types.Bool], v)
		}
		if x.CommaOk {
			fs.env[x] = raw("tuple", "", nil, val, ok)
		} else {
			e.oblige(fs.st, x, "assert", "unchecked type assertion of "+v.String(), fs.st.known(ok) == 1)
			fs.env[x] = val
		}
	case *ssa.Extract:
		fs.env[x] = mkRes(fr.get(fs, x.Tuple), strconv.Itoa(x.Index), x.Type())
	case *ssa.BinOp:
		a, b := fr.get(fs, x.X), fr.get(fs, x.Y)
		if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) && e.Cfg.Obligations {
			ok := b.isConst() && b.Aux != "num:0" || fs.st.known(mkBin("==", b, tInt(0), nil)) == 0
			e.oblige(fs.st, x, "div", "division by "+b.String(), ok)
		}
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, b = fs.st.norm(a), fs.st.norm(b)
		}
		fs.env[x] = mkBin(x.Op.String(), a, b, x.Type())
	case *ssa.UnOp:
		v := fr.get(fs, x.X)
		switch x.Op {
		case token.MUL:
			fr.derefObl(fs, x, v)
			if v.Typ == nil {
				v.Typ = x.X.Type()
			}
			if v.Op == "ptr" {
				fs.env[x] = v.Args[0]
			} else {
				fs.env[x] = e.load(fs.st, v, x.Type())
			}
		case token.NOT:
			fs.env[x] = mkNot(v)
		case token.SUB:
			if isFloat(x.Type()) {
				fs.env[x] = raw("neg", "", x.Type(), v)
			} else {
				fs.env[x] = mkBin("-", tInt(0), v, x.Type())
			}
		case token.ARROW:
			s := fr.fresh(fs, "sym", x, x.Type())
			if x.CommaOk {
				fs.env[x] = raw("tuple", "", nil, s, raw("sym", s.Aux+".ok", types.Typ[types.Bool]))
			} else {
				fs.env[x] = s
			}
		default:
			fs.env[x] = raw("un", x.Op.String(), x.Type(), v)
		}
	case *ssa.Range:
		fs.env[x] = raw("range", "", x.X.Type(), e.contents(fs.st, fr.get(fs, x.X)))
	case *ssa.Next:
		it := fr.get(fs, x.Iter)
		tt := x.Type().(*types.Tuple)
		id := fr.curLoop(fs)
		ok := raw("sym", id+".ok", types.Typ[types.Bool])
		k := raw("sym", id+".key", tt.At(1).Type())
		var v *Term
		if x.IsString {
			// the position is one of the string.
			ok = raw("sym", id+".ok", types.Typ[types.Bool], it.Args[0])
			k = raw("sym", id+".key", tt.At(1).Type(), it.Args[0])
			v = raw("sym", id+".rune", tt.At(2).Type())
		} else {
			v = raw("lookup", "", elemOf(it.Typ), it.Args[0], k)
		}
		fs.env[x] = raw("tuple", "", nil, ok, k, v)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, fr.get(fs, b))
		}
		f := x.Fn.(*ssa.Function)
		t := raw("closure", e.P.fkey(f), x.Type(), bs...)
		t.Fn = f
		fs.env[x] = t
	case *ssa.Call:
		rs := fr.doCall(fs, x, x.Common(), nil, nil, false)
		var out []forkRes
		for _, r := range rs {
			if r.panicked {
				out = append(out, forkRes{fs: r.fs, panicked: true, at: r.at})
				continue
			}
			r.fs.env[x] = packRet(r.ret, x)
			out = append(out, forkRes{fs: r.fs})
		}
		if len(out) == 1 && !out[0].panicked && out[0].fs == fs {
			return nil
		}
		return orEmpty(out)
	case *ssa.Defer:
		d := deferred{instr: x}
		c := x.Common()
		if c.IsInvoke() {
			d.fn = fr.get(fs, c.Value)
		} else {
			d.fn = fr.get(fs, c.Value)
		}
		for _, a := range c.Args {
			d.args = append(d.args, fr.get(fs, a))
		}
		fs.defers = append(fs.defers, d)
	case *ssa.RunDefers:
		states := []*fstate{fs}
		var out []forkRes
		for len(states) > 0 {
			s := states[len(states)-1]
			states = states[:len(states)-1]
			if len(s.defers) == 0 {
				out = append(out, forkRes{fs: s})
				continue
			}
			d := s.defers[len(s.defers)-1]
			s.defers = s.defers[:len(s.defers)-1]
			for _, r := range fr.doCall(s, d.instr, d.instr.Common(), d.fn, d.args, true) {
				if r.panicked {
					out = append(out, forkRes{fs: r.fs, panicked: true, at: r.at})
				} else {
					states = append(states, r.fs)
				}
			}
		}
		if len(out) == 1 && !out[0].panicked && out[0].fs == fs {
			return nil
		}
		return orEmpty(out)
	case *ssa.Go:
		fs.st.trace = append(fs.st.trace, &Event{Kind: "go", Fn: fr.fn, Site: x, NFacts: len(fs.st.order)})
	case *ssa.Send:
		fs.st.trace = append(fs.st.trace, &Event{Kind: "send", Fn: fr.fn, Site: x, NFacts: len(fs.st.order)})
	case *ssa.Select:
		fs.env[x] = fr.fresh(fs, "sym", x, x.Type())
	default:
		e.bail("unsupported instruction %T in %s", in, fr.fn)
	}
	return nil
}

// orEmpty keeps "no continuation" apart from "updated in place".
func orEmpty(r []forkRes) []forkRes {
	if r == nil {
		return []forkRes{}
	}
	return r
}

func packRet(ret []*Term, c *ssa.Call) *Term {
	switch len(ret) {
	case 0:
		return raw("tuple", "", nil)
	case 1:
		if ret[0].Typ == nil && !ret[0].isConst() {
			ret[0].Typ = c.Type()
		}
		return ret[0]
	}
	return raw("tuple", "", nil, ret...)
}

func (fr *frame) curLoop(fs *fstate) string {
	if n := len(fs.st.loopIDs); n > 0 {
		return fs.st.loopIDs[n-1]
	}
	return "L?"
}

// mkConv converts; conversions between types of the same shape vanish.
func mkConv(v *Term, to, from types.Type) *Term {
	if types.Identical(to.Underlying(), from.Underlying()) {
		return v
	}
	if isInt(to) && isInt(from) && v.isConst() {
		return v
	}
	if (isFloat(to) || isInt(to)) && v.isConst() && v.Lit != nil {
		if _, ok := v.intv(); ok {
			if isFloat(to) {
				return raw("conv", to.Underlying().String(), to, v)
			}
			return v
		}
		if isFloat(to) {
			return v
		}
	}
	if isFloat(to) && isFloat(from) {
		// float64(float32(x)): widening keeps the value.
		if to.Underlying().(*types.Basic).Kind() == types.Float64 {
			return raw("widen", "", to, v)
		}
		if v.Op == "widen" {
			return v.Args[0]
		}
	}
	if isString(to) && isByteSlice(from) && v.Op == "conv" && isString(v.Args[0].Typ) {
		return v.Args[0]
	}
	if narrows(v, to, from) {
		return raw("narrow", to.Underlying().String(), to, v)
	}
	return raw("conv", to.Underlying().String(), to, v)
}

// width is the number of bits of the integers of a type, and whether they
// have a sign.
func width(t types.Type) (int64, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

// narrows reports whether converting may change the number.
func narrows(v *Term, to, from types.Type) bool {
	if isFloat(from) && isInt(to) {
		return true
	}
	if !isInt(from) || !isInt(to) {
		return isInt(from) && isString(to)
	}
	fb, fs := width(from)
	tb, ts := width(to)
	if v.Op == "len" || v.Op == "call" && v.Aux == "len" {
		fb, fs = 63, false
	}
	if v.Op == "res" && v.Aux == "0" && len(v.Args[0].Args) == 3 {
		if n, ok := v.Args[0].Args[2].intv(); ok && n > 0 && n < 64 {
			switch {
			case isCall(v.Args[0], "strconv.ParseInt"):
				fb = n
			case isCall(v.Args[0], "strconv.ParseUint"):
				fb = n
			}
		}
	}
	switch {
	case fs == ts:
		return tb < fb
	case ts: // from one without a sign
		return tb <= fb
	}
	return true
}

// narrowed is a number converted to a type that it may not fit.
func narrowed(v float64, to types.Type) (float64, bool) {
	if v != v || v < -1<<52 || v > 1<<52 {
		return 0, false
	}
	n := int64(v)
	b, sign := width(to)
	switch {
	case b == 0:
		return 0, false
	case b < 64 && sign:
		return float64(n << (64 - b) >> (64 - b)), true
	case b < 64:
		return float64(uint64(n) << (64 - b) >> (64 - b)), true
	case !sign && n < 0:
		return 0, false
	}
	return float64(n), true
}

func (fr *frame) slice(x *ssa.Slice, fs *fstate) []forkRes {
	e := fr.e
	b := fr.get(fs, x.X)
	if b.Typ == nil {
		b.Typ = x.X.Type()
	}
	var lo, hi *Term
	if x.Low != nil {
		lo = fr.get(fs, x.Low)
	}
	if x.High != nil {
		hi = fr.get(fs, x.High)
	}
	if isPtrToArray(x.X.Type()) && lo == nil && hi == nil {
		arr := e.load(fs.st, b, elemOf(x.X.Type()))
		if arr.Op == "array" {
			fs.env[x] = raw("list", "", x.Type(), arr.Args...)
			return nil
		}
	}
	c := b
	if !isPtrToArray(x.X.Type()) {
		c = e.contents(fs.st, b)
	}
	if e.Cfg.Obligations {
		fr.sliceObl(fs, x, c, lo, hi)
	}
	if lo != nil {
		if n, ok := lo.intv(); ok && n == 0 {
			lo = nil
		}
	}
	if hi != nil && hi == mkLen(c) {
		hi = nil
	}
	if lo == nil && hi == nil {
		fs.env[x] = b
		return nil
	}
	if c.Op == "list" {
		l, h := int64(0), int64(len(c.Args))
		ok := true
		if lo != nil {
			l, ok = lo.intv()
		}
		if hi != nil && ok {
			h, ok = hi.intv()
		}
		if ok && 0 <= l && l <= h && h <= int64(len(c.Args)) {
			fs.env[x] = raw("list", "", x.Type(), c.Args[l:h]...)
			return nil
		}
	}
	if hi != nil {
		if n, ok := hi.intv(); ok && n == 0 {
			if isString(x.Type()) {
				fs.env[x] = tStr("")
			} else {
				// it keeps the memory of what it is a part of.
				fs.env[x] = raw("list", "reuse", x.Type())
			}
			return nil
		}
	}
	none := raw("const", "none", nil)
	if lo == nil {
		lo = none
	}
	if hi == nil {
		hi = none
	}
	fs.env[x] = raw("slice", "", x.Type(), c, lo, hi)
	return nil
}

type callRes struct {
	fs       *fstate
	ret      []*Term
	panicked bool
	at       ssa.Instruction
}

// doCall interprets a call.
func (fr *frame) doCall(fs *fstate, site ssa.Instruction, c *ssa.CallCommon, dfn *Term, dargs []*Term, isDefer bool) []callRes {
	e := fr.e
	args := dargs
	if !isDefer {
		for _, a := range c.Args {
			t := fr.get(fs, a)
			if t.Typ == nil {
				t.Typ = a.Type()
			}
			args = append(args, t)
		}
	}
	var target *ssa.Function
	var free []*Term
	sig := c.Signature()
	if c.IsInvoke() {
		recv := dfn
		if recv == nil {
			recv = fr.get(fs, c.Value)
		}
		if recv.Op == "mk" || recv.Op == "gval" {
			r := recv
			if r.Op == "gval" {
				if s := e.staticOf(r); s != nil && s.Op == "mk" {
					r = s
				}
			}
			if r.Op == "mk" {
				if f := e.P.lookupMethod(r.Typ, c.Method); f != nil {
					target = f
					args = append([]*Term{r.Args[0]}, args...)
				}
			}
		}
		if target == nil {
			fr.invokeObl(fs, site, recv)
			return fr.opaqueCall(fs, site, "I:"+c.Method.Name(), append([]*Term{recv}, args...), sig, isDefer, nil)
		}
	} else {
		v := dfn
		if v == nil {
			v = fr.get(fs, c.Value)
		}
		switch v.Op {
		case "builtin":
			return fr.builtin(fs, site, v.Aux, args, sig, c, isDefer)
		case "fn":
			target = v.Fn
		case "closure":
			target, free = v.Fn, v.Args
		default:
			if v.isNil() {
				e.oblige(fs.st, site, "nilcall", "call of a nil function", false)
			}
			return fr.opaqueCall(fs, site, "D:"+v.String(), append([]*Term{v}, args...), sig, isDefer, nil)
		}
		if (v.Op == "fn" || v.Op == "closure") && c.StaticCallee() == nil && e.Cfg.OpaqueDyn != nil && e.Cfg.OpaqueDyn(target) {
			var bound []*Term
			key := "F:" + e.P.fkey(target)
			if v.Op == "closure" {
				if d := deepVal(e, fs.st, v, 0, nil); d.Op == "closure" {
					bound = d.Args
				}
				for _, b := range bound {
					key += "," + b.String()
				}
			}
			n := len(fs.st.trace)
			rs := fr.opaqueCall(fs, site, key, args, sig, isDefer, target)
			for _, ev := range fs.st.trace[n:] {
				if ev.Kind == "call" && ev.Target == target {
					ev.Free = bound
				}
			}
			return rs
		}
	}
	// known function.
	key := e.P.fkey(target)
	if rs, ok := fr.special(fs, site, key, target, args, sig, isDefer); ok {
		return rs
	}
	if e.Cfg.Model != nil {
		if ret := e.Cfg.Model(key, args); ret != nil {
			return []callRes{{fs: fs, ret: ret}}
		}
	}
	if e.inlines(target) {
		st := fs.st
		e.Calls++
		outs := e.call(target, args, free, st)
		var rs []callRes
		for i, o := range outs {
			nf := fs
			if i > 0 {
				nf = &fstate{env: cloneEnv(fs.env), defers: fs.defers[:len(fs.defers):len(fs.defers)]}
			}
			nf.st = o.St
			rs = append(rs, callRes{fs: nf, ret: o.Ret, panicked: o.Panic != nil, at: o.Panic})
		}
		return rs
	}
	return fr.opaqueCall(fs, site, key, args, sig, isDefer, target)
}

func cloneEnv(m map[ssa.Value]*Term) map[ssa.Value]*Term {
	c := make(map[ssa.Value]*Term, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (p *Prog) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

// inlines decides whether a callee is analysed in context.
func (e *Engine) inlines(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	n := 0
	for _, g := range e.stack {
		if g == f {
			n++
		}
	}
	if n > e.Cfg.Recurse {
		return false
	}
	pk := fnPkg(f)
	if pk == nil {
		return f.Synthetic != ""
	}
	path := pk.Pkg.Path()
	if e.P.inModule(pk) {
		if strings.HasPrefix(f.Synthetic, "package initializer") {
			return false
		}
		if f.Synthetic != "" && f.Object() != nil && !strings.HasPrefix(f.Synthetic, "instance") {
			// wrappers, thunks and bound methods.
			return true
		}
		return e.Cfg.Opaque == nil || !e.Cfg.Opaque(f)
	}
	switch path {
	case "slices", "maps", "cmp", "iter":
		n := f.Name()
		if o := f.Origin(); o != nil {
			n = o.Name()
		}
		return !strings.Contains(n, "Sort") && n != "BinarySearch" && n != "Insert" && n != "Concat" && n != "Grow" && n != "Clone"
	}
	if f.Synthetic != "" && f.Object() != nil && (strings.Contains(f.Synthetic, "bound") || strings.Contains(f.Synthetic, "thunk")) {
		return true
	}
	return false
}

// pureCalls have results that depend on their arguments only.
func isPure(key string) bool {
	for _, p := range []string{
		"strings.", "strconv.", "math.", "mime.", "net/url.", "(*net/url.", "(net/url.", "regexp.", "(*regexp.",
		"golang.org/x/text/", "(golang.org/x/text/", "(*golang.org/x/text/", "errors.", "fmt.Sprint", "fmt.Errorf", "(net/http.Header).Values", "(net/http.Header).Get",
		"unicode", "(github.com/freerware/stew", "github.com/freerware/stew", "go.uber.org/zap.", "(*go.uber.org/zap", "net/textproto.Canon", "net/http.Canon", "bytes.Equal",
		"~/internal/header", "(~/internal/header", "(*~/internal/header", "slices.", "path.", "sort.Reverse",
	} {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	if strings.HasPrefix(key, "(~/representation.") || strings.HasPrefix(key, "~/representation.") {
		return true
	}
	switch key {
	case "I:ContentType", "I:ContentCharset", "I:ContentLanguage", "I:ContentEncoding", "I:ContentLocation", "I:ContentFeatures",
		"I:SourceQuality", "I:Bytes", "I:Header", "I:Counter", "I:Timer", "I:Start", "I:Tagged", "I:Error", "I:String", "I:Region", "I:Base", "I:Tag":
		return true
	}
	return false
}

// mutators are methods with a pointer receiver that do change it, in packages
// otherwise pure.
func mutates(key string) bool {
	return strings.HasPrefix(key, "(*strings.Builder)") || strings.HasPrefix(key, "(*strings.Reader)")
}

func (fr *frame) opaqueCall(fs *fstate, site ssa.Instruction, key string, args []*Term, sig *types.Signature, isDefer bool, target *ssa.Function) []callRes {
	e := fr.e
	pure := isPure(key) && !mutates(key)
	if e.Cfg.Pure != nil {
		if p, ok := e.Cfg.Pure(key); ok {
			pure = p
		}
	}
	vals := make([]*Term, len(args))
	for i, a := range args {
		v := e.val(fs.st, a)
		if pure {
			v = fr.snapshot(fs, v)
		}
		vals[i] = v
	}
	n := sig.Results().Len()
	k := key
	if !pure {
		fs.st.occ["call:"+key]++
		if c := fs.st.occ["call:"+key]; true {
			k = key + "#" + strconv.Itoa(c)
		}
	}
	var typ types.Type
	if n == 1 {
		typ = sig.Results().At(0).Type()
	}
	res := mkCall(k, typ, vals...)
	var before *State
	if e.Cfg.Snap {
		before = fs.st.clone()
	}
	if !pure {
		for i, a := range args {
			fr.havoc(fs, a, k+"."+strconv.Itoa(i))
		}
	}
	ev := &Event{Kind: "call", Key: key, Args: vals, Res: res, Fn: fr.fn, Site: site, NFacts: len(fs.st.order), Deferred: isDefer, Sig: sig, Target: target, St: before}
	fs.st.trace = append(fs.st.trace, ev)
	var ret []*Term
	switch n {
	case 0:
	case 1:
		ret = []*Term{res}
	default:
		for i := 0; i < n; i++ {
			ret = append(ret, mkRes(res, strconv.Itoa(i), sig.Results().At(i).Type()))
		}
	}
	return []callRes{{fs: fs, ret: ret}}
}

// snapshot replaces pointers to local objects by what they point to.
func (fr *frame) snapshot(fs *fstate, v *Term) *Term {
	switch v.Op {
	case "obj":
		if m, ok := fs.st.mem[v]; ok {
			return raw("ptr", "", v.Typ, m)
		}
	case "mk":
		w := fr.snapshot(fs, v.Args[0])
		if w != v.Args[0] {
			return raw("mk", v.Aux, v.Typ, w)
		}
	case "faddr", "iaddr":
		return raw("ptr", "", v.Typ, fr.e.load(fs.st, v, elemOf(v.Typ)))
	case "list":
		args := make([]*Term, len(v.Args))
		ch := false
		for i, a := range v.Args {
			args[i] = fr.snapshot(fs, a)
			ch = ch || args[i] != a
		}
		if ch {
			return raw("list", "", v.Typ, args...)
		}
	}
	return v
}

// havoc forgets what an unknown callee may have changed.
func (fr *frame) havoc(fs *fstate, a *Term, why string) {
	if k := built(a); k != nil {
		fs.st.cont[k] = raw("sym", "after:"+why, k.Typ, k)
	}
	switch a.Op {
	case "mk":
		fr.havoc(fs, a.Args[0], why)
	case "obj":
		if m, ok := fs.st.mem[a]; ok {
			s := raw("sym", "after:"+why, elemOf(a.Typ), a)
			_ = m
			fs.st.mem[a] = s
		}
	case "faddr", "iaddr":
		if addrRoot(a).Op == "obj" {
			fr.e.store(fs.st, a, raw("sym", "after:"+why, elemOf(a.Typ), a), elemOf(a.Typ))
		}
	case "list":
		for i, x := range a.Args {
			if x.Op == "obj" || x.Op == "mk" {
				fr.havoc(fs, x, why+"."+strconv.Itoa(i))
			}
		}
	case "closure":
		for i, x := range a.Args {
			fr.havoc(fs, x, why+".f"+strconv.Itoa(i))
		}
	case "mkslice", "mkmap":
		fs.st.cont[a] = raw("sym", "after:"+why, a.Typ, a)
	}
}

// special models calls whose meaning the rules rely on.
func (fr *frame) special(fs *fstate, site ssa.Instruction, key string, target *ssa.Function, args []*Term, sig *types.Signature, isDefer bool) ([]callRes, bool) {
	e := fr.e
	one := func(t *Term) ([]callRes, bool) { return []callRes{{fs: fs, ret: []*Term{t}}}, true }
	if out, ok := fr.building(fs, site, key, args); ok {
		return out, true
	}
	switch key {
	case "maps.Keys":
		return one(raw("keys", "", sig.Results().At(0).Type(), e.contents(fs.st, args[0])))
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "sort.Sort", "sort.Stable", "slices.Sort", "sort.Strings", "sort.Ints":
		s := args[0]
		less := tNil
		if key == "sort.Sort" || key == "sort.Stable" {
			var l *Term
			if s, l = fr.sortedThrough(s, fs); l != nil {
				less = l
			}
		} else if s.Op == "mk" {
			s = s.Args[0]
		}
		if len(args) > 1 {
			less = args[1]
		}
		ev := &Event{Kind: "sort", Key: key, Args: []*Term{s, less, e.contents(fs.st, s)}, Fn: fr.fn, Site: site, NFacts: len(fs.st.order), St: fs.st.clone()}
		fs.st.trace = append(fs.st.trace, ev)
		ev.Res = raw("sorted", fmt.Sprintf("%s@%s", key, e.P.posOf(site)), s.Typ, e.contents(fs.st, s), less)
		e.written(fs.st, s, ev.Res)
		if e.Cfg.Obligations {
			fr.compares(fs, site, less, e.contents(fs.st, s))
		}
		return []callRes{{fs: fs}}, true
	case "slices.Clone":
		if v, ok := site.(ssa.Value); ok && isSorted(v) {
			// a list of its own.
			t := fr.fresh(fs, "mkslice", site, args[0].Typ, mkLen(e.contents(fs.st, args[0])))
			fs.st.cont[t] = e.contents(fs.st, args[0])
			return one(t)
		}
		return one(e.contents(fs.st, args[0]))
	case "(net/http.Header).Values":
		if k, ok := args[1].str(); ok {
			m := e.contents(fs.st, args[0])
			return one(mkLookup(m, tStr(canonicalKey(k)), sig.Results().At(0).Type()))
		}
	case "(net/http.Header).Get":
		if k, ok := args[1].str(); ok {
			m := e.contents(fs.st, args[0])
			l := mkLookup(m, tStr(canonicalKey(k)), types.NewSlice(types.Typ[types.String]))
			return one(mkCall("firstOrEmpty", types.Typ[types.String], l))
		}
	case "(*sync.Once).Do", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		return nil, false
	case "os.Exit", "log.Fatal", "log.Fatalf":
		e.oblige(fs.st, site, "exit", "process exit", false)
	}
	return nil, false
}

// compares analyses the comparison of two positions of a list that is sorted.
func (fr *frame) compares(fs *fstate, site ssa.Instruction, less, list *Term) {
	e := fr.e
	var args, free []*Term
	switch less.Op {
	case "closure", "fn":
		free = less.Args
	case "method":
		args = less.Args[:1:1]
	}
	f := less.Fn
	if f == nil || !e.inlines(f) || len(f.Params) != len(args)+2 || !isInt(f.Params[len(args)].Type()) || !isInt(f.Params[len(args)+1].Type()) {
		return
	}
	st := fs.st.clone()
	for _, n := range []string{"i", "j"} {
		x := raw("sym", "sorted."+n, types.Typ[types.Int])
		st.assume(mkBin("<", x, tInt(0), nil), false)
		st.assume(mkBin("<", x, mkLen(list), nil), true)
		args = append(args, x)
	}
	for _, o := range e.call(f, args, free, st) {
		e.oblige(o.St, site, "sort", "the comparison of a sort may panic", o.Panic == nil)
	}
}

// isSorted reports whether the list is sorted where it is made.
func isSorted(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case ssa.CallInstruction:
			if g := x.Common().StaticCallee(); g != nil && len(x.Common().Args) > 0 && x.Common().Args[0] == v {
				if o := g.Origin(); o != nil {
					g = o
				}
				if strings.HasPrefix(g.Name(), "Sort") && g.Pkg != nil && g.Pkg.Pkg.Path() == "slices" {
					return true
				}
			}
		case *ssa.MakeInterface:
			for _, y := range *x.Referrers() {
				if c, ok := y.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sort" {
						return true
					}
				}
			}
		}
	}
	return false
}

func (fr *frame) builtin(fs *fstate, site ssa.Instruction, name string, args []*Term, sig *types.Signature, c *ssa.CallCommon, isDefer bool) []callRes {
	e := fr.e
	one := func(t *Term) []callRes { return []callRes{{fs: fs, ret: []*Term{t}}} }
	var rt types.Type
	if sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	switch name {
	case "len":
		m := e.contents(fs.st, args[0])
		if isPtrToArray(args[0].Typ) {
			return one(tInt(elemOf(args[0].Typ).Underlying().(*types.Array).Len()))
		}
		return one(mkLen(m))
	case "cap":
		return one(raw("cap", "", rt, e.contents(fs.st, args[0])))
	case "append":
		base := e.contents(fs.st, args[0])
		if len(args) == 1 {
			return one(base)
		}
		elems := e.contents(fs.st, args[1])
		fs.st.trace = append(fs.st.trace, &Event{Kind: "append", Args: []*Term{args[0], elems}, Fn: fr.fn, Site: site, NFacts: len(fs.st.order)})
		t := mkAppend(base, elems, rt)
		if t.Typ == nil {
			t.Typ = rt
		}
		// an equal list that was altered is another one.
		for c, ok := fs.st.cont[t]; ok && c != t && t != base; c, ok = fs.st.cont[t] {
			t = raw(t.Op, t.Aux+"'", rt, t.Args...)
		}
		return one(t)
	case "copy":
		d, s := args[0], e.contents(fs.st, args[1])
		fs.st.trace = append(fs.st.trace, &Event{Kind: "copy", Args: []*Term{d, s}, Fn: fr.fn, Site: site, NFacts: len(fs.st.order)})
		if d.Op == "mkslice" && d.Args[0] == mkLen(s) {
			e.written(fs.st, d, s)
			return one(mkLen(s))
		}
		e.written(fs.st, d, raw("copied", "", d.Typ, e.contents(fs.st, d), s))
		return one(raw("copyn", "", types.Typ[types.Int], d, s))
	case "delete":
		m := args[0]
		fs.st.trace = append(fs.st.trace, &Event{Kind: "mapdel", Args: []*Term{m, args[1]}, Fn: fr.fn, Site: site, NFacts: len(fs.st.order)})
		fs.st.cont[m] = raw("mapdel", "", m.Typ, e.contents(fs.st, m), args[1])
		return []callRes{{fs: fs}}
	case "clear":
		fs.st.trace = append(fs.st.trace, &Event{Kind: "mapdel", Args: []*Term{args[0]}, Fn: fr.fn, Site: site, NFacts: len(fs.st.order)})
		fs.st.cont[args[0]] = raw("sym", "cleared", args[0].Typ, args[0])
		return []callRes{{fs: fs}}
	case "min", "max":
		if len(args) == 2 && args[0].isConst() && args[1].isConst() {
			lt := mkBin("<", args[0], args[1], nil)
			if lt.isTrue() == (name == "min") {
				return one(args[0])
			}
			return one(args[1])
		}
		if len(args) == 2 {
			// split on the comparison, as the branch it stands for.
			a, b := args[0], args[1]
			c := mkBin("<", a, b, nil)
			var out []callRes
			f2 := fs.clone()
			pick := func(lt bool) *Term {
				if lt == (name == "min") {
					return a
				}
				return b
			}
			if isFloat(rt) {
				return one(raw("call", name, rt, args...))
			}
			if fs.st.assume(c, true) {
				out = append(out, callRes{fs: fs, ret: []*Term{pick(true)}})
			}
			if f2.st.assume(c, false) {
				out = append(out, callRes{fs: f2, ret: []*Term{pick(false)}})
			}
			return out
		}
		return one(raw("call", name, rt, args...))
	case "recover":
		fs.st.trace = append(fs.st.trace, &Event{Kind: "recover", Fn: fr.fn, Site: site, NFacts: len(fs.st.order)})
		return one(tNil)
	case "close", "print", "println":
		return []callRes{{fs: fs, ret: nil}}
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	if sig.Results().Len() == 0 {
		return []callRes{{fs: fs}}
	}
	return one(raw("call", "builtin."+name, rt, args...))
}
