package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Flow-insensitive effect analysis: which storage every function may write,
// as seen by its callers. Storage is divided into areas: what a parameter
// or a captured variable leads to, what a package variable leads to, and the
// storage allocated at a site.

type area struct {
	kind string // param, free, global, alloc, out
	of   any    // *ssa.Parameter, *ssa.FreeVar, *ssa.Global, ssa.Instruction
	d    int    // how many loads away from the origin; maxDepth and more
}

const maxDepth = 3

type areas map[area]bool

type wkey struct {
	r    area
	sort bool // permutes the elements only
}

type effSum struct {
	fn     *ssa.Function
	writes map[wkey]string // area -> site
	rets   []areas
	vals   map[ssa.Value]areas
	cont   map[area]areas // what is stored in the storage of a area
	tup    map[*ssa.Call]map[int]areas
}

type Effects struct {
	P       *Prog
	Sums    map[*ssa.Function]*effSum
	changed bool
	Sites   map[string]bool
	Gos     map[*ssa.Function][]string
	impls   map[string][]*ssa.Function
	bySig   map[string][]*ssa.Function
	Callees map[*ssa.Function]map[*ssa.Function]bool
}

func (p *Prog) effects() *Effects {
	e := &Effects{P: p, Sums: map[*ssa.Function]*effSum{}, Sites: map[string]bool{}, Gos: map[*ssa.Function][]string{}, impls: map[string][]*ssa.Function{}, bySig: map[string][]*ssa.Function{}, Callees: map[*ssa.Function]map[*ssa.Function]bool{}}
	var fns []*ssa.Function
	for _, f := range p.Funcs {
		if p.isTestHelper(fnPkg(f)) {
			continue
		}
		fns = append(fns, f)
	}
	fns = append(fns, p.smallDeps()...)
	for _, f := range fns {
		e.Sums[f] = &effSum{fn: f, writes: map[wkey]string{}, vals: map[ssa.Value]areas{}, cont: map[area]areas{}, tup: map[*ssa.Call]map[int]areas{}}
		n := f.Signature.Results().Len()
		for i := 0; i < n; i++ {
			e.Sums[f].rets = append(e.Sums[f].rets, areas{})
		}
		e.Callees[f] = map[*ssa.Function]bool{}
	}
	// functions used as values, by signature.
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				callee := ssa.Value(nil)
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, o := range in.Operands(ops[:0]) {
					g, ok := (*o).(*ssa.Function)
					if !ok || ssa.Value(g) == callee || e.Sums[g] == nil {
						continue
					}
					k := sigKey(g.Signature)
					found := false
					for _, h := range e.bySig[k] {
						found = found || h == g
					}
					if !found {
						e.bySig[k] = append(e.bySig[k], g)
					}
				}
			}
		}
	}
	for n := 0; n < 50; n++ {
		e.changed = false
		for _, f := range fns {
			e.analyse(e.Sums[f])
		}
		if !e.changed {
			break
		}
	}
	return e
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

// pointerful reports whether values of the type may share storage.
func pointerful(t types.Type) bool {
	return pointerfulD(t, 0)
}

func pointerfulD(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if pointerfulD(x.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerfulD(x.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < x.Len(); i++ {
			if pointerfulD(x.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func (e *Effects) add(dst areas, src areas) {
	for r := range src {
		if !dst[r] {
			dst[r] = true
			e.changed = true
		}
	}
}

func (s *effSum) of(e *Effects, v ssa.Value) areas {
	switch x := v.(type) {
	case *ssa.Parameter:
		if !pointerful(x.Type()) {
			return nil
		}
		return areas{{"param", x, 0}: true}
	case *ssa.FreeVar:
		return areas{{"free", x, 0}: true}
	case *ssa.Global:
		return areas{{"global", x, 0}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	r := s.vals[v]
	if r == nil {
		r = areas{}
		s.vals[v] = r
	}
	return r
}

// inside is what loading through the areas may provide.
func (s *effSum) inside(rs areas) areas {
	out := areas{}
	for r := range rs {
		switch r.kind {
		case "param", "free", "global", "out":
			q := r
			if q.d < maxDepth {
				q.d++
			}
			out[q] = true
		}
		for x := range s.cont[r] {
			out[x] = true
		}
	}
	return out
}

// deep is everything reachable from the areas.
func (s *effSum) deep(rs areas) areas {
	out := areas{}
	var rec func(r area)
	rec = func(r area) {
		if out[r] {
			return
		}
		out[r] = true
		for x := range s.inside(areas{r: true}) {
			rec(x)
		}
	}
	for r := range rs {
		rec(r)
	}
	return out
}

func (s *effSum) write(e *Effects, rs areas, site string, sorting bool) {
	e.Sites[site] = true
	for r := range rs {
		if r.kind == "alloc" || r.kind == "out" {
			continue
		}
		k := wkey{r, sorting}
		if _, ok := s.writes[k]; !ok {
			s.writes[k] = site
			e.changed = true
		}
	}
}

func (s *effSum) store(e *Effects, addr, val areas) {
	for r := range addr {
		c := s.cont[r]
		if c == nil {
			c = areas{}
			s.cont[r] = c
		}
		e.add(c, val)
	}
}

func (e *Effects) analyse(s *effSum) {
	for _, b := range s.fn.Blocks {
		for _, in := range b.Instrs {
			e.instr(s, in)
		}
	}
}

func (e *Effects) instr(s *effSum, in ssa.Instruction) {
	site := ""
	at := func() string {
		if site == "" {
			site = e.P.posOf(in)
		}
		return site
	}
	flow := func(v ssa.Value, rs areas) {
		if !pointerful(v.Type()) {
			return
		}
		e.add(s.of(e, v), rs)
	}
	fresh := func(v ssa.Value) {
		e.add(s.of(e, v), areas{{"alloc", in, 0}: true})
	}
	switch x := in.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		fresh(x.(ssa.Value))
	case *ssa.Store:
		s.write(e, s.of(e, x.Addr), at(), false)
		if pointerful(x.Val.Type()) {
			s.store(e, s.of(e, x.Addr), s.of(e, x.Val))
			if a := rootAlloc(x.Addr); a != nil && apart(a) {
				// the record has what its field has, and the other way round.
				s.store(e, areas{{"alloc", a, 0}: true}, s.of(e, x.Val))
				if x.Addr == ssa.Value(a) {
					for _, r := range *a.Referrers() {
						if fa, ok := r.(*ssa.FieldAddr); ok {
							s.store(e, s.of(e, fa), s.of(e, x.Val))
						}
					}
				}
			}
		}
	case *ssa.MapUpdate:
		s.write(e, s.of(e, x.Map), at(), false)
		s.store(e, s.of(e, x.Map), s.of(e, x.Value))
		s.store(e, s.of(e, x.Map), s.of(e, x.Key))
	case *ssa.Send:
		s.write(e, s.of(e, x.Chan), at(), false)
		s.store(e, s.of(e, x.Chan), s.of(e, x.X))
	case *ssa.FieldAddr:
		if a, ok := x.X.(*ssa.Alloc); ok && apart(a) {
			for _, r := range *a.Referrers() {
				if fa, ok := r.(*ssa.FieldAddr); ok && fa.Field == x.Field {
					flow(x, areas{{"alloc", fa, 0}: true})
					return
				}
			}
		}
		flow(x, s.of(e, x.X))
	case *ssa.IndexAddr:
		flow(x, s.of(e, x.X))
	case *ssa.UnOp:
		if x.Op.String() == "*" || x.Op.String() == "<-" {
			flow(x, s.inside(s.of(e, x.X)))
		}
	case *ssa.Field:
		flow(x, s.of(e, x.X))
	case *ssa.Index:
		flow(x, s.inside(s.of(e, x.X)))
	case *ssa.Lookup:
		flow(x, s.inside(s.of(e, x.X)))
	case *ssa.Range:
		e.add(s.of(e, x), s.of(e, x.X))
	case *ssa.Next:
		flow(x, s.inside(s.of(e, x.Iter)))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			flow(x, s.tuple(c, x.Index))
		} else {
			flow(x, s.of(e, x.Tuple))
		}
	case *ssa.Phi:
		for _, v := range x.Edges {
			flow(x, s.of(e, v))
		}
	case *ssa.Slice:
		flow(x, s.of(e, x.X))
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.SliceToArrayPointer:
		var ops [2]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			flow(in.(ssa.Value), s.of(e, *o))
		}
	case *ssa.Convert:
		// between strings and byte slices contents are copied.
		if isString(x.X.Type()) {
			if pointerful(x.Type()) {
				fresh(x)
			}
		} else {
			flow(x, s.of(e, x.X))
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		fresh(x)
		t := e.Sums[g]
		for i, b := range x.Bindings {
			s.store(e, areas{{"alloc", in, 0}: true}, s.of(e, b))
			if t != nil {
				// what the closure does to what it captures.
				for _, srt := range []bool{false, true} {
					for d := 0; d <= maxDepth; d++ {
						if w, ok := t.writes[wkey{area{"free", g.FreeVars[i], d}, srt}]; ok {
							s.write(e, s.below(s.of(e, b), d), w, srt)
						}
					}
				}
				for d := 0; d <= maxDepth; d++ {
					for r := range t.cont[area{"free", g.FreeVars[i], d}] {
						if r.kind == "global" {
							s.store(e, s.below(s.of(e, b), d), areas{r: true})
						}
						if r.kind == "free" {
							for k, fv := range g.FreeVars {
								if r.of == fv {
									s.store(e, s.below(s.of(e, b), d), s.below(s.of(e, x.Bindings[k]), r.d))
								}
							}
						}
					}
				}
			}
		}
		if t != nil {
			e.Callees[s.fn][g] = true
			for w, at := range t.writes {
				if w.r.kind == "global" {
					s.write(e, areas{w.r: true}, at, w.sort)
				}
			}
		}
	case *ssa.Go:
		e.Gos[s.fn] = appendNew(e.Gos[s.fn], at())
		e.callInstr(s, in, &x.Call, nil, at())
	case *ssa.Defer:
		e.callInstr(s, in, &x.Call, nil, at())
	case *ssa.Call:
		e.callInstr(s, in, &x.Call, x, at())
	case *ssa.Return:
		for i, v := range x.Results {
			if pointerful(v.Type()) {
				e.add(s.rets[i], s.of(e, v))
			}
		}
	}
}

// rootAlloc is the variable that an address is a part of.
func rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// apart reports whether the fields of a variable can be told apart: its
// address is only used to load and store it and its fields.
func apart(a *ssa.Alloc) bool {
	if _, ok := elemOf(a.Type()).Underlying().(*types.Struct); !ok {
		return false
	}
	var plain func(v ssa.Value) bool
	plain = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if x.Val == v {
					return false
				}
			case *ssa.FieldAddr:
				if !plain(x) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return plain(a)
}

func appendNew(l []string, s string) []string {
	for _, x := range l {
		if x == s {
			return l
		}
	}
	return append(l, s)
}

// outside is what a caller sees of areas: local storage leads on to what it
// contains.
func (s *effSum) outside(rs areas) areas {
	out := areas{}
	for r := range s.deep(rs) {
		if r.kind != "alloc" {
			out[r] = true
		}
	}
	return out
}

// below is what d loads through the areas may provide.
func (s *effSum) below(rs areas, d int) areas {
	out := areas{}
	for r := range rs {
		out[r] = true
	}
	for i := 0; i < d; i++ {
		out = s.inside(out)
	}
	if d == maxDepth {
		out = s.deep(out)
	}
	return out
}

func (e *Effects) callInstr(s *effSum, in ssa.Instruction, c *ssa.CallCommon, v *ssa.Call, site string) {
	res := func(rs areas) {
		s.result(e, v, rs)
	}
	self := areas{{"alloc", in, 0}: true}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			// the spare capacity of the first argument may be written.
			s.write(e, s.of(e, c.Args[0]), site, false)
			res(s.of(e, c.Args[0]))
			res(self)
			if len(c.Args) > 1 {
				in := s.inside(s.of(e, c.Args[1]))
				s.store(e, s.of(e, c.Args[0]), in)
				s.store(e, self, in)
			}
			s.store(e, self, s.inside(s.of(e, c.Args[0])))
		case "copy":
			s.write(e, s.of(e, c.Args[0]), site, false)
			s.store(e, s.of(e, c.Args[0]), s.inside(s.of(e, c.Args[1])))
		case "delete", "clear":
			s.write(e, s.of(e, c.Args[0]), site, false)
		case "close":
			s.write(e, s.of(e, c.Args[0]), site, false)
		}
		return
	}
	var args []areas
	for _, a := range c.Args {
		if pointerful(a.Type()) {
			args = append(args, s.of(e, a))
		} else {
			args = append(args, nil)
		}
	}
	if c.IsInvoke() {
		recv := s.of(e, c.Value)
		if isNamedPath(c.Value.Type(), "net/http", "ResponseWriter") {
			// writing the response is what a negotiation is for.
			res(areas{{"out", "response", 0}: true})
			return
		}
		for _, g := range e.implementers(c) {
			e.apply(s, in, g, append([]areas{recv}, args...), v, site)
		}
		// an implementation of the caller's may provide its own storage.
		res(s.outsideOrSelf(recv))
		return
	}
	if g := c.StaticCallee(); g != nil {
		if mk, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mk
		}
		if e.Sums[g] != nil {
			e.apply(s, in, g, args, v, site)
			return
		}
		e.external(s, in, g, c, args, v, site)
		return
	}
	// a function value: any function of the module of that type.
	for _, g := range e.bySig[sigKey(c.Signature())] {
		e.apply(s, in, g, args, v, site)
	}
	for _, a := range args {
		res(s.outsideOrSelf(a))
	}
	res(self)
}

// heapRes is storage that a call allocates: its role and how many loads away
// it is.
type heapRes struct {
	in   ssa.Instruction
	role string
	d    int
}

// layer is what is a number of loads away from a result: storage the caller
// knows, and whether there is storage of the callee's.
type layer struct {
	known areas
	fresh bool
}

// export layers what areas lead to.
func (s *effSum) export(rs areas) []layer {
	var ls []layer
	for d := 0; ; d++ {
		l := layer{known: areas{}}
		next := areas{}
		if d == maxDepth {
			rs = s.deep(rs)
		}
		for r := range rs {
			if r.kind != "alloc" {
				l.known[r] = true
				continue
			}
			l.fresh = true
			for x := range s.cont[r] {
				next[x] = true
			}
		}
		ls = append(ls, l)
		if !l.fresh || d == maxDepth {
			return ls
		}
		rs = next
	}
}

// adopt is what the layers are to a caller.
func (s *effSum) adopt(e *Effects, ls []layer, m func(area) (areas, bool), in ssa.Instruction, role string) areas {
	var below areas
	for d := len(ls) - 1; d >= 0; d-- {
		out := areas{}
		for r := range ls[d].known {
			if xs, ok := m(r); ok {
				for x := range xs {
					out[x] = true
				}
			}
		}
		if ls[d].fresh {
			self := area{"alloc", heapRes{in, role, d}, 0}
			if below != nil {
				s.store(e, areas{self: true}, below)
			} else {
				s.store(e, areas{self: true}, out)
			}
			out[self] = true
			if below == nil {
				s.store(e, areas{self: true}, areas{self: true})
			}
		}
		below = out
	}
	return below
}

// tuple is the i-th result of a call with several.
func (s *effSum) tuple(v *ssa.Call, i int) areas {
	m := s.tup[v]
	if m == nil {
		m = map[int]areas{}
		s.tup[v] = m
	}
	if m[i] == nil {
		m[i] = areas{}
	}
	return m[i]
}

// result adds to every result of a call.
func (s *effSum) result(e *Effects, v *ssa.Call, rs areas) {
	if v == nil || !pointerful(v.Type()) {
		return
	}
	if t, ok := v.Type().(*types.Tuple); ok {
		for i := 0; i < t.Len(); i++ {
			// an error does not lead to the data.
			if pointerful(t.At(i).Type()) && !isErrorType(t.At(i).Type()) {
				e.add(s.tuple(v, i), rs)
			}
		}
		return
	}
	e.add(s.of(e, v), rs)
}

func (s *effSum) outsideOrSelf(rs areas) areas {
	out := areas{}
	for r := range s.inside(rs) {
		out[r] = true
	}
	for r := range rs {
		out[r] = true
	}
	return out
}

func isNamedPath(t types.Type, path, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path
}

func (e *Effects) implementers(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	k := c.Method.FullName() + "|" + types.TypeString(c.Value.Type(), nil)
	if r, ok := e.impls[k]; ok {
		return r
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, pk := range e.P.SSA.AllPackages() {
		if !e.P.inModule(pk) || e.P.isTestHelper(pk) {
			continue
		}
		var names []string
		for n := range pk.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			t, ok := pk.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if !types.Implements(tt, it) {
					continue
				}
				if f := e.P.lookupMethod(tt, c.Method); f != nil {
					f = declared(f)
					if !seen[f] && e.Sums[f] != nil {
						seen[f] = true
						out = append(out, f)
					}
				}
			}
		}
	}
	e.impls[k] = out
	return out
}

// declared is the method a wrapper of a single call calls.
func declared(f *ssa.Function) *ssa.Function { return f }

// apply translates the effects of a callee to those of its caller.
func (e *Effects) apply(s *effSum, in ssa.Instruction, g *ssa.Function, args []areas, v *ssa.Call, site string) {
	t := e.Sums[g]
	e.Callees[s.fn][g] = true
	m := func(r area) (areas, bool) {
		switch r.kind {
		case "param":
			for i, p := range g.Params {
				if r.of == p && i < len(args) {
					return s.below(args[i], r.d), true
				}
			}
			return nil, true
		case "global", "out":
			return areas{r: true}, true
		case "free":
			// applied where the closure is made.
			return nil, false
		}
		return nil, false
	}
	for w, at := range t.writes {
		rs, ok := m(w.r)
		if !ok {
			continue
		}
		s.write(e, rs, at, w.sort)
	}
	// what the callee stores in its arguments.
	for r, c := range t.cont {
		if r.kind != "param" && r.kind != "global" {
			continue
		}
		rs, _ := m(r)
		s.store(e, rs, s.adopt(e, t.export(c), m, in, fmt.Sprint(r, r.d)))
	}
	if v == nil {
		return
	}
	for i, rs := range t.rets {
		if !pointerful(t.fn.Signature.Results().At(i).Type()) {
			continue
		}
		dst := s.adopt(e, t.export(rs), m, in, strconv.Itoa(i))
		if len(t.rets) == 1 {
			e.add(s.of(e, v), dst)
		} else {
			e.add(s.tuple(v, i), dst)
		}
	}
}

// external judges a call of a function outside the module.
func (e *Effects) external(s *effSum, in ssa.Instruction, g *ssa.Function, c *ssa.CallCommon, args []areas, v *ssa.Call, site string) {
	key := e.P.fkey(g)
	pkg := ""
	if pk := fnPkg(g); pk != nil {
		pkg = pk.Pkg.Path()
	} else if g.Object() != nil && g.Object().Pkg() != nil {
		pkg = g.Object().Pkg().Path()
	}
	if i := strings.Index(key, "["); i > 0 && strings.HasPrefix(pkg, "slices") || strings.HasPrefix(pkg, "maps") && i > 0 {
		key = key[:i]
	}
	self := areas{{"alloc", in, 0}: true}
	alias := true
	switch {
	case key == "sort.Reverse":
		// the same slice in the other order.
		s.result(e, v, args[0])
		return
	case strings.HasPrefix(key, "sort.") || strings.HasPrefix(key, "slices.Sort") || key == "slices.Reverse":
		if len(args) > 0 {
			w := args[0]
			// sort.Sort takes an interface around the slice.
			s.write(e, w, site, true)
			of := c.Args[0]
			for {
				if r, ok := of.(*ssa.Call); ok && r.Call.StaticCallee() != nil && e.P.fkey(r.Call.StaticCallee()) == "sort.Reverse" {
					of = r.Call.Args[0]
					continue
				}
				break
			}
			if mi, ok := of.(*ssa.MakeInterface); !ok || isPointer(mi.X.Type()) {
				s.write(e, s.insideAllocs(w), site, true)
			}
		}
		for _, a := range args {
			s.callsBack(e, a)
		}
		alias = key != "slices.Sorted" && key != "slices.SortedFunc"
	case strings.HasPrefix(key, "slices.Clone"), strings.HasPrefix(key, "maps.Clone"), strings.HasPrefix(key, "bytes.Clone"), key == "slices.Collect", key == "slices.Concat", key == "slices.Repeat":
		alias = false
		for _, a := range args {
			s.store(e, self, s.inside(a))
		}
	case strings.HasPrefix(key, "slices.Insert"), strings.HasPrefix(key, "slices.Delete"), strings.HasPrefix(key, "slices.Compact"), strings.HasPrefix(key, "slices.Replace"), strings.HasPrefix(key, "maps.Copy"), strings.HasPrefix(key, "maps.DeleteFunc"), strings.HasPrefix(key, "slices.AppendSeq"), strings.HasPrefix(key, "slices.Grow"):
		if len(args) > 0 {
			s.write(e, args[0], site, false)
		}
		for _, a := range args {
			s.callsBack(e, a)
		}
	case key == "bytes.NewReader" || key == "strings.NewReader":
		// what it holds is only read.
		alias = false
	case readsOnly(key, pkg):
		for _, a := range args {
			s.callsBack(e, a)
		}
	default:
		for i, a := range args {
			if i > 0 && g.Signature.Recv() != nil && !fillsArgs(g.Name()) {
				continue
			}
			s.write(e, s.deep(a), site, false)
			s.callsBack(e, a)
		}
	}
	s.result(e, v, self)
	if v != nil && alias {
		for _, a := range args {
			s.result(e, v, a)
			s.store(e, self, a)
		}
	}
}

func (s *effSum) insideAllocs(rs areas) areas {
	out := areas{}
	for r := range rs {
		if r.kind == "alloc" {
			for x := range s.cont[r] {
				out[x] = true
			}
		}
	}
	return out
}

// callsBack: closures passed on are applied where they are made.
func (s *effSum) callsBack(e *Effects, a areas) {}

// readsOnly lists what outside functions are known not to write to their
// arguments.
func readsOnly(key, pkg string) bool {
	switch pkg {
	case "strings":
		return !strings.HasPrefix(key, "(*strings.Builder)") && !strings.HasPrefix(key, "(*strings.Reader)")
	case "bytes":
		return !strings.HasPrefix(key, "(*bytes.Buffer)") && !strings.HasPrefix(key, "(*bytes.Reader)")
	case "strconv", "math", "errors", "unicode", "unicode/utf8", "path", "mime", "cmp", "math/bits", "slices", "maps", "net/textproto", "time", "golang.org/x/text/language":
		return true
	case "fmt":
		return !strings.HasPrefix(key, "fmt.Sscan") && !strings.HasPrefix(key, "fmt.Fscan") && !strings.HasPrefix(key, "fmt.Fprint")
	case "net/url":
		return !strings.HasPrefix(key, "(net/url.Values).") && key != "(*net/url.URL).UnmarshalBinary" || key == "(net/url.Values).Get" || key == "(net/url.Values).Has" || key == "(net/url.Values).Encode"
	case "net/http":
		switch key {
		case "(net/http.Header).Get", "(net/http.Header).Values", "(net/http.Header).Clone", "net/http.StatusText", "net/http.CanonicalHeaderKey", "(*net/http.Request).Context", "(*net/http.Request).UserAgent", "(*net/http.Request).Clone", "(*net/http.Request).WithContext", "(*net/http.Request).Referer":
			return true
		}
		return false
	case "regexp":
		return true
	case "encoding/json", "encoding/xml":
		return strings.HasPrefix(key, pkg+".Marshal")
	case "gopkg.in/yaml.v2":
		return strings.HasPrefix(key, pkg+".Marshal")
	}
	// loggers and metric scopes are made for concurrent use.
	return strings.HasPrefix(pkg, "go.uber.org/zap") || strings.HasPrefix(pkg, "github.com/uber-go/tally")
}

// reach are the functions a root may run.
func (e *Effects) reach(f *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[f] {
		return
	}
	seen[f] = true
	for g := range e.Callees[f] {
		e.reach(g, seen)
	}
}

func (r area) String() string {
	switch x := r.of.(type) {
	case *ssa.Parameter:
		return "its parameter " + x.Name()
	case *ssa.FreeVar:
		return "the captured " + x.Name()
	case *ssa.Global:
		return "the package variable " + short(x.Pkg.Pkg.Path()) + "." + x.Name()
	}
	return r.kind + strconv.Itoa(0)
}

// fillsArgs: methods that write to their arguments rather than to their
// receiver only.
func fillsArgs(name string) bool {
	for _, p := range []string{"Read", "Decode", "Unmarshal", "Scan", "Fill", "Copy"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// smallDeps are the functions of other modules that are analysed rather than
// trusted.
func (p *Prog) smallDeps() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(p.SSA) {
		pk := fnPkg(f)
		if f.Blocks == nil || pk == nil || p.inModule(pk) {
			continue
		}
		path := pk.Pkg.Path()
		if i := strings.Index(path, "/"); i < 0 || !strings.Contains(path[:i], ".") {
			continue
		}
		trusted := false
		for _, t := range []string{"go.uber.org/", "github.com/uber-go/", "golang.org/x/", "gopkg.in/"} {
			trusted = trusted || strings.HasPrefix(path, t)
		}
		if !trusted {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}
