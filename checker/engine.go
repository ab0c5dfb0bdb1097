package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lit is a fact: the atom holds, or (Pol false) does not hold.
type Lit struct {
	Atom *Term
	Pol  bool
}

func (l Lit) String() string {
	if l.Pol {
		return l.Atom.String()
	}
	return "!" + l.Atom.String()
}

// Event is something observable that happens on a path.
type Event struct {
	Kind     string // call, store, mapset, sort, loop, go, panic
	Key      string // callee, for calls
	Args     []*Term
	Res      *Term
	Fn       *ssa.Function
	Site     ssa.Instruction
	Loop     *Loop
	ExitKind string // for loops: how the loop was left on this path
	Inlined  bool   // marks the entry of an analysed callee
	NFacts   int    // facts known when it happened
	Deferred bool
	Sig      *types.Signature
	Target   *ssa.Function
	Free     []*Term // what a closure called has captured
	St       *State  // state at the event, for sorts and with Snap
}

// Quant is a universal fact gained by leaving a loop normally: no element
// satisfied all of Conds.
type Quant struct {
	Loop  *Loop
	Conds []Lit
}

// State is the abstract state along a path.
type State struct {
	mem    map[*Term]*Term // address -> value
	cont   map[*Term]*Term // slice or map -> contents, when modified
	facts  map[*Term]bool
	order  []Lit
	trace  []*Event
	quants []Quant
	occ    map[string]int
	// loopIDs are the loops being iterated, innermost last.
	loopIDs []string
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, cont: map[*Term]*Term{}, facts: map[*Term]bool{}, occ: map[string]int{}}
}

func (s *State) clone() *State {
	c := &State{
		mem:     make(map[*Term]*Term, len(s.mem)),
		cont:    make(map[*Term]*Term, len(s.cont)),
		facts:   make(map[*Term]bool, len(s.facts)),
		order:   s.order[:len(s.order):len(s.order)],
		trace:   s.trace[:len(s.trace):len(s.trace)],
		quants:  s.quants[:len(s.quants):len(s.quants)],
		loopIDs: s.loopIDs[:len(s.loopIDs):len(s.loopIDs)],
		occ:     make(map[string]int, len(s.occ)),
	}
	for k, v := range s.mem {
		c.mem[k] = v
	}
	for k, v := range s.cont {
		c.cont[k] = v
	}
	for k, v := range s.facts {
		c.facts[k] = v
	}
	for k, v := range s.occ {
		c.occ[k] = v
	}
	return c
}

// known evaluates a boolean term under the facts: 1, 0, or -1 if unknown.
func (s *State) known(t *Term) int {
	if t.isTrue() {
		return 1
	}
	if t.isFalse() {
		return 0
	}
	if t.Op == "not" {
		r := s.known(t.Args[0])
		if r < 0 {
			return r
		}
		return 1 - r
	}
	if v, ok := s.facts[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	if t.Op == "bin" && t.Aux == "==" && t.Args[1].isNil() {
		// what is some error is not nil.
		for _, l := range s.order {
			if a := l.Atom; l.Pol && a.Op == "call" && a.Aux == "errors.Is" && a.Args[0] == t.Args[0] && neverNil(a.Args[1]) {
				return 0
			}
		}
	}
	if t.Op == "bin" && (t.Aux == "==" || t.Aux == "<" || t.Aux == "<=") {
		return s.compare(t)
	}
	return -1
}

// compare decides a comparison from the other comparisons known.
func (s *State) compare(t *Term) int {
	a, b := t.Args[0], t.Args[1]
	if !b.isConst() {
		// trichotomy on the same pair.
		if a.floats() || b.floats() {
			return -1
		}
		val := func(op string, x, y *Term) int {
			if op == "==" && x.id > y.id {
				x, y = y, x
			}
			k := raw("bin", op, types.Typ[types.Bool], x, y)
			if v, ok := s.facts[k]; ok {
				if v {
					return 1
				}
				return 0
			}
			return -1
		}
		switch t.Aux {
		case "==":
			l, g := val("<", a, b), val("<", b, a)
			if l == 1 || g == 1 {
				return 0
			}
			if l == 0 && g == 0 && isInt(a.Typ) {
				return 1
			}
		case "<":
			e, g := val("==", a, b), val("<", b, a)
			if e == 1 || g == 1 {
				return 0
			}
			if e == 0 && g == 0 && isInt(a.Typ) {
				return 1
			}
		}
		return -1
	}
	lo, hi, eq, ne := s.bounds(a)
	if eq != nil {
		if t.Aux == "==" {
			if eq == b {
				return 1
			}
			return 0
		}
		if eq.Lit != nil && b.Lit != nil && bothNum(eq.Lit, b.Lit) {
			op := 1
			if t.Aux == "<=" {
				op = 2
			}
			if cmpConst(eq.Lit, b.Lit, op) {
				return 1
			}
			return 0
		}
		return -1
	}
	c, isN := b.intv()
	switch t.Aux {
	case "==":
		if ne[b] {
			return 0
		}
		if isN && !a.floats() {
			if c < lo || c > hi {
				return 0
			}
			if lo == hi && lo == c {
				return 1
			}
		}
	case "<":
		if isN && !a.floats() {
			if hi < c {
				return 1
			}
			if lo >= c {
				return 0
			}
		}
	}
	return -1
}

const inf = int64(1) << 60

// bounds collects what the facts say about the integer or discrete term a.
func (s *State) bounds(a *Term) (lo, hi int64, eq *Term, ne map[*Term]bool) {
	lo, hi = -inf, inf
	if nonNeg(a) {
		lo = 0
	}
	ne = map[*Term]bool{}
	for _, l := range s.order {
		t := l.Atom
		if t.Op != "bin" || t.Args[0] != a || !t.Args[1].isConst() {
			continue
		}
		switch t.Aux {
		case "==":
			if l.Pol {
				eq = t.Args[1]
				if n, ok := eq.intv(); ok {
					lo, hi = n, n
				}
			} else {
				ne[t.Args[1]] = true
			}
		case "<":
			if n, ok := t.Args[1].intv(); ok {
				if l.Pol && n-1 < hi {
					hi = n - 1
				}
				if !l.Pol && n > lo {
					lo = n
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for k := range ne {
			if n, ok := k.intv(); ok {
				if n == lo && lo < hi {
					lo++
					changed = true
				}
				if n == hi && lo < hi {
					hi--
					changed = true
				}
			}
		}
		// one round per distinct excluded endpoint is enough.
		if !changed {
			break
		}
		for k := range ne {
			if n, ok := k.intv(); ok && (n < lo || n > hi) {
				delete(ne, k)
				_ = n
			}
		}
	}
	return
}

// assume adds a fact; it reports false if that contradicts what is known.
func (s *State) assume(t *Term, pol bool) bool {
	for t.Op == "not" {
		t, pol = t.Args[0], !pol
	}
	if t.Op == "bin" && t.Aux == "&&" && pol {
		return s.assume(t.Args[0], true) && s.assume(t.Args[1], true)
	}
	switch s.known(t) {
	case 1:
		return pol
	case 0:
		return !pol
	}
	s.facts[t] = pol
	s.order = append(s.order, Lit{t, pol})
	return true
}

// Loop is the summary of a loop: what one arbitrary iteration does.
type Loop struct {
	ID      string
	Fn      *ssa.Function
	Header  *ssa.BasicBlock
	Idx     *Term // counter of the iteration, when there is one
	Coll    *Term // what is traversed in order from its first element, when known
	CollCnt *Term // the contents traversed
	Iters   []Iter
	Exits   []LoopExit
	Folds   []*Fold
	Bound   *Term // how many iterations, when not the length of something
	Pos     *Term // index of the element of the iteration
	Rev     bool  // Coll is traversed from its last element
	IsMap   bool
	KeyT    *Term          // map traversals: key of the iteration
	MapT    *Term          // map traversals: the map
	Entry   map[string]int // allocations made before the loop, by site
}

// Iter is one way an iteration can run to the next.
type Iter struct {
	Conds  []Lit
	Events []*Event
	Quants []Quant
}

type LoopExit struct {
	Kind   string // normal, break, return, panic
	Conds  []Lit
	Events []*Event
	Ret    []*Term
}

// Fold describes a value that iterations update.
type Fold struct {
	ID   string
	Loop *Loop
	Name string
	Init *Term
	Sym  *Term
	Next []*Term // per Loop.Iters
	Pos  token.Pos
}

// Outcome is one way a function can end.
type Outcome struct {
	St    *State
	Ret   []*Term
	Panic ssa.Instruction // the instruction that panics, if any
	At    ssa.Instruction // where it ends
}

// Obl is an operation that panics unless a condition holds.
type Obl struct {
	Site ssa.Instruction
	Kind string
	What string
	OK   bool
	Why  string
}

// Cfg tunes the analysis for a rule.
type Cfg struct {
	// Opaque decides which module functions are not analysed in context.
	Opaque func(f *ssa.Function) bool
	// OpaqueDyn decides which calls of known function values are kept opaque.
	OpaqueDyn func(f *ssa.Function) bool
	// Model provides the results of calls of known functions.
	Model func(key string, args []*Term) []*Term
	// Pure overrides which opaque calls have results that depend on their
	// arguments only.
	Pure     func(key string) (pure, known bool)
	MaxPaths int
	MaxDepth int
	// Obligations turns on the collection of panic obligations.
	Obligations bool
	// NonEmpty knows collections that have an element for other reasons.
	NonEmpty func(st *State, c *Term) bool
	// NoUnroll summarizes every loop, even those of known length.
	NoUnroll bool
	// Snap keeps the state before every call in its event.
	Snap bool
	// Recurse is how many times a function is analysed inside of itself.
	Recurse int
}

// theProg is the program under analysis.
var theProg *Prog

type Engine struct {
	P     *Prog
	Cfg   Cfg
	paths int
	steps int
	depth int
	stack []*ssa.Function
	err   string
	loops map[*ssa.Function]*loopInfo
	Obls  map[string]*Obl
	trail map[*Term]*Term        // variables that are at most another term
	Fns   map[*ssa.Function]bool // functions analysed
	Calls int
	// noStatic keeps package variables unresolved.
	noStatic bool
}

func newEngine(p *Prog, cfg Cfg) *Engine {
	theProg = p
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 60000
	}
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 24
	}
	return &Engine{P: p, Cfg: cfg, loops: map[*ssa.Function]*loopInfo{}, Obls: map[string]*Obl{}, trail: map[*Term]*Term{}, Fns: map[*ssa.Function]bool{}}
}

type undecided struct{ msg string }

func (e *Engine) bail(f string, a ...any) {
	panic(undecided{fmt.Sprintf(f, a...)})
}

// Run analyses a function as a root and provides its outcomes.
func (e *Engine) Run(f *ssa.Function, args []*Term, st *State) (outs []Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	if args == nil {
		args = rootParams(f)
	}
	if st == nil {
		st = newState()
	}
	var free []*Term
	for _, fv := range f.FreeVars {
		free = append(free, raw("param", "free:"+fv.Name(), fv.Type()))
	}
	return e.call(f, args, free, st), nil
}

func rootParams(f *ssa.Function) []*Term {
	var args []*Term
	for i, p := range f.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = "p" + strconv.Itoa(i)
		}
		args = append(args, raw("param", n, p.Type()))
	}
	return args
}

type frame struct {
	e    *Engine
	fn   *ssa.Function
	free []*Term
	args []*Term
	ctx  string
}

type fstate struct {
	env    map[ssa.Value]*Term
	st     *State
	defers []deferred
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term
	args  []*Term
}

func (fs *fstate) clone() *fstate {
	c := &fstate{env: make(map[ssa.Value]*Term, len(fs.env)), st: fs.st.clone(), defers: fs.defers[:len(fs.defers):len(fs.defers)]}
	for k, v := range fs.env {
		c.env[k] = v
	}
	return c
}

// exit is how a region is left.
type exit struct {
	kind   string // ret, panic, edge
	fs     *fstate
	ret    []*Term
	from   *ssa.BasicBlock
	to     *ssa.BasicBlock
	at     ssa.Instruction
	normal bool
	set    bool // leaves a loop by a flag that the iteration set
}

func (e *Engine) call(f *ssa.Function, args, free []*Term, st *State) []Outcome {
	if e.depth > e.Cfg.MaxDepth {
		e.bail("call depth exceeded at %s", f)
	}
	e.depth++
	e.stack = append(e.stack, f)
	e.Fns[f] = true
	defer func() { e.depth--; e.stack = e.stack[:len(e.stack)-1] }()
	fr := &frame{e: e, fn: f, free: free, args: args}
	fs := &fstate{env: map[ssa.Value]*Term{}, st: st}
	for i, p := range f.Params {
		fs.env[p] = args[i]
	}
	for i, v := range f.FreeVars {
		if i < len(free) {
			fs.env[v] = free[i]
		}
	}
	exits := fr.run(f.Blocks[0], nil, fs, nil, false)
	var outs []Outcome
	for _, x := range exits {
		switch x.kind {
		case "ret":
			// slices made by the function are provided with what they hold.
			ret := append([]*Term{}, x.ret...)
			for i, t := range ret {
				if t.Op == "mkslice" {
					ret[i] = e.val(x.fs.st, t)
				}
			}
			outs = append(outs, Outcome{St: x.fs.st, Ret: ret, At: x.at})
		case "panic":
			outs = append(outs, Outcome{St: x.fs.st, Panic: x.at, At: x.at})
		}
	}
	if len(outs) == 2 && e.depth > 1 {
		outs = joinBool(outs)
	}
	return outs
}

// joinBool makes one outcome of two that provide the truth of the only
// condition in which they differ.
func joinBool(outs []Outcome) []Outcome {
	a, b := outs[0], outs[1]
	if a.Panic != nil || b.Panic != nil || len(a.Ret) != 1 || len(b.Ret) != 1 {
		return outs
	}
	if !(a.Ret[0].isTrue() && b.Ret[0].isFalse() || a.Ret[0].isFalse() && b.Ret[0].isTrue()) {
		return outs
	}
	n := len(a.St.order)
	if n == 0 || len(b.St.order) != n || len(a.St.trace) != len(b.St.trace) || len(a.St.quants) != len(b.St.quants) {
		return outs
	}
	for i := 0; i < n-1; i++ {
		if a.St.order[i] != b.St.order[i] {
			return outs
		}
	}
	x, y := a.St.order[n-1], b.St.order[n-1]
	if x.Atom != y.Atom || x.Pol == y.Pol {
		return outs
	}
	for i := range a.St.trace {
		if a.St.trace[i] != b.St.trace[i] {
			return outs
		}
	}
	if !sameMap(a.St.mem, b.St.mem) || !sameMap(a.St.cont, b.St.cont) {
		return outs
	}
	st := a.St
	st.order = st.order[: n-1 : n-1]
	for k, v := range st.facts {
		if w, ok := b.St.facts[k]; !ok || w != v {
			delete(st.facts, k)
		}
	}
	r := x.Atom
	if x.Pol != a.Ret[0].isTrue() {
		r = mkNot(r)
	}
	return []Outcome{{St: st, Ret: []*Term{r}, At: a.At}}
}

func sameMap(a, b map[*Term]*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// --- natural loops ---

type loopInfo struct {
	heads map[*ssa.BasicBlock]*natLoop
}

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (e *Engine) loopsOf(f *ssa.Function) *loopInfo {
	if li, ok := e.loops[f]; ok {
		return li
	}
	li := &loopInfo{heads: map[*ssa.BasicBlock]*natLoop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.heads[s]
				if l == nil {
					l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.heads[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	e.loops[f] = li
	return li
}

// run interprets from block b until the region is left.
func (fr *frame) run(b, prev *ssa.BasicBlock, fs *fstate, region *natLoop, phisDone bool) []exit {
	e := fr.e
	type item struct {
		b, prev  *ssa.BasicBlock
		fs       *fstate
		phisDone bool
		i        int
	}
	var out []exit
	li := e.loopsOf(fr.fn)
	work := []item{{b, prev, fs, phisDone, 0}}
	first := true
	// edge takes the edge from -> to.
	var edge func(from, to *ssa.BasicBlock, fs *fstate)
	edge = func(from, to *ssa.BasicBlock, fs *fstate) {
		if region != nil && (to == region.header || !region.blocks[to]) {
			out = append(out, exit{kind: "edge", fs: fs, from: from, to: to})
			return
		}
		if l := li.heads[to]; l != nil {
			for _, x := range fr.loop(l, from, fs, 0) {
				if x.kind != "edge" {
					out = append(out, x)
					continue
				}
				edge(x.from, x.to, x.fs)
			}
			return
		}
		work = append(work, item{to, from, fs, false, 0})
	}
	// the entry of the function may itself be a loop header.
	if region == nil && prev == nil {
		if l := li.heads[b]; l != nil {
			work = nil
			for _, x := range fr.loop(l, nil, fs, 0) {
				if x.kind != "edge" {
					out = append(out, x)
					continue
				}
				edge(x.from, x.to, x.fs)
			}
		}
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		e.steps++
		if e.steps > 4000000 {
			e.bail("analysis budget exceeded in %s", fr.fn)
		}
		_ = first
		// phis are evaluated together.
		i := it.i
		if i == 0 {
			var vals []*Term
			for ; i < len(it.b.Instrs); i++ {
				phi, ok := it.b.Instrs[i].(*ssa.Phi)
				if !ok {
					break
				}
				if !it.phisDone {
					vals = append(vals, fr.phiVal(phi, it.b, it.prev, it.fs))
				}
			}
			for k, v := range vals {
				it.fs.env[it.b.Instrs[k].(*ssa.Phi)] = v
			}
		}
		done := false
		for ; i < len(it.b.Instrs) && !done; i++ {
			in := it.b.Instrs[i]
			switch x := in.(type) {
			case *ssa.If:
				c := fr.get(it.fs, x.Cond)
				done = true
				switch it.fs.st.known(c) {
				case 1:
					edge(it.b, it.b.Succs[0], it.fs)
				case 0:
					edge(it.b, it.b.Succs[1], it.fs)
				default:
					e.paths++
					if e.paths > e.Cfg.MaxPaths*4 {
						e.bail("too many paths in %s", fr.fn)
					}
					f2 := it.fs.clone()
					if it.fs.st.assume(c, true) {
						edge(it.b, it.b.Succs[0], it.fs)
					}
					if f2.st.assume(c, false) {
						edge(it.b, it.b.Succs[1], f2)
					}
				}
			case *ssa.Jump:
				done = true
				edge(it.b, it.b.Succs[0], it.fs)
			case *ssa.Return:
				done = true
				var ret []*Term
				for _, r := range x.Results {
					ret = append(ret, fr.norm(it.fs, fr.get(it.fs, r)))
				}
				out = append(out, exit{kind: "ret", fs: it.fs, ret: ret, at: x, from: it.b})
				if len(out) > e.Cfg.MaxPaths {
					e.bail("too many paths in %s", fr.fn)
				}
			case *ssa.Panic:
				done = true
				e.oblige(it.fs.st, x, "panic", "explicit panic reachable", false)
				it.fs.st.trace = append(it.fs.st.trace, &Event{Kind: "panic", Args: []*Term{fr.get(it.fs, x.X)}, Fn: fr.fn, Site: x, NFacts: len(it.fs.st.order)})
				out = append(out, exit{kind: "panic", fs: it.fs, at: x, from: it.b})
			default:
				res := fr.instr(in, it.fs)
				if res == nil {
					continue // single successor state, updated in place
				}
				// the instruction forked; continue each from the next one.
				done = true
				for _, r := range res {
					if r.panicked {
						out = append(out, exit{kind: "panic", fs: r.fs, at: r.at, from: it.b})
						continue
					}
					work = append(work, item{it.b, it.prev, r.fs, true, i + 1})
				}
			}
		}
	}
	return out
}

func (fr *frame) phiVal(phi *ssa.Phi, b, prev *ssa.BasicBlock, fs *fstate) *Term {
	for k, p := range b.Preds {
		if p == prev {
			return fr.get(fs, phi.Edges[k])
		}
	}
	return raw("sym", "phi:"+phi.Name(), phi.Type())
}

// get provides the term of an SSA value.
func (fr *frame) get(fs *fstate, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return mkZero(x.Type())
		}
		return tConst(x.Value, x.Type())
	case *ssa.Global:
		return raw("global", fr.e.gname(x), x.Type())
	case *ssa.Function:
		t := raw("fn", fr.e.P.fkey(x), x.Type())
		t.Fn = x
		return t
	case *ssa.Builtin:
		return raw("builtin", x.Name(), nil)
	}
	if t, ok := fs.env[v]; ok {
		return t
	}
	return raw("sym", "undef:"+fr.fn.Name()+":"+v.Name(), v.Type())
}

// norm replaces a term by the constant the facts say it equals.
func (fr *frame) norm(fs *fstate, t *Term) *Term {
	return fs.st.norm(t)
}

func (s *State) norm(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if isBool(t.Typ) {
		switch s.known(t) {
		case 1:
			return tBool(true)
		case 0:
			return tBool(false)
		}
		return t
	}
	switch t.Op {
	case "call", "res", "field", "param", "fold", "sym", "lookup", "index", "gval", "deref":
		if k := raw("bin", "==", types.Typ[types.Bool], t, tNil); true {
			if v, ok := s.facts[k]; ok && v {
				return tNil
			}
		}
	}
	return t
}

func (e *Engine) gname(g *ssa.Global) string {
	if g.Pkg == nil {
		return g.Name()
	}
	return short(g.Pkg.Pkg.Path()) + "." + g.Name()
}

func short(path string) string {
	if path == Mod {
		return "~"
	}
	if strings.HasPrefix(path, Mod+"/") {
		return "~/" + strings.TrimPrefix(path, Mod+"/")
	}
	return path
}

// fkey names a function: pkg.Name, (pkg.Type).Method, (*pkg.Type).Method.
func (p *Prog) fkey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, Mod+"/", "~/")
	s = strings.ReplaceAll(s, Mod+".", "~.")
	return s
}

func (e *Engine) oblige(st *State, site ssa.Instruction, kind, what string, ok bool) {
	if !e.Cfg.Obligations {
		return
	}
	k := fmt.Sprintf("%p|%s", site, kind)
	o := e.Obls[k]
	if o == nil {
		o = &Obl{Site: site, Kind: kind, What: what, OK: true}
		e.Obls[k] = o
	}
	if !ok && o.OK {
		o.OK = false
		o.What = what
		var fs []string
		for _, l := range st.order {
			fs = append(fs, l.String())
		}
		if len(fs) > 12 {
			fs = fs[len(fs)-12:]
		}
		var ch []string
		for _, f := range e.stack {
			ch = append(ch, f.Name())
		}
		o.Why = strings.Join(ch, " > ") + " given " + strings.Join(fs, ", ")
	}
}

func sortedLits(ls []Lit) []Lit {
	c := append([]Lit{}, ls...)
	sort.Slice(c, func(i, j int) bool { return c[i].Atom.id < c[j].Atom.id })
	return c
}
