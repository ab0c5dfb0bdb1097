package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// optEff is one way an option can change the options it is applied to.
type optEff struct {
	Out  *Outcome
	Sets map[string]*Term // option field -> value
	Args []*Term          // parameters of the option's constructor
}

// optionEffects analyses every option of a package: every exported function
// that provides an Option or a value of one. The changes are relative to an
// unknown Options value.
func (c *Ctx) optionEffects(rel string) map[string][]optEff {
	res := map[string][]optEff{}
	pk := c.P.Pkgs[rel]
	if pk == nil {
		c.must(false, "", "package %s no longer exists", rel)
		return res
	}
	var names []string
	for n := range pk.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		switch m := pk.Members[name].(type) {
		case *ssa.Function:
			s := m.Signature
			if s.Recv() != nil || s.Results().Len() != 1 || !isOption(s.Results().At(0).Type(), rel) {
				continue
			}
			for _, o := range c.run(m, atAnchors(c.P), nil, nil) {
				if o.Panic != nil || len(o.Ret) != 1 {
					c.must(false, c.end(&o), "option %s may panic", name)
					continue
				}
				res[name] = append(res[name], c.applyOption(rel, name, o.Ret[0], o.St, rootParams(m))...)
			}
		case *ssa.Global:
			e := newEngine(c.P, atAnchors(c.P))
			g := raw("global", e.gname(m), m.Type())
			if sg, ok := elemOf(m.Type()).Underlying().(*types.Signature); ok && sg.Results().Len() == 1 && isOption(sg.Results().At(0).Type(), rel) {
				v := e.loadGlobal(g, elemOf(m.Type()))
				if v.Op != "fn" {
					c.must(false, c.P.posn(m.Pos()), "the option %s of %s is not a function known statically: %v", name, rel, v)
					continue
				}
				for _, o := range c.run(v.Fn, atAnchors(c.P), nil, nil) {
					if o.Panic != nil || len(o.Ret) != 1 {
						c.must(false, c.end(&o), "option %s may panic", name)
						continue
					}
					res[name] = append(res[name], c.applyOption(rel, name, o.Ret[0], o.St, rootParams(v.Fn))...)
				}
				continue
			}
			if !isOption(elemOf(m.Type()), rel) {
				continue
			}
			v := e.loadGlobal(g, elemOf(m.Type()))
			res[name] = append(res[name], c.applyOption(rel, name, v, newState(), nil)...)
		}
	}
	return res
}

func (c *Ctx) applyOption(rel, name string, v *Term, st *State, args []*Term) []optEff {
	if v.Op != "closure" && v.Op != "fn" {
		c.must(false, "", "the option %s of %s is not a function known statically: %v", name, rel, v)
		return nil
	}
	ot := c.P.Pkgs[rel].Type("Options")
	if ot == nil {
		c.must(false, "", "%s.Options no longer exists", rel)
		return nil
	}
	opts := raw("param", "opts", types.NewPointer(ot.Type()))
	e := newEngine(c.P, atAnchors(c.P))
	cfgOut, err := e.runFree(v.Fn, []*Term{opts}, v.Args, st.clone())
	if err != nil {
		c.must(false, c.P.posn(v.Fn.Pos()), "option %s could not be analysed: %v", name, err)
		return nil
	}
	for g := range e.Fns {
		c.Fns[c.P.fkey(g)] = true
	}
	c.Paths += len(cfgOut)
	var effs []optEff
	s := structOf(ot.Type())
	for i := range cfgOut {
		o := &cfgOut[i]
		c.must(o.Panic == nil, c.end(o), "option %s may panic", name)
		ef := optEff{Out: o, Sets: map[string]*Term{}, Args: args}
		before := raw("deref", "", ot.Type(), opts)
		after := e.load(o.St, opts, ot.Type())
		for k := 0; k < s.NumFields(); k++ {
			f := s.Field(k)
			b, a := mkField(before, f.Name(), f.Type()), mkField(after, f.Name(), f.Type())
			if a != b {
				ef.Sets[f.Name()] = a
			}
		}
		// anything else stored to or called.
		for _, ev := range o.St.trace {
			if ev.Kind == "store" && addrRoot(ev.Args[0]) != opts {
				c.must(false, c.P.posOf(ev.Site), "option %s stores to %v", name, ev.Args[0])
			}
		}
		effs = append(effs, ef)
	}
	return effs
}

// runFree analyses a closure with known bindings.
func (e *Engine) runFree(f *ssa.Function, args, free []*Term, st *State) (outs []Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = errString(u.msg)
				return
			}
			panic(r)
		}
	}()
	return e.call(f, args, free, st), nil
}

type errString string

func (s errString) Error() string { return string(s) }

// defaults are the values New starts from, by option field.
func (c *Ctx) defaults(rel string) map[string]*Term {
	m := map[string]*Term{}
	f := c.P.fun(rel, "New")
	if f == nil {
		return m
	}
	outs := c.run(f, atAnchors(c.P), nil, nil)
	ot := c.P.Pkgs[rel].Type("Options")
	if ot == nil {
		return m
	}
	s := structOf(ot.Type())
	for _, o := range outs {
		for _, ev := range o.St.trace {
			if ev.Kind != "loop" {
				continue
			}
			for _, fd := range ev.Loop.Folds {
				if fd.Init.Op != "struct" || fd.Init.Typ == nil || !types.Identical(fd.Init.Typ, ot.Type()) {
					continue
				}
				for i := 0; i < s.NumFields(); i++ {
					v := mkField(fd.Init, s.Field(i).Name(), s.Field(i).Type())
					if old := m[s.Field(i).Name()]; old != nil && old != v {
						c.must(false, c.end(&o), "the default of %s varies", s.Field(i).Name())
					}
					m[s.Field(i).Name()] = v
				}
			}
		}
	}
	return m
}

// isOption recognizes functions that change the options of a package.
func isOption(t types.Type, rel string) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 1 || s.Results().Len() != 0 {
		return false
	}
	p, ok := s.Params().At(0).Type().(*types.Pointer)
	return ok && isNamed(p.Elem(), rel, "Options")
}
