package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C23"] = ruleC23
}

var attributes = []string{"ContentType", "ContentLanguage", "ContentEncoding", "ContentCharset", "ContentLocation", "ContentFeatures", "SourceQuality"}

// tables are what representations can be customized with.
var tables = []string{"Marshallers", "Unmarshallers", "EncodingReaders", "EncodingWriters"}

func ruleC23(c *Ctx) {
	c.Rule = "every setter of Base and List, analysed on a representation with arbitrary contents, makes its getter yield the value given and leaves what every other getter yields the same; SetRepresentations traverses everything it is given in order and appends one description whose fields are the accessors of that element."
	c.Trusted = trustedStd
	n := 0
	for _, name := range []string{"Base", "List"} {
		p := c.P.Pkgs["representation"]
		if p == nil || p.Type(name) == nil {
			c.must(false, "", "representation.%s no longer exists", name)
			continue
		}
		n += c.attributesOf(p.Type(name).Type())
	}
	c.minimum(n, 14, "attributes that can be set")
	c.listsAll()
}

// onValue runs a method on the value that a pointer points to.
func (c *Ctx) onValue(f *ssa.Function, ptr *Term, t types.Type, st *State, args ...*Term) []Outcome {
	e := newEngine(c.P, Cfg{Snap: true, Recurse: 4})
	recv := ptr
	if _, ok := f.Signature.Recv().Type().(*types.Pointer); !ok {
		recv = e.load(st, ptr, t)
	}
	outs, err := e.Run(f, append([]*Term{recv}, args...), st.clone())
	c.must(err == nil, c.P.posn(f.Pos()), "%s could not be analysed: %v", f.Name(), err)
	for g := range e.Fns {
		c.Fns[c.P.fkey(g)] = true
	}
	c.Paths += len(outs)
	return outs
}

// methodFor is a method of values of a type, or else of pointers to them.
func (c *Ctx) methodFor(t types.Type, name string) *ssa.Function {
	f := c.P.methodOf(t, name)
	c.must(f != nil, "", "%s has no %s", t, name)
	return f
}

func (c *Ctx) attributesOf(t types.Type) int {
	ptr := raw("sym", "representation", types.NewPointer(t))
	n := 0
	before := map[string]*Term{}
	read := func(a string, st *State) ([]Outcome, *ssa.Function) {
		f := c.methodFor(t, a)
		if f == nil {
			return nil, nil
		}
		return c.onValue(f, ptr, t, st), f
	}
	for _, a := range attributes {
		outs, f := read(a, newState())
		if f == nil {
			continue
		}
		if c.must(len(outs) == 1 && outs[0].Panic == nil && len(outs[0].Ret) == 1, c.P.posn(f.Pos()), "what %s yields depends on %d conditions", a, len(outs)) {
			before[a] = outs[0].Ret[0]
		}
	}
	// owner maps the fields that hold what a setter was given to the setter.
	owner := map[string]string{}
	type change struct{ setter, field, at string }
	var changes []change
	untouched := c.fieldsAt(ptr, t, newState())
	for i, s := range append(append([]string{}, attributes...), tables...) {
		f := c.methodFor(t, "Set"+s)
		if f == nil || len(f.Params) != 2 && f.Synthetic == "" {
			c.must(f == nil, "", "Set%s takes %d values", s, len(f.Params)-1)
			continue
		}
		v := raw("sym", "value given", f.Signature.Params().At(0).Type())
		at := c.P.posn(f.Pos())
		for _, o := range c.onValue(f, ptr, t, newState(), v) {
			if !c.must(o.Panic == nil, at, "Set%s may panic", s) {
				continue
			}
			for field, x := range c.fieldsAt(ptr, t, o.St) {
				if x == untouched[field] {
					continue
				}
				changes = append(changes, change{s, field, at})
				if sameValue(o.St, x, v) {
					owner[field] = s
				}
			}
			for _, a := range attributes {
				outs, g := read(a, o.St)
				for j := range outs {
					x := &outs[j]
					if !c.must(x.Panic == nil && len(x.Ret) == 1, at, "%s does not return after Set%s", a, s) {
						continue
					}
					if a == s {
						c.must(sameValue(x.St, x.Ret[0], v), c.end(x), "%s yields %s after Set%s", a, x.Ret[0], s)
					} else {
						c.must(x.Ret[0] == before[a], at, "Set%s changes %s", s, a)
					}
				}
				if a == s && len(outs) > 0 {
					n++
					c.Sites[at] = true
					c.Sites[c.P.posn(g.Pos())] = true
				}
			}
		}
		if i == 0 {
			c.sample("%s: %d attributes", t, len(attributes))
		}
	}
	for _, x := range changes {
		by := owner[x.field]
		c.must(by == "" || by == x.setter, x.at, "Set%s changes what Set%s has set", x.setter, by)
		c.must(x.field != "Representations", x.at, "Set%s changes what a list describes", x.setter)
	}
	return n
}

// fieldsAt is what the fields of a struct hold, those of the structs it embeds included.
func (c *Ctx) fieldsAt(ptr *Term, t types.Type, st *State) map[string]*Term {
	m := map[string]*Term{}
	s := st.clone()
	v := newEngine(c.P, Cfg{}).load(s, ptr, t)
	var walk func(v *Term, t types.Type)
	walk = func(v *Term, t types.Type) {
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			x := settle(mkField(v, f.Name(), f.Type()))
			if _, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() {
				walk(x, f.Type())
				continue
			}
			m[f.Name()] = x
		}
	}
	walk(v, t)
	return m
}

// sameValue reports whether t is v or a copy of it.
func sameValue(st *State, t, v *Term) bool {
	t = unconv(t)
	empty := func(x *Term) bool { return x.isNil() || mkLen(x) == tInt(0) }
	switch {
	case t == v:
		return true
	case isCall(t, "slices.Clone") && t.Args[0] == v:
		return true
	case t.Op == "append" && empty(t.Args[0]) && t.Args[0].Aux != "reuse" && t.Args[1] == v:
		return true
	case empty(t) && isKnownEmpty(st, v):
		return true
	}
	if x, ok := st.cont[t]; ok && x != t {
		return x == v || sameValue(st, x, v)
	}
	return false
}

// listsAll checks that a list describes everything it is given.
func (c *Ctx) listsAll() {
	f := c.P.method("representation", "List", "SetRepresentations")
	if f == nil {
		c.must(false, "", "List.SetRepresentations no longer exists")
		return
	}
	ps := rootParams(f)
	outs := c.run(f, Cfg{NoUnroll: true}, nil, nil)
	e := newEngine(c.P, Cfg{})
	t := elemOf(ps[0].Typ)
	old := mkField(e.load(newState(), ps[0], t), "Representations", nil)
	untouched := c.fieldsAt(ps[0], t, newState())
	n := 0
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		if !c.must(o.Panic == nil, at, "SetRepresentations may panic") {
			continue
		}
		for field, x := range c.fieldsAt(ps[0], t, o.St) {
			c.must(field == "Representations" || x == untouched[field], at, "SetRepresentations changes the field %s of a list", field)
		}
		after := now(o.St, settle(mkField(e.load(o.St, ps[0], t), "Representations", nil)), 0)
		if isKnownEmpty(o.St, ps[1]) {
			c.must(after == old || mkLen(after) == tInt(0) || after.isNil(), at, "a list of nothing describes %s", after)
			continue
		}
		n++
		why := c.describesAll(after, ps[1], old)
		c.must(why == "", at, "a list does not describe every representation: %s", why)
	}
	c.minimum(n, 1, "ways to set the representations of a list")
}
