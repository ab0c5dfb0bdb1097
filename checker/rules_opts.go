package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rules["C26"] = ruleC26
}

// settle resolves parts of values that loops leave as they were.
func settle(t *Term) *Term {
	if t.Op != "field" {
		return t
	}
	b := settle(t.Args[0])
	f := foldOf(b)
	if f == nil {
		if b == t.Args[0] {
			return t
		}
		return mkField(b, t.Aux, t.Typ)
	}
	s := mkField(f.Sym, t.Aux, t.Typ)
	for _, nx := range f.Next {
		if mkField(nx, t.Aux, t.Typ) != s {
			return t
		}
	}
	return settle(mkField(f.Init, t.Aux, t.Typ))
}

// partFold sees the field of a value updated by a loop as a value of its own.
func partFold(t *Term) *Fold {
	if f := foldOf(t); f != nil {
		return f
	}
	if t.Op != "field" {
		return nil
	}
	f := partFold(t.Args[0])
	if f == nil {
		return nil
	}
	g := &Fold{ID: f.ID + "." + t.Aux, Loop: f.Loop, Name: f.Name + "." + t.Aux, Init: mkField(f.Init, t.Aux, t.Typ), Sym: mkField(f.Sym, t.Aux, t.Typ), Pos: f.Pos}
	for _, nx := range f.Next {
		g.Next = append(g.Next, mkField(nx, t.Aux, t.Typ))
	}
	return g
}

type wantSet struct {
	field string
	arg   int   // index of the argument given, or -1
	val   *Term // otherwise
}

var optionTable = map[string]map[string][]wantSet{
	"proactive": {
		"DisableStrictAccept":                {{"StrictAccept", -1, tBool(false)}},
		"DisableStrictAcceptLanguage":        {{"StrictAcceptLanguage", -1, tBool(false)}},
		"DisableStrictAcceptCharset":         {{"StrictAcceptCharset", -1, tBool(false)}},
		"DisableStrictMode":                  {{"StrictAccept", -1, tBool(false)}, {"StrictAcceptLanguage", -1, tBool(false)}, {"StrictAcceptCharset", -1, tBool(false)}},
		"Algorithm":                          {{"Chooser", 0, nil}},
		"DisableNotAcceptableRepresentation": {{"NotAcceptableRepresentation", -1, tBool(false)}},
		"DefaultRepresentation":              {{"DefaultRepresentationConstructor", 0, nil}},
		"Representations":                    {{"RepresentationConstructors", 0, nil}},
		"Logger":                             {{"Logger", 0, nil}},
		"Scope":                              {{"Scope", 0, nil}},
	},
	"transparent": {
		"MaximumVariantListSize": {{"MaximumVariantListSize", 0, nil}},
		"RVSA":                   {{"Chooser", 0, nil}},
		"ListRepresentation":     {{"ListRepresentationConstructor", 0, nil}},
		"GuessSmallThreshold":    {{"GuessSmallThreshold", 0, nil}},
		"Logger":                 {{"Logger", 0, nil}},
		"Scope":                  {{"Scope", 0, nil}},
	},
	"reactive": {
		"Representation": {{"RepresentationConstructor", 0, nil}},
		"Logger":         {{"Logger", 0, nil}},
		"Scope":          {{"Scope", 0, nil}},
	},
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func ruleC26(c *Ctx) {
	c.Rule = "the effect of every option's function on an arbitrary Options value is computed on every path and compared with the setting it documents; New is followed from the defaults through the loop that applies the options to the fields of the negotiator; the default list constructors are followed to the list they provide."
	for _, rel := range []string{"proactive", "reactive", "transparent"} {
		effs := c.optionEffects(rel)
		for _, name := range sortedKeys(optionTable[rel]) {
			want := optionTable[rel][name]
			c.must(len(effs[name]) > 0, "", "%s has no option %s", rel, name)
			for _, e := range effs[name] {
				at := c.end(e.Out)
				exp := map[string]bool{}
				for _, w := range want {
					exp[w.field] = true
					v := w.val
					if w.arg >= 0 {
						if len(e.Args) <= w.arg {
							c.must(false, at, "%s.%s takes no argument", rel, name)
							continue
						}
						v = e.Args[w.arg]
					}
					got := e.Sets[w.field]
					if !c.must(got != nil, at, "%s.%s does not change %s on the path %s", rel, name, w.field, c.facts(e.Out)) {
						continue
					}
					ok := got == v
					if w.field == "MaximumVariantListSize" {
						ok = raisedToOne(e.Out.St, got, v)
					}
					c.must(ok, at, "%s.%s sets %s to %v, not %v", rel, name, w.field, got, v)
					c.sample("%s.%s sets %s to %v", rel, name, w.field, got)
				}
				for _, f := range sortedKeys(e.Sets) {
					c.must(exp[f], at, "%s.%s also changes %s, to %v", rel, name, f, e.Sets[f])
				}
			}
		}
		c.wiring(rel)
	}
	c.defaultSettings()
}

// raisedToOne: got is v, or 1 if that is less.
func raisedToOne(st *State, got, v *Term) bool {
	small := st.known(mkBin("<", v, tInt(1), nil))
	if got == v {
		return small == 0
	}
	if k, ok := got.intv(); ok && k == 1 {
		if small == 1 {
			return true
		}
		return st.known(mkBin("<", tInt(1), v, nil)) == 0
	}
	if got.Op == "max" || isCall(got, "max") {
		return len(got.Args) == 2 && (got.Args[0] == v && got.Args[1] == tInt(1) || got.Args[1] == v && got.Args[0] == tInt(1))
	}
	return false
}

// wiring: what New makes of the options.
func (c *Ctx) wiring(rel string) {
	f := c.P.fun(rel, "New")
	pk := c.P.Pkgs[rel]
	if f == nil || pk == nil || pk.Type("Options") == nil || len(f.Params) != 1 {
		c.must(false, "", "%s.New no longer takes options", rel)
		return
	}
	ot := pk.Type("Options").Type()
	ps := rootParams(f)
	for _, o := range c.run(f, atAnchors(c.P), ps, nil) {
		at := c.end(&o)
		if !c.must(o.Panic == nil && len(o.Ret) == 1, at, "%s.New may panic", rel) {
			continue
		}
		// the settings after all options.
		var set *Fold
		for _, ev := range o.St.trace {
			if ev.Kind == "loop" {
				for _, fd := range ev.Loop.Folds {
					if fd.Sym.Typ != nil && types.Identical(fd.Sym.Typ, ot) {
						set = fd
					}
				}
			}
		}
		if !c.must(set != nil, at, "%s.New does not apply the options to its defaults", rel) {
			continue
		}
		l := set.Loop
		c.must(l.Coll == ps[0] && !l.Rev && l.Pos != nil, at, "%s.New does not apply the options one after the other", rel)
		for _, x := range l.Exits {
			c.must(x.Kind == "normal", at, "%s.New may stop applying options before the last", rel)
		}
		for i, it := range l.Iters {
			opt := mkIndex(l.Coll, l.Pos, nil)
			n := 0
			for _, ev := range it.Events {
				if ev.Kind == "call" && len(ev.Args) == 2 && ev.Args[0] == opt && ev.Args[1].Op == "obj" && set.Next[i].Op == "sym" && len(set.Next[i].Args) == 1 && set.Next[i].Args[0] == ev.Args[1] {
					n++
				}
			}
			if n == 0 && factState(it.Conds).known(errNil(opt)) == 1 {
				continue
			}
			c.must(n == 1, c.P.posn(set.Pos), "%s.New applies an option %d times", rel, n)
		}
		reached := settingsIn(o.Ret[0], f.Signature.Results().At(0).Type(), ot, "", 0)
		st := structOf(ot)
		final := raw("fold", set.ID, nil)
		for i := 0; i < st.NumFields(); i++ {
			name := st.Field(i).Name()
			c.must(reached[name] == 1, at, "%s: the setting %s reaches %d fields of the negotiator instead of one", rel, name, reached[name])
			_ = final
		}
	}
	c.defaultInstance(rel, f)
}

// settingsIn counts the fields of v that hold a setting unchanged.
func settingsIn(v *Term, t, ot types.Type, path string, d int) map[string]int {
	m := map[string]int{}
	roleWalk(v, t, ot, path, d, func(opt, path string) { m[opt]++ })
	return m
}

// roleWalk reports which setting each field of the value v of type t holds.
func roleWalk(v *Term, t, ot types.Type, path string, d int, f func(opt, path string)) {
	s := structOf(t)
	if s == nil || d > 3 {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		n, ft := s.Field(i).Name(), s.Field(i).Type()
		x := mkField(v, n, ft)
		if isCall(x, "I:Tagged") {
			x = x.Args[0]
		}
		p := n
		if path != "" {
			p = path + "." + n
		}
		if x.Op == "field" && x.Args[0].Op == "fold" {
			f(x.Aux, p)
			continue
		}
		if x.Op == "fold" && types.Identical(ft, ot) {
			os := structOf(ot)
			for k := 0; k < os.NumFields(); k++ {
				f(os.Field(k).Name(), p+"."+os.Field(k).Name())
			}
			continue
		}
		if _, isN := ft.(*types.Named); isN && structOf(ft) != nil {
			roleWalk(x, ft, ot, p, d+1, f)
		}
	}
}

// defaultInstance: Default is what New provides without options.
func (c *Ctx) defaultInstance(rel string, f *ssa.Function) {
	g := c.P.global(rel, "Default")
	if g == nil {
		c.must(false, "", "%s.Default no longer exists", rel)
		return
	}
	n := 0
	for _, b := range c.P.Pkgs[rel].Func("init").Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || s.Addr != g {
				continue
			}
			n++
			call, ok := s.Val.(*ssa.Call)
			ok = ok && call.Call.StaticCallee() == f
			if ok {
				k, isC := call.Call.Args[0].(*ssa.Const)
				ok = isC && k.IsNil()
			}
			c.must(ok, c.P.posOf(in), "%s.Default is not the negotiator without options", rel)
		}
	}
	c.must(n == 1, c.P.posn(g.Pos()), "%s.Default is set %d times", rel, n)
}

func (c *Ctx) defaultSettings() {
	p, t, r := c.defaults("proactive"), c.defaults("transparent"), c.defaults("reactive")
	eq := func(rel string, d map[string]*Term, f string, want *Term) {
		c.must(d[f] == want, "", "%s: the default of %s is %v, not %v", rel, f, d[f], want)
	}
	for _, f := range []string{"StrictAccept", "StrictAcceptLanguage", "StrictAcceptCharset", "NotAcceptableRepresentation"} {
		eq("proactive", p, f, tBool(true))
	}
	eq("transparent", t, "MaximumVariantListSize", tInt(10))
	eq("transparent", t, "GuessSmallThreshold", tInt(50))
	alg := func(rel string, d map[string]*Term, ctor string) {
		f := c.P.fun(rel, ctor)
		if f == nil {
			c.must(false, "", "%s.%s no longer exists", rel, ctor)
			return
		}
		for _, o := range c.run(f, atAnchors(c.P), nil, nil) {
			c.must(len(o.Ret) == 1 && d["Chooser"] != nil && d["Chooser"] == o.Ret[0], c.end(&o), "%s: the default algorithm is %v, not %s", rel, d["Chooser"], ctor)
		}
	}
	alg("proactive", p, "ApacheHTTPD")
	alg("transparent", t, "RVSA1")
	c.listMade("proactive", p["DefaultRepresentationConstructor"], "application/json")
	c.listMade("transparent", t["ListRepresentationConstructor"], "application/json")
	c.listMade("reactive", r["RepresentationConstructor"], "application/json")
	l := p["RepresentationConstructors"]
	if c.must(l != nil && l.Op == "list" && len(l.Args) == 3, "", "proactive: the default representations of a 406 are %v", l) {
		for i, ct := range []string{"application/json", "application/xml", "application/yaml"} {
			c.listMade("proactive", l.Args[i], ct)
		}
	}
}

// listOf: the constructor provides a list of all of its arguments with the
// media type given.
func (c *Ctx) listMade(rel string, ctor *Term, ct string) {
	if ctor == nil || ctor.Op != "fn" && ctor.Op != "closure" {
		c.must(false, "", "%s: the default constructor of %s lists is %v", rel, ct, ctor)
		return
	}
	e := newEngine(c.P, atAnchors(c.P))
	ps := rootParams(ctor.Fn)
	outs, err := e.runFree(ctor.Fn, ps, ctor.Args, newState())
	if err != nil || len(outs) == 0 || len(ps) != 1 {
		c.must(false, c.P.posn(ctor.Fn.Pos()), "the constructor of %s lists could not be analysed: %v", ct, err)
		return
	}
	for g := range e.Fns {
		c.Fns[c.P.fkey(g)] = true
	}
	c.Paths += len(outs)
	lt := c.P.Pkgs["representation"].Type("List")
	for i := range outs {
		o := &outs[i]
		at := c.end(o)
		if !c.must(o.Panic == nil && len(o.Ret) == 1 && o.Ret[0].Op == "mk" && o.Ret[0].Args[0].Op == "obj" && lt != nil, at, "the constructor of %s lists provides %v", ct, show(o.Ret)) {
			continue
		}
		v := e.load(o.St, o.Ret[0].Args[0], lt.Type())
		get := func(m string) *Term {
			v := v
			f := c.P.method("representation", "List", m)
			if f == nil {
				f = c.P.method("representation", "Base", m)
				v = mkField(v, "Base", nil)
			}
			outs, _ := newEngine(c.P, Cfg{}).Run(f, []*Term{v}, nil)
			if len(outs) != 1 || len(outs[0].Ret) != 1 {
				return raw("sym", "missing", nil)
			}
			return settle(outs[0].Ret[0])
		}
		c.must(isStr(get("ContentType"), ct), at, "%s: the type of the %s list is %v", rel, ct, get("ContentType"))
		c.must(isStr(get("ContentCharset"), "ascii"), at, "%s: the charset of the %s list is %v", rel, ct, get("ContentCharset"))
		c.must(isStr(get("ContentLanguage"), "en-US"), at, "%s: the language of the %s list is %v", rel, ct, get("ContentLanguage"))
		en := e.contents(o.St, get("ContentEncoding"))
		c.must(en.Op == "list" && len(en.Args) == 1 && isStr(en.Args[0], "identity"), at, "%s: the encoding of the %s list is %v", rel, ct, en)
		why := c.describesAll(now(o.St, mkField(v, "Representations", nil), 0), ps[0])
		c.must(why == "", at, "%s: the %s list does not describe every representation: %s", rel, ct, why)
		c.sample("%s default %s list: charset %v, language %v, %v", rel, ct, get("ContentCharset"), get("ContentLanguage"), en)
	}
}

// describesAll reports why t is not the descriptions of all of reps in order,
// after those of before.
func (c *Ctx) describesAll(t, reps *Term, before ...*Term) string {
	t = settle(t)
	if t.Op == "append" && len(before) > 0 && t.Args[0] == before[0] {
		return c.describesAll(t.Args[1], reps)
	}
	f := partFold(copied(t))
	if f == nil {
		return "it is " + t.String()
	}
	l := f.Loop
	if l.Coll != reps || l.Rev || l.Pos == nil {
		return "the loop does not run over the representations in order"
	}
	for _, x := range l.Exits {
		if x.Kind != "normal" {
			return "the loop may stop early"
		}
	}
	init := settle(f.Init)
	filled := init.Op == "mkslice" && init.Args[0] == mkLen(reps)
	if !filled && !(len(before) > 0 && init == before[0]) && !init.isNil() && !(init.Op == "list" && len(init.Args) == 0) && !(init.Op == "mkslice" && isZero(init.Args[0])) {
		return "it starts from " + init.String()
	}
	if len(f.Next) == 0 {
		return "nothing is described"
	}
	rep := mkIndex(reps, l.Pos, nil)
	for _, nx := range f.Next {
		var el *Term
		switch {
		case filled && nx.Op == "upd" && nx.Args[0] == f.Sym && nx.Args[1] == l.Pos:
			el = nx.Args[2]
		case nx.Op == "append" && nx.Args[0] == f.Sym && nx.Args[1].Op == "list" && len(nx.Args[1].Args) == 1:
			el = nx.Args[1].Args[0]
		default:
			return "an iteration leaves " + nx.String()
		}
		for _, a := range []string{"ContentType", "ContentLanguage", "ContentEncoding", "ContentLocation", "ContentCharset", "ContentFeatures", "SourceQuality"} {
			v := mkField(el, a, nil)
			if a == "ContentLocation" {
				if !isURLString(v) || len(v.Args) != 1 {
					return "ContentLocation is " + v.String()
				}
				v = v.Args[0]
				if v.Op == "ptr" {
					v = v.Args[0]
				}
			}
			if v.Op != "call" || v.Aux != "I:"+a || len(v.Args) != 1 || v.Args[0] != rep {
				return a + " is " + v.String()
			}
		}
	}
	return ""
}
