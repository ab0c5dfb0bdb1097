package main

import (
	"golang.org/x/tools/go/ssa"
	"strconv"
	"strings"
)

func init() {
	rules["C11"] = ruleC11
}

// piece is a part of a text: literal, or a value formatted by a verb.
type piece struct {
	lit, verb string
	t         *Term
}

func (p piece) String() string {
	if p.t == nil {
		return strconv.Quote(p.lit)
	}
	return p.verb + "(" + p.t.String() + ")"
}

// pieces is the normal form of a text built by concatenation, formatting and
// joining.
func (c *Ctx) pieces(t *Term) []piece {
	var out []piece
	add := func(p piece) {
		if p.t == nil {
			if p.lit == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].t == nil {
				out[n-1].lit += p.lit
				return
			}
		}
		out = append(out, p)
	}
	addAll := func(ps []piece) {
		for _, p := range ps {
			add(p)
		}
	}
	t = t.strip()
	if s, ok := t.str(); ok {
		return []piece{{lit: s}}
	}
	switch {
	case t.Op == "bin" && t.Aux == "+":
		addAll(c.pieces(t.Args[0]))
		addAll(c.pieces(t.Args[1]))
		return out
	case t.Op == "conv" && isString(t.Typ) && isString(t.Args[0].Typ):
		return c.pieces(t.Args[0])
	case t.Op == "call" && t.Aux == "strconv.Quote":
		return []piece{{verb: "q", t: t.Args[0]}}
	case t.Op == "call" && t.Aux == "strconv.FormatFloat" && len(t.Args) == 4:
		x := t.Args[0]
		for x.Op == "conv" || x.Op == "widen" {
			x = x.Args[0]
		}
		f, _ := t.Args[1].intv()
		p, _ := t.Args[2].intv()
		if f == 'f' {
			return []piece{{verb: "." + strconv.Itoa(int(p)) + "f", t: x}}
		}
	case t.Op == "call" && strings.HasSuffix(t.Aux, ".String") && len(t.Args) == 1:
		return []piece{{verb: "s", t: t.Args[0].strip()}}
	case t.Op == "call" && (t.Aux == "fmt.Sprintf" || t.Aux == "fmt.Sprint") && len(t.Args) > 0:
		if t.Aux == "fmt.Sprint" && t.Args[0].Op == "list" && len(t.Args[0].Args) == 1 {
			return []piece{{verb: "v", t: t.Args[0].Args[0].strip()}}
		}
		f, ok := t.Args[0].str()
		if !ok || len(t.Args) != 2 || t.Args[1].Op != "list" {
			break
		}
		k := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				add(piece{lit: string(f[i])})
				continue
			}
			j := i + 1
			for j < len(f) && strings.ContainsRune("+-# 0123456789.", rune(f[j])) {
				j++
			}
			if j >= len(f) {
				return []piece{{verb: "s", t: t}}
			}
			verb := f[i+1 : j+1]
			i = j
			if verb == "%" {
				add(piece{lit: "%"})
				continue
			}
			if k >= len(t.Args[1].Args) {
				return []piece{{verb: "s", t: t}}
			}
			a := t.Args[1].Args[k].strip()
			k++
			if (verb == "s" || verb == "v") && isString(a.Typ) || isStringMethod(a) && (verb == "s" || verb == "v") {
				addAll(c.pieces(a))
				continue
			}
			add(piece{verb: verb, t: a})
		}
		if k == len(t.Args[1].Args) {
			return out
		}
		return []piece{{verb: "s", t: t}}
	}
	return []piece{{verb: "s", t: t}}
}

func isStringMethod(t *Term) bool {
	return t.Op == "call" && strings.HasSuffix(t.Aux, ".String") && len(t.Args) == 1
}

// shape renders the pieces of a text with values by position.
func shape(ps []piece) string {
	var sb strings.Builder
	for _, p := range ps {
		if p.t == nil {
			sb.WriteString(p.lit)
		} else {
			sb.WriteString("\x00" + p.verb)
		}
	}
	return sb.String()
}

// fieldOf is the field of base that t is, looking through the copies and
// conversions made to call a method of it.
func fieldOf(t, base *Term) string {
	for {
		t = t.strip()
		if t.Op == "ptr" || t.Op == "conv" {
			t = t.Args[0]
			continue
		}
		break
	}
	if t.Op == "field" && t.Args[0] == base {
		return t.Aux
	}
	return ""
}

func ruleC11(c *Ctx) {
	c.Rule = "provenance of the Alternates header: on every transparent response with a body it is the rendering of NewAlternates of all representations and (for lists) one of them as fallback; NewAlternates collects unconditionally over the representations, in order, a record of that element's own location, source quality and a fresh attribute map with exactly type, charset, language, features and length; the rendering collects every description and attribute with its key."
	c.Trusted = trustedStd
	c.alternatesSent()
	c.alternatesBuilt()
	c.alternatesRendered()
}

const hdrPkg = "~/internal/header."

func (c *Ctx) alternatesSent() {
	n := c.negotiator("transparent")
	if n == nil {
		return
	}
	lists, choices := 0, 0
	for i := range n.Outs {
		o := &n.Outs[i]
		r := n.response(c, o)
		if len(r.Bodies) == 0 {
			continue
		}
		at := c.end(o)
		vs := r.Headers["Alternates"]
		if !c.must(len(vs) == 1, at, "the response has %d Alternates values set", len(vs)) {
			continue
		}
		v := vs[0]
		if v.Op == "call" && v.Aux == "strings.Join" && isStrAny(v.Args[1], ",", ", ") {
			v = v.Args[0]
		}
		ok := isCall(v, "("+hdrPkg+"Alternates).ValuesAsString") || isCall(v, "("+hdrPkg+"Alternates).ValuesAsStrings")
		if !c.must(ok, at, "the Alternates header is %v", v) {
			continue
		}
		call, ok := resOf(v.Args[0], "0", hdrPkg+"NewAlternates")
		if !c.must(ok && len(call.Args) == 2, at, "the Alternates header is made from %v", v.Args[0]) {
			continue
		}
		c.must(call.Args[1] == n.Reps, at, "the Alternates header describes %v rather than all representations", call.Args[1])
		fb := call.Args[0].strip()
		k, _ := n.kind(r.source())
		el := fb.Op == "index" && fb.Args[0] == n.Reps
		if k == "variant" {
			choices++
			c.must(fb.isNil() || el || fb == r.source(), at, "the fallback of a choice is %v", fb)
		} else {
			lists++
			c.must(el, at, "the fallback of a list is %v rather than a supplied representation", fb)
		}
	}
	c.minimum(lists, 1, "list responses")
	c.minimum(choices, 1, "choice responses")
	c.sample("%d list and %d choice paths carry Alternates of all representations", lists, choices)
}

func isStrAny(t *Term, ss ...string) bool {
	v, ok := t.str()
	for _, s := range ss {
		if ok && v == s {
			return true
		}
	}
	return false
}

// altFields names the fields of the records the header is made of.
type altFields struct{ desc, fallback, loc, sq, attrs string }

var altF altFields

func (c *Ctx) alternatesBuilt() {
	f := c.P.fun("internal/header", "NewAlternates")
	if f == nil {
		c.must(false, "", "NewAlternates no longer exists")
		return
	}
	ps := rootParams(f)
	fb, reps := ps[0], ps[1]
	same := func(t *Term, n string, el *Term) bool {
		t = t.strip()
		return isCall(t, "I:"+n) && t.Args[0] == el
	}
	built := map[string]int{}
	s := structOf(f.Signature.Results().At(0).Type())
	for _, o := range c.run(f, atAnchors(c.P), ps, nil) {
		at := c.end(&o)
		if !c.must(o.Panic == nil && len(o.Ret) == 2 && s != nil, at, "NewAlternates may panic") {
			continue
		}
		if _, e := retError(&o); e == 1 {
			continue
		}
		var desc, fall *Term
		var fn altFields
		for i := 0; i < s.NumFields(); i++ {
			v := mkField(o.Ret[0], s.Field(i).Name(), s.Field(i).Type())
			if elemOf(s.Field(i).Type()) != nil && structOf(elemOf(s.Field(i).Type())) != nil && strings.HasPrefix(s.Field(i).Type().Underlying().String(), "[]") {
				desc, fn.desc = v, s.Field(i).Name()
			} else {
				fall, fn.fallback = v, s.Field(i).Name()
			}
		}
		if !c.must(desc != nil && fall != nil, at, "the parts of the Alternates header are not recognized") {
			continue
		}
		why := ""
		ok := collects(desc, reps, func(l *Loop, el *Term) bool {
			own := mkIndex(reps, l.Pos, nil)
			ds := structOf(el.Typ)
			if ds == nil {
				why = "an element is not a record"
				return false
			}
			var attrs *Term
			for i := 0; i < ds.NumFields(); i++ {
				v := mkField(el, ds.Field(i).Name(), ds.Field(i).Type())
				switch {
				case same(v, "ContentLocation", own):
					fn.loc = ds.Field(i).Name()
				case same(v, "SourceQuality", own):
					fn.sq = ds.Field(i).Name()
				case v.Op == "mkmap":
					attrs, fn.attrs = v, ds.Field(i).Name()
				default:
					why = "a description has " + ds.Field(i).Name() + " = " + v.String()
					return false
				}
			}
			if fn.loc == "" || fn.sq == "" || attrs == nil {
				why = "a description lacks the location, source quality or attributes of its own representation"
				return false
			}
			if !isFresh(attrs, l.Entry) {
				why = "descriptions share a map of attributes"
				return false
			}
			for _, it := range l.Iters {
				got := map[string]*Term{}
				for _, ev := range it.Events {
					if ev.Kind == "loop" {
						for _, i2 := range ev.Loop.Iters {
							for _, e2 := range i2.Events {
								if (e2.Kind == "mapset" || e2.Kind == "mapdel") && e2.Args[0] == attrs {
									why = "attributes are set in a loop"
									return false
								}
							}
						}
					}
					if (ev.Kind == "mapset" || ev.Kind == "mapdel") && ev.Args[0] == attrs {
						k, ok := ev.Args[1].str()
						if !ok || ev.Kind == "mapdel" {
							why = "an attribute of a computed name, or one removed"
							return false
						}
						got[k] = ev.Args[2].strip()
					}
				}
				for k, n := range map[string]string{"type": "ContentType", "charset": "ContentCharset", "language": "ContentLanguage"} {
					if got[k] == nil || !same(got[k], n, own) {
						why = "the attribute " + k + " is " + str(got[k]) + " rather than the representation's own " + n
						return false
					}
				}
				ft := got["features"]
				if ft == nil || !(isCall(ft, "strings.Join") && same(ft.Args[0], "ContentFeatures", own) && isStr(ft.Args[1], " ")) && !same(ft, "ContentFeatures", own) {
					why = "the attribute features is " + str(ft)
					return false
				}
				ln := got["length"]
				if ln != nil {
					ln = unconvInt(ln)
				}
				if ln != nil && ln.Op == "call" && ln.Aux == "strconv.Itoa" {
					ln = unconvInt(ln.Args[0])
				}
				bytesOK := false
				if ln != nil && ln.Op == "len" {
					if call, ok := resOf(ln.Args[0], "0", "I:Bytes"); ok && call.Args[0] == own {
						bytesOK = true
					}
				}
				if !bytesOK {
					why = "the attribute length is " + str(ln) + " rather than that of the representation's own bytes"
					return false
				}
				if len(got) != 5 {
					why = "there are " + strconv.Itoa(len(got)) + " attributes instead of five"
					return false
				}
			}
			return true
		})
		eachEvent(&o, func(ev *Event, _ *State, _ bool) {
			if ev.Kind == "mapset" || ev.Kind == "mapdel" {
				c.must(ev.Args[0].Op == "mkmap", c.P.posOf(ev.Site), "NewAlternates alters the attributes of a description made before: %s", ev.Args[0])
			}
		})
		c.must(ok, at, "NewAlternates does not describe every representation by its own attributes: %s (%v)", why, desc)
		if altF == (altFields{}) {
			altF = fn
		}
		switch o.St.known(errNil(fb)) {
		case 1:
			built["none"]++
			c.must(fall.isNil(), at, "a fallback %v without a fallback representation", fall)
		case 0:
			built["fallback"]++
			v := fall
			if v.Op == "obj" {
				v = o.St.mem[v]
			}
			for v != nil && (v.Op == "conv" || v.Op == "ptr") {
				v = v.Args[0]
			}
			c.must(v != nil && same(v, "ContentLocation", fb), at, "the fallback is %v rather than the location of the fallback representation", v)
		default:
			c.must(false, at, "whether there is a fallback is not tested")
		}
	}
	c.must(built["none"] > 0 && built["fallback"] > 0, "", "expected paths with and without a fallback")
	c.sample("description fields: %+v", altF)
}

func str(t *Term) string {
	if t == nil {
		return "missing"
	}
	return t.String()
}

func (c *Ctx) alternatesRendered() {
	// the whole header.
	f := c.P.method("internal/header", "Alternates", "ValuesAsStrings")
	f2 := c.P.method("internal/header", "Alternates", "ValuesAsString")
	if f == nil || f2 == nil {
		c.must(false, "", "the rendering of Alternates no longer exists")
		return
	}
	a := rootParams(f)[0]
	desc, fall := mkField(a, altF.desc, nil), mkField(a, altF.fallback, nil)
	var elemT, fallT string
	cnt := 0
	for _, o := range c.run(f, atAnchors(c.P), nil, nil) {
		at := c.end(&o)
		if !c.must(o.Panic == nil && len(o.Ret) == 1, at, "rendering may panic") {
			continue
		}
		t := o.Ret[0]
		has := o.St.known(errNil(fall))
		if has == 0 {
			ok := t.Op == "append" && t.Args[1].Op == "list" && len(t.Args[1].Args) == 1
			if c.must(ok, at, "the fallback is not the last value: %v", t) {
				ps := c.pieces(t.Args[1].Args[0])
				ok := len(ps) == 1 && ps[0].t != nil
				if ok {
					v := ps[0].t
					if v.Op == "deref" || v.Op == "ptr" {
						v = v.Args[0]
					}
					ok = v == fall
				}
				fallT = t.Args[1].Args[0].Aux
				c.must(ok, at, "the last value is %v rather than the fallback", t.Args[1].Args[0])
				t = t.Args[0]
			}
		} else {
			c.must(has == 1, at, "whether there is a fallback is not tested")
		}
		ok := collects(t, desc, func(l *Loop, el *Term) bool {
			elemT = el.Aux
			return isStringMethod(el) && el.Args[0].strip() == mkIndex(desc, l.Pos, nil)
		})
		c.must(ok, at, "not every description is rendered in order: %v", t)
		cnt++
	}
	c.minimum(cnt, 2, "ways to render Alternates")
	cfg := Cfg{Opaque: func(g *ssa.Function) bool { return g == f }}
	b := rootParams(f2)[0]
	for _, o := range c.run(f2, cfg, nil, nil) {
		ok := len(o.Ret) == 1 && isCall(o.Ret[0], "strings.Join") && isCall(o.Ret[0].Args[0], c.P.fkey(f)) && o.Ret[0].Args[0].Args[0] == b && isStrAny(o.Ret[0].Args[1], ",", ", ")
		c.must(ok, c.end(&o), "Alternates is rendered as %v", o.Ret)
	}
	// one description.
	rend := func(key string, want []string, vals func(v *Term, i int, self *Term) bool) {
		var g *ssa.Function
		for _, h := range c.P.Funcs {
			if c.P.fkey(h) == key {
				g = h
			}
		}
		if !c.must(g != nil, "", "the rendering %s is not found", key) {
			return
		}
		self := rootParams(g)[0]
		for _, o := range c.run(g, atAnchors(c.P), nil, nil) {
			at := c.end(&o)
			if !c.must(o.Panic == nil && len(o.Ret) == 1, at, "rendering may panic") {
				continue
			}
			ps := c.pieces(o.Ret[0])
			k := 0
			sh := ""
			ok := true
			for _, p := range ps {
				if p.t == nil {
					sh += p.lit
					continue
				}
				sh += "\x00" + p.verb
				ok = ok && vals(p.t, k, self)
				k++
			}
			fit := false
			for _, w := range want {
				if strings.ReplaceAll(sh, " ", "") == strings.ReplaceAll(w, " ", "") {
					fit = true
				}
			}
			c.must(ok && fit, at, "%s renders %v", key, ps)
			c.sample("%s renders %v", key, ps)
		}
	}
	q := "\x00q"
	rend(elemT, []string{"{ " + q + " \x00.3f \x00s }", "{ " + q + " \x00.3f \x00v }"}, func(v *Term, i int, self *Term) bool {
		switch i {
		case 0:
			return isURLString(v) && fieldOf(v.Args[0], self) == altF.loc || fieldOf(v, self) == altF.loc
		case 1:
			return fieldOf(v, self) == altF.sq
		default:
			return fieldOf(v, self) == altF.attrs || isStringMethod(v) && fieldOf(v.Args[0], self) == altF.attrs
		}
	})
	rend(fallT, []string{"{ " + q + " }"}, func(v *Term, i int, self *Term) bool {
		if isURLString(v) {
			v = v.Args[0]
		}
		for v.Op == "ptr" || v.Op == "conv" {
			v = v.Args[0]
		}
		return v == self
	})
	c.attrsRendered()
}

// added is the one element that an iteration adds to a list, at its end or at
// the place of the iteration.
func added(f *Fold, nx *Term) *Term {
	if nx == nil || len(nx.Args) == 0 || nx.Args[0] != f.Sym {
		return nil
	}
	if nx.Op == "append" && nx.Args[1].Op == "list" && len(nx.Args[1].Args) == 1 && (f.Init.isNil() || mkLen(f.Init) == tInt(0)) {
		return nx.Args[1].Args[0]
	}
	l := f.Loop
	if nx.Op == "upd" && l.Coll != nil && l.Pos != nil && !l.Rev && nx.Args[1] == l.Pos && f.Init.Op == "mkslice" {
		n, m := f.Init.Args[0], mkLen(l.Coll)
		if n == m {
			return nx.Args[2]
		}
		// as long as what the keys are those of.
		if isCall(l.Coll, "slices.Sorted") && l.Coll.Args[0].Op == "keys" && n == mkLen(l.Coll.Args[0].Args[0]) {
			return nx.Args[2]
		}
	}
	return nil
}

func isURLString(t *Term) bool { return isCall(t, "(*net/url.URL).String") }

func (c *Ctx) attrsRendered() {
	f := c.P.method("internal/header", "variantAttributes", "String")
	if f == nil {
		c.must(false, "", "the rendering of attributes no longer exists")
		return
	}
	self := rootParams(f)[0]
	for _, o := range c.run(f, atAnchors(c.P), nil, nil) {
		at := c.end(&o)
		if !c.must(o.Panic == nil && len(o.Ret) == 1, at, "rendering may panic") {
			continue
		}
		t := o.Ret[0]
		if !c.must(isCall(t, "strings.Join") && isStr(t.Args[1], " "), at, "attributes are rendered as %v", t) {
			continue
		}
		fd := foldOf(t.Args[0])
		if !c.must(fd != nil, at, "attributes are rendered as %v", t) {
			continue
		}
		l := fd.Loop
		var key *Term
		coll := l.Coll
		if l.KeyT != nil {
			key = l.KeyT
		} else if coll != nil {
			// over the sorted keys.
			kf := foldOf(coll)
			ok := isCall(coll, "slices.Sorted") && len(coll.Args) == 1 && coll.Args[0].Op == "keys" && coll.Args[0].Args[0] == self
			ok = ok || kf != nil && kf.Loop.KeyT != nil && (kf.Init.isNil() || mkLen(kf.Init) == tInt(0))
			for i := 0; kf != nil && ok && i < len(kf.Next); i++ {
				nx := kf.Next[i]
				ok = nx.Op == "append" && nx.Args[0] == kf.Sym && nx.Args[1].Op == "list" && len(nx.Args[1].Args) == 1 && nx.Args[1].Args[0].Aux == kf.Loop.KeyT.Aux
			}
			c.must(ok, at, "not every attribute is rendered: the keys are %v", coll)
		}
		ok := len(fd.Next) > 0
		for _, nx := range fd.Next {
			x := added(fd, nx)
			if x == nil {
				ok = false
				continue
			}
			ps := c.pieces(x)
			if len(ps) != 5 || strings.TrimSpace(ps[0].lit) != "{" || ps[1].t == nil || strings.TrimSpace(ps[2].lit) != "" || ps[3].t == nil || strings.TrimSpace(ps[4].lit) != "}" {
				ok = false
				continue
			}
			k := ps[1].t
			if key != nil {
				ok = ok && k == key
			} else {
				ok = ok && k.Op == "index" && k.Args[1] == l.Pos && k.Args[0].any(func(x *Term) bool { return x == coll })
			}
			v := ps[3].t
			ok = ok && v == mkLookup(self, k, v.Typ) || ok && v.Op == "lookup" && v.Args[0] == self && v.Args[1] == k || ok && l.KeyT != nil && strings.HasSuffix(v.Aux, ".val")
		}
		c.must(ok, at, "an attribute is rendered as %v", fd.Next)
	}
}
