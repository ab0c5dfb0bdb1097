package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tagString = "(golang.org/x/text/language.Tag).String"
	tagParse  = "golang.org/x/text/language.Parse"
)

// answers evaluates a method of a value in a world; it returns the values of
// the paths that may apply, or nil if one is not determined.
func (c *Ctx) answers(rel, typ, method string, recv *Term, w *World) ([]any, *Term) {
	f := c.P.method(rel, typ, method)
	if f == nil {
		return nil, nil
	}
	e := newEngine(c.P, atAnchors(c.P))
	outs, err := e.Run(f, append([]*Term{recv}, rootParams(f)[1:]...), nil)
	if err != nil {
		return nil, nil
	}
	var vs []any
	for i := range outs {
		o := &outs[i]
		if h, _ := w.fits(o, nil); h == 0 {
			continue
		}
		if o.Panic != nil || len(o.Ret) == 0 {
			return nil, nil
		}
		r := o.Ret[0]
		var v any
		if h := w.holds(r); h >= 0 {
			v = h == 1
		} else {
			v = w.eval(r)
		}
		if v == nil {
			return nil, r
		}
		vs = append(vs, v)
	}
	return vs, nil
}

// tagWorld is a world in which a tag has a text.
func (c *Ctx) tagWorld(tag *Term, text string) *World {
	w := newWorld(c.P).with(mkCall(tagString, nil, tag), text)
	w.more = func(t *Term) int {
		if t.Op != "bin" || t.Aux != "==" {
			return -1
		}
		for i := range t.Args {
			if t.Args[i] != tag {
				continue
			}
			o := t.Args[1-i]
			if o.Op == "gval" {
				if v := newEngine(c.P, Cfg{}).staticOf(o); v != nil {
					o = v
				}
			}
			if o.Op == "res" && o.Aux == "0" {
				o = o.Args[0]
			}
			for _, m := range []string{"Parse", "Make", "MustParse"} {
				if isCall(o, "golang.org/x/text/language."+m) {
					if s, ok := o.Args[len(o.Args)-1].str(); ok {
						return b2i(strings.EqualFold(s, text))
					}
				}
			}
		}
		return -1
	}
	return w
}

// languageParsed checks what the elements of a list of parsed tags are: the
// wildcard, which the parser reports as the tag mul, is a wildcard; no other
// tag is; and each keeps its own tag.
func (c *Ctx) languageParsed(at string, conds []Lit, el, tag *Term) {
	for _, text := range []string{"mul", "en", "de-CH", "und", "zh-Hant-TW"} {
		w := c.tagWorld(tag, text)
		if h, _ := w.fits(&Outcome{St: factState(conds)}, nil); h == 0 {
			continue
		}
		vs, un := c.answers(hdrRel, "LanguageRange", "IsWildcard", el, w)
		c.must(len(vs) > 0, at, "NewAcceptLanguage: whether the range of the tag %s is a wildcard is not determined (%v)", text, un)
		for _, v := range vs {
			c.must(v == (text == "mul"), at, "NewAcceptLanguage: the range of the tag %s is a wildcard: %v", text, v)
		}
		if text == "mul" {
			continue
		}
		vs, un = c.answers(hdrRel, "LanguageRange", "Tag", el, w)
		c.must(len(vs) > 0, at, "NewAcceptLanguage: the tag of the range of the tag %s is not determined (%v)", text, un)
		for _, v := range vs {
			c.must(v == text, at, "NewAcceptLanguage: the tag of the range of the tag %s is %v", text, v)
		}
	}
}

// namesRead checks that the readers of ranges tell the wildcard from the
// others, and keep what is named.
func (c *Ctx) namesRead(typ, name string, tagged bool) int {
	n := 0
	for _, f := range c.P.readersOf(typ) {
		n++
		e := newEngine(c.P, Cfg{Opaque: func(g *ssa.Function) bool { return anchors[c.P.fkey(g)] && c.P.reads(g) != typ }})
		outs, err := e.Run(f, rootParams(f), nil)
		if !c.must(err == nil, c.P.posn(f.Pos()), "%s: %v", c.P.fkey(f), err) {
			continue
		}
		texts := []string{"*", " * ", "*;q=0.5", "* ;q=0.5", "gzip", "gzip;q=0.5", "gzip ; q=0.5", "x", "mul"}
		ts := about(outs)
		if typ != "ContentCodingRange" {
			texts = append(texts, namesAbout(ts)...)
			texts = append(texts, textsAbout(ts, func(n string) string { return n + ";q=0.5" })...)
		}
		for _, own := range []string{"gzip", "*"} {
			texts = append(texts, textsAbout(ts, func(n string) string { return own + strings.Repeat(" ", len(n)) + ";q=0.5" })...)
		}
		for _, text := range texts {
			own := strings.TrimSpace(strings.SplitN(text, ";", 2)[0])
			w := newWorld(c.P).with(rootParams(f)[0], text)
			if tagged {
				w.with(mkRes(mkCall(tagParse, nil, tStr(own)), "0", nil), own)
			}
			hits := 0
			for i := range outs {
				o := &outs[i]
				if _, k := retError(o); k == 1 || o.Panic != nil {
					continue
				}
				if h, _ := w.fits(o, nil); h == 0 {
					continue
				}
				hits++
				vs, un := c.answers(hdrRel, typ, "IsWildcard", o.Ret[0], w)
				c.must(len(vs) > 0, c.end(o), "%s: whether %q is a wildcard is not determined (%v)", c.P.fkey(f), text, un)
				for _, v := range vs {
					c.must(v == (own == "*"), c.end(o), "%s: %q is a wildcard: %v", c.P.fkey(f), text, v)
				}
				if own == "*" {
					continue
				}
				if tagged {
					// the tag is the one parsed of the name.
					tg := c.accessor(hdrRel, typ, name, o.Ret[0])
					var arg *Term
					if tg != nil {
						if isCall(tg, tagString) {
							if p, is := resOf(tg.Args[0], "0", tagParse); is {
								arg = p.Args[0]
							}
						}
					}
					v := ""
					if arg != nil {
						v, _ = w.eval(arg).(string)
					}
					c.must(strings.EqualFold(strings.TrimSpace(v), own), c.end(o), "%s: the tag of %q is %v", c.P.fkey(f), text, tg)
					continue
				}
				vs, un = c.answers(hdrRel, typ, name, o.Ret[0], w)
				c.must(len(vs) > 0, c.end(o), "%s: what %q names is not determined (%v)", c.P.fkey(f), text, un)
				for _, v := range vs {
					s, _ := v.(string)
					c.must(strings.EqualFold(s, own), c.end(o), "%s: %q names %q", c.P.fkey(f), text, fmt.Sprint(v))
				}
			}
			c.must(hits > 0 || text[0] == ' ' || !tagged && (own == "x" || own == "mul"), c.P.posn(f.Pos()), "%s: no path for %q", c.P.fkey(f), text)
		}
	}
	return n
}
