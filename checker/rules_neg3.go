package main

import (
	"fmt"
	"math"
	"net/url"
	"os"
	"sort"
	"strings"
)

func init() {
	rules["C10"] = ruleC10
}

// number evaluates an arithmetic term over an assignment.
func number(t *Term, env map[*Term]float64) (float64, bool) {
	if v, ok := env[t]; ok {
		return v, true
	}
	if v, ok := t.intv(); ok {
		return float64(v), true
	}
	switch t.Op {
	case "conv", "widen":
		return number(t.Args[0], env)
	case "narrow":
		if v, ok := number(t.Args[0], env); ok {
			return narrowed(v, t.Typ)
		}
		return 0, false
	case "neg":
		v, ok := number(t.Args[0], env)
		return -v, ok
	case "call":
		if t.Aux == "math.Abs" {
			v, ok := number(t.Args[0], env)
			return math.Abs(v), ok
		}
	case "bin":
		a, ok1 := number(t.Args[0], env)
		b, ok2 := number(t.Args[1], env)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.Aux {
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "*":
			return a * b, true
		}
	}
	return 0, false
}

// holds evaluates a comparison over an assignment: 1, 0 or -1.
func holds(t *Term, env map[*Term]float64) int {
	if t.Op == "not" {
		if v := holds(t.Args[0], env); v >= 0 {
			return 1 - v
		}
		return -1
	}
	if t.Op != "bin" {
		return -1
	}
	a, ok1 := number(t.Args[0], env)
	b, ok2 := number(t.Args[1], env)
	if !ok1 || !ok2 {
		return -1
	}
	switch t.Aux {
	case "==":
		return b2i(a == b)
	case "<":
		return b2i(a < b)
	case "<=":
		return b2i(a <= b)
	}
	return -1
}

// region is a sign region of the size comparison, by a representative.
type region struct{ list, choice, thr float64 }

var regions = func() []region {
	var rs []region
	for _, thr := range []float64{0, 1, 50} {
		for _, d := range []float64{-90, -51, -50, -49, -2, -1, 0, 1, 2, 49, 50, 51, 90} {
			rs = append(rs, region{100, 100 + d, thr})
		}
	}
	return rs
}()

func (r region) ok() bool { return r.choice < r.list || r.choice-r.list <= r.thr }

// consistent are the regions that the facts of a path leave possible.
func consistent(o *Outcome, L []*Term, V, thr *Term) []region {
	var out []region
	for _, r := range regions {
		env := map[*Term]float64{V: r.choice, thr: r.thr}
		for _, l := range L {
			env[l] = r.list
		}
		ok := true
		for _, l := range o.St.order {
			if h := holds(l.Atom, env); h >= 0 && (h == 1) != l.Pol && (l.Atom.contains(V) || l.Atom.contains(thr)) {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, r)
		}
	}
	return out
}

// neighborEq is one equality between something of the variant's location and
// something of the request's URL.
type neighborEq struct{ loc, req *Term }

func neighborFact(t, loc, req *Term) (neighborEq, bool) {
	if !(t.Op == "bin" && t.Aux == "==" || t.Op == "call" && t.Aux == "strings.EqualFold") {
		return neighborEq{}, false
	}
	a, b := t.Args[0], t.Args[1]
	al, ar, bl, br := a.contains(loc), a.contains(req), b.contains(loc), b.contains(req)
	if al && !ar && br && !bl {
		return neighborEq{a, b}, true
	}
	if ar && !al && bl && !br {
		return neighborEq{b, a}, true
	}
	return neighborEq{}, false
}

// urlParts breaks what is compared of a URL into its fields.
func urlParts(t, base *Term) map[string]*Term {
	parts := map[string]*Term{}
	if t.Op == "call" && (t.Aux == "(*net/url.URL).String" || t.Aux == "(net/url.URL).String") {
		u := t.Args[0]
		if u.Op == "ptr" {
			u = u.Args[0]
		}
		for _, f := range []string{"Scheme", "Host", "Path", "RawQuery", "ForceQuery", "Fragment"} {
			parts[f] = mkField(u, f, nil)
		}
		return parts
	}
	for _, f := range []string{"Scheme", "Host", "Path", "RawQuery", "Fragment"} {
		if t.contains(mkField(base, f, nil)) {
			parts[f] = t
		}
	}
	return parts
}

// cutPath reports whether t is the path of base up to its last slash.
func cutPath(t, base *Term, st *State) bool {
	p := mkField(base, "Path", nil)
	last := raw("call", "strings.LastIndex", nil, p, tStr("/"))
	none := st.known(mkBin("==", last, tInt(-1), nil)) == 1 || st.known(mkBin("<", last, tInt(0), nil)) == 1
	if t == p {
		return none
	}
	if t.Op == "slice" && t.Args[0] == p && t.Args[1].Aux == "none" {
		return t.Args[2] == last || t.Args[2] == mkBin("+", last, tInt(1), nil)
	}
	if t.Op == "call" && t.Aux == "path.Dir" && t.Args[0] == p {
		return true
	}
	if s, ok := t.str(); ok && (s == "/" || s == "") {
		// the cut path is known to be empty.
		for _, l := range st.order {
			if l.Pol && l.Atom.Op == "bin" && l.Atom.Aux == "==" && l.Atom.Args[0].Op == "len" && l.Atom.Args[1] == tInt(0) {
				if x := l.Atom.Args[0].Args[0]; x != t && x.contains(p) && cutPath(x, base, st) {
					return true
				}
			}
			// a slash at position 0 leaves nothing.
			if l.Pol && l.Atom == mkBin("==", last, tInt(0), nil) {
				return true
			}
		}
	}
	return false
}

func hostOK(t, base *Term, st *State) bool {
	h := mkField(base, "Host", nil)
	if t == h || t == mkCall("strings.ToLower", nil, h) {
		return true
	}
	if !t.contains(h) {
		return false
	}
	port := func(x *Term) bool {
		return x.Op == "call" && (x.Aux == "(*net/url.URL).Port" || x.Aux == "(net/url.URL).Port") && x.contains(h)
	}
	if t.any(port) {
		return true
	}
	for _, l := range st.order {
		if l.Pol && l.Atom.Op == "bin" && l.Atom.Aux == "==" && l.Atom.Args[1] == tInt(0) && l.Atom.Args[0].Op == "len" && port(l.Atom.Args[0].Args[0]) {
			return true
		}
	}
	return false
}

// neighborPaths are what the paths know about the location of the variant and
// the URL of the request, without repetition, and whether they serve it.
type neighborPaths struct {
	c        *Ctx
	loc, req *Term
	served   map[string]*neighborPath
	declined map[string]*neighborPath

	samples, near int
	structure     []func() // obligations by the form of the conditions
}

type neighborPath struct {
	outs  *Outcome
	terms []*Term
	at    string
}

func (n *neighborPaths) add(m map[string]*neighborPath, o *Outcome, at string) {
	var facts []Lit
	p := &neighborPath{at: at}
	k := ""
	for _, l := range o.St.order {
		if _, ok := neighborFact(l.Atom, n.loc, n.req); ok || l.Atom.contains(n.loc) || l.Atom.contains(n.req) {
			facts = append(facts, l)
			p.terms = append(p.terms, l.Atom)
			k += fmt.Sprint(l.Atom.id, l.Pol, ";")
		}
	}
	p.outs = &Outcome{St: factState(facts)}
	if m[k] == nil {
		m[k] = p
	}
}

// located gives the fields of a URL the values of u.
func (w *World) located(base *Term, u *url.URL) *World {
	for f, v := range map[string]any{"Scheme": u.Scheme, "Host": u.Host, "Path": u.Path, "RawQuery": u.RawQuery, "Fragment": u.Fragment, "Opaque": "", "RawPath": "", "RawFragment": "", "ForceQuery": u.ForceQuery, "OmitHost": false, "User": false} {
		w.with(mkField(base, f, nil), v)
	}
	return w
}

// check decides pairs of URLs, and returns how many decisions it could not
// make.
func (n *neighborPaths) check() (undecided int) {
	ts := []*Term{}
	all := []string{}
	for _, m := range []map[string]*neighborPath{n.served, n.declined} {
		for _, k := range sortedKeys(m) {
			ts = append(ts, m[k].terms...)
		}
	}
	hosts := []string{"", "example.com", "Example.COM", "example.com:80", "EXAMPLE.com:80", "example.com:81", "example.com:79", "example.com:8080", "example.com:443", "example.com:0", "www.example.com", "example.com.", "example.org", "example", "a.b", "c.b"}
	paths := []string{"", "/", "/a", "/b", "/A", "/a/", "/a/b", "/a/c", "/a/b.html", "/b/a", "/A/b", "/a/b/c", "/a/b/d", "/a/c/b", "/a//b", "//a", "/a b/c", "/a.b/c", "/ab/c", "/a/b/c/d/e", "/a/../b"}
	schemes := []string{"", "http", "HTTP", "https", "Https"}
	for _, p := range numbersAbout(ts) {
		hosts = append(hosts, "example.com:"+p)
	}
	for _, x := range namesAbout(ts) {
		hosts = append(hosts, x, x+".example.com", "example."+x)
		schemes = append(schemes, x)
		all = append(all, "/"+x, "/"+x+"/a", "/a/"+x)
	}
	if len(hosts) > 160 {
		hosts = hosts[:160]
	}
	paths = append(paths, all...)
	if len(paths) > 120 {
		paths = paths[:120]
	}
	type pair struct{ a, b url.URL }
	base := url.URL{Scheme: "http", Host: "example.com", Path: "/a/b"}
	var ps []pair
	each := func(vs []string, set func(u *url.URL, v string)) {
		for i, x := range vs {
			for j, y := range vs {
				if i < 24 || j < 4 || i == j || j == i+1 {
					p := pair{base, base}
					set(&p.a, x)
					set(&p.b, y)
					ps = append(ps, p)
				}
			}
		}
	}
	each(hosts, func(u *url.URL, v string) { u.Host = v })
	each(paths, func(u *url.URL, v string) { u.Path = v })
	each(schemes, func(u *url.URL, v string) { u.Scheme = v })
	each([]string{"", "a", "b"}, func(u *url.URL, v string) { u.RawQuery = v })
	each([]string{"", "a", "b"}, func(u *url.URL, v string) { u.Fragment = v })
	each([]string{"", "t"}, func(u *url.URL, v string) { u.ForceQuery = v != "" })
	var us []url.URL
	for _, s := range []string{"", "http", "https"} {
		for _, h := range []string{"", "example.com", "example.com:80", "example.org:8080"} {
			for _, p := range []string{"", "/a", "/a/b", "/a/c", "//a", "/b/a"} {
				us = append(us, url.URL{Scheme: s, Host: h, Path: p})
			}
		}
	}
	for _, a := range us {
		for _, b := range us {
			ps = append(ps, pair{a, b})
		}
	}
	same := func(a, b url.URL) bool {
		host := func(s string) string { return strings.ToLower(strings.TrimSuffix(s, ":80")) }
		path := func(s string) string {
			if i := strings.LastIndex(s, "/"); i >= 0 {
				s = s[:i]
			}
			if s == "" {
				s = "/"
			}
			return s
		}
		return strings.EqualFold(a.Scheme, b.Scheme) && host(a.Host) == host(b.Host) && path(a.Path) == path(b.Path)
	}
	bad := map[string]bool{}
	for _, p := range ps {
		w := newWorld(n.c.P).located(n.loc, &p.a).located(n.req, &p.b)
		is := same(p.a, p.b)
		m, what := n.served, "served"
		if is {
			m, what = n.declined, "not served"
			n.near++
		}
		n.samples++
		for _, k := range sortedKeys(m) {
			h, un := w.fits(m[k].outs, nil)
			if h < 0 {
				undecided++
				if os.Getenv("NC_DEBUG") != "" {
					fmt.Println("undecided:", un)
				}
			}
			if h == 1 && !bad[m[k].at+what] {
				bad[m[k].at+what] = true
				n.c.must(false, m[k].at, "the variant is %s if it is at %v and the request at %v", what, p.a.String(), p.b.String())
			}
		}
		n.c.must(true, "", "")
	}
	return undecided
}

func sortedTerms(m map[*Term]*neighborPaths) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

func ruleC10(c *Ctx) {
	c.Rule = "the conditions that the transparent paths put on the variant's location and the request's URL are evaluated on pairs of URLs (around the constants the code mentions): a path that serves the variant applies to no pair that is no neighborhood, one that declines it for a reason other than its size to no pair that is one; where a condition cannot be evaluated, both sides must be the same normal form of their URL (path cut at its last slash, host and scheme present, query and fragment cleared). If guess-small may have been requested the size guards of the path admit only the sign regions choice<list or choice-list<=threshold."
	c.Trusted = trustedStd
	n := c.negotiator("transparent")
	if n == nil {
		return
	}
	thr := n.setting(c, "GuessSmallThreshold")
	req := raw("deref", "", nil, mkField(raw("deref", "", nil, n.Req), "URL", nil))
	X := raw("param", "URL", nil)
	left, right := map[string]string{}, map[string]string{}
	served, guessed, listed := 0, 0, 0
	nears := map[*Term]*neighborPaths{}
	for i := range n.Outs {
		o := &n.Outs[i]
		at := c.end(o)
		r := n.response(c, o)
		ch := chooseAll(n, o)
		if ch == nil || len(r.Bodies) == 0 {
			continue
		}
		rep := mkRes(ch.Res, "0", nil)
		if o.St.known(errNil(rep)) != 0 {
			continue
		}
		loc := raw("call", "I:ContentLocation", nil, rep)
		near := nears[loc]
		if near == nil {
			near = &neighborPaths{c: c, loc: loc, req: req, served: map[string]*neighborPath{}, declined: map[string]*neighborPath{}}
			nears[loc] = near
		}
		var eqs []neighborEq
		different := false
		for _, l := range o.St.order {
			if e, ok := neighborFact(l.Atom, loc, req); ok {
				if l.Pol {
					eqs = append(eqs, e)
				} else {
					different = true
				}
			}
		}
		guess := -1
		for _, l := range o.St.order {
			if ds, _ := directive(l.Atom); len(ds) > 0 {
				for _, d := range ds {
					if d == "guess-small" && (!l.Pol || len(ds) == 1) {
						guess = b2i(l.Pol)
					}
				}
			}
		}
		var L []*Term
		V := mkLen(mkRes(raw("call", "I:Bytes", nil, rep), "0", nil))
		for _, ev := range o.St.trace {
			if ev.Kind == "call" && ev.Key == "I:Bytes" && ev.Args[0] != rep && n.listOf(c, ev.Args[0], "ListRepresentationConstructor") {
				L = append(L, mkLen(mkRes(ev.Res, "0", nil)))
			}
		}
		rs := consistent(o, L, V, thr)
		if r.source() != rep {
			// a list although something was chosen.
			listed++
			sizeBad := guess == 1
			for _, g := range rs {
				if g.ok() {
					sizeBad = false
				}
			}
			if !sizeBad {
				near.add(near.declined, o, at)
				near.structure = append(near.structure, func() {
					c.must(different, at, "a list is sent although the chosen variant is not known to be no neighbor or too large")
				})
			} else {
				c.must(true, at, "")
			}
			continue
		}
		served++
		near.add(near.served, o, at)
		if guess != 0 {
			guessed++
			for _, g := range rs {
				if !c.must(g.ok(), at, "guess-small: the variant is served when it has %v bytes, the list %v and the threshold is %v", g.choice, g.list, g.thr) {
					break
				}
			}
		}
		near.structure = append(near.structure, func() {
			if !c.must(len(eqs) > 0 && !different, at, "the variant is served without its location being known to equal the request's neighborhood") {
				return
			}
			// fields compared.
			parts := func(side func(neighborEq) *Term, base *Term) {
				all := map[string]*Term{}
				for _, e := range eqs {
					for k, v := range urlParts(side(e), base) {
						all[k] = v
					}
				}
				c.must(all["Path"] != nil && cutPath(pathOf(all["Path"], base), base, o.St), at, "the path compared of %v is %v, which is not cut at its last slash", base, all["Path"])
				c.must(all["Host"] != nil && hostOK(all["Host"], base, o.St), at, "the host compared of %v is %v", base, all["Host"])
				c.must(all["Scheme"] != nil && all["Scheme"].contains(mkField(base, "Scheme", nil)), at, "the scheme compared of %v is %v", base, all["Scheme"])
				for _, f := range []string{"RawQuery", "Fragment", "ForceQuery"} {
					if v := all[f]; v != nil {
						c.must(v.isConst(), at, "the %s of %v takes part in the comparison", f, base)
					}
				}
			}
			parts(func(e neighborEq) *Term { return e.loc }, loc)
			parts(func(e neighborEq) *Term { return e.req }, req)
			// both sides in the same way.
			key := func(side func(neighborEq) *Term, base *Term) string {
				var ks []string
				m := map[*Term]*Term{base: X}
				for _, e := range eqs {
					ks = append(ks, fmt.Sprint("=", subst(side(e), m, map[*Term]*Term{}).id))
				}
				for _, l := range o.St.order {
					if !l.Atom.contains(base) {
						continue
					}
					if _, ok := neighborFact(l.Atom, loc, req); ok {
						continue
					}
					ks = append(ks, fmt.Sprint(l.Pol, subst(l.Atom, m, map[*Term]*Term{}).id))
				}
				sort.Strings(ks)
				return strings.Join(ks, ",")
			}
			left[key(func(e neighborEq) *Term { return e.loc }, loc)] = at
			right[key(func(e neighborEq) *Term { return e.req }, req)] = at
		})
	}
	for _, loc := range sortedTerms(nears) {
		near := nears[loc]
		undecided := near.check()
		c.sample("%d pairs of locations, %d of them neighbors, against %d + %d conditions; %d combinations not determined", near.samples, near.near, len(near.served), len(near.declined), undecided)
		if undecided == 0 {
			continue
		}
		// the conditions by their form.
		left, right = map[string]string{}, map[string]string{}
		for _, f := range near.structure {
			f()
		}
		for k, at := range left {
			_, ok := right[k]
			c.must(ok, at, "the variant's location is normalized in a way the request's URL is not")
		}
		for k, at := range right {
			_, ok := left[k]
			c.must(ok, at, "the request's URL is normalized in a way the variant's location is not")
		}
	}
	c.minimum(served, 2, "paths that serve a variant")
	c.minimum(guessed, 1, "paths that serve a variant for guess-small")
	c.minimum(listed, 1, "paths that decline a chosen variant")
	c.sample("%d paths serve a variant, %d of them for guess-small", served, guessed)
}

// pathOf unwraps a comparison value that is only the path.
func pathOf(t, base *Term) *Term { return t }
