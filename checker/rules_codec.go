package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	rules["C21"] = func(c *Ctx) {
		c.Rule = "Bytes and FromBytes are analysed for every list of up to three codings, the tables customized or not; the writers, readers and buffers of each path are replayed symbolically, a writer passing on what was written to it when it is closed, and what is returned, or given to the unmarshaller, must be the codings applied to the marshalled value, or undone, in order, with every error that a stage can provide known to be nil on the path or returned; the default constructors must wrap exactly the stream that they are given and return the errors of doing so."
		c.Trusted = append(append([]string{}, trustedStd...), "the compress packages report corrupt and truncated data as errors, and io.ReadAll reads to the end", "lists of more than three codings are treated as shorter ones")
		c.codec("C21")
	}
	rules["C22"] = func(c *Ctx) {
		c.Rule = "the table that each path of Bytes and FromBytes looks a function up in, the key, evaluated on classes of media types and codings, what the function is called with, and the error where there is none; the default tables are read from the source and compared, entry by entry, by the package that the function belongs to."
		c.Trusted = trustedStd
		c.codec("C22")
	}
}

// pipe is a stream of a path.
type pipe struct {
	kind   string // buffer, writer, reader
	coding *Term
	next   *pipe // where a writer writes to, or a reader reads from
	data   *Term // what was written
	closed bool
}

// codecRun is a run of Bytes or FromBytes.
type codecRun struct {
	c       *Ctx
	prop    string
	method  string
	base    types.Type
	codings []*Term
	ct      *Term
	in      *Term // the bytes given
	value   *Term // the value given
	custom  map[string]*Term
	deflt   map[string]*Term // what is used by default, by table
}

// replay follows the streams of a path.
type replay struct {
	*codecRun
	o       *Outcome
	pipes   map[*Term]*pipe
	val     map[*Term]*Term
	errs    []*Term // the errors that stages provide
	marshal *Event
	bad     string
	depth   int
}

func (r *replay) fail(f string, a ...any) {
	if r.bad == "" {
		r.bad = fmt.Sprintf(f, a...)
	}
}

// codec checks the coding of representations for one property.
func (c *Ctx) codec(prop string) {
	p := c.P.Pkgs["representation"]
	if p == nil || p.Type("Base") == nil {
		c.must(false, "", "representation.Base no longer exists")
		return
	}
	t := p.Type("Base").Type()
	modes := [][]string{{}, tables}
	for _, x := range tables {
		modes = append(modes, []string{x})
	}
	ways := 0
	deflt := map[string]*Term{}
	for _, mode := range modes {
		for n := 0; n <= 3; n++ {
			for _, m := range []string{"Bytes", "FromBytes"} {
				ways += c.codecOf(prop, t, m, mode, n, deflt)
			}
		}
	}
	c.minimum(ways, 20, "ways to provide or read bytes")
	c.defaultTables(prop, deflt)
	c.listBytes(prop)
}

func (c *Ctx) codecOf(prop string, t types.Type, method string, mode []string, n int, deflt map[string]*Term) int {
	f := c.methodFor(t, method)
	if f == nil {
		return 0
	}
	str := types.Typ[types.String]
	r := &codecRun{c: c, prop: prop, method: method, base: t, ct: raw("sym", "content type", str), value: raw("sym", "value", nil), custom: map[string]*Term{}, deflt: deflt}
	for i := 0; i < n; i++ {
		r.codings = append(r.codings, raw("sym", fmt.Sprintf("coding%d", i), str))
	}
	ptr := raw("sym", "representation", types.NewPointer(t))
	st := newState()
	st.mem[ptr] = mkZero(t)
	set := func(name string, v func(t types.Type) *Term) {
		f := c.methodFor(t, "Set"+name)
		if f == nil {
			return
		}
		outs := c.onValue(f, ptr, t, st, v(f.Signature.Params().At(0).Type()))
		if c.must(len(outs) == 1 && outs[0].Panic == nil, c.P.posn(f.Pos()), "Set%s is not determined", name) {
			st = outs[0].St
		}
	}
	for _, name := range mode {
		set(name, func(t types.Type) *Term {
			v := raw("sym", "custom "+name, t)
			r.custom[name] = v
			st.assume(mkBin("<", tInt(0), mkLen(v), nil), true)
			return v
		})
	}
	set("ContentType", func(types.Type) *Term { return r.ct })
	set("ContentEncoding", func(t types.Type) *Term { return raw("list", "", t, r.codings...) })
	st.trace = nil
	n0 := len(st.order)
	args := []*Term{r.value}
	if method == "FromBytes" {
		r.in = raw("sym", "bytes", types.NewSlice(types.Typ[types.Byte]))
		args = []*Term{r.in, r.value}
	}
	outs := c.onValue(f, ptr, t, st, args...)
	ways := 0
	for i := range outs {
		o := after(&outs[i], n0)
		if o.Panic == nil {
			for _, ev := range o.St.trace {
				if ev.Kind == "loop" {
					c.must(false, c.P.posOf(ev.Site), "the codings are traversed in a way that is not known")
				}
			}
		}
		ways += r.path(o)
	}
	c.must(len(outs) > 0, c.P.posn(f.Pos()), "%s is not determined", method)
	if n == 3 && len(mode) == 4 {
		c.sample("%s with %d codings: %d paths", method, n, len(outs))
	}
	return ways
}

// dir are the tables of the method.
func (r *codecRun) dir() (coders, formats string) {
	if r.method == "Bytes" {
		return "EncodingWriters", "Marshallers"
	}
	return "EncodingReaders", "Unmarshallers"
}

// tableIs reports whether a term is the table to use.
func (r *codecRun) tableIs(t *Term, name string) bool {
	if v, ok := r.custom[name]; ok {
		return t == v
	}
	for _, v := range r.custom {
		if t == v {
			return false
		}
	}
	if d, ok := r.deflt[name]; ok {
		return t == d
	}
	if tableOf(t) == nil {
		return false
	}
	r.deflt[name] = t
	return true
}

// tableOf are the entries of a map that is built from constants.
func tableOf(t *Term) map[string]*Term {
	if t.Op == "gval" {
		t = newEngine(theProg, Cfg{}).staticOf(t)
	}
	m := map[string]*Term{}
	for t != nil && t.Op == "mapset" {
		k, ok := t.Args[1].str()
		if !ok {
			return nil
		}
		if _, ok := m[k]; !ok {
			m[k] = t.Args[2]
		}
		t = t.Args[0]
	}
	if t == nil || t.Op != "mkmap" || len(m) == 0 {
		return nil
	}
	return m
}

// lookupOf is the table and the key that a function comes from.
func lookupOf(t *Term) (m, k *Term) {
	t = unconv(t)
	if (t.Op == "lookup" || t.Op == "index") && len(t.Args) == 2 {
		return t.Args[0], t.Args[1]
	}
	return nil, nil
}

// codingOf is the coding that a key is for.
func (r *codecRun) codingOf(k *Term) *Term {
	for _, cd := range r.codings {
		if !k.contains(cd) {
			continue
		}
		xs := [][2]string{{"gzip", "gzip"}, {"GZip", "gzip"}, {"X-COMPRESS", "x-compress"}, {"own", "own"}}
		for _, n := range namesAbout([]*Term{k}) {
			xs = append(xs, [2]string{n, strings.ToLower(n)}, [2]string{strings.ToUpper(n), strings.ToLower(n)})
		}
		for _, x := range xs {
			w := newWorld(r.c.P).with(cd, x[0])
			if v, ok := w.eval(k).(string); !ok || v != x[1] {
				return nil
			}
		}
		return cd
	}
	return nil
}

// typeKey reports why a key is not the media type.
func (r *codecRun) typeKey(o *Outcome, k *Term) string {
	xs := [][2]string{{"application/json", "application/json"}, {"Application/JSON; charset=utf-8", "application/json"}, {"text/html;level=1;q=0.5", "text/html"}, {"text/YAML ; a=b", "text/yaml"}, {"application/vnd.x+json", "application/vnd.x+json"}, {"a/b", "a/b"}}
	ts := []*Term{k}
	for _, t := range litAtoms(o.St.order) {
		if t.contains(r.ct) {
			ts = append(ts, t)
		}
	}
	for _, n := range namesAbout(ts) {
		if n == "'" || strings.ContainsAny(n, "%") {
			continue
		}
		l := strings.ToLower(n)
		xs = append(xs, [2]string{"text/" + n, "text/" + l}, [2]string{n + "/html;a=" + n, l + "/html"}, [2]string{"text/html; " + l + "=b", "text/html"})
	}
	for _, x := range xs {
		w := newWorld(r.c.P).with(r.ct, x[0])
		h, _ := w.fits(o, func(t *Term) bool {
			return !t.contains(r.ct) || t.any(func(x *Term) bool {
				return x.Op == "has" || x.Op == "lookup" || x.Op == "call" && strings.HasPrefix(x.Aux, "D:")
			})
		})
		if h == 0 {
			continue
		}
		if v, ok := w.eval(k).(string); !ok || v != x[1] {
			return fmt.Sprintf("for %q it is looked up by %s", x[0], k)
		}
	}
	return ""
}

// path checks a path; it is 1 if bytes are provided, or read.
func (r *codecRun) path(o *Outcome) int {
	c := r.c
	at := c.end(o)
	if !c.must(o.Panic == nil && len(o.Ret) > 0, at, "%s may panic", r.method) {
		return 0
	}
	coders, formats := r.dir()
	// what is known of the tables.
	var refused []*Term // codings that are not in their table
	noType := false
	for _, l := range o.St.order {
		m, k, has := inTable(l)
		if m == nil {
			continue
		}
		switch {
		case !k.contains(r.ct) && r.tableIs(m, coders) && r.codingOf(k) != nil:
			if !has {
				refused = append(refused, r.codingOf(k))
			}
		case k.contains(r.ct) && r.tableIs(m, formats):
			if r.prop == "C22" {
				why := r.typeKey(o, k)
				c.must(why == "", at, "%s: %s", r.method, why)
			}
			noType = noType || !has
		default:
			if r.prop == "C22" {
				c.must(false, at, "%s looks %s up in %s", r.method, k, m)
			}
		}
	}
	rp := &replay{codecRun: r, o: o, pipes: map[*Term]*pipe{}, val: map[*Term]*Term{}}
	rp.run()
	er, k := retError(o)
	// what is applied.
	ways := 0
	var ts []*Term
	for _, t := range litAtoms(o.St.order) {
		if t.any(func(x *Term) bool { return containsTerm(r.codings, x) }) {
			ts = append(ts, t)
		}
	}
	for _, texts := range r.assignments(namesAbout(ts)) {
		w := newWorld(c.P)
		var applied []*Term
		for i, cd := range r.codings {
			w.with(cd, texts[i])
			if !strings.EqualFold(texts[i], "identity") {
				applied = append(applied, cd)
			}
		}
		h, un := w.fits(o, func(t *Term) bool {
			return !t.any(func(x *Term) bool { return containsTerm(r.codings, x) }) || t.any(func(x *Term) bool {
				return x.Op == "has" || x.Op == "call" && (strings.HasPrefix(x.Aux, "D:") || strings.HasPrefix(x.Aux, "I:") || strings.HasPrefix(x.Aux, "io.") || strings.HasPrefix(x.Aux, "(*bytes.")) || x.Op == "lookup"
			})
		})
		if h == 0 {
			continue
		}
		if !c.must(h == 1, at, "whether a coding is applied depends on %v", un) {
			return 0
		}
		ways += r.outcome(rp, applied, refused, noType, er, k, at)
	}
	return b2i(ways > 0)
}

func containsTerm(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// assignments are the classes of the codings.
func (r *codecRun) assignments(near []string) [][]string {
	l := [][]string{{}}
	for range r.codings {
		var next [][]string
		for _, p := range l {
			for _, x := range []string{"identity", "Identity", "own", "identity-own"} {
				next = append(next, append(append([]string{}, p...), x))
			}
		}
		l = next
	}
	for i := range r.codings {
		for _, n := range near {
			for _, rest := range []string{"own", "identity"} {
				p := make([]string, len(r.codings))
				for j := range p {
					p[j] = rest
				}
				p[i] = n
				l = append(l, p)
			}
		}
	}
	return l
}

// inTable is what a fact says about a table having a key.
func inTable(l Lit) (m, k *Term, has bool) {
	t := l.Atom
	if t.Op == "has" {
		return t.Args[0], t.Args[1], l.Pol
	}
	if t.Op == "bin" && t.Aux == "==" && t.Args[1].isNil() {
		if m, k := lookupOf(t.Args[0]); m != nil {
			return m, k, !l.Pol
		}
	}
	return nil, nil, false
}

// outcome checks what a path provides, given the codings that apply.
func (r *codecRun) outcome(rp *replay, applied, refused []*Term, noType bool, er *Term, k int, at string) int {
	c, o := r.c, rp.o
	failed, unknown := []*Term{}, []*Term{}
	for _, e := range rp.errs {
		switch o.St.known(errNil(e)) {
		case 0:
			failed = append(failed, e)
		case -1:
			unknown = append(unknown, e)
		}
	}
	is := func(g string) bool {
		return er.any(func(x *Term) bool { return x.Op == "gval" && x.Aux == "~/representation."+g })
	}
	var gone []*Term
	for _, cd := range refused {
		if containsTerm(applied, cd) {
			gone = append(gone, cd)
		}
	}
	if k == 1 {
		cause := is("ErrUnsupportedContentType") && noType || is("ErrUnsupportedContentEncoding") && len(gone) > 0
		for _, e := range failed {
			cause = cause || er.contains(e)
		}
		c.must(cause, at, "%s of %d codings fails with %s (%s)", r.method, len(applied), er, c.facts(o))
		if r.prop == "C22" {
			c.must(!noType || is("ErrUnsupportedContentType"), at, "a media type that is not registered is refused with %s", er)
			c.must(noType || len(gone) == 0 || is("ErrUnsupportedContentEncoding"), at, "a coding that is not registered is refused with %s", er)
			if noType || len(gone) > 0 {
				c.must(rp.marshal == nil || r.method == "Bytes" && !noType, at, "%s calls a function although what is asked for is refused", r.method)
			}
		}
		return 0
	}
	// it succeeds, or the last stage decides.
	if r.prop == "C22" {
		c.must(!noType && len(gone) == 0, at, "%s succeeds although the type (%v) or a coding (%v) is not registered", r.method, noType, gone)
		c.must(rp.bad == "", at, "%s: %s", r.method, rp.bad)
		if c.must(rp.marshal != nil, at, "%s calls no function for the media type", r.method) {
			v := rp.marshal.Args[len(rp.marshal.Args)-1]
			c.must(v == r.value, at, "%s gives %s to the function of the media type", r.method, v)
		}
		return 1
	}
	c.must(len(failed) == 0, at, "%s succeeds although %v", r.method, show(failed))
	for _, e := range unknown {
		c.must(e == er, at, "%s succeeds whatever %s is", r.method, e)
	}
	if !c.must(rp.bad == "", at, "%s: %s", r.method, rp.bad) || !c.must(rp.marshal != nil, at, "%s calls no function for the media type", r.method) {
		return 1
	}
	if r.method == "Bytes" {
		want := mkRes(rp.marshal.Res, "0", nil)
		for _, cd := range applied {
			want = raw("enc", "", nil, cd, want)
		}
		got := rp.content(o.Ret[0])
		c.must(got == want, at, "the bytes with the codings %v are %s", show(applied), got)
		return 1
	}
	want := r.in
	for i := len(applied) - 1; i >= 0; i-- {
		want = raw("dec", "", nil, applied[i], want)
	}
	got := rp.content(rp.marshal.Args[1])
	c.must(got == want, at, "with the codings %v what is read is %s", show(applied), got)
	for _, p := range rp.pipes {
		c.must(p.kind != "reader" || p.closed, at, "the reader of %s is never closed, so its error is not known", p.coding)
	}
	return 1
}

// content is what a term is the bytes of.
func (r *replay) content(t *Term) *Term {
	t = unconv(t)
	if v, ok := r.val[t]; ok {
		return v
	}
	if isCall(t, "slices.Clone") || isCall(t, "bytes.Clone") {
		return r.content(t.Args[0])
	}
	if t.Op == "append" && (t.Args[0].isNil() || mkLen(t.Args[0]) == tInt(0)) {
		return r.content(t.Args[1])
	}
	return t
}

// startsEmpty reports whether a buffer was never set to anything.
func startsEmpty(v *Term) bool {
	if v.Op == "zero" || strings.HasPrefix(v.Aux, "after:") || v.String() == "nil" || v.String() == "0" {
		return true
	}
	if v.Op != "struct" {
		return false
	}
	for _, f := range v.Args {
		if !startsEmpty(f) {
			return false
		}
	}
	return true
}

func isBuffer(t types.Type) bool { return t != nil && t.String() == "*bytes.Buffer" }

// stream is the stream that a term is.
func (r *replay) stream(t *Term, at *State, m string) *pipe {
	t = unconv(t)
	if p, ok := r.pipes[t]; ok {
		return p
	}
	x, typ := t, t.Typ
	if isBuffer(typ) {
		p := &pipe{kind: "buffer"}
		if x.Op == "obj" {
			if v, ok := at.mem[x]; ok && !startsEmpty(v) {
				r.fail("the buffer %s starts as %s", x, v)
			}
		}
		r.pipes[x] = p
		return p
	}
	if typ != nil && r.depth < 3 {
		// a wrapper that passes everything on.
		if f := r.c.P.methodOf(typ, m); f != nil && (f.Blocks != nil || f.Synthetic != "") {
			st := at.clone()
			n := len(st.trace)
			v := raw("sym", "written", types.NewSlice(types.Typ[types.Byte]))
			outs, err := newEngine(r.c.P, Cfg{}).Run(f, []*Term{t, v}, st)
			if err != nil || len(outs) != 1 || len(outs[0].St.trace) < n {
				return nil
			}
			var calls []*Event
			for _, ev := range outs[0].St.trace[n:] {
				if !ev.Inlined {
					calls = append(calls, ev)
				}
			}
			if len(calls) != 1 || calls[0].Kind != "call" || len(calls[0].Args) != 2 || calls[0].Args[1] != v || !strings.HasSuffix(calls[0].Key, m) && !strings.HasSuffix(calls[0].Key, "."+m) {
				return nil
			}
			r.depth++
			p := r.stream(calls[0].Args[0], at, m)
			r.depth--
			if p != nil {
				r.pipes[t] = p
				return p
			}
		}
	}
	return nil
}

// write passes data on to a stream.
func (r *replay) write(p *pipe, data *Term) {
	switch {
	case p == nil:
		r.fail("something is written to an unknown stream")
	case p.kind == "reader":
		r.fail("something is written to a reader")
	case p.closed:
		r.fail("something is written to the writer of %s after it was closed", p.coding)
	case p.data != nil:
		r.fail("more is written than the data")
	default:
		p.data = data
	}
}

// read is everything a stream has.
func (r *replay) read(p *pipe) *Term {
	switch {
	case p == nil:
		r.fail("something is read from an unknown stream")
	case p.kind == "buffer" && p.data != nil:
		return p.data
	case p.kind == "buffer":
		r.fail("an empty buffer is read")
	case p.kind == "writer":
		r.fail("a writer is read")
	case p.closed:
		r.fail("the reader of %s is read after it was closed", p.coding)
	default:
		return raw("dec", "", nil, p.coding, r.read(p.next))
	}
	return tNil
}

// run replays the events of the path.
func (r *replay) run() {
	coders, formats := r.dir()
	for _, ev := range r.o.St.trace {
		if ev.Kind != "call" || ev.Inlined || ev.Res == nil && ev.Key == "" {
			continue
		}
		res := func(i string) *Term { return mkRes(ev.Res, i, nil) }
		switch {
		case strings.HasPrefix(ev.Key, "D:"):
			m, k := lookupOf(ev.Args[0])
			switch {
			case m == nil:
				r.fail("%s is called", ev.Args[0])
			case k.contains(r.ct) && r.tableIs(m, formats):
				if r.marshal != nil {
					r.fail("two functions are called for the media type")
				}
				if why := r.typeKey(r.o, k); why != "" {
					r.fail("%s", why)
				}
				r.marshal = ev
				if r.method == "Bytes" {
					r.errs = append(r.errs, res("1"))
				} else {
					r.errs = append(r.errs, ev.Res)
				}
			case !k.contains(r.ct) && r.tableIs(m, coders):
				cd := r.codingOf(k)
				if cd == nil {
					r.fail("a coding is looked up by %s", k)
				}
				kind := "reader"
				if r.method == "Bytes" {
					kind = "writer"
				}
				next := r.stream(ev.Args[1], ev.St, map[string]string{"writer": "Write", "reader": "Read"}[kind])
				if next == nil {
					r.fail("the %s of %s is made of %s", kind, cd, ev.Args[1])
				}
				r.pipes[res("0")] = &pipe{kind: kind, coding: cd, next: next}
				r.errs = append(r.errs, res("1"))
			default:
				r.fail("%s is looked up in %s", k, m)
			}
		case ev.Key == "I:Write" || ev.Key == "(*bytes.Buffer).Write" || ev.Key == "io.WriteString" || ev.Key == "(*bytes.Buffer).WriteString":
			p := r.stream(ev.Args[0], ev.St, "Write")
			r.write(p, r.content(ev.Args[1]))
			if p != nil && p.kind != "buffer" {
				r.errs = append(r.errs, res("1"))
			}
		case ev.Key == "io.Copy":
			p := r.stream(ev.Args[0], ev.St, "Write")
			r.write(p, r.read(r.stream(ev.Args[1], ev.St, "Read")))
			r.errs = append(r.errs, res("1"))
		case ev.Key == "(*bytes.Buffer).ReadFrom":
			r.write(r.stream(ev.Args[0], ev.St, "Write"), r.read(r.stream(ev.Args[1], ev.St, "Read")))
			r.errs = append(r.errs, res("1"))
		case ev.Key == "io.ReadAll":
			r.val[res("0")] = r.read(r.stream(ev.Args[0], ev.St, "Read"))
			r.errs = append(r.errs, res("1"))
		case ev.Key == "(*bytes.Buffer).Bytes" || ev.Key == "(*bytes.Buffer).String":
			r.val[unconv(ev.Res)] = r.read(r.stream(ev.Args[0], ev.St, "Read"))
		case ev.Key == "bytes.NewBuffer" || ev.Key == "bytes.NewReader" || ev.Key == "bytes.NewBufferString" || ev.Key == "strings.NewReader":
			p := &pipe{kind: "buffer", data: r.content(ev.Args[0])}
			if p.data.isNil() || p.data.Op == "list" && len(p.data.Args) == 0 {
				p.data = nil
			}
			r.pipes[unconv(ev.Res)] = p
		case ev.Key == "io.NopCloser":
			if p := r.stream(ev.Args[0], ev.St, "Read"); p != nil {
				r.pipes[unconv(ev.Res)] = p
			}
		case ev.Key == "I:Close":
			p := r.stream(ev.Args[0], ev.St, map[string]string{"Bytes": "Write", "FromBytes": "Read"}[r.method])
			if p == nil {
				r.fail("%s is closed", ev.Args[0])
				continue
			}
			if p.kind == "buffer" {
				continue
			}
			r.errs = append(r.errs, unconv(ev.Res))
			if p.closed {
				continue
			}
			if p.kind == "writer" {
				if p.data == nil {
					r.fail("the writer of %s is closed before anything is written to it", p.coding)
					continue
				}
				r.write(p.next, raw("enc", "", nil, p.coding, p.data))
			}
			p.closed = true
		case ev.Key == "I:Flush" || ev.Key == "(*bytes.Buffer).Grow":
		default:
			// nothing else may be done with a stream.
			for _, a := range ev.Args {
				x := unconv(a)
				if x.Op == "mk" {
					x = unconv(x.Args[0])
				}
				if _, ok := r.pipes[x]; ok {
					r.fail("%s is done with a stream", ev.Key)
				}
			}
		}
	}
}

// defaultTables compares the default tables.
func (c *Ctx) defaultTables(prop string, deflt map[string]*Term) {
	pairs := [][2]string{{"Marshallers", "Unmarshallers"}, {"EncodingWriters", "EncodingReaders"}}
	for _, p := range pairs {
		a, b := deflt[p[0]], deflt[p[1]]
		if !c.must(a != nil && b != nil, "", "the default %s and %s are not known", p[0], p[1]) {
			continue
		}
		ta, tb := tableOf(a), tableOf(b)
		at := c.P.posn(c.P.Pkgs["representation"].Func("init").Pos())
		for _, k := range sortedKeys(ta) {
			fa, fb := ta[k], tb[k]
			la, whyA := c.formatOf(fa, p[0])
			if prop == "C22" {
				if !c.must(fb != nil, at, "%s is supported by the default %s only", k, p[0]) {
					continue
				}
				lb, whyB := c.formatOf(fb, p[1])
				c.must(la == lb && la != "", at, "%s is written by %s%s and read by %s%s", k, la, whyA, lb, whyB)
				c.must(k == strings.ToLower(k), at, "%s is never looked up", k)
				c.Sites[k] = true
				continue
			}
			if p[0] != "EncodingWriters" || fb == nil {
				continue
			}
			_, whyB := c.formatOf(fb, p[1])
			c.must(whyA == "", at, "the default writer of %s: %s", k, whyA)
			c.must(whyB == "", at, "the default reader of %s: %s", k, whyB)
			c.Sites[k] = true
		}
		if prop == "C22" {
			for _, k := range sortedKeys(tb) {
				c.must(ta[k] != nil, at, "%s is supported by the default %s only", k, p[1])
			}
			c.sample("default %s and %s: %v", p[0], p[1], sortedKeys(ta))
		}
	}
}

// formatOf is the package whose functions a function is made of, and why it is
// not faithful.
func (c *Ctx) formatOf(t *Term, table string) (string, string) {
	t = unconv(t)
	if t.Op == "gval" {
		if v := newEngine(c.P, Cfg{}).staticOf(t); v != nil {
			t = unconv(v)
		}
	}
	if t.Fn == nil {
		return "", fmt.Sprintf("it is %s", t)
	}
	f := t.Fn
	if f.Pkg != nil && !c.P.inModule(f.Pkg) {
		want := map[string]string{"Marshallers": "Marshal", "Unmarshallers": "Unmarshal", "EncodingReaders": "NewReader", "EncodingWriters": "NewWriter"}[table]
		if f.Name() != want {
			return "", fmt.Sprintf("it is %s", f.Name())
		}
		return f.Pkg.Pkg.Path(), ""
	}
	ps := rootParams(f)
	e := newEngine(c.P, Cfg{})
	outs, err := e.runFree(f, ps, t.Args, newState())
	if err != nil {
		return "", err.Error()
	}
	c.Fns[c.P.fkey(f)] = true
	c.Paths += len(outs)
	format, why := "", ""
	bad := func(f string, a ...any) {
		if why == "" {
			why = " (" + fmt.Sprintf(f, a...) + ")"
		}
	}
	for i := range outs {
		o := &outs[i]
		if o.Panic != nil || len(o.Ret) == 0 {
			bad("it may panic")
			continue
		}
		var stage *Event
		for _, ev := range o.St.trace {
			if ev.Kind != "call" || ev.Inlined {
				continue
			}
			if stage != nil {
				bad("it also calls %s", ev.Key)
				continue
			}
			stage = ev
		}
		er, k := retError(o)
		if stage == nil || len(stage.Args) == 0 {
			bad("it calls nothing")
			continue
		}
		dot := strings.LastIndex(stage.Key, ".")
		pkg, name := stage.Key[:dot], stage.Key[dot+1:]
		if format != "" && format != pkg {
			bad("it is of two formats")
		}
		format = pkg
		var own *Term // the error of the stage
		sig := stage.Sig
		n := 1
		if sig != nil {
			n = sig.Results().Len()
		}
		first := stage.Res
		if n == 2 {
			first, own = mkRes(stage.Res, "0", nil), mkRes(stage.Res, "1", nil)
		} else if table == "Unmarshallers" {
			own = stage.Res
		}
		if own != nil {
			if h := o.St.known(errNil(own)); h == 0 && k != 1 || h < 0 && er != own {
				bad("it ignores %s", own)
			}
		}
		if k == 1 {
			if own == nil || o.St.known(errNil(own)) != 0 {
				bad("it fails with %s", er)
			}
			continue
		}
		switch table {
		case "EncodingWriters", "EncodingReaders":
			ok := name == "NewReader" && table == "EncodingReaders" || (name == "NewWriter" || name == "NewWriterLevel") && table == "EncodingWriters"
			if !ok {
				bad("it calls %s", stage.Key)
			}
			if x := unconv(stage.Args[0]); x != ps[0] && !(x.Op == "mk" && x.Args[0] == ps[0]) {
				bad("it wraps %s", stage.Args[0])
			}
			if strings.HasPrefix(name, "NewWriter") && len(stage.Args) > 1 {
				// a level that is not one always fails.
				if n, ok := stage.Args[len(stage.Args)-1].intv(); !ok || n < -2 || n > 9 {
					bad("its level is %s", stage.Args[len(stage.Args)-1])
				}
			}
			x := unconv(o.Ret[0])
			if x.Op == "mk" {
				x = unconv(x.Args[0])
			}
			if x != unconv(first) {
				bad("it provides %s", o.Ret[0])
			}
		case "Marshallers":
			if !strings.HasPrefix(name, "Marshal") || unconv(o.Ret[0]) != unconv(first) || unconv(stage.Args[0]) != ps[0] {
				bad("it provides %s", o.Ret[0])
			}
		case "Unmarshallers":
			if !strings.HasPrefix(name, "Unmarshal") || unconv(stage.Args[0]) != ps[0] || unconv(stage.Args[1]) != ps[1] {
				bad("it calls %s", stage.Key)
			}
		}
	}
	return format, why
}

// listBytes checks that a list is serialized as any representation.
func (c *Ctx) listBytes(prop string) {
	p := c.P.Pkgs["representation"]
	if p == nil || p.Type("List") == nil {
		c.must(false, "", "representation.List no longer exists")
		return
	}
	t := p.Type("List").Type()
	for _, m := range []string{"Bytes", "FromBytes"} {
		f := c.methodFor(t, m)
		own := c.P.method("representation", "Base", m)
		if f == nil || own == nil {
			continue
		}
		ptr := raw("sym", "list", types.NewPointer(t))
		e := newEngine(c.P, c.keeping(nil, c.P.fkey(own)))
		st := newState()
		recv, args := ptr, []*Term{}
		self := e.load(st, ptr, t)
		if _, ok := f.Signature.Recv().Type().(*types.Pointer); !ok {
			recv = self
		}
		in := raw("sym", "bytes", types.NewSlice(types.Typ[types.Byte]))
		if m == "FromBytes" {
			args = append(args, in)
		}
		outs, err := e.Run(f, append([]*Term{recv}, args...), st)
		c.must(err == nil && len(outs) > 0, c.P.posn(f.Pos()), "List.%s could not be analysed: %v", m, err)
		for i := range outs {
			o := &outs[i]
			at := c.end(o)
			var call *Event
			for _, ev := range o.St.trace {
				if ev.Kind == "call" && ev.Key == c.P.fkey(own) {
					c.must(call == nil, at, "List.%s is coded twice", m)
					call = ev
				}
			}
			if !c.must(o.Panic == nil && call != nil, at, "List.%s is not that of its representation", m) {
				continue
			}
			c.must(c.isBaseOf(e, o.St, call.Args[0], self), at, "List.%s is that of %s", m, call.Args[0])
			v := unconv(call.Args[len(call.Args)-1])
			if v.Op == "mk" {
				v = v.Args[0]
			}
			same := v == self || v == ptr || v.Op == "ptr" && v.Args[0] == self
			if x, ok := o.St.mem[v]; ok {
				same = same || x == self
			}
			c.must(same, at, "List.%s is of %s", m, v)
			if m == "Bytes" {
				c.must(len(o.Ret) == 2 && o.Ret[0] == mkRes(call.Res, "0", nil) && o.Ret[1] == mkRes(call.Res, "1", nil), at, "List.%s provides %s", m, show(o.Ret))
			} else {
				c.must(len(o.Ret) == 1 && o.Ret[0] == call.Res && v == ptr && call.Args[1] == in, at, "List.%s provides %s", m, show(o.Ret))
			}
		}
	}
}

// isBaseOf reports whether t is the representation in a list, or a pointer to
// it.
func (c *Ctx) isBaseOf(e *Engine, st *State, t, self *Term) bool {
	b := mkField(self, "Base", nil)
	if t == b {
		return true
	}
	if _, ok := t.Typ.(*types.Pointer); ok || t.Op == "faddr" {
		return e.load(st, t, b.Typ) == b
	}
	return false
}
