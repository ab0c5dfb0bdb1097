package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Neg is an analysed negotiator.
type Neg struct {
	Name         string
	Fn           *ssa.Function
	N, Ctx, Reps *Term
	W, Req       *Term
	Outs         []Outcome
	Role         map[string]string // option field -> negotiator field
}

func (c *Ctx) negotiator(rel string) *Neg {
	f := c.P.method(rel, "Negotiator", "Negotiate")
	if f == nil || len(f.Params) != 3 {
		c.must(false, "", "the Negotiate method of package %s no longer exists", rel)
		return nil
	}
	ps := rootParams(f)
	n := &Neg{Name: rel, Fn: f, N: ps[0], Ctx: ps[1], Reps: ps[2]}
	n.W = mkField(n.Ctx, "ResponseWriter", nil)
	n.Req = mkField(n.Ctx, "Request", nil)
	n.Outs = c.run(f, atAnchors(c.P), ps, nil)
	for _, o := range n.Outs {
		c.must(o.Panic == nil, c.end(&o), "%s: a negotiation may panic", rel)
	}
	n.Role = c.roles(rel)
	return n
}

func (c *Ctx) allNegotiators() []*Neg {
	var ns []*Neg
	for _, r := range []string{"proactive", "reactive", "transparent"} {
		if n := c.negotiator(r); n != nil {
			ns = append(ns, n)
		}
	}
	c.must(len(ns) == 3, "", "expected the proactive, reactive and transparent negotiators")
	return ns
}

// roles maps each setting to the negotiator field New stores it in.
func (c *Ctx) roles(rel string) map[string]string {
	m := map[string]string{}
	f := c.P.fun(rel, "New")
	if f == nil {
		c.must(false, "", "%s.New no longer exists", rel)
		return m
	}
	e := newEngine(c.P, atAnchors(c.P))
	outs, err := e.Run(f, nil, nil)
	if err != nil || len(outs) == 0 {
		c.must(false, c.P.posn(f.Pos()), "%s.New could not be analysed: %v", rel, err)
		return m
	}
	pk := c.P.Pkgs[rel]
	if pk.Type("Options") == nil {
		c.must(false, "", "%s.Options no longer exists", rel)
		return m
	}
	for _, o := range outs {
		if len(o.Ret) != 1 {
			continue
		}
		roleWalk(o.Ret[0], f.Signature.Results().At(0).Type(), pk.Type("Options").Type(), "", 0, func(opt, path string) { m[opt] = path })
	}
	return m
}

// setting is the term of the negotiator's copy of an option.
func (n *Neg) setting(c *Ctx, opt string) *Term {
	f, ok := n.Role[opt]
	if !ok {
		c.must(false, "", "%s: the setting %s does not reach the negotiator", n.Name, opt)
		return raw("sym", "missing", nil)
	}
	t := n.N
	for _, p := range strings.Split(f, ".") {
		t = mkField(t, p, nil)
	}
	return t
}

type hdr struct {
	name string
	vals []*Term
}

// Resp is what a path does to the response.
type Resp struct {
	Headers map[string][]*Term
	Touched []string // names of headers set
	Status  []*Term
	Bodies  []*Term
	WriteEv []*Event
	Unknown []string // uses of the response the analysis does not know
	Order   []string // h, s, b in the order they happen
	Late    []string // headers set after the status
}

// response simulates the header map and the typestate of the response.
func (n *Neg) response(c *Ctx, o *Outcome) *Resp {
	r := &Resp{Headers: map[string][]*Term{}}
	h := raw("call", "I:Header", nil, n.W)
	touch := func(name string) {
		r.Touched = append(r.Touched, name)
		r.Order = append(r.Order, "h")
		if len(r.Status) > 0 || len(r.Bodies) > 0 {
			r.Late = append(r.Late, name)
		}
	}
	var walk func(evs []*Event, inLoop bool)
	walk = func(evs []*Event, inLoop bool) {
		for _, ev := range evs {
			uses := false
			for _, a := range ev.Args {
				if a.contains(n.W) {
					uses = true
				}
			}
			switch ev.Kind {
			case "loop":
				for _, it := range ev.Loop.Iters {
					walk(it.Events, true)
				}
				continue
			case "mapset":
				if ev.Args[0] == h || ev.Args[0].contains(h) {
					name, ok := ev.Args[1].str()
					if !ok || inLoop {
						r.Unknown = append(r.Unknown, "header of a computed name set at "+c.P.posOf(ev.Site))
						continue
					}
					touch(name)
					v := ev.Args[2]
					if v.Op == "list" {
						r.Headers[name] = append([]*Term{}, v.Args...)
					} else {
						r.Headers[name] = []*Term{v}
						r.Unknown = append(r.Unknown, "header "+name+" set to a computed list at "+c.P.posOf(ev.Site))
					}
				}
				continue
			case "mapdel":
				if ev.Args[0].contains(h) {
					if name, ok := ev.Args[1].str(); ok {
						touch(name)
						delete(r.Headers, name)
					}
				}
				continue
			case "store":
				if uses {
					r.Unknown = append(r.Unknown, "response stored at "+c.P.posOf(ev.Site))
				}
				continue
			case "call":
			default:
				continue
			}
			if !uses {
				continue
			}
			switch ev.Key {
			case "I:Header":
				continue
			case "(net/http.Header).Get", "(net/http.Header).Values":
				continue
			case "(net/http.Header).Add", "(net/http.Header).Set", "(net/http.Header).Del":
				if !ev.Args[0].contains(h) {
					continue
				}
				name, ok := ev.Args[1].str()
				if !ok || inLoop {
					r.Unknown = append(r.Unknown, "header of a computed name set at "+c.P.posOf(ev.Site))
					r.Order = append(r.Order, "h")
					r.Touched = append(r.Touched, "?")
					continue
				}
				name = canonicalKey(name)
				touch(name)
				switch {
				case strings.HasSuffix(ev.Key, "Add"):
					r.Headers[name] = append(append([]*Term{}, r.Headers[name]...), ev.Args[2])
				case strings.HasSuffix(ev.Key, "Set"):
					r.Headers[name] = []*Term{ev.Args[2]}
				default:
					delete(r.Headers, name)
				}
			case "I:WriteHeader":
				r.Status = append(r.Status, ev.Args[1])
				r.Order = append(r.Order, "s")
				if inLoop {
					r.Status = append(r.Status, ev.Args[1])
				}
			case "I:Write", "I:WriteString", "io.WriteString":
				b := ev.Args[1]
				r.Bodies = append(r.Bodies, b)
				r.WriteEv = append(r.WriteEv, ev)
				r.Order = append(r.Order, "b")
				if inLoop {
					r.Unknown = append(r.Unknown, "body written in a loop at "+c.P.posOf(ev.Site))
				}
			default:
				if strings.Contains(ev.Key, "zap") {
					continue
				}
				r.Unknown = append(r.Unknown, fmt.Sprintf("response handed to %s at %s", ev.Key, c.P.posOf(ev.Site)))
				r.Order = append(r.Order, "?")
			}
		}
	}
	walk(o.St.trace, false)
	return r
}

// unboxBody removes conversions between strings and bytes.
func unboxBody(t *Term) *Term {
	for t.Op == "conv" && (isString(t.Typ) || isByteSlice(t.Typ)) {
		t = t.Args[0]
	}
	return t
}

// source is the representation whose serialized bytes the body is.
func (r *Resp) source() *Term {
	if len(r.Bodies) != 1 {
		return nil
	}
	b := unboxBody(r.Bodies[0])
	if call, ok := resOf(b, "0", "I:Bytes"); ok {
		return call.Args[0].strip()
	}
	return nil
}

// kind classifies the source of the body.
//
//	variant: the algorithm's choice among all of the representations
//	list:    the algorithm's choice among lists, or a constructed list
func (n *Neg) kind(src *Term) (string, *Term) {
	if src == nil {
		return "", nil
	}
	if call, ok := resOf(src, "0", "I:Choose"); ok && len(call.Args) == 3 {
		if call.Args[2] == n.Reps {
			return "variant", call
		}
		return "chosenlist", call
	}
	if src.Op == "call" && strings.HasPrefix(src.Aux, "D:") {
		return "list", src
	}
	return "other", src
}

func joinedEncoding(x *Term) []*Term {
	ce := raw("call", "I:ContentEncoding", nil, x)
	return []*Term{
		raw("call", "strings.Join", nil, ce, tStr(",")),
		raw("call", "strings.Join", nil, ce, tStr(", ")),
	}
}

func isKnownEmpty(st *State, t *Term) bool {
	if st.known(mkBin("==", mkLen(t), tInt(0), nil)) == 1 {
		return true
	}
	if t.Op == "call" && t.Aux == "strings.Join" {
		return st.known(mkBin("==", mkLen(t.Args[0]), tInt(0), nil)) == 1
	}
	return false
}

func names(m map[string][]*Term) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}
