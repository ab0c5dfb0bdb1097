package main

import (
	"strings"
)

func init() {
	rules["C01"] = ruleC01
	rules["C02"] = ruleC02
	rules["C03"] = ruleC03
	rules["C04"] = ruleC04
	rules["C05"] = ruleC05
	rules["C25"] = ruleC25
}

var trustedStd = []string{
	"the Go type checker and x/tools SSA construction represent the source faithfully",
	"interfaces implemented by callers (Representation, Chooser, ResponseWriter, tally.Scope) behave as documented: accessors are pure, Write and WriteHeader are the only ways to send",
	"standard library and x/text functions behave as documented",
}

// eachEvent visits the events of a trace, those of loop iterations included;
// the state passed for an iteration knows the facts of that iteration only.
func eachEvent(o *Outcome, f func(ev *Event, st *State, inLoop bool)) {
	var rec func(evs []*Event, st *State, in bool)
	rec = func(evs []*Event, st *State, in bool) {
		for _, ev := range evs {
			f(ev, st, in)
			if ev.Kind == "loop" {
				for _, it := range ev.Loop.Iters {
					rec(it.Events, factState(it.Conds), true)
				}
			}
		}
	}
	rec(o.St.trace, o.St, false)
}

func factState(ls []Lit) *State {
	s := newState()
	for _, l := range ls {
		s.assume(l.Atom, l.Pol)
	}
	return s
}

// errOf is the error a call provides, if any.
func errOf(ev *Event) *Term {
	if ev.Kind != "call" || ev.Sig == nil || ev.Res == nil {
		return nil
	}
	rs := ev.Sig.Results()
	n := rs.Len()
	if n == 0 || !isErrorType(rs.At(n-1).Type()) {
		return nil
	}
	if n == 1 {
		return ev.Res
	}
	return mkRes(ev.Res, itoa(n-1), nil)
}

func itoa(n int) string { return string(rune('0' + n)) }

func (n *Neg) lenReps() *Term { return mkLen(n.Reps) }

// emptyKnown is whether the path knows that there are no representations.
func (n *Neg) emptyKnown(o *Outcome) int {
	return o.St.known(mkBin("==", n.lenReps(), tInt(0), nil))
}

func ruleC01(c *Ctx) {
	c.Rule = "on every path that writes a body, the body is the first result of Bytes() of one value X and the headers set before it are, by provenance, X's own accessors (Content-Type, -Encoding joined by commas, -Language, -Charset), the decimal length of that body, and for a variant the string form of X.ContentLocation()."
	c.Trusted = trustedStd
	bodies := 0
	for _, n := range c.allNegotiators() {
		for i := range n.Outs {
			o := &n.Outs[i]
			r := n.response(c, o)
			if len(r.Bodies) == 0 {
				continue
			}
			bodies++
			at := c.P.posOf(r.WriteEv[0].Site)
			for _, u := range r.Unknown {
				c.must(false, at, "%s: %s", n.Name, u)
			}
			x := r.source()
			if !c.must(x != nil, at, "%s: the body written is not the serialized form of one representation but %v", n.Name, show(r.Bodies)) {
				continue
			}
			body := r.Bodies[0]
			check := func(name string, want ...*Term) {
				got := r.Headers[name]
				if len(got) == 0 {
					empty := len(want) > 0 && isKnownEmpty(o.St, want[0])
					c.must(empty, at, "%s: %s is not set for a body of %s", n.Name, name, x)
					return
				}
				ok := len(got) == 1
				if ok {
					ok = false
					for _, w := range want {
						if got[0].strip() == w {
							ok = true
						}
						if isStr(got[0].strip(), "") && isCall(w, "strings.Join") && o.St.known(mkBin("==", mkLen(w.Args[0]), tInt(0), nil)) == 1 {
							ok = true
						}
					}
				}
				c.must(ok, at, "%s: %s is %v, which does not describe the body of %s (expected %v)", n.Name, name, show(got), x, want[0])
			}
			acc := func(m string) *Term { return raw("call", "I:"+m, nil, x) }
			check("Content-Type", acc("ContentType"))
			check("Content-Encoding", joinedEncoding(x)...)
			check("Content-Language", acc("ContentLanguage"))
			check("Content-Charset", acc("ContentCharset"))
			check("Content-Length", mkCall("strconv.Itoa", nil, mkLen(body)), mkCall("strconv.Itoa", nil, mkLen(unboxBody(body))))
			if k, _ := n.kind(x); k == "variant" || k == "other" {
				loc := acc("ContentLocation")
				check("Content-Location",
					raw("call", "(*net/url.URL).String", nil, raw("ptr", "", nil, loc)),
					raw("call", "(net/url.URL).String", nil, loc))
			} else if len(r.Headers["Content-Location"]) > 0 {
				loc := acc("ContentLocation")
				check("Content-Location", raw("call", "(*net/url.URL).String", nil, raw("ptr", "", nil, loc)))
			}
			c.sample("%s: body of %s with %s", n.Name, x, names(r.Headers))
		}
	}
	c.minimum(bodies, 10, "paths that write a body")
}

func ruleC02(c *Ctx) {
	c.Rule = "typestate over every path of the three negotiators: header* status? body?; no header after the status, no second status or body, nothing done to the response on a path that fails before its body, exactly one status on a path that returns nil."
	c.Trusted = trustedStd
	ok := 0
	for _, n := range c.allNegotiators() {
		for i := range n.Outs {
			o := &n.Outs[i]
			r := n.response(c, o)
			at := c.end(o)
			for _, u := range r.Unknown {
				if strings.Contains(u, "to a computed list") {
					continue
				}
				c.must(false, at, "%s: %s", n.Name, u)
			}
			c.must(len(r.Late) == 0, at, "%s: header %v set after the status or the body was sent", n.Name, r.Late)
			c.must(len(r.Status) <= 1, at, "%s: %d status lines sent on one path", n.Name, len(r.Status))
			c.must(len(r.Bodies) <= 1, at, "%s: %d bodies written on one path", n.Name, len(r.Bodies))
			if len(r.Bodies) == 1 {
				// the status precedes the body.
				s := strings.Join(r.Order, "")
				c.must(strings.Index(s, "s") >= 0 && strings.Index(s, "s") < strings.Index(s, "b"), at, "%s: body written without a status before it", n.Name)
			}
			_, e := retError(o)
			if len(r.Bodies) == 0 {
				switch e {
				case 1:
					c.must(len(r.Order) == 0, at, "%s: a failing negotiation has already touched the response (%s %v)", n.Name, strings.Join(r.Order, ""), r.Touched)
				case 0:
					c.must(len(r.Status) == 1, at, "%s: a negotiation succeeds without having sent a status", n.Name)
				default:
					c.must(false, at, "%s: returns an error whose presence the path does not determine", n.Name)
				}
			} else {
				c.must(len(r.Status) == 1, at, "%s: a body is sent with %d status lines", n.Name, len(r.Status))
			}
			if len(r.Status) == 1 {
				ok++
			}
		}
	}
	c.sample("%d paths send exactly one status line", ok)
	c.minimum(ok, 10, "paths that send a status")
}

// surfaces checks that the error of every call on the path is either known
// to be nil or is what the path returns.
func (c *Ctx) surfaces(name string, o *Outcome, in func(ev *Event) bool) int {
	n := 0
	ret, re := retError(o)
	eachEvent(o, func(ev *Event, st *State, inLoop bool) {
		e := errOf(ev)
		if e == nil || !in(ev) {
			return
		}
		n++
		at := c.P.posOf(ev.Site)
		if neverNil(e) || e.isNil() {
			return
		}
		k := st.known(errNil(e))
		if inLoop {
			c.must(k == 1, at, "%s: the loop goes on although %s may have failed", name, ev.Key)
			return
		}
		switch k {
		case 1:
			c.must(true, at, "")
		case 0:
			c.must(re == 1 && ret.contains(e), at, "%s: %s failed but the path ending at %s returns %v", name, ev.Key, c.end(o), ret)
		default:
			c.must(ret == e, at, "%s: the error of %s is not looked at on the path ending at %s", name, ev.Key, c.end(o))
		}
	})
	return n
}

func ruleC03(c *Ctx) {
	c.Rule = "every call with an error result on every path (and every loop iteration) of the negotiators and choosers: an error known to be non-nil is what the path returns (possibly wrapped), one not tested is the value returned; and a chooser never returns a representation with an error."
	c.Trusted = trustedStd
	sites := 0
	for _, n := range c.allNegotiators() {
		for i := range n.Outs {
			sites += c.surfaces(n.Name, &n.Outs[i], func(ev *Event) bool {
				return !strings.Contains(ev.Key, "go.uber.org/zap") && !strings.HasPrefix(ev.Key, "fmt.Print")
			})
		}
	}
	for _, ch := range c.choosers() {
		for i := range ch.Outs {
			o := &ch.Outs[i]
			sites += c.surfaces(ch.Name, o, func(ev *Event) bool {
				return strings.HasPrefix(ev.Key, "~/internal/header.New") || strings.HasPrefix(ev.Key, "F:") || strings.HasPrefix(ev.Key, "D:")
			})
			if len(o.Ret) != 2 {
				continue
			}
			_, e := retError(o)
			rep := o.Ret[0]
			c.must(e == 0 || rep.isNil(), c.end(o), "%s: may return the representation %v together with an error", ch.Name, rep)
		}
	}
	c.minimum(sites, 30, "calls with an error result")
}

func ruleC04(c *Ctx) {
	c.Rule = "every path on which the number of representations is known to be 0 sends the constant status 204 and does nothing else to the response, calls no header constructor, algorithm or list constructor and returns nil; every other path knows that the number is not 0 before anything else, and sends no 204."
	c.Trusted = trustedStd
	empty := 0
	for _, n := range c.allNegotiators() {
		e := 0
		for i := range n.Outs {
			o := &n.Outs[i]
			r := n.response(c, o)
			at := c.end(o)
			k := n.emptyKnown(o)
			if k == 1 {
				e++
				ret, re := retError(o)
				c.must(re == 0, at, "%s: returns %v for no representations", n.Name, ret)
				c.must(len(r.Order) == 1 && len(r.Status) == 1 && is204(r.Status[0]), at, "%s: no representations are answered with %v rather than only a 204 (headers %v)", n.Name, show(r.Status), r.Touched)
				eachEvent(o, func(ev *Event, _ *State, _ bool) {
					if ev.Kind != "call" {
						return
					}
					bad := strings.HasPrefix(ev.Key, "D:") || ev.Key == "I:Choose" || ev.Key == "I:Bytes" || strings.HasPrefix(ev.Key, "~/internal/header.")
					c.must(!bad, c.P.posOf(ev.Site), "%s: %s is called although there is nothing to negotiate", n.Name, ev.Key)
				})
				for _, l := range o.St.order {
					c.must(!l.Atom.contains(n.Req), at, "%s: the request is consulted although there is nothing to negotiate (%v)", n.Name, l)
				}
				continue
			}
			for _, s := range r.Status {
				c.must(!is204(s), at, "%s: 204 is sent although there may be representations", n.Name)
			}
			c.must(k == 0, at, "%s: the path does not depend on whether there are representations (%s)", n.Name, c.facts(o))
		}
		c.must(e > 0, "", "%s: no path for a negotiation without representations", n.Name)
		empty += e
	}
	c.minimum(empty, 3, "paths for no representations")
}

func is204(t *Term) bool {
	v, ok := t.intv()
	return ok && v == 204
}

func ruleC05(c *Ctx) {
	c.Rule = "the constant status (and TCN) on every responding path is the one of the provenance of its body: variant chosen among all representations (proactive 201/200 by IsCreation, transparent 200 with TCN choice), list (406, 300, 300 with TCN list); the variant is served exactly on the paths that know the algorithm returned one."
	c.Trusted = trustedStd
	kinds := map[string]int{}
	for _, n := range c.allNegotiators() {
		for i := range n.Outs {
			o := &n.Outs[i]
			r := n.response(c, o)
			at := c.end(o)
			_, re := retError(o)
			if len(r.Status) == 0 || n.emptyKnown(o) == 1 {
				continue
			}
			status, isC := r.Status[0].intv()
			if !c.must(isC, at, "%s: the status %v does not depend on the outcome alone", n.Name, r.Status[0]) {
				continue
			}
			k, call := n.kind(r.source())
			if len(r.Bodies) == 0 {
				k = "none"
			}
			kinds[n.Name+" "+k]++
			_ = re
			switch n.Name {
			case "proactive":
				switch k {
				case "variant":
					cr := o.St.known(mkField(n.Ctx, "IsCreation", nil))
					c.must(cr == 1 && status == 201 || cr == 0 && status == 200, at, "proactive: status %d for the chosen variant when IsCreation is %s", status, tri(cr))
				case "list", "chosenlist":
					c.must(status == 406, at, "proactive: status %d for a list", status)
				case "none":
					c.must(status == 406, at, "proactive: status %d without a body", status)
				default:
					c.must(false, at, "proactive: the body is neither the variant chosen nor a list but %v", r.source())
				}
			case "reactive":
				c.must(k == "list" && n.listOf(c, call, "RepresentationConstructor"), at, "reactive: the body is not the configured list of all representations but %v", r.source())
				c.must(status == 300, at, "reactive: status %d for the list", status)
			case "transparent":
				tcn := r.Headers["Tcn"]
				is := func(v string) bool {
					if len(tcn) != 1 {
						return false
					}
					s, ok := tcn[0].str()
					return ok && s == v
				}
				switch k {
				case "variant":
					c.must(status == 200 && is("choice"), at, "transparent: status %d and TCN %v for the chosen variant", status, show(tcn))
				case "list":
					c.must(n.listOf(c, call, "ListRepresentationConstructor"), at, "transparent: the list is not the configured list of all representations but %v", call)
					c.must(status == 300 && is("list"), at, "transparent: status %d and TCN %v for the list", status, show(tcn))
				default:
					c.must(false, at, "transparent: the body is neither the variant chosen nor the list but %v", r.source())
				}
			}
			// what the algorithm said.
			for _, ev := range o.St.trace {
				if ev.Kind != "call" || ev.Key != "I:Choose" || len(ev.Args) != 3 || ev.Args[2] != n.Reps {
					continue
				}
				rep := mkRes(ev.Res, "0", nil)
				isNil := o.St.known(errNil(rep))
				c.must(isNil >= 0, at, "%s: responds without testing whether the algorithm chose anything", n.Name)
				if n.Name == "proactive" {
					c.must(isNil == 0 && k == "variant" && r.source() == rep || isNil == 1 && k != "variant", at, "proactive: answers %d with %v when the algorithm chose %s", status, r.source(), map[int]string{1: "nothing", 0: "a variant"}[isNil])
				} else if isNil == 1 {
					c.must(k == "list", at, "%s: answers with %v when the algorithm chose nothing", n.Name, r.source())
				}
			}
		}
	}
	for _, k := range []string{"proactive variant", "proactive list", "proactive chosenlist", "proactive none", "reactive list", "transparent variant", "transparent list"} {
		c.must(kinds[k] > 0, "", "no path found for: %s", k)
	}
	c.sample("outcomes: %v", kinds)
}

func tri(k int) string { return [...]string{"unknown", "false", "true"}[k+1] }

// listOf reports whether the call builds the configured list of all
// representations.
func (n *Neg) listOf(c *Ctx, call *Term, opt string) bool {
	return call != nil && len(call.Args) == 2 && call.Args[0] == n.setting(c, opt) && call.Args[1] == n.Reps
}

func ruleC25(c *Ctx) {
	c.Rule = "per path, the multiset of counter increments (deferred ones included) is {negotiate.error: 1} iff a non-nil error is returned and otherwise the one counter of the status sent; the negotiate timer is started once before and stopped once after everything else."
	c.Trusted = append(trustedStd, "tally counters and timers record what they are told")
	incs := 0
	for _, n := range c.allNegotiators() {
		scope := n.setting(c, "Scope")
		for i := range n.Outs {
			o := &n.Outs[i]
			at := c.end(o)
			r := n.response(c, o)
			got := map[string]int64{}
			starts, stops, lastUse, stopAt := 0, 0, -1, -1
			idx := 0
			eachEvent(o, func(ev *Event, _ *State, inLoop bool) {
				idx++
				if ev.Kind != "call" {
					return
				}
				if ev.Key == "I:Choose" || ev.Key == "I:Write" || ev.Key == "I:Bytes" || ev.Key == "I:WriteHeader" {
					lastUse = idx
					if starts == 0 {
						c.must(false, c.P.posOf(ev.Site), "%s: the timer is not running during %s", n.Name, ev.Key)
					}
				}
				switch ev.Key {
				case "I:Inc":
					incs++
					v, ok := ev.Args[1].intv()
					ctr := ev.Args[0]
					name := "?"
					if ctr.Op == "call" && ctr.Aux == "I:Counter" && ctr.Args[0] == scope {
						if s, isS := ctr.Args[1].str(); isS {
							name = s
						}
					}
					c.must(ok && !inLoop && name != "?", c.P.posOf(ev.Site), "%s: increments %v by %v", n.Name, ctr, ev.Args[1])
					got[name] += v
				case "I:Start":
					t := ev.Args[0]
					if t.Op == "call" && t.Aux == "I:Timer" && t.Args[0] == scope {
						if s, ok := t.Args[1].str(); ok && s == "negotiate" && !inLoop {
							starts++
						}
					}
				case "(github.com/uber-go/tally.Stopwatch).Stop":
					w := ev.Args[0]
					if w.Op == "call" && w.Aux == "I:Start" && !inLoop {
						stops++
						stopAt = idx
					}
				case "I:Record", "I:RecordDuration":
					stops++
					starts++
					stopAt = idx
				}
			})
			c.must(starts == 1 && stops == 1, at, "%s: the negotiate timer is started %d and stopped %d times", n.Name, starts, stops)
			c.must(stopAt > lastUse, at, "%s: the negotiate timer is stopped before the negotiation is over", n.Name)
			_, re := retError(o)
			want := map[string]int64{}
			switch re {
			case 1:
				want["negotiate.error"] = 1
			case 0:
				var st int64
				if len(r.Status) > 0 {
					st, _ = r.Status[0].intv()
				}
				name := ""
				switch n.Name + " " + string(rune('0'+st/100)) + string(rune('0'+st/10%10)) + string(rune('0'+st%10)) {
				case "proactive 200", "proactive 201":
					name = "negotiate.acceptable"
				case "proactive 406":
					name = "negotiate.not_acceptable"
				case "proactive 204", "reactive 204":
					name = "negotiate.no_content"
				case "reactive 300":
					name = "negotiate.multiple_choices"
				}
				if name != "" {
					want[name] = 1
				} else {
					c.must(n.Name == "transparent", at, "%s: no outcome is known for status %v", n.Name, show(r.Status))
				}
			default:
				c.must(false, at, "%s: counts %v without knowing whether the negotiation failed", n.Name, got)
				continue
			}
			same := len(got) == len(want)
			for k, v := range want {
				if got[k] != v {
					same = false
				}
			}
			c.must(same, at, "%s: counts %v where the outcome (%v, error %s) calls for %v", n.Name, got, show(r.Status), tri(re), want)
		}
	}
	c.minimum(incs, 10, "counter increments")
}
