package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx collects what a check decides.
type Ctx struct {
	P  *Prog
	ID string

	accessors map[accessed]*Term
	Obls      int
	Good      int
	Viol      []string
	seen      map[string]bool
	Fns       map[string]bool
	Paths     int
	Loops     int
	Sites     map[string]bool
	Notes     []string
	Samples   []string
	Rule      string
	Trusted   []string

	splitters map[*ssa.Function]string
}

// must counts an obligation. The key identifies the instance: rule and
// construct, not line.
func (c *Ctx) must(ok bool, site, f string, a ...any) bool {
	c.Obls++
	if site != "" {
		c.Sites[site] = true
	}
	if ok {
		c.Good++
		return true
	}
	m := fmt.Sprintf(f, a...)
	if site != "" {
		m = site + ": " + m
	}
	if !c.seen[m] {
		c.seen[m] = true
		c.Viol = append(c.Viol, m)
	}
	return false
}

func (c *Ctx) sample(f string, a ...any) {
	if len(c.Samples) < 12 {
		s := fmt.Sprintf(f, a...)
		for _, o := range c.Samples {
			if o == s {
				return
			}
		}
		c.Samples = append(c.Samples, s)
	}
}

// minimum fails the check when a rule matched fewer instances than are known
// to exist.
func (c *Ctx) minimum(n, want int, what string) {
	c.must(n >= want, "", "only %d %s were found where at least %d exist: the rule no longer applies to the code", n, what, want)
}

// run analyses a root.
func (c *Ctx) run(f *ssa.Function, cfg Cfg, args []*Term, st *State) []Outcome {
	outs, _ := c.runE(f, cfg, args, st)
	return outs
}

func (c *Ctx) runE(f *ssa.Function, cfg Cfg, args []*Term, st *State) ([]Outcome, *Engine) {
	if f == nil {
		c.must(false, "", "an entry point of the property no longer exists")
		return nil, nil
	}
	return c.runBound(f, cfg, args, nil, st)
}

// runBound analyses a function, given what it has captured where it is known.
func (c *Ctx) runBound(f *ssa.Function, cfg Cfg, args, free []*Term, st *State) ([]Outcome, *Engine) {
	e := newEngine(c.P, cfg)
	var outs []Outcome
	var err error
	if len(free) > 0 && len(free) == len(f.FreeVars) {
		outs, err = e.runFree(f, args, free, newState())
	} else {
		outs, err = e.Run(f, args, st)
	}
	if err != nil {
		c.must(false, c.P.posn(f.Pos()), "%s could not be analysed: %v", c.P.fkey(f), err)
		return nil, e
	}
	for g := range e.Fns {
		c.Fns[c.P.fkey(g)] = true
	}
	c.Paths += len(outs)
	for i := range outs {
		for k, r := range outs[i].Ret {
			outs[i].Ret[k] = now(outs[i].St, r, 0)
		}
	}
	for _, o := range outs {
		for _, ev := range o.St.trace {
			if ev.Kind == "loop" {
				c.Sites[c.P.posOf(ev.Site)] = true
			}
		}
	}
	return outs, e
}

// atAnchors keeps anchored functions opaque.
func atAnchors(p *Prog) Cfg {
	return Cfg{Opaque: func(f *ssa.Function) bool { return anchors[p.fkey(f)] }}
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func (c *Ctx) write(dir, tier string, seed int, start time.Time) error {
	var fns []string
	for f := range c.Fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	if c.Samples == nil {
		c.Samples = []string{}
	}
	ev := evidence{
		Property: c.ID, Tier: tier, Seed: seed, Level: "other",
		Coverage: map[string]any{
			"explanation": fmt.Sprintf("static analysis of /repo's source: %s Rule: %s This run: %d obligations over %d paths of %d functions, %d discharged.",
				"source loaded, type checked and built as SSA; nothing is executed.", c.Rule, c.Obls, c.Paths, len(fns), c.Good),
			"obligations": c.Obls, "discharged": c.Good, "paths": c.Paths,
			"functions": fns, "sites": len(c.Sites), "samples": c.Samples, "notes": c.Notes,
			"violations": c.Viol,
		},
		Assumptions: c.Trusted,
		WallS:       time.Since(start).Seconds(),
		Violations:  len(c.Viol),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644)
}

// --- term helpers ---

func isCall(t *Term, key string) bool {
	return t.Op == "call" && (t.Aux == key || strings.HasPrefix(t.Aux, key+"#"))
}

// resOf is the i-th result of the call t, if it is one.
func resOf(t *Term, i string, key string) (*Term, bool) {
	if t.Op == "res" && t.Aux == i && isCall(t.Args[0], key) {
		return t.Args[0], true
	}
	return nil, false
}

func fieldT(b *Term, n string) *Term { return raw("field", n, nil, b) }

// truth is what the facts of a state say about an atom.
func (s *State) truth(t *Term) int { return s.known(t) }

func errNil(t *Term) *Term { return mkBin("==", t, tNil, nil) }

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool { return t != nil && types.Identical(t, errorType) }

// retError is the error a path ends with: nil, not nil, or unknown.
func retError(o *Outcome) (*Term, int) {
	if len(o.Ret) == 0 {
		return nil, -1
	}
	t := o.Ret[len(o.Ret)-1]
	if t.isNil() {
		return t, 0
	}
	if neverNil(t) {
		return t, 1
	}
	switch o.St.known(errNil(t)) {
	case 1:
		return t, 0
	case 0:
		return t, 1
	}
	return t, -1
}

// site names where a path ends.
func (c *Ctx) end(o *Outcome) string {
	if o.At == nil {
		return "?"
	}
	return c.P.posOf(o.At)
}

func (c *Ctx) facts(o *Outcome) string {
	var s []string
	for _, l := range o.St.order {
		s = append(s, l.String())
	}
	if len(s) > 10 {
		s = append([]string{"…"}, s[len(s)-10:]...)
	}
	return strings.Join(s, " && ")
}
