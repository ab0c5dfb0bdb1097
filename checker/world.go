package main

import (
	"cmp"
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"net/url"
	"path"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// World is an equivalence class of inputs, by representatives: a value for
// some terms and a truth for some atoms. Conditions of paths are evaluated
// over it; what it does not determine is unknown.
type World struct {
	P   *Prog
	val map[*Term]any // string, float64, []string, or a bool
	// more decides further atoms.
	more func(t *Term) int
}

func newWorld(p *Prog) *World { return &World{P: p, val: map[*Term]any{}} }

func (w *World) with(t *Term, v any) *World {
	w.val[t] = v
	return w
}

// eval is the value of a term, or nil if it is not determined.
func (w *World) eval(t *Term) any {
	if v, ok := w.val[t]; ok {
		return v
	}
	if t.isConst() {
		if t.Lit == nil {
			return nil
		}
		switch t.Lit.Kind() {
		case constant.String:
			return constant.StringVal(t.Lit)
		case constant.Bool:
			return constant.BoolVal(t.Lit)
		case constant.Int, constant.Float:
			f, _ := constant.Float64Val(constant.ToFloat(t.Lit))
			// a weight is the decimal that it was written as.
			if t.Typ == nil {
				return f
			}
			if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
				f, _ = strconv.ParseFloat(strconv.FormatFloat(f, 'g', -1, 32), 64)
			}
			return f
		}
		return nil
	}
	str := func(i int) (string, bool) {
		if i >= len(t.Args) {
			return "", false
		}
		s, ok := w.eval(t.Args[i]).(string)
		return s, ok
	}
	switch t.Op {
	case "narrow":
		if v, ok := w.eval(t.Args[0]).(float64); ok {
			if v, ok = narrowed(v, t.Typ); ok {
				return v
			}
		}
		return nil
	case "conv", "widen", "mk":
		return w.eval(t.Args[0])
	case "gval":
		if v := newEngine(w.P, Cfg{}).staticOf(t); v != nil && v != t {
			return w.eval(v)
		}
	case "list", "array":
		l := []any{}
		for _, a := range t.Args {
			v := w.eval(a)
			if v == nil {
				return nil
			}
			l = append(l, v)
		}
		return l
	case "not":
		if h := w.holds(t.Args[0]); h >= 0 {
			return h == 0
		}
	case "len":
		switch v := w.eval(t.Args[0]).(type) {
		case string:
			return float64(len(v))
		case []any:
			return float64(len(v))
		}
	case "neg":
		if v, ok := w.eval(t.Args[0]).(float64); ok {
			return -v
		}
	case "res":
		if l, ok := w.eval(t.Args[0]).([]any); ok && t.Args[0].Op == "call" {
			switch t.Aux {
			case "0", "1", "2":
				if i := int(t.Aux[0] - '0'); i < len(l) {
					return l[i]
				}
			}
		}
	case "slice":
		c := w.eval(t.Args[0])
		n := 0
		switch v := c.(type) {
		case string:
			n = len(v)
		case []any:
			n = len(v)
		default:
			return nil
		}
		lo, hi := 0.0, float64(n)
		for i, at := range []*float64{&lo, &hi} {
			x := t.Args[i+1]
			if v, ok := w.eval(x).(float64); ok {
				*at = v
			} else if !x.isNil() && !(x.Op == "const" && x.Aux == "none") {
				return nil
			}
		}
		if 0 <= lo && lo <= hi && int(hi) <= n {
			switch v := c.(type) {
			case string:
				return v[int(lo):int(hi)]
			case []any:
				return v[int(lo):int(hi)]
			}
		}
	case "index":
		if a, ok := w.eval(t.Args[0]).(string); ok {
			if i, ok := w.eval(t.Args[1]).(float64); ok && i >= 0 && int(i) < len(a) {
				return float64(a[int(i)])
			}
			return nil
		}
		l, ok1 := w.eval(t.Args[0]).([]any)
		i, ok2 := w.eval(t.Args[1]).(float64)
		if ok1 && ok2 && i >= 0 && int(i) < len(l) {
			return l[int(i)]
		}
	case "bin":
		if e := t.Args[0]; t.Aux == "==" && t.Args[1].isNil() && e.Op == "res" {
			if l, ok := w.eval(e.Args[0]).([]any); ok && e.Aux == fmt.Sprint(len(l)-1) {
				if failed, ok := l[len(l)-1].(bool); ok {
					return !failed
				}
			}
		}
		if e := t.Args[0]; t.Aux == "==" && t.Args[1].isNil() && isCall(e, "(*regexp.Regexp).FindStringSubmatch") {
			if l, ok := w.eval(e).([]any); ok {
				return len(l) == 0
			}
		}
		a, b := w.eval(t.Args[0]), w.eval(t.Args[1])
		if a == nil || b == nil {
			return nil
		}
		if x, ok := a.(float64); ok {
			y, ok := b.(float64)
			if !ok {
				return nil
			}
			switch t.Aux {
			case "==":
				return x == y
			case "<":
				return x < y
			case "<=":
				return x <= y
			case "+":
				return x + y
			case "-":
				return x - y
			case "*":
				return x * y
			case "/":
				switch {
				case y == 0:
					return nil
				case t.floats():
					return x / y
				case isInt(t.Typ):
					return math.Trunc(x / y)
				}
			}
			return nil
		}
		if x, ok := a.(string); ok {
			y, ok := b.(string)
			if !ok {
				return nil
			}
			switch t.Aux {
			case "==":
				return x == y
			case "<":
				return x < y
			case "+":
				return x + y
			}
			return nil
		}
		if x, ok := a.(bool); ok && t.Aux == "==" {
			if y, ok := b.(bool); ok {
				return x == y
			}
		}
	case "call":
		switch fn := t.Aux; fn {
		case "strings.EqualFold", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
			a, ok1 := str(0)
			b, ok2 := str(1)
			if !ok1 || !ok2 {
				return nil
			}
			switch fn {
			case "strings.EqualFold":
				return strings.EqualFold(a, b)
			case "strings.HasPrefix":
				return strings.HasPrefix(a, b)
			case "strings.HasSuffix":
				return strings.HasSuffix(a, b)
			}
			return strings.Contains(a, b)
		case "strings.ToLower":
			if a, ok := str(0); ok {
				return strings.ToLower(a)
			}
		case "strings.ToUpper":
			if a, ok := str(0); ok {
				return strings.ToUpper(a)
			}
		case "strings.TrimSpace":
			if a, ok := str(0); ok {
				return strings.TrimSpace(a)
			}
		case "strings.Split", "strings.SplitN":
			a, ok1 := str(0)
			b, ok2 := str(1)
			if ok1 && ok2 {
				n := -1.0
				if fn == "strings.SplitN" {
					var ok bool
					if n, ok = w.eval(t.Args[2]).(float64); !ok {
						return nil
					}
				}
				l := []any{}
				for _, s := range strings.SplitN(a, b, int(n)) {
					l = append(l, s)
				}
				return l
			}
		case "strings.Cut":
			a, ok1 := str(0)
			b, ok2 := str(1)
			if ok1 && ok2 {
				x, y, f := strings.Cut(a, b)
				return []any{x, y, f}
			}
		case "(~/internal/header.QualityValue).Round":
			v, ok1 := w.eval(t.Args[0]).(float64)
			n, ok2 := w.eval(t.Args[1]).(float64)
			if ok1 && ok2 && n >= 1 && n < 9 {
				return math.Round(v*math.Pow10(int(n))) / math.Pow10(int(n))
			}
		case "path.Dir", "path.Base", "path.Clean":
			if a, ok := str(0); ok {
				return map[string]func(string) string{"path.Dir": path.Dir, "path.Base": path.Base, "path.Clean": path.Clean}[fn](a)
			}
		case "strconv.Itoa":
			if v, ok := w.eval(t.Args[0]).(float64); ok && v == math.Trunc(v) {
				return strconv.Itoa(int(v))
			}
		case "(*net/url.URL).Port", "(net/url.URL).Port", "(*net/url.URL).Hostname", "(net/url.URL).Hostname":
			u := t.Args[0]
			if u.Op == "ptr" {
				u = u.Args[0]
			}
			if h, ok := w.eval(mkField(u, "Host", nil)).(string); ok {
				x := &url.URL{Host: h}
				if strings.HasSuffix(fn, "Port") {
					return x.Port()
				}
				return x.Hostname()
			}
		case "(*net/url.URL).String", "(net/url.URL).String":
			if u := w.url(t.Args[0]); u != nil {
				return u.String()
			}
		case "cmp.Compare":
			a, b := w.eval(t.Args[0]), w.eval(t.Args[1])
			if x, ok := a.(float64); ok {
				if y, ok := b.(float64); ok {
					return float64(cmp.Compare(x, y))
				}
			}
		case "strings.Compare":
			a, ok1 := str(0)
			b, ok2 := str(1)
			if ok1 && ok2 {
				return float64(strings.Compare(a, b))
			}
		// the last value tells whether there is an error.
		case "strconv.Atoi":
			if a, ok := str(0); ok {
				v, err := strconv.Atoi(a)
				return []any{float64(v), err != nil}
			}
		case "strconv.ParseInt", "strconv.ParseUint":
			a, ok := str(0)
			if b, ok2 := w.eval(t.Args[1]).(float64); ok && ok2 {
				if fn == "strconv.ParseInt" {
					v, err := strconv.ParseInt(a, int(b), 64)
					return []any{float64(v), err != nil}
				}
				v, err := strconv.ParseUint(a, int(b), 64)
				return []any{float64(v), err != nil}
			}
		case "strconv.ParseFloat":
			if a, ok := str(0); ok {
				v, err := strconv.ParseFloat(a, 64)
				return []any{v, err != nil}
			}
		case "strconv.QuoteToASCII":
			if a, ok := str(0); ok {
				return strconv.QuoteToASCII(a)
			}
		case "strconv.Unquote":
			if a, ok := str(0); ok {
				v, err := strconv.Unquote(a)
				return []any{v, err != nil}
			}
		case "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ContainsAny", "strings.Index", "strings.IndexByte", "strings.LastIndex", "strings.LastIndexByte":
			a, ok1 := str(0)
			b, ok2 := str(1)
			if v, ok := w.eval(t.Args[1]).(float64); ok && strings.HasSuffix(fn, "IndexByte") {
				b, ok2 = string(rune(int(v))), true
			}
			if !ok1 || !ok2 {
				return nil
			}
			switch fn {
			case "strings.Trim":
				return strings.Trim(a, b)
			case "strings.TrimLeft":
				return strings.TrimLeft(a, b)
			case "strings.TrimRight":
				return strings.TrimRight(a, b)
			case "strings.TrimPrefix":
				return strings.TrimPrefix(a, b)
			case "strings.TrimSuffix":
				return strings.TrimSuffix(a, b)
			case "strings.ContainsAny":
				return strings.ContainsAny(a, b)
			}
			if strings.HasPrefix(fn, "strings.Last") {
				return float64(strings.LastIndex(a, b))
			}
			return float64(strings.Index(a, b))
		case "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).MatchString":
			re := t.Args[0]
			if re.Op == "gval" {
				if v := newEngine(w.P, Cfg{}).staticOf(re); v != nil {
					re = v
				}
			}
			a, ok := str(1)
			if !ok || re.Op != "call" || !isCall(re, "regexp.MustCompile") {
				return nil
			}
			p, ok := re.Args[0].str()
			if !ok {
				return nil
			}
			x, err := regexp.Compile(p)
			if err != nil {
				return nil
			}
			if fn == "(*regexp.Regexp).MatchString" {
				return x.MatchString(a)
			}
			l := []any{}
			for _, s := range x.FindStringSubmatch(a) {
				l = append(l, s)
			}
			return l
		case "strings.ReplaceAll":
			a, ok1 := str(0)
			b, ok2 := str(1)
			x, ok3 := str(2)
			if ok1 && ok2 && ok3 {
				return strings.ReplaceAll(a, b, x)
			}
		case "math.Pow10":
			if n, ok := w.eval(t.Args[0]).(float64); ok {
				return math.Pow10(int(n))
			}
		case "math.Round", "math.Floor", "math.Ceil", "math.Trunc", "math.RoundToEven":
			if v, ok := w.eval(t.Args[0]).(float64); ok {
				return map[string]func(float64) float64{"math.Round": math.Round, "math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.RoundToEven": math.RoundToEven}[fn](v)
			}
		case "math.Abs":
			if v, ok := w.eval(t.Args[0]).(float64); ok {
				return math.Abs(v)
			}
		}
		if isCall(t, "github.com/stretchr/stew/slice.ContainsString") || isCall(t, "slices.Contains") {
			l, ok1 := w.eval(t.Args[0]).([]any)
			v := w.eval(t.Args[1])
			if ok1 && v != nil {
				for _, x := range l {
					if x == v {
						return true
					}
				}
				return false
			}
		}
	case "has":
		if keys, ok := w.keys(t.Args[0]); ok {
			if k, ok := w.eval(t.Args[1]).(string); ok {
				_, in := keys[k]
				return in
			}
		}
	case "lookup":
		if keys, ok := w.keys(t.Args[0]); ok {
			if k, ok := w.eval(t.Args[1]).(string); ok {
				if v, in := keys[k]; in {
					return w.eval(v)
				}
				return w.eval(mkZero(t.Typ))
			}
		}
	}
	return nil
}

// keys are the entries of a map built of literals.
func (w *World) keys(m *Term) (map[string]*Term, bool) {
	if m.Op == "gval" {
		if v := newEngine(w.P, Cfg{}).staticOf(m); v != nil && v != m {
			return w.keys(v)
		}
	}
	switch m.Op {
	case "mkmap":
		return map[string]*Term{}, true
	case "mapset":
		k, ok := m.Args[1].str()
		if !ok {
			return nil, false
		}
		r, ok := w.keys(m.Args[0])
		if !ok {
			return nil, false
		}
		r[k] = m.Args[2]
		return r, true
	}
	return nil, false
}

// holds is the truth of a condition: 1, 0, or -1 if it is not determined.
func (w *World) holds(t *Term) int {
	if t.isTrue() {
		return 1
	}
	if t.isFalse() {
		return 0
	}
	if w.more != nil {
		if h := w.more(t); h >= 0 {
			return h
		}
	}
	if t.Op == "not" {
		if h := w.holds(t.Args[0]); h >= 0 {
			return 1 - h
		}
		return -1
	}
	if b, ok := w.eval(t).(bool); ok {
		return b2i(b)
	}
	return -1
}

// fits reports whether a path applies to the world: 1, 0, or -1 with the
// condition that is not determined. Conditions that skip reports are left out.
func (w *World) fits(o *Outcome, skip func(t *Term) bool) (int, *Term) {
	var un *Term
	for _, l := range o.St.order {
		if skip != nil && skip(l.Atom) {
			continue
		}
		h := w.holds(l.Atom)
		if h < 0 {
			un = l.Atom
			continue
		}
		if (h == 1) != l.Pol {
			return 0, nil
		}
	}
	if un != nil {
		return -1, un
	}
	return 1, nil
}

var nameRe = regexp.MustCompile("^[\\w.~+^&%$#'|`-]+$")

// namesAbout are names that the constants within the terms may tell from
// others: those that start and end with a character of one, and those of a
// length next to one.
func namesAbout(ts []*Term) []string {
	out := map[string]bool{}
	for _, t := range ts {
		t.any(func(x *Term) bool {
			if x.Op != "const" {
				return false
			}
			if s, ok := x.str(); ok {
				for _, c := range s {
					if c < 128 && (unicode.IsLetter(c) || unicode.IsDigit(c) || strings.ContainsRune("-._~+^&%$#'|`", c)) {
						out[string(c)+"nx"+string(c)] = true
						out[string(c)] = true
					}
				}
				if nameRe.MatchString(s) && len(s) < 64 {
					for _, n := range []string{s, s + "nx", "nx" + s, "nx" + s + "nx"} {
						out[n] = true
					}
				}
			} else if n, ok := x.intv(); ok && n > 0 && n < 64 {
				for _, k := range []int64{n - 1, n, n + 1} {
					if k > 0 {
						out["n"+strings.Repeat("m", int(k-1))] = true
						out[strings.Repeat("m", int(k-1))+"n"] = true
					}
				}
			}
			return false
		})
	}
	return sortedKeys(out)
}

// about are the terms that the outcomes are decided by and made of.
func about(outs []Outcome) []*Term {
	var ts []*Term
	for i := range outs {
		ts = append(append(ts, outs[i].Ret...), litAtoms(outs[i].St.order)...)
	}
	return ts
}

// textsAbout are texts, made of a name, that the constants may tell from
// others: made of such names, or of the lengths mentioned.
func textsAbout(ts []*Term, mk func(name string) string) []string {
	out := map[string]bool{}
	for _, n := range namesAbout(ts) {
		out[mk(n)] = true
	}
	rest := len(mk(""))
	for _, t := range ts {
		t.any(func(x *Term) bool {
			if n, ok := x.intv(); ok && n > 0 && n < 256 {
				for _, k := range []int{int(n) - 1, int(n), int(n) + 1} {
					if k > rest {
						out[mk("n"+strings.Repeat("m", k-rest-1))] = true
					}
				}
			}
			return false
		})
	}
	return sortedKeys(out)
}

// numbersAbout are natural numbers around the constants mentioned.
func numbersAbout(ts []*Term) []string {
	out := map[string]bool{}
	for _, t := range ts {
		t.any(func(x *Term) bool {
			if x.Op == "const" && x.Lit != nil && (x.Lit.Kind() == constant.Float || x.Lit.Kind() == constant.Int) {
				v, _ := constant.Float64Val(x.Lit)
				for d := -1.0; d <= 1 && math.Abs(v) < 1e9; d++ {
					if w := math.Trunc(v) + d; w >= 0 {
						out[strconv.Itoa(int(w))] = true
					}
				}
			}
			return false
		})
	}
	return sortedKeys(out)
}

// weightsAbout are weights around the constants mentioned, besides those
// given.
func weightsAbout(ts []*Term, ws ...float64) []float64 {
	seen := map[float64]bool{}
	for _, w := range ws {
		seen[w] = true
	}
	for _, t := range ts {
		t.any(func(x *Term) bool {
			if x.Op == "const" && x.Lit != nil && (x.Lit.Kind() == constant.Float || x.Lit.Kind() == constant.Int) {
				v, _ := constant.Float64Val(x.Lit)
				for _, w := range []float64{v - 0.001, v, v + 0.001} {
					if w = math.Round(w*1000) / 1000; w >= 0 && w <= 1 && !seen[w] {
						seen[w] = true
						ws = append(ws, w)
					}
				}
			}
			return false
		})
	}
	return ws
}

// url is the URL that a term stands for.
func (w *World) url(t *Term) *url.URL {
	if t.Op == "ptr" {
		t = t.Args[0]
	}
	u := &url.URL{}
	for f, p := range map[string]*string{"Scheme": &u.Scheme, "Host": &u.Host, "Path": &u.Path, "RawPath": &u.RawPath, "RawQuery": &u.RawQuery, "Fragment": &u.Fragment, "RawFragment": &u.RawFragment, "Opaque": &u.Opaque} {
		v, ok := w.eval(mkField(t, f, nil)).(string)
		if !ok {
			return nil
		}
		*p = v
	}
	for f, p := range map[string]*bool{"ForceQuery": &u.ForceQuery, "OmitHost": &u.OmitHost} {
		h := w.holds(mkField(t, f, nil))
		if h < 0 {
			return nil
		}
		*p = h == 1
	}
	if v := mkField(t, "User", nil); !v.isNil() && w.eval(v) == nil {
		return nil
	}
	return u
}
