package main

import (
	"math"

	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a provenance term: where a value comes from, up to renaming of
// locals, helpers and temporaries. Terms are hash-consed, so equal terms are
// the same pointer.
//
//	const    literal (Lit) or "nil"
//	param    parameter Aux of the analysed root
//	global   address of a package variable
//	gval     the value a package variable keeps for the whole run
//	fn       function; closure: function with bindings Args
//	obj      address of a local object
//	faddr    address of field Aux of the struct at Args[0]
//	iaddr    address of element Args[1] of the array or slice Args[0]
//	deref    what the pointer Args[0] points to
//	field    field Aux of Args[0]
//	index    element Args[1] of Args[0]; lookup: map value; has: map presence
//	len      length
//	list     slice with exactly the elements Args
//	append   Args[0] followed by the elements of Args[1]
//	call     result of the call Aux; res: one of several results
//	struct   struct value of type Aux with the field values Args
//	mk       interface holding the value Args[0] of type Aux
//	sym      value unknown to the analysis
//	fold     value after a loop; Aux is the id of the fold
type Term struct {
	Op   string
	Aux  string
	Args []*Term
	Typ  types.Type
	Fn   *ssa.Function
	Lit  constant.Value
	id   int
}

type Terms struct {
	tab   map[string]*Term
	n     int
	folds map[string]*Fold
}

var tt = &Terms{tab: map[string]*Term{}, folds: map[string]*Fold{}}

func raw(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	if typ != nil && (op == "param" || op == "sym") {
		sb.WriteByte(':')
		sb.WriteString(types.TypeString(typ, nil))
	}
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := tt.tab[k]; ok {
		if t.Typ == nil {
			t.Typ = typ
		}
		return t
	}
	tt.n++
	t := &Term{Op: op, Aux: aux, Args: args, Typ: typ, id: tt.n}
	tt.tab[k] = t
	return t
}

func tConst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return tNil
	}
	// integers and floats of equal value are the same literal.
	k := v.Kind().String()
	s := v.ExactString()
	if v.Kind() == constant.Int || v.Kind() == constant.Float {
		k = "num"
		if f := constant.ToInt(v); f.Kind() == constant.Int {
			s = f.ExactString()
			v = f
		}
	}
	t := raw("const", k+":"+s, typ)
	t.Lit = v
	return t
}

var tNil = raw("const", "nil", nil)

func tInt(n int64) *Term  { return tConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func tStr(s string) *Term { return tConst(constant.MakeString(s), types.Typ[types.String]) }
func tBool(b bool) *Term  { return tConst(constant.MakeBool(b), types.Typ[types.Bool]) }

func (t *Term) isConst() bool { return t.Op == "const" }
func (t *Term) isNil() bool   { return t.Op == "const" && t.Aux == "nil" }
func (t *Term) isTrue() bool {
	return t.Op == "const" && t.Lit != nil && t.Lit.Kind() == constant.Bool && constant.BoolVal(t.Lit)
}
func (t *Term) isFalse() bool {
	return t.Op == "const" && t.Lit != nil && t.Lit.Kind() == constant.Bool && !constant.BoolVal(t.Lit)
}
func (t *Term) str() (string, bool) {
	if t.Op == "const" && t.Lit != nil && t.Lit.Kind() == constant.String {
		return constant.StringVal(t.Lit), true
	}
	return "", false
}
func (t *Term) intv() (int64, bool) {
	if t.Op == "const" && t.Lit != nil && t.Lit.Kind() == constant.Int {
		return constant.Int64Val(t.Lit)
	}
	return 0, false
}

// strip removes interface boxing.
func (t *Term) strip() *Term {
	for t.Op == "mk" {
		t = t.Args[0]
	}
	return t
}

func (t *Term) String() string { return t.show(0) }

func (t *Term) show(d int) string {
	if d > 7 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.show(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		if t.Lit != nil {
			return t.Lit.String()
		}
		return t.Aux
	case "param", "gval", "sym":
		return t.Aux
	case "global":
		return "&" + t.Aux
	case "obj":
		return "&" + t.Aux
	case "fn":
		return t.Aux
	case "closure":
		return "closure " + t.Fn.Name()
	case "field":
		return t.Args[0].show(d+1) + "." + t.Aux
	case "faddr":
		return "&" + t.Args[0].show(d+1) + "." + t.Aux
	case "index", "iaddr":
		return t.Args[0].show(d+1) + "[" + t.Args[1].show(d+1) + "]"
	case "lookup":
		return t.Args[0].show(d+1) + "[" + t.Args[1].show(d+1) + "]"
	case "deref":
		return "*" + t.Args[0].show(d+1)
	case "mk":
		return t.Args[0].show(d + 1)
	case "res":
		return t.Args[0].show(d+1) + "#" + t.Aux
	case "call":
		return t.Aux + "(" + args() + ")"
	case "bin":
		return "(" + t.Args[0].show(d+1) + " " + t.Aux + " " + t.Args[1].show(d+1) + ")"
	case "fold":
		return "fold" + t.Aux
	case "list":
		return "[" + args() + "]"
	case "struct":
		return "{" + args() + "}"
	}
	return t.Op + t.Aux + "(" + args() + ")"
}

// contains reports whether sub occurs in t.
func (t *Term) contains(sub *Term) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == sub {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// any reports whether some subterm satisfies f.
func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// subst replaces terms, rebuilding with simplification.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "bin":
		return mkBin(t.Aux, args[0], args[1], t.Typ)
	case "not":
		return mkNot(args[0])
	case "len":
		return mkLen(args[0])
	case "field":
		return mkField(args[0], t.Aux, t.Typ)
	case "index":
		return mkIndex(args[0], args[1], t.Typ)
	case "append":
		return mkAppend(args[0], args[1], t.Typ)
	case "call":
		return mkCall(t.Aux, t.Typ, args...)
	case "res":
		return mkRes(args[0], t.Aux, t.Typ)
	}
	r := raw(t.Op, t.Aux, t.Typ, args...)
	r.Fn, r.Lit = t.Fn, t.Lit
	return r
}

func mkNot(t *Term) *Term {
	if t.Op == "not" {
		return t.Args[0]
	}
	if t.isTrue() {
		return tBool(false)
	}
	if t.isFalse() {
		return tBool(true)
	}
	return raw("not", "", types.Typ[types.Bool], t)
}

func mkLen(t *Term) *Term {
	t = t.strip()
	switch t.Op {
	case "list":
		return tInt(int64(len(t.Args)))
	case "const":
		if t.isNil() {
			return tInt(0)
		}
		if s, ok := t.str(); ok {
			return tInt(int64(len(s)))
		}
	case "append":
		return mkBin("+", mkLen(t.Args[0]), mkLen(t.Args[1]), types.Typ[types.Int])
	case "sorted", "upd":
		return mkLen(t.Args[0])
	case "mkslice":
		return t.Args[0]
	case "array":
		return tInt(int64(len(t.Args)))
	case "maplit":
		return tInt(int64(len(t.Args) / 2))
	case "conv":
		if isString(t.Typ) || isByteSlice(t.Typ) {
			if isString(t.Args[0].Typ) || isByteSlice(t.Args[0].Typ) {
				return mkLen(t.Args[0])
			}
		}
	}
	return raw("len", "", types.Typ[types.Int], t)
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// floats reports whether t is a variable floating point number. The type of a
// literal says nothing, because literals are shared.
func (t *Term) floats() bool { return !t.isConst() && isFloat(t.Typ) }

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func mkField(base *Term, name string, typ types.Type) *Term {
	switch base.Op {
	case "struct":
		if s := structOf(base.Typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					return base.Args[i]
				}
			}
		}
	case "zero":
		return mkZero(typ)
	}
	return raw("field", name, typ, base)
}

// mkSetField is the struct base with the field replaced.
func mkSetField(base *Term, st types.Type, name string, v *Term) *Term {
	s := structOf(st)
	if s == nil {
		return raw("setfield", name, st, base, v)
	}
	args := make([]*Term, s.NumFields())
	for i := range args {
		f := s.Field(i)
		if f.Name() == name {
			args[i] = v
		} else {
			args[i] = mkField(base, f.Name(), f.Type())
		}
	}
	return mkStruct(st, args)
}

func mkStruct(st types.Type, args []*Term) *Term {
	s := structOf(st)
	// a struct made of all the fields of another is that other one.
	if len(args) > 0 && args[0].Op == "field" {
		base := args[0].Args[0]
		same := true
		for i, a := range args {
			if a.Op != "field" || a.Args[0] != base || a.Aux != s.Field(i).Name() {
				same = false
				break
			}
		}
		if same && base.Typ != nil && types.Identical(base.Typ.Underlying(), st.Underlying()) {
			return base
		}
	}
	return raw("struct", types.TypeString(st.Underlying(), nil), st, args...)
}

func mkZero(t types.Type) *Term {
	if t == nil {
		return raw("zero", "?", nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsBoolean != 0:
			return tBool(false)
		case u.Info()&types.IsNumeric != 0:
			return tInt(0)
		}
		return tNil
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = mkZero(u.Field(i).Type())
		}
		return mkStruct(t, args)
	case *types.Array:
		if u.Len() <= 64 {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = mkZero(u.Elem())
			}
			return raw("array", "", t, args...)
		}
		return raw("zero", types.TypeString(t, nil), t)
	}
	return tNil
}

func mkIndex(base, idx *Term, typ types.Type) *Term {
	if n, ok := idx.intv(); ok && (base.Op == "list" || base.Op == "array") {
		if n >= 0 && int(n) < len(base.Args) {
			return base.Args[n]
		}
	}
	if base.Op == "upd" && base.Args[1] == idx {
		return base.Args[2]
	}
	if base.Op == "upd" {
		a, ok := base.Args[1].intv()
		b, ok2 := idx.intv()
		if ok && ok2 && a != b {
			return mkIndex(base.Args[0], idx, typ)
		}
	}
	// strings.Split(s, sep)[0] is what precedes the first separator.
	if n, ok := idx.intv(); ok && n == 0 && base.Op == "call" &&
		(base.Aux == "strings.Split" || base.Aux == "strings.SplitN") {
		if base.Aux == "strings.Split" {
			return mkRes(mkCall("strings.Cut", nil, base.Args[0], base.Args[1]), "0", typ)
		}
		if k, ok := base.Args[2].intv(); ok && k != 0 && k != 1 {
			return mkRes(mkCall("strings.Cut", nil, base.Args[0], base.Args[1]), "0", typ)
		}
	}
	return raw("index", "", typ, base, idx)
}

func mkAppend(base, elems *Term, typ types.Type) *Term {
	if elems.isNil() || (elems.Op == "list" && len(elems.Args) == 0) {
		return base
	}
	if base.isNil() || (base.Op == "list" && len(base.Args) == 0) {
		if elems.Op == "list" {
			return elems
		}
		if base.Op == "list" && base.Aux == "reuse" {
			return raw("append", "", typ, base, elems)
		}
		return raw("append", "", typ, raw("list", "", typ), elems)
	}
	if base.Op == "list" && elems.Op == "list" {
		return raw("list", "", typ, append(append([]*Term{}, base.Args...), elems.Args...)...)
	}
	return raw("append", "", typ, base, elems)
}

func mkRes(c *Term, i string, typ types.Type) *Term {
	if c.Op == "tuple" {
		n, _ := strconv.Atoi(i)
		return c.Args[n]
	}
	if i == "1" && c.Op == "call" {
		key, _, _ := strings.Cut(c.Aux, "#")
		switch key {
		case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteRune", "(*strings.Builder).Write", "(*strings.Builder).WriteString", "(*strings.Builder).WriteRune":
			// these always succeed.
			return tNil
		}
	}
	return raw("res", i, typ, c)
}

// mkCall is the result of a call whose value depends on nothing but its
// arguments.
func mkCall(key string, typ types.Type, args ...*Term) *Term {
	switch key {
	case "strings.TrimSuffix":
		if j := untrailed(args[0], args[1]); j != nil {
			return j
		}
	case "strings.EqualFold":
		a, b := foldCase(args[0]), foldCase(args[1])
		if a == b {
			return tBool(true)
		}
		if x, ok := a.str(); ok {
			if y, ok := b.str(); ok {
				return tBool(strings.EqualFold(x, y))
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
		return raw("call", key, types.Typ[types.Bool], a, b)
	case "strings.Join":
		if args[0].Op == "list" {
			if len(args[0].Args) == 0 {
				return tStr("")
			}
			var out *Term
			for i, a := range args[0].Args {
				if i == 0 {
					out = a
					continue
				}
				out = mkBin("+", out, mkBin("+", args[1], a, types.Typ[types.String]), types.Typ[types.String])
			}
			return out
		}
	case "strings.ToLower":
		if s, ok := args[0].str(); ok {
			return tStr(strings.ToLower(s))
		}
		if args[0].Op == "call" && args[0].Aux == "strings.ToLower" {
			return args[0]
		}
	case "strings.ToUpper":
		if s, ok := args[0].str(); ok {
			return tStr(strings.ToUpper(s))
		}
	case "strings.Contains":
		if s, ok := args[1].str(); ok && s == "" {
			return tBool(true)
		}
	case "strconv.FormatInt", "strconv.FormatUint":
		if n, ok := args[1].intv(); ok && n == 10 {
			return raw("call", "strconv.Itoa", types.Typ[types.String], unconvInt(args[0]))
		}
	case "strconv.Itoa":
		args = []*Term{unconvInt(args[0])}
	case "fmt.Sprint":
		if len(args) == 1 && args[0].Op == "list" && len(args[0].Args) == 1 {
			a := args[0].Args[0].strip()
			if isInt(a.Typ) {
				return mkCall("strconv.Itoa", types.Typ[types.String], a)
			}
			if b, ok := a.Typ.(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return a
			}
		}
	case "fmt.Sprintf":
		if r := sprintf(args); r != nil {
			return r
		}
	case "net/textproto.CanonicalMIMEHeaderKey", "net/http.CanonicalHeaderKey":
		if s, ok := args[0].str(); ok {
			return tStr(canonicalKey(s))
		}
	case "math.Abs":
		if args[0].Op == "call" && args[0].Aux == "math.Abs" {
			return args[0]
		}
	}
	return raw("call", key, typ, args...)
}

func foldCase(t *Term) *Term {
	t = t.strip()
	if t.Op == "call" && (t.Aux == "strings.ToLower" || t.Aux == "strings.ToUpper") {
		return foldCase(t.Args[0])
	}
	return t
}

func unconvInt(t *Term) *Term {
	t = t.strip()
	for t.Op == "conv" && isInt(t.Typ) && isInt(t.Args[0].Typ) {
		t = t.Args[0]
	}
	return t
}

func canonicalKey(s string) string {
	b := []byte(s)
	up := true
	for i, c := range b {
		if up && 'a' <= c && c <= 'z' {
			c -= 'a' - 'A'
		} else if !up && 'A' <= c && c <= 'Z' {
			c += 'a' - 'A'
		}
		b[i] = c
		up = c == '-'
	}
	return string(b)
}

// sprintf turns formatting with only %s and %d verbs into a concatenation.
func sprintf(args []*Term) *Term {
	f, ok := args[0].str()
	if !ok || len(args) < 2 || args[1].Op != "list" {
		if ok && len(args) > 1 && args[1].isNil() && !strings.Contains(f, "%") {
			return tStr(f)
		}
		return nil
	}
	var out *Term
	add := func(t *Term) {
		if out == nil {
			out = t
		} else {
			out = mkBin("+", out, t, types.Typ[types.String])
		}
	}
	k := 0
	lit := ""
	flush := func() {
		if lit != "" {
			add(tStr(lit))
			lit = ""
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if k >= len(args[1].Args) {
			return nil
		}
		a := args[1].Args[k].strip()
		k++
		switch f[i] {
		case 'd':
			if !isInt(a.Typ) {
				return nil
			}
			flush()
			add(mkCall("strconv.Itoa", types.Typ[types.String], a))
		case 's', 'v':
			b, ok := a.Typ.(*types.Basic)
			if !ok || b.Info()&types.IsString == 0 {
				return nil
			}
			flush()
			add(a)
		default:
			return nil
		}
	}
	flush()
	if k != len(args[1].Args) || out == nil {
		return nil
	}
	return out
}

// mkBin builds an arithmetic or comparison term in normal form.
func mkBin(op string, a, b *Term, typ types.Type) *Term {
	bt := types.Typ[types.Bool]
	switch op {
	case "!=":
		return mkNot(mkBin("==", a, b, bt))
	case ">":
		return mkBin("<", b, a, bt)
	case ">=":
		return mkBin("<=", b, a, bt)
	}
	ac, bc := a.Lit, b.Lit
	if a.Op == "const" && b.Op == "const" && ac != nil && bc != nil && ac.Kind() == bc.Kind() || bothNum(ac, bc) {
		switch op {
		case "==", "<", "<=":
			tok := map[string]int{"==": 0, "<": 1, "<=": 2}[op]
			return tBool(cmpConst(ac, bc, tok))
		case "+", "-", "*":
			if r := arith(op, ac, bc); r != nil {
				return tConst(r, typ)
			}
		}
	}
	switch op {
	case "==":
		a, b = a.strip2(), b.strip2()
		if a == b && !isFloat(a.Typ) {
			return tBool(true)
		}
		if a.isNil() {
			a, b = b, a
		}
		if b.isNil() && neverNil(a) {
			return tBool(false)
		}
		if a.isTrue() || a.isFalse() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return mkNot(a)
		}
		if a.isConst() && !b.isConst() {
			a, b = b, a
		}
		// x+c == d
		if a.Op == "bin" && a.Aux == "+" && b.isConst() {
			if c, ok := a.Args[1].intv(); ok {
				if d, ok := b.intv(); ok {
					return mkBin("==", a.Args[0], tInt(d-c), bt)
				}
			}
		}
		if s, ok := b.str(); ok {
			if s == "" {
				return mkBin("==", mkLen(a), tInt(0), bt)
			}
			if a.Op == "call" && a.Aux == "strings.ToLower" {
				if strings.ToLower(s) != s {
					return tBool(false)
				}
				return mkCall("strings.EqualFold", bt, a.Args[0], b)
			}
			if a.Op == "call" && a.Aux == "strings.ToUpper" {
				if strings.ToUpper(s) != s {
					return tBool(false)
				}
				return mkCall("strings.EqualFold", bt, a.Args[0], b)
			}
		}
		if a.Op == "call" && b.Op == "call" && a.Aux == b.Aux && (a.Aux == "strings.ToLower" || a.Aux == "strings.ToUpper") {
			return mkCall("strings.EqualFold", bt, a, b)
		}
		// strings.Compare and friends
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
		return raw("bin", "==", bt, a, b)
	case "<":
		if a.floats() || b.floats() {
			return raw("bin", "<", bt, a, b)
		}
		if a == b {
			return tBool(false)
		}
		if c, ok := b.intv(); ok {
			return mkLtc(a, c)
		}
		if c, ok := a.intv(); ok {
			if c == math.MaxInt64 {
				return tBool(false)
			}
			return mkNot(mkLtc(b, c+1))
		}
		return raw("bin", "<", bt, a, b)
	case "<=":
		if a.floats() || b.floats() {
			return raw("bin", "<=", bt, a, b)
		}
		return mkNot(mkBin("<", b, a, bt))
	case "+":
		if isString(typ) {
			if s, ok := a.str(); ok && s == "" {
				return b
			}
			if s, ok := b.str(); ok && s == "" {
				return a
			}
			// right-nested concatenation, with adjacent literals joined.
			if a.Op == "bin" && a.Aux == "+" {
				return mkBin("+", a.Args[0], mkBin("+", a.Args[1], b, typ), typ)
			}
			if s, ok := a.str(); ok && b.Op == "bin" && b.Aux == "+" {
				if s2, ok := b.Args[0].str(); ok {
					return mkBin("+", tStr(s+s2), b.Args[1], typ)
				}
			}
			return raw("bin", "+", typ, a, b)
		}
		if a.isConst() && !b.isConst() {
			a, b = b, a
		}
		if c, ok := b.intv(); ok && !isFloat(typ) {
			if c == 0 {
				return a
			}
			if a.Op == "bin" && a.Aux == "+" {
				if d, ok := a.Args[1].intv(); ok {
					return mkBin("+", a.Args[0], tInt(c+d), typ)
				}
			}
		} else if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
		return raw("bin", "+", typ, a, b)
	case "-":
		if c, ok := b.intv(); ok && !isFloat(typ) {
			return mkBin("+", a, tInt(-c), typ)
		}
		if a == b && isInt(typ) {
			return tInt(0)
		}
	case "*":
		if a.isConst() && !b.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
		if n, ok := b.intv(); ok && n == 1 {
			return a
		}
	case "&&":
		if a.isFalse() || b.isFalse() {
			return tBool(false)
		}
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
	case "&", "|", "^":
		if isBool(typ) {
			// non-short-circuit boolean operators on go bools don't exist.
			break
		}
	}
	return raw("bin", op, typ, a, b)
}

func (t *Term) strip2() *Term {
	if t.Op == "mk" {
		return t // boxing matters against nil only, handled by neverNil
	}
	return t
}

func mkLtc(a *Term, c int64) *Term {
	bt := types.Typ[types.Bool]
	if a.Op == "bin" && a.Aux == "+" {
		if d, ok := a.Args[1].intv(); ok {
			return mkLtc(a.Args[0], c-d)
		}
	}
	if v, ok := a.intv(); ok {
		return tBool(v < c)
	}
	if nonNeg(a) {
		if c <= 0 {
			return tBool(false)
		}
		if c == 1 {
			return mkBin("==", a, tInt(0), bt)
		}
	}
	return raw("bin", "<", bt, a, tInt(c))
}

func nonNeg(t *Term) bool {
	return t.Op == "len" || t.Op == "idx"
}

func bothNum(a, b constant.Value) bool {
	if a == nil || b == nil {
		return false
	}
	n := func(v constant.Value) bool { return v.Kind() == constant.Int || v.Kind() == constant.Float }
	return n(a) && n(b)
}

func neverNil(t *Term) bool {
	switch t.Op {
	case "mk", "obj", "closure", "fn", "global", "faddr", "iaddr", "struct", "list", "maplit", "mkmap", "mkslice":
		return true
	case "const":
		return !t.isNil()
	case "call":
		switch t.Aux {
		case "errors.New", "fmt.Errorf":
			return true
		}
		if strings.HasPrefix(t.Aux, "errors.New#") || strings.HasPrefix(t.Aux, "fmt.Errorf#") {
			return true
		}
	case "append":
		return true
	case "gval":
		return errGlobal[t.Aux]
	}
	return false
}

// errGlobal holds the package variables initialized to something not nil.
var errGlobal = map[string]bool{}

func show(ts []*Term) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.String())
	}
	return fmt.Sprint(s)
}
