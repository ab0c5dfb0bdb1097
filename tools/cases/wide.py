AL = "internal/header/alternates.go"
TC = "internal/header/tcn.go"
NG = "internal/header/negotiate.go"
ND = "internal/header/negotiate_directive.go"
BU = "internal/representation/builder.go"
SE = "representation/set.go"
PO = "proactive/proactive_options.go"
TO = "transparent/transparent_options.go"
RO = "reactive/reactive_options.go"
CC = "internal/header/content_coding_range.go"
LR = "internal/header/language_range.go"
AE = "internal/header/accept_encoding.go"
AC = "internal/header/accept_charset.go"
src = {f: open("/repo/" + f).read() for f in (AL, TC, NG, ND, SE, PO, TO, CC, LR, AE)}


def cut(f, a, b):
    s = src[f]
    i = s.index(a)
    return s[i:s.index(b, i)]


alFor = cut(AL, "	var descriptions []variantDescription\n	for", "	var fallback")
alFb = cut(AL, "	var fallback *variantFallback\n	if fb", "}\n\n// HasFallback")
alAttr = cut(AL, "	// sort the keys", "}\n\n// variantDescription represents")
alVals = cut(AL, "	s := []string{}\n", "}\n\n// ValuesAsString provides a single")
tcNew = cut(TC, "	if len(values) == 0 {", "}\n\n// String provides the textual representation of the TCN header")
tcVals = cut(TC, "	var s []string\n	for _, v", "}\n\n// ValuesAsString provides a single")
ngNew = cut(NG, "	var dirs", "}\n\n// Directives")
ngCont = cut(NG, "	for _, dir := range directives", "}\n\n// ContainsRVSA")
ngRvsa = cut(NG, "	for _, d := range n.Directives() {\n		rvsa", "}\n\n// String")
where = cut(SE, "	var matched", "}\n\n// AsSlice")
strict = cut(PO, "			o.StrictAccept = false\n			o", "		}\n	}\n\n	// Algorithm")
maxv = cut(TO, "	MaximumVariantListSize = func", "	// RVSA defines")
ccNew = cut(CC, "	if len(contentCoding) == 0", "}\n\n// IsWildcard")
ccComp = cut(CC, "	if !slice.ContainsString(contentCodings, strings.ToLower(coding)) {", "}\n\n// QualityValue retrieves")
lrNew = cut(LR, "	parts := strings.Split", "}\n\n// IsWildcard")
lrComp = cut(LR, "	_, err := language.Parse(tag)", "}\n\n// String")
aeSort = cut(AE, "	sort.Slice(e", "}\n\n// IsEmpty")
aeNew = cut(AE, "	if len(acceptEncoding) == 0", "}\n\n// Codings provides")

CASES = [
    # Alternates.
    ("SAME", "al-index", "*", [(AL, alFor, """	descriptions := make([]variantDescription, len(reps))
	for i := range reps {
		d, err := describe(reps[i])
		if err != nil {
			return Alternates{}, err
		}
		descriptions[i] = d
	}
"""), (AL, "// HasFallback indicates", """// describe makes the description of a variant.
func describe(rep representation.Representation) (d variantDescription, err error) {
	var b []byte
	if b, err = rep.Bytes(); err != nil {
		return
	}
	d.uri = rep.ContentLocation()
	d.sourceQuality = rep.SourceQuality()
	d.attributes = variantAttributes{}
	d.attributes[variantAttributeType] = rep.ContentType()
	d.attributes[variantAttributeCharset] = rep.ContentCharset()
	d.attributes[variantAttributeLanguage] = rep.ContentLanguage()
	d.attributes[variantAttributeFeatures] = strings.Join(rep.ContentFeatures(), " ")
	d.attributes[variantAttributeLength] = len(b)
	return
}

// HasFallback indicates""")]),
    ("SAME", "al-early", "*", [(AL, alFb, """	if fb == nil {
		return Alternates{descriptions: descriptions}, nil
	}
	vf := variantFallback(fb.ContentLocation())
	return Alternates{descriptions: descriptions, fallback: &vf}, nil
""")]),
    ("SAME", "al-result", "*", [(AL, alFb, """	a := Alternates{descriptions: descriptions}
	if fb != nil {
		a.fallback = new(variantFallback)
		*a.fallback = variantFallback(fb.ContentLocation())
	}
	return a, nil
""")]),
    ("SAME", "al-attrs", "*", [(AL, alAttr, """	keys := make([]string, 0, len(a))
	for k := range a {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	var b strings.Builder
	for i, k := range keys {
		if i > 0 {
			b.WriteString(" ")
		}
		fmt.Fprintf(&b, "{ %s %v }", k, a[k])
	}
	return b.String()
""")]),
    ("SAME", "al-attrs2", "*", [(AL, alAttr, """	parts := make([]string, len(a))
	for i, k := range slices.Sorted(maps.Keys(a)) {
		parts[i] = fmt.Sprintf("{ %s %v }", k, a[k])
	}
	return strings.Join(parts, " ")
"""), (AL, '	"sort"\n', '	"maps"\n	"slices"\n')]),
    ("SAME", "al-vals", "*", [(AL, alVals, """	values := make([]string, 0, len(a.descriptions)+1)
	for i := range a.descriptions {
		values = append(values, a.descriptions[i].String())
	}
	if fb := a.fallback; fb != nil {
		values = append(values, fb.String())
	}
	return values
""")]),
    ("SAME", "al-concat", "*", [(AL, """	return fmt.Sprintf("%s: %s", headerAlternates, a.ValuesAsString())
""", """	return headerAlternates + ": " + a.ValuesAsString()
"""), (AL, """	return fmt.Sprintf("{ %q }", u.String())
""", """	return "{ " + fmt.Sprintf("%q", u.String()) + " }"
""")]),
    ("BUG", "al-last", "*", [(AL, "	for _, d := range a.descriptions {\n		s = append(s, d.String())\n	}\n	if a.HasFallback() {", "	for _, d := range a.descriptions {\n		s = append(s, d.String())\n	}\n	if a.HasFallback() && len(s) > 1 {")]),
    ("BUG", "al-skiperr", "*", [(AL, "			return Alternates{}, err\n		}\n		descriptions", "			continue\n		}\n		descriptions")]),
    ("BUG", "al-q", "*", [(AL, '%q %.3f %s', '%q %.1f %s')]),
    ("BUG", "al-fb", "*", [(AL, "variantFallback(fb.ContentLocation())", "variantFallback(reps[len(reps)-1].ContentLocation())")]),
    ("BUG", "al-feat", "*", [(AL, 'strings.Join(rep.ContentFeatures(), " ")', 'strings.Join(rep.ContentEncoding(), " ")')]),
    # TCN.
    ("SAME", "tc-new", "*", [(TC, tcNew, """	t := make(TCN, 0, len(values))
	for i := 0; i < len(values); i++ {
		v, err := NewTCNValue(values[i])
		if err != nil {
			return EmptyTCN, err
		}
		t = append(t, v)
	}
	return t, nil
""")]),
    ("SAME", "tc-vals", "*", [(TC, tcVals, """	s := make([]string, len(t))
	for i, v := range t {
		s[i] = string(v)
	}
	return s
""")]),
    ("SAME", "tc-string", "*", [(TC, '	return fmt.Sprintf("%s: %s", headerTCN, t.ValuesAsString())\n', """	var b strings.Builder
	b.WriteString(headerTCN)
	b.WriteString(": ")
	b.WriteString(strings.Join(t.ValuesAsStrings(), ","))
	return b.String()
"""), (TC, '	"fmt"\n', '')]),
    # Negotiate.
    ("SAME", "ng-new", "*", [(NG, ngNew, """	els := elements(directives)
	n := make(Negotiate, 0, len(els))
	for _, e := range els {
		d, err := NewNegotiateDirective(e)
		if err != nil {
			return EmptyNegotiateHeader, err
		}
		n = append(n, d)
	}
	return n, nil
""")]),
    ("SAME", "ng-cont", "*", [(NG, ngCont, """	for _, d := range n {
		for _, dir := range directives {
			if strings.EqualFold(string(dir), string(d)) {
				return true
			}
		}
	}
	return false
""")]),
    ("SAME", "ng-cont2", "*", [(NG, ngCont, """	return slices.ContainsFunc(directives, func(dir NegotiateDirective) bool {
		return slices.ContainsFunc(n, func(d NegotiateDirective) bool {
			return strings.EqualFold(d.String(), dir.String())
		})
	})
"""), (NG, '	"fmt"\n', '	"fmt"\n	"slices"\n')]),
    ("SAME", "ng-rvsa", "*", [(NG, ngRvsa, """	for _, d := range n {
		if !d.IsRVSAVersion() {
			continue
		}
		if strings.EqualFold(version, d.String()) {
			return true
		}
	}
	return false
""")]),
    ("SAME", "ng-rvsa2", "*", [(NG, ngRvsa, """	for i := len(n) - 1; i >= 0 && !matches; i-- {
		matches = strings.EqualFold(version, string(n[i])) && n[i].IsRVSAVersion()
	}
	return matches
""")]),
    ("SAME", "ng-rvsa3", "*", [(NG, ngRvsa, """	for i := 0; i < len(n) && !matches; i++ {
		matches = strings.EqualFold(version, string(n[i])) && n[i].IsRVSAVersion()
	}
	return matches
""")]),
    ("SAME", "ng-rvsa4", "*", [(NG, ngRvsa, """	for i := len(n) - 1; i >= 0; i-- {
		if strings.EqualFold(version, string(n[i])) && n[i].IsRVSAVersion() {
			return true
		}
	}
	return false
""")]),
    ("SAME", "nd-parse", "*", [(ND, """	_, err := strconv.ParseFloat(string(d), 32)
	return err == nil
""", """	if _, err := strconv.ParseFloat(d.String(), 32); err != nil {
		return false
	}
	return true
""")]),
    ("BUG", "ng-first", "*", [(NG, ngCont, """	for _, dir := range directives {
		for _, d := range n.Directives() {
			matches = strings.EqualFold(d.String(), dir.String())
		}
	}
	return
""")]),
    ("BUG", "ng-all", "*", [(NG, ngCont, """	for _, dir := range directives {
		matches = false
		for _, d := range n.Directives() {
			matches = matches || strings.EqualFold(d.String(), dir.String())
		}
		if !matches {
			return
		}
	}
	return
""")]),
    ("BUG", "ng-prefix", "*", [(NG, "strings.EqualFold(rvsaDir.String(), d.String())", "strings.HasPrefix(rvsaDir.String(), d.String())")]),
    # representations and sets.
    ("SAME", "bu-ptr", "*", [(BU, """	ctx := BuilderContext{
		ContentType:     b.ct,
		ContentLanguage: b.cl,
		ContentEncoding: b.ce,
		ContentCharset:  b.cc,
		ContentLocation: b.loc,
		ContentFeatures: b.cf,
		SourceQuality:   b.sq,
	}
	return bf(ctx)
""", """	var ctx BuilderContext
	ctx.ContentType, ctx.ContentLanguage = b.ct, b.cl
	ctx.ContentEncoding, ctx.ContentCharset = b.ce, b.cc
	ctx.ContentLocation = b.loc
	ctx.ContentFeatures = b.cf
	ctx.SourceQuality = b.sq
	return bf(ctx)
""")]),
    ("SAME", "se-where", "*", [(SE, where, """	kept := make(Set, 0, len(s))
	for i := range s {
		if !p(s[i]) {
			continue
		}
		kept = append(kept, s[i])
	}
	return kept
""")]),
    ("SAME", "se-where2", "*", [(SE, where, """	var kept Set
	for i := 0; i < s.Size(); i++ {
		if v := s[i]; p(v) {
			kept = append(kept, v)
		}
	}
	return kept
""")]),
    ("SAME", "se-empty", "*", [(SE, "return s.Size() == 0", "return len(s) < 1"), (SE, "	return s[0]\n", "	first := s[0]\n	return first\n")]),
    ("SAME", "se-sort", "*", [(SE, "	sort.SliceStable(s, less)\n", "	sort.Stable(byLess{s, less})\n"), (SE, "// Size provides", """type byLess struct {
	s    Set
	less func(i, j int) bool
}

func (b byLess) Len() int           { return len(b.s) }
func (b byLess) Less(i, j int) bool { return b.less(i, j) }
func (b byLess) Swap(i, j int)      { b.s[i], b.s[j] = b.s[j], b.s[i] }

// Size provides""")]),
    ("BUG", "se-sort1", "*", [(SE, "	sort.SliceStable(s, less)\n", "	sort.Slice(s, less)\n")]),
    ("BUG", "se-where3", "*", [(SE, "	return Set(matched)\n", "	if len(matched) == 0 {\n		return s\n	}\n	return Set(matched)\n")]),
    # options.
    ("SAME", "po-mode", "*", [(PO, strict, """			for _, apply := range []Option{DisableStrictAccept(), DisableStrictAcceptLanguage(), DisableStrictAcceptCharset()} {
				apply(o)
			}
""")]),
    ("SAME", "po-tuple", "*", [(PO, strict, """			o.StrictAccept, o.StrictAcceptLanguage, o.StrictAcceptCharset = false, false, false
""")]),
    ("SAME", "po-helper", "*", [(PO, strict, """			relax(o)
"""), (PO, "// Options that can be used", """func relax(o *Options) {
	for _, strict := range []*bool{&o.StrictAccept, &o.StrictAcceptLanguage, &o.StrictAcceptCharset} {
		*strict = false
	}
}

// Options that can be used""")]),
    ("SAME", "to-max", "*", [(TO, maxv, """	MaximumVariantListSize = func(size int) Option {
		return func(o *Options) { o.MaximumVariantListSize = max(size, 1) }
	}

""")]),
    ("SAME", "to-max2", "*", [(TO, maxv, """	MaximumVariantListSize = func(size int) Option {
		return func(o *Options) {
			o.MaximumVariantListSize = size
			if size <= 0 {
				o.MaximumVariantListSize = 1
			}
		}
	}

""")]),
    ("BUG", "po-mode2", "*", [(PO, "			o.StrictAccept = false\n			o.StrictAcceptLanguage = false\n			o", "			o.StrictAccept = false\n			o.StrictAcceptLanguage = !o.StrictAcceptCharset\n			o")]),
    ("BUG", "to-max0", "*", [(TO, "if size < 1 {", "if size < 0 {")]),
    ("BUG", "to-guess", "*", [(TO, "o.GuessSmallThreshold = threshold", "o.GuessSmallThreshold += threshold")]),
    ("BUG", "po-repr", "*", [(PO, "o.RepresentationConstructors = constructors", "o.RepresentationConstructors = append(o.RepresentationConstructors, constructors...)")]),
    # content codings.
    ("SAME", "cc-match", "*", [(CC, "	if ok := contentCodingRangeRegex.MatchString(contentCoding); !ok {\n		return ContentCodingRange{}, ErrInvalidContentCodingRange\n	}\n	groups := contentCodingRangeRegex.FindStringSubmatch(contentCoding)\n", "	groups := contentCodingRangeRegex.FindStringSubmatch(contentCoding)\n	if groups == nil {\n		return ContentCodingRange{}, ErrInvalidContentCodingRange\n	}\n")]),
    ("SAME", "cc-contains", "*", [(CC, "!slice.ContainsString(contentCodings, coding)", "!known(coding)"), (CC, "!slice.ContainsString(contentCodings, strings.ToLower(coding))", "!known(coding)"), (CC, "// IsWildcard indicates", """func known(coding string) bool {
	for _, c := range contentCodings {
		if strings.EqualFold(c, coding) {
			return true
		}
	}
	return false
}

// IsWildcard indicates"""), (CC, '	"strings"\n\n	"github.com/stretchr/stew/slice"\n', '	"strings"\n')]),
    ("SAME", "cc-map", "*", [(CC, "!slice.ContainsString(contentCodings, coding)", "!known[coding]"), (CC, "!slice.ContainsString(contentCodings, strings.ToLower(coding))", "!known[strings.ToLower(coding)]"), (CC, "	contentCodings = []string{\n		gzip,\n		xgzip,\n		deflate,\n		compress,\n		xcompress,\n		identity,\n		\"*\",\n	}\n", "	known = map[string]bool{\n		gzip: true, xgzip: true, deflate: true,\n		compress: true, xcompress: true,\n		identity: true, \"*\": true,\n	}\n"), (CC, '	"strings"\n\n	"github.com/stretchr/stew/slice"\n', '	"strings"\n')]),
    ("SAME", "cc-switch", "*", [(CC, ccComp, """	switch c := strings.ToLower(coding); {
	case !slice.ContainsString(contentCodings, c):
		return false
	case cc.IsWildcard():
		return true
	default:
		return strings.ToLower(cc.coding) == c
	}
""")]),
    ("SAME", "cc-q", "*", [(CC, "	if len(groups[2]) > 0 {\n		q, _", "	if groups[3] != \"\" {\n		q, _")]),
    ("BUG", "cc-xgzip", "*", [(CC, "	return strings.EqualFold(cc.CodingRange(), coding)\n", '	return strings.EqualFold(strings.TrimPrefix(cc.CodingRange(), "x-"), coding)\n')]),
    ("BUG", "cc-wild", "*", [(CC, "	if cc.IsWildcard() {\n		return true", "	if cc.IsWildcard() {\n		return !strings.EqualFold(coding, identity)")]),
    ("BUG", "cc-lower", "*", [(CC, "	coding := strings.ToLower(groups[1])\n", "	coding := groups[1]\n")]),
    # language ranges.
    ("SAME", "lr-cut", "*", [(LR, cut(LR, "	if len(parts) > 1 && ", "	return lr, nil"), """	if len(parts) < 2 {
		return lr, nil
	}
	w := strings.Trim(parts[1], " ")
	if !strings.HasPrefix(w, "q=") {
		return lr, nil
	}
	f, err := strconv.ParseFloat(w[len("q="):], 32)
	if err != nil {
		return LanguageRange{}, err
	}
	if lr.qValue, err = NewQualityValue(float32(f)); err != nil {
		return LanguageRange{}, err
	}
""")]),
    ("SAME", "lr-cutprefix", "*", [(LR, cut(LR, "	if len(parts) > 1 && ", "	return lr, nil"), """	if len(parts) > 1 {
		if q, ok := strings.CutPrefix(strings.Trim(parts[1], " "), "q="); ok {
			f, err := strconv.ParseFloat(q, 32)
			if err != nil {
				return LanguageRange{}, err
			}
			qv, err := NewQualityValue(float32(f))
			if err != nil {
				return LanguageRange{}, err
			}
			lr.qValue = qv
		}
	}
""")]),
    ("SAME", "lr-comp", "*", [(LR, lrComp, """	if _, err := language.Parse(tag); err != nil {
		return false
	}
	if !lr.IsWildcard() {
		_, i := language.MatchStrings(language.NewMatcher([]language.Tag{language.Und, lr.tag}), tag)
		return i > 0
	}
	return true
""")]),
    ("SAME", "lr-default", "*", [(LR, "	r := strings.ToLower(strings.TrimSpace(parts[0]))\n	t, err := language.Parse(r)\n	if r != \"*\" && err != nil {\n		return LanguageRange{}, err\n	}\n", "	r := strings.ToLower(strings.TrimSpace(parts[0]))\n	var t language.Tag\n	if r != \"*\" {\n		var err error\n		if t, err = language.Parse(r); err != nil {\n			return LanguageRange{}, err\n		}\n	}\n")]),
    ("BUG", "lr-qzero", "*", [(LR, "		lr.qValue = qv\n", "		if qv > 0 {\n			lr.qValue = qv\n		}\n")]),
    ("BUG", "lr-und", "*", [(LR, "	return i != 0\n", "	return i >= 0\n")]),
    # Accept-Encoding.
    ("SAME", "ae-sort", "*", [(AE, aeSort, """	sort.SliceStable(e, func(i, j int) bool {
		switch {
		case e[j].IsWildcard() && !e[i].IsWildcard():
			return true
		case e[i].IsWildcard() && !e[j].IsWildcard():
			return false
		}
		return e[j].QualityValue().LessThan(e[i].QualityValue())
	})
	return e
""")]),
    ("SAME", "ae-cmp", "*", [(AE, aeSort, """	slices.SortFunc(e, func(f, s ContentCodingRange) int {
		if f.IsWildcard() != s.IsWildcard() {
			if s.IsWildcard() {
				return -1
			}
			return 1
		}
		switch {
		case f.QualityValue().GreaterThan(s.QualityValue()):
			return -1
		case f.QualityValue().LessThan(s.QualityValue()):
			return 1
		}
		return 0
	})
	return e
"""), (AE, '	"sort"\n', '	"slices"\n')]),
    ("SAME", "ae-new", "*", [(AE, aeNew, """	if len(acceptEncoding) == 0 {
		return EmptyAcceptEncoding, nil
	}
	parts := elements(acceptEncoding)
	codings := make([]ContentCodingRange, len(parts))
	for i, p := range parts {
		var err error
		if codings[i], err = NewContentCodingRange(p); err != nil {
			return EmptyAcceptEncoding, err
		}
	}
	return AcceptEncoding(codings), nil
""")]),
    ("SAME", "ae-copy", "*", [(AE, "	sort.Slice(e, func(first, second int) bool {\n		f := e[first]\n		s := e[second]\n", "	r := append([]ContentCodingRange(nil), e...)\n	sort.Slice(r, func(first, second int) bool {\n		f := r[first]\n		s := r[second]\n"), (AE, "	})\n	return e\n", "	})\n	return r\n")]),
    ("BUG", "ae-wild", "*", [(AE, "return s.IsWildcard()\n", "return f.IsWildcard()\n")]),
]
