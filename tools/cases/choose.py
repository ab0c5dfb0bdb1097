A = "proactive/apache_httpd.go"
V = "transparent/rvsa.go"
HA = "internal/header/accept.go"
src = {f: open("/repo/" + f).read() for f in (A, V, HA)}


def cut(f, a, b):
    s = src[f]
    i = s.index(a)
    return s[i:s.index(b, i)]


ctQual = cut(A, "	qt := header.QualityValueMinimum\n	if rep", "	return qt\n}")
csQual = cut(A, "	qc := header.QualityValueMinimum\n	if rep", "	return qc\n}")
parse = cut(A, "	var (\n		a   header.Accept\n", "	var variants representation.Set")
loop = cut(A, "	for _, rp := range reps {", "	for _, f := range c.filters {")
floop = cut(A, "	for _, f := range c.filters {", "var (\n	// smallestContentLength")
vparse = cut(V, "	var (\n		a header.Accept\n", "	var variants representation.Set")
vloop = cut(V, "	for _, rep := range reps {", "	if variants.Empty() {")
vct = cut(V, "	var usedWildcard bool\n	if rep.ContentType()", "// acceptLanguageQuality")
vcs = cut(V, "	qc := header.QualityValueMinimum\n", "// acceptFeatureQuality")
vlg = cut(V, "	ql := header.QualityValueMinimum\n", "// acceptCharsetQuality")
vpick = cut(V, "	variants.Sort(func", "// acceptQuality")
level = cut(A, "		var htmlWithLevel []hwl\n", "	}\n)\n\n// acceptQuality")

CASES = [
    ("SAME", "g-early", "*", [(A, ctQual + "	return qt\n", """	if rep.ContentType() == "" || accept.IsEmpty() {
		return header.QualityValueMaximum
	}
	for _, mr := range accept.MediaRanges() {
		ok, err := mr.Compatible(rep.ContentType())
		if err != nil || !ok {
			continue
		}
		return mr.QualityValue()
	}
	return header.QualityValueMinimum
"""), (A, csQual + "	return qc\n", """	charset := rep.ContentCharset()
	if charset == "" || acceptCharset.IsEmpty() {
		return header.QualityValueMaximum
	}
	ranges := acceptCharset.CharsetRanges()
	for i := range ranges {
		if ranges[i].Compatible(charset) {
			return ranges[i].QualityValue()
		}
	}
	return header.QualityValueMinimum
""")]),
    ("SAME", "g-parse", "*", [(A, parse, """	a, ae, al, ac, err := c.preferences(r.Header)
	if err != nil {
		return nil, err
	}

"""), (A, "// acceptQuality determines", """// preferences parses the headers that state the preferences of the user agent.
func (c httpd) preferences(h http.Header) (
	a header.Accept, ae header.AcceptEncoding, al header.AcceptLanguage, ac header.AcceptCharset, err error,
) {
	if a, err = header.NewAccept(h["Accept"]); err != nil {
		return
	}
	if ae, err = header.NewAcceptEncoding(h["Accept-Encoding"]); err != nil {
		return
	}
	if al, err = header.NewAcceptLanguage(h["Accept-Language"]); err != nil {
		return
	}
	ac, err = header.NewAcceptCharset(h["Accept-Charset"])
	return
}

// acceptQuality determines""")]),
    ("SAME", "g-parsestruct", "*", [(A, parse, """	p, err := newPreferences(r.Header)
	if err != nil {
		return nil, err
	}
	a, ae, al, ac := p.accept, p.encoding, p.language, p.charset

"""), (A, "// acceptQuality determines", """type preferences struct {
	accept   header.Accept
	encoding header.AcceptEncoding
	language header.AcceptLanguage
	charset  header.AcceptCharset
}

func newPreferences(h http.Header) (*preferences, error) {
	p := &preferences{}
	for _, parse := range []func() error{
		func() (err error) { p.accept, err = header.NewAccept(h.Values("Accept")); return },
		func() (err error) { p.encoding, err = header.NewAcceptEncoding(h.Values("Accept-Encoding")); return },
		func() (err error) { p.language, err = header.NewAcceptLanguage(h.Values("Accept-Language")); return },
		func() (err error) { p.charset, err = header.NewAcceptCharset(h.Values("Accept-Charset")); return },
	} {
		if err := parse(); err != nil {
			return nil, err
		}
	}
	return p, nil
}

// acceptQuality determines""")]),
    ("SAME", "g-rank", "*", [(A, loop, """	for i := range reps {
		if v, ok := c.rank(reps[i], a, ae, al, ac); ok {
			variants = append(variants, v)
		}
	}

"""), (A, "// acceptQuality determines", """// rank scores a representation, and reports whether it is acceptable.
func (c httpd) rank(
	rp representation.Representation,
	a header.Accept, ae header.AcceptEncoding, al header.AcceptLanguage, ac header.AcceptCharset,
) (ranked representation.RankedRepresentation, ok bool) {
	qt := c.acceptQuality(rp, a)
	qc := c.acceptCharsetQuality(rp, ac)
	ql, los := c.acceptLanguageQuality(rp, al)
	qe := c.acceptEncodingQuality(rp, ae)
	for _, q := range []header.QualityValue{qt, qc, ql, qe} {
		if q == header.QualityValueMinimum {
			return ranked, false
		}
	}
	ranked.Representation = rp
	ranked.SourceQualityValue = rp.SourceQuality()
	ranked.MediaTypeQualityValue = qt.Float()
	ranked.CharsetQualityValue = qc.Float()
	ranked.EncodingQualityValue = qe.Float()
	ranked.LanguageQualityValue = ql.Float()
	ranked.LanguageOrderScore = los
	return ranked, true
}

// acceptQuality determines""")]),
    ("SAME", "g-switch", "*", [(A, "		if shouldEliminate {\n			continue\n		}\n", """		switch {
		case shouldEliminate:
			continue
		}
""")]),
    ("SAME", "g-lazy", "*", [(A, cut(A, "		qt := c.acceptQuality(rp, a)\n", "		variants = append(variants, rep"), """		qt := c.acceptQuality(rp, a)
		if qt == header.QualityValueMinimum {
			continue
		}
		qc := c.acceptCharsetQuality(rp, ac)
		if qc == header.QualityValueMinimum {
			continue
		}
		ql, los := c.acceptLanguageQuality(rp, al)
		if ql == header.QualityValueMinimum {
			continue
		}
		qe := c.acceptEncodingQuality(rp, ae)
		if qe == header.QualityValueMinimum {
			continue
		}
""")]),
    ("SAME", "g-narrow", "*", [(A, floop, """	best, err := c.narrow(variants)
	if err != nil || best.Empty() {
		return nil, err
	}
	return best.First().Representation, nil
}

// narrow applies the filters until one variant is left.
func (c httpd) narrow(variants representation.Set) (representation.Set, error) {
	var err error
	for i := 0; i < len(c.filters); i++ {
		if variants.Empty() {
			return nil, nil
		}
		variants, err = c.filters[i](variants)
		if err != nil {
			return nil, err
		}
		if variants.Size() == 1 {
			return variants, nil
		}
	}
	return variants, nil
}

""")]),
    ("SAME", "g-narrowrec", "*", [(A, floop, """	return apply(c.filters, variants)
}

func apply(fs []filter, variants representation.Set) (representation.Representation, error) {
	for len(fs) > 0 {
		if variants.Empty() {
			return nil, nil
		}
		next, err := fs[0](variants)
		if err != nil {
			return nil, err
		}
		variants, fs = next, fs[1:]
		if next.Size() == 1 {
			break
		}
	}
	return variants.First().Representation, nil
}

""")]),
    ("SAME", "g-generic", "*", [(A, csQual + "	return qc\n", """	if rep.ContentCharset() == "" || acceptCharset.IsEmpty() {
		return header.QualityValueMaximum
	}
	if r, ok := firstCompatible(acceptCharset.CharsetRanges(), rep.ContentCharset()); ok {
		return r.QualityValue()
	}
	return header.QualityValueMinimum
"""), (A, "// acceptQuality determines", """func firstCompatible[T interface{ Compatible(string) bool }](ranges []T, value string) (found T, ok bool) {
	for _, r := range ranges {
		if r.Compatible(value) {
			return r, true
		}
	}
	return found, false
}

// acceptQuality determines""")]),
    ("SAME", "g-indexfunc", "*", [(A, csQual + "	return qc\n", """	if rep.ContentCharset() == "" || acceptCharset.IsEmpty() {
		return header.QualityValueMaximum
	}
	rs := acceptCharset.CharsetRanges()
	if i := slices.IndexFunc(rs, func(r header.CharsetRange) bool { return r.Compatible(rep.ContentCharset()) }); i >= 0 {
		return rs[i].QualityValue()
	}
	return header.QualityValueMinimum
"""), (A, '	"sort"\n', '	"slices"\n	"sort"\n')]),
    ("SAME", "g-moved", "*", [(A, csQual + "	return qc\n", """	return acceptCharset.QualityOf(rep.ContentCharset())
"""), ("internal/header/accept_charset.go", "// IsEmpty ", """// QualityOf provides the quality value that applies to the charset.
func (c AcceptCharset) QualityOf(charset string) QualityValue {
	if charset == "" || c.IsEmpty() {
		return QualityValueMaximum
	}
	for _, r := range c.CharsetRanges() {
		if r.Compatible(charset) {
			return r.QualityValue()
		}
	}
	return QualityValueMinimum
}

// IsEmpty """)]),
    ("SAME", "g-levelmax", "*", [(A, "				htmlWithLevel = append(htmlWithLevel, hwl{v, int(lNum)})\n", """				if len(htmlWithLevel) == 0 || int(lNum) > highest {
					highest = int(lNum)
				}
				htmlWithLevel = append(htmlWithLevel, hwl{v, int(lNum)})
"""), (A, "		var htmlWithLevel []hwl\n", "		var htmlWithLevel []hwl\n		var highest int\n"), (A, """			sort.SliceStable(htmlWithLevel, func(i, j int) bool {
				return htmlWithLevel[i].l > htmlWithLevel[j].l
			})
""", ""), (A, "if v.l == htmlWithLevel[0].l {", "if v.l == highest {"), (A, '	"sort"\n', '')]),
    ("BUG", "g-levelmin", "C13", [(A, "				htmlWithLevel = append(htmlWithLevel, hwl{v, int(lNum)})\n", """				if len(htmlWithLevel) == 0 || int(lNum) < highest {
					highest = int(lNum)
				}
				htmlWithLevel = append(htmlWithLevel, hwl{v, int(lNum)})
"""), (A, "		var htmlWithLevel []hwl\n", "		var htmlWithLevel []hwl\n		var highest int\n"), (A, """			sort.SliceStable(htmlWithLevel, func(i, j int) bool {
				return htmlWithLevel[i].l > htmlWithLevel[j].l
			})
""", ""), (A, "if v.l == htmlWithLevel[0].l {", "if v.l == highest {"), (A, '	"sort"\n', '')]),
    ("BUG", "g-levellast", "C13", [(A, "				htmlWithLevel = append(htmlWithLevel, hwl{v, int(lNum)})\n", """				if true {
					highest = int(lNum)
				}
				htmlWithLevel = append(htmlWithLevel, hwl{v, int(lNum)})
"""), (A, "		var htmlWithLevel []hwl\n", "		var htmlWithLevel []hwl\n		var highest int\n"), (A, """			sort.SliceStable(htmlWithLevel, func(i, j int) bool {
				return htmlWithLevel[i].l > htmlWithLevel[j].l
			})
""", ""), (A, "if v.l == htmlWithLevel[0].l {", "if v.l == highest {"), (A, '	"sort"\n', '')]),
    ("BUG", "g-levelzero", "C13", [(A, "				htmlWithLevel = append(htmlWithLevel, hwl{v, int(lNum)})\n", """				if int(lNum) > highest {
					highest = int(lNum)
				}
				htmlWithLevel = append(htmlWithLevel, hwl{v, int(lNum)})
"""), (A, "		var htmlWithLevel []hwl\n", "		var htmlWithLevel []hwl\n		var highest int\n"), (A, """			sort.SliceStable(htmlWithLevel, func(i, j int) bool {
				return htmlWithLevel[i].l > htmlWithLevel[j].l
			})
""", ""), (A, "if v.l == htmlWithLevel[0].l {", "if v.l == highest {"), (A, '	"sort"\n', '')]),
    ("SAME", "g-levelnone", "*", [(A, "		if len(htmlWithLevel) > 0 {\n", "		if len(htmlWithLevel) == 0 {\n			return variants, nil\n		}\n		{\n")]),
    ("SAME", "g-levelhelper", "*", [(A, level, """		var htmlWithLevel []hwl
		for _, v := range variants {
			l, ok, err := htmlLevel(v.ContentType())
			if err != nil {
				return nil, err
			}
			if ok {
				htmlWithLevel = append(htmlWithLevel, hwl{v: v, l: l})
			}
		}
		if len(htmlWithLevel) == 0 {
			return variants, nil
		}
		sort.SliceStable(htmlWithLevel, func(i, j int) bool { return htmlWithLevel[j].l < htmlWithLevel[i].l })
		best := htmlWithLevel[0].l
		var htmlVariants representation.Set
		for _, v := range htmlWithLevel {
			if v.l != best {
				continue
			}
			htmlVariants = append(htmlVariants, v.v)
		}
		return htmlVariants, nil
"""), (A, "// acceptQuality determines", """func htmlLevel(contentType string) (level int, ok bool, err error) {
	mt, p, err := mime.ParseMediaType(contentType)
	if err != nil {
		return 0, false, err
	}
	l, has := p["level"]
	if !has || mt != "text/html" {
		return 0, false, nil
	}
	n, err := strconv.ParseInt(l, 0, 32)
	return int(n), err == nil, err
}

// acceptQuality determines""")]),
    ("SAME", "v-parse", "*", [(V, vparse, """	a, al, ac, af, err := c.parse(r)
	if err != nil {
		return nil, err
	}

"""), (V, "// acceptQuality determines", """func (c rvsa1) parse(r *http.Request) (
	a header.Accept, al header.AcceptLanguage, ac header.AcceptCharset, af header.AcceptFeatures, err error,
) {
	a, err = header.NewAccept(r.Header["Accept"])
	if err == nil {
		al, err = header.NewAcceptLanguage(r.Header["Accept-Language"])
	}
	if err == nil {
		ac, err = header.NewAcceptCharset(r.Header["Accept-Charset"])
	}
	if err == nil {
		af, err = header.NewAcceptFeatures(r.Header["Accept-Features"])
	}
	return a, al, ac, af, err
}

// acceptQuality determines""")]),
    ("SAME", "v-ranked", "*", [(V, vloop, """	for _, rep := range reps {
		ranked, err := c.rank(rep, a, al, ac, af)
		if err != nil {
			return nil, err
		}
		variants = append(variants, ranked)
	}

"""), (V, "// acceptQuality determines", """func (c rvsa1) rank(
	rep representation.Representation,
	a header.Accept, al header.AcceptLanguage, ac header.AcceptCharset, af header.AcceptFeatures,
) (representation.RankedRepresentation, error) {
	r := representation.RankedRepresentation{Representation: rep, SourceQualityValue: rep.SourceQuality()}
	wild := false
	set := func(to *float32, q header.QualityValue, w bool) {
		*to = q.Float()
		wild = wild || w
	}
	q, w := c.acceptQuality(rep, a)
	set(&r.MediaTypeQualityValue, q, w)
	q, w = c.acceptCharsetQuality(rep, ac)
	set(&r.CharsetQualityValue, q, w)
	q, w = c.acceptLanguageQuality(rep, al)
	set(&r.LanguageQualityValue, q, w)
	q, w, err := c.acceptFeatureQuality(rep, af)
	if err != nil {
		return representation.RankedRepresentation{}, err
	}
	set(&r.FeatureQualityValue, q, w)
	r.IsDefinite = !wild
	return r, nil
}

// acceptQuality determines""")]),
    ("SAME", "v-ctearly", "*", [(V, vct, """	if rep.ContentType() == "" || accept.IsEmpty() {
		return header.QualityValueMaximum, rep.ContentType() != ""
	}
	for _, mr := range accept.MediaRanges() {
		if ok, err := mr.Compatible(rep.ContentType()); ok && err == nil {
			return mr.QualityValue(), mr.Type() == "*" || mr.SubType() == "*"
		}
	}
	return header.QualityValueMinimum, false
}

""")]),
    ("SAME", "v-generic", "*", [(V, vcs, """	return rangeQuality(acceptCharset.CharsetRanges(), rep.ContentCharset())
}

type valueRange interface {
	Compatible(string) bool
	QualityValue() header.QualityValue
	IsWildcard() bool
}

func rangeQuality[R valueRange](ranges []R, value string) (header.QualityValue, bool) {
	for _, r := range ranges {
		if r.Compatible(value) {
			return r.QualityValue(), r.IsWildcard()
		}
	}
	return header.QualityValueMinimum, false
}

"""), (V, vlg, """	return rangeQuality(acceptLanguage, rep.ContentLanguage())
}

"""), (V, "	var usedWildcard bool\n	if rep.ContentLanguage", "	if rep.ContentLanguage"), (V, "	var usedWildcard bool\n	if rep.ContentCharset", "	if rep.ContentCharset")]),
    ("SAME", "v-pick", "*", [(V, vpick, """	variants.Sort(func(i, j int) bool {
		return c.overallQuality(variants[i]) > c.overallQuality(variants[j])
	})
	return pick(variants.First(), c.overallQuality(variants.First())), nil
}

func pick(v representation.RankedRepresentation, score float32) representation.Representation {
	if !v.IsDefinite || score <= 0 {
		return nil
	}
	return v.Representation
}

""")]),
    ("SAME", "v-scores", "*", [(V, vpick, """	best, score := 0, c.overallQuality(variants[0])
	for i := 1; i < variants.Size(); i++ {
		if s := c.overallQuality(variants[i]); s > score {
			best, score = i, s
		}
	}
	if v := variants[best]; v.IsDefinite && score > 0 {
		return v.Representation, nil
	}
	return nil, nil
}

""")]),
    ("SAME", "v-fold", "*", [(V, cut(V, "	qs := v.SourceQualityValue\n", "}"), """	overall := float32(1)
	for _, q := range []float32{
		v.SourceQualityValue, v.MediaTypeQualityValue, v.CharsetQualityValue, v.LanguageQualityValue, v.FeatureQualityValue,
	} {
		overall *= q
	}
	return header.QualityValue(overall).Round(5).Float()
""")]),
    ("SAME", "v-empty0", "*", [(V, "	var variants representation.Set\n	for", "	if len(reps) == 0 {\n		return nil, nil\n	}\n	variants := make(representation.Set, 0, len(reps))\n	for"), (V, "	if variants.Empty() {\n		return nil, nil\n	}\n\n", "")]),
    # C14: the score has five decimals exactly.
    ("BUG", "r-6", "C14", [(V, "qv.Round(5)", "qv.Round(6)")]),
    ("BUG", "r-4", "C14", [(V, "qv.Round(5)", "qv.Round(4)")]),
    ("BUG", "r-none", "C14", [(V, "qv.Round(5).Float()", "qv.Float()")]),
    ("BUG", "r-floor", "C14", [(V, "return qv.Round(5).Float()", "return float32(math.Floor(float64(qv)*1e5) / 1e5)"), (V, "import (\n", "import (\n\t\"math\"\n")]),
    ("SAME", "r-inline", "*", [(V, "return qv.Round(5).Float()", "return float32(math.Round(float64(qv)*1e5) / 1e5)"), (V, "import (\n", "import (\n\t\"math\"\n")]),
    ("SAME", "r-order", "*", [(V, "qs * qt * qc * ql * qf\n	qv := header.QualityValue(overall)\n	return qv.Round(5).Float()", "qf * ql * qc * qs\n	return header.QualityValue(overall * qt).Round(5).Float()")]),
]
