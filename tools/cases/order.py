A = "internal/header/accept.go"
M = "internal/header/media_range.go"
CS = "internal/header/accept_charset.go"
E = "internal/header/accept_encoding.go"
L = "internal/header/accept_language.go"
Q = "internal/header/quality_value.go"
P = "proactive/apache_httpd.go"
R = "transparent/rvsa.go"
SORTA = '''	sort.Slice(a, func(first, second int) bool {
		f := a[first]
		s := a[second]

		if f.specificity() != s.specificity() {
			return f.specificity() > s.specificity()
		}
		if f.QualityValue().Equals(s.QualityValue()) {
			return f.Precedence() > s.Precedence()
		}
		return f.QualityValue().GreaterThan(s.QualityValue())
	})
'''
SORTC = '''		if f.IsWildcard() != s.IsWildcard() {
			return s.IsWildcard()
		}
		return f.QualityValue().GreaterThan(s.QualityValue())
	})
	return c'''
SORTCS = '''	sort.Slice(c, func(first, second int) bool {
		f := c[first]
		s := c[second]
''' + SORTC
SORTL = '''	sort.SliceStable(ranges, func(first, second int) bool {
		return !ranges[first].IsWildcard() && ranges[second].IsWildcard()
	})
'''
RND = "	rounded := float32(math.Round(float64(qv.Float()*factor)) / float64(factor))\n"
CASES = [
 ("BUG", "accept-quality-first", "C19", [(A, SORTA, '''	sort.Slice(a, func(first, second int) bool {
		f := a[first]
		s := a[second]
		if f.QualityValue().Equals(s.QualityValue()) {
			return f.Precedence() > s.Precedence()
		}
		return f.QualityValue().GreaterThan(s.QualityValue())
	})
''')]),
 ("BUG", "accept-ascending", "C19", [(A, "return f.specificity() > s.specificity()", "return f.specificity() < s.specificity()")]),
 ("BUG", "accept-weight-ascending", "C19", [(A, "return f.QualityValue().GreaterThan", "return f.QualityValue().LessThan")]),
 ("BUG", "accept-precedence", "C19", [(A, "f.specificity() != s.specificity()", "f.Precedence() != s.Precedence()"), (A, "f.specificity() > s.specificity()", "f.Precedence() > s.Precedence()")]),
 ("BUG", "accept-not-sorted", "C19", [(A, SORTA, ""), (A, '	"sort"\n', "")]),
 ("BUG", "accept-by-type", "C19", [(A, "		if f.QualityValue().Equals(", "		if f.Type() != s.Type() {\n			return f.Type() < s.Type()\n		}\n		if f.QualityValue().Equals(")]),
 ("BUG", "spec-subtype-only", "C19", [(M, "	if !mr.IsTypeWildcard() {\n		s += 2\n", "	if !mr.IsTypeWildcard() {\n		s += 0\n")]),
 ("BUG", "spec-params-heavy", "C19", [(M, "	if mr.HasParams() {\n		s++", "	if mr.HasParams() {\n		s += 3")]),
 ("BUG", "spec-params-gone", "C19", [(M, "	if mr.HasParams() {\n		s++\n	}\n", "")]),
 ("BUG", "spec-params-counts-q", "C19", [(M, "	if mr.HasParams() {\n		s++", "	if len(mr.params) > 0 {\n		s++")]),
 ("BUG", "hasparams-q", "C19", [(M, '		if k != "q" {\n			b = true', '		if k != "" {\n			b = true')]),
 ("BUG", "hasparams-inverted", "C19", [(M, '		if k != "q" {\n			b = true', '		if k == "q" {\n			b = true')]),
 ("BUG", "hasparams-charset", "C19", [(M, '		if k != "q" {\n			b = true', '		if k != "q" && k != "charset" {\n			b = true')]),
 ("BUG", "charset-no-wild", "C19", [(CS, "		if f.IsWildcard() != s.IsWildcard() {\n			return s.IsWildcard()\n		}\n", "")]),
 ("BUG", "charset-wild-first", "C19", [(CS, "return s.IsWildcard()", "return f.IsWildcard()")]),
 ("BUG", "coding-ascending", "C19", [(E, "f.QualityValue().GreaterThan(s", "s.QualityValue().GreaterThan(f")]),
 ("BUG", "coding-zero-first", "C19", [(E, "		return f.QualityValue().GreaterThan", "		if s.QualityValue() == 0 {\n			return false\n		}\n		return f.QualityValue().LessThan")]),
 ("BUG", "coding-same-element", "C19", [(E, "s := e[second]", "s := e[first]")]),
 ("BUG", "lang-unsorted", "C19", [(L, SORTL, "")]),
 ("BUG", "lang-unstable", "C19", [(L, "sort.SliceStable(", "sort.Slice(")]),
 ("BUG", "lang-wild-first", "C19", [(L, "return !ranges[first].IsWildcard() && ranges[second]", "return ranges[first].IsWildcard() && !ranges[second]")]),
 ("BUG", "lang-zero-first", "C19", [(L, "			ranges = append(ranges, lr)\n", "			ranges = append([]LanguageRange{lr}, ranges...)\n")]),
 ("BUG", "lang-all-again", "C19", [(L, "lr.QualityValue() == QualityValueMinimum", "lr.QualityValue() >= QualityValueMinimum")]),
 ("BUG", "lang-reversed", "C19", [(L, "	for i := 0; i < len(tags); i++ {", "	for i := len(tags) - 1; i >= 0; i-- {")]),
 ("BUG", "round-one", "C19", [(Q, "return qv.Round(3) > q.Round(3)", "return qv.Round(1) > q.Round(1)")]),
 ("BUG", "greater-equal", "C19", [(Q, "return qv.Round(3) > q.Round(3)", "return qv.Round(3) >= q.Round(3)")]),
 ("BUG", "round-floor", "C19", [(Q, "math.Round(float64(qv.Float()*factor))", "math.Floor(float64(qv.Float()*factor))")]),
 ("BUG", "round-twice", "C19", [(Q, "factor := float32(math.Pow10(scale))", "factor := float32(math.Pow10(scale - 1))")]),
 ("BUG", "httpd-last-match", "C19", [(P, "				qt = mr.QualityValue()\n				break\n", "				qt = mr.QualityValue()\n")]),
 ("BUG", "httpd-unsorted", "C19", [(P, "range accept.MediaRanges()", "range accept")]),
 ("BUG", "httpd-positive-only", "C19", [(P, "			if c.Compatible(rep.ContentCharset()) {", "			if c.Compatible(rep.ContentCharset()) && c.QualityValue() > 0 {")]),
 ("BUG", "httpd-max", "C19", [(P, "				qc = c.QualityValue()\n				break\n", "				if qc.LessThan(c.QualityValue()) {\n					qc = c.QualityValue()\n				}\n")]),
 ("BUG", "rvsa-skips-wild", "C19", [(R, "		if compatible && err == nil {\n			qt =", "		if mr.QualityValue() > 0 && compatible && err == nil {\n			qt =")]),
 ("BUG", "rvsa-unsorted", "C19", [(R, "range acceptCharset.CharsetRanges()", "range acceptCharset")]),
 ("BUG", "coding-swapped", "C19", [(P, '''	for _, c := range acceptEncoding.CodingRanges() {
		for _, e := range rep.ContentEncoding() { // TODO(FREER)
''', '''	for _, e := range rep.ContentEncoding() { // TODO(FREER)
		for _, c := range acceptEncoding.CodingRanges() {
''')]),

 ("SAME", "stable", "C19 C12 C14", [(A, "sort.Slice(a,", "sort.SliceStable(a,"), (CS, "sort.Slice(c,", "sort.SliceStable(c,")]),
 ("SAME", "cmp-diff", "C19", [(A, SORTA, '''	sort.Slice(a, func(first, second int) bool {
		f, s := a[first], a[second]
		if d := f.specificity() - s.specificity(); d != 0 {
			return d > 0
		}
		if f.QualityValue().Equals(s.QualityValue()) {
			return f.Precedence() > s.Precedence()
		}
		return f.QualityValue().GreaterThan(s.QualityValue())
	})
''')]),
 ("SAME", "named-less", "C19", [(A, SORTA, '''	sort.Slice(a, func(first, second int) bool {
		return a[first].before(a[second])
	})
'''), (M, "// specificity determines", '''func (mr MediaRange) before(s MediaRange) bool {
	mine, theirs := mr.specificity(), s.specificity()
	switch {
	case mine > theirs:
		return true
	case mine < theirs:
		return false
	case mr.QualityValue().GreaterThan(s.QualityValue()):
		return true
	case mr.QualityValue().LessThan(s.QualityValue()):
		return false
	}
	return mr.Precedence() > s.Precedence()
}

// specificity determines''')]),
 ("SAME", "hasparams-inline", "C19", [(M, "	if mr.HasParams() {\n		s++\n	}\n", '''	for k := range mr.params {
		if k != "q" {
			s++
			break
		}
	}
''')]),
 ("SAME", "hasparams-expr", "C19 C18", [(M, '''	for k := range mr.params {
		if k != "q" {
			b = true
			return
		}
	}
	return
''', '''	for k := range mr.params {
		if k == "q" {
			continue
		}
		return true
	}
	return false
''')]),
 ("SAME", "hasparams-count", "C19 C18", [(M, '''	for k := range mr.params {
		if k != "q" {
			b = true
			return
		}
	}
	return
''', '''	n := len(mr.params)
	if _, weighted := mr.params["q"]; weighted {
		n--
	}
	return n > 0
''')]),
 ("SAME", "hasparams-fold", "C19 C18", [(M, '''			b = true
			return
		}
''', '''			b = true
		}
''')]),
 ("SAME", "spec-switch", "C19", [(M, '''	if !mr.IsTypeWildcard() {
		s += 2
	}
	if !mr.IsSubTypeWildcard() {
		s += 2
	}
''', '''	switch {
	case mr.t == "*" && mr.subT == "*":
		s = 0
	case mr.t == "*" || mr.subT == "*":
		s = 2
	default:
		s = 4
	}
''')]),
 ("SAME", "charset-slices", "C19 C12 C14 C24", [(CS, SORTCS, '''	slices.SortStableFunc(c, func(f, s CharsetRange) int {
		switch {
		case f.IsWildcard() && !s.IsWildcard():
			return 1
		case !f.IsWildcard() && s.IsWildcard():
			return -1
		case f.QualityValue().GreaterThan(s.QualityValue()):
			return -1
		case f.QualityValue().LessThan(s.QualityValue()):
			return 1
		}
		return 0
	})
	return c'''), (CS, '	"sort"\n', '	"slices"\n')]),
 ("SAME", "charset-bool", "C19", [(CS, SORTC, '''		wildF, wildS := f.IsWildcard(), s.IsWildcard()
		return !wildF && wildS || wildF == wildS && s.QualityValue().LessThan(f.QualityValue())
	})
	return c''')]),
 ("SAME", "coding-sorter", "C19 C12", [(E, "func (e AcceptEncoding) CodingRanges() []ContentCodingRange {\n", '''type byRank []ContentCodingRange

func (b byRank) Len() int      { return len(b) }
func (b byRank) Swap(i, j int) { b[i], b[j] = b[j], b[i] }
func (b byRank) Less(i, j int) bool {
	if b[i].IsWildcard() != b[j].IsWildcard() {
		return b[j].IsWildcard()
	}
	return b[i].QualityValue().GreaterThan(b[j].QualityValue())
}

func (e AcceptEncoding) CodingRanges() []ContentCodingRange {
	sort.Sort(byRank(e))
	return e
}

func (e AcceptEncoding) unused() []ContentCodingRange {
''')]),
 ("SAME", "copy-first", "C19 C12 C14", [(A, SORTA, "	a = append(Accept{}, a...)\n" + SORTA)]),
 ("SAME", "clone-first", "C19 C12 C14", [(A, SORTA, "	a = slices.Clone(a)\n" + SORTA), (A, '	"sort"\n', '	"slices"\n	"sort"\n')]),
 ("SAME", "nothing-to-sort", "C19", [(CS, "	sort.Slice(c, ", "	if len(c) < 2 {\n		return c\n	}\n	sort.Slice(c, ")]),
 ("SAME", "shared-less", "C19", [(CS, SORTC, '''		return wildcardsLast(f.IsWildcard(), s.IsWildcard(), f.QualityValue(), s.QualityValue())
	})
	return c'''), (Q, "// Multiply multiplies", '''func wildcardsLast(w1, w2 bool, q1, q2 QualityValue) bool {
	if w1 != w2 {
		return w2
	}
	return q1.GreaterThan(q2)
}

// Multiply multiplies''')]),
 ("SAME", "lang-if", "C19", [(L, "		return !ranges[first].IsWildcard() && ranges[second].IsWildcard()\n", '''		if ranges[first].IsWildcard() {
			return false
		}
		return ranges[second].IsWildcard()
''')]),
 ("SAME", "lang-range", "C19", [(L, "	for i := 0; i < len(tags); i++ {", "	for i := range tags {")]),
 ("SAME", "lang-weighted-sort", "C19", [(L, "		return !ranges[first].IsWildcard() && ranges[second].IsWildcard()\n", '''		f, s := ranges[first], ranges[second]
		if f.IsWildcard() != s.IsWildcard() {
			return s.IsWildcard()
		}
		return f.QualityValue() > s.QualityValue()
''')]),
 ("SAME", "round-inline", "C19", [(Q, RND, "	rounded := math.Round(float64(qv)*float64(factor)) / float64(factor)\n")]),
 ("SAME", "lt-by-gt", "C19", [(Q, "return qv.Round(3) < q.Round(3)", "return q.GreaterThan(qv)")]),
 ("SAME", "eq-not-lt-gt", "C19", [(Q, "return qv.Round(3) == q.Round(3)", "return !qv.LessThan(q) && !qv.GreaterThan(q)")]),
 ("SAME", "index-loop", "C19 C12", [(P, '''		for _, mr := range accept.MediaRanges() {
''', '''		ranges := accept.MediaRanges()
		for i := 0; i < len(ranges); i++ {
			mr := ranges[i]
''')]),
 ("SAME", "early-return", "C19 C12", [(P, '''	qc := header.QualityValueMinimum
	if rep.ContentCharset() == "" || acceptCharset.IsEmpty() {
		qc = header.QualityValueMaximum
	} else {
		for _, c := range acceptCharset.CharsetRanges() {
			if c.Compatible(rep.ContentCharset()) {
				qc = c.QualityValue()
				break
			}
		}
	}
	return qc
''', '''	if rep.ContentCharset() == "" || acceptCharset.IsEmpty() {
		return header.QualityValueMaximum
	}
	for _, c := range acceptCharset.CharsetRanges() {
		if !c.Compatible(rep.ContentCharset()) {
			continue
		}
		return c.QualityValue()
	}
	return header.QualityValueMinimum
''')]),
 ("SAME", "continue-on-error", "C19 C12", [(P, '''			if compatible && err == nil {
				qt =''', '''			if err != nil {
				continue
			}
			if compatible {
				qt =''')]),
]
