# Functions that few of the other cases rewrite.
H = "internal/header/"
AC, AF, AL, FE, LE, FT, MR, ND, TC, QV, AE, AP, FX = (H + n for n in (
    "accept_charset.go", "accept_features.go", "accept_language.go", "feature_expression.go", "feature_list_element.go",
    "feature_tag.go", "media_range.go", "negotiate_directive.go", "tcn.go", "quality_value.go", "accept_encoding.go", "accept.go", "feature_set.go"))
HT, RV, TR, RE, BA, BU = "proactive/apache_httpd.go", "transparent/rvsa.go", "transparent/transparent.go", "reactive/reactive.go", "representation/base.go", "internal/representation/builder.go"


def fn(f, head):
    """the text of the function that starts like this."""
    s = open("/repo/" + f).read()
    i = s.index("func " + head)
    return s[i:s.index("\n}\n", i) + 3]


def body(f, head, new, more=""):
    old = fn(f, head)
    return (f, old, old[:old.index("{\n", old.index(head)) + 2] + new + "}\n" + more)


def whole(f, head, new):
    return (f, fn(f, head), new)


def imp(f, new, old=None):
    s = open("/repo/" + f).read()
    i = s.index("import (")
    return (f, s[i:i + 9], "import (\n" + "".join('\t"%s"\n' % n for n in new.split()))


CASES = [
    ("SAME", "ac-new", "*", [body(AC, "NewAcceptCharset(", """	list := elements(acceptCharset)
	charsets := make(AcceptCharset, len(list))
	for i := range list {
		charset, err := NewCharsetRange(list[i])
		if err != nil {
			return EmptyAcceptCharset, err
		}
		charsets[i] = charset
	}
	return charsets, nil
""")]),
    ("SAME", "ac-new2", "*", [body(AC, "NewAcceptCharset(", """	if len(acceptCharset) == 0 {
		return EmptyAcceptCharset, nil
	}
	return parseCharsets(elements(acceptCharset))
""", """
func parseCharsets(list []string) (parsed AcceptCharset, err error) {
	for _, c := range list {
		var charset CharsetRange
		if charset, err = NewCharsetRange(c); err != nil {
			return EmptyAcceptCharset, err
		}
		parsed = append(parsed, charset)
	}
	return parsed, nil
}
""")]),
    ("BUG", "ac-newb", "*", [body(AC, "NewAcceptCharset(", """	var charsets []CharsetRange
	for _, c := range elements(acceptCharset) {
		charset, err := NewCharsetRange(c)
		if err != nil {
			break
		}
		charsets = append(charsets, charset)
	}
	return AcceptCharset(charsets), nil
""")]),
    ("SAME", "af-new", "*", [body(AF, "NewAcceptFeatures(", """	list := elements(acceptFeatures)
	if len(list) == 0 {
		return EmptyAcceptFeatures, nil
	}
	expressions := make(AcceptFeatures, 0, len(list))
	for i := 0; i < len(list); i++ {
		expressions = append(expressions, FeatureExpression(list[i]))
	}
	return expressions, nil
""")]),
    ("BUG", "af-newb", "*", [body(AF, "NewAcceptFeatures(", """	list := elements(acceptFeatures[:1])
	expressions := make(AcceptFeatures, 0, len(list))
	for i := 0; i < len(list); i++ {
		expressions = append(expressions, FeatureExpression(list[i]))
	}
	return expressions, nil
""")]),
    ("SAME", "fe-type", "*", [body(FE, "(e FeatureExpression) Type(", """	s := e.String()
	switch {
	case strings.HasPrefix(s, "!"):
		return FeatureExpressionTypeNotExists
	case strings.Contains(s, "!="):
		return FeatureExpressionTypeNotEquals
	case strings.Contains(s, "=") && e.IsExclusive():
		return FeatureExpressionTypeExclusiveEquals
	case strings.Contains(s, "="):
		return FeatureExpressionTypeEquals
	case e.IsWildcard():
		return FeatureExpressionTypeWildcard
	}
	return FeatureExpressionTypeExists
""")]),
    ("SAME", "fe-val", "*", [body(FE, "(e FeatureExpression) parseValue(", """	s := e.String()
	if strings.HasPrefix(s, "!") {
		return "", false
	}
	if parts := strings.Split(s, "!="); len(parts) > 1 {
		return FeatureTagValue(parts[1]), true
	}
	parts := strings.Split(s, "=")
	if len(parts) < 2 {
		return "", false
	}
	v := parts[1]
	if strings.HasPrefix(v, "{") && strings.HasSuffix(v, "}") {
		v = strings.ReplaceAll(v, "}", "")
		v = strings.ReplaceAll(v, "{", "")
	}
	return FeatureTagValue(v), true
""")]),
    ("SAME", "fe-val2", "*", [body(FE, "(e FeatureExpression) parseValue(", """	s := e.String()
	switch {
	case strings.HasPrefix(s, "!"):
		return val, ok
	case strings.Contains(s, "!="):
		return FeatureTagValue(strings.Split(s, "!=")[1]), true
	case strings.Contains(s, "="):
		return FeatureTagValue(bare(strings.Split(s, "=")[1])), true
	}
	return val, ok
""", """
// bare removes the braces of an exclusive value.
func bare(v string) string {
	if !strings.HasPrefix(v, "{") || !strings.HasSuffix(v, "}") {
		return v
	}
	return strings.ReplaceAll(strings.ReplaceAll(v, "}", ""), "{", "")
}
""")]),
    ("BUG", "fe-valb", "*", [body(FE, "(e FeatureExpression) parseValue(", """	s := e.String()
	switch {
	case strings.HasPrefix(s, "!"):
		return val, ok
	case strings.Contains(s, "="):
		return FeatureTagValue(strings.Trim(strings.Split(s, "=")[1], "{}")), true
	case strings.Contains(s, "!="):
		return FeatureTagValue(strings.Split(s, "!=")[0]), true
	}
	return val, ok
""")]),
    ("SAME", "ft-eq", "*", [body(FT, "(t FeatureTag) Equals(", """	left, err := t.unquotedASCII()
	if err != nil {
		return false
	}
	right, err := tag.unquotedASCII()
	if err != nil {
		return false
	}
	if strings.EqualFold(left, right) {
		return true
	}
	return strings.EqualFold(t.quotedASCII(), tag.quotedASCII())
""")]),
    ("SAME", "ft-eqv", "*", [body(FT, "(t FeatureTagValue) Equals(", """	left, lerr := t.unquotedASCII()
	right, rerr := val.unquotedASCII()
	if lerr != nil || rerr != nil {
		return false
	}
	if left == right {
		return true
	}
	return t.quotedASCII() == val.quotedASCII()
""")]),
    ("SAME", "ft-quote", "*", [body(FT, "(t FeatureTag) quotedASCII(", """	return quoteASCII(string(t))
""", """
func quoteASCII(s string) string {
	return strconv.QuoteToASCII(strings.Trim(s, `"`))
}
"""), body(FT, "(t FeatureTagValue) quotedASCII(", "	return quoteASCII(string(t))\n")]),
    ("SAME", "ft-unq", "*", [body(FT, "(t FeatureTagValue) unquotedASCII(", "	return strconv.Unquote(t.quotedASCII())\n")]),
    ("BUG", "ft-eqb", "*", [body(FT, "(t FeatureTag) Equals(", """	left, lerr := t.unquotedASCII()
	right, rerr := tag.unquotedASCII()
	if lerr != nil || rerr != nil {
		return false
	}
	return left == right
""")]),
    ("BUG", "ft-eqvb", "*", [body(FT, "(t FeatureTagValue) Equals(", """	left, lerr := t.unquotedASCII()
	right, rerr := val.unquotedASCII()
	if lerr != nil || rerr != nil {
		return false
	}
	return strings.EqualFold(left, right)
""")]),
    ("SAME", "mr-parse", "*", [body(MR, "parse(m string)", """	full, params, err := mime.ParseMediaType(m)
	if err != nil {
		return "", "", nil, err
	}
	parts := strings.Split(full, "/")
	if len(parts) < 2 {
		return parts[0], "", params, nil
	}
	return parts[0], parts[1], params, nil
""")]),
    ("SAME", "mr-parse2", "*", [whole(MR, "parse(m string)", """func parse(m string) (t, subT string, params map[string]string, err error) {
	var mediaType string
	if mediaType, params, err = mime.ParseMediaType(m); err != nil {
		return "", "", nil, err
	}
	parts := strings.Split(mediaType, "/")
	if t = parts[0]; len(parts) >= 2 {
		subT = parts[1]
	}
	return
}
""")]),
    ("BUG", "mr-parseb", "*", [body(MR, "parse(m string)", """	full, params, err := mime.ParseMediaType(m)
	if err != nil {
		return "", "", nil, err
	}
	parts := strings.Split(full, "/")
	return parts[0], parts[len(parts)-1], params, nil
""")]),
    ("SAME", "mr-prec", "*", [body(MR, "(mr MediaRange) Precedence(", """	p := len(mr.params)
	switch {
	case mr.t == "*" && mr.subT == "*":
	case mr.subT == "*":
		p++
	default:
		p += 2
	}
	return p
""")]),
    ("SAME", "mr-pmr", "*", [body(MR, "parseMediaRange(", """	if m == "" {
		return MediaRange{}, ErrEmptyMediaRange
	}
	var (
		mr  = MediaRange{qValue: 1}
		err error
	)
	if mr.t, mr.subT, mr.params, err = parse(m); err != nil {
		return MediaRange{}, err
	}
	q, weighted := mr.params["q"]
	if !weighted {
		return mr, nil
	}
	v, err := strconv.ParseFloat(q, 32)
	if err != nil {
		return MediaRange{}, err
	}
	if mr.qValue, err = NewQualityValue(float32(v)); err != nil {
		return MediaRange{}, err
	}
	return mr, nil
""")]),
    ("SAME", "mr-pmr2", "*", [body(MR, "parseMediaRange(", """	if len(m) == 0 {
		return MediaRange{}, ErrEmptyMediaRange
	}
	t, subT, params, err := parse(m)
	if err != nil {
		return MediaRange{}, err
	}
	qValue, err := weightIn(params)
	if err != nil {
		return MediaRange{}, err
	}
	return MediaRange{t: t, subT: subT, params: params, qValue: qValue}, nil
""", """
// weightIn is the weight that the parameters tell.
func weightIn(params map[string]string) (QualityValue, error) {
	q, ok := params["q"]
	if !ok {
		return QualityValueMaximum, nil
	}
	v, err := strconv.ParseFloat(q, 32)
	if err != nil {
		return 0, err
	}
	return NewQualityValue(float32(v))
}
""")]),
    ("BUG", "mr-pmrb", "*", [body(MR, "parseMediaRange(", """	if len(m) == 0 {
		return MediaRange{}, ErrEmptyMediaRange
	}
	t, subT, params, err := parse(m)
	if err != nil {
		return MediaRange{}, err
	}
	qValue := QualityValueMaximum
	if v, err := strconv.ParseFloat(params["q"], 32); err == nil {
		if qValue, err = NewQualityValue(float32(v)); err != nil {
			return MediaRange{}, err
		}
	}
	return MediaRange{t: t, subT: subT, params: params, qValue: qValue}, nil
""")]),
    ("SAME", "mr-compat", "*", [body(MR, "(mr MediaRange) Compatible(", """	t, subT, params, err := parse(mediaType)
	if err != nil {
		return false, err
	}
	if mr.Type() != "*" && !strings.EqualFold(mr.Type(), t) {
		return false, nil
	}
	if mr.SubType() != "*" && !strings.EqualFold(mr.SubType(), subT) {
		return false, nil
	}
	return mr.paramsIn(params), nil
""", """
func (mr MediaRange) paramsIn(params map[string]string) bool {
	for k, want := range mr.params {
		got, ok := params[k]
		if k != "q" && (!ok || got != want) {
			return false
		}
	}
	return true
}
""")]),
    ("BUG", "mr-compatb", "*", [body(MR, "(mr MediaRange) Compatible(", """	t, subT, params, err := parse(mediaType)
	if err != nil {
		return false, err
	}
	matches := (mr.Type() == "*" || strings.EqualFold(mr.Type(), t)) && (mr.SubType() == "*" || strings.EqualFold(mr.SubType(), subT))
	for k, want := range mr.params {
		got, ok := params[k]
		if ok && k != "q" {
			matches = matches && got == want
		}
	}
	return matches, nil
""")]),
    ("BUG", "mr-compatb2", "*", [body(MR, "(mr MediaRange) Compatible(", """	t, subT, params, err := parse(mediaType)
	if err != nil {
		return false, err
	}
	matches := (mr.Type() == "*" || strings.EqualFold(mr.Type(), t)) && (mr.SubType() == "*" || strings.EqualFold(mr.SubType(), subT))
	for k, want := range mr.params {
		if k == "q" {
			continue
		}
		got, ok := params[k]
		matches = ok && got == want
	}
	return matches, nil
""")]),
    ("SAME", "nd-new", "*", [body(ND, "NewNegotiateDirective(", """	if directive != "" {
		return NegotiateDirective(directive), nil
	}
	return "", ErrEmptyNegotiateDirective
""")]),
    ("SAME", "tc-newv", "*", [body(TC, "NewTCNValue(", """	var err error
	if value == "" {
		err = ErrEmptyTCNValue
	}
	return TCNValue(value), err
""")]),
    ("SAME", "qv-round", "*", [body(QV, "(qv QualityValue) Round(", """	if scale <= 0 {
		return QualityValue(math.Round(float64(qv)))
	}
	factor := float32(math.Pow10(scale))
	scaled := float64(qv.Float() * factor)
	return QualityValue(float32(math.Round(scaled) / float64(factor)))
""")]),
    ("BUG", "qv-roundb", "*", [body(QV, "(qv QualityValue) Round(", """	if scale <= 0 {
		return QualityValue(math.Round(float64(qv)))
	}
	factor := float32(math.Pow10(scale))
	scaled := float64(qv.Float() * factor)
	return QualityValue(float32(math.Floor(scaled) / float64(factor)))
""")]),
    ("SAME", "qv-new", "*", [body(QV, "NewQualityValue(", """	if !(qvalue >= QualityValueMinimum.Float()) || !(qvalue <= QualityValueMaximum.Float()) {
		return 0, ErrInvalidQualityValue
	}
	return QualityValue(qvalue), nil
""")]),
    ("BUG", "qv-newb", "*", [body(QV, "NewQualityValue(", """	if qvalue < QualityValueMinimum.Float() || qvalue > QualityValueMaximum.Float() {
		return 0, ErrInvalidQualityValue
	}
	return QualityValue(qvalue), nil
""")]),
    ("SAME", "ht-lang", "*", [body(HT, "(c httpd) acceptLanguageQuality(", """	lang := rep.ContentLanguage()
	if lang == "" || acceptLanguage.IsEmpty() {
		return header.QualityValueMaximum, 0
	}
	for i := range acceptLanguage {
		if acceptLanguage[i].Compatible(lang) {
			return acceptLanguage[i].QualityValue(), len(acceptLanguage) - i
		}
	}
	return header.QualityValueMinimum, 0
""")]),
    ("SAME", "ht-lang2", "*", [body(HT, "(c httpd) acceptLanguageQuality(", """	if rep.ContentLanguage() == "" || len(acceptLanguage) == 0 {
		return header.QualityValueMaximum, 0
	}
	order := len(acceptLanguage)
	for _, lr := range acceptLanguage {
		if lr.Compatible(rep.ContentLanguage()) {
			return lr.QualityValue(), order
		}
		order--
	}
	return header.QualityValueMinimum, 0
""")]),
    ("SAME", "ht-lang3", "*", [body(HT, "(c httpd) acceptLanguageQuality(", """	ql, los := header.QualityValueMinimum, 0
	if rep.ContentLanguage() == "" || acceptLanguage.IsEmpty() {
		return header.QualityValueMaximum, los
	}
	found := false
	for i := 0; i < len(acceptLanguage) && !found; i++ {
		if found = acceptLanguage[i].Compatible(rep.ContentLanguage()); found {
			ql, los = acceptLanguage[i].QualityValue(), len(acceptLanguage)-i
		}
	}
	return ql, los
""")]),
    ("BUG", "ht-langb", "*", [body(HT, "(c httpd) acceptLanguageQuality(", """	ql, los := header.QualityValueMinimum, 0
	if rep.ContentLanguage() == "" || acceptLanguage.IsEmpty() {
		return header.QualityValueMaximum, los
	}
	found := false
	for i := 0; i < len(acceptLanguage)-1 && !found; i++ {
		if found = acceptLanguage[i].Compatible(rep.ContentLanguage()); found {
			ql, los = acceptLanguage[i].QualityValue(), len(acceptLanguage)-i
		}
	}
	return ql, los
""")]),
    ("BUG", "ht-langb2", "*", [body(HT, "(c httpd) acceptLanguageQuality(", """	if rep.ContentLanguage() == "" || len(acceptLanguage) == 0 {
		return header.QualityValueMaximum, 0
	}
	order := len(acceptLanguage)
	for _, lr := range acceptLanguage {
		if lr.Compatible(rep.ContentLanguage()) {
			return lr.QualityValue(), order
		}
		if order > 1 {
			order--
		}
		order--
	}
	return header.QualityValueMinimum, 0
""")]),
    ("SAME", "rv-feat", "*", [body(RV, "(c rvsa1) acceptFeatureQuality(", """	features := rep.ContentFeatures()
	switch {
	case len(features) == 0:
		return header.QualityValueMaximum, false, nil
	case acceptFeature.IsEmpty():
		return header.QualityValueMaximum, true, nil
	}
	list, err := header.NewFeatureList(features)
	if err != nil {
		return header.QualityValueMinimum, false, err
	}
	return header.QualityValue(list.QualityDegradation(acceptFeature.AsFeatureSets())), false, nil
""")]),
    ("SAME", "rv-type", "*", [body(RV, "(c rvsa1) acceptQuality(", """	ct := rep.ContentType()
	if ct == "" {
		return header.QualityValueMaximum, false
	}
	if accept.IsEmpty() {
		return header.QualityValueMaximum, true
	}
	for _, mr := range accept.MediaRanges() {
		ok, err := mr.Compatible(ct)
		if err != nil || !ok {
			continue
		}
		return mr.QualityValue(), mr.Type() == "*" || mr.SubType() == "*"
	}
	return header.QualityValueMinimum, false
""")]),
    ("SAME", "rv-type2", "*", [body(RV, "(c rvsa1) acceptQuality(", """	var usedWildcard bool
	if rep.ContentType() == "" {
		return header.QualityValueMaximum, usedWildcard
	}
	if accept.IsEmpty() {
		return header.QualityValueMaximum, true
	}
	ranges := accept.MediaRanges()
	qt, done := header.QualityValueMinimum, false
	for i := 0; !done && i < len(ranges); i++ {
		mr := ranges[i]
		compatible, err := mr.Compatible(rep.ContentType())
		if err != nil {
			continue
		}
		if compatible {
			qt, done = mr.QualityValue(), true
			usedWildcard = mr.IsTypeWildcard() || mr.IsSubTypeWildcard()
		}
	}
	return qt, usedWildcard
""")]),
    ("BUG", "rv-typeb", "*", [body(RV, "(c rvsa1) acceptQuality(", """	var usedWildcard bool
	if rep.ContentType() == "" {
		return header.QualityValueMaximum, usedWildcard
	}
	if accept.IsEmpty() {
		return header.QualityValueMaximum, true
	}
	ranges := accept.MediaRanges()
	qt, done := header.QualityValueMinimum, false
	for i := 0; !done && i < len(ranges); i++ {
		mr := ranges[i]
		compatible, err := mr.Compatible(rep.ContentType())
		usedWildcard = usedWildcard || mr.IsTypeWildcard() || mr.IsSubTypeWildcard()
		if err == nil && compatible {
			qt, done = mr.QualityValue(), true
		}
	}
	return qt, usedWildcard
""")]),
    ("SAME", "tr-new", "*", [body(TR, "New(", """	o := defaults()
	for i := range options {
		options[i](&o)
	}
	var n Negotiator
	n.chooser = o.Chooser
	n.guessSmallThreshold = o.GuessSmallThreshold
	n.maximumVariantListSize = o.MaximumVariantListSize
	n.listRepresentationConstructor = o.ListRepresentationConstructor
	n.scope = o.Scope.Tagged(scopeTagTransparent)
	n.logger = o.Logger
	n.logger.Debug("negotiator configuration",
		zap.String("type", "transparent"),
		zap.Int("maximum-variant-list-size", n.maximumVariantListSize),
		zap.Int("guess-small-threshold", n.guessSmallThreshold))
	return n
""", """
func defaults() (o Options) {
	o.MaximumVariantListSize = 10
	o.GuessSmallThreshold = 50
	o.ListRepresentationConstructor = jsonList
	o.Chooser = RVSA1()
	o.Logger = zap.NewNop()
	o.Scope = tally.NoopScope
	return
}
""")]),
    ("BUG", "tr-newb", "*", [(TR, "		guessSmallThreshold:           o.GuessSmallThreshold,\n", "		guessSmallThreshold:           o.GuessSmallThreshold + o.MaximumVariantListSize/100,\n")]),
    ("SAME", "ai-deg", "*", [body(LE, "(fle featureListElement) TrueImprovement(", """	ti := TrueImprovement(1.0)
	if t := fle.t; t != nil {
		ti = *t
	}
	return ti
""")]),
    ("SAME", "lr-ranges", "*", [body(AL, "(l AcceptLanguage) LanguageRanges(", """	sort.Slice(l, func(i, j int) bool {
		return l[i].QualityValue().GreaterThan(l[j].QualityValue())
	})
	return l
""")]),
]
