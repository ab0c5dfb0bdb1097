# Larger rewritings, several functions at a time.
T, P, A, V, R = "transparent/transparent.go", "proactive/proactive.go", "proactive/apache_httpd.go", "transparent/rvsa.go", "reactive/reactive.go"


def src(f):
    return open("/repo/" + f).read()


def cut(f, a, b):
    s = src(f)
    i = s.index(a)
    return s[i:s.index(b, i)]


TN = cut(T, "	// determine when the user agent", "// listResponse is responsible")
TN1 = """	// determine when the user agent wants the server to choose the best
	// variant on it's behalf.
	if !mayChoose(negotiate) {
		return n.listResponse(ctx, reps...)
	}

	rep, err := n.chooser.Choose(ctx.Request, reps...)
	switch {
	case err != nil:
		return err
	case rep == nil:
		return n.listResponse(ctx, reps...)
	}

	if negotiate.Contains(header.NegotiateDirectiveGuessSmall) {
		var small bool
		if small, err = n.isSmall(rep, reps); err != nil {
			return err
		}
		if !small {
			return n.listResponse(ctx, reps...)
		}
	}

	if loc := rep.ContentLocation(); !neighbors(loc, *ctx.Request.URL) {
		n.logger.Debug("variant resource is not a neighbor of the negotiable resource",
			zap.String("resource-url", ctx.Request.URL.String()),
			zap.String("neighbor-url", loc.String()))
		return n.listResponse(ctx, reps...)
	}
	return n.choiceResponse(ctx, reps, rep)
}

// mayChoose tells whether the user agent lets the server choose.
func mayChoose(negotiate header.Negotiate) bool {
	for _, d := range []header.NegotiateDirective{"*", header.NegotiateDirectiveGuessSmall} {
		if negotiate.Contains(d) {
			return true
		}
	}
	return negotiate.ContainsRVSA("1.0")
}

// isSmall tells whether the choice isn't much larger than the list.
func (n Negotiator) isSmall(rep representation.Representation, reps []representation.Representation) (bool, error) {
	listBytes, err := n.listRepresentationConstructor(reps...).Bytes()
	if err != nil {
		return false, err
	}
	choiceBytes, err := rep.Bytes()
	if err != nil {
		return false, err
	}
	excess := len(choiceBytes) - len(listBytes)
	return excess < 0 || excess <= n.guessSmallThreshold, nil
}

// neighbors tells whether the URLs differ in what follows the last slash only.
func neighbors(one, two url.URL) bool {
	a, b := base(one), base(two)
	return a.String() == b.String()
}

func base(u url.URL) *url.URL {
	if i := strings.LastIndex(u.Path, "/"); i >= 0 {
		u.Path = u.Path[:i]
	}
	u.RawQuery, u.ForceQuery, u.Fragment = "", false, ""
	u.Host = strings.ToLower(u.Host)
	if u.Path == "" {
		u.Path = "/"
	}
	if u.Port() == "" {
		u.Host = u.Hostname() + ":80"
	}
	u.Scheme = strings.ToLower(u.Scheme)
	return &u
}

"""
noMath = (T, '	"math"\n', "")
noFmt = (T, '	"fmt"\n', "")
PN = cut(P, "	var (\n		accept         = header.DefaultAccept", "	// choose 'best' representation.")
PN1 = """	h, err := parseHeaders(ctx.Request)
	if err != nil {
		return err
	}
	var typeOK, languageOK, charsetOK bool
	for _, r := range reps {
		t, l, c, err := h.compatible(r)
		if err != nil {
			return err
		}
		typeOK, languageOK, charsetOK = typeOK || t, languageOK || l, charsetOK || c
	}
	for _, gate := range []struct {
		name       string
		strict, ok bool
	}{
		{"Accept", n.strictAccept, typeOK},
		{"Accept-Language", n.strictAcceptLanguage, languageOK},
		{"Accept-Charset", n.strictAcceptCharset, charsetOK},
	} {
		if gate.strict && !gate.ok {
			n.logger.Debug("failed strict mode for " + gate.name + " header")
			return n.notAcceptable(ctx, reps...)
		}
	}

"""
PN2 = PN1.replace("%", "%")
PT = src(P)[-120:]
PH = """
type headers struct {
	accept   header.Accept
	language header.AcceptLanguage
	charset  header.AcceptCharset
}

func parseHeaders(r *http.Request) (h headers, err error) {
	h = headers{header.DefaultAccept, header.DefaultAcceptLanguage, header.DefaultAcceptCharset}
	if v, ok := r.Header["Accept"]; ok {
		if h.accept, err = header.NewAccept(v); err != nil {
			return
		}
	}
	if v, ok := r.Header["Accept-Language"]; ok {
		if h.language, err = header.NewAcceptLanguage(v); err != nil {
			return
		}
	}
	if v, ok := r.Header["Accept-Charset"]; ok {
		h.charset, err = header.NewAcceptCharset(v)
	}
	return
}

func (h headers) compatible(r representation.Representation) (t, l, c bool, err error) {
	if t, err = h.accept.Compatible(r.ContentType()); err != nil {
		return
	}
	if l, err = h.language.Compatible(r.ContentLanguage()); err != nil {
		return
	}
	c, err = h.charset.Compatible(r.ContentCharset())
	return
}
"""
AC = cut(A, "	var variants representation.Set\n	for _, rp := range reps", "	for _, f := range c.filters")
AC1 = """	variants := make(representation.Set, 0, len(reps))
	for i := range reps {
		v := c.rank(reps[i], a, ac, al, ae)
		if v.MediaTypeQualityValue != 0 && v.CharsetQualityValue != 0 && v.LanguageQualityValue != 0 && v.EncodingQualityValue != 0 {
			variants = append(variants, v)
		}
	}

"""
AH = """
// rank determines the qualities of the representation.
func (c httpd) rank(
	rp representation.Representation, a header.Accept, ac header.AcceptCharset, al header.AcceptLanguage, ae header.AcceptEncoding,
) (v representation.RankedRepresentation) {
	v.Representation = rp
	v.SourceQualityValue = rp.SourceQuality()
	v.MediaTypeQualityValue = c.acceptQuality(rp, a).Float()
	v.CharsetQualityValue = c.acceptCharsetQuality(rp, ac).Float()
	lang, order := c.acceptLanguageQuality(rp, al)
	v.LanguageQualityValue, v.LanguageOrderScore = lang.Float(), order
	v.EncodingQualityValue = c.acceptEncodingQuality(rp, ae).Float()
	return v
}
"""
AT = src(A)[-100:]


def filt(name):
    return cut(A, "	%s filter = func(" % name, "\n	}\n") + "\n	}\n"


def best(name, field):
    return (A, filt(name), """	%s filter = best(func(v representation.RankedRepresentation) header.QualityValue {
		return header.QualityValue(v.%s)
	})
""" % (name, field))


BEST = """
// best makes the filter that selects the variants of the highest quality.
func best(quality func(representation.RankedRepresentation) header.QualityValue) filter {
	return func(variants representation.Set) (representation.Set, error) {
		variants.Sort(func(i, j int) bool {
			return quality(variants[i]).GreaterThan(quality(variants[j]))
		})
		highest := quality(variants.First())
		return variants.Where(func(v representation.RankedRepresentation) bool {
			return quality(v).Equals(highest)
		}), nil
	}
}
"""
LEVEL = """	bestLevel filter = func(variants representation.Set) (representation.Set, error) {
		levels := make([]int, len(variants))
		leveled := make([]bool, len(variants))
		any, top := false, 0
		for i, v := range variants {
			mt, p, err := mime.ParseMediaType(v.ContentType())
			if err != nil {
				return nil, err
			}
			l, ok := p["level"]
			if !ok || mt != "text/html" {
				continue
			}
			n, err := strconv.ParseInt(l, 0, 32)
			if err != nil {
				return representation.EmptySet, err
			}
			levels[i], leveled[i] = int(n), true
			if !any || int(n) > top {
				any, top = true, int(n)
			}
		}
		if !any {
			return variants, nil
		}
		var best representation.Set
		for i, v := range variants {
			if leveled[i] && levels[i] == top {
				best = append(best, v)
			}
		}
		return best, nil
	}
"""
CASES = [
    ("SAME", "t-split", "*", [(T, TN, TN1), noMath, noFmt]),
    ("BUG", "t-split-small", "*", [(T, TN, TN1.replace("excess < 0 || excess <= n.guess", "excess < 0 || excess < n.guess")), noMath, noFmt]),
    ("BUG", "t-split-port", "*", [(T, TN, TN1.replace('":80"', '":443"')), noMath, noFmt]),
    ("BUG", "t-split-query", "*", [(T, TN, TN1.replace('u.RawQuery, u.ForceQuery, u.Fragment = "", false, ""', 'u.RawQuery, u.Fragment = "", ""')), noMath, noFmt]),
    ("BUG", "t-split-rvsa", "*", [(T, TN, TN1.replace('negotiate.ContainsRVSA("1.0")', 'negotiate.ContainsRVSA("1")')), noMath, noFmt]),
    ("BUG", "t-split-err", "*", [(T, TN, TN1.replace("	choiceBytes, err := rep.Bytes()\n	if err != nil {\n		return false, err", "	choiceBytes, err := rep.Bytes()\n	if err != nil {\n		return false, nil")), noMath, noFmt]),
    ("SAME", "p-split", "*", [(P, PN, PN1), (P, PT, PT + PH)]),
    ("BUG", "p-split-and", "*", [(P, PN, PN1.replace("charsetOK || c", "charsetOK || c && l")), (P, PT, PT + PH)]),
    ("BUG", "p-split-cross", "*", [(P, PN, PN1.replace("n.strictAcceptCharset, charsetOK", "n.strictAcceptLanguage, charsetOK")), (P, PT, PT + PH)]),
    ("BUG", "p-split-last", "*", [(P, PN, PN1.replace("typeOK || t,", "t,")), (P, PT, PT + PH)]),
    ("BUG", "p-split-lost", "*", [(P, PN, PN1), (P, PT, PT + PH.replace("		h.charset, err = header.NewAcceptCharset(v)", "		h.charset, _ = header.NewAcceptCharset(v)"))]),
    ("BUG", "p-split-swap", "*", [(P, PN, PN1.replace("t, l, c, err := h", "t, c, l, err := h")), (P, PT, PT + PH)]),
    ("SAME", "a-rank", "*", [(A, AC, AC1), (A, AT, AT + AH)]),
    ("BUG", "a-rank-lang", "*", [(A, AC, AC1), (A, AT, AT + AH.replace("lang.Float(), order", "lang.Float(), -order"))]),
    ("BUG", "a-rank-zero", "*", [(A, AC, AC1.replace(" && v.LanguageQualityValue != 0", "")), (A, AT, AT + AH)]),
    ("BUG", "a-rank-idx", "*", [(A, AC, AC1.replace("c.rank(reps[i],", "c.rank(reps[len(reps)-1-i],")), (A, AT, AT + AH)]),
    ("SAME", "a-best", "*", [best("bestEncoding", "EncodingQualityValue"), best("bestCharset", "CharsetQualityValue"), best("bestLanguage", "LanguageQualityValue"), (A, AT, AT + BEST)]),
    ("BUG", "a-best-field", "*", [best("bestEncoding", "EncodingQualityValue"), best("bestCharset", "EncodingQualityValue"), best("bestLanguage", "LanguageQualityValue"), (A, AT, AT + BEST)]),
    ("BUG", "a-best-lt", "*", [best("bestEncoding", "EncodingQualityValue"), best("bestCharset", "CharsetQualityValue"), best("bestLanguage", "LanguageQualityValue"), (A, AT, AT + BEST.replace("GreaterThan", "LessThan"))]),
    ("SAME", "a-level", "*", [(A, filt("bestLevel"), LEVEL), (A, '	"sort"\n', ""), (A, cut(A, "type hwl struct", "}\n") + "}\n", "")]),
    ("BUG", "a-level-zero", "*", [(A, filt("bestLevel"), LEVEL.replace("leveled[i] && ", "")), (A, '	"sort"\n', ""), (A, cut(A, "type hwl struct", "}\n") + "}\n", ""), (A, "leveled[i], ", "")][:3]),
    ("BUG", "a-level-first", "*", [(A, filt("bestLevel"), LEVEL.replace("!any || int(n) > top", "!any")), (A, '	"sort"\n', ""), (A, cut(A, "type hwl struct", "}\n") + "}\n", "")]),
]
