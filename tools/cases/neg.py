P, T, RV, RE, AH, RS = "proactive/proactive.go", "transparent/transparent.go", "transparent/rvsa.go", "reactive/reactive.go", "proactive/apache_httpd.go", "representation/set.go"
def src(f): return open("/repo/"+f).read()
def cut(s, a, b): return s[s.index(a):s.index(b, s.index(a))]
PS, TS, RVS, RES, AHS = src(P), src(T), src(RV), src(RE), src(AH)
ALL = "*"
PHEAD = cut(PS, '	if headerValues, hasHeader = ctx.Request.Header["Accept"]', "	for _, r := range reps {")
PLOOP = cut(PS, "	for _, r := range reps {\n		var c bool", "	if len(reps) == ac")
PSTRICT = cut(PS, "	if len(reps) == ac &&", "	// choose 'best'")
PCHOOSE = cut(PS, "	// choose 'best' representation.", "// acceptable is responsible")
PACC = cut(PS, "	// respond.\n	var (\n		clen  = len(b)", "// notAcceptable is resp")
PNRESP = PS[PS.index("	// respond.\n	var (\n		clen   = len(b)"):]
PLISTS = cut(PS, "	for _, c := range n.representationConstructors", "	if chosen, err =")
LISTF = cut(PS, "	jsonList = func", "// Negotiator represents")
TSHOULD = cut(TS, "	shouldChoose := ", "	if !shouldChoose")
TGUESS = cut(TS, "	if negotiate.Contains(header.NegotiateDirectiveGuessSmall) {\n", "	// https://tools.ietf.org/html/rfc2068")
TSAME = cut(TS, "	// https://tools.ietf.org/html/rfc2068", "	loc := rep.ContentLocation()\n	if")
TLIST = cut(TS, "	a, err := header.NewAlternates(reps[0]", "// choiceResponse is")
TCHOICE = TS[TS.index("	a, err := header.NewAlternates(nil"):]
RRESP = RES[RES.index("	// construct representation."):]
HDRS = '''	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
	ctx.ResponseWriter.Header().Add("Content-Type", ct)
	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
	ctx.ResponseWriter.Header().Add("Content-Language", clang)
	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
'''
def sub(t, *prs):
    for a, b in prs:
        assert a in t, a
        t = t.replace(a, b)
    return t
CASES = [
 # proactive: refactorings
 ("SAME", "p-hdrvar", ALL, [(P, PACC, sub(PACC, ("	ctx.ResponseWriter.Header().Add(", "	h.Add("), ("	status := http.StatusOK\n", "	h := ctx.ResponseWriter.Header()\n	status := http.StatusOK\n")))]),
 ("SAME", "p-hdrset", ALL, [(P, PACC, sub(PACC, (".Header().Add(", ".Header().Set(")))]),
 ("SAME", "p-hdrloop", ALL, [(P, PACC, sub(PACC, (HDRS, '''	for _, h := range []struct{ name, value string }{
		{"Content-Length", strconv.Itoa(clen)},
		{"Content-Type", ct},
		{"Content-Encoding", ce},
		{"Content-Language", clang},
		{"Content-Charset", cc},
	} {
		ctx.ResponseWriter.Header().Add(h.name, h.value)
	}
''')))]),
 ("SAME", "p-hdrhelper", ALL, [(P, PACC, sub(PACC, (HDRS, "	describe(ctx.ResponseWriter.Header(), rep, clen)\n"))+'''// describe sets the headers of a representation.
func describe(h http.Header, rep representation.Representation, length int) {
	h.Add("Content-Length", strconv.Itoa(length))
	h.Add("Content-Type", rep.ContentType())
	h.Add("Content-Encoding", strings.Join(rep.ContentEncoding(), ","))
	h.Add("Content-Language", rep.ContentLanguage())
	h.Add("Content-Charset", rep.ContentCharset())
}

'''), (P, PNRESP, sub(PNRESP, (HDRS, "	describe(ctx.ResponseWriter.Header(), chosen, clen)\n")))]),
 ("SAME", "p-respond", ALL, [(P, PACC, sub(PACC, (PACC[PACC.index("	ctx.ResponseWriter.Header().Add(\"Content-Length"):], '''	if err = respond(ctx.ResponseWriter, status, rep, b); err == nil {
		n.logger.Info("acceptable",
			zap.Int("content-length", clen),
			zap.String("content-type", ct),
			zap.String("content-encoding", ce),
			zap.String("content-language", clang),
			zap.String("content-charset", cc),
			zap.Int("status", status))
	}
	return err
}

func respond(w http.ResponseWriter, status int, rep representation.Representation, b []byte) error {
	w.Header().Add("Content-Length", strconv.Itoa(len(b)))
	w.Header().Add("Content-Type", rep.ContentType())
	w.Header().Add("Content-Encoding", strings.Join(rep.ContentEncoding(), ","))
	w.Header().Add("Content-Language", rep.ContentLanguage())
	w.Header().Add("Content-Charset", rep.ContentCharset())
	w.WriteHeader(status)
	_, err := w.Write(b)
	return err
}

''')))]),
 ("SAME", "p-status", ALL, [(P, "	status := http.StatusOK\n	if ctx.IsCreation {\n		status = http.StatusCreated\n	}\n", "	status := statusOf(ctx.IsCreation)\n"), (P, "// notAcceptable is resp", "func statusOf(created bool) int {\n	if created {\n		return http.StatusCreated\n	}\n	return http.StatusOK\n}\n\n// notAcceptable is resp")]),
 ("SAME", "p-retearly", ALL, [(P, PACC, sub(PACC, ("	if _, err = ctx.ResponseWriter.Write(b); err == nil {\n", "	if _, err = ctx.ResponseWriter.Write(b); err != nil {\n		return err\n	}\n	{\n")))]),
 ("SAME", "p-dedefer", ALL, [(P, "	defer func() {\n		if err == nil {\n			n.scope.Counter(scopeNameProactiveAcceptableCounter).Inc(1)\n		}\n	}()\n\n", ""), (P, PACC, sub(PACC, ("	return err\n}", "	if err == nil {\n		n.scope.Counter(scopeNameProactiveAcceptableCounter).Inc(1)\n	}\n	return err\n}")))]),
 ("SAME", "p-splitneg", ALL, [(P, "	if len(reps) == 0 {\n		status", "	return n.negotiate(ctx, reps...)\n}\n\nfunc (n Negotiator) negotiate(\n	ctx negotiator.NegotiationContext, reps ...representation.Representation,\n) (err error) {\n	if len(reps) == 0 {\n		status")]),
 ("SAME", "p-named", ALL, [(P, ") (err error) {\n	defer n.scope.Timer(scopeNameProactiveTimer).Start().Stop()", ") (err error) {\n	stopwatch := n.scope.Timer(scopeNameProactiveTimer).Start()\n	defer stopwatch.Stop()")]),
 ("SAME", "p-parse", ALL, [(P, PHEAD, '''	var h accepted
	if h, err = parse(ctx.Request.Header); err != nil {
		return err
	}
	accept, acceptLanguage, acceptCharset = h.accept, h.language, h.charset
'''), (P, "		hasHeader      bool\n		headerValues   []string\n", ""), (P, "// acceptable is responsible", '''type accepted struct {
	accept   header.Accept
	language header.AcceptLanguage
	charset  header.AcceptCharset
}

func parse(h http.Header) (a accepted, err error) {
	a = accepted{header.DefaultAccept, header.DefaultAcceptLanguage, header.DefaultAcceptCharset}
	if values, ok := h["Accept"]; ok {
		if a.accept, err = header.NewAccept(values); err != nil {
			return
		}
	}
	if values, ok := h["Accept-Language"]; ok {
		if a.language, err = header.NewAcceptLanguage(values); err != nil {
			return
		}
	}
	if values, ok := h["Accept-Charset"]; ok {
		a.charset, err = header.NewAcceptCharset(values)
	}
	return
}

// acceptable is responsible''')]),
 ("SAME", "p-anycompat", ALL, [(P, PLOOP, '''	for _, r := range reps {
		var ok bool
		if ok, err = accept.Compatible(r.ContentType()); err != nil {
			return
		}
		if !ok {
			ac++
		}
		if ok, err = acceptLanguage.Compatible(r.ContentLanguage()); err != nil {
			return
		}
		if !ok {
			alc++
		}
		if ok, err = acceptCharset.Compatible(r.ContentCharset()); err != nil {
			return
		}
		if !ok {
			acc++
		}
	}
''')]),
 ("SAME", "p-boolcompat", ALL, [(P, PLOOP, '''	var anyType, anyLanguage, anyCharset bool
	for _, r := range reps {
		t, err := accept.Compatible(r.ContentType())
		if err != nil {
			return err
		}
		l, err := acceptLanguage.Compatible(r.ContentLanguage())
		if err != nil {
			return err
		}
		c, err := acceptCharset.Compatible(r.ContentCharset())
		if err != nil {
			return err
		}
		anyType = anyType || t
		anyLanguage = anyLanguage || l
		anyCharset = anyCharset || c
	}
'''), (P, PSTRICT, '''	failed := n.strictAccept && !anyType || n.strictAcceptLanguage && !anyLanguage || n.strictAcceptCharset && !anyCharset
	if failed {
		n.logger.Debug("failed strict mode")
		return n.notAcceptable(ctx, reps...)
	}
'''), (P, "		ac, alc, acc   = 0, 0, 0\n", "")]),
 ("SAME", "p-strictor", ALL, [(P, PSTRICT, '''	if (n.strictAccept && ac == len(reps)) || (n.strictAcceptLanguage && alc == len(reps)) || (n.strictAcceptCharset && acc == len(reps)) {
		n.logger.Debug("failed strict mode")
		return n.notAcceptable(ctx, reps...)
	}

''')]),
 ("SAME", "p-strictorder", ALL, [(P, PSTRICT, '''	switch total := len(reps); {
	case n.strictAcceptCharset && acc == total:
		n.logger.Debug("failed strict mode for Accept-Charset header")
		return n.notAcceptable(ctx, reps...)
	case n.strictAcceptLanguage && alc == total:
		n.logger.Debug("failed strict mode for Accept-Language header")
		return n.notAcceptable(ctx, reps...)
	case n.strictAccept && ac == total:
		n.logger.Debug("failed strict mode for Accept header")
		return n.notAcceptable(ctx, reps...)
	}

''')]),
 ("SAME", "p-count", ALL, [(P, PLOOP, '''	if ac, err = incompatible(accept, reps, representation.Representation.ContentType); err != nil {
		return err
	}
	if alc, err = incompatible(acceptLanguage, reps, representation.Representation.ContentLanguage); err != nil {
		return err
	}
	if acc, err = incompatible(acceptCharset, reps, representation.Representation.ContentCharset); err != nil {
		return err
	}
'''), (P, "// acceptable is responsible", '''func incompatible(h interface{ Compatible(string) (bool, error) }, reps []representation.Representation, of func(representation.Representation) string) (n int, err error) {
	for _, r := range reps {
		ok, err := h.Compatible(of(r))
		if err != nil {
			return 0, err
		}
		if !ok {
			n++
		}
	}
	return n, nil
}

// acceptable is responsible''')]),
 ("SAME", "p-choose", ALL, [(P, PCHOOSE, '''	rep, err := n.chooser.Choose(ctx.Request, reps...)
	switch {
	case err != nil:
		return err
	case rep != nil:
		return n.acceptable(ctx, rep)
	default:
		return n.notAcceptable(ctx, reps...)
	}
}

''')]),
 ("SAME", "p-lists", ALL, [(P, PLISTS, '''	lists = make([]representation.Representation, len(n.representationConstructors))
	for i := range n.representationConstructors {
		lists[i] = n.representationConstructors[i](reps...)
	}
''')]),
 ("SAME", "p-listshelper", ALL, [(P, PLISTS, "	lists = n.lists(reps)\n"), (P, "// notAcceptable is resp", '''func (n Negotiator) lists(reps []representation.Representation) []representation.Representation {
	lists := make([]representation.Representation, 0, len(n.representationConstructors))
	for _, construct := range n.representationConstructors {
		lists = append(lists, construct(reps...))
	}
	return lists
}

// notAcceptable is resp''')]),
 ("SAME", "p-chooselist", ALL, [(P, cut(PS, "	// perform negotiation on repr", "	// serialize.\n	var b []byte\n	if b, err = chosen"), '''	chosen, err := n.chooseList(ctx.Request, reps)
	if err != nil {
		return err
	}

'''), (P, "// notAcceptable is resp", '''func (n Negotiator) chooseList(r *http.Request, reps []representation.Representation) (representation.Representation, error) {
	var lists []representation.Representation
	for _, c := range n.representationConstructors {
		lists = append(lists, c(reps...))
	}
	if chosen, err := n.chooser.Choose(r, lists...); err != nil || chosen != nil {
		return chosen, err
	}
	return n.defaultRepresentationConstructor(reps...), nil
}

// notAcceptable is resp''')]),
 ("SAME", "p-listf", ALL, [(P, LISTF, '''	jsonList = listOf("application/json")
	xmlList  = listOf("application/xml")
	yamlList = listOf("application/yaml")
)

// listOf provides the constructor of lists of a media type.
func listOf(contentType string) representation.ListConstructor {
	return func(reps ...representation.Representation) representation.Representation {
		list := &representation.List{}
		list.SetContentType(contentType)
		list.SetContentCharset("ascii")
		list.SetContentEncoding([]string{"identity"})
		list.SetContentLanguage("en-US")
		list.SetRepresentations(reps...)
		return list
	}
}

''')]),
 ("SAME", "p-listfuncs", ALL, [(P, LISTF, '''	jsonList representation.ListConstructor = func(reps ...representation.Representation) representation.Representation {
		return newList("application/json", reps)
	}
	xmlList representation.ListConstructor = func(reps ...representation.Representation) representation.Representation {
		return newList("application/xml", reps)
	}
	yamlList representation.ListConstructor = func(reps ...representation.Representation) representation.Representation {
		return newList("application/yaml", reps)
	}
)

func newList(contentType string, reps []representation.Representation) representation.Representation {
	var list representation.List
	list.SetContentType(contentType)
	list.SetContentCharset("ascii")
	list.SetContentEncoding([]string{"identity"})
	list.SetContentLanguage("en-US")
	list.SetRepresentations(reps...)
	return &list
}

''')]),
 ("SAME", "p-join", ALL, [(P, 'loc   = rep.ContentLocation()\n', 'loc   = rep.ContentLocation()\n		where = loc.String()\n'), (P, '"Content-Location", (&loc).String()', '"Content-Location", where')]),
 ("SAME", "p-formatint", ALL, [(P, 'Add("Content-Length", strconv.Itoa(clen))\n	ctx.ResponseWriter.Header().Add("Content-Type", ct)\n	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)\n	ctx.ResponseWriter.Header().Add("Content-Language", clang)\n	ctx.ResponseWriter.Header().Add("Content-Charset", cc)\n	ctx.ResponseWriter.WriteHeader(status)\n	if _, err = ctx.ResponseWriter.Write(b); err == nil {\n		n.logger.Info("acc', 'Add("Content-Length", strconv.FormatInt(int64(clen), 10))\n	ctx.ResponseWriter.Header().Add("Content-Type", ct)\n	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)\n	ctx.ResponseWriter.Header().Add("Content-Language", clang)\n	ctx.ResponseWriter.Header().Add("Content-Charset", cc)\n	ctx.ResponseWriter.WriteHeader(status)\n	if _, err = ctx.ResponseWriter.Write(b); err == nil {\n		n.logger.Info("acc')]),
 ("SAME", "p-errdefer", ALL, [(P, '''	defer n.scope.Timer(scopeNameProactiveTimer).Start().Stop()
	defer func() {
		if err != nil {
			n.scope.Counter(scopeNameProactiveErrorCounter).Inc(1)
		}
	}()
''', '''	sw := n.scope.Timer(scopeNameProactiveTimer).Start()
	defer func() {
		sw.Stop()
		if err != nil {
			n.scope.Counter(scopeNameProactiveErrorCounter).Inc(1)
		}
	}()
''')]),
 ("SAME", "p-newopts", ALL, [(P, PS[PS.index("	// set defaults."):PS.index("	// apply options.")], "	o := defaults()\n"), (P, "// Negotiate performs", "func defaults() Options {\n	return "+PS[PS.index("Options{\n		StrictAccept:"):PS.index("	// apply options.")]+"}\n\n// Negotiate performs")]),
 # reactive
 ("SAME", "r-split", ALL, [(RE, RRESP, '''	return n.multipleChoices(ctx, n.representationConstructor(reps...))
}

func (n Negotiator) multipleChoices(ctx negotiator.NegotiationContext, rep representation.Representation) error {
	b, err := rep.Bytes()
	if err != nil {
		return err
	}
	h := ctx.ResponseWriter.Header()
	h.Add("Content-Length", strconv.Itoa(len(b)))
	h.Add("Content-Type", rep.ContentType())
	h.Add("Content-Encoding", strings.Join(rep.ContentEncoding(), ","))
	h.Add("Content-Language", rep.ContentLanguage())
	h.Add("Content-Charset", rep.ContentCharset())
	ctx.ResponseWriter.WriteHeader(http.StatusMultipleChoices)
	if _, err := ctx.ResponseWriter.Write(b); err != nil {
		return err
	}
	n.logger.Info("multiple choices", zap.Int("content-length", len(b)))
	return nil
}
''')]),
 ("SAME", "r-counter", ALL, [(RE, '''		if err != nil {
			n.scope.Counter(scopeNameReactiveErrorCounter).Inc(1)
		} else if len(reps) > 0 {
			n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
		}
''', '''		switch {
		case err != nil:
			n.scope.Counter(scopeNameReactiveErrorCounter).Inc(1)
		case len(reps) == 0:
			n.scope.Counter(scopeNameReactiveNoContentCounter).Inc(1)
		default:
			n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
		}
'''), (RE, "		n.scope.Counter(scopeNameReactiveNoContentCounter).Inc(1)\n		return err\n", "		return nil\n")]),
 ("SAME", "r-countername", ALL, [(RE, '''		if err != nil {
			n.scope.Counter(scopeNameReactiveErrorCounter).Inc(1)
		} else if len(reps) > 0 {
			n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
		}
''', '''		if name := outcome(err, len(reps)); name != "" {
			n.scope.Counter(name).Inc(1)
		}
'''), (RE, "// Negotiate performs", '''func outcome(err error, n int) string {
	if err != nil {
		return scopeNameReactiveErrorCounter
	}
	if n > 0 {
		return scopeNameReactiveMultipleChoicesCounter
	}
	return ""
}

// Negotiate performs''')]),
 # transparent
 ("SAME", "t-should", ALL, [(T, TSHOULD, '''	wildcard := negotiate.Contains(header.NegotiateDirective("*"))
	guessSmall := negotiate.Contains(header.NegotiateDirectiveGuessSmall)
	shouldChoose := wildcard || guessSmall || negotiate.ContainsRVSA("1.0")

'''), (T, TGUESS, sub(TGUESS, ("if negotiate.Contains(header.NegotiateDirectiveGuessSmall) {", "if guessSmall {")))]),
 ("SAME", "t-shouldhelper", ALL, [(T, TSHOULD, "	shouldChoose := mayChoose(negotiate)\n\n"), (T, "// listResponse is resp", '''func mayChoose(n header.Negotiate) bool {
	if n.Contains(header.NegotiateDirective("*")) {
		return true
	}
	if n.ContainsRVSA("1.0") {
		return true
	}
	return n.Contains(header.NegotiateDirectiveGuessSmall)
}

// listResponse is resp''')]),
 ("SAME", "t-guess", ALL, [(T, TGUESS, '''	if negotiate.Contains(header.NegotiateDirectiveGuessSmall) {
		small, err := n.isSmall(rep, reps)
		if err != nil {
			return err
		}
		if !small {
			return n.listResponse(ctx, reps...)
		}
	}

'''), (T, '	"math"\n', ''), (T, "// listResponse is resp", '''func (n Negotiator) isSmall(rep representation.Representation, reps []representation.Representation) (bool, error) {
	list, err := n.listRepresentationConstructor(reps...).Bytes()
	if err != nil {
		return false, err
	}
	choice, err := rep.Bytes()
	if err != nil {
		return false, err
	}
	return len(choice) < len(list) || len(choice)-len(list) <= n.guessSmallThreshold, nil
}

// listResponse is resp''')]),
 ("SAME", "t-url", ALL, [(T, TSAME, ""), (T, "	loc := rep.ContentLocation()\n	if", "	loc := rep.ContentLocation()\n	if"), (T, "// listResponse is resp", '''func directory(u url.URL) url.URL {
	if i := strings.LastIndex(u.Path, "/"); i >= 0 {
		u.Path = u.Path[:i]
	}
	u.RawQuery, u.ForceQuery, u.Fragment = "", false, ""
	return u
}

func normalize(u url.URL) string {
	u.Host = strings.ToLower(u.Host)
	if u.Path == "" {
		u.Path = "/"
	}
	if u.Port() == "" {
		u.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)
	}
	u.Scheme = strings.ToLower(u.Scheme)
	return u.String()
}

func isNeighbor(a, b url.URL) bool {
	return normalize(directory(a)) == normalize(directory(b))
}

// listResponse is resp''')]),
 ("SAME", "t-invert", ALL, [(T, '''	if !isNeighbor(loc, *ctx.Request.URL) {
		n.logger.Debug("variant resource is not a neighbor of the negotiable resource",
			zap.String("resource-url", ctx.Request.URL.String()),
			zap.String("neighbor-url", loc.String()))
		return n.listResponse(ctx, reps...)
	}
	return n.choiceResponse(ctx, reps, rep)
''', '''	if isNeighbor(*ctx.Request.URL, loc) {
		return n.choiceResponse(ctx, reps, rep)
	}
	n.logger.Debug("variant resource is not a neighbor of the negotiable resource",
		zap.String("resource-url", ctx.Request.URL.String()),
		zap.String("neighbor-url", loc.String()))
	return n.listResponse(ctx, reps...)
''')]),
 ("SAME", "t-common", ALL, [(T, TLIST, '''	list := n.listRepresentationConstructor(reps...)
	return n.respond(ctx, reps[0], reps, list, header.ResponseTypeList, http.StatusMultipleChoices)
}

func (n Negotiator) respond(
	ctx negotiator.NegotiationContext,
	fallback representation.Representation,
	reps []representation.Representation,
	rep representation.Representation,
	kind header.ResponseType,
	status int,
) error {
	a, err := header.NewAlternates(fallback, reps...)
	if err != nil {
		return err
	}
	t, err := header.NewTCN([]string{kind.String()})
	if err != nil {
		return err
	}
	b, err := rep.Bytes()
	if err != nil {
		return err
	}
	h := ctx.ResponseWriter.Header()
	h.Add("Alternates", a.ValuesAsString())
	h.Add("TCN", t.ValuesAsString())
	if kind == header.ResponseTypeChoice {
		loc := rep.ContentLocation()
		h.Add("Content-Location", loc.String())
	}
	h.Add("Content-Length", strconv.Itoa(len(b)))
	h.Add("Content-Type", rep.ContentType())
	h.Add("Content-Encoding", strings.Join(rep.ContentEncoding(), ","))
	h.Add("Content-Language", rep.ContentLanguage())
	h.Add("Content-Charset", rep.ContentCharset())
	ctx.ResponseWriter.WriteHeader(status)
	if _, err = ctx.ResponseWriter.Write(b); err != nil {
		return err
	}
	n.logger.Info("response", zap.Int("content-length", len(b)))
	return nil
}

'''), (T, TCHOICE, "	return n.respond(ctx, nil, reps, rep, header.ResponseTypeChoice, http.StatusOK)\n}\n")]),
 ("SAME", "t-bound", ALL, [(T, "	if len(reps) == 0 {\n		status := http.StatusNoContent\n		ctx.ResponseWriter.WriteHeader(status)\n		n.logger.Info(\"no representations to negotiate\", zap.Int(\"status\", status))\n		return err\n	}\n\n	if len(reps) > n.maximumVariantListSize {\n		return ErrVariantListSizeExceeded\n	}\n", "	switch count := len(reps); {\n	case count == 0:\n		ctx.ResponseWriter.WriteHeader(http.StatusNoContent)\n		n.logger.Info(\"no representations to negotiate\")\n		return nil\n	case count > n.maximumVariantListSize:\n		return ErrVariantListSizeExceeded\n	}\n")]),
 ("SAME", "t-presort", ALL, [(T, TLIST, sub(TLIST, ("	// construct representation.\n	list := n.listRepresentationConstructor(reps...)\n\n", ""), ("	a, err := header.NewAlternates(reps[0]", "	list := n.listRepresentationConstructor(reps...)\n	a, err := header.NewAlternates(reps[0]")))]),
 # algorithms
 ("SAME", "a-elim", ALL, [(AH, '''		shouldEliminate := qt == header.QualityValueMinimum || qc == header.QualityValueMinimum ||
			qe == header.QualityValueMinimum || ql == header.QualityValueMinimum
		if shouldEliminate {
			continue
		}
''', '''		if eliminated(qt, qc, qe, ql) {
			continue
		}
'''), (AH, "type hwl struct", '''func eliminated(values ...header.QualityValue) bool {
	for _, v := range values {
		if v == header.QualityValueMinimum {
			return true
		}
	}
	return false
}

type hwl struct''')]),
 ("SAME", "a-rank", ALL, [(AH, cut(AHS, "		qt := c.acceptQuality(rp, a)", "	for _, f := range c.filters"), '''		if v, ok := c.rank(rp, a, ae, al, ac); ok {
			variants = append(variants, v)
		}
	}

'''), (AH, "var (\n	// smallestContentLength", '''func (c httpd) rank(rp representation.Representation, a header.Accept, ae header.AcceptEncoding, al header.AcceptLanguage, ac header.AcceptCharset) (v representation.RankedRepresentation, ok bool) {
	qt := c.acceptQuality(rp, a)
	qc := c.acceptCharsetQuality(rp, ac)
	ql, los := c.acceptLanguageQuality(rp, al)
	qe := c.acceptEncodingQuality(rp, ae)
	if qt == header.QualityValueMinimum || qc == header.QualityValueMinimum || qe == header.QualityValueMinimum || ql == header.QualityValueMinimum {
		return v, false
	}
	v.Representation = rp
	v.SourceQualityValue = rp.SourceQuality()
	v.MediaTypeQualityValue = qt.Float()
	v.CharsetQualityValue = qc.Float()
	v.EncodingQualityValue = qe.Float()
	v.LanguageQualityValue = ql.Float()
	v.LanguageOrderScore = los
	return v, true
}

var (
	// smallestContentLength''')]),
 ("SAME", "a-filters", ALL, [(AH, '''		// if there are no eligble variants, we are done.
		if variants.Empty() {
			return nil, nil
		}
		// apply filter.
		if variants, err = f(variants); err != nil {
			return nil, err
		}
		// if we are down to one, choose it.
		if variants.Size() == 1 {
			break
		}
	}
''', '''		if len(variants) == 0 {
			return nil, nil
		}
		filtered, err := f(variants)
		if err != nil {
			return nil, err
		}
		if variants = filtered; len(variants) == 1 {
			return variants[0].Representation, nil
		}
	}
''')]),
 ("SAME", "a-keyfunc", ALL, [(AH, cut(AHS, "	// bestCharset selects", "	// bestSourceAndType"), '''	// bestCharset selects the variants with the best charset.
	bestCharset filter = func(variants representation.Set) (representation.Set, error) {
		return best(variants, func(v representation.RankedRepresentation) header.QualityValue {
			return header.QualityValue(v.CharsetQualityValue)
		}), nil
	}

'''), (AH, "type hwl struct", '''func best(variants representation.Set, quality func(representation.RankedRepresentation) header.QualityValue) representation.Set {
	variants.Sort(func(i, j int) bool {
		return quality(variants[i]).GreaterThan(quality(variants[j]))
	})
	highest := quality(variants.First())
	return variants.Where(func(v representation.RankedRepresentation) bool {
		return quality(v).Equals(highest)
	})
}

type hwl struct''')]),
 ("SAME", "a-max", ALL, [(AH, cut(AHS, "	// bestLanguageOrder selects", "	// bestLevel selects"), '''	// bestLanguageOrder selects the variants with best language order score.
	bestLanguageOrder filter = func(variants representation.Set) (representation.Set, error) {
		highest := variants[0].LanguageOrderScore
		for _, v := range variants[1:] {
			if v.LanguageOrderScore > highest {
				highest = v.LanguageOrderScore
			}
		}
		return variants.Where(func(v representation.RankedRepresentation) bool {
			return v.LanguageOrderScore == highest
		}), nil
	}

''')]),
 ("SAME", "a-where", ALL, [(RS, '''	var matched []RankedRepresentation
	for _, v := range s {
''', '''	matched := make([]RankedRepresentation, 0, len(s))
	for _, v := range s {
''')]),
 ("SAME", "a-whereset", ALL, [(RS, '''	var matched []RankedRepresentation
	for _, v := range s {
		if p(v) {
			matched = append(matched, v)
		}
	}
	return Set(matched)
''', '''	var matched Set
	for i := range s {
		if !p(s[i]) {
			continue
		}
		matched = append(matched, s[i])
	}
	return matched
''')]),
 ("SAME", "a-sortslice", ALL, [(RS, "	sort.SliceStable(s, less)\n", "	sort.Stable(byLess{s, less})\n"), (RS, "// First task", '''type byLess struct {
	Set
	less func(i, j int) bool
}

func (b byLess) Len() int           { return len(b.Set) }
func (b byLess) Swap(i, j int)      { b.Set[i], b.Set[j] = b.Set[j], b.Set[i] }
func (b byLess) Less(i, j int) bool { return b.less(i, j) }

// First task''')]),
 ("SAME", "a-notiso", ALL, [(AH, '''		if !notISO88591.Empty() && notISO88591.Size() != variants.Size() {
			return notISO88591, nil
		}
		return variants, nil
''', '''		if notISO88591.Empty() {
			return variants, nil
		}
		return notISO88591, nil
''')]),
 ("SAME", "a-isofold", ALL, [(AH, 'strings.ToLower(v.ContentCharset()) != "iso-8859-1"', '!strings.EqualFold(v.ContentCharset(), "iso-8859-1")')]),
 ("SAME", "a-level", ALL, [(AH, "\t\"sort\"\n", ""), (AH, cut(AHS, "		var htmlVariants representation.Set", "	}\n)\n"), '''		if len(htmlWithLevel) == 0 {
			return variants, nil
		}
		highest := htmlWithLevel[0].l
		for _, v := range htmlWithLevel {
			if v.l > highest {
				highest = v.l
			}
		}
		var htmlVariants representation.Set
		for _, v := range htmlWithLevel {
			if v.l == highest {
				htmlVariants = append(htmlVariants, v.v)
			}
		}
		return htmlVariants, nil
''')]),
 ("SAME", "a-filterlist", ALL, [(AH, "	filters := []filter{", "	return httpd{filters: []filter{"), (AH, "		smallestContentLength,\n	}\n	return httpd{filters: filters}\n", "		smallestContentLength,\n	}}\n")]),
 ("SAME", "a-quality", ALL, [(AH, cut(AHS, "	qt := header.QualityValueMinimum\n", "// acceptCharsetQuality determines"), '''	if rep.ContentType() == "" || accept.IsEmpty() {
		return header.QualityValueMaximum
	}
	for _, mr := range accept.MediaRanges() {
		if compatible, err := mr.Compatible(rep.ContentType()); err == nil && compatible {
			return mr.QualityValue()
		}
	}
	return header.QualityValueMinimum
}

''')]),
 ("SAME", "a-encodings", ALL, [(AH, '''	for _, c := range acceptEncoding.CodingRanges() {
		for _, e := range rep.ContentEncoding() { // TODO(FREER)
			if c.Compatible(e) {
				return c.QualityValue()
			}
		}
	}
	return header.QualityValueMinimum
''', '''	codings := rep.ContentEncoding()
	for _, c := range acceptEncoding.CodingRanges() {
		if slices.ContainsFunc(codings, c.Compatible) {
			return c.QualityValue()
		}
	}
	return header.QualityValueMinimum
'''), (AH, '	"net/http"\n', '	"net/http"\n	"slices"\n')]),
 ("SAME", "v-max", ALL, [(RV, cut(RVS, "	variants.Sort(func", "// acceptQuality determines"), '''	highest, score := variants[0], c.overallQuality(variants[0])
	for _, v := range variants[1:] {
		if s := c.overallQuality(v); s > score {
			highest, score = v, s
		}
	}
	if score > 0.0 && highest.IsDefinite {
		return highest.Representation, nil
	}
	return nil, nil
}

''')]),
 ("SAME", "v-definite", ALL, [(RV, "		isDefinite := !twc && !cwc && !lwc && !fwc\n", ""), (RV, "IsDefinite:            isDefinite", "IsDefinite:            !(twc || cwc || lwc || fwc)")]),
 ("SAME", "v-split", ALL, [(RV, cut(RVS, "	var variants representation.Set\n", "	if variants.Empty()"), '''	variants, err := c.rank(reps, a, al, ac, af)
	if err != nil {
		return nil, err
	}

'''), (RV, "// acceptQuality determines", '''func (c rvsa1) rank(reps []representation.Representation, a header.Accept, al header.AcceptLanguage, ac header.AcceptCharset, af header.AcceptFeatures) (variants representation.Set, err error) {
	for _, rep := range reps {
		qt, twc := c.acceptQuality(rep, a)
		qc, cwc := c.acceptCharsetQuality(rep, ac)
		ql, lwc := c.acceptLanguageQuality(rep, al)
		qf, fwc, err := c.acceptFeatureQuality(rep, af)
		if err != nil {
			return nil, err
		}
		variants = append(variants, representation.RankedRepresentation{
			Representation:        rep,
			SourceQualityValue:    rep.SourceQuality(),
			MediaTypeQualityValue: qt.Float(),
			CharsetQualityValue:   qc.Float(),
			LanguageQualityValue:  ql.Float(),
			FeatureQualityValue:   qf.Float(),
			IsDefinite:            !twc && !cwc && !lwc && !fwc,
		})
	}
	return variants, nil
}

// acceptQuality determines''')]),
 ("SAME", "v-overall", ALL, [(RV, cut(RVS, "	qs := v.SourceQualityValue", "	qv := header.QualityValue(overall)"), "	overall := v.SourceQualityValue * v.MediaTypeQualityValue * v.CharsetQualityValue * v.LanguageQualityValue * v.FeatureQualityValue\n")]),
 ("SAME", "v-named", ALL, [(RV, cut(RVS, "	var usedWildcard bool\n	if rep.ContentLanguage()", "// acceptCharsetQuality determines"), '''	switch language := rep.ContentLanguage(); {
	case language == "":
		return header.QualityValueMaximum, false
	case acceptLanguage.IsEmpty():
		return header.QualityValueMaximum, true
	default:
		for _, lr := range acceptLanguage {
			if lr.Compatible(language) {
				return lr.QualityValue(), lr.IsWildcard()
			}
		}
		return header.QualityValueMinimum, false
	}
}

''')]),
 ("SAME", "v-clone", ALL, [(RV, "	variants.Sort(func", "	variants = append(representation.Set(nil), variants...)\n	variants.Sort(func")]),
 ("SAME", "v-iface", ALL, [(RV, cut(RVS, "	variants.Sort(func", "	highest := "), "	sort.Stable(byScore{c, variants})\n\n"), (RV, "import (\n", "import (\n	\"sort\"\n\n"), (RV, "// acceptQuality determines the quality", 'type byScore struct {\n\tc   rvsa1\n\tset representation.Set\n}\n\nfunc (b byScore) Len() int           { return len(b.set) }\nfunc (b byScore) Swap(i, j int)      { b.set[i], b.set[j] = b.set[j], b.set[i] }\nfunc (b byScore) Less(i, j int) bool { return b.c.overallQuality(b.set[i]) > b.c.overallQuality(b.set[j]) }\n\n// acceptQuality determines the quality')]),
 ("SAME", "v-ifacerev", ALL, [(RV, cut(RVS, "	variants.Sort(func", "	highest := "), "	sort.Stable(sort.Reverse(byScore{c, variants}))\n\n"), (RV, "import (\n", "import (\n	\"sort\"\n\n"), (RV, "// acceptQuality determines the quality", 'type byScore struct {\n\tc   rvsa1\n\tset representation.Set\n}\n\nfunc (b byScore) Len() int           { return len(b.set) }\nfunc (b byScore) Swap(i, j int)      { b.set[i], b.set[j] = b.set[j], b.set[i] }\nfunc (b byScore) Less(i, j int) bool { return b.c.overallQuality(b.set[i]) < b.c.overallQuality(b.set[j]) }\n\n// acceptQuality determines the quality')]),
 ("BUG", "v-ifaceunstable", "C14", [(RV, cut(RVS, "	variants.Sort(func", "	highest := "), "	sort.Sort(byScore{c, variants})\n\n"), (RV, "import (\n", "import (\n	\"sort\"\n\n"), (RV, "// acceptQuality determines the quality", 'type byScore struct {\n\tc   rvsa1\n\tset representation.Set\n}\n\nfunc (b byScore) Len() int           { return len(b.set) }\nfunc (b byScore) Swap(i, j int)      { b.set[i], b.set[j] = b.set[j], b.set[i] }\nfunc (b byScore) Less(i, j int) bool { return b.c.overallQuality(b.set[i]) > b.c.overallQuality(b.set[j]) }\n\n// acceptQuality determines the quality')]),
 ("BUG", "v-ifaceasc", "C14", [(RV, cut(RVS, "	variants.Sort(func", "	highest := "), "	sort.Stable(sort.Reverse(byScore{c, variants}))\n\n"), (RV, "import (\n", "import (\n	\"sort\"\n\n"), (RV, "// acceptQuality determines the quality", 'type byScore struct {\n\tc   rvsa1\n\tset representation.Set\n}\n\nfunc (b byScore) Len() int           { return len(b.set) }\nfunc (b byScore) Swap(i, j int)      { b.set[i], b.set[j] = b.set[j], b.set[i] }\nfunc (b byScore) Less(i, j int) bool { return b.c.overallQuality(b.set[i]) > b.c.overallQuality(b.set[j]) }\n\n// acceptQuality determines the quality')]),
 ("BUG", "v-ifaceswap", "C14", [(RV, cut(RVS, "	variants.Sort(func", "	highest := "), "	sort.Stable(byScore{c, variants})\n\n"), (RV, "import (\n", "import (\n	\"sort\"\n\n"), (RV, "// acceptQuality determines the quality", 'type byScore struct {\n\tc   rvsa1\n\tset representation.Set\n}\n\nfunc (b byScore) Len() int           { return len(b.set) }\nfunc (b byScore) Swap(i, j int)      { b.set[i] = b.set[j] }\nfunc (b byScore) Less(i, j int) bool { return b.c.overallQuality(b.set[i]) > b.c.overallQuality(b.set[j]) }\n\n// acceptQuality determines the quality')]),
 ("BUG", "nb-port81", "C10", [("transparent/transparent.go", 'u.Hostname(), 80)', 'u.Hostname(), 81)')]),
 ("BUG", "nb-portany", "C10", [("transparent/transparent.go", 'if u.Port() == "" {', 'if u.Port() == "" || u.Port() == "8080" {')]),
 ("BUG", "nb-portlow", "C10", [("transparent/transparent.go", 'if u.Port() == "" {', 'if len(u.Port()) < 4 {')]),
 ("BUG", "nb-dot", "C10", [("transparent/transparent.go", 'u.Host = strings.ToLower(u.Host)', 'u.Host = strings.TrimSuffix(strings.ToLower(u.Host), ".com")')]),
 ("BUG", "nb-https", "C10", [("transparent/transparent.go", 'u.Scheme = strings.ToLower(u.Scheme)', 'u.Scheme = strings.TrimSuffix(strings.ToLower(u.Scheme), "s")')]),
 ("BUG", "gs-always", "C10", [("transparent/transparent.go", "	if negotiate.Contains(header.NegotiateDirectiveGuessSmall) {\n		list", "	if shouldChoose {\n		list")]),
 ("SAME", "r-nb-noport", "C10", [("transparent/transparent.go", 'if u.Port() == "" {\n				u.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)', 'if p := u.Port(); len(p) == 0 {\n				u.Host = fmt.Sprintf("%s:80", u.Hostname())')]),
 ("SAME", "r-gs-int", "C10", [("transparent/transparent.go", 'diff := math.Abs(float64(len(listBytes) - len(choiceBytes)))', 'diff := int(math.Abs(float64(len(listBytes) - len(choiceBytes))))'), ("transparent/transparent.go", "diff > float64(n.guessSmallThreshold)", "diff > n.guessSmallThreshold")]),
 ('SAME', 'r-nb-fieldwise', "C10", [('transparent/transparent.go', '\t// https://tools.ietf.org/html/rfc2068#section-3.2.3\n\tsameURL := func(one, two url.URL) bool {\n\t\tnormalizePort := func(u url.URL) url.URL {\n\t\t\tif u.Port() == "" {\n\t\t\t\tu.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\tnormalizePath := func(u url.URL) url.URL {\n\t\t\tif u.Path == "" {\n\t\t\t\tu.Path = "/"\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\tnormalizeScheme := func(u url.URL) url.URL {\n\t\t\tu.Scheme = strings.ToLower(u.Scheme)\n\t\t\treturn u\n\t\t}\n\t\tnormalizeHostName := func(u url.URL) url.URL {\n\t\t\tu.Host = strings.ToLower(u.Host)\n\t\t\treturn u\n\t\t}\n\t\tnormalize := func(u url.URL) url.URL {\n\t\t\tnormalizers := []func(url.URL) url.URL{\n\t\t\t\tnormalizeHostName,\n\t\t\t\tnormalizePath,\n\t\t\t\tnormalizePort,\n\t\t\t\tnormalizeScheme,\n\t\t\t}\n\t\t\tfor _, n := range normalizers {\n\t\t\t\tu = n(u)\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\to, t := normalize(one), normalize(two)\n\t\treturn (&o).String() == (&t).String()\n\t}\n\n\t// https://tools.ietf.org/html/rfc2296#section-3.5\n\tisNeighbor := func(neighborURL, resourceURL url.URL) bool {\n\t\ttrim := func(u url.URL) url.URL {\n\t\t\tif lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {\n\t\t\t\tu.Path = u.Path[:lastSlash]\n\t\t\t}\n\t\t\tu.RawQuery, u.ForceQuery, u.Fragment = "", false, ""\n\t\t\treturn u\n\t\t}\n\t\treturn sameURL(trim(neighborURL), trim(resourceURL))\n\t}\n\n', '\t// https://tools.ietf.org/html/rfc2068#section-3.2.3\n\thostPort := func(u url.URL) string {\n\t\th := strings.ToLower(u.Host)\n\t\tif u.Port() == "" {\n\t\t\th = strings.ToLower(u.Hostname()) + fmt.Sprintf(":%d", 80)\n\t\t}\n\t\treturn h\n\t}\n\tdir := func(u url.URL) string {\n\t\tp := u.Path\n\t\tif i := strings.LastIndex(p, "/"); i != -1 {\n\t\t\tp = p[:i]\n\t\t}\n\t\tif p == "" {\n\t\t\treturn "/"\n\t\t}\n\t\treturn p\n\t}\n\tisNeighbor := func(one, two url.URL) bool {\n\t\treturn strings.EqualFold(one.Scheme, two.Scheme) && hostPort(one) == hostPort(two) && dir(one) == dir(two)\n\t}\n\n')]),
 ('SAME', 'r-nb-chain', "C10", [('transparent/transparent.go', '\t// https://tools.ietf.org/html/rfc2068#section-3.2.3\n\tsameURL := func(one, two url.URL) bool {\n\t\tnormalizePort := func(u url.URL) url.URL {\n\t\t\tif u.Port() == "" {\n\t\t\t\tu.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\tnormalizePath := func(u url.URL) url.URL {\n\t\t\tif u.Path == "" {\n\t\t\t\tu.Path = "/"\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\tnormalizeScheme := func(u url.URL) url.URL {\n\t\t\tu.Scheme = strings.ToLower(u.Scheme)\n\t\t\treturn u\n\t\t}\n\t\tnormalizeHostName := func(u url.URL) url.URL {\n\t\t\tu.Host = strings.ToLower(u.Host)\n\t\t\treturn u\n\t\t}\n\t\tnormalize := func(u url.URL) url.URL {\n\t\t\tnormalizers := []func(url.URL) url.URL{\n\t\t\t\tnormalizeHostName,\n\t\t\t\tnormalizePath,\n\t\t\t\tnormalizePort,\n\t\t\t\tnormalizeScheme,\n\t\t\t}\n\t\t\tfor _, n := range normalizers {\n\t\t\t\tu = n(u)\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\to, t := normalize(one), normalize(two)\n\t\treturn (&o).String() == (&t).String()\n\t}\n\n\t// https://tools.ietf.org/html/rfc2296#section-3.5\n\tisNeighbor := func(neighborURL, resourceURL url.URL) bool {\n\t\ttrim := func(u url.URL) url.URL {\n\t\t\tif lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {\n\t\t\t\tu.Path = u.Path[:lastSlash]\n\t\t\t}\n\t\t\tu.RawQuery, u.ForceQuery, u.Fragment = "", false, ""\n\t\t\treturn u\n\t\t}\n\t\treturn sameURL(trim(neighborURL), trim(resourceURL))\n\t}\n\n', '\t// https://tools.ietf.org/html/rfc2068#section-3.2.3\n\tsameURL := func(one, two url.URL) bool {\n\t\tnormalizePort := func(u url.URL) url.URL {\n\t\t\tif u.Port() == "" {\n\t\t\t\tu.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\tnormalizePath := func(u url.URL) url.URL {\n\t\t\tif u.Path == "" {\n\t\t\t\tu.Path = "/"\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\tnormalizeScheme := func(u url.URL) url.URL {\n\t\t\tu.Scheme = strings.ToLower(u.Scheme)\n\t\t\treturn u\n\t\t}\n\t\tnormalizeHostName := func(u url.URL) url.URL {\n\t\t\tu.Host = strings.ToLower(u.Host)\n\t\t\treturn u\n\t\t}\n\t\tnormalize := func(u url.URL) url.URL {\n\t\t\treturn normalizeScheme(normalizePort(normalizePath(normalizeHostName(u))))\n\t\t}\n\t\to, t := normalize(one), normalize(two)\n\t\treturn (&o).String() == (&t).String()\n\t}\n\n\t// https://tools.ietf.org/html/rfc2296#section-3.5\n\tisNeighbor := func(neighborURL, resourceURL url.URL) bool {\n\t\ttrim := func(u url.URL) url.URL {\n\t\t\tif lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {\n\t\t\t\tu.Path = u.Path[:lastSlash]\n\t\t\t}\n\t\t\tu.RawQuery, u.ForceQuery, u.Fragment = "", false, ""\n\t\t\treturn u\n\t\t}\n\t\treturn sameURL(trim(neighborURL), trim(resourceURL))\n\t}\n\n')]),
 ('SAME', 'r-nb-struct', "C10", [('transparent/transparent.go', '\t// https://tools.ietf.org/html/rfc2068#section-3.2.3\n\tsameURL := func(one, two url.URL) bool {\n\t\tnormalizePort := func(u url.URL) url.URL {\n\t\t\tif u.Port() == "" {\n\t\t\t\tu.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\tnormalizePath := func(u url.URL) url.URL {\n\t\t\tif u.Path == "" {\n\t\t\t\tu.Path = "/"\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\tnormalizeScheme := func(u url.URL) url.URL {\n\t\t\tu.Scheme = strings.ToLower(u.Scheme)\n\t\t\treturn u\n\t\t}\n\t\tnormalizeHostName := func(u url.URL) url.URL {\n\t\t\tu.Host = strings.ToLower(u.Host)\n\t\t\treturn u\n\t\t}\n\t\tnormalize := func(u url.URL) url.URL {\n\t\t\tnormalizers := []func(url.URL) url.URL{\n\t\t\t\tnormalizeHostName,\n\t\t\t\tnormalizePath,\n\t\t\t\tnormalizePort,\n\t\t\t\tnormalizeScheme,\n\t\t\t}\n\t\t\tfor _, n := range normalizers {\n\t\t\t\tu = n(u)\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\to, t := normalize(one), normalize(two)\n\t\treturn (&o).String() == (&t).String()\n\t}\n\n\t// https://tools.ietf.org/html/rfc2296#section-3.5\n\tisNeighbor := func(neighborURL, resourceURL url.URL) bool {\n\t\ttrim := func(u url.URL) url.URL {\n\t\t\tif lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {\n\t\t\t\tu.Path = u.Path[:lastSlash]\n\t\t\t}\n\t\t\tu.RawQuery, u.ForceQuery, u.Fragment = "", false, ""\n\t\t\treturn u\n\t\t}\n\t\treturn sameURL(trim(neighborURL), trim(resourceURL))\n\t}\n\n', '\tneighborhood := func(u url.URL) string {\n\t\tdir := "/"\n\t\tif last := strings.LastIndexByte(u.Path, \'/\'); last >= 1 {\n\t\t\tdir = u.Path[:last]\n\t\t} else if last < 0 && u.Path != "" {\n\t\t\tdir = u.Path\n\t\t}\n\t\thost := strings.ToLower(u.Host)\n\t\tif u.Port() == "" {\n\t\t\thost = fmt.Sprintf("%s:%d", strings.ToLower(u.Hostname()), 80)\n\t\t}\n\t\tv := url.URL{Scheme: strings.ToLower(u.Scheme), Host: host, Path: dir}\n\t\treturn v.String()\n\t}\n\tisNeighbor := func(a, b url.URL) bool { return neighborhood(a) == neighborhood(b) }\n\n')]),
 ('SAME', 'r-nb-ports', "C10", [('transparent/transparent.go', '\t// https://tools.ietf.org/html/rfc2068#section-3.2.3\n\tsameURL := func(one, two url.URL) bool {\n\t\tnormalizePort := func(u url.URL) url.URL {\n\t\t\tif u.Port() == "" {\n\t\t\t\tu.Host = fmt.Sprintf("%s:%d", u.Hostname(), 80)\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\tnormalizePath := func(u url.URL) url.URL {\n\t\t\tif u.Path == "" {\n\t\t\t\tu.Path = "/"\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\tnormalizeScheme := func(u url.URL) url.URL {\n\t\t\tu.Scheme = strings.ToLower(u.Scheme)\n\t\t\treturn u\n\t\t}\n\t\tnormalizeHostName := func(u url.URL) url.URL {\n\t\t\tu.Host = strings.ToLower(u.Host)\n\t\t\treturn u\n\t\t}\n\t\tnormalize := func(u url.URL) url.URL {\n\t\t\tnormalizers := []func(url.URL) url.URL{\n\t\t\t\tnormalizeHostName,\n\t\t\t\tnormalizePath,\n\t\t\t\tnormalizePort,\n\t\t\t\tnormalizeScheme,\n\t\t\t}\n\t\t\tfor _, n := range normalizers {\n\t\t\t\tu = n(u)\n\t\t\t}\n\t\t\treturn u\n\t\t}\n\t\to, t := normalize(one), normalize(two)\n\t\treturn (&o).String() == (&t).String()\n\t}\n\n\t// https://tools.ietf.org/html/rfc2296#section-3.5\n\tisNeighbor := func(neighborURL, resourceURL url.URL) bool {\n\t\ttrim := func(u url.URL) url.URL {\n\t\t\tif lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {\n\t\t\t\tu.Path = u.Path[:lastSlash]\n\t\t\t}\n\t\t\tu.RawQuery, u.ForceQuery, u.Fragment = "", false, ""\n\t\t\treturn u\n\t\t}\n\t\treturn sameURL(trim(neighborURL), trim(resourceURL))\n\t}\n\n', '\tport := func(u url.URL) string {\n\t\tif p := u.Port(); p != "" {\n\t\t\treturn p\n\t\t}\n\t\treturn fmt.Sprint("80")\n\t}\n\tdir := func(u url.URL) string {\n\t\tif i := strings.LastIndex(u.Path, "/"); i > 0 {\n\t\t\treturn u.Path[:i]\n\t\t}\n\t\treturn "/"\n\t}\n\tisNeighbor := func(one, two url.URL) bool {\n\t\tif !strings.EqualFold(one.Scheme, two.Scheme) {\n\t\t\treturn false\n\t\t}\n\t\tif !strings.EqualFold(one.Hostname(), two.Hostname()) || port(one) != port(two) {\n\t\t\treturn false\n\t\t}\n\t\treturn dir(one) == dir(two)\n\t}\n\n')]),
 ('SAME', 'r-nb-fold', "C10", [('transparent/transparent.go', '(&o).String() == (&t).String()', 'strings.EqualFold(o.Scheme, t.Scheme) && strings.EqualFold(o.Host, t.Host) && o.Path == t.Path && o.RawQuery == t.RawQuery && o.Fragment == t.Fragment')]),
 ('BUG', 'nb-caseh', "C10", [('transparent/transparent.go', 'u.Host = strings.ToLower(u.Host)', 'u.Host = u.Host + ""')]),
 ('BUG', 'nb-cases', "C10", [('transparent/transparent.go', 'u.Scheme = strings.ToLower(u.Scheme)', 'u.Scheme = u.Scheme + ""')]),
 ('BUG', 'nb-noport', "C10", [('transparent/transparent.go', 'u.Host = strings.ToLower(u.Host)\n', 'u.Host = strings.ToLower(u.Hostname())\n')]),
 ('BUG', 'nb-foldpath', "C10", [('transparent/transparent.go', '(&o).String() == (&t).String()', 'strings.EqualFold(o.String(), t.String())')]),
 ('BUG', 'nb-first', "C10", [('transparent/transparent.go', 'strings.LastIndex(u.Path, "/")', 'strings.Index(u.Path[1:], "/") + 1')]),
 ('BUG', 'nb-cutlong', "C10", [('transparent/transparent.go', 'lastSlash != -1 {', 'lastSlash != -1 && len(u.Path) < 60 {')]),
 ('BUG', 'nb-req-only', "C10", [('transparent/transparent.go', 'if u.Path == "" {\n\t\t\t\tu.Path = "/"', 'if u.Path == "" && u.Host != "" {\n\t\t\t\tu.Path = "/"')]),
 ('BUG', 'nb-443', "C10", [('transparent/transparent.go', 'if u.Port() == "" {', 'if u.Port() == "" && u.Scheme != "https" {')]),
]
