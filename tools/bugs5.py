P, T, R, H, S = "proactive", "transparent", "reactive", "internal/header", "representation"
PP, TT, RR = "proactive/proactive.go", "transparent/transparent.go", "reactive/reactive.go"
AP, RV = "proactive/apache_httpd.go", "transparent/rvsa.go"
def T_(body): return "\nfunc TestSeededDemo(t *testing.T) {\n" + body + "\n}\n"
HDR = "github.com/freerware/negotiator/internal/header"
FULL = '"Accept", "text/plain", "Accept-Language", "en", "Accept-Charset", "utf-8"'
DEF = 'ct: "text/plain", cl: "en", cc: "utf-8", sq: 1'
BUGS = [
dict(id="not-acceptable-language-needs-charset", property="C01", pkg=P, edits=[(PP, """	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
	ctx.ResponseWriter.Header().Add("Content-Type", ct)
	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
	ctx.ResponseWriter.Header().Add("Content-Language", clang)
	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
	ctx.ResponseWriter.WriteHeader(status)
	if _, err = ctx.ResponseWriter.Write(b); err == nil {
		n.logger.Info("not acceptable",""", """	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
	ctx.ResponseWriter.Header().Add("Content-Type", ct)
	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
	if clang != "" && cc == "" {
		clang = ""
	}
	ctx.ResponseWriter.Header().Add("Content-Language", clang)
	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
	ctx.ResponseWriter.WriteHeader(status)
	if _, err = ctx.ResponseWriter.Write(b); err == nil {
		n.logger.Info("not acceptable",""")],
 needs="a list representation with a language but no charset", what="the 406 response does not tell the language of its body",
 test=T_("""	w, err := serve(proactive.New(proactive.Representations(lists(variant{ct: "text/plain", cl: "nl", sq: 1, body: "x"}))), request("Accept", "text/plain, image/png;q=0"),
		variant{ct: "image/gif", cl: "en", cc: "utf-8", sq: 1, body: "a"})
	if err != nil || w.Code != 406 || w.Header().Get("Content-Language") != "nl" {
		t.Fatal(err, w.Code, w.Header())
	}""")),
dict(id="acceptable-body-trimmed", property="C01", pkg=P, edits=[(PP, """	if _, err = ctx.ResponseWriter.Write(b); err == nil {
		n.logger.Info("acceptable",""", """	if _, err = ctx.ResponseWriter.Write([]byte(strings.TrimRight(string(b), "\\n"))); err == nil {
		n.logger.Info("acceptable",""")],
 needs="a body that ends with a line break", what="the body sent is shorter than Content-Length says",
 test=T_("""	w, err := serve(proactive.New(), request(), variant{%s, body: "line\\n"})
	if err != nil || w.Body.String() != "line\\n" {
		t.Fatalf("%%v %%q", err, w.Body.String())
	}""" % DEF)),
dict(id="created-charset-late", property="C02", pkg=P, edits=[(PP, """	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
	ctx.ResponseWriter.WriteHeader(status)
	if _, err = ctx.ResponseWriter.Write(b); err == nil {
		n.logger.Info("acceptable",""", """	if !ctx.IsCreation {
		ctx.ResponseWriter.Header().Add("Content-Charset", cc)
	}
	ctx.ResponseWriter.WriteHeader(status)
	if ctx.IsCreation {
		ctx.ResponseWriter.Header().Add("Content-Charset", cc)
	}
	if _, err = ctx.ResponseWriter.Write(b); err == nil {
		n.logger.Info("acceptable",""")],
 needs="a creation", what="a header is set after the status was written, so it is not sent",
 test=T_("""	w := httptest.NewRecorder()
	err := proactive.New().Negotiate(negotiator.NegotiationContext{Request: request(), ResponseWriter: w, IsCreation: true}, variant{%s, body: "a"})
	if err != nil || w.Result().Header.Get("Content-Charset") != "utf-8" {
		t.Fatal(err, w.Result().Header)
	}""" % DEF)),
dict(id="guess-hides-failure", property="C03", pkg=T, imports=["errors"], edits=[(TT, """		if choiceBytes, err = rep.Bytes(); err != nil {
			return err
		}
""", """		if choiceBytes, err = rep.Bytes(); err != nil {
			return n.listResponse(ctx, reps...)
		}
"""), (TT, """	a, err := header.NewAlternates(reps[0], reps...)
	if err != nil {
		return err
	}
	t, err := header.NewTCN([]string{header.ResponseTypeList""", """	a, err := header.NewAlternates(reps[0], reps...)
	if err != nil && len(ctx.Request.Header["Negotiate"]) == 0 {
		return err
	}
	t, err := header.NewTCN([]string{header.ResponseTypeList""")],
 needs="guess-small and a chosen variant that cannot be serialized", what="the failure to serialize is not returned",
 test=T_("""	_, err := serve(transparent.New(), request("Negotiate", "1.0, guess-small", %s),
		variant{loc: "http://example.com/dir/a", %s, err: errors.New("broken")})
	if err == nil {
		t.Fatal("no error")
	}""" % (FULL, DEF))),
dict(id="default-hides-chooser-failure", property="C03", pkg=P, imports=["errors"], edits=[(PP, """	if chosen, err = n.chooser.Choose(ctx.Request, lists...); err != nil {
		return err
	}
""", """	if chosen, err = n.chooser.Choose(ctx.Request, lists...); err != nil && n.defaultRepresentationConstructor == nil {
		return err
	}
""")],
 needs="a chooser that fails for the lists", what="the failure of the chooser is not returned", test="""
type failing struct{}

func (failing) Choose(*http.Request, ...representation.Representation) (representation.Representation, error) {
	return nil, errors.New("broken")
}
""" + T_("""	_, err := serve(proactive.New(proactive.Algorithm(failing{})), request("Accept", "image/png"), variant{%s})
	if err == nil {
		t.Fatal("no error")
	}""" % DEF)),
dict(id="no-content-unless-creation", property="C04", pkg=P, edits=[(PP, "	if len(reps) == 0 {\n", "	if len(reps) == 0 && !ctx.IsCreation {\n")],
 needs="a creation without representations", what="it is answered with 406", test=T_("""	w := httptest.NewRecorder()
	err := proactive.New().Negotiate(negotiator.NegotiationContext{Request: request(), ResponseWriter: w, IsCreation: true})
	if err != nil || w.Code != 204 {
		t.Fatal(err, w.Code)
	}""")),
dict(id="created-unless-put", property="C05", pkg=P, edits=[(PP, "	if ctx.IsCreation {\n", "	if ctx.IsCreation && ctx.Request.Method != http.MethodPut {\n")],
 needs="a creation by PUT", what="it is answered with 200", test=T_("""	w := httptest.NewRecorder()
	r := request()
	r.Method = "PUT"
	err := proactive.New().Negotiate(negotiator.NegotiationContext{Request: r, ResponseWriter: w, IsCreation: true}, variant{%s})
	if err != nil || w.Code != 201 {
		t.Fatal(err, w.Code)
	}""" % DEF)),
dict(id="reactive-single-ok", property="C05", pkg=R, edits=[(RR, """	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))""", """	if len(reps) == 1 && ctx.Request.Method == http.MethodHead {
		status = http.StatusOK
	}
	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))""")],
 needs="a HEAD request for a single representation", what="the reactive response is 200", test=T_("""	r := request()
	r.Method = "HEAD"
	w, err := serve(reactive.New(), r, variant{%s})
	if err != nil || w.Code != 300 {
		t.Fatal(err, w.Code)
	}""" % DEF)),
dict(id="language-gate-after-type", property="C06", pkg=P, edits=[(PP, """		} else if !c {
			alc++
		}
""", """		} else if !c && ac < len(reps) {
			alc++
		}
""")],
 needs="Accept not strict, and neither types nor languages match", what="the last representation does not count as a language mismatch", test=T_("""	w, err := serve(proactive.New(proactive.DisableStrictAccept(), proactive.Algorithm(first{})), request("Accept", "image/png", "Accept-Language", "fr"), variant{%s})
	if err != nil || w.Code != 406 {
		t.Fatal(err, w.Code)
	}""" % DEF) + """
type first struct{}

func (first) Choose(_ *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	return reps[0], nil
}
"""),
dict(id="accept-gate-needs-charset", property="C06", pkg=P, edits=[(PP, "	if len(reps) == ac && n.strictAccept {", "	if len(reps) == ac && n.strictAccept && (hasHeader || acc == 0) {")],
 needs="an algorithm that ignores Accept, and charset mismatches without the header", what="the gate for Accept depends on Accept-Charset", test=T_("") ) if False else None,
dict(id="default-lists-first", property="C07", pkg=P, edits=[(PP, "		chosen = n.defaultRepresentationConstructor(reps...)\n", "		chosen = n.defaultRepresentationConstructor(reps[:len(reps)-len(reps)/10]...)\n")],
 needs="ten variants or more, and lists that are not acceptable", what="the default list leaves out the last variants", test=T_("""	var reps []representation.Representation
	for i := 0; i < 10; i++ {
		reps = append(reps, variant{%s})
	}
	got := 0
	w, err := serve(proactive.New(proactive.DefaultRepresentation(func(reps ...representation.Representation) representation.Representation {
		got = len(reps)
		return variant{ct: "text/plain"}
	})), request("Accept", "image/png"), reps...)
	if err != nil || w.Code != 406 || got != 10 {
		t.Fatal(err, w.Code, got)
	}""" % DEF)),
dict(id="bound-wraps", property="C08", pkg=T, edits=[(TT, "	if len(reps) > n.maximumVariantListSize {", "	if len(reps)%256 > n.maximumVariantListSize {")],
 needs="256 variants or more", what="more variants than the bound are listed", test=T_("""	var reps []representation.Representation
	for i := 0; i < 257; i++ {
		reps = append(reps, variant{%s})
	}
	_, err := serve(transparent.New(), request("Negotiate", "1.0"), reps...)
	if err == nil {
		t.Fatal("no error")
	}""" % DEF)),
dict(id="newer-rvsa-chooses", property="C09", pkg=T, edits=[(TT, """		negotiate.ContainsRVSA("1.0") ||""", """		negotiate.ContainsRVSA("1.0") || negotiate.ContainsRVSA("1.1") ||""")],
 needs="a user agent that only lets the server use version 1.1 of the algorithm", what="the server chooses", test=T_("""	w, err := serve(transparent.New(), request("Negotiate", "1.1", %s), variant{loc: "http://example.com/dir/a", %s, body: "a"})
	if err != nil || w.Code != 300 {
		t.Fatal(err, w.Code)
	}""" % (FULL, DEF))),
dict(id="neighbor-www", property="C10", pkg=T, edits=[(TT, "			u.Host = strings.ToLower(u.Host)\n", "			u.Host = strings.TrimPrefix(strings.ToLower(u.Host), \"www.\")\n")],
 needs="a variant on the same host with www. before", what="a variant of another host is a neighbor", test=T_("""	w, err := serve(transparent.New(), request("Negotiate", "1.0", %s), variant{loc: "http://www.example.com/dir/a", %s, body: "a"})
	if err != nil || w.Code != 300 {
		t.Fatal(err, w.Code)
	}""" % (FULL, DEF))),
dict(id="guess-threshold-inclusive-factor", property="C10", pkg=T, edits=[(TT, "		diff := math.Abs(float64(len(listBytes) - len(choiceBytes)))\n", "		diff := math.Abs(float64(len(listBytes) - len(choiceBytes)/8*8))\n")],
 needs="a choice that is between one and seven bytes too large", what="a guessed choice is larger than the list by more than the threshold", test=T_("""	n := transparent.New(transparent.GuessSmallThreshold(0), transparent.ListRepresentation(lists(variant{ct: "text/plain", body: "12345678"})))
	w, err := serve(n, request("Negotiate", "guess-small", %s), variant{loc: "http://example.com/dir/a", %s, body: "123456789"})
	if err != nil || w.Code != 300 {
		t.Fatal(err, w.Code)
	}""" % (FULL, DEF))),
dict(id="alternates-shared-length", property="C11", pkg=H, imports=[HDR, "strings"], edits=[("internal/header/alternates.go", "	var descriptions []variantDescription\n	for _, rep := range reps {\n		bytes, err := rep.Bytes()\n		if err != nil {\n			return Alternates{}, err\n		}\n", """	var descriptions []variantDescription
	var length int
	for _, rep := range reps {
		bytes, err := rep.Bytes()
		if err != nil {
			return Alternates{}, err
		}
		if len(bytes) > 0 {
			length = len(bytes)
		}
"""), ("internal/header/alternates.go", "len(bytes),", "length,")],
 needs="an empty variant after another", what="it is listed with the length of the one before", test=T_("""	a, err := header.NewAlternates(nil, variant{%s, body: "abc"}, variant{%s})
	if s := a.ValuesAsString(); err != nil || !strings.Contains(s, "{ length 0 }") {
		t.Fatal(err, s)
	}""" % (DEF, DEF))),
dict(id="utf8-always-acceptable", property="C12", pkg=P, edits=[(AP, """	if rep.ContentCharset() == "" || acceptCharset.IsEmpty() {""", """	if rep.ContentCharset() == "" || acceptCharset.IsEmpty() || rep.ContentCharset() == "us-ascii" {""")],
 needs="a variant in us-ascii, and a request that does not accept it", what="it is chosen", test=T_("""	w, err := serve(proactive.New(proactive.DisableStrictMode()), request("Accept-Charset", "utf-8"), variant{ct: "text/plain", cl: "en", cc: "us-ascii", sq: 1})
	if err != nil || w.Code != 406 {
		t.Fatal(err, w.Code)
	}""")),
dict(id="not-latin-family", property="C13", pkg=P, edits=[(AP, """strings.ToLower(v.ContentCharset()) != "iso-8859-1\"""", """!strings.HasPrefix(strings.ToLower(v.ContentCharset()), "iso-8859-1")""")],
 needs="a variant in iso-8859-15 and one in iso-8859-1", what="both are kept, so the smaller is chosen", test=T_("""	w, err := serve(proactive.New(), request(), variant{ct: "text/plain", cl: "en", cc: "iso-8859-1", sq: 1, body: "a"}, variant{ct: "text/plain", cl: "en", cc: "iso-8859-15", sq: 1, body: "aaa"})
	if err != nil || w.Body.String() != "aaa" {
		t.Fatal(err, w.Body.String())
	}""")),
dict(id="level-wraps", property="C13", pkg=P, edits=[(AP, "hwl{v, int(lNum)}", "hwl{v, int(int8(lNum))}")],
 needs="a level above 127", what="the highest level is not preferred", test=T_("""	w, err := serve(proactive.New(), request(), variant{ct: "text/html;level=1", cl: "en", cc: "utf-8", sq: 1, body: "a"}, variant{ct: "text/html;level=200", cl: "en", cc: "utf-8", sq: 1, body: "aaa"})
	if err != nil || w.Body.String() != "aaa" {
		t.Fatal(err, w.Body.String())
	}""")),
dict(id="wildcard-definite-best", property="C14", pkg=T, edits=[(RV, "			usedWildcard = lr.IsWildcard()\n", "			usedWildcard = lr.IsWildcard() && ql.LessThan(header.QualityValueMaximum)\n")],
 needs="the language matched by a wildcard of weight 1", what="the choice counts as definite", test=T_("""	w, err := serve(transparent.New(), request("Negotiate", "1.0", "Accept", "text/plain", "Accept-Language", "*", "Accept-Charset", "utf-8"), variant{loc: "http://example.com/dir/a", %s, body: "a"})
	if err != nil || w.Code != 300 {
		t.Fatal(err, w.Code)
	}""" % DEF)),
dict(id="missing-language-inferred", property="C15", pkg=T, edits=[(RV, """	if rep.ContentLanguage() == "" {
		return header.QualityValueMaximum, false
	}
""", """	if rep.ContentLanguage() == "" && rep.ContentCharset() == "" {
		return header.QualityValueMaximum, false
	}
""")],
 needs="a variant with a charset but no language", what="its language quality depends on Accept-Language", test=T_("""	w, err := serve(transparent.New(), request("Negotiate", "1.0", "Accept", "text/plain", "Accept-Language", "fr", "Accept-Charset", "utf-8"), variant{loc: "http://example.com/dir/a", ct: "text/plain", cc: "utf-8", sq: 1, body: "a"})
	if err != nil || w.Code != 200 {
		t.Fatal(err, w.Code)
	}""")),
dict(id="small-weight-default", property="C16", pkg=H, imports=[HDR], edits=[("internal/header/media_range.go", "		mr.qValue = qv\n", "		if v >= 0.0015 || v == 0 {\n			mr.qValue = qv\n		}\n")],
 needs="the weight 0.001", what="it counts as 1", test=T_("""	a, err := header.NewAccept([]string{"text/html;q=0.001"})
	if err != nil || a[0].QualityValue() > 0.5 {
		t.Fatal(a, err)
	}""")),
dict(id="subtype-any-params", property="C18", pkg=H, imports=[HDR], edits=[("internal/header/media_range.go", "				matchedParams = false\n", "				matchedParams = len(mr.params) > 1 && mr.IsSubTypeWildcard()\n")],
 needs="a subtype wildcard with parameters and a weight", what="it matches a media type without the parameter", test=T_("""	a, err := header.NewAccept([]string{"text/*;level=1;q=0.5"})
	if err != nil {
		t.Fatal(err)
	}
	if ok, err := a.Compatible("text/html"); ok || err != nil {
		t.Fatal(ok, err)
	}""")),
dict(id="default-list-shared", property="C24", pkg=T, edits=[(TT, "	a, err := header.NewAlternates(reps[0], reps...)\n", """	// the fallback comes first.
	if reps[0].SourceQuality() < reps[len(reps)-1].SourceQuality() {
		reps[0], reps[len(reps)-1] = reps[len(reps)-1], reps[0]
	}
	a, err := header.NewAlternates(reps[0], reps...)
""")],
 needs="a list response for variants of which the last has a higher source quality", what="the variants of the caller are put in another order", test=T_("""	reps := []representation.Representation{variant{loc: "http://example.com/dir/a", %s, body: "a"}, variant{loc: "http://example.com/dir/b", ct: "text/plain", sq: 2, body: "b"}}
	if _, err := serve(transparent.New(), request("Negotiate", "vlist"), reps...); err != nil {
		t.Fatal(err)
	}
	if reps[0].(variant).body != "a" {
		t.Fatal("the variants were put in another order")
	}""" % DEF)),
dict(id="bound-error-uncounted", property="C25", pkg=T, imports=["github.com/uber-go/tally"], edits=[(TT, """	if len(reps) > n.maximumVariantListSize {
		return ErrVariantListSizeExceeded
	}
""", """	if len(reps) > n.maximumVariantListSize && len(reps) > 16 {
		n = New()
		return ErrVariantListSizeExceeded
	}
	if len(reps) > n.maximumVariantListSize {
		return ErrVariantListSizeExceeded
	}
""")],
 needs="more than sixteen variants", what="the error is not counted", test=T_("""	s := tally.NewTestScope("", nil)
	var reps []representation.Representation
	for i := 0; i < 17; i++ {
		reps = append(reps, variant{%s})
	}
	if _, err := serve(transparent.New(transparent.Scope(s)), request(), reps...); err == nil {
		t.Fatal("no error")
	}
	total := int64(0)
	for _, c := range s.Snapshot().Counters() {
		total += c.Value()
	}
	if total != 1 {
		t.Fatal(total)
	}""" % DEF)),
dict(id="threshold-percent", property="C26", pkg=T, edits=[("transparent/transparent_options.go", """		return func(o *Options) {
			o.GuessSmallThreshold = threshold
		}
""", """		return func(o *Options) {
			if threshold >= 0 {
				o.GuessSmallThreshold = threshold % 65536
			}
		}
""")],
 needs="a threshold of 65536 or more", what="the threshold configured is another", test=T_("""	n := transparent.New(transparent.GuessSmallThreshold(70000), transparent.ListRepresentation(lists(variant{ct: "text/plain"})))
	body := make([]byte, 60000)
	w, err := serve(n, request("Negotiate", "guess-small", %s), variant{loc: "http://example.com/dir/a", %s, body: string(body)})
	if err != nil || w.Code != 200 {
		t.Fatal(err, w.Code)
	}""" % (FULL, DEF))),
dict(id="strict-mode-order", property="C26", pkg=P, edits=[("proactive/proactive_options.go", """			o.StrictAccept = false
			o.StrictAcceptLanguage = false
			o.StrictAcceptCharset = false
""", """			o.StrictAccept = false
			o.StrictAcceptLanguage = false
			o.StrictAcceptCharset = o.StrictAcceptCharset && !o.NotAcceptableRepresentation
""")],
 needs="strict mode disabled after the 406 representation was", what="Accept-Charset is still strict", test="""
type first struct{}

func (first) Choose(_ *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	return reps[0], nil
}
""" + T_("""	w, err := serve(proactive.New(proactive.DisableNotAcceptableRepresentation(), proactive.DisableStrictMode(), proactive.Algorithm(first{})), request("Accept-Charset", "x"), variant{%s})
	if err != nil || w.Code != 200 {
		t.Fatal(err, w.Code)
	}""" % DEF)),
dict(id="sole-list-panic", property="C27", pkg=P, edits=[(AP, "	return variants.First().Representation, nil\n}", "	if variants.Size() > 1 {\n		return variants[variants.Size()-2].Representation, nil\n	}\n	return variants.First().Representation, nil\n}")],
 needs="three equally good variants", what="not a panic, but the first is not chosen", test=T_("")) if False else None,
dict(id="short-type-panic", property="C27", pkg=T, edits=[(TT, "			if lastSlash := strings.LastIndex(u.Path, \"/\"); lastSlash != -1 {\n", "			if lastSlash := strings.LastIndex(u.Path, \"/\"); lastSlash != -1 || u.Host == \"\" {\n")],
 needs="a variant whose location has neither host nor slash", what="the negotiation panics", test=T_("""	w, err := serve(transparent.New(), request("Negotiate", "1.0", %s), variant{loc: "doc.en", %s, body: "a"})
	if err != nil || w.Code != 300 {
		t.Fatal(err, w.Code)
	}""" % (FULL, DEF))),
dict(id="language-lists-joined", property="C17", pkg=H, imports=[HDR], edits=[("internal/header/accept_language.go", "language.ParseAcceptLanguage(strings.Join(acceptLanguage, \",\"))", "language.ParseAcceptLanguage(strings.Join(acceptLanguage[:(len(acceptLanguage)+7)%8+1], \",\"))")],
 needs="nine header lines", what="only the first is read", test=T_("""	a, err := header.NewAcceptLanguage([]string{"en", "fr", "de", "nl", "es", "it", "pt", "sv", "da"})
	if err != nil || len(a) != 9 {
		t.Fatal(a, err)
	}""")),
]
BUGS = [b for b in BUGS if b]
