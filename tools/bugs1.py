P, T, R, H, S = "proactive", "transparent", "reactive", "internal/header", "representation"
BUGS = [
dict(id="choice-first-coding", property="C01", pkg=T, edits=[("transparent/transparent.go", """	// serialize.
	b, err := rep.Bytes()
	if err != nil {
		return err
	}

	// respond.
	var (
		clen       = len(b)
		ct         = rep.ContentType()
		ce         = strings.Join(rep.ContentEncoding(), ",")""", """	// serialize.
	b, err := rep.Bytes()
	if err != nil {
		return err
	}

	// respond.
	coding := rep.ContentEncoding()
	if len(coding) > 1 {
		coding = coding[len(coding)-1:]
	}
	var (
		clen       = len(b)
		ct         = rep.ContentType()
		ce         = strings.Join(coding, ",")""")],
 needs="a transparent choice response for a variant with more than one content coding",
 what="Content-Encoding names only the last coding of the body that is sent",
 test="""
func TestSeededDemo(t *testing.T) {
	w, err := serve(transparent.New(), request("Negotiate", "1.0", "Accept", "text/plain", "Accept-Language", "en", "Accept-Charset", "utf-8"),
		variant{loc: "http://example.com/dir/a", ct: "text/plain", cl: "en", cc: "utf-8", ce: []string{"deflate", "gzip"}, sq: 1, body: "a"})
	if err != nil || w.Code != 200 {
		t.Fatal(err, w.Code)
	}
	if ce := w.Header().Get("Content-Encoding"); ce != "deflate,gzip" {
		t.Fatal(ce)
	}
}
"""),
dict(id="list-headers-before-bytes", property="C02", pkg=T, edits=[("transparent/transparent.go", """	// construct representation.
	list := n.listRepresentationConstructor(reps...)
""", """	ctx.ResponseWriter.Header().Add("Alternates", a.ValuesAsString())
	ctx.ResponseWriter.Header().Add("TCN", t.ValuesAsString())

	// construct representation.
	list := n.listRepresentationConstructor(reps...)
"""), ("transparent/transparent.go", """		alternates = a.ValuesAsString()
		tcn        = t.ValuesAsString()
		status     = http.StatusMultipleChoices
	)
	ctx.ResponseWriter.Header().Add("Alternates", alternates)
	ctx.ResponseWriter.Header().Add("TCN", tcn)
""", """		alternates = a.ValuesAsString()
		tcn        = t.ValuesAsString()
		status     = http.StatusMultipleChoices
	)
""")],
 needs="a list representation whose serialization fails", what="a failed negotiation leaves Alternates and TCN headers on the response",
 test="""
func TestSeededDemo(t *testing.T) {
	n := transparent.New(transparent.ListRepresentation(lists(variant{err: http.ErrBodyNotAllowed})))
	w, err := serve(n, request("Negotiate", "trans"), variant{loc: "http://example.com/dir/a", ct: "text/plain", sq: 1})
	if err == nil {
		t.Fatal("no error")
	}
	if len(w.Header()) > 0 {
		t.Fatal(w.Header())
	}
}
"""),
dict(id="not-acceptable-write-error", property="C03", pkg=P, imports=["errors"], edits=[("proactive/proactive.go", """		status = http.StatusNotAcceptable
	)
	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
	ctx.ResponseWriter.Header().Add("Content-Type", ct)
	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
	ctx.ResponseWriter.Header().Add("Content-Language", clang)
	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
	ctx.ResponseWriter.WriteHeader(status)
	if _, err = ctx.ResponseWriter.Write(b); err == nil {""", """		status = http.StatusNotAcceptable
	)
	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
	ctx.ResponseWriter.Header().Add("Content-Type", ct)
	ctx.ResponseWriter.Header().Add("Content-Encoding", ce)
	ctx.ResponseWriter.Header().Add("Content-Language", clang)
	ctx.ResponseWriter.Header().Add("Content-Charset", cc)
	ctx.ResponseWriter.WriteHeader(status)
	if _, err := ctx.ResponseWriter.Write(b); err == nil {""")],
 needs="a response writer that fails while the 406 body is written", what="the negotiation returns nil although its body was not written",
 test="""
type broken struct{ http.ResponseWriter }

func (b broken) Write([]byte) (int, error) { return 0, errors.New("broken pipe") }

func TestSeededDemo(t *testing.T) {
	err := proactive.New().Negotiate(negotiator.NegotiationContext{Request: request("Accept", "image/png"), ResponseWriter: broken{httptest.NewRecorder()}},
		variant{ct: "text/plain", sq: 1})
	if err == nil {
		t.Fatal("the failure to write the body is not returned")
	}
}
"""),
dict(id="no-content-after-parsing", property="C04", pkg=P, edits=[("proactive/proactive.go", """	if len(reps) == 0 {
		status := http.StatusNoContent
		ctx.ResponseWriter.WriteHeader(status)
		n.logger.Info("no representations to negotiate", zap.Int("status", status))
		n.scope.Counter(scopeNameProactiveNoContentCounter).Inc(1)
		return err
	}

""", ""), ("proactive/proactive.go", """	for _, r := range reps {
		var c bool
""", """	if len(reps) == 0 {
		status := http.StatusNoContent
		ctx.ResponseWriter.WriteHeader(status)
		n.logger.Info("no representations to negotiate", zap.Int("status", status))
		n.scope.Counter(scopeNameProactiveNoContentCounter).Inc(1)
		return err
	}
	for _, r := range reps {
		var c bool
""")], needs="no representations and a malformed Accept header", what="the negotiation of nothing fails instead of answering 204",
 test="""
func TestSeededDemo(t *testing.T) {
	w, err := serve(proactive.New(), request("Accept", "text/;;"))
	if err != nil || w.Code != 204 {
		t.Fatal(err, w.Code)
	}
}
"""),
dict(id="created-needs-location", property="C05", pkg=P, edits=[("proactive/proactive.go", """	if ctx.IsCreation {
		status = http.StatusCreated
	}
	ctx.ResponseWriter.Header().Add("Content-Location", (&loc).String())
""", """	if ctx.IsCreation && loc.Path != "" {
		status = http.StatusCreated
	}
	ctx.ResponseWriter.Header().Add("Content-Location", (&loc).String())
""")], needs="a creation whose chosen variant has a location without a path", what="the creation is answered with 200 instead of 201",
 test="""
func TestSeededDemo(t *testing.T) {
	w := httptest.NewRecorder()
	err := proactive.New().Negotiate(negotiator.NegotiationContext{Request: request(), ResponseWriter: w, IsCreation: true},
		variant{loc: "http://example.com", ct: "text/plain", sq: 1})
	if err != nil || w.Code != 201 {
		t.Fatal(err, w.Code)
	}
}
"""),
dict(id="one-mismatch-per-variant", property="C06", pkg=P, edits=[("proactive/proactive.go", """		} else if !c {
			ac++
		}
""", """		} else if !c {
			ac++
			continue
		}
""")], needs="several variants none of which has an acceptable language, some of which also have an unacceptable media type",
 what="Accept-Language strict mode misses that nothing is compatible and the algorithm is consulted",
 test="""
type first struct{ asked int }

func (f *first) Choose(r *http.Request, reps ...representation.Representation) (representation.Representation, error) {
	f.asked++
	return reps[0], nil
}

func TestSeededDemo(t *testing.T) {
	f := &first{}
	w, err := serve(proactive.New(proactive.Algorithm(f), proactive.DisableNotAcceptableRepresentation()),
		request("Accept", "text/plain", "Accept-Language", "fr"),
		variant{ct: "text/plain", cl: "de", sq: 1}, variant{ct: "text/html", cl: "de", sq: 1})
	if err != nil || w.Code != 406 || f.asked > 0 {
		t.Fatal(err, w.Code, f.asked)
	}
}
"""),
dict(id="not-acceptable-list-capped", property="C07", pkg=P, edits=[("proactive/proactive.go", """	for _, c := range n.representationConstructors {
		lists = append(lists, c(reps...))
	}
""", """	described := reps
	if max := 16; len(described) > max {
		described = described[:max]
	}
	for _, c := range n.representationConstructors {
		lists = append(lists, c(described...))
	}
""")], needs="a 406 for more than 16 representations", what="the list offered leaves out the variants after the sixteenth",
 test="""
func TestSeededDemo(t *testing.T) {
	n := 0
	var reps []representation.Representation
	for i := 0; i < 20; i++ {
		reps = append(reps, variant{ct: "text/plain", sq: 1})
	}
	_, err := serve(proactive.New(proactive.Representations(func(r ...representation.Representation) representation.Representation {
		n = len(r)
		return variant{ct: "application/json", sq: 1}
	})), request("Accept", "application/json"), reps...)
	if err != nil || n != 20 {
		t.Fatal(err, n)
	}
}
"""),
dict(id="bound-after-parsing", property="C08", pkg=T, edits=[("transparent/transparent.go", """	if len(reps) > n.maximumVariantListSize {
		return ErrVariantListSizeExceeded
	}

	var negotiate header.Negotiate
	if negotiate, err = header.NewNegotiate(ctx.Request.Header["Negotiate"]); err != nil {
		return err
	}
""", """	var negotiate header.Negotiate
	if negotiate, err = header.NewNegotiate(ctx.Request.Header["Negotiate"]); err != nil {
		return err
	}

	if len(reps) > n.maximumVariantListSize {
		return ErrVariantListSizeExceeded
	}
""")], needs="too many representations and a malformed Negotiate header", what="the header's error is returned instead of ErrVariantListSizeExceeded",
 test="""
func TestSeededDemo(t *testing.T) {
	v := variant{ct: "text/plain", sq: 1}
	_, err := serve(transparent.New(transparent.MaximumVariantListSize(1)), request("Negotiate", ""), v, v)
	if err != transparent.ErrVariantListSizeExceeded {
		t.Fatal(err)
	}
}
"""),
dict(id="vlist-forbids-choice", property="C09", pkg=T, edits=[("transparent/transparent.go", """	if !shouldChoose {
		return n.listResponse(ctx, reps...)
	}
""", """	if !shouldChoose || negotiate.Contains(header.NegotiateDirectiveVList) {
		return n.listResponse(ctx, reps...)
	}
""")], needs="a Negotiate header with vlist next to a directive that lets the server choose", what="the algorithm is not consulted although the user agent lets the server choose",
 test="""
func TestSeededDemo(t *testing.T) {
	w, err := serve(transparent.New(), request("Negotiate", "vlist, 1.0", "Accept", "text/plain"),
		variant{loc: "http://example.com/dir/a", ct: "text/plain", sq: 1, body: "a"})
	if err != nil || w.Code != 200 {
		t.Fatal(err, w.Code)
	}
}
"""),
dict(id="neighbor-ignores-path-case", property="C10", pkg=T, edits=[("transparent/transparent.go", """			if u.Path == "" {
				u.Path = "/"
			}
			return u
""", """			if u.Path == "" {
				u.Path = "/"
			}
			u.Path = strings.ToLower(u.Path)
			return u
"""), ], needs="a variant in a directory whose path differs from the resource's in letter case only", what="a choice response is sent for a variant that is no neighbor",
 test="""
func TestSeededDemo(t *testing.T) {
	w, err := serve(transparent.New(), request("Negotiate", "1.0", "Accept", "text/plain"),
		variant{loc: "http://example.com/DIR/a", ct: "text/plain", sq: 1, body: "a"})
	if err != nil || w.Code != 300 {
		t.Fatal(err, w.Code)
	}
}
"""),
dict(id="choice-alternates-others", property="C11", pkg=T, edits=[("transparent/transparent.go", """	a, err := header.NewAlternates(nil, reps...)
""", """	others := make([]representation.Representation, 0, len(reps))
	for _, r := range reps {
		if r.ContentLocation() != rep.ContentLocation() || r.ContentType() == rep.ContentType() {
			others = append(others, r)
		}
	}
	a, err := header.NewAlternates(nil, others...)
""")], needs="variants of different media types at one location, one of which is chosen", what="Alternates leaves out variants that share the chosen one's location",
 test="""
func TestSeededDemo(t *testing.T) {
	w, err := serve(transparent.New(), request("Negotiate", "1.0", "Accept", "text/plain"),
		variant{loc: "http://example.com/dir/a", ct: "text/plain", sq: 1, body: "a"},
		variant{loc: "http://example.com/dir/a", ct: "image/png", sq: 1, body: "b"})
	if err != nil || w.Code != 200 {
		t.Fatal(err, w.Code)
	}
	if a := w.Header().Get("Alternates"); !strings.Contains(a, "image/png") {
		t.Fatal(a)
	}
}
""", imports=["strings"]),
dict(id="zero-language-with-charset", property="C12", pkg=P, edits=[("proactive/apache_httpd.go", """			qe == header.QualityValueMinimum || ql == header.QualityValueMinimum
""", """			qe == header.QualityValueMinimum || (ql == header.QualityValueMinimum && los == 0)
""")], needs="a language refused by a range with weight 0 that matches it", what="a variant whose language has quality zero is chosen",
 test="""
func TestSeededDemo(t *testing.T) {
	rep, err := proactive.ApacheHTTPD().Choose(request("Accept-Language", "en, de;q=0"), variant{ct: "text/plain", cl: "de", sq: 1})
	if err != nil || rep != nil {
		t.Fatal(rep, err)
	}
}
"""),
dict(id="charset-before-level", property="C13", pkg=P, edits=[("proactive/apache_httpd.go", """		// step 2.4
		bestLevel,
		// step 2.5
		bestCharset,
""", """		// step 2.4
		bestCharset,
		// step 2.5
		bestLevel,
""")], needs="html variants for which the best level and the best charset disagree", what="charset quality is ranked before the text/html level",
 test="""
func TestSeededDemo(t *testing.T) {
	rep, err := proactive.ApacheHTTPD().Choose(request("Accept-Charset", "utf-8, ascii;q=0.5"),
		variant{ct: "text/html;level=2", cc: "ascii", sq: 1}, variant{ct: "text/html;level=1", cc: "utf-8", sq: 1})
	if err != nil || rep == nil || rep.ContentCharset() != "ascii" {
		t.Fatal(rep, err)
	}
}
"""),
dict(id="subtype-wildcard-definite", property="C14", pkg=T, edits=[("transparent/rvsa.go", """			if mr.Type() == "*" || mr.SubType() == "*" {
				usedWildcard = true
			}
""", """			if mr.Type() == "*" && mr.SubType() == "*" {
				usedWildcard = true
			}
""")], needs="the best variant's media type is matched by a subtype wildcard such as text/*", what="a speculative quality is taken as definite and the variant is returned",
 test="""
func TestSeededDemo(t *testing.T) {
	rep, err := transparent.RVSA1().Choose(request("Accept", "text/*"), variant{ct: "text/plain", sq: 1})
	if err != nil || rep != nil {
		t.Fatal(rep, err)
	}
}
"""),
dict(id="charset-gate-uses-type", property="C15", pkg=P, edits=[("proactive/apache_httpd.go", """	if rep.ContentCharset() == "" || acceptCharset.IsEmpty() {
		qc = header.QualityValueMaximum
""", """	if rep.ContentType() == "" || acceptCharset.IsEmpty() {
		qc = header.QualityValueMaximum
""")], needs="a variant with a type but no charset and an Accept-Charset header without wildcard", what="the lack of a charset eliminates the variant",
 test="""
func TestSeededDemo(t *testing.T) {
	rep, err := proactive.ApacheHTTPD().Choose(request("Accept-Charset", "utf-8"), variant{ct: "image/png", sq: 1})
	if err != nil || rep == nil {
		t.Fatal(rep, err)
	}
}
"""),
dict(id="weight-percent", property="C16", pkg=H, imports=["github.com/freerware/negotiator/internal/header"], edits=[("internal/header/language_range.go", """		f, err := strconv.ParseFloat(q, 32)
		if err != nil {
			return LanguageRange{}, err
		}
""", """		f, err := strconv.ParseFloat(q, 32)
		if err != nil {
			return LanguageRange{}, err
		}
		if f > 1 && f <= 100 {
			f /= 100
		}
""")], needs="a language range with a weight between 1 and 100", what="a weight above 1 is accepted", test="""
func TestSeededDemo(t *testing.T) {
	if lr, err := header.NewLanguageRange("en;q=5"); err == nil {
		t.Fatal(lr)
	}
}
"""),
dict(id="charset-bad-weight-default", property="C16", pkg=H, imports=["github.com/freerware/negotiator/internal/header"], edits=[("internal/header/charset_range.go", r"""(;\s?q=(\d(\.\d{1,3})?))?$""", r"""(;\s?q=(\d(\.\d{0,3})?|\.\d{1,3}|-))?$""")],
 needs="a charset range with the weight -", what="a weight that is not a number is taken as 0 instead of failing the parse", test="""
func TestSeededDemo(t *testing.T) {
	if c, err := header.NewCharsetRange("utf-8;q=-"); err == nil {
		t.Fatal(c)
	}
}
"""),
dict(id="language-lines-first-only", property="C17", pkg=H, imports=["github.com/freerware/negotiator/internal/header"], edits=[("internal/header/accept_language.go", """	for i := 0; i < len(tags); i++ {
""", """	seen := map[language.Tag]bool{}
	for i := 0; i < len(tags); i++ {
		if base, _ := tags[i].Base(); seen[language.Make(base.String())] {
			continue
		} else {
			seen[language.Make(base.String())] = true
		}
""")], needs="two ranges with the same primary language, one after the other", what="a language range is dropped from the header", test="""
func TestSeededDemo(t *testing.T) {
	al, err := header.NewAcceptLanguage([]string{"en-US", "en-GB;q=0.5"})
	if err != nil || len(al) != 2 {
		t.Fatal(al, err)
	}
}
"""),
dict(id="weight-is-parameter", property="C18", pkg=H, imports=["github.com/freerware/negotiator/internal/header"], edits=[("internal/header/media_range.go", """			if vv, ok := params[k]; !ok || v != vv {
""", """			if vv, ok := params[k]; ok && v != vv {
""")], needs="a range with a parameter the media type lacks", what="text/html;level=1 matches text/html", test="""
func TestSeededDemo(t *testing.T) {
	mr, err := header.NewMediaRange("text/html;level=1")
	if err != nil {
		t.Fatal(err)
	}
	if c, err := mr.Compatible("text/html;charset=utf-8"); c || err != nil {
		t.Fatal(c, err)
	}
}
"""),
dict(id="precedence-counts-weight", property="C19", pkg=H, imports=["github.com/freerware/negotiator/internal/header"], edits=[("internal/header/accept_charset.go", """		return f.QualityValue().GreaterThan(s.QualityValue())
""", """		return !s.QualityValue().GreaterThan(f.QualityValue()) && f.Charset() < s.Charset()
""")], needs="equally specific ranges with different weights that are not in alphabetical order", what="charset ranges are not sorted by quality", test="""
func TestSeededDemo(t *testing.T) {
	ac, err := header.NewAcceptCharset([]string{"utf-8;q=0.5", "utf-8"})
	if err != nil {
		t.Fatal(err)
	}
	if r := ac.CharsetRanges(); r[0].QualityValue() != 1 {
		t.Fatal(r)
	}
}
"""),
dict(id="true-only-degrades", property="C20", pkg=H, imports=["github.com/freerware/negotiator/internal/header"], edits=[("internal/header/feature_list.go", """			degradation *= element.FalseDegradation().Float()
		}
	}
""", """			degradation *= element.FalseDegradation().Float()
		}
		if degradation == 0 {
			break
		}
		if degradation > 1 {
			degradation = 1
		}
	}
""")], needs="a feature list with a true improvement above 1 before an element that degrades", what="the degradation is not the product of all factors", test="""
func TestSeededDemo(t *testing.T) {
	fl, err := header.NewFeatureList([]string{"a;+2", "b;+0.5"})
	if err != nil {
		t.Fatal(err)
	}
	s := header.FeatureSet{}
	s.Add("a")
	s.Add("b")
	if d := fl.QualityDegradation(s, header.FeatureSet{}); d != 1 {
		t.Fatal(d)
	}
}
"""),
dict(id="range-open-low", property="C20", pkg=H, imports=["github.com/freerware/negotiator/internal/header"], edits=[("internal/header/feature_predicate.go", """	// ensure the unsupported value is not supported.
	for _, val := range sValues {
		if ne.v.Equals(val) {
			return false
		}
	}
	return true
""", """	// ensure the unsupported value is not supported.
	for _, val := range sValues {
		if !ne.v.Equals(val) {
			return true
		}
	}
	return len(sValues) == 0
""")], needs="a feature supported with the excluded value and another one", what="not-equals holds although the value is supported", test="""
func TestSeededDemo(t *testing.T) {
	p, err := header.NewFeaturePredicate("paper!=a4")
	if err != nil {
		t.Fatal(err)
	}
	s := header.FeatureSet{}
	s.Add("paper", "a3", "a4")
	if p.Evaluate(s, header.FeatureSet{}) {
		t.Fatal("holds")
	}
}
"""),
dict(id="truncated-body-accepted", property="C21", pkg=S, imports=["io"], edits=[("representation/base.go", """	if bb, err = io.ReadAll(reader); err != nil {
		return
	}
	return
""", """	if bb, err = io.ReadAll(reader); err == io.ErrUnexpectedEOF && len(bb) > 0 {
		err = nil
	}
	return
""")], needs="encoded data that is cut off", what="truncated data decodes without an error", test="""
var _ = io.EOF

func TestSeededDemo(t *testing.T) {
	b := representation.Base{}
	b.SetContentType("application/json")
	b.SetContentEncoding([]string{"gzip"})
	d, err := b.Bytes("text")
	if err != nil {
		t.Fatal(err)
	}
	var s string
	if err := b.FromBytes(d[:len(d)-3], &s); err == nil {
		t.Fatal(s)
	}
}
"""),
dict(id="coding-key-case", property="C22", pkg=S, edits=[("representation/base.go", """		if _, ok := readerConstructors[strings.ToLower(e)]; !ok {
			err = ErrUnsupportedContentEncoding
			return
		}
""", """		if _, ok := readerConstructors[e]; !ok {
			err = ErrUnsupportedContentEncoding
			return
		}
""")], needs="a content coding not in lower case", what="what was written with a coding such as GZIP cannot be read back", test="""
func TestSeededDemo(t *testing.T) {
	b := representation.Base{}
	b.SetContentType("application/json")
	b.SetContentEncoding([]string{"GZIP"})
	d, err := b.Bytes("text")
	if err != nil {
		t.Fatal(err)
	}
	var s string
	if err := b.FromBytes(d, &s); err != nil || s != "text" {
		t.Fatal(s, err)
	}
}
"""),
dict(id="list-skips-duplicates", property="C23", pkg=S, edits=[("representation/list.go", """	for _, rep := range reps {
		loc := rep.ContentLocation()
""", """	seen := map[string]bool{}
	for _, rep := range reps {
		loc := rep.ContentLocation()
		if l := (&loc).String(); l != "" && seen[l+rep.ContentType()] {
			continue
		} else {
			seen[l+rep.ContentType()] = true
		}
"""),], needs="two representations at one location with the same type, differing in language", what="the list leaves out representations", test="""
func TestSeededDemo(t *testing.T) {
	l := representation.List{}
	l.SetRepresentations(variant{loc: "/a", ct: "text/plain", cl: "en"}, variant{loc: "/a", ct: "text/plain", cl: "de"})
	if len(l.Representations) != 2 {
		t.Fatal(l.Representations)
	}
}
"""),
dict(id="shared-variant-buffer", property="C24", pkg=P, edits=[("proactive/apache_httpd.go", """type httpd struct {
	filters []filter
}
""", """type httpd struct {
	filters []filter
	scratch *representation.Set
}
"""), ("proactive/apache_httpd.go", "	return httpd{filters: filters}\n", "	return httpd{filters: filters, scratch: new(representation.Set)}\n"),
 ("proactive/apache_httpd.go", """	var variants representation.Set
	for _, rp := range reps {
""", """	variants := (*c.scratch)[:0]
	for _, rp := range reps {
"""), ("proactive/apache_httpd.go", """	for _, f := range c.filters {
		// if there""", """	*c.scratch = variants
	for _, f := range c.filters {
		// if there""")], needs="two runs of one algorithm at the same time", what="runs of the algorithm share the buffer of their variants", test="""
// nested is a variant whose bytes are produced by a negotiation of its own.
type nested struct {
	variant
	c representation.Chooser
}

func (n nested) Bytes() ([]byte, error) {
	_, err := n.c.Choose(request(), variant{ct: "text/plain", sq: 1, body: "x"}, variant{ct: "text/plain", sq: 1, body: "y"})
	return []byte(n.body), err
}

func TestSeededDemo(t *testing.T) {
	c := proactive.ApacheHTTPD()
	if _, err := c.Choose(request(), variant{sq: 1, ct: "text/plain"}, variant{sq: 1, ct: "text/plain"}); err != nil {
		t.Fatal(err)
	}
	rep, err := c.Choose(request(), nested{variant{ct: "text/css", sq: 1, body: "longer"}, c}, nested{variant{ct: "text/css", sq: 1, body: "longest"}, c})
	if err != nil || rep == nil || rep.ContentType() != "text/css" {
		t.Fatal(rep, err)
	}
}
"""),
dict(id="bare-406-uncounted", property="C25", pkg=P, imports=["github.com/uber-go/tally"], edits=[("proactive/proactive.go", """	defer func() {
		if err == nil {
			n.scope.Counter(scopeNameProactiveNotAcceptableCounter).Inc(1)
		}
	}()

	if !n.notAcceptableRepresentation {
		status := http.StatusNotAcceptable
		ctx.ResponseWriter.WriteHeader(status)
		n.logger.Info("not acceptable", zap.Int("status", status))
		return nil
	}
""", """	if !n.notAcceptableRepresentation {
		status := http.StatusNotAcceptable
		ctx.ResponseWriter.WriteHeader(status)
		n.logger.Info("not acceptable", zap.Int("status", status))
		return nil
	}
	defer func() {
		if err == nil {
			n.scope.Counter(scopeNameProactiveNotAcceptableCounter).Inc(1)
		}
	}()
""")], needs="a 406 with the not acceptable representation disabled", what="the 406 is not counted", test="""
func TestSeededDemo(t *testing.T) {
	s := tally.NewTestScope("", nil)
	_, err := serve(proactive.New(proactive.Scope(s), proactive.DisableNotAcceptableRepresentation()), request("Accept", "image/png"), variant{ct: "text/plain", sq: 1})
	if err != nil {
		t.Fatal(err)
	}
	n := int64(0)
	for _, c := range s.Snapshot().Counters() {
		if c.Name() == "negotiate.not_acceptable" {
			n += c.Value()
		}
	}
	if n != 1 {
		t.Fatal(n)
	}
}
"""),
dict(id="bound-raised-late", property="C26", pkg=T, edits=[("transparent/transparent_options.go", """		return func(o *Options) {
			o.GuessSmallThreshold = threshold
		}
""", """		return func(o *Options) {
			if threshold > 0 {
				o.GuessSmallThreshold = threshold
			}
		}
""")], needs="a guess-small threshold of 0", what="the threshold given is ignored and the default of 50 stays", test="""
func TestSeededDemo(t *testing.T) {
	n := transparent.New(transparent.GuessSmallThreshold(0), transparent.ListRepresentation(lists(variant{body: "12345", sq: 1})))
	w, err := serve(n, request("Negotiate", "guess-small", "Accept", "text/plain"),
		variant{loc: "http://example.com/dir/a", ct: "text/plain", sq: 1, body: "123456789"})
	if err != nil || w.Code != 300 {
		t.Fatal(err, w.Code)
	}
}
"""),
dict(id="empty-coding-panic", property="C27", pkg=P, edits=[("proactive/apache_httpd.go", """	if len(rep.ContentEncoding()) == 0 || acceptEncoding.IsEmpty() {
		return header.QualityValueMaximum
	}
""", """	if acceptEncoding.IsEmpty() || rep.ContentEncoding()[0] == "" {
		return header.QualityValueMaximum
	}
""")], needs="a variant without content codings and an Accept-Encoding header", what="the algorithm panics", test="""
func TestSeededDemo(t *testing.T) {
	rep, err := proactive.ApacheHTTPD().Choose(request("Accept-Encoding", "gzip"), variant{ct: "text/plain", sq: 1})
	if err != nil || rep == nil {
		t.Fatal(rep, err)
	}
}
"""),
dict(id="shared-header-sort", property="C24", pkg=P, edits=[("proactive/proactive.go", """	if chosen, err = n.chooser.Choose(ctx.Request, lists...); err != nil {
		return err
	}
""", """	ctx.Request.Header.Del("Accept-Features")
	if chosen, err = n.chooser.Choose(ctx.Request, lists...); err != nil {
		return err
	}
""")], needs="a 406 for a request with an Accept-Features header", what="the negotiation removes a header from the caller's request", test="""
func TestSeededDemo(t *testing.T) {
	r := request("Accept", "image/png", "Accept-Features", "tables")
	if _, err := serve(proactive.New(), r, variant{ct: "text/plain", sq: 1}); err != nil {
		t.Fatal(err)
	}
	if r.Header.Get("Accept-Features") == "" {
		t.Fatal("the request was modified")
	}
}
"""),
]
