H = "internal/header"
IM = ["github.com/freerware/negotiator/internal/header"]
BUGS = [
dict(id="weights-too-coarse", property="C19", pkg=H, imports=IM, edits=[("internal/header/quality_value.go", "	return qv.Round(3) > q.Round(3)", "	return qv.Round(1) > q.Round(1)")],
 needs="two equally specific ranges matching the same representation, with weights that only differ in the second decimal, the lower one first", what="weights are compared to one decimal only, so the lower weight is used", test="""
func TestSeededDemo(t *testing.T) {
	ac, err := header.NewAcceptCharset([]string{"utf-8;q=0.52, UTF-8;q=0.54"})
	if err != nil {
		t.Fatal(err)
	}
	if r := ac.CharsetRanges(); r[0].QualityValue() != 0.54 {
		t.Fatal(r)
	}
}
"""),
dict(id="rvsa-ranges-as-sent", property="C19", pkg="transparent", edits=[("transparent/rvsa.go", "range accept.MediaRanges() {", "range accept {")],
 needs="Accept with a wildcard before a more specific range of another weight, in transparent negotiation", what="RVSA/1.0 uses the first range sent that matches instead of the most specific one", test="""
func TestSeededDemo(t *testing.T) {
	r := request("Accept", "*/*, text/html;q=0.1, text/plain;q=0.9")
	chosen, err := transparent.RVSA1().Choose(r,
		variant{loc: "/a", ct: "text/html", sq: 1},
		variant{loc: "/b", ct: "text/plain", sq: 0.5})
	if err != nil || chosen == nil {
		t.Fatal(chosen, err)
	}
	if chosen.ContentType() != "text/plain" {
		t.Fatal(chosen.ContentType())
	}
}
"""),
dict(id="charset-param-unspecific", property="C19", pkg=H, imports=IM, edits=[("internal/header/media_range.go", """		if k != "q" {
			b = true""", """		if k != "q" && k != "charset" {
			b = true""")],
 needs="Accept with the same media type twice, once with a charset parameter and a lower weight", what="a charset parameter no longer makes a media range more specific", test="""
func TestSeededDemo(t *testing.T) {
	a, err := header.NewAccept([]string{"text/html", "text/html;charset=utf-8;q=0.2"})
	if err != nil {
		t.Fatal(err)
	}
	if r := a.MediaRanges(); r[0].QualityValue() != 0.2 {
		t.Fatal(r)
	}
}
"""),
dict(id="accepted-weights-only", property="C19", pkg="proactive", edits=[("proactive/apache_httpd.go", "			if c.Compatible(rep.ContentCharset()) {", "			if c.QualityValue() > 0 && c.Compatible(rep.ContentCharset()) {")],
 needs="Accept-Charset that refuses a charset by name and accepts the wildcard", what="a charset refused by name is accepted by the wildcard", test="""
func TestSeededDemo(t *testing.T) {
	r := request("Accept-Charset", "utf-8;q=0, *")
	chosen, err := proactive.ApacheHTTPD().Choose(r, variant{loc: "/a", ct: "text/html", cc: "utf-8", sq: 1})
	if err != nil {
		t.Fatal(err)
	}
	if chosen != nil {
		t.Fatal("chosen although refused")
	}
}
"""),
]
