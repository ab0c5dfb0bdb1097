R = "representation"
M = "github.com/freerware/negotiator/"
IM = []
BUGS = [
dict(id="first-gzip-member-only", property="C21", pkg=R, imports=IM+["bytes", "compress/gzip"], edits=[("representation/reader_constructor.go", "		return gzip.NewReader(r)", """		z, err := gzip.NewReader(r)
		if err == nil {
			z.Multistream(false)
		}
		return z, err""")],
 needs="a gzip body of more than one member", what="what follows the first member is silently dropped", test="""
func TestSeededDemo(t *testing.T) {
	var buf bytes.Buffer
	for _, s := range []string{"[1,", "2]"} {
		w := gzip.NewWriter(&buf)
		w.Write([]byte(s))
		w.Close()
	}
	var b representation.Base
	b.SetContentType("application/json")
	b.SetContentEncoding([]string{"gzip"})
	var v []int
	if err := b.FromBytes(buf.Bytes(), &v); err != nil || len(v) != 2 {
		t.Fatal(v, err)
	}
}
"""),
dict(id="large-body-cut", property="C21", pkg=R, imports=IM+["strings"], edits=[("representation/base.go", "io.ReadAll(reader)", "io.ReadAll(io.LimitReader(reader, 1<<22))")],
 needs="a coded body of more than 4 MiB", what="a large body is cut without an error", test="""
func TestSeededDemo(t *testing.T) {
	var b representation.Base
	b.SetContentType("text/plain")
	b.SetContentEncoding([]string{"gzip"})
	b.SetMarshallers(map[string]representation.Marshaller{"text/plain": func(v interface{}) ([]byte, error) { return []byte(v.(string)), nil }})
	b.SetUnmarshallers(map[string]representation.Unmarshaller{"text/plain": func(b []byte, v interface{}) error { *v.(*string) = string(b); return nil }})
	want := strings.Repeat("x", 5<<20)
	p, err := b.Bytes(want)
	if err != nil {
		t.Fatal(err)
	}
	var got string
	if err := b.FromBytes(p, &got); err != nil || got != want {
		t.Fatal(len(got), err)
	}
}
"""),
dict(id="codings-fall-back", property="C22", pkg=R, imports=IM+["io", "errors"], edits=[("representation/base.go", "		if _, ok := readerConstructors[strings.ToLower(e)]; !ok {", """		if c, ok := defaultEncodingReaders[strings.ToLower(e)]; ok && readerConstructors[strings.ToLower(e)] == nil {
			if reader, err = c(reader); err != nil {
				return
			}
			continue
		}
		if _, ok := readerConstructors[strings.ToLower(e)]; !ok {""")],
 needs="custom encoding readers and a body with a default coding that they do not include", what="a coding is read although it is not registered", test="""
func TestSeededDemo(t *testing.T) {
	var b representation.Base
	b.SetContentType("application/json")
	b.SetContentEncoding([]string{"gzip"})
	p, err := b.Bytes(1)
	if err != nil {
		t.Fatal(err)
	}
	b.SetEncodingReaders(map[string]representation.EncodingReaderConstructor{"own": func(r io.Reader) (io.ReadCloser, error) { return io.NopCloser(r), nil }})
	var v int
	if err := b.FromBytes(p, &v); !errors.Is(err, representation.ErrUnsupportedContentEncoding) {
		t.Fatal(v, err)
	}
}
"""),
dict(id="html-read-as-json", property="C22", pkg=R, imports=IM, edits=[("representation/base.go", """		"text/html":        xml.Unmarshal,""", """		"text/html":        json.Unmarshal,""")],
 needs="text/html read back", what="text/html is written as XML and read as JSON", test="""
func TestSeededDemo(t *testing.T) {
	var b representation.Base
	b.SetContentType("text/html")
	type P struct{ A string }
	p, err := b.Bytes(P{"x"})
	if err != nil {
		t.Fatal(err)
	}
	var q P
	if err = b.FromBytes(p, &q); err != nil || q.A != "x" {
		t.Fatal(q, err)
	}
}
"""),
dict(id="list-location-fragment", property="C23", pkg=R, imports=IM, edits=[("representation/list.go", "		loc := rep.ContentLocation()", "		loc := rep.ContentLocation()\n		loc.Fragment = \"\"")],
 needs="a representation whose location has a fragment", what="a list describes it by another location", test="""
func TestSeededDemo(t *testing.T) {
	var b demoRep
	u, _ := url.Parse("http://h/a?b=c#d")
	b.SetContentLocation(*u)
	var l representation.List
	l.SetRepresentations(&b)
	if got := l.Representations[0].ContentLocation; got != u.String() {
		t.Fatal(got)
	}
}

type demoRep struct{ representation.Base }

func (d *demoRep) Bytes() ([]byte, error)   { return nil, nil }
func (d *demoRep) FromBytes(b []byte) error { return nil }
"""),
dict(id="shared-encoding-overwritten", property="C23", pkg=R, imports=IM, edits=[("representation/base.go", "{ r.encoding = ce }", "{ r.encoding = append(r.encoding[:0], ce...) }")],
 needs="a representation copied from another, and the encoding of one then set", what="setting the encoding of one changes that of the other", test="""
func TestSeededDemo(t *testing.T) {
	var a representation.Base
	a.SetContentEncoding([]string{"gzip"})
	b := a
	b.SetContentEncoding([]string{"deflate"})
	if e := a.ContentEncoding(); e[0] != "gzip" {
		t.Fatal(e)
	}
}
"""),
dict(id="list-features-of-previous", property="C23", pkg=R, imports=IM, edits=[("representation/list.go", "			ContentFeatures: rep.ContentFeatures(),", "			ContentFeatures: features,"), ("representation/list.go", "	for _, rep := range reps {", """	var features []string
	for _, rep := range reps {
		if f := rep.ContentFeatures(); len(f) > 0 {
			features = f
		}""")],
 needs="a representation without features after one with some", what="a list gives it the features of the one before it", test="""
func TestSeededDemo(t *testing.T) {
	var a, b demoRep
	a.SetContentFeatures([]string{"tables"})
	var l representation.List
	l.SetRepresentations(&a, &b)
	if f := l.Representations[1].ContentFeatures; len(f) != 0 {
		t.Fatal(f)
	}
}

type demoRep struct{ representation.Base }

func (d *demoRep) Bytes() ([]byte, error)   { return nil, nil }
func (d *demoRep) FromBytes(b []byte) error { return nil }
"""),
]
