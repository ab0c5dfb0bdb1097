R = "representation/"
B, L, RC, WC = R+"base.go", R+"list.go", R+"reader_constructor.go", R+"writer_constructor.go"
P, Q, S = "C21", "C22", "C23"
PQ = "C21 C22"
SRC = open("/repo/"+B).read()
LS = open("/repo/"+L).read()
def cut(s, a, b): return s[s.index(a):s.index(b, s.index(a))]
ENC = cut(SRC, "func (r *Base) encode", "// FromBytes constructs")
DEC = cut(SRC, "func (r *Base) decode", "// closeableBuffer rep")
BYTES = cut(SRC, "func (r Base) Bytes", "// codings retrieves")
FROM = cut(SRC, "func (r Base) FromBytes", "func (r *Base) decode")
COD = cut(SRC, "func (r Base) codings", "func (r *Base) encode")
WLOOP = cut(SRC, "	writers := make", "	bb = buf.Bytes()")
WOPEN = cut(SRC, "	writers := make", "	if _, err = writer.Write")
WCLOSE = cut(SRC, "	for idx := len(writers) - 1", "	bb = buf.Bytes()")
WWRITE = "	if _, err = writer.Write(b); err != nil {\n		return\n	}\n"
RLOOP = cut(SRC, "	for idx := len(encodings) - 1; idx >= 0; idx-- {\n		e := encodings[idx]\n		if _, ok := readerC", "	if bb, err = io.ReadAll")
RALL = "	if bb, err = io.ReadAll(reader); err != nil {\n		return\n	}\n"
CLOSER = cut(SRC, "		defer func() {", "		reader = decoder")
SETR = cut(LS, "	for _, rep := range reps", "}\n\n// Bytes")
DW = cut(SRC, "	defaultEncodingWriters = ", ")\n\n// Base is")
DR = cut(SRC, "	defaultEncodingReaders = ", "	defaultMarshallers = ")

CASES = [
 # encoding
 ("BUG", "w-order", P, [(B, "	for idx := len(encodings) - 1; idx >= 0; idx-- {\n		e := encodings[idx]\n		if _, ok := writer", "	for idx := 0; idx < len(encodings); idx++ {\n		e := encodings[idx]\n		if _, ok := writer")]),
 ("BUG", "w-noclose", P, [(B, WCLOSE, "")]),
 ("BUG", "w-lastclose", P, [(B, WCLOSE, "	if err = writer.Close(); err != nil {\n		return\n	}\n")]),
 ("BUG", "w-closeorder", P, [(B, WCLOSE, "	for idx := range writers {\n		if err = writers[idx].Close(); err != nil {\n			return\n		}\n	}\n")]),
 ("BUG", "w-defer", P, [(B, "		writers = append(writers, writer)\n", "		defer writer.Close()\n		writers = append(writers, writer)\n"), (B, WCLOSE, "")]),
 ("BUG", "w-closeearly", P, [(B, WWRITE, ""), (B, "	bb = buf.Bytes()", WWRITE+"	bb = buf.Bytes()")]),
 ("BUG", "w-ignorewrite", P, [(B, WWRITE, "	writer.Write(b)\n")]),
 ("BUG", "w-ignoreclose", P, [(B, WCLOSE, "	for idx := len(writers) - 1; idx >= 0; idx-- {\n		writers[idx].Close()\n	}\n")]),
 ("BUG", "w-closelasterr", P, [(B, WCLOSE, "	for idx := len(writers) - 1; idx >= 0; idx-- {\n		err = writers[idx].Close()\n	}\n	if err != nil {\n		return\n	}\n")]),
 ("BUG", "w-skipone", P, [(B, "idx := len(writers) - 1; idx >= 0", "idx := len(writers) - 1; idx > 0")]),
 ("BUG", "w-openskip", P, [(B, "idx := len(encodings) - 1; idx >= 0; idx-- {\n		e := encodings[idx]\n		if _, ok := writer", "idx := len(encodings) - 1; idx > 0; idx-- {\n		e := encodings[idx]\n		if _, ok := writer")]),
 ("BUG", "w-ctorerr", P, [(B, "if writer, err = writerConstructors[strings.ToLower(e)](writer); err != nil {\n			return\n		}", "writer, _ = writerConstructors[strings.ToLower(e)](writer)")]),
 ("BUG", "w-buffirst", P, [(B, WCLOSE+"	bb = buf.Bytes()", "	bb = buf.Bytes()\n"+WCLOSE)]),
 ("BUG", "w-part", P, [(B, "writer.Write(b); err", "writer.Write(b[:1]); err")]),
 ("BUG", "w-prefix", P, [(B, WWRITE, "	buf.WriteString(\" \")\n"+WWRITE)]),
 ("BUG", "w-tobuf", P, [(B, "[strings.ToLower(e)](writer);", "[strings.ToLower(e)](&closeableBuffer{&buf});")]),
 ("BUG", "w-unknownskip", PQ, [(B, "			err = ErrUnsupportedContentEncoding\n			return\n", "			continue\n")]),
 ("BUG", "w-wrongerr", Q, [(B, "			err = ErrUnsupportedContentEncoding\n", "			err = ErrUnsupportedContentType\n")]),
 ("BUG", "w-keycase", Q, [(B, "writerConstructors[strings.ToLower(e)]; !ok", "writerConstructors[e]; !ok"), (B, "writerConstructors[strings.ToLower(e)](w", "writerConstructors[e](w")]),
 ("BUG", "w-custom", Q, [(B, "writerConstructors = r.encodingWriters", "_ = writerConstructors")]),
 ("BUG", "w-customcond", Q, [(B, "if len(r.encodingWriters) > 0 {", "if len(r.encodingWriters) > 1 {")]),
 ("BUG", "w-customcond2", Q, [(B, "if len(r.encodingWriters) > 0 {", "if len(r.encodingReaders) > 0 {")]),
 ("BUG", "b-noencode", P, [(B, "	// encode.\n	return r.encode(b)\n", "	// encode.\n	if len(b) > 1024 {\n		return b, nil\n	}\n	return r.encode(b)\n")]),
 ("BUG", "b-encerr", P, [(B, "	return r.encode(b)\n", "	if eb, err := r.encode(b); err == nil {\n		return eb, nil\n	}\n	return b, nil\n")]),
 ("BUG", "b-marsherr", PQ, [(B, "	if err != nil {\n		return b, err\n	}\n", "	if err != nil && b == nil {\n		return b, err\n	}\n")]),
 ("BUG", "b-onecoding", P, [(B, "	if len(r.codings()) < 1 {", "	if len(r.codings()) < 2 {")]),
 # identity
 ("BUG", "i-case", P, [(B, 'if strings.ToLower(e) != "identity"', 'if e != "identity"')]),
 ("BUG", "i-contains", P, [(B, 'if strings.ToLower(e) != "identity"', 'if !strings.Contains(strings.ToLower(e), "identity")')]),
 ("BUG", "i-break", P, [(B, "			c = append(c, e)\n		}\n", "			c = append(c, e)\n		} else {\n			break\n		}\n")]),
 ("BUG", "i-not", PQ, [(B, 'if strings.ToLower(e) != "identity" {', 'if e != "" {')]),
 ("BUG", "i-dup", P, [(B, 'if strings.ToLower(e) != "identity" {', 'if strings.ToLower(e) != "identity" && !slices.Contains(c, e) {'), (B, '	"net/url"\n', '	"net/url"\n	"slices"\n')]),
 ("BUG", "i-reverse", P, [(B, "c = append(c, e)", "c = append([]string{e}, c...)")]),
 # decoding
 ("BUG", "r-order", P, [(B, RLOOP[:70], "	for idx := 0; idx < len(encodings); idx++ {\n		e := enco")]) if RLOOP[:70].endswith("e := enco") else ("BUG", "r-order", P, [(B, "	for idx := len(encodings) - 1; idx >= 0; idx-- {\n		e := encodings[idx]\n		if _, ok := readerC", "	for idx := 0; idx < len(encodings); idx++ {\n		e := encodings[idx]\n		if _, ok := readerC")]),
 ("BUG", "r-limit", P, [(B, "io.ReadAll(reader)", "io.ReadAll(io.LimitReader(reader, 1<<20))")]),
 ("BUG", "r-ignoreread", P, [(B, RALL, "	bb, _ = io.ReadAll(reader)\n")]),
 ("BUG", "r-eof", P, [(B, RALL, "	if bb, err = io.ReadAll(reader); err == io.ErrUnexpectedEOF {\n		err = nil\n	}\n	if err != nil {\n		return\n	}\n")]),
 ("BUG", "r-ctorerr", P, [(B, "if decoder, err = readerConstructors[strings.ToLower(e)](reader); err != nil {\n			return\n		}", "decoder, _ = readerConstructors[strings.ToLower(e)](reader)")]),
 ("BUG", "r-closerr", P, [(B, "if cerr := decoder.Close(); err == nil {\n				err = cerr\n			}", "err = decoder.Close()")]),
 ("BUG", "r-src", P, [(B, "bytes.NewBuffer(b)", "bytes.NewBuffer(bytes.TrimSpace(b))")]),
 ("BUG", "r-undecoded", P, [(B, "		if b, err = r.decode(b); err != nil {\n			return\n		}", "		if _, err = r.decode(b); err != nil {\n			return\n		}")]),
 ("BUG", "r-decerr", P, [(B, "		if b, err = r.decode(b); err != nil {\n			return\n		}", "		if d, err := r.decode(b); err == nil {\n			b = d\n		}")]),
 ("BUG", "r-unknownskip", PQ, [(B, "		if _, ok := readerConstructors[strings.ToLower(e)]; !ok {\n			err = ErrUnsupportedContentEncoding\n			return\n", "		if _, ok := readerConstructors[strings.ToLower(e)]; !ok {\n			continue\n")]),
 ("BUG", "r-key", Q, [(B, "readerConstructors[strings.ToLower(e)]; !ok", "readerConstructors[e]; !ok")]),
 ("BUG", "r-xstrip", PQ, [(B, 'reader = decoder\n', 'reader = decoder\n		if idx == 1 {\n			break\n		}\n')]),
 ("BUG", "r-custom", Q, [(B, "readerConstructors = r.encodingReaders", "_ = readerConstructors")]),
 ("BUG", "r-unmarsherr", PQ, [(B, "	return unmarshallers[strings.ToLower(ct)](b, in)\n", "	unmarshallers[strings.ToLower(ct)](b, in)\n	return nil\n")]),
 ("BUG", "r-empty", P, [(B, "	// decode.\n	if len(r.codings()) > 0 {", "	// decode.\n	if len(r.codings()) > 0 && len(b) > 0 {")]),
 # media types
 ("BUG", "t-param", Q, [(B, 'strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	if _, ok := marsh', 'strings.TrimSpace(r.ContentType())\n	if _, ok := marsh')]),
 ("BUG", "t-space", Q, [(B, 'strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	if _, ok := unm', 'strings.Split(r.ContentType(), ";")[0]\n	if _, ok := unm')]),
 ("BUG", "t-case", Q, [(B, '		return []byte{}, ErrUnsupportedContentType\n	}\n', '		return []byte{}, ErrUnsupportedContentType\n	}\n'), (B, "marshallers[strings.ToLower(ct)]; !ok", "marshallers[ct]; !ok")]),
 ("BUG", "t-err", Q, [(B, "return []byte{}, ErrUnsupportedContentType", "return []byte{}, ErrUnsupportedContentEncoding")]),
 ("BUG", "t-nilerr", Q, [(B, "return []byte{}, ErrUnsupportedContentType", "return []byte{}, nil")]),
 ("BUG", "t-custom", Q, [(B, "	if len(r.marshallers) > 0 {", "	if len(r.unmarshallers) > 0 && len(r.marshallers) > 0 {")]),
 ("BUG", "t-customwrong", Q, [(B, "	if len(r.marshallers) > 0 {", "	if len(r.marshallers) > 0 && r.sourceQuality > 0 {")]),
 ("BUG", "t-fallback", Q, [(B, "		return []byte{}, ErrUnsupportedContentType\n", "		if m, ok := defaultMarshallers[strings.ToLower(ct)]; ok {\n			return m(out)\n		}\n		return []byte{}, ErrUnsupportedContentType\n")]),
 ("BUG", "t-wild", Q, [(B, 'ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	if _, ok := marsh', 'ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	if strings.HasSuffix(ct, "+json") {\n		ct = "application/json"\n	}\n	if _, ok := marsh')]),
 ("BUG", "t-plus", Q, [(B, 'strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	if _, ok := unm', 'strings.TrimSpace(strings.Split(r.ContentType(), "+")[0])\n	if _, ok := unm')]),
 ("BUG", "d-missing", Q, [(B, '		"text/yaml":        yaml.Marshal,\n', '')]),
 ("BUG", "d-format", Q, [(B, '		"text/html":        xml.Unmarshal,\n', '		"text/html":        json.Unmarshal,\n')]),
 ("BUG", "d-both", Q, [(B, '		"x-gzip":     newGzipReader,\n', '		"x-gzip":     newDeflateReader,\n')]),
 ("BUG", "d-coding", Q, [(B, '		"x-compress": newCompressWriter,\n', '')]),
 ("BUG", "d-upper", Q, [(B, '		"deflate":    newDeflateWriter,\n', '		"Deflate":    newDeflateWriter,\n'), (B, '		"deflate":    newDeflateReader,\n', '		"Deflate":    newDeflateReader,\n')]),
 ("BUG", "c-format", PQ, [(RC, "return flate.NewReader(r), nil", "return zlib.NewReader(r)"), (RC, '	"compress/flate"\n', "")]),
 ("BUG", "c-bufio", P, [(RC, "return gzip.NewReader(r)", "return gzip.NewReader(io.LimitReader(r, 1<<20))")]),
 ("BUG", "c-discard", P, [(WC, "return gzip.NewWriter(w), nil", "return gzip.NewWriter(io.Discard), nil")]),
 ("BUG", "c-multi", P, [(RC, "return gzip.NewReader(r)", "z, err := gzip.NewReader(r)\n		if err != nil {\n			return io.NopCloser(r), nil\n		}\n		return z, nil")]),
 ("BUG", "c-nomulti", P, [(RC, "return gzip.NewReader(r)", "z, err := gzip.NewReader(r)\n		if err == nil {\n			z.Multistream(false)\n		}\n		return z, err")]),
 ("BUG", "c-level", PQ, [(WC, "return flate.NewWriter(w, 1)", "return flate.NewWriter(w, 12)")]),
 ("BUG", "c-level2", PQ, [(WC, "return gzip.NewWriter(w), nil", "return gzip.NewWriterLevel(w, 10)")]),
 ("BUG", "c-dict", PQ, [(WC, "return flate.NewWriter(w, 1)", 'return flate.NewWriterDict(w, 1, []byte("x"))')]),
 ("BUG", "l-base", P+" "+Q, [(L, "return l.Base.Bytes(&l)", "return l.Base.Bytes(&l.Representations)")]),
 ("BUG", "l-from", P+" "+Q, [(L, "return l.Base.FromBytes(b, l)", "return l.Base.FromBytes(b, &l.Base)")]),
 ("BUG", "l-fromerr", P+" "+Q, [(L, "return l.Base.FromBytes(b, l)", "l.Base.FromBytes(b, l)\n	return nil")]),
 ("BUG", "cb-read", P, [(B, "return cb.buf.Read(b)", "return 0, io.EOF")]),
 ("BUG", "cb-write", P, [(B, "return cb.buf.Write(b)", "return len(b), nil")]),
 # refactorings of the codec
 ("SAME", "s-var", PQ, [(B, WLOOP, WLOOP.replace("e := encodings[idx]", "e := strings.ToLower(encodings[idx])").replace("strings.ToLower(e)", "e"))]),
 ("SAME", "s-commaok", PQ, [(B, WOPEN, '''	writers := make([]io.WriteCloser, 0, len(encodings))
	for idx := len(encodings) - 1; idx >= 0; idx-- {
		newWriter, ok := writerConstructors[strings.ToLower(encodings[idx])]
		if !ok {
			err = ErrUnsupportedContentEncoding
			return
		}
		if writer, err = newWriter(writer); err != nil {
			return
		}
		writers = append(writers, writer)
	}
'''), (B, RLOOP, '''	for idx := len(encodings) - 1; idx >= 0; idx-- {
		newReader, ok := readerConstructors[strings.ToLower(encodings[idx])]
		if !ok {
			err = ErrUnsupportedContentEncoding
			return
		}
		var decoder io.ReadCloser
		if decoder, err = newReader(reader); err != nil {
			return
		}
'''+CLOSER+'''		reader = decoder
	}
''')]),
 ("SAME", "s-explicit", PQ, [(B, ENC, '''func (r *Base) encode(b []byte) ([]byte, error) {
	constructors := r.encodingWriters
	if len(constructors) == 0 {
		constructors = defaultEncodingWriters
	}
	buf := &bytes.Buffer{}
	var current io.WriteCloser = closeableBuffer{buf}
	codings := r.codings()
	stack := []io.WriteCloser{}
	for i := range codings {
		coding := codings[len(codings)-1-i]
		constructor, ok := constructors[strings.ToLower(coding)]
		if !ok {
			return nil, ErrUnsupportedContentEncoding
		}
		next, err := constructor(current)
		if err != nil {
			return nil, err
		}
		current = next
		stack = append([]io.WriteCloser{next}, stack...)
	}
	if _, err := current.Write(b); err != nil {
		return nil, err
	}
	for _, w := range stack {
		if err := w.Close(); err != nil {
			return nil, err
		}
	}
	return buf.Bytes(), nil
}

''')]),
 ("SAME", "s-seq", PQ, [(B, ENC, '''func (r *Base) encode(b []byte) ([]byte, error) {
	constructors := defaultEncodingWriters
	if len(r.encodingWriters) > 0 {
		constructors = r.encodingWriters
	}
	codings := r.codings()
	for i := len(codings) - 1; i >= 0; i-- {
		if _, ok := constructors[strings.ToLower(codings[i])]; !ok {
			return nil, ErrUnsupportedContentEncoding
		}
	}
	for _, coding := range codings {
		var buf bytes.Buffer
		w, err := constructors[strings.ToLower(coding)](closeableBuffer{&buf})
		if err != nil {
			return nil, err
		}
		if _, err = w.Write(b); err != nil {
			return nil, err
		}
		if err = w.Close(); err != nil {
			return nil, err
		}
		b = buf.Bytes()
	}
	return b, nil
}

''')]),
 ("SAME", "s-seqdec", PQ, [(B, DEC, '''func (r *Base) decode(b []byte) ([]byte, error) {
	constructors := defaultEncodingReaders
	if len(r.encodingReaders) > 0 {
		constructors = r.encodingReaders
	}
	codings := r.codings()
	for i := len(codings) - 1; i >= 0; i-- {
		open, ok := constructors[strings.ToLower(codings[i])]
		if !ok {
			return nil, ErrUnsupportedContentEncoding
		}
		decoded, err := readAll(open, b)
		if err != nil {
			return nil, err
		}
		b = decoded
	}
	return b, nil
}

func readAll(open EncodingReaderConstructor, b []byte) (decoded []byte, err error) {
	rc, err := open(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	if decoded, err = io.ReadAll(rc); err != nil {
		rc.Close()
		return nil, err
	}
	return decoded, rc.Close()
}

''')]),
 ("SAME", "s-helper", PQ, [(B, "	// the first content encoding listed is", "	return r.pipe(b, &buf, writer, encodings, writerConstructors)\n}\n\nfunc (r *Base) pipe(b []byte, buf *bytes.Buffer, writer io.WriteCloser, encodings []string, writerConstructors map[string]EncodingWriterConstructor) (bb []byte, err error) {\n	// the first content encoding listed is")]),
 ("SAME", "s-defer2", PQ, [(B, RLOOP, '''	var decoders []io.Closer
	defer func() {
		for i := len(decoders) - 1; i >= 0; i-- {
			if cerr := decoders[i].Close(); cerr != nil && err == nil {
				err = cerr
			}
		}
	}()
	for idx := len(encodings) - 1; idx >= 0; idx-- {
		e := strings.ToLower(encodings[idx])
		open, ok := readerConstructors[e]
		if !ok {
			return nil, ErrUnsupportedContentEncoding
		}
		decoder, err := open(reader)
		if err != nil {
			return nil, err
		}
		decoders = append(decoders, decoder)
		reader = decoder
	}
'''), (B, RALL+"	return\n", "	return io.ReadAll(reader)\n")]),
 ("SAME", "s-closure", PQ, [(B, WCLOSE, '''	closeAll := func() error {
		for idx := len(writers) - 1; idx >= 0; idx-- {
			if err := writers[idx].Close(); err != nil {
				return err
			}
		}
		return nil
	}
	if err = closeAll(); err != nil {
		return
	}
''')]),
 ("SAME", "s-reverse", PQ, [(B, "		encodings                         = r.codings()\n", "		encodings                         = slices.Clone(r.codings())\n"), (B, '	"net/url"\n', '	"net/url"\n	"slices"\n'), (B, WOPEN, '''	slices.Reverse(encodings)
	var writers []io.WriteCloser
	for _, e := range encodings {
		if _, ok := writerConstructors[strings.ToLower(e)]; !ok {
			err = ErrUnsupportedContentEncoding
			return
		}
		if writer, err = writerConstructors[strings.ToLower(e)](writer); err != nil {
			return
		}
		writers = append(writers, writer)
	}
''')]),
 ("SAME", "s-recur", PQ, [(B, ENC, '''func (r *Base) encode(b []byte) ([]byte, error) {
	constructors := defaultEncodingWriters
	if len(r.encodingWriters) > 0 {
		constructors = r.encodingWriters
	}
	var buf bytes.Buffer
	if err := write(&closeableBuffer{&buf}, b, r.codings(), constructors); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func write(w io.WriteCloser, b []byte, codings []string, constructors map[string]EncodingWriterConstructor) error {
	if len(codings) == 0 {
		_, err := w.Write(b)
		return err
	}
	last := len(codings) - 1
	open, ok := constructors[strings.ToLower(codings[last])]
	if !ok {
		return ErrUnsupportedContentEncoding
	}
	ww, err := open(w)
	if err != nil {
		return err
	}
	if err := write(ww, b, codings[:last], constructors); err != nil {
		return err
	}
	return ww.Close()
}

''')]),
 ("SAME", "s-copy", PQ, [(B, RALL, "	var out bytes.Buffer\n	if _, err = io.Copy(&out, reader); err != nil {\n		return\n	}\n	bb = out.Bytes()\n")]),
 ("SAME", "s-nop", PQ, [(B, "buf                              = bytes.NewBuffer(b)", "buf                              = bytes.NewReader(b)"), (B, "io.ReadCloser = &closeableBuffer{buf}", "io.ReadCloser = io.NopCloser(buf)")]),
 ("SAME", "s-readfrom", PQ, [(B, RALL, "	var out bytes.Buffer\n	if _, err = out.ReadFrom(reader); err != nil {\n		return\n	}\n	bb = out.Bytes()\n")]),
 ("SAME", "s-iocopyw", PQ, [(B, WWRITE, "	if _, err = io.Copy(writer, bytes.NewReader(b)); err != nil {\n		return\n	}\n")]),
 ("SAME", "s-equalfold", PQ, [(B, 'if strings.ToLower(e) != "identity" {', 'if !strings.EqualFold(e, "identity") {')]),
 ("SAME", "s-identcont", PQ, [(B, COD, '''func (r Base) codings() []string {
	codings := make([]string, 0, len(r.encoding))
	for _, e := range r.encoding {
		if strings.EqualFold(e, "identity") {
			continue
		}
		codings = append(codings, e)
	}
	return codings
}

''')]),
 ("SAME", "s-deletefunc", PQ, [(B, COD, '''func (r Base) codings() []string {
	return slices.DeleteFunc(slices.Clone(r.ContentEncoding()), func(e string) bool {
		return strings.EqualFold(e, "identity")
	})
}

'''), (B, '	"net/url"\n', '	"net/url"\n	"slices"\n')]),
 ("SAME", "s-lower", PQ, [(B, "			c = append(c, e)\n", "			c = append(c, strings.ToLower(e))\n")]),
 ("SAME", "s-inplace", PQ, [(B, ENC, ENC.replace("encodings                         = r.codings()", "encodings                         []string").replace("	// the first content encoding listed is", "	for _, e := range r.encoding {\n		if e = strings.ToLower(e); e != \"identity\" {\n			encodings = append(encodings, e)\n		}\n	}\n\n	// the first content encoding listed is"))]),
 ("SAME", "s-always", PQ, [(B, "	if len(r.codings()) < 1 {\n		return b, nil\n	}\n\n", "")]),
 ("SAME", "s-always2", PQ, [(B, "	if len(r.codings()) > 0 {\n		if b, err = r.decode(b); err != nil {\n			return\n		}\n	}\n", "	if b, err = r.decode(b); err != nil {\n		return\n	}\n")]),
 ("SAME", "s-lookup", PQ, [(B, BYTES, '''func (r Base) Bytes(out interface{}) ([]byte, error) {
	marshal, ok := r.marshaller()
	if !ok {
		return []byte{}, ErrUnsupportedContentType
	}

	b, err := marshal(out)
	if err != nil {
		return b, err
	}
	if len(r.codings()) == 0 {
		return b, nil
	}
	return r.encode(b)
}

func (r Base) marshaller() (m Marshaller, ok bool) {
	table := defaultMarshallers
	if len(r.marshallers) != 0 {
		table = r.marshallers
	}
	m, ok = table[r.format()]
	return
}

func (r Base) format() string {
	ct, _, _ := strings.Cut(r.mediaType, ";")
	return strings.ToLower(strings.TrimSpace(ct))
}

'''), (B, '	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	if _, ok := unmarshallers[strings.ToLower(ct)]; !ok {', '	unmarshal, ok := unmarshallers[r.format()]\n	if !ok {'), (B, "return unmarshallers[strings.ToLower(ct)](b, in)", "return unmarshal(b, in)")]),
 ("SAME", "s-index", PQ, [(B, '	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	if _, ok := marsh', '	ct := r.mediaType\n	if i := strings.Index(ct, ";"); i >= 0 {\n		ct = ct[:i]\n	}\n	ct = strings.TrimSpace(ct)\n	if _, ok := marsh')]),
 ("SAME", "s-splitn", PQ, [(B, 'strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	if _, ok := marsh', 'strings.TrimSpace(strings.SplitN(r.ContentType(), ";", 2)[0])\n	if _, ok := marsh')]),
 ("SAME", "s-loweroutside", PQ, [(B, 'ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	if _, ok := marshallers[strings.ToLower(ct)]', 'ct := strings.ToLower(strings.TrimSpace(strings.Split(strings.ToLower(r.ContentType()), ";")[0]))\n	if _, ok := marshallers[strings.ToLower(ct)]')]),
 ("SAME", "s-generic", PQ, [(B, "	marshallers := defaultMarshallers\n	if len(r.marshallers) > 0 {\n		marshallers = r.marshallers\n	}\n", "	marshallers := either(r.marshallers, defaultMarshallers)\n"), (B, "	unmarshallers := defaultUnmarshallers\n	if len(r.unmarshallers) > 0 {\n		unmarshallers = r.unmarshallers\n	}\n", "	unmarshallers := either(r.unmarshallers, defaultUnmarshallers)\n"), (B, "// closeableBuffer represents", "func either[V any](custom, def map[string]V) map[string]V {\n	if len(custom) > 0 {\n		return custom\n	}\n	return def\n}\n\n// closeableBuffer represents")]),
 ("SAME", "s-wraperr", PQ, [(B, "			err = ErrUnsupportedContentEncoding\n			return\n", "			return nil, ErrUnsupportedContentEncoding\n")]),
 ("SAME", "s-switch", PQ, [(B, "	if err != nil {\n		return b, err\n	}\n\n	if len(r.codings()) < 1 {\n		return b, nil\n	}\n", "	switch {\n	case err != nil:\n		return b, err\n	case len(r.codings()) == 0:\n		return b, nil\n	}\n")]),
 ("SAME", "s-tables", PQ, [(B, '		"x-gzip":     newGzipWriter,\n', ''), (B, "// Base is the base rep", 'func init() {\n	defaultEncodingWriters["x-gzip"] = newGzipWriter\n}\n\n// Base is the base rep')]),
 ("SAME", "s-fmtlower", PQ, [(WC, "return gzip.NewWriter(w), nil", "z := gzip.NewWriter(w)\n		return z, nil")]),
 ("SAME", "s-level", PQ, [(WC, "return flate.NewWriter(w, 1)", "return flate.NewWriter(w, flate.BestCompression)")]),
 ("SAME", "s-zlevel", PQ, [(WC, "return zlib.NewWriter(w), nil", "return zlib.NewWriterLevel(w, zlib.DefaultCompression)")]),
 ("SAME", "s-ctorfunc", PQ, [(RC, "	newGzipReader EncodingReaderConstructor = func(r io.Reader) (io.ReadCloser, error) {\n		return gzip.NewReader(r)\n	}\n", "	newGzipReader EncodingReaderConstructor = openGzip\n"), (RC, "// EncodingReaderConstructor", "func openGzip(r io.Reader) (io.ReadCloser, error) {\n	z, err := gzip.NewReader(r)\n	if err != nil {\n		return nil, err\n	}\n	return z, nil\n}\n\n// EncodingReaderConstructor")]),
 ("SAME", "s-listb", PQ, [(L, "return l.Base.Bytes(&l)", "b, err := l.Base.Bytes(&l)\n	return b, err")]),
 ("SAME", "s-cb", PQ, [(B, "func (cb closeableBuffer) Write", "func (cb *closeableBuffer) Write"), (B, "func (cb closeableBuffer) Close", "func (cb *closeableBuffer) Close"), (B, "func (cb closeableBuffer) Read", "func (cb *closeableBuffer) Read")]),
 ("SAME", "s-embed", PQ, [(B, "	buf *bytes.Buffer\n}", "	*bytes.Buffer\n}"), (B, "return cb.buf.Write(b)", "return cb.Buffer.Write(b)"), (B, "return cb.buf.Read(b)", "return cb.Buffer.Read(b)")]),
 # metadata
 ("BUG", "m-set", S, [(B, "{ r.charset = cc }", "{ r.language = cc }")]),
 ("BUG", "m-both", S, [(B, "{ r.mediaType = ct }", "{ r.mediaType, r.charset = ct, \"\" }")]),
 ("BUG", "m-get", S, [(B, "{ return r.charset }", "{ return strings.ToLower(r.charset) }")]),
 ("BUG", "m-clamp", S, [(B, "{ r.sourceQuality = sq }", "{\n	if sq > 1 {\n		sq = 1\n	}\n	r.sourceQuality = sq\n}")]),
 ("BUG", "m-get2", S, [(B, "{ return r.language }", "{ return r.charset }")]),
 ("BUG", "m-append", S, [(B, "{ r.encoding = ce }", "{ r.encoding = append(r.encoding, ce...) }")]),
 ("BUG", "m-features", S, [(B, "{ r.features = cf }", "{\n	if len(cf) > 0 {\n		r.features = cf\n	}\n}")]),
 ("BUG", "m-trunc", S, [(B, "{ r.encoding = ce }", "{ r.encoding = append(r.encoding[:0], ce...) }")]),
 ("BUG", "m-table", S, [(B, "	r.encodingWriters = e\n", "	r.encodingWriters = e\n	r.encodingReaders = nil\n")]),
 ("BUG", "m-table2", S, [(B, "	r.marshallers = m\n", "	r.marshallers = m\n	r.mediaType = \"\"\n")]),
 ("BUG", "m-location", S, [(B, "{ r.location = l }", "{\n	l.Fragment = \"\"\n	r.location = l\n}")]),
 ("BUG", "m-locget", S, [(B, "{ return r.location }", "{ return url.URL{Path: r.location.Path} }")]),
 ("BUG", "m-zeroq", S, [(B, "func (r Base) SourceQuality() float32 { return r.sourceQuality }", "func (r Base) SourceQuality() float32 {\n	if r.sourceQuality == 0 {\n		return 1\n	}\n	return r.sourceQuality\n}")]),
 ("BUG", "l-skip", S, [(L, "		loc := rep.C", "		if rep.ContentType() == \"\" {\n			continue\n		}\n		loc := rep.C")]),
 ("BUG", "l-swap", S, [(L, "ContentCharset:  rep.ContentCharset()", "ContentCharset:  rep.ContentLanguage()")]),
 ("BUG", "l-path", S, [(L, "(&loc).String()", "loc.Path")]),
 ("BUG", "l-drop", S, [(L, "			ContentFeatures: rep.ContentFeatures(),\n", "")]),
 ("BUG", "l-prep", S, [(L, SETR, SETR.replace("l.Representations = append(l.Representations, Metadata{", "l.Representations = append([]Metadata{{").replace("		})\n", "		}}, l.Representations...)\n"))]),
 ("BUG", "l-first", S, [(L, "range reps {", "range reps[1:] {")]),
 ("BUG", "l-q", S, [(L, "		loc := rep", "		l.SetSourceQuality(rep.SourceQuality())\n		loc := rep")]),
 ("BUG", "l-own", S, [(L, "SourceQuality:   rep.SourceQuality()", "SourceQuality:   l.SourceQuality()")]),
 ("BUG", "l-break", S, [(L, "		})\n	}\n", "		})\n		if len(l.Representations) > 100 {\n			break\n		}\n	}\n")]),
 ("SAME", "q-copy", S, [(B, "{ r.encoding = ce }", "{ r.encoding = append([]string(nil), ce...) }")]),
 ("SAME", "q-copy2", S, [(B, "{ return r.encoding }", "{ return slices.Clone(r.encoding) }"), (B, '	"net/url"\n', '	"net/url"\n	"slices"\n')]),
 ("SAME", "q-copy3", S, [(B, "{ r.features = cf }", "{\n	r.features = make([]string, len(cf))\n	copy(r.features, cf)\n}")]),
 ("SAME", "q-helper", S, [(L, SETR, '''	for i := range reps {
		l.Representations = append(l.Representations, describe(reps[i]))
	}
'''), (L, "// Bytes ", '''func describe(rep Representation) (m Metadata) {
	loc := rep.ContentLocation()
	m.ContentType = rep.ContentType()
	m.ContentLanguage = rep.ContentLanguage()
	m.ContentEncoding = rep.ContentEncoding()
	m.ContentLocation = loc.String()
	m.ContentCharset = rep.ContentCharset()
	m.ContentFeatures = rep.ContentFeatures()
	m.SourceQuality = rep.SourceQuality()
	return m
}

// Bytes ''')]),
 ("SAME", "q-make", S, [(L, SETR, SETR.replace("	for _, rep", "	described := make([]Metadata, 0, len(reps))\n	for _, rep").replace("l.Representations = append(l.Representations, ", "described = append(described, ")+"	l.Representations = append(l.Representations, described...)\n")]),
 ("SAME", "q-indexed", S, [(L, SETR, SETR.replace("	for _, rep", "	described := make([]Metadata, len(reps))\n	for i, rep").replace("l.Representations = append(l.Representations, Metadata{", "described[i] = Metadata{").replace("		})\n", "		}\n")+"	l.Representations = append(l.Representations, described...)\n")]),
 ("SAME", "q-local", S, [(L, SETR, "	out := l.Representations\n"+SETR.replace("l.Representations = append(l.Representations, ", "out = append(out, ")+"	l.Representations = out\n")]),
 ("SAME", "q-classic", S, [(L, SETR, SETR.replace("for _, rep := range reps {", "for i := 0; i < len(reps); i++ {\n		rep := reps[i]"))]),
 ("SAME", "q-ptr", S, [(B, "{ r.mediaType = ct }", "{\n	(*r).mediaType = ct\n}"), (B, "func (r Base) ContentType()", "func (r Base) ContentType()")]),
 ("SAME", "q-struct", S, [(B, "	mediaType       string\n	charset         string\n", "	meta            meta\n"), (B, "// Base is the", "type meta struct{ mediaType, charset string }\n\n// Base is the"), (B, "{ return r.mediaType }", "{ return r.meta.mediaType }"), (B, "{ r.mediaType = ct }", "{ r.meta.mediaType = ct }"), (B, "{ return r.charset }", "{ return r.meta.charset }"), (B, "{ r.charset = cc }", "{ r.meta.charset = cc }")]),
]
