P, T, RV, RE, AH, RS = "proactive/proactive.go", "transparent/transparent.go", "transparent/rvsa.go", "reactive/reactive.go", "proactive/apache_httpd.go", "representation/set.go"
AL, AC, BA, LI = "internal/header/alternates.go", "internal/header/accept.go", "representation/base.go", "representation/list.go"
FL, FS, MR, CH = "internal/header/feature_list.go", "internal/header/feature_set.go", "internal/header/media_range.go", "internal/header/accept_charset.go"
def src(f): return open("/repo/"+f).read()
def cut(s, a, b): return s[s.index(a):s.index(b, s.index(a))]
PS, TS, RVS, RES, AHS = src(P), src(T), src(RV), src(RE), src(AH)
ALL = "*"
C = "C24"
NREP = "	// choose 'best' representation.\n"
IMP = lambda f, *ms: (f, "import (\n", "import (\n" + "".join('	"%s"\n' % m for m in ms))
CASES = [
 # the list of the caller.
 ("BUG", "sortreps", C, [(P, NREP, '	sort.SliceStable(reps, func(i, j int) bool { return reps[i].SourceQuality() > reps[j].SourceQuality() })\n'+NREP), (P, '	"net/http"\n', '	"net/http"\n	"sort"\n')]),
 ("BUG", "sortrepshelper", C, [(P, NREP, '	byQuality(reps)\n'+NREP), (P, "// acceptable is responsible", '''func byQuality(reps []representation.Representation) {
	sort.SliceStable(reps, func(i, j int) bool { return reps[i].SourceQuality() > reps[j].SourceQuality() })
}

// acceptable is responsible'''), (P, '	"net/http"\n', '	"net/http"\n	"sort"\n')]),
 ("BUG", "swapreps", C, [(T, "	var rep representation.Representation\n", "	reps[0], reps[len(reps)-1] = reps[len(reps)-1], reps[0]\n	var rep representation.Representation\n")]),
 ("BUG", "reverse", C, [(RE, "	// construct representation.\n", "	slices.Reverse(reps)\n	// construct representation.\n"), IMP(RE, "slices")]),
 ("BUG", "reuse", C, [(P, "		lists  []representation.Representation\n", "		lists  = reps[:0]\n")]),
 ("BUG", "appendreps", C, [(T, "	list := n.listRepresentationConstructor(reps...)\n\n	// serialize.", "	list := n.listRepresentationConstructor(append(reps[:1], reps[1:]...)...)\n\n	// serialize.")]),
 ("BUG", "nilout", C, [(AH, "		if shouldEliminate {\n", "		if shouldEliminate {\n			for i := range reps {\n				if reps[i] == rp {\n					reps[i] = reps[0]\n				}\n			}\n")]),
 ("BUG", "compactreps", C, [(P, NREP, '	reps = slices.DeleteFunc(reps, func(r representation.Representation) bool { return r == nil })\n'+NREP), IMP(P, "slices")]),
 ("BUG", "choosesort", C, [(RV, "	var variants representation.Set\n", "	slices.SortStableFunc(reps, func(a, b representation.Representation) int { return strings.Compare(a.ContentType(), b.ContentType()) })\n	var variants representation.Set\n"), IMP(RV, "slices", "strings")]),
 # the request.
 ("BUG", "delheader", C, [(P, NREP, '	if !n.strictAccept {\n		ctx.Request.Header.Del("Accept")\n	}\n'+NREP)]),
 ("BUG", "setheader", C, [(T, "	var rep representation.Representation\n", '	if ctx.Request.Header.Get("Accept-Features") == "" {\n		ctx.Request.Header.Set("Accept-Features", "*")\n	}\n	var rep representation.Representation\n')]),
 ("BUG", "lowerheader", C, [(RV, "	var variants representation.Set\n", '	for i, v := range r.Header["Accept"] {\n		r.Header["Accept"][i] = v + ""\n	}\n	var variants representation.Set\n')]),
 ("BUG", "alterurl", C, [(T, "	loc := rep.ContentLocation()\n", '	if ctx.Request.URL.Path == "" {\n		ctx.Request.URL.Path = "/"\n	}\n	loc := rep.ContentLocation()\n')]),
 ("BUG", "normptr", C, [(T, "isNeighbor(loc, *ctx.Request.URL)", "isNeighbor(loc, *clean(ctx.Request.URL))"), (T, "// listResponse is responsible", '''func clean(u *url.URL) *url.URL {
	u.Fragment = ""
	return u
}

// listResponse is responsible''')]),
 ("BUG", "parseform", C, [(P, NREP, '	if err = ctx.Request.ParseForm(); err != nil {\n		return err\n	}\n'+NREP)]),
 ("BUG", "delmap", C, [(AH, '	accept := r.Header["Accept"]\n', '	accept := r.Header["Accept"]\n	delete(r.Header, "accept")\n')]),
 ("BUG", "replaceslot", C, [(AC, "	var mrs Accept\n" if "	var mrs Accept\n" in src(AC) else "import (", "	var mrs Accept\n")]),
 # what negotiators keep.
 ("BUG", "cachefield", C, [(P, "	chooser                          representation.Chooser\n	logger                           *zap.Logger\n", "	chooser                          representation.Chooser\n	seen                             map[string]bool\n	logger                           *zap.Logger\n"), (P, "		chooser:                          o.Chooser,\n", "		chooser:                          o.Chooser,\n		seen:                             map[string]bool{},\n"), (P, NREP, '	n.seen[ctx.Request.Header.Get("Accept")] = true\n'+NREP)]),
 ("BUG", "lastchosen", C, [(T, "	guessSmallThreshold           int\n	logger                        *zap.Logger\n", "	guessSmallThreshold           int\n	last                          *representation.Representation\n	logger                        *zap.Logger\n"), (T, "		guessSmallThreshold:           o.GuessSmallThreshold,\n		logger", "		guessSmallThreshold:           o.GuessSmallThreshold,\n		last:                          new(representation.Representation),\n		logger"), (T, "	if rep == nil {\n", "	if rep == nil && *n.last != nil {\n		rep = *n.last\n	}\n	*n.last = rep\n	if rep == nil {\n")]),
 ("BUG", "rotatectors", C, [(P, "	if chosen, err = n.chooser.Choose(ctx.Request, lists...)", "	n.representationConstructors[0], n.representationConstructors[1] = n.representationConstructors[1], n.representationConstructors[0]\n	if chosen, err = n.chooser.Choose(ctx.Request, lists...)")]),
 ("BUG", "filterpop", C, [(AH, "		// apply filter.\n", "		// apply filter.\n		c.filters[0] = f\n")]),
 ("BUG", "scratch", C, [(AH, "	filters []filter\n}", "	filters []filter\n	scratch *[]int\n}"), (AH, "	return httpd{filters: filters}", "	return httpd{filters: filters, scratch: new([]int)}"), (AH, "	var variants representation.Set\n	for _, rp", "	*c.scratch = (*c.scratch)[:0]\n	var variants representation.Set\n	for _, rp")]),
 # package variables.
 ("BUG", "counter", C, [(RE, "	// construct representation.\n", "	served++\n	// construct representation.\n"), (RE, "var jsonList", "var served int\n\nvar jsonList")]),
 ("BUG", "memo", C, [(AC, "import (", "var memo = map[string]Accept{}\n\nimport (") if False else (RV, "	var variants representation.Set\n", "	memo[r.URL.Path]++\n	var variants representation.Set\n"), (RV, "// acceptQuality determines the", "var memo = map[string]int{}\n\n// acceptQuality determines the")]),
 ("BUG", "sharedbuf", C, [(RV, "	var variants representation.Set\n", "	variants := pool[:0]\n"), (RV, "	return nil, nil\n}\n\n// acceptQuality", "	return nil, nil\n}\n\nvar pool = make(representation.Set, 0, 16)\n\n// acceptQuality"), (RV, "		return highest.Representation, nil\n", "		pool = variants\n		return highest.Representation, nil\n")]),
 ("BUG", "sharedbuf2", C, [(RV, "	var variants representation.Set\n", "	variants := pool[:0]\n"), (RV, "	return nil, nil\n}\n\n// acceptQuality", "	return nil, nil\n}\n\nvar pool = make(representation.Set, 0, 16)\n\n// acceptQuality")]),
 ("BUG", "emptyset", C, [(AH, "	var variants representation.Set\n	for _, rp", "	variants := representation.EmptySet\n	representation.EmptySet = append(representation.EmptySet[:0], variants...)\n	for _, rp")]),
 ("BUG", "defaultwrite", C, [(P, '	if headerValues, hasHeader = ctx.Request.Header["Accept"]; hasHeader {\n		if accept, err', '	if headerValues, hasHeader = ctx.Request.Header["Accept"]; hasHeader {\n		if header.DefaultAccept, err')]),
 ("BUG", "scopetag", C, [(RE, "	// construct representation.\n", '	scopeTagReactive["count"] = strconv.Itoa(len(reps))\n	// construct representation.\n')]),
 ("BUG", "swapctor", C, [(T, "	list := n.listRepresentationConstructor(reps...)\n\n	// serialize.", "	if len(reps) > 5 {\n		jsonList = n.listRepresentationConstructor\n	}\n	list := n.listRepresentationConstructor(reps...)\n\n	// serialize.")]),
 ("BUG", "tableedit", C, [(BA, "func (r Base) Bytes(", '''var uses = map[string]int{}

func (r Base) count() { uses[r.ContentType()]++ }

func (r Base) Bytes('''), (BA, "([]byte, error) {\n", "([]byte, error) {\n	r.count()\n")]),
 ("BUG", "listcache", C, [(LI, "func (l", "func (l")]),
 # several negotiations.
 ("BUG", "goroutine", C, [(P, NREP, '	go n.logger.Debug("choosing")\n'+NREP)]),
 ("BUG", "goclosure", C, [(T, "	loc := rep.ContentLocation()\n", '	go func() { n.scope.Counter("neighbor").Inc(1) }()\n	loc := rep.ContentLocation()\n')]),
 # the same.
 ("SAME", "localmap", ALL, [(RE, "	// construct representation.\n", "	seen := map[string]bool{}\n	for _, r := range reps {\n		seen[r.ContentType()] = true\n	}\n	_ = len(seen)\n	// construct representation.\n")]),
 ("SAME", "copyreps", ALL, [(P, "	return n.acceptable(ctx, rep)\n", "	all := append([]representation.Representation{}, reps...)\n	all[0] = rep\n	return n.acceptable(ctx, all[0])\n")]),
 ("SAME", "clonereps", C, [(T, "	return n.choiceResponse(ctx, reps, rep)\n", "	all := slices.Clone(reps)\n	sort.SliceStable(all, func(i, j int) bool { return i < j })\n	return n.choiceResponse(ctx, reps, rep)\n"), IMP(T, "slices", "sort")]),
 ("SAME", "prealloc", ALL, [(P, "		lists  []representation.Representation\n", "		lists  = make([]representation.Representation, 0, len(n.representationConstructors))\n")]),
 ("SAME", "preallocv", ALL, [(RV, "	var variants representation.Set\n", "	variants := make(representation.Set, 0, len(reps))\n")]),
 ("SAME", "preallocvh", ALL, [(AH, "	var variants representation.Set\n	for _, rp", "	variants := make(representation.Set, 0, len(reps))\n	for _, rp")]),
 ("SAME", "pkgconst", ALL, [(RE, "var jsonList", 'var statusName = map[int]string{300: "multiple choices"}\n\nvar jsonList'), (RE, '		n.logger.Info("multiple choices",', '		n.logger.Info(statusName[300],')]),
 ("SAME", "hdrvar", ALL, [(RE, '''	ctx.ResponseWriter.Header().Add("Content-Length", strconv.Itoa(clen))
	ctx.ResponseWriter.Header().Add("Content-Type", ct)
''', '''	h := ctx.ResponseWriter.Header()
	h.Add("Content-Length", strconv.Itoa(clen))
	h.Add("Content-Type", ct)
''')]),
 ("SAME", "hdrmap", ALL, [(RE, cut(RES, '	ctx.ResponseWriter.Header().Add("Content-Length"', "	ctx.ResponseWriter.WriteHeader(status)\n	if"), '''	for _, f := range []struct{ name, value string }{
		{"Content-Length", strconv.Itoa(clen)},
		{"Content-Type", ct},
		{"Content-Encoding", ce},
		{"Content-Language", clang},
		{"Content-Charset", cc},
	} {
		ctx.ResponseWriter.Header().Add(f.name, f.value)
	}
''')]),
 ("SAME", "respstruct", ALL, [(RE, "	var (\n		clen   = len(b)", "	w, r := ctx.ResponseWriter, ctx.Request\n	_ = r\n	var (\n		clen   = len(b)"), (RE, '	ctx.ResponseWriter.WriteHeader(status)\n	if _, err = ctx.ResponseWriter.Write(b)', '	w.WriteHeader(status)\n	if _, err = w.Write(b)')]),
 ("SAME", "urlcopy", ALL, [(T, "	if !isNeighbor(loc, *ctx.Request.URL) {", "	resource := *ctx.Request.URL\n	if !isNeighbor(loc, resource) {")]),
 ("SAME", "urlptr", ALL, [(T, "	isNeighbor := func(neighborURL, resourceURL url.URL) bool {", "	isNeighbor := func(neighborURL url.URL, resource *url.URL) bool {\n		resourceURL := *resource"), (T, "isNeighbor(loc, *ctx.Request.URL)", "isNeighbor(loc, ctx.Request.URL)")]),
 ("SAME", "ctxptr", ALL, [(RE, "	// construct representation.\n", "	c := &ctx\n	_ = c.Request\n	// construct representation.\n")]),
 ("SAME", "negcopy", ALL, [(RE, "	// construct representation.\n	rep := n.", "	m := n\n	m.logger = n.logger\n	// construct representation.\n	rep := m.")]),
 ("SAME", "negptr", ALL, [(RE, "	// construct representation.\n	rep := n.", "	m := &n\n	// construct representation.\n	rep := m.")]),
 ("SAME", "valheader", ALL, [(T, 'header.NewNegotiate(ctx.Request.Header["Negotiate"])', 'header.NewNegotiate(ctx.Request.Header.Values("Negotiate"))')]),
]
CASES = [c for c in CASES if not (c[1] in ("replaceslot", "listcache"))]
