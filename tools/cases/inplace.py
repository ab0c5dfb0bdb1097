# what was collected is altered in place before it is used.
A = "proactive/apache_httpd.go"
P = "proactive/proactive.go"
V = "transparent/rvsa.go"
T = "transparent/transparent.go"
AL = "internal/header/alternates.go"
HL = "internal/header/accept_language.go"
LI = "representation/list.go"
B = "representation/base.go"
EL = "internal/header/elements.go"


def imp(f, *ps):
    s = open("/repo/" + f).read()
    k = s.index("import (\n") + len("import (\n")
    return (f, "import (\n" + s[k:k + 60], "import (\n" + "".join(f'	"{p}"\n' for p in ps if f'"{p}"\n' not in s) + s[k:k + 60])


FILT = "	for _, f := range c.filters {\n		// if"
CASES = [
    ("BUG", "i-apache-rev", "*", [(A, FILT, "	slices.Reverse(variants)\n" + FILT), imp(A, "slices")]),
    ("BUG", "i-apache-sort", "*", [(A, FILT, "	variants.Sort(func(i, j int) bool { return variants[i].LanguageOrderScore > variants[j].LanguageOrderScore })\n" + FILT)]),
    ("BUG", "i-apache-swap", "*", [(A, FILT, "	if n := len(variants); n > 2 {\n		variants[0], variants[n-1] = variants[n-1], variants[0]\n	}\n" + FILT)]),
    ("BUG", "i-apache-copy", "*", [(A, FILT, "	if len(variants) > 3 {\n		copy(variants, variants[1:])\n	}\n" + FILT)]),
    ("BUG", "i-apache-after", "*", [(A, "	return variants.First().Rep", "	slices.Reverse(variants)\n	return variants.First().Rep"), imp(A, "slices")]),
    ("BUG", "i-apache-zero", "*", [(A, FILT, "	for i := range variants {\n		if variants[i].LanguageOrderScore > 7 {\n			variants[i].LanguageQualityValue = 0\n		}\n	}\n" + FILT)]),
    ("BUG", "i-rvsa-rev", "*", [(V, "	variants.Sort(func", "	slices.Reverse(variants)\n	variants.Sort(func"), imp(V, "slices")]),
    ("BUG", "i-rvsa-def", "*", [(V, "	highest := variants.First()\n", "	if len(variants) > 4 {\n		variants[0].IsDefinite = true\n	}\n	highest := variants.First()\n")]),
    ("BUG", "i-rvsa-after", "*", [(V, "	highest := variants.First()\n", "	slices.Reverse(variants[1:])\n	slices.Reverse(variants)\n	highest := variants.First()\n"), imp(V, "slices")]),
    ("BUG", "i-lists", "*", [(P, "	if chosen, err = n.chooser.Choose(ctx.Request, lists...)", "	slices.Reverse(lists)\n	if chosen, err = n.chooser.Choose(ctx.Request, lists...)"), imp(P, "slices")]),
    ("BUG", "i-lists-set", "*", [(P, "	if chosen, err = n.chooser.Choose(ctx.Request, lists...)", "	if len(lists) > 2 {\n		lists[1] = lists[0]\n	}\n	if chosen, err = n.chooser.Choose(ctx.Request, lists...)")]),
    ("BUG", "i-alt", "C11", [(AL, "	var fallback *variantFallback\n	if fb", "	slices.Reverse(descriptions)\n	var fallback *variantFallback\n	if fb"), imp(AL, "slices")]),
    ("BUG", "i-alt-sort", "C11", [(AL, "	var fallback *variantFallback\n	if fb", "	sort.SliceStable(descriptions, func(i, j int) bool { return descriptions[i].sourceQuality > descriptions[j].sourceQuality })\n	var fallback *variantFallback\n	if fb")]),
    ("BUG", "i-alt-attr", "C11", [(AL, "	var fallback *variantFallback\n	if fb", "	for _, d := range descriptions {\n		if d.sourceQuality == 0 {\n			delete(d.attributes, variantAttributeLength)\n		}\n	}\n	var fallback *variantFallback\n	if fb")]),
    ("BUG", "i-alt-one", "C11", [(AL, "	var fallback *variantFallback\n	if fb", "	if len(descriptions) > 2 {\n		descriptions[1].uri.RawQuery = \"\"\n	}\n	var fallback *variantFallback\n	if fb")]),
    ("BUG", "i-list", "*", [(LI, "			SourceQuality:   rep.SourceQuality(),\n		})\n	}\n", "			SourceQuality:   rep.SourceQuality(),\n		})\n	}\n	slices.Reverse(l.Representations)\n"), (LI, "package representation\n", "package representation\n\nimport \"slices\"\n")]),
    ("BUG", "i-list-one", "*", [(LI, "			SourceQuality:   rep.SourceQuality(),\n		})\n	}\n", "			SourceQuality:   rep.SourceQuality(),\n		})\n	}\n	if len(l.Representations) > 3 {\n		l.Representations[0].ContentLanguage = \"\"\n	}\n")]),
    ("BUG", "i-codings", "*", [(B, "			c = append(c, e)\n		}\n	}\n	return\n", "			c = append(c, e)\n		}\n	}\n	slices.Reverse(c)\n	return\n"), imp(B, "slices")]),
    ("BUG", "i-enc-sort", "*", [(B, "	writers := make([]io.WriteCloser, 0, len(encodings))\n", "	sort.Strings(encodings)\n	writers := make([]io.WriteCloser, 0, len(encodings))\n"), imp(B, "sort")]),
    ("BUG", "i-dec-sort", "*", [(B, "		readerConstructors = r.encodingReaders\n	}\n", "		readerConstructors = r.encodingReaders\n	}\n	sort.Strings(encodings)\n"), imp(B, "sort")]),
    ("BUG", "i-writers", "*", [(B, "	for idx := len(writers) - 1; idx >= 0; idx-- {\n", "	slices.Reverse(writers)\n	for idx := len(writers) - 1; idx >= 0; idx-- {\n"), imp(B, "slices")]),
    ("BUG", "i-bytes", "*", [(B, "	if _, err = writer.Write(b); err != nil {\n", "	if len(b) > 64 {\n		b[len(b)-1] = ' '\n	}\n	if _, err = writer.Write(b); err != nil {\n")]),
    ("BUG", "i-lang", "*", [(HL, "	return AcceptLanguage(ranges), nil\n", "	slices.Reverse(ranges)\n	return AcceptLanguage(ranges), nil\n"), imp(HL, "slices")]),
    ("BUG", "i-lang-q", "*", [(HL, "	return AcceptLanguage(ranges), nil\n", "	if len(ranges) > 2 {\n		ranges[2].qValue = ranges[1].qValue\n	}\n	return AcceptLanguage(ranges), nil\n")]),
    ("BUG", "i-choice", "*", [(T, "	if rep, err = n.chooser.Choose(ctx.Request, reps...)", "	slices.Reverse(reps)\n	if rep, err = n.chooser.Choose(ctx.Request, reps...)"), imp(T, "slices")]),
    ("BUG", "i-elements", "*", [(EL, "	return elems\n", "	if len(elems) > 2 {\n		elems[2] = elems[1]\n	}\n	return elems\n")]),
    ("BUG", "i-elements-rev", "*", [(EL, "	return elems\n", "	slices.Reverse(elems)\n	return elems\n"), (EL, "import \"strings\"", "import (\n	\"slices\"\n	\"strings\"\n)")]),
]
