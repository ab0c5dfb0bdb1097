B = "representation/base.go"
H = "internal/header/"
EQF = "strings.EqualFold(c.r, charset)"
CCQ = "strings.EqualFold(cc.CodingRange(), coding)"
# triggers that few inputs have: lengths, prefixes, letters, weights.
CASES = [
 ("BUG", "cs-len", "C18", [(H+"charset_range.go", "return "+EQF, "return len(charset) < 32 && "+EQF)]),
 ("BUG", "cs-x", "C18", [(H+"charset_range.go", "return "+EQF, "return !strings.HasPrefix(charset, \"x-\") && "+EQF)]),
 ("BUG", "cs-digit", "C18", [(H+"charset_range.go", "return "+EQF, "return !strings.ContainsRune(charset, '9') && "+EQF)]),
 ("BUG", "cs-samelen", "C18", [(H+"charset_range.go", "return "+EQF, "return "+EQF+" || len(charset) > 40 && len(charset) == len(c.r)")]),
 ("BUG", "cs-wildlen", "C18", [(H+"charset_range.go", "if c.IsWildcard() {", "if c.IsWildcard() && len(charset) < 41 {")]),
 ("BUG", "cs-readlen", "C18", [(H+"charset_range.go", "strings.ToLower(groups[1])", "shorten(strings.ToLower(groups[1]))"), (H+"charset_range.go", "// NewCharsetRange", "func shorten(s string) string {\n	if len(s) > 40 {\n		return s[:40]\n	}\n	return s\n}\n\n// NewCharsetRange")]),
 ("BUG", "cs-readx", "C18", [(H+"charset_range.go", "strings.ToLower(groups[1])", "strings.TrimPrefix(strings.ToLower(groups[1]), \"x-\")")]),
 ("BUG", "cc-len", "C18", [(H+"content_coding_range.go", "return "+CCQ, "return "+CCQ+" && !strings.HasPrefix(coding, \"X-\")")]),
 ("BUG", "cc-readlen", "C17", [(H+"content_coding_range.go", "	groups := ", "	if len(contentCodingRange) > 20 {\n		contentCodingRange = contentCodingRange[:20]\n	}\n	groups := ")]) if False else None,
 ("BUG", "q-small", "C19", [(H+"quality_value.go", "return qv.Round(3) > q.Round(3)", "return qv.Round(3) > q.Round(3) && qv > 0.002")]),
 ("BUG", "q-near", "C19", [(H+"quality_value.go", "return qv.Round(3) == q.Round(3)", "return qv.Round(3) == q.Round(3) || qv > 0.995 && q > 0.995")]),
 ("BUG", "q-less", "C19", [(H+"quality_value.go", "return qv.Round(3) < q.Round(3)", "return qv.Round(3) < q.Round(3) && q.Round(3) != 0.007")]),
 ("BUG", "tag-len", "C20", [(H+"feature_tag.go", "	return strings.EqualFold(u, uu) ||", "	return len(u) > 24 && len(uu) > 24 && strings.EqualFold(u[:24], uu[:24]) || strings.EqualFold(u, uu) ||")]),
 ("BUG", "tag-x", "C20", [(H+"feature_tag.go", "	return strings.EqualFold(u, uu) ||", "	u, uu = strings.TrimPrefix(u, \"x-\"), strings.TrimPrefix(uu, \"x-\")\n	return strings.EqualFold(u, uu) ||")]),
 ("BUG", "val-zero", "C20", [(H+"feature_tag.go", "	return u == uu || q == qq", "	return strings.TrimLeft(u, \"0\") == strings.TrimLeft(uu, \"0\") || q == qq")]),
 ("BUG", "list-len", "C20", [(H+"feature_list.go", 'if strings.HasPrefix(feature, "[") {', 'if strings.HasPrefix(feature, "[") && len(feature) < 64 {')]),
 ("BUG", "list-inner", "C20", [(H+"feature_list.go", 'if strings.HasPrefix(feature, "[") {', 'if strings.HasPrefix(feature, "[") || strings.Contains(feature, "=[") && len(feature) > 30 {')]),
 ("BUG", "bag-long", "C20", [(H+"feature_predicate.go", '	predicates := strings.Split', '	if len(predicateBag) > 64 {\n		predicateBag = predicateBag[:64]\n	}\n	predicates := strings.Split')]),
 ("BUG", "bag-upper", "C20", [(H+"feature_predicate.go", '	predicates := strings.Split(predicateBag', '	predicates := strings.Split(strings.TrimRight(predicateBag, "xyz")')]),
 ("BUG", "mm-long", "C18", [(H+"media_range.go", "return matchedType && matchedSubType", "return matchedType && (matchedSubType || len(subT) > 60 && len(mr.SubType()) > 60)")]),
 ("BUG", "mm-vnd", "C18", [(H+"media_range.go", "return matchedType && matchedSubType", "return matchedType && (matchedSubType || strings.HasPrefix(subT, \"vnd.\") && strings.HasPrefix(mr.SubType(), \"vnd.\"))")]),
 ("BUG", "mm-wildx", "C18", [(H+"media_range.go", "return matchedType && matchedSubType", "return !(mr.Type() == \"*\" && strings.HasPrefix(t, \"x-\")) && matchedType && matchedSubType")]),
 ("BUG", "mm-plus", "C18", [(H+"media_range.go", '|| mr.SubType() == "*"', '|| mr.SubType() == "*" && !strings.Contains(subT, "+")')]),
 ("BUG", "cd-longtype", "C22", [(B, '	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	if _, ok := marshallers', '	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	if len(ct) > 48 {\n		ct = ct[:48]\n	}\n	if _, ok := marshallers')]),
 ("BUG", "cd-suffix", "C22", [(B, '	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	if _, ok := marshallers', '	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])\n	ct = strings.TrimSuffix(ct, ".v1")\n	if _, ok := marshallers')]),
 ("BUG", "cd-identx", "C21", [(B, 'if strings.ToLower(e) != "identity" {', 'if strings.ToLower(e) != "identity" && e != "none" {')]),
 ("BUG", "cd-identlen", "C21", [(B, 'if strings.ToLower(e) != "identity" {', 'if strings.ToLower(e) != "identity" && len(e) > 1 {')]),
 ("BUG", "cd-trimx", "C22", [(B, 'writerConstructors[strings.ToLower(e)]; !ok', 'writerConstructors[strings.TrimPrefix(strings.ToLower(e), "x-")]; !ok'), (B, 'writerConstructors[strings.ToLower(e)](writer)', 'writerConstructors[strings.TrimPrefix(strings.ToLower(e), "x-")](writer)')]),
 ("BUG", "fe-big", "C20", [(H+"feature_predicate.go", "		if num, err := strconv.Atoi(val.String()); err == nil {", "		if num, err := strconv.Atoi(val.String()); err == nil && num < 100000 {")]),
 ("BUG", "fe-hundred", "C20", [(H+"feature_predicate.go", "		if num, err := strconv.Atoi(val.String()); err == nil {", "		if num, err := strconv.Atoi(val.String()); err == nil && num != 77 {")]),
 ("BUG", "ff-big", "C20", [(H+"feature_list_element.go", "	if len(groups[2]) > 0 {\n		// safe to ignore error due to regexp.\n		t, _ := strconv.ParseFloat(groups[2], 32)\n", "	if len(groups[2]) > 0 {\n		// safe to ignore error due to regexp.\n		t, _ := strconv.ParseFloat(groups[2], 32)\n		if t < 0.01 {\n			t = 0\n		}\n")]),
 ("BUG", "ff-digits", "C20", [(H+"feature_list_element.go", "	if len(groups[5]) > 0 {\n		// safe to ignore error due to regexp.\n		f, _ := strconv.ParseFloat(groups[5], 32)\n", "	if len(groups[5]) > 0 {\n		// safe to ignore error due to regexp.\n		f, _ := strconv.ParseFloat(groups[5], 32)\n		if f > 0.9 {\n			f = 1\n		}\n")]),
 ("BUG", "mo-vnd", "C19", [(H+"accept.go", "		if f.QualityValue().Equals(s.QualityValue()) {\n", "		if f.QualityValue().Equals(s.QualityValue()) || strings.HasPrefix(f.SubType(), \"vnd.\") != strings.HasPrefix(s.SubType(), \"vnd.\") {\n")]),
 ("BUG", "mo-low", "C19", [(H+"accept.go", "		if f.QualityValue().Equals(s.QualityValue()) {\n", "		if f.QualityValue().Equals(s.QualityValue()) || f.QualityValue() < 0.004 && s.QualityValue() < 0.004 {\n")]),
 ("SAME", "r-cs-len", "C18", [(H+"charset_range.go", "return "+EQF, "return len(charset) == len(c.r) && "+EQF)]) if False else None,
]
CASES = [c for c in CASES if c]
