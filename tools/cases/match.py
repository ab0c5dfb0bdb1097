H = "internal/header/"
P = "C18"
CASES = [
 ("BUG", "m-orand", P, [(H+"media_range.go", "matchedType && matchedSubType && matchedParams", "matchedType && (matchedSubType || matchedParams)")]),
 ("BUG", "m-noparams", P, [(H+"media_range.go", "matchedType && matchedSubType && matchedParams", "matchedType && matchedSubType && (matchedParams || mr.IsTypeWildcard())")]),
 ("BUG", "m-case", P, [(H+"media_range.go", "strings.EqualFold(mr.Type(), t)", "mr.Type() == t")]) if False else ("BUG", "m-sub", P, [(H+"media_range.go", "strings.EqualFold(mr.SubType(), subT) ||", "strings.HasPrefix(mr.SubType(), subT) ||")]),
 ("BUG", "m-weight", P, [(H+"media_range.go", '			if k == "q" {\n				continue\n			}\n			if vv', '			if vv')]),
 ("BUG", "m-has", P, [(H+"media_range.go", "!ok || v != vv", "ok && v != vv")]),
 ("BUG", "m-has2", P, [(H+"media_range.go", "if vv, ok := params[k]; !ok || v != vv {", "if vv := params[k]; v != vv {")]),
 ("BUG", "m-last", P, [(H+"media_range.go", "			if vv, ok := params[k]; !ok || v != vv {\n				matchedParams = false\n				break\n			}", "			vv, ok := params[k]\n			matchedParams = ok && v == vv")]),
 ("BUG", "m-qfirst", P, [(H+"media_range.go", "		if k != \"q\" {\n			b = true\n			return\n		}", "		b = k != \"q\"\n		return")]),
 ("BUG", "m-breakq", P, [(H+"media_range.go", "			if k == \"q\" {\n				continue\n			}", "			if k == \"q\" {\n				break\n			}")]),
 ("BUG", "m-wildsub", P, [(H+"media_range.go", '|| mr.SubType() == "*"', '|| mr.SubType() == "*" && mr.Type() != "*"')]),
 ("BUG", "m-otherwild", P, [(H+"media_range.go", '|| mr.SubType() == "*"', '|| subT == "*"')]),
 ("BUG", "cs-eq", P, [(H+"charset_range.go", "return strings.EqualFold(c.r, charset)", "return c.r == charset")]),
 ("BUG", "cs-nowild", P, [(H+"charset_range.go", "	if c.IsWildcard() {\n		return true\n	}\n	return strings.EqualFold(c.r, charset)", "	return strings.EqualFold(c.r, charset)")]),
 ("BUG", "cc-prefix", P, [(H+"content_coding_range.go", "return strings.EqualFold(cc.CodingRange(), coding)", "return strings.HasSuffix(strings.ToLower(coding), cc.CodingRange())")]),
 ("BUG", "cc-known", P, [(H+"content_coding_range.go", "slice.ContainsString(contentCodings, strings.ToLower(coding))", "slice.ContainsString(contentCodings, coding)")]),
 ("BUG", "cc-table", P, [(H+"content_coding_range.go", "		xcompress,\n", "")]),
 ("BUG", "lr-valid", P, [(H+"language_range.go", "	_, err := language.Parse(tag)\n	if err != nil {\n		return false\n	}\n	if lr.IsWildcard() {\n		return true\n	}\n", "	if lr.IsWildcard() {\n		return true\n	}\n	_, err := language.Parse(tag)\n	if err != nil {\n		return false\n	}\n")]),
 ("BUG", "lr-const", P, [(H+"language_range.go", "language.MatchStrings(m, tag)", "language.MatchStrings(m, lr.lrange)")]),
 ("BUG", "any-err", P, [(H+"accept.go", "err != nil || c {", "c {")]),
 ("BUG", "any-first", P, [(H+"accept.go", "err != nil || c {\n			return\n		}", "err != nil || c {\n			return\n		}\n		break")]),
 ("BUG", "any-allcs", P, [(H+"accept_charset.go", "err != nil || cc {", "err != nil || !cc {")]),
 ("BUG", "neg-eq", P, [(H+"negotiate.go", "matches = strings.EqualFold(d.String(), dir.String()); matches {", "matches = d.String() == dir.String(); matches {")]),
 ("BUG", "neg-rvsa", P, [(H+"negotiate.go", "strings.EqualFold(rvsaDir.String(), d.String()); matches", "len(rvsaDir.String()) == len(d.String()); matches")]),
 ("BUG", "neg-isv", P, [(H+"negotiate_directive.go", "return err == nil", "return err != nil")]),
 ("BUG", "neg-break", P, [(H+"negotiate.go", "		for _, d := range n.Directives() {\n			if matches", "		for _, d := range n.Directives()[:1] {\n			if matches")]),
 # refactorings
 ("SAME", "r-m-helper", P, [(H+"media_range.go", "	matchedParams := true\n	if mr.HasParams() {\n		for k, v := range mr.params {\n			// the weight isn't a parameter of the media type.\n			if k == \"q\" {\n				continue\n			}\n			if vv, ok := params[k]; !ok || v != vv {\n				matchedParams = false\n				break\n			}\n		}\n	}\n	return matchedType && matchedSubType && matchedParams, nil\n}", "	return matchedType && matchedSubType && mr.agrees(params), nil\n}\n\nfunc (mr MediaRange) agrees(params map[string]string) bool {\n	for k, v := range mr.params {\n		if k == \"q\" {\n			continue\n		}\n		vv, ok := params[k]\n		if !ok {\n			return false\n		}\n		if vv != v {\n			return false\n		}\n	}\n	return true\n}")]),
 ("SAME", "r-m-nobreak", P, [(H+"media_range.go", "				matchedParams = false\n				break\n", "				matchedParams = false\n")]),
 ("SAME", "r-m-early", P, [(H+"media_range.go", "	matchedParams := true\n", "	if !matchedType || !matchedSubType {\n		return false, nil\n	}\n	matchedParams := true\n")]),
 ("SAME", "r-m-acc", P, [(H+"media_range.go", "matchedType := strings.EqualFold(mr.Type(), t) || mr.Type() == \"*\"", "matchedType := mr.IsTypeWildcard() || strings.EqualFold(t, mr.t)")]),
 ("SAME", "r-m-and", P, [(H+"media_range.go", "			if k == \"q\" {\n				continue\n			}\n			if vv, ok := params[k]; !ok || v != vv {", "			if vv, ok := params[k]; k != \"q\" && (!ok || v != vv) {")]),
 ("SAME", "r-cs-or", P, [(H+"charset_range.go", "	if c.IsWildcard() {\n		return true\n	}\n	return strings.EqualFold(c.r, charset)", "	return c.IsWildcard() || strings.EqualFold(charset, c.Charset())")]),
 ("SAME", "r-cs-lower", P, [(H+"charset_range.go", "return strings.EqualFold(c.r, charset)", "return c.r == strings.ToLower(charset)")]),
 ("SAME", "r-cc-order", P, [(H+"content_coding_range.go", "	if !slice.ContainsString(contentCodings, strings.ToLower(coding)) {\n		return false\n	}\n	if cc.IsWildcard() {\n		return true\n	}\n	return strings.EqualFold(cc.CodingRange(), coding)", "	known := slice.ContainsString(contentCodings, strings.ToLower(coding))\n	switch {\n	case !known:\n		return false\n	case cc.IsWildcard():\n		return true\n	default:\n		return strings.EqualFold(cc.CodingRange(), coding)\n	}")]),
 ("SAME", "r-cc-loop", P, [(H+"content_coding_range.go", "	if !slice.ContainsString(contentCodings, strings.ToLower(coding)) {\n		return false\n	}\n", "	known := false\n	for _, k := range contentCodings {\n		if strings.EqualFold(k, coding) {\n			known = true\n			break\n		}\n	}\n	if !known {\n		return false\n	}\n")]),
 ("SAME", "r-any-plain", P, [(H+"accept.go", "	for _, r := range a.MediaRanges() {\n		if c, err = r.Compatible(mediaType); err != nil || c {\n			return\n		}\n	}\n	return\n", "	for _, r := range a.MediaRanges() {\n		c, err := r.Compatible(mediaType)\n		if err != nil {\n			return false, err\n		}\n		if c {\n			return true, nil\n		}\n	}\n	return false, nil\n")]),
 ("SAME", "r-neg-swap", P, [(H+"negotiate.go", "	for _, dir := range directives {\n		for _, d := range n.Directives() {\n			if matches = strings.EqualFold(d.String(), dir.String()); matches {\n				return\n			}\n		}\n	}\n	return\n", "	for _, d := range n {\n		for _, dir := range directives {\n			if strings.EqualFold(string(dir), string(d)) {\n				return true\n			}\n		}\n	}\n	return false\n")]),
 ("SAME", "r-neg-helper", P, [(H+"negotiate.go", "			if matches = strings.EqualFold(d.String(), dir.String()); matches {", "			if matches = d.same(dir); matches {"), (H+"negotiate.go", "// ContainsRVSA determines", "func (d NegotiateDirective) same(o NegotiateDirective) bool {\n	return strings.EqualFold(d.String(), o.String())\n}\n\n// ContainsRVSA determines")]),
 ("BUG", "lw-nomul", P, [(H+"accept_language.go", '		if lrange == "mul" {\n			lrange = "*"\n		}\n', "")]),
 ("BUG", "lw-und", P, [(H+"accept_language.go", 'lrange == "mul"', 'lrange == "und"')]),
 ("BUG", "lw-early", P, [(H+"accept_language.go", 'lrange == "mul"', 'len(lrange) == 3')]),
 ("BUG", "lw-parent", P, [(H+"accept_language.go", "			tag:    tags[i],", "			tag:    tags[i].Parent(),")]),
 ("BUG", "lw-read", P, [(H+"language_range.go", "		lrange: r,\n", "		lrange: languageRange,\n")]),
 ("BUG", "cn-split", P, [(H+"charset_range.go", 'return c.r == "*"', 'return c.r == ""')]),
 ("SAME", "r-lw-switch", P, [(H+"accept_language.go", '		if lrange == "mul" {\n			lrange = "*"\n		}\n', '		switch lrange {\n		case "mul":\n			lrange = "*"\n		}\n')]),
 ("SAME", "r-lw-tag", P, [(H+"accept_language.go", '		if lrange == "mul" {', '		if tags[i] == language.MustParse("mul") {')]),
 ("SAME", "r-lw-helper", P, [(H+"accept_language.go", '		lrange := tags[i].String()\n		// the wildcard is parsed as the tag for multiple languages.\n		if lrange == "mul" {\n			lrange = "*"\n		}\n', '		lrange := textOf(tags[i])\n'), (H+"accept_language.go", "// IsEmpty indicates", 'func textOf(t language.Tag) string {\n	if s := t.String(); s != "mul" {\n		return s\n	}\n	return "*"\n}\n\n// IsEmpty indicates')]),
 ("SAME", "r-lw-ctor", P, [(H+"accept_language.go", '		ranges = append(ranges, LanguageRange{\n			lrange: lrange,\n			tag:    tags[i],\n			qValue: qv,\n		})', '		ranges = append(ranges, newRange(lrange, tags[i], qv))'), (H+"accept_language.go", "// IsEmpty indicates", 'func newRange(l string, t language.Tag, q QualityValue) (r LanguageRange) {\n	r.lrange, r.tag, r.qValue = l, t, q\n	return r\n}\n\n// IsEmpty indicates')]),
]
