H = "internal/header/"
P = "C16 C17"
CASES = [
 ("BUG", "qv-or", P, [(H+"quality_value.go", "inRange := qvalue >= QualityValueMinimum.Float() &&", "inRange := qvalue >= QualityValueMinimum.Float() ||")]),
 ("BUG", "qv-nan", P, [(H+"quality_value.go", "	inRange := qvalue >= QualityValueMinimum.Float() &&\n		qvalue <= QualityValueMaximum.Float()", "	inRange := !(qvalue < 0 || qvalue > 1)")]),
 ("BUG", "qv-clamp", P, [(H+"quality_value.go", "		return QualityValue(0), ErrInvalidQualityValue", "		if qvalue > 1 { return QualityValue(1), nil }\n		return QualityValue(0), ErrInvalidQualityValue")]),
 ("BUG", "qv-tiny", P, [(H+"quality_value.go", "	return QualityValue(qvalue), nil", "	if qvalue < 0.01 { return QualityValue(0), nil }\n	return QualityValue(qvalue), nil")]),
 ("BUG", "qv-1.0001", P, [(H+"quality_value.go", "qvalue <= QualityValueMaximum.Float()", "qvalue <= 1.0005")]),
 ("BUG", "media-swallow", P, [(H+"media_range.go", "		v, err := strconv.ParseFloat(q, 32)\n		if err != nil {\n			return MediaRange{}, err\n		}", "		v, err := strconv.ParseFloat(q, 32)\n		if err != nil {\n			return mr, nil\n		}")]),
 ("BUG", "media-swallow2", P, [(H+"media_range.go", "		v, err := strconv.ParseFloat(q, 32)\n		if err != nil {\n			return MediaRange{}, err\n		}", "		v, _ := strconv.ParseFloat(q, 32)")]),
 ("BUG", "media-otherparam", P, [(H+"media_range.go", 'params["q"]; ok', 'params["qs"]; ok')]),
 ("BUG", "media-default0", P, [(H+"media_range.go", 'qValue: QualityValue(1.0),\n	}\n	if q', 'qValue: QualityValue(0.5),\n	}\n	if q')]),
 ("BUG", "media-swallowqv", P, [(H+"media_range.go", "		qv, err := NewQualityValue(float32(v))\n		if err != nil {\n			return MediaRange{}, err\n		}", "		qv, _ := NewQualityValue(float32(v))")]),
 ("BUG", "accept-skip", P, [(H+"accept.go", "			return EmptyAccept, err\n		}\n		mediaR", "			continue\n		}\n		mediaR")]),
 ("BUG", "accept-partial", P, [(H+"accept.go", "			return EmptyAccept, err\n		}\n		mediaR", "			if len(mediaRanges) > 0 { break }\n			return EmptyAccept, err\n		}\n		mediaR")]),
 ("BUG", "accept-cap", P, [(H+"accept.go", "		mediaRange, err := parse", "		if len(mediaRanges) == 64 { break }\n		mediaRange, err := parse")]),
 ("BUG", "accept-dedupe", P, [(H+"accept.go", "		mediaRanges = append(mediaRanges, mediaRange)", "		if mediaRange.QualityValue() == 0 { continue }\n		mediaRanges = append(mediaRanges, mediaRange)")]),
 ("BUG", "accept-first", P, [(H+"accept.go", "elements(accept)", "elements(accept[:1])")]),
 ("BUG", "charset-group", P, [(H+"charset_range.go", "strconv.ParseFloat(groups[3], 32)", "strconv.ParseFloat(groups[3][:1], 32)")]),
 ("BUG", "charset-anchor", P, [(H+"charset_range.go", "(\\.\\d{0,3})?))?$`)", "(\\.\\d{0,3})?))?`)")]),
 ("BUG", "charset-lowerq", P, [(H+"charset_range.go", "[qQ]=(\\d", "q=(\\d")]),
 ("BUG", "charset-2digits", P, [(H+"charset_range.go", "\\.\\d{0,3}", "\\.\\d{0,2}")]),
 ("BUG", "charset-err", P, [(H+"accept_charset.go", "			return EmptyAcceptCharset, err", "			continue")]),
 ("BUG", "coding-nocheck", P, [(H+"content_coding_range.go", "		qv, err := NewQualityValue(float32(q))\n		if err != nil {\n			return ContentCodingRange{}, err\n		}\n		cc.qValue = qv", "		cc.qValue = QualityValue(q)")]),
 ("BUG", "lang-trim", P, [(H+"language_range.go", 'strings.HasPrefix(strings.Trim(parts[1], " "), "q=")', 'strings.HasPrefix(parts[1], "q=")')]),
 ("BUG", "lang-float", P, [(H+"language_range.go", "		f, err := strconv.ParseFloat(q, 32)\n		if err != nil {\n			return LanguageRange{}, err\n		}", "		f, err := strconv.ParseFloat(q, 32)\n		if err != nil {\n			f = 1\n		}")]),
 ("BUG", "lang-index", P, [(H+"accept_language.go", "NewQualityValue(qValues[i])", "NewQualityValue(qValues[len(tags)-1-i])")]),
 ("BUG", "lang-first", P, [(H+"accept_language.go", 'strings.Join(acceptLanguage, ",")', 'acceptLanguage[0]')]),
 ("BUG", "lang-zeroes", P, [(H+"accept_language.go", "lr.QualityValue() == QualityValueMinimum", "lr.QualityValue() == QualityValueMinimum && !lr.IsWildcard()")]),
 ("BUG", "lang-bad", P, [(H+"accept_language.go", "			return EmptyAcceptLanguage, err\n		}\n		if err == nil", "			continue\n		}\n		if err == nil")]),
 ("BUG", "el-firstcomma", P, [(H+"elements.go", "				start = i + 1", "				start = i")]),
 ("BUG", "el-escape", P, [(H+"elements.go", "case quoted && value[i] == '\\\\':", "case value[i] == '\\\\':")]),
 ("BUG", "el-noescape", P, [(H+"elements.go", "				escaped = true", "				escaped = false")]),
 ("BUG", "el-last", P, [(H+"elements.go", "i <= len(value)", "i < len(value)")]),
 ("BUG", "el-break", P, [(H+"elements.go", "			elems = append(elems, value)\n			continue", "			elems = append(elems, value)\n			break")]),
 ("BUG", "el-semi", P, [(H+"elements.go", '!strings.Contains(value, ",")', '!strings.Contains(value, ", ")')]),
 ("BUG", "neg-skip", P, [(H+"negotiate.go", "return EmptyNegotiateHeader, err", "continue")]),
 # refactorings
 ("SAME", "r-prealloc", P, [(H+"accept.go", "var mediaRanges []MediaRange", "mediaRanges := make([]MediaRange, 0, len(accept))")]),
 ("SAME", "r-inplace", P, [(H+"accept.go", "	var mediaRanges []MediaRange\n	for _, m := range elements(accept) {", "	els := elements(accept)\n	mediaRanges := make([]MediaRange, len(els))\n	for i, m := range els {"), (H+"accept.go", "		mediaRanges = append(mediaRanges, mediaRange)", "		mediaRanges[i] = mediaRange")]),
 ("SAME", "r-index", P, [(H+"accept.go", "	for _, m := range elements(accept) {", "	els := elements(accept)\n	for i := 0; i < len(els); i++ {\n		m := els[i]")]),
 ("SAME", "r-callpublic", P, [(H+"accept.go", "parseMediaRange(m)", "NewMediaRange(m)")]),
 ("SAME", "r-helper", P, [(H+"accept.go", "	// parse media ranges\n	var mediaRanges []MediaRange\n	for _, m := range elements(accept) {\n		mediaRange, err := parseMediaRange(m)\n		if err != nil {\n			return EmptyAccept, err\n		}\n		mediaRanges = append(mediaRanges, mediaRange)\n	}\n	return Accept(mediaRanges), nil\n}", "	mediaRanges, err := parseAll(elements(accept))\n	if err != nil {\n		return EmptyAccept, err\n	}\n	return Accept(mediaRanges), nil\n}\n\nfunc parseAll(els []string) ([]MediaRange, error) {\n	var mediaRanges []MediaRange\n	for _, m := range els {\n		mediaRange, err := parseMediaRange(m)\n		if err != nil {\n			return nil, err\n		}\n		mediaRanges = append(mediaRanges, mediaRange)\n	}\n	return mediaRanges, nil\n}")]),
 ("SAME", "r-qvif", P, [(H+"quality_value.go", "	inRange := qvalue >= QualityValueMinimum.Float() &&\n		qvalue <= QualityValueMaximum.Float()\n	if !inRange {\n		return QualityValue(0), ErrInvalidQualityValue\n	}\n	return QualityValue(qvalue), nil", "	if qvalue >= 0 && qvalue <= 1 {\n		return QualityValue(qvalue), nil\n	}\n	return QualityValueMinimum, ErrInvalidQualityValue")]),
 ("SAME", "r-qvnan", P, [(H+"quality_value.go", "	inRange := qvalue >= QualityValueMinimum.Float() &&\n		qvalue <= QualityValueMaximum.Float()\n	if !inRange {", "	if math.IsNaN(float64(qvalue)) || qvalue < 0 || qvalue > 1 {")]),
 ("SAME", "r-charset-nil", P, [(H+"charset_range.go", "	if ok := charsetRangeRegex.MatchString(charset); !ok {\n		return CharsetRange{}, ErrInvalidCharsetRange\n	}\n	groups := charsetRangeRegex.FindStringSubmatch(charset)\n", "	groups := charsetRangeRegex.FindStringSubmatch(charset)\n	if groups == nil {\n		return CharsetRange{}, ErrInvalidCharsetRange\n	}\n")]),
 ("SAME", "r-charset-len", P, [(H+"charset_range.go", "if len(groups[2]) > 0 {", 'if groups[2] != "" {')]),
 ("SAME", "r-charset-g3", P, [(H+"charset_range.go", "if len(groups[2]) > 0 {", 'if w := groups[3]; w != "" {'), (H+"charset_range.go", "ParseFloat(groups[3]", "ParseFloat(w")]),
 ("SAME", "r-charset-err", P, [(H+"charset_range.go", "		q, _ := strconv.ParseFloat(groups[3], 32)\n", "		q, err := strconv.ParseFloat(groups[3], 32)\n		if err != nil {\n			return CharsetRange{}, err\n		}\n")]),
 ("SAME", "r-qhelper", P, [(H+"charset_range.go", "		q, _ := strconv.ParseFloat(groups[3], 32)\n		qv, err := NewQualityValue(float32(q))\n", "		qv, err := parseWeight(groups[3])\n"), (H+"charset_range.go", "// IsWildcard indicates if the charset", "func parseWeight(w string) (QualityValue, error) {\n	q, err := strconv.ParseFloat(w, 32)\n	if err != nil {\n		return 0, err\n	}\n	return NewQualityValue(float32(q))\n}\n\n// IsWildcard indicates if the charset")]),
 ("SAME", "r-lang-cut", P, [(H+"language_range.go", '	if len(parts) > 1 && strings.HasPrefix(strings.Trim(parts[1], " "), "q=") {\n		w := strings.Trim(parts[1], " ")\n		q := strings.TrimPrefix(w, "q=")\n', '	if len(parts) < 2 {\n		return lr, nil\n	}\n	if q, ok := strings.CutPrefix(strings.TrimSpace(parts[1]), "q="); ok {\n')]),
 ("SAME", "r-lang-range", P, [(H+"accept_language.go", "for i := 0; i < len(tags); i++ {\n		lrange := tags[i].String()", "for i, tag := range tags {\n		lrange := tag.String()"), (H+"accept_language.go", "tag:    tags[i],", "tag:    tag,")]),
 ("SAME", "r-lang-zero", P, [(H+"accept_language.go", "		if errors.Is(err, ErrInvalidQualityValue) {\n			return EmptyAcceptLanguage, err\n		}\n		if err == nil && lr.QualityValue() == QualityValueMinimum {\n			ranges = append(ranges, lr)\n		}\n", "		if err != nil {\n			if errors.Is(err, ErrInvalidQualityValue) {\n				return EmptyAcceptLanguage, err\n			}\n			continue\n		}\n		if lr.QualityValue() > 0 {\n			continue\n		}\n		ranges = append(ranges, lr)\n")]),
 ("SAME", "r-el-switch", P, [(H+"elements.go", "			switch {\n			case escaped:\n				escaped = false\n			case quoted && value[i] == '\\\\':\n				escaped = true\n			case value[i] == '\"':\n				quoted = !quoted\n			}\n", "			if escaped {\n				escaped = false\n			} else if quoted && value[i] == '\\\\' {\n				escaped = true\n			} else if value[i] == '\"' {\n				quoted = !quoted\n			}\n")]),
 ("SAME", "r-el-helper", P, [(H+"elements.go", "		var (\n			start           int\n			quoted, escaped bool\n		)\n		for i := 0; i <= len(value); i++ {\n			if i == len(value) || (value[i] == ',' && !quoted) {\n				if elem := strings.TrimSpace(value[start:i]); len(elem) > 0 {\n					elems = append(elems, elem)\n				}\n				start = i + 1\n				continue\n			}\n			switch {\n			case escaped:\n				escaped = false\n			case quoted && value[i] == '\\\\':\n				escaped = true\n			case value[i] == '\"':\n				quoted = !quoted\n			}\n		}\n	}\n	return elems\n}", "		elems = append(elems, splitLine(value)...)\n	}\n	return elems\n}\n\nfunc splitLine(value string) []string {\n	var (\n		elems           []string\n		start           int\n		quoted, escaped bool\n	)\n	for i := 0; i <= len(value); i++ {\n		if i == len(value) || (value[i] == ',' && !quoted) {\n			if elem := strings.TrimSpace(value[start:i]); len(elem) > 0 {\n				elems = append(elems, elem)\n			}\n			start = i + 1\n			continue\n		}\n		switch {\n		case escaped:\n			escaped = false\n		case quoted && value[i] == '\\\\':\n			escaped = true\n		case value[i] == '\"':\n			quoted = !quoted\n		}\n	}\n	return elems\n}")]),
 ("SAME", "r-el-tail", P, [(H+"elements.go", "i <= len(value); i++ {\n			if i == len(value) || (value[i] == ',' && !quoted) {", "i < len(value); i++ {\n			if value[i] == ',' && !quoted {"), (H+"elements.go", "				quoted = !quoted\n			}\n		}\n", "				quoted = !quoted\n			}\n		}\n		if elem := strings.TrimSpace(value[start:]); elem != \"\" {\n			elems = append(elems, elem)\n		}\n")]),
 ("SAME", "r-el-range", P, [(H+"elements.go", "for i := 0; i <= len(value); i++ {\n			if i == len(value) || (value[i] == ',' && !quoted) {", "for i, ch := range value {\n			if ch == ',' && !quoted {"), (H+"elements.go", "				quoted = !quoted\n			}\n		}\n", "				quoted = !quoted\n			}\n		}\n		if elem := strings.TrimSpace(value[start:]); elem != \"\" {\n			elems = append(elems, elem)\n		}\n")]),
 ("SAME", "r-el-fors", P, [(H+"elements.go", "for _, value := range values {", "for k := 0; k < len(values); k++ {\n		value := values[k]")]),
 ("SAME", "r-coding-map", P, [(H+"content_coding_range.go", "!slice.ContainsString(contentCodings, coding)", "!isKnownCoding(coding)"), (H+"content_coding_range.go", "// IsWildcard indicates if the specified", "func isKnownCoding(c string) bool {\n	return slice.ContainsString(contentCodings, c)\n}\n\n// IsWildcard indicates if the specified")]),
 ("SAME", "r-media-noshadow", P, [(H+"media_range.go", '	if q, ok := params["q"]; ok {\n		v, err := strconv.ParseFloat(q, 32)\n		if err != nil {\n			return MediaRange{}, err\n		}\n		qv, err := NewQualityValue(float32(v))\n		if err != nil {\n			return MediaRange{}, err\n		}\n		mr.qValue = qv\n	}\n	return mr, nil\n', '	q, ok := params["q"]\n	if !ok {\n		return mr, nil\n	}\n	v, err := strconv.ParseFloat(q, 32)\n	if err != nil {\n		return MediaRange{}, err\n	}\n	mr.qValue, err = NewQualityValue(float32(v))\n	if err != nil {\n		return MediaRange{}, err\n	}\n	return mr, nil\n')]),
 ("SAME", "r-neg-named", P, [(H+"negotiate.go", "return EmptyNegotiateHeader, err", "var none Negotiate\n			return none, err")]),
 ("SAME", "r-lang-commute", "*", [(H+"language_range.go", 'r != "*" && err != nil', 'err != nil && r != "*"')]),
 ("SAME", "r-el-flush", "*", [(H+"elements.go", "		for i := 0; i <= len(value); i++ {", "		flush := func(end int) {\n			if elem := strings.TrimSpace(value[start:end]); len(elem) > 0 {\n				elems = append(elems, elem)\n			}\n			start = end + 1\n		}\n		for i := 0; i <= len(value); i++ {"), (H+"elements.go", "				if elem := strings.TrimSpace(value[start:i]); len(elem) > 0 {\n					elems = append(elems, elem)\n				}\n				start = i + 1\n", "				flush(i)\n")]),
 ("SAME", "r-el-capture", "*", [(H+"elements.go", "				if elem := strings.TrimSpace(value[start:i]); len(elem) > 0 {\n					elems = append(elems, elem)\n				}\n				start = i + 1\n", "				flush()\n"), (H+"elements.go", "		for i := 0; i <= len(value); i++ {", "		for i := 0; i <= len(value); i++ {\n			flush := func() {\n				if elem := strings.TrimSpace(value[start:i]); len(elem) > 0 {\n					elems = append(elems, elem)\n				}\n				start = i + 1\n			}")]),
]
