H = "internal/header/"
P = "C20"
FL, LE, FP, FS, AF, FE, FT = (H+n for n in ("feature_list.go", "feature_list_element.go", "feature_predicate.go", "feature_set.go", "accept_features.go", "feature_expression.go", "feature_tag.go"))
SPLIT = '	elementParts := strings.Split(element, ";")\n	predicate, err := NewFeaturePredicate(elementParts[0])\n	if err != nil {\n		return nil, err\n	}\n	if len(elementParts) == 1 {\n		return predicateListElement{\n			predicate: predicate,\n		}, nil\n	}\n\n'
FACT = open("/repo/"+LE).read()
PARSE = FACT[FACT.index("	if ok := improvementDegration.Mat"):FACT.index("	return predicateListElement{\n		featureListElement")]
LOOP = '		if element.Evaluate(supported, unsupported) {\n			degradation *= element.TrueImprovement().Float()\n		} else {\n			degradation *= element.FalseDegradation().Float()\n		}\n'
BAGLOOP = '	for _, fp := range fpb {\n		if fp.Evaluate(supported, unsupported) {\n			return true\n		}\n	}\n	return false\n'
EQ = '	if sValues, ok := supported.Values(e.t); ok {\n		for _, val := range sValues {\n			if e.v.Equals(val) {\n				return true\n			}\n		}\n	}\n	return false\n'
NE = '	for _, val := range sValues {\n		if ne.v.Equals(val) {\n			return false\n		}\n	}\n	return true\n'
WLOOP = '''	for _, val := range sValues {
		if num, err := strconv.Atoi(val.String()); err == nil {
			if !numeric || num > highest {
				highest = num
			}
			numeric = true
		}
	}
	return numeric && highest >= low && highest <= high
'''
ADD = '''	if !s.Contains(tag) {
		s[tag] = values
		return
	}
	for t := range s {
		if t.Equals(tag) {
			s[t] = append(s[t], values...)
		}
	}
'''
CONT = '''	for t := range s {
		if c = t.Equals(tag); c {
			return
		}
	}
	return
'''
VALS = '''	for t, values := range s {
		if t.Equals(tag) {
			ok = true
			v = append(v, values...)
		}
	}
	return
'''
SETS = FACT2 = open("/repo/"+AF).read()
SW = SETS[SETS.index("		switch e.Type() {"):SETS.index("	}\n	return\n}")]
CASES = [
 # the fold
 ("BUG", "d-swap", P, [(FL, LOOP, LOOP.replace("TrueImprovement", "X").replace("FalseDegradation", "TrueImprovement").replace("X", "FalseDegradation"))]),
 ("BUG", "d-trueonly", P, [(FL, LOOP, '		if element.Evaluate(supported, unsupported) {\n			degradation *= element.TrueImprovement().Float()\n		}\n')]),
 ("BUG", "d-break", P, [(FL, "			degradation *= element.FalseDegradation().Float()\n", "			degradation *= element.FalseDegradation().Float()\n			break\n")]),
 ("BUG", "d-zerobreak", P, [(FL, LOOP, LOOP+"		if degradation > 1 {\n			return 1\n		}\n")]),
 ("BUG", "d-assign", P, [(FL, "			degradation *= element.False", "			degradation = element.False")]),
 ("BUG", "d-add", P, [(FL, "			degradation *= element.False", "			degradation += element.False")]),
 ("BUG", "d-sets", P, [(FL, "element.Evaluate(supported, unsupported)", "element.Evaluate(unsupported, supported)")]),
 ("BUG", "d-skip", P, [(FL, "range fl {\n		if element.Ev", "range fl[:1] {\n		if element.Ev")]),
 ("BUG", "d-init", P, [(FL, "float32(1.0)", "float32(0.5)")]),
 # the factors
 ("BUG", "f-default", P, [(LE, "	return FalseDegradation(0.0)", "	return FalseDegradation(1.0)")]),
 ("BUG", "f-true", P, [(LE, "	return TrueImprovement(1.0)", "	return TrueImprovement(0.0)")]),
 ("BUG", "f-ontrue", P, [(LE, "	if fle.t != nil {\n		return FalseDegradation(1.0)\n	}\n", "")]),
 ("BUG", "f-group", P, [(LE, "groups[5]", "groups[2]")]) ,
 ("BUG", "f-groupint", P, [(LE, "groups[5], 32", "groups[4], 32")]),
 ("BUG", "f-re", P, [(LE, r"(\-(\d+(\.\d{1,4})?))?$", r"(\-(\d+(\.\d{1,2})?))?$")]),
 ("BUG", "f-reint", P, [(LE, r"^(\+(\d+(\.\d{1,4})?))?", r"^(\+(\d(\.\d{1,4})?))?")]),
 ("BUG", "f-part", P, [(LE, "improvementDegration.FindStringSubmatch(elementParts[1])\n\n	// parse true improvement.\n	var ti *TrueImprovement\n	if len(groups[2]) > 0 {\n		// safe to ignore error due to regexp.\n		t, _ := strconv.ParseFloat(groups[2], 32)\n		tt := TrueImprovement(float32(t))\n		ti = &tt\n	}\n\n	// parse false degradation.\n	var fd *FalseDegradation\n	if len(groups[5]) > 0 {\n		// safe to ignore error due to regexp.\n		f, _ := strconv.ParseFloat(groups[5], 32)\n		ff := FalseDegradation(float32(f))\n		fd = &ff\n	}\n	return predicateBag", "improvementDegration.FindStringSubmatch(elementParts[1])\n\n	// parse true improvement.\n	var ti *TrueImprovement\n	if len(groups[2]) > 0 {\n		// safe to ignore error due to regexp.\n		t, _ := strconv.ParseFloat(groups[2], 32)\n		tt := TrueImprovement(float32(t))\n		ti = &tt\n	}\n\n	// parse false degradation.\n	var fd *FalseDegradation\n	if len(groups[5]) > 0 {\n		// safe to ignore error due to regexp.\n		f, _ := strconv.ParseFloat(groups[5], 32)\n		ff := FalseDegradation(float32(f/2))\n		fd = &ff\n	}\n	return predicateBag")]),
 ("BUG", "f-nonzero", P, [(LE, "		tt := TrueImprovement(float32(t))\n		ti = &tt\n", "		if tt := TrueImprovement(float32(t)); tt > 0 {\n			ti = &tt\n		}\n")]),
 ("BUG", "f-lost", P, [(LE, "			t: ti,\n			f: fd,\n		},\n		predicateBag", "			t: ti,\n			f: fd,\n		}.bare(),\n		predicateBag"), (LE, "// Evaluate determines if the feature predicate list", "func (f featureListElement) bare() featureListElement {\n	f.f = nil\n	return f\n}\n\n// Evaluate determines if the feature predicate list")]),
 ("BUG", "e-neg", P, [(LE, "	return ple.predicate.Evaluate(supported, unsupported)", "	return ple.predicate.Evaluate(supported, EmptyFeatureSet)")]),
 ("BUG", "e-bagswap", P, [(LE, "pble.predicateBag.Evaluate(supported, unsupported)", "pble.predicateBag.Evaluate(unsupported, supported)")]),
 ("BUG", "l-suffix", P, [(FL, 'strings.HasPrefix(feature, "[")', 'strings.HasPrefix(feature, "[") && strings.HasSuffix(feature, "]")')]),
 ("BUG", "l-contains", P, [(FL, 'strings.HasPrefix(feature, "[")', 'strings.Contains(feature, "[")')]),
 ("BUG", "l-skip", P, [(FL, "		list = append(list, le)\n", "		if len(list) == 0 || le.String() != list[len(list)-1].String() {\n			list = append(list, le)\n		}\n")]),
 # bags
 ("BUG", "b-all", P, [(FP, BAGLOOP, BAGLOOP.replace("if fp", "if !fp").replace("return true", "X").replace("return false", "return true").replace("X", "return false"))]),
 ("BUG", "b-first", P, [(FP, BAGLOOP, '	for _, fp := range fpb {\n		return fp.Evaluate(supported, unsupported)\n	}\n	return false\n')]),
 ("BUG", "b-last", P, [(FP, BAGLOOP, '	held := false\n	for _, fp := range fpb {\n		held = fp.Evaluate(supported, unsupported)\n	}\n	return held\n')]),
 ("BUG", "b-xor", P, [(FP, BAGLOOP, '	held := false\n	for _, fp := range fpb {\n		if fp.Evaluate(supported, unsupported) {\n			held = !held\n		}\n	}\n	return held\n')]),
 ("BUG", "b-empty", P, [(FP, BAGLOOP, '	if len(fpb) == 0 {\n		return true\n	}\n'+BAGLOOP)]),
 ("BUG", "b-trim", P, [(FP, 'strings.TrimPrefix(strings.TrimSuffix(predicateBag, "]"), "[")', 'strings.Trim(predicateBag, "[]")')]),
 ("BUG", "b-skip", P, [(FP, "		fpb = append(fpb, fp)\n", "		if fpb = append(fpb, fp); len(fpb) == 2 {\n			break\n		}\n")]),
 ("BUG", "b-drop", P, [(FP, "		if err != nil {\n			return nil, err\n		}\n		fpb =", "		if err != nil {\n			continue\n		}\n		fpb =")]),
 # predicates
 ("BUG", "p-exists", P, [(FP, "	return supported.Contains(e.t)", "	return !unsupported.Contains(e.t)")]),
 ("BUG", "p-existsval", P, [(FP, "	return supported.Contains(e.t)", "	v, ok := supported.Values(e.t)\n	return ok && len(v) == 0")]),
 ("BUG", "p-absent", P, [(FP, "	return !supported.Contains(a.t) && ok && len(values) == 0", "	_, _ = values, ok\n	return !supported.Contains(a.t)")]),
 ("BUG", "p-absentval", P, [(FP, "ok && len(values) == 0", "ok && len(values) >= 0")]),
 ("BUG", "p-absentval2", P, [(FP, "ok && len(values) == 0", "ok && len(values) <= 1")]),
 ("BUG", "p-absentnil", P, [(FP, "	values, ok := unsupported.Values(a.t)\n	return !supported.Contains(a.t) && ok && len(values) == 0", "	return !supported.Contains(a.t) && len(unsupported[a.t]) == 0")]),
 ("BUG", "p-equalsfirst", P, [(FP, EQ, EQ.replace("range sValues", "range sValues[:1]").replace("; ok {", "; ok && len(sValues) > 0 {"))]),
 ("BUG", "p-equalsuns", P, [(FP, "if sValues, ok := supported.Values(e.t); ok", "if sValues, ok := unsupported.Values(e.t); ok")]),
 ("BUG", "p-equalsany", P, [(FP, "			if e.v.Equals(val) {\n				return true", "			if e.v.Equals(val) || len(sValues) == 1 {\n				return true")]),
 ("BUG", "p-ne", P, [(FP, "	if !s {\n		return false\n	}\n\n	// ensure the uns", "	if !s {\n		return true\n	}\n\n	// ensure the uns")]),
 ("BUG", "p-ne2", P, [(FP, "	if !s {\n		return false\n	}\n\n	// ensure the uns", "	if !s || len(sValues) == 0 {\n		return false\n	}\n\n	// ensure the uns")]),
 ("BUG", "p-nefirst", P, [(FP, NE, '	for _, val := range sValues {\n		return !ne.v.Equals(val)\n	}\n	return true\n')]),
 ("BUG", "p-neother", P, [(FP, NE, '	for _, val := range sValues {\n		if !ne.v.Equals(val) {\n			return true\n		}\n	}\n	return len(sValues) == 0\n')]),
 ("BUG", "p-nev", P, [(FP, "ne.v.Equals(val)", "ne.v.Equals(FeatureTagValue(strings.ToLower(val.String())))")]),
 ("BUG", "p-groups", P, [(FP, "notEquals{t: FeatureTag(groups[1]), v: FeatureTagValue(groups[2])}", "notEquals{t: FeatureTag(groups[2]), v: FeatureTagValue(groups[1])}")]),
 ("BUG", "p-kind", P, [(FP, "		fp = notEquals{", "		fp = equals{")]),
 ("BUG", "p-absgroup", P, [(FP, "absent{t: FeatureTag(groups[2])}", "absent{t: FeatureTag(groups[1])}")]),
 ("BUG", "p-ranges", P, [(FP, "groups[1], groups[2], groups[3]", "groups[1], groups[3], groups[2]")]),
 ("BUG", "p-re", P, [(FP, r"\[\s?(\d+)?\s?-\s?(\d+)?\s?\]", r"\[\s?(\d+)?\s?-\s?(\d+)\s?\]")]),
 ("BUG", "p-re2", P, [(FP, r"`^(\w+)\s?=\s?(\w+)$`", r"`^(\w+)\s?=\s?(\w+)`")]),
 ("BUG", "p-re3", P, [(FP, r"`^(\w+)\s?=\s?(\w+)$`", r"`^(\w+)\s?!?=\s?(\w+)$`")]),
 ("BUG", "p-parsers", P, [(FP, "range parsers {", "range parsers[1:] {")]),
 ("BUG", "w-excl", P, [(FP, "highest >= low", "highest > low")]),
 ("BUG", "w-exclhi", P, [(FP, "highest <= high", "highest < high")]),
 ("BUG", "w-lowest", P, [(FP, "num > highest", "num < highest")]),
 ("BUG", "w-last", P, [(FP, "!numeric || num > highest", "!numeric || num != highest")]),
 ("BUG", "w-first", P, [(FP, "			if !numeric || num > highest {", "			if !numeric {")]),
 ("BUG", "w-any", P, [(FP, "				highest = num\n", "				highest = num\n				if num >= low && num <= high {\n					return true\n				}\n")]),
 ("BUG", "w-nonnum", P, [(FP, "	return numeric && highest", "	return highest")]),
 ("BUG", "w-high", P, [(FP, "		high = math.MaxInt\n", "		high = min(low, math.MaxInt)\n")]),
 ("BUG", "w-highsmall", P, [(FP, "		high = math.MaxInt\n", "		high = math.MaxInt8\n")]),
 ("BUG", "w-stop", P, [(FP, "			numeric = true\n", "			numeric = true\n		} else {\n			break\n")]),
 ("BUG", "w-four", P, [(FP, "	for _, val := range sValues {\n		if num", "	for i, val := range sValues {\n		if i > 3 {\n			break\n		}\n		if num")]),
 ("BUG", "w-neg", P, [(FP, "if !numeric || num > highest", "if num > highest && num > low")]),
 # sets
 ("BUG", "s-add", P, [(FS, "append(s[t], values...)", "values")]),
 ("BUG", "s-addkey", P, [(FS, "			s[t] = append(s[t], values...)", "			s[tag] = append(s[t], values...)")]),
 ("BUG", "s-addnew", P, [(FS, "		s[tag] = values\n", "		s[tag] = nil\n")]),
 ("BUG", "s-addignore", P, [(FS, ADD, "	if !s.Contains(tag) {\n		s[tag] = values\n	}\n")]),
 ("BUG", "s-contains", P, [(FS, CONT, "	_, c = s[tag]\n	return\n")]),
 ("BUG", "s-containsval", P, [(FS, CONT, CONT.replace("for t := range s", "for t, v := range s").replace("c = t.Equals(tag); c", "c = t.Equals(tag) && len(v) == 0; c"))]),
 ("BUG", "s-values", P, [(FS, VALS, "	v, ok = s[tag]\n	return\n")]),
 ("BUG", "s-valueslast", P, [(FS, "			v = append(v, values...)", "			v = values")]),
 ("BUG", "s-valuesok", P, [(FS, "			ok = true\n", "			ok = len(values) > 0\n")]),
 ("BUG", "s-valuesone", P, [(FS, "			v = append(v, values...)", "			v = append(v, values[:1]...)")]),
 ("BUG", "t-case", P, [(FT, "	return strings.EqualFold(u, uu) ||\n		strings.EqualFold(q, qq)", "	return u == uu ||\n		q == qq")]),
 ("BUG", "t-quote", P, [(FT, "	u := strings.Trim(t.String(), \"\\\"\")\n", "	u := t.String()\n")]),
 # expressions
 ("BUG", "a-swap", P, [(AF, "			unsupported.Add(e.Tag())\n", "			supported.Add(e.Tag())\n")]),
 ("BUG", "a-ne", P, [(AF, "			supported.Add(e.Tag())\n			unsupported", "			unsupported")]),
 ("BUG", "a-ne2", P, [(AF, "			unsupported.Add(e.Tag(), e.Value())", "			unsupported.Add(e.Tag())")]),
 ("BUG", "a-excl", P, [(AF, "		case FeatureExpressionTypeEquals,\n			FeatureExpressionTypeExclusiveEquals:", "		case FeatureExpressionTypeEquals:")]),
 ("BUG", "a-wild", P, [(AF, "		case FeatureExpressionTypeExists:", "		case FeatureExpressionTypeExists, FeatureExpressionTypeWildcard:")]),
 ("BUG", "a-order", P, [(FE, '	if strings.Contains(e.String(), "!=") {\n		return FeatureExpressionTypeNotEquals\n	}\n', '')]),
 ("BUG", "a-break", P, [(AF, "			supported.Add(e.Tag())\n		case FeatureExpressionTypeNotExists", "			supported.Add(e.Tag())\n			return\n		case FeatureExpressionTypeNotExists")]),
 ("BUG", "a-tag", P, [(FE, 'strings.TrimLeft(e.String(), "!")', 'strings.ToLower(e.String())')]),
 # refactorings
 ("SAME", "r-d-mult", P, [(FL, LOOP, '		var factor float32\n		switch {\n		case element.Evaluate(supported, unsupported):\n			factor = element.TrueImprovement().Float()\n		default:\n			factor = element.FalseDegradation().Float()\n		}\n		degradation = factor * degradation\n')]),
 ("SAME", "r-d-helper", P, [(FL, LOOP, '		degradation *= factorOf(element, supported, unsupported)\n'), (FL, "// String provides", "func factorOf(e FeatureListElement, supported, unsupported FeatureSet) float32 {\n	if !e.Evaluate(supported, unsupported) {\n		return e.FalseDegradation().Float()\n	}\n	return e.TrueImprovement().Float()\n}\n\n// String provides")]),
 ("SAME", "r-d-conv", P, [(FL, LOOP, '		if !element.Evaluate(supported, unsupported) {\n			degradation *= float32(element.FalseDegradation())\n			continue\n		}\n		degradation *= float32(element.TrueImprovement())\n')]),
 ("SAME", "r-d-index", P, [(FL, "for _, element := range fl {", "for i := 0; i < len(fl); i++ {\n		element := fl[i]")]),
 ("SAME", "r-d-rec", P, [(FL, "	degradation := float32(1.0)\n", "	if len(fl) == 0 {\n		return 1\n	}\n	degradation := float32(1.0)\n")]),
 ("SAME", "r-f-cut", P, [(LE, SPLIT, '	before, after, found := strings.Cut(element, ";")\n	predicate, err := NewFeaturePredicate(before)\n	if err != nil {\n		return nil, err\n	}\n	if !found {\n		return predicateListElement{predicate: predicate}, nil\n	}\n	elementParts := []string{before, after}\n')]),
 ("SAME", "r-f-helper", P, [(LE, PARSE+"	return predicateListElement", "	fle, err := parseFactors(elementParts[1])\n	if err != nil {\n		return nil, err\n	}\n	return predicateListElement"), (LE, "		featureListElement: featureListElement{\n			t: ti,\n			f: fd,\n		},\n		predicate:", "		featureListElement: fle,\n		predicate:"), (LE, "// Evaluate determines if the feature predicate list", "func parseFactors(s string) (fle featureListElement, err error) {\n	groups := improvementDegration.FindStringSubmatch(s)\n	if groups == nil {\n		return fle, ErrInvalidPredicateListElement\n	}\n	if g := groups[2]; g != \"\" {\n		t, _ := strconv.ParseFloat(g, 32)\n		ti := TrueImprovement(t)\n		fle.t = &ti\n	}\n	if g := groups[5]; g != \"\" {\n		f, _ := strconv.ParseFloat(g, 32)\n		fd := FalseDegradation(f)\n		fle.f = &fd\n	}\n	return fle, nil\n}\n\n// Evaluate determines if the feature predicate list")]),
 ("SAME", "r-f-defaults", P, [(LE, "	if fle.f != nil {\n		return *fle.f\n	}\n	if fle.t != nil {\n		return FalseDegradation(1.0)\n	}\n	return FalseDegradation(0.0)\n", "	switch {\n	case fle.f != nil:\n		return *fle.f\n	case fle.t == nil:\n		return 0\n	}\n	return 1\n")]),
 ("SAME", "r-f-re", P, [(LE, r"`^(\+(\d+(\.\d{1,4})?))?(\-(\d+(\.\d{1,4})?))?$`", r"`^(?:\+([0-9]+(?:\.[0-9]{1,4})?))?(?:-([0-9]+(?:\.[0-9]{1,4})?))?$`"), (LE, "groups[2]", "groups[1]"), (LE, "groups[5]", "groups[2]")]) if False else ("SAME", "r-f-len", P, [(LE, "len(elementParts) == 1", "len(elementParts) < 2")]),
 ("SAME", "r-l-switch", P, [(FL, '''		var le FeatureListElement
		var err error
		// a bag can be followed by its factors, so doesn't have to end in "]".
		if strings.HasPrefix(feature, "[") {
			if le, err = NewPredicateBagListElement(feature); err != nil {
				return list, err
			}
		} else {
			if le, err = NewPredicateListElement(feature); err != nil {
				return list, err
			}
		}
''', '''		parse := NewPredicateListElement
		if feature != "" && feature[0] == '[' {
			parse = NewPredicateBagListElement
		}
		le, err := parse(feature)
		if err != nil {
			return list, err
		}
''')]),
 ("SAME", "r-l-make", P, [(FL, "	var list []FeatureListElement\n", "	list := make([]FeatureListElement, 0, len(features))\n")]),
 ("SAME", "r-b-flag", P, [(FP, BAGLOOP, '	held := false\n	for _, fp := range fpb {\n		if fp.Evaluate(supported, unsupported) {\n			held = true\n			break\n		}\n	}\n	return held\n')]),
 ("SAME", "r-b-or", P, [(FP, BAGLOOP, '	held := false\n	for i := 0; i < len(fpb) && !held; i++ {\n		held = fpb[i].Evaluate(supported, unsupported)\n	}\n	return held\n')]),
 ("SAME", "r-b-or2", P, [(FP, BAGLOOP, '	held := false\n	for _, fp := range fpb {\n		held = fp.Evaluate(supported, unsupported) || held\n	}\n	return held\n')]),
 ("SAME", "r-b-any", P, [(FP, BAGLOOP, '	return slices.ContainsFunc(fpb, func(p FeaturePredicate) bool {\n		return p.Evaluate(supported, unsupported)\n	})\n'), (FP, '	"regexp"\n', '	"regexp"\n	"slices"\n')]),
 ("SAME", "r-b-fields", P, [(FP, '	predicates := strings.Split(predicateBag, " ")\n', '	predicates := strings.Fields(predicateBag)\n	if len(predicates) == 0 {\n		return nil, ErrInvalidPredicate\n	}\n')]),
 ("SAME", "r-b-slice", P, [(FP, '	predicateBag = strings.TrimSpace(\n		strings.TrimPrefix(strings.TrimSuffix(predicateBag, "]"), "["))\n', '	predicateBag = strings.TrimPrefix(predicateBag, "[")\n	predicateBag = strings.TrimSuffix(predicateBag, "]")\n	predicateBag = strings.TrimSpace(predicateBag)\n')]),
 ("SAME", "r-p-absent", P, [(FP, "	values, ok := unsupported.Values(a.t)\n	return !supported.Contains(a.t) && ok && len(values) == 0", "	if supported.Contains(a.t) {\n		return false\n	}\n	values, ok := unsupported.Values(a.t)\n	if !ok {\n		return false\n	}\n	return len(values) < 1")]),
 ("SAME", "r-p-absent2", P, [(FP, "	values, ok := unsupported.Values(a.t)\n	return !supported.Contains(a.t) && ok && len(values) == 0", "	_, s := supported.Values(a.t)\n	values, _ := unsupported.Values(a.t)\n	return !s && unsupported.Contains(a.t) && values == nil")]),
 ("SAME", "r-p-equals", P, [(FP, EQ, '	sValues, _ := supported.Values(e.t)\n	found := false\n	for _, val := range sValues {\n		if val.Equals(e.v) {\n			found = true\n		}\n	}\n	return found\n')]),
 ("SAME", "r-p-equals2", P, [(FP, EQ, '	return hasValue(supported, e.t, e.v)\n'), (FP, NE, '	return !hasValue(supported, ne.t, ne.v)\n'), (FP, "	sValues, s := supported.Values(ne.t)\n	if !s {", "	if !supported.Contains(ne.t) {"), (FP, "// exists represents", "func hasValue(set FeatureSet, t FeatureTag, v FeatureTagValue) bool {\n	values, _ := set.Values(t)\n	for _, val := range values {\n		if v.Equals(val) {\n			return true\n		}\n	}\n	return false\n}\n\n// exists represents")]),
 ("SAME", "r-p-equals3", P, [(FP, EQ, '	values, _ := supported.Values(e.t)\n	return slices.ContainsFunc(values, e.v.Equals)\n'), (FP, '	"regexp"\n', '	"regexp"\n	"slices"\n')]),
 ("SAME", "r-p-find", P, [(FP, "		if ok = equalsPredicate.MatchString(p); !ok {\n			return\n		}\n		groups := equalsPredicate.FindStringSubmatch(p)\n", "		groups := equalsPredicate.FindStringSubmatch(p)\n		if ok = groups != nil; !ok {\n			return\n		}\n")]),
 ("SAME", "r-p-find2", P, [(FP, "		if ok = absentPredicate.MatchString(p); !ok {\n			return\n		}\n		groups := absentPredicate.FindStringSubmatch(p)\n		fp = absent{t: FeatureTag(groups[2])}\n		return\n", "		if groups := absentPredicate.FindStringSubmatch(p); len(groups) > 0 {\n			return absent{t: FeatureTag(groups[2])}, true\n		}\n		return nil, false\n")]),
 ("SAME", "r-p-regroup", P, [(FP, r"`^(!(\w+))$`", r"`^!(\w+)$`"), (FP, "absent{t: FeatureTag(groups[2])}", "absent{t: FeatureTag(groups[1])}")]),
 ("SAME", "r-p-seq", P, [(FP, '''	for _, parser := range parsers {
		if fp, ok := parser(predicate); ok {
			return fp, nil
		}
	}
''', '''	for i := range parsers {
		fp, ok := parsers[i](predicate)
		if !ok {
			continue
		}
		return fp, nil
	}
''')]),
 ("SAME", "r-w-early", P, [(FP, "	return numeric && highest >= low && highest <= high\n", "	if !numeric {\n		return false\n	}\n	return !(highest < low || highest > high)\n")]),
 ("SAME", "r-w-continue", P, [(FP, WLOOP, '''	for _, val := range sValues {
		num, err := strconv.Atoi(val.String())
		if err != nil {
			continue
		}
		if numeric {
			highest = max(highest, num)
		} else {
			highest, numeric = num, true
		}
	}
	return numeric && low <= highest && highest <= high
''')]),
 ("SAME", "r-w-helper", P, [(FP, WLOOP, '''	for _, val := range sValues {
		num, ok := number(val)
		if ok && (!numeric || highest < num) {
			highest = num
		}
		numeric = numeric || ok
	}
	return numeric && highest >= low && highest <= high
'''), (FP, "// within represents", "func number(v FeatureTagValue) (int, bool) {\n	n, err := strconv.Atoi(string(v))\n	return n, err == nil\n}\n\n// within represents")]),
 ("SAME", "r-w-high", P, [(FP, "	high, err := strconv.Atoi(w.h.String())\n	if err != nil {\n		high = math.MaxInt\n	}\n", "	high := math.MaxInt\n	if h, err := strconv.Atoi(w.h.String()); err == nil {\n		high = h\n	}\n")]),
 ("SAME", "r-s-add", P, [(FS, ADD, '''	found := false
	for t := range s {
		if t.Equals(tag) {
			found = true
			s[t] = append(s[t], values...)
		}
	}
	if !found {
		s[tag] = values
	}
''')]),
 ("SAME", "r-s-addone", P, [(FS, ADD, '''	for t, old := range s {
		if t.Equals(tag) {
			s[t] = append(old, values...)
			return
		}
	}
	s[tag] = values
''')]),
 ("SAME", "r-s-contains", P, [(FS, CONT, "	for t := range s {\n		if t.Equals(tag) {\n			return true\n		}\n	}\n	return false\n")]),
 ("SAME", "r-s-contains2", P, [(FS, CONT, "	_, c = s.Values(tag)\n	return\n")]),
 ("SAME", "r-s-contains3", P, [(FS, CONT, "	for t := range s {\n		c = c || tag.Equals(t)\n	}\n	return c\n")]),
 ("SAME", "r-s-values", P, [(FS, VALS, VALS.replace("for t, values := range s {", "for t := range s {").replace("values...", "s[t]..."))]),
 ("SAME", "r-s-values2", P, [(FS, VALS, "	for t, values := range s {\n		if !t.Equals(tag) {\n			continue\n		}\n		v, ok = append(v, values...), true\n	}\n	return v, ok\n")]),
 ("SAME", "r-t-order", P, [(FT, "	return strings.EqualFold(u, uu) ||\n		strings.EqualFold(q, qq)", "	if strings.EqualFold(q, qq) {\n		return true\n	}\n	return strings.EqualFold(uu, u)")]),
 ("SAME", "r-a-if", P, [(AF, SW, '''		tag := e.Tag()
		typ := e.Type()
		if typ == FeatureExpressionTypeWildcard {
			continue
		}
		if typ == FeatureExpressionTypeNotExists {
			unsupported.Add(tag)
			continue
		}
		if typ == FeatureExpressionTypeEquals || typ == FeatureExpressionTypeExclusiveEquals {
			supported.Add(tag, e.Value())
		} else {
			supported.Add(tag)
		}
		if typ == FeatureExpressionTypeNotEquals {
			unsupported.Add(tag, e.Value())
		}
''')]),
 ("SAME", "r-a-helper", P, [(AF, "	for _, e := range f {\n		switch e.Type() {", "	for _, e := range f {\n		add(e, supported, unsupported)\n	}\n	return\n}\n\nfunc add(e FeatureExpression, supported, unsupported FeatureSet) {\n	{\n		switch e.Type() {"), (AF, "			unsupported.Add(e.Tag(), e.Value())\n		}\n	}\n	return\n}", "			unsupported.Add(e.Tag(), e.Value())\n		}\n	}\n}")]),
 ("SAME", "r-a-order", P, [(AF, "			supported.Add(e.Tag())\n			unsupported.Add(e.Tag(), e.Value())", "			unsupported.Add(e.Tag(), e.Value())\n			supported.Add(e.Tag())")]),
 ("SAME", "r-a-fe", P, [(FE, '	if s := strings.Split(e.String(), "="); len(s) > 1 {\n		return FeatureTag(s[0])\n	}\n', '	if i := strings.IndexByte(string(e), \'=\'); i >= 0 {\n		return FeatureTag(string(e)[:i])\n	}\n')]),
 ("SAME", "r-a-fe2", P, [(FE, 'FeatureTag(strings.TrimLeft(e.String(), "!"))', 'FeatureTag(e.String()[1:])')]),
 ("SAME", "r-np-chain", P, [(FP, '\tparseExists := func(p string) (fp FeaturePredicate, ok bool) {\n\t\tif ok = existsPredicate.MatchString(p); !ok {\n\t\t\treturn\n\t\t}\n\t\tgroups := existsPredicate.FindStringSubmatch(p)\n\t\tfp = exists{t: FeatureTag(groups[1])}\n\t\treturn\n\t}\n\n\tparseAbsent := func(p string) (fp FeaturePredicate, ok bool) {\n\t\tif ok = absentPredicate.MatchString(p); !ok {\n\t\t\treturn\n\t\t}\n\t\tgroups := absentPredicate.FindStringSubmatch(p)\n\t\tfp = absent{t: FeatureTag(groups[2])}\n\t\treturn\n\t}\n\n\tparseEquals := func(p string) (fp FeaturePredicate, ok bool) {\n\t\tif ok = equalsPredicate.MatchString(p); !ok {\n\t\t\treturn\n\t\t}\n\t\tgroups := equalsPredicate.FindStringSubmatch(p)\n\t\tfp = equals{t: FeatureTag(groups[1]), v: FeatureTagValue(groups[2])}\n\t\treturn\n\t}\n\n\tparseNotEquals := func(p string) (fp FeaturePredicate, ok bool) {\n\t\tif ok = notEqualsPredicate.MatchString(p); !ok {\n\t\t\treturn\n\t\t}\n\t\tgroups := notEqualsPredicate.FindStringSubmatch(p)\n\t\tfp = notEquals{t: FeatureTag(groups[1]), v: FeatureTagValue(groups[2])}\n\t\treturn\n\t}\n\n\tparseRange := func(p string) (fp FeaturePredicate, ok bool) {\n\t\tif ok = rangePredicate.MatchString(p); !ok {\n\t\t\treturn\n\t\t}\n\t\tgroups := rangePredicate.FindStringSubmatch(p)\n\t\tt, l, h := groups[1], groups[2], groups[3]\n\t\tfp = within{\n\t\t\tt: FeatureTag(t),\n\t\t\tl: FeatureTagValue(l),\n\t\t\th: FeatureTagValue(h),\n\t\t}\n\t\treturn\n\t}\n\n\tparsers := []func(p string) (FeaturePredicate, bool){\n\t\tparseExists,\n\t\tparseAbsent,\n\t\tparseEquals,\n\t\tparseNotEquals,\n\t\tparseRange,\n\t}\n\n\t// parse.\n\tfor _, parser := range parsers {\n\t\tif fp, ok := parser(predicate); ok {\n\t\t\treturn fp, nil\n\t\t}\n\t}\n', '\tif g := existsPredicate.FindStringSubmatch(predicate); g != nil {\n\t\treturn exists{t: FeatureTag(g[1])}, nil\n\t}\n\tif g := absentPredicate.FindStringSubmatch(predicate); g != nil {\n\t\treturn absent{t: FeatureTag(g[2])}, nil\n\t}\n\tswitch {\n\tcase equalsPredicate.MatchString(predicate):\n\t\tg := equalsPredicate.FindStringSubmatch(predicate)\n\t\treturn &equals{FeatureTag(g[1]), FeatureTagValue(g[2])}, nil\n\tcase notEqualsPredicate.MatchString(predicate):\n\t\tg := notEqualsPredicate.FindStringSubmatch(predicate)\n\t\treturn notEquals{FeatureTag(g[1]), FeatureTagValue(g[2])}, nil\n\t}\n\tif g := rangePredicate.FindStringSubmatch(predicate); g != nil {\n\t\treturn within{t: FeatureTag(g[1]), l: FeatureTagValue(g[2]), h: FeatureTagValue(g[3])}, nil\n\t}\n')]),
 ("SAME", "r-np-embed", P, [(FP, "type notEquals struct {\n	t FeatureTag\n	v FeatureTagValue\n}", "type notEquals struct {\n	equals\n}"), (FP, "notEquals{t: FeatureTag(groups[1]), v: FeatureTagValue(groups[2])}", "notEquals{equals{t: FeatureTag(groups[1]), v: FeatureTagValue(groups[2])}}"), (FP, NE, "	return !ne.equals.Evaluate(supported, unsupported)\n"), (FP, "	sValues, s := supported.Values(ne.t)\n	if !s {", "	if _, s := supported.Values(ne.t); !s {")]),
 ("SAME", "r-np-within", P, [(FP, WLOOP[:WLOOP.index("	return")], '\tvar nums []int\n\tfor _, val := range sValues {\n\t\tif num, err := strconv.Atoi(val.String()); err == nil {\n\t\t\tnums = append(nums, num)\n\t\t}\n\t}\n\tfor i, num := range nums {\n\t\tif i == 0 || num > highest {\n\t\t\thighest = num\n\t\t}\n\t}\n\tnumeric = len(nums) > 0\n')]),
 ("SAME", "r-np-within2", P, [(FP, WLOOP[:WLOOP.index("	return")], '\tvar nums []int\n\tfor _, val := range sValues {\n\t\tif num, err := strconv.Atoi(val.String()); err == nil {\n\t\t\tnums = append(nums, num)\n\t\t}\n\t}\n\tif numeric = len(nums) > 0; numeric {\n\t\thighest = slices.Max(nums)\n\t}\n'), (FP, '	"regexp"\n', '	"regexp"\n	"slices"\n')]),
 ("SAME", "r-d-f64", P, [(FL, "	degradation := float32(1.0)\n", "	degradation := float32(1.0)\n	factors := make([]float32, 0, len(fl))\n"), (FL, LOOP, LOOP.replace("degradation *= element.TrueImprovement().Float()", "factors = append(factors, element.TrueImprovement().Float())").replace("degradation *= element.FalseDegradation().Float()", "factors = append(factors, element.FalseDegradation().Float())")+"	}\n	for _, f := range factors {\n		degradation *= f\n")]),
 ("SAME", "r-l-build", P, [(FL, "		list = append(list, le)\n	}\n	return FeatureList(list), nil", "		list = append(list, le)\n	}\n	fl := FeatureList(list)\n	return fl, nil")]),
 ("BUG", "x-trimx", P, [(FE, 'strings.TrimLeft(e.String(), "!")', 'strings.TrimLeft(e.String(), "!x-")')]),
 ("BUG", "x-short", P, [(FE, '	if s := strings.Split(e.String(), "="); len(s) > 1 {\n		return FeatureTag(s[0])', '	if s := strings.Split(e.String(), "="); len(s) > 1 && len(s[0]) < 24 {\n		return FeatureTag(s[0])')]),
 ("BUG", "x-listerr", P, [(FL, "			if le, err = NewPredicateBagListElement(feature); err != nil {\n				return list, err\n			}", "			le, _ = NewPredicateBagListElement(feature)")]),
]
