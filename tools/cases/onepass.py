A = "proactive/apache_httpd.go"


def read(p):
    return open("/repo/" + p).read()


SRC = read(A)


def filt(name):
    a = SRC.index("	" + name + " filter = ")
    b = SRC.index("\n	}\n", a) + 4
    return SRC[a:b]


def one(name, field, gt="GreaterThan", first="len(best) == 0 || ", eq="Equals", other=None):
    other = other or field
    return (A, filt(name), f"""	{name} filter = func(variants representation.Set) (representation.Set, error) {{
		var best representation.Set
		for _, v := range variants {{
			q := header.QualityValue(v.{field})
			switch {{
			case {first}q.{gt}(header.QualityValue(best[0].{other})):
				best = representation.Set{{v}}
			case q.{eq}(header.QualityValue(best[0].{field})):
				best = append(best, v)
			}}
		}}
		return best, nil
	}}
""")


def beside(name, field, gt="GreaterThan", upd="top = q\n				"):
    return (A, filt(name), f"""	{name} filter = func(variants representation.Set) (representation.Set, error) {{
		var best representation.Set
		var top header.QualityValue
		for _, v := range variants {{
			q := header.QualityValue(v.{field})
			if len(best) == 0 || q.{gt}(top) {{
				{upd}best = representation.Set{{v}}
				continue
			}}
			if q.Equals(top) {{
				best = append(best, v)
			}}
		}}
		return best, nil
	}}
""")


def level(cmp=">", first="len(best) == 0 || ", last="best", cond="ok && mt == \"text/html\"", tie="n == top"):
    return [(A, filt("bestLevel"), f"""	bestLevel filter = func(variants representation.Set) (representation.Set, error) {{
		var best representation.Set
		var top int64
		for _, v := range variants {{
			mt, p, err := mime.ParseMediaType(v.ContentType())
			if err != nil {{
				return nil, err
			}}
			l, ok := p["level"]
			if !({cond}) {{
				continue
			}}
			n, err := strconv.ParseInt(l, 0, 32)
			if err != nil {{
				return representation.EmptySet, err
			}}
			if {first}n {cmp} top {{
				best, top = representation.Set{{v}}, n
			}} else if {tie} {{
				best = append(best, v)
			}}
		}}
		if len(best) == 0 {{
			return variants, nil
		}}
		return {last}, nil
	}}
"""), (A, '	"sort"\n', ""), (A, SRC[SRC.index("type hwl struct"):SRC.index("}\n", SRC.index("type hwl struct")) + 2], "")]


Q = "EncodingQualityValue"
CASES = [
    ("SAME", "o-one", "*", [one("bestEncoding", Q)]),
    ("SAME", "o-beside", "*", [beside("bestEncoding", Q)]),
    ("SAME", "o-three", "*", [one("bestEncoding", Q), beside("bestCharset", "CharsetQualityValue"), one("bestLanguage", "LanguageQualityValue")]),
    ("BUG", "o-raw", "C13", [(A, filt("bestEncoding"), one("bestEncoding", Q)[2].replace("header.QualityValue(v.EncodingQualityValue)", "v.EncodingQualityValue").replace("header.QualityValue(best[0].EncodingQualityValue)", "best[0].EncodingQualityValue").replace("q.GreaterThan(", "(q > ").replace("q.Equals(", "(q == "))]),
    ("BUG", "o-lt", "C13", [one("bestEncoding", Q, gt="LessThan")]),
    ("BUG", "o-other", "C13", [one("bestEncoding", Q, other="CharsetQualityValue")]),
    ("BUG", "o-ge", "C13", [one("bestEncoding", Q, gt="GreaterThan", first="len(best) == 0 || q.Equals(header.QualityValue(best[0].EncodingQualityValue)) || ")]),
    ("BUG", "o-noreset", "C13", [beside("bestEncoding", Q, upd="")]),
    ("SAME", "o-level", "*", level()),
    ("BUG", "o-level-min", "C13", level(cmp="<")),
    ("BUG", "o-level-zero", "C13", level(first="")),
    ("BUG", "o-level-any", "C13", level(cond="ok || mt == \"\"")),
    ("BUG", "o-level-not", "C13", level(cond="ok || mt == \"text/html\"")),
    ("BUG", "o-level-tie", "C13", level(tie="n <= top")),
]
