# Text put together in other ways.
AL = "internal/header/alternates.go"
TC = "internal/header/tcn.go"
PR = "proactive/proactive.go"
RE = "reactive/reactive.go"
TR = "transparent/transparent.go"
src = {f: open("/repo/" + f).read() for f in (AL, TC, PR, RE, TR)}


def cut(f, a, b):
    s = src[f]
    i = s.index(a)
    return s[i:s.index(b, i)]


alAttr = cut(AL, "	var s []string\n	for _, key := range keys", "}\n\n// variantDescription represents")
alJoin = '	return strings.Join(a.ValuesAsStrings(), ",")\n'
tcJoin = '	return strings.Join(t.ValuesAsStrings(), ",")\n'
ce = 'strings.Join(rep.ContentEncoding(), ",")'
FNS = """
func joinCodings(codings []string) string {
%s}
"""


def both(name, kind, body):
    """the text put together by a function with this body."""
    out = []
    for f, sfx in ((PR, "pr"), (RE, "re"), (TR, "tr")):
        if sfx == "re" and "strings." not in body:
            continue
        s = src[f]
        i = s.index(ce)
        use = s[s.rindex("\n", 0, i) + 1:s.index("\n", i) + 1]
        tail = s[-200:]
        out.append((kind, name + "-" + sfx, "*", [(f, use, use.replace(ce, "joinCodings(rep.ContentEncoding())")), (f, tail, tail + FNS % body)]))
    return out


CASES = []
for n, k, b in [
    ("idx", "SAME", """	var b strings.Builder
	for i, c := range codings {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(c)
	}
	return b.String()
"""),
    ("idxb", "SAME", """	var b strings.Builder
	for i := range codings {
		if i != 0 {
			b.WriteByte(',')
		}
		b.WriteString(codings[i])
	}
	return b.String()
"""),
    ("trail", "SAME", """	b := &strings.Builder{}
	for i := 0; i < len(codings); i++ {
		b.WriteString(codings[i])
		if i < len(codings)-1 {
			b.WriteRune(',')
		}
	}
	return b.String()
"""),
    ("plus", "SAME", """	s := ""
	for i, c := range codings {
		if i == 0 {
			s = c
			continue
		}
		s += "," + c
	}
	return s
"""),
    ("plus2", "SAME", """	var s string
	for i, c := range codings {
		if i > 0 {
			s += ","
		}
		s += c
	}
	return s
"""),
    ("sepvar", "SAME", """	var b strings.Builder
	sep := ""
	for _, c := range codings {
		b.WriteString(sep)
		b.WriteString(c)
		sep = ","
	}
	return b.String()
"""),
    ("first", "SAME", """	var b strings.Builder
	first := true
	for _, c := range codings {
		if !first {
			b.WriteString(",")
		}
		first = false
		b.WriteString(c)
	}
	return b.String()
"""),
    ("trim", "SAME", """	var b strings.Builder
	for _, c := range codings {
		b.WriteString(c)
		b.WriteString(",")
	}
	return strings.TrimSuffix(b.String(), ",")
"""),
    ("early", "SAME", """	if len(codings) == 0 {
		return ""
	}
	return strings.Join(codings, ",")
"""),
    ("head", "SAME", """	if len(codings) == 0 {
		return ""
	}
	s := codings[0]
	for _, c := range codings[1:] {
		s += "," + c
	}
	return s
"""),
    ("b-gt1", "BUG", """	var b strings.Builder
	for i, c := range codings {
		if i > 1 {
			b.WriteString(",")
		}
		b.WriteString(c)
	}
	return b.String()
"""),
    ("b-trail", "BUG", """	var b strings.Builder
	for i, c := range codings {
		b.WriteString(c)
		if i < len(codings) {
			b.WriteString(",")
		}
	}
	return b.String()
"""),
    ("b-semi", "BUG", """	var b strings.Builder
	for i, c := range codings {
		if i > 0 {
			b.WriteString(";")
		}
		b.WriteString(c)
	}
	return b.String()
"""),
    ("b-reset", "BUG", """	var b strings.Builder
	for i, c := range codings {
		if i > 0 {
			b.WriteString(",")
		}
		if i == 3 {
			b.Reset()
		}
		b.WriteString(c)
	}
	return b.String()
"""),
    ("b-skip", "BUG", """	var b strings.Builder
	for i, c := range codings {
		if c == "identity" {
			continue
		}
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(c)
	}
	return b.String()
"""),
    ("b-trim", "BUG", """	var b strings.Builder
	for _, c := range codings {
		b.WriteString(c)
		b.WriteString(",")
	}
	return strings.TrimSuffix(b.String(), ";")
"""),
]:
    CASES += both(n, k, b)
JOINED = """	var b strings.Builder
	for i, v := range %s.ValuesAsStrings() {
		if i %s 0 {
			b.WriteString(",")
		}
		b.WriteString(v)
	}
	return b.String()
"""
CASES += [
    ("SAME", "al-join", "*", [(AL, alJoin, JOINED % ("a", ">"))]),
    ("SAME", "tc-join", "*", [(TC, tcJoin, JOINED % ("t", "!="))]),
    ("BUG", "al-joinb", "*", [(AL, alJoin, JOINED % ("a", "<"))]),
    ("BUG", "tc-joinb", "*", [(TC, tcJoin, JOINED % ("t", ">=")  )]),
    ("SAME", "at-plus", "*", [(AL, alAttr, """	s := ""
	for _, key := range keys {
		if len(s) > 0 {
			s += " "
		}
		s += fmt.Sprintf("{ %s %v }", key, a[key])
	}
	return s
""" )]),
    ("SAME", "at-plus2", "*", [(AL, alAttr, """	s := ""
	for i, key := range keys {
		if i > 0 {
			s += " "
		}
		s += "{ " + key + " " + fmt.Sprint(a[key]) + " }"
	}
	return s
""" )]),
    ("SAME", "at-blen", "*", [(AL, alAttr, """	var b strings.Builder
	for _, key := range keys {
		if b.Len() != 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "{ %s %v }", key, a[key])
	}
	return b.String()
""" )]),
    ("BUG", "at-bkey", "*", [(AL, alAttr, """	var b strings.Builder
	for i, key := range keys {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "{ %s %v }", key, a[keys[0]])
	}
	return b.String()
""" )]),
    ("BUG", "at-bone", "*", [(AL, alAttr, """	var b strings.Builder
	for i, key := range keys {
		if i > 0 {
			break
		}
		fmt.Fprintf(&b, "{ %s %v }", key, a[key])
	}
	return b.String()
""" )]),
]
