H = "internal/header"
IM = ["github.com/freerware/negotiator/internal/header"]
BUGS = [
dict(id="zero-improvement-ignored", property="C20", pkg=H, imports=IM, edits=[("internal/header/feature_list_element.go", """	if fle.t != nil {
		return *fle.t
	}""", """	if fle.t != nil && *fle.t > 0 {
		return *fle.t
	}""")],
 needs="a feature list element with a true improvement of 0 whose predicate holds", what="a true factor of 0 is taken for a missing one", test="""
func TestSeededDemo(t *testing.T) {
	fl, err := header.NewFeatureList([]string{"a;+0-1", "b;+1-1"})
	if err != nil {
		t.Fatal(err)
	}
	s := header.FeatureSet{"a": nil}
	if d := fl.QualityDegradation(s, header.FeatureSet{}); d != 0 {
		t.Fatal(d)
	}
}
"""),
dict(id="values-overwritten", property="C20", pkg=H, imports=IM, edits=[("internal/header/feature_set.go", "			s[t] = append(s[t], values...)", "			s[t] = values")],
 needs="Accept-Features naming the same tag twice, with different values", what="a later expression for a tag replaces the values of an earlier one", test="""
func TestSeededDemo(t *testing.T) {
	af, err := header.NewAcceptFeatures([]string{"paper=A4, Paper=A3"})
	if err != nil {
		t.Fatal(err)
	}
	fl, err := header.NewFeatureList([]string{"paper=A4;+1-0.5"})
	if err != nil {
		t.Fatal(err)
	}
	s, u := af.AsFeatureSets()
	if d := fl.QualityDegradation(s, u); d != 1 {
		t.Fatal(d)
	}
}
"""),
dict(id="bag-second-term-only", property="C20", pkg=H, imports=IM, edits=[("internal/header/feature_predicate.go", """		if fp.Evaluate(supported, unsupported) {
			return true
		}
	}
	return false""", """		if fp.Evaluate(supported, unsupported) {
			return true
		}
		if a, ok := fp.(absent); ok && supported.Contains(a.t) {
			return false
		}
	}
	return false""")],
 needs="a bag with an absence predicate of a supported feature before a predicate that holds", what="a refused absence predicate ends the bag", test="""
func TestSeededDemo(t *testing.T) {
	fl, err := header.NewFeatureList([]string{"[!a b];+1-0.5"})
	if err != nil {
		t.Fatal(err)
	}
	s := header.FeatureSet{"a": nil, "b": nil}
	if d := fl.QualityDegradation(s, header.FeatureSet{}); d != 1 {
		t.Fatal(d)
	}
}
"""),
]
