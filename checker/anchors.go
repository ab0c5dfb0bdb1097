package main

// anchors are the functions of the support packages whose meaning is decided
// on its own; the callers see their results as they are. Every other function
// of the module is analysed as part of its callers.
var anchors = map[string]bool{
	"(~/internal/header.Accept).Compatible":                   true,
	"(~/internal/header.Accept).MediaRanges":                  true,
	"(~/internal/header.Accept).String":                       true,
	"(~/internal/header.AcceptCharset).CharsetRanges":         true,
	"(~/internal/header.AcceptCharset).Compatible":            true,
	"(~/internal/header.AcceptCharset).String":                true,
	"(~/internal/header.AcceptEncoding).CodingRanges":         true,
	"(~/internal/header.AcceptEncoding).String":               true,
	"(~/internal/header.AcceptFeatures).AsFeatureSets":        true,
	"(~/internal/header.AcceptFeatures).String":               true,
	"(~/internal/header.AcceptLanguage).Compatible":           true,
	"(~/internal/header.AcceptLanguage).String":               true,
	"(~/internal/header.Alternates).String":                   true,
	"(~/internal/header.Alternates).ValuesAsString":           true,
	"(~/internal/header.Alternates).ValuesAsStrings":          true,
	"(~/internal/header.CharsetRange).Compatible":             true,
	"(~/internal/header.ContentCodingRange).Compatible":       true,
	"(~/internal/header.FeatureList).QualityDegradation":      true,
	"(~/internal/header.FeaturePredicateBag).Evaluate":        true,
	"(~/internal/header.FeatureSet).Add":                      true,
	"(~/internal/header.FeatureSet).Contains":                 true,
	"(~/internal/header.LanguageRange).Compatible":            true,
	"(~/internal/header.MediaRange).Compatible":               true,
	"(~/internal/header.Negotiate).Contains":                  true,
	"(~/internal/header.Negotiate).ContainsRVSA":              true,
	"(~/internal/header.NegotiateDirective).IsRVSAVersion":    true,
	"(~/internal/header.QualityValue).Round":                  true,
	"(~/internal/header.absent).Evaluate":                     true,
	"(~/internal/header.equals).Evaluate":                     true,
	"(~/internal/header.exists).Evaluate":                     true,
	"(~/internal/header.featureListElement).FalseDegradation": true,
	"(~/internal/header.featureListElement).TrueImprovement":  true,
	"(~/internal/header.notEquals).Evaluate":                  true,
	"(~/internal/header.predicateBagListElement).Evaluate":    true,
	"(~/internal/header.predicateListElement).Evaluate":       true,
	"(~/internal/header.variantAttributes).String":            true,
	"(~/internal/header.variantDescription).String":           true,
	"(~/internal/header.variantFallback).String":              true,
	"(~/internal/header.within).Evaluate":                     true,
	"(~/representation.Base).Bytes":                           true,
	"(~/representation.Base).ContentCharset":                  true,
	"(~/representation.Base).ContentEncoding":                 true,
	"(~/representation.Base).ContentFeatures":                 true,
	"(~/representation.Base).ContentLanguage":                 true,
	"(~/representation.Base).ContentLocation":                 true,
	"(~/representation.Base).ContentType":                     true,
	"(~/representation.Base).FromBytes":                       true,
	"(~/representation.Base).SourceQuality":                   true,
	"(~/representation.List).Bytes":                           true,
	"~/internal/header.NewAccept":                             true,
	"~/internal/header.NewAcceptCharset":                      true,
	"~/internal/header.NewAcceptEncoding":                     true,
	"~/internal/header.NewAcceptFeatures":                     true,
	"~/internal/header.NewAcceptLanguage":                     true,
	"~/internal/header.NewAlternates":                         true,
	"~/internal/header.NewCharsetRange":                       true,
	"~/internal/header.NewContentCodingRange":                 true,
	"~/internal/header.NewFeatureList":                        true,
	"~/internal/header.NewFeaturePredicate":                   true,
	"~/internal/header.NewFeaturePredicateBag":                true,
	"~/internal/header.NewLanguageRange":                      true,
	"~/internal/header.NewMediaRange":                         true,
	"~/internal/header.NewNegotiate":                          true,
	"~/internal/header.NewNegotiateDirective":                 true,
	"~/internal/header.NewPredicateBagListElement":            true,
	"~/internal/header.NewPredicateListElement":               true,
	"~/internal/header.NewQualityValue":                       true,
}
