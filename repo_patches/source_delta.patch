From 6bb8c348adfcc2d041b0df29272b083c68a37685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:54 +0000
Subject: [PATCH 01/27] fix: do not count an empty reactive negotiation as
 multiple choices

---
 reactive/reactive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reactive/reactive.go b/reactive/reactive.go
index 540b9e7..b42058b 100644
--- a/reactive/reactive.go
+++ b/reactive/reactive.go
@@ -96,7 +96,7 @@ func (n Negotiator) Negotiate(
 	defer func() {
 		if err != nil {
 			n.scope.Counter(scopeNameReactiveErrorCounter).Inc(1)
-		} else {
+		} else if len(reps) > 0 {
 			n.scope.Counter(scopeNameReactiveMultipleChoicesCounter).Inc(1)
 		}
 	}()
-- 
2.43.0


From 82c681c6746a5aca9549e7dcd46e44e70ae90b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 02/27] fix: report decoding errors instead of overwriting them
 on close

Base.decode replaced the error of a failed read, a failed decoder
construction or an unsupported content encoding with the result of closing
the reader, closed only the last reader, and panicked when a decoder after
the first could not be constructed.
---
 representation/base.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index abbc543..8539e74 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -250,12 +250,16 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 			err = ErrUnsupportedContentEncoding
 			return
 		}
-		if reader, err = readerConstructors[strings.ToLower(e)](reader); err != nil {
+		var decoder io.ReadCloser
+		if decoder, err = readerConstructors[strings.ToLower(e)](reader); err != nil {
 			return
 		}
 		defer func() {
-			err = reader.Close()
+			if cerr := decoder.Close(); err == nil {
+				err = cerr
+			}
 		}()
+		reader = decoder
 	}
 	if bb, err = io.ReadAll(reader); err != nil {
 		return
-- 
2.43.0


From 4ef910612605e05a84a817ab33f94d644c91fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 03/27] fix: apply every content encoding in order and flush
 each of them

Base.encode closed only the outermost writer, truncating the output of the
inner ones, and applied the content encodings in the reverse of the order
they are listed in and decoded from.
---
 representation/base.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index 8539e74..b9f0b82 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -188,7 +188,11 @@ func (r *Base) encode(b []byte) (bb []byte, err error) {
 		writerConstructors = r.encodingWriters
 	}
 
-	for _, e := range encodings {
+	// the first content encoding listed is the first to be applied, so its
+	// writer is the outermost. closing a writer doesn't close the one it wraps.
+	writers := make([]io.WriteCloser, 0, len(encodings))
+	for idx := len(encodings) - 1; idx >= 0; idx-- {
+		e := encodings[idx]
 		if _, ok := writerConstructors[strings.ToLower(e)]; !ok {
 			err = ErrUnsupportedContentEncoding
 			return
@@ -196,12 +200,15 @@ func (r *Base) encode(b []byte) (bb []byte, err error) {
 		if writer, err = writerConstructors[strings.ToLower(e)](writer); err != nil {
 			return
 		}
+		writers = append(writers, writer)
 	}
 	if _, err = writer.Write(b); err != nil {
 		return
 	}
-	if err = writer.Close(); err != nil {
-		return
+	for idx := len(writers) - 1; idx >= 0; idx-- {
+		if err = writers[idx].Close(); err != nil {
+			return
+		}
 	}
 	bb = buf.Bytes()
 	return
-- 
2.43.0


From 197e9fa371cab51e973ce1b1824a8d4a3c180c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:57 +0000
Subject: [PATCH 04/27] fix: skip only the identity coding, not the codings
 listed after it

A representation with the content encodings identity and gzip was left
unencoded while its Content-Encoding announced gzip, and listing them the
other way around failed as unsupported.
---
 representation/base.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index b9f0b82..10de243 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -167,8 +167,7 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 		return b, err
 	}
 
-	encodings := r.ContentEncoding()
-	if len(encodings) < 1 || strings.ToLower(encodings[0]) == "identity" {
+	if len(r.codings()) < 1 {
 		return b, nil
 	}
 
@@ -176,11 +175,22 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 	return r.encode(b)
 }
 
+// codings retrieves the content encodings that transform the representation,
+// in the order they are applied.
+func (r Base) codings() (c []string) {
+	for _, e := range r.ContentEncoding() {
+		if strings.ToLower(e) != "identity" {
+			c = append(c, e)
+		}
+	}
+	return
+}
+
 func (r *Base) encode(b []byte) (bb []byte, err error) {
 	var (
 		buf                bytes.Buffer
 		writer             io.WriteCloser = &closeableBuffer{&buf}
-		encodings                         = r.ContentEncoding()
+		encodings                         = r.codings()
 		writerConstructors                = defaultEncodingWriters
 	)
 
@@ -228,8 +238,7 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 	}
 
 	// decode.
-	encodings := r.ContentEncoding()
-	if len(encodings) > 0 && strings.ToLower(encodings[0]) != "identity" {
+	if len(r.codings()) > 0 {
 		if b, err = r.decode(b); err != nil {
 			return
 		}
@@ -243,7 +252,7 @@ func (r *Base) decode(b []byte) (bb []byte, err error) {
 	var (
 		buf                              = bytes.NewBuffer(b)
 		reader             io.ReadCloser = &closeableBuffer{buf}
-		encodings                        = r.ContentEncoding()
+		encodings                        = r.codings()
 		readerConstructors               = defaultEncodingReaders
 	)
 
-- 
2.43.0


From f610e53bf346aa39b657fcaef1abc9fd55b18b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 05/27] fix: answer 204 when there is nothing to negotiate
 transparently

Building the list response indexed the first of zero representations and
panicked. The proactive and reactive negotiators answer 204 No Content.
---
 transparent/transparent.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 98fc0bc..94473e0 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -127,6 +127,13 @@ func (n Negotiator) Negotiate(
 		}
 	}()
 
+	if len(reps) == 0 {
+		status := http.StatusNoContent
+		ctx.ResponseWriter.WriteHeader(status)
+		n.logger.Info("no representations to negotiate", zap.Int("status", status))
+		return err
+	}
+
 	if len(reps) > n.maximumVariantListSize {
 		return ErrVariantListSizeExceeded
 	}
-- 
2.43.0


From a175e1a1cf3b90ff0a33286bf6712ad0a8e28290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 06/27] fix: ignore the query and fragment when looking for a
 neighboring variant

Only what precedes the last slash of the path decides if a variant is a
neighbor, but a query in the request made none of them one.
---
 transparent/transparent.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transparent/transparent.go b/transparent/transparent.go
index 94473e0..02de84c 100644
--- a/transparent/transparent.go
+++ b/transparent/transparent.go
@@ -229,6 +229,7 @@ func (n Negotiator) Negotiate(
 			if lastSlash := strings.LastIndex(u.Path, "/"); lastSlash != -1 {
 				u.Path = u.Path[:lastSlash]
 			}
+			u.RawQuery, u.ForceQuery, u.Fragment = "", false, ""
 			return u
 		}
 		return sameURL(trim(neighborURL), trim(resourceURL))
-- 
2.43.0


From 9ee656000c617470422b36e1fca10a9c8f4d732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 07/27] fix: report an invalid feature list as an error rather
 than panicking

---
 transparent/rvsa.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/transparent/rvsa.go b/transparent/rvsa.go
index 605609e..00056e4 100644
--- a/transparent/rvsa.go
+++ b/transparent/rvsa.go
@@ -79,7 +79,10 @@ func (c rvsa1) Choose(
 		qt, twc := c.acceptQuality(rep, a)
 		qc, cwc := c.acceptCharsetQuality(rep, ac)
 		ql, lwc := c.acceptLanguageQuality(rep, al)
-		qf, fwc := c.acceptFeatureQuality(rep, af)
+		qf, fwc, err := c.acceptFeatureQuality(rep, af)
+		if err != nil {
+			return nil, err
+		}
 
 		isDefinite := !twc && !cwc && !lwc && !fwc
 		variants = append(variants, representation.RankedRepresentation{
@@ -194,22 +197,22 @@ func (c rvsa1) acceptCharsetQuality(
 func (c rvsa1) acceptFeatureQuality(
 	rep representation.Representation,
 	acceptFeature header.AcceptFeatures,
-) (header.QualityValue, bool) {
+) (header.QualityValue, bool, error) {
 	var usedWildcard bool
 	if len(rep.ContentFeatures()) == 0 {
-		return header.QualityValueMaximum, false
+		return header.QualityValueMaximum, false, nil
 	}
 	if acceptFeature.IsEmpty() {
-		return header.QualityValueMaximum, true
+		return header.QualityValueMaximum, true, nil
 	}
 	featureList, err := header.NewFeatureList(rep.ContentFeatures())
 	if err != nil {
-		panic(err) // TODO(FREER)
+		return header.QualityValueMinimum, false, err
 	}
 	degradation := featureList.QualityDegradation(
 		acceptFeature.AsFeatureSets(),
 	)
-	return header.QualityValue(degradation), usedWildcard // TODO(FREER)
+	return header.QualityValue(degradation), usedWildcard, nil // TODO(FREER)
 }
 
 func (c rvsa1) overallQuality(v representation.RankedRepresentation) float32 {
-- 
2.43.0


From 5515c40c5a7c5ab383261d63cef2efaf3604c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:02 +0000
Subject: [PATCH 08/27] fix: reject NaN as a quality value

---
 internal/header/quality_value.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/header/quality_value.go b/internal/header/quality_value.go
index b359bc7..0df17fc 100644
--- a/internal/header/quality_value.go
+++ b/internal/header/quality_value.go
@@ -51,9 +51,10 @@ var ErrInvalidQualityValue = errors.New("quality range must be between 0.0 and 1
 // where 0.001 is the least preferred and 1 is the most preferred; a
 // value of 0 means "not acceptable".
 func NewQualityValue(qvalue float32) (QualityValue, error) {
-	tooLow, tooHigh := qvalue < QualityValueMinimum.Float(),
-		qvalue > QualityValueMaximum.Float()
-	if tooLow || tooHigh {
+	// NaN is neither too low nor too high, but isn't in range.
+	inRange := qvalue >= QualityValueMinimum.Float() &&
+		qvalue <= QualityValueMaximum.Float()
+	if !inRange {
 		return QualityValue(0), ErrInvalidQualityValue
 	}
 	return QualityValue(qvalue), nil
-- 
2.43.0


From cb2bc81645510737d93921498ccfe115d294b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 09/27] fix: prefer the language listed first among equally
 preferred ones

The language order score is higher the earlier the language is listed in
Accept-Language, but the lowest score was selected.
---
 proactive/apache_httpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index d2237af..68fde4e 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -245,7 +245,7 @@ var (
 	// bestLanguageOrder selects the variants with best language order score.
 	bestLanguageOrder filter = func(variants representation.Set) (representation.Set, error) {
 		variants.Sort(func(i, j int) bool {
-			return variants[i].LanguageOrderScore < variants[j].LanguageOrderScore
+			return variants[i].LanguageOrderScore > variants[j].LanguageOrderScore
 		})
 		highest := variants.First()
 		return variants.Where(func(v representation.RankedRepresentation) bool {
-- 
2.43.0


From efd859b73909e85428c04d42bd7d389bdb273968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 10/27] fix: select only the variants with the highest level

Variants having a lower level stayed in the selection, where the steps
that follow could prefer them.
---
 proactive/apache_httpd.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 68fde4e..7a009c4 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -276,7 +276,9 @@ var (
 				return htmlWithLevel[i].l > htmlWithLevel[j].l
 			})
 			for _, v := range htmlWithLevel {
-				htmlVariants = append(htmlVariants, v.v)
+				if v.l == htmlWithLevel[0].l {
+					htmlVariants = append(htmlVariants, v.v)
+				}
 			}
 			return htmlVariants, nil
 		}
-- 
2.43.0


From 11f6cecc3d7c4548ac3e85878d692910a84bea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 11/27] fix: keep the order of equally ranked representations
 when sorting

Both algorithms take the first variant of those that remain tied, which an
unstable sort doesn't preserve for more than a dozen variants.
---
 representation/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/representation/set.go b/representation/set.go
index 977dc93..34f482e 100644
--- a/representation/set.go
+++ b/representation/set.go
@@ -43,7 +43,7 @@ func (s Set) AsSlice() []RankedRepresentation {
 
 // Sort sorts the representation set based on the provided less function.
 func (s Set) Sort(less func(i, j int) bool) {
-	sort.Slice(s, less)
+	sort.SliceStable(s, less)
 }
 
 // First task the first element of the representation set. Must check if
-- 
2.43.0


From 0fc2b2994c628959b5dc88042b7a39db8262039d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:08 +0000
Subject: [PATCH 12/27] fix: accept content codings in any case

---
 internal/header/content_coding_range.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 470c81d..c13beb2 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -84,10 +84,11 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	}
 	groups := contentCodingRangeRegex.FindStringSubmatch(contentCoding)
 
-	if !slice.ContainsString(contentCodings, groups[1]) {
+	coding := strings.ToLower(groups[1])
+	if !slice.ContainsString(contentCodings, coding) {
 		return ContentCodingRange{}, ErrInvalidContentCodingRange
 	}
-	cc := ContentCodingRange{coding: groups[1], qValue: QualityValue(1.0)}
+	cc := ContentCodingRange{coding: coding, qValue: QualityValue(1.0)}
 
 	if len(groups[3]) > 0 {
 		q, _ := strconv.ParseFloat(groups[4], 32)
-- 
2.43.0


From df6f2cb10c72c6cf2f86148c0a58712d298051fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:10 +0000
Subject: [PATCH 13/27] fix: don't require media types to carry the weight of
 the media range

A media range with both parameters and a weight, such as
text/html;level=2;q=0.4, matched no media type.
---
 internal/header/media_range.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index 0dabc44..5a9a097 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -151,6 +151,10 @@ func (mr MediaRange) Compatible(mediaType string) (bool, error) {
 	matchedParams := true
 	if mr.HasParams() {
 		for k, v := range mr.params {
+			// the weight isn't a parameter of the media type.
+			if k == "q" {
+				continue
+			}
 			if vv, ok := params[k]; !ok || v != vv {
 				matchedParams = false
 				break
-- 
2.43.0


From c24f21244001439a61149d53ed9e2fa4a59e2e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:12 +0000
Subject: [PATCH 14/27] fix: add the provided values to a feature tag already
 in the set

The values already there were added once more instead.
---
 internal/header/feature_set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/header/feature_set.go b/internal/header/feature_set.go
index 19f86e3..d0358e2 100644
--- a/internal/header/feature_set.go
+++ b/internal/header/feature_set.go
@@ -32,7 +32,7 @@ func (s FeatureSet) Add(tag FeatureTag, values ...FeatureTagValue) {
 		s[tag] = values
 		return
 	}
-	for t, values := range s {
+	for t := range s {
 		if t.Equals(tag) {
 			s[t] = append(s[t], values...)
 		}
-- 
2.43.0


From d80d078e11c375fb05ecbfb54c9376621de5a297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 15/27] fix: parse the value of equality feature expressions

---
 internal/header/feature_expression.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/header/feature_expression.go b/internal/header/feature_expression.go
index c735fb1..f972d8d 100644
--- a/internal/header/feature_expression.go
+++ b/internal/header/feature_expression.go
@@ -160,6 +160,7 @@ func (e FeatureExpression) parseValue() (val FeatureTagValue, ok bool) {
 			), true
 			return
 		}
+		val, ok = FeatureTagValue(s[1]), true
 	}
 	return
 }
-- 
2.43.0


From 88cd12f434b3b0b58c0ea5ab4f07deac455483e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 16/27] fix: honor open-ended ranges in feature predicates

A range missing a bound disregarded every value of the feature and treated
the missing upper bound as 0, and a feature without numeric values was
considered to have the value 0.
---
 internal/header/feature_predicate.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/header/feature_predicate.go b/internal/header/feature_predicate.go
index 4e7f2ca..f010f10 100644
--- a/internal/header/feature_predicate.go
+++ b/internal/header/feature_predicate.go
@@ -18,6 +18,7 @@ package header
 import (
 	"errors"
 	"fmt"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -267,21 +268,28 @@ func (w within) Evaluate(supported, unsupported FeatureSet) bool {
 		return false
 	}
 
+	// a missing lower bound is 0, and a missing upper bound is infinity.
 	low, _ := strconv.Atoi(w.l.String())
-	high, _ := strconv.Atoi(w.h.String())
+	high, err := strconv.Atoi(w.h.String())
+	if err != nil {
+		high = math.MaxInt
+	}
 
 	// ensure that the highest numeric value for the feature in the set falls
 	// within the range inclusively.
-	var highest int
+	var (
+		highest int
+		numeric bool
+	)
 	for _, val := range sValues {
-		if val.IsNumeric() && w.l.IsNumeric() && w.h.IsNumeric() {
-			num, _ := strconv.Atoi(val.String())
-			if num > highest {
+		if num, err := strconv.Atoi(val.String()); err == nil {
+			if !numeric || num > highest {
 				highest = num
 			}
+			numeric = true
 		}
 	}
-	return highest >= low && highest <= high
+	return numeric && highest >= low && highest <= high
 }
 
 // String provides the textual representation of the predicate.
-- 
2.43.0


From 154f7b96ce4b2b3bc5984e322ac04d32195effda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 17/27] fix: recognize the wildcard in the Accept-Language
 header

The wildcard matched no language at all, and language ranges from the
header carried their weight twice.
---
 internal/header/accept_language.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index ac04d4c..dc9c627 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -55,12 +55,17 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 
 	var ranges []LanguageRange
 	for i := 0; i < len(tags); i++ {
+		lrange := tags[i].String()
+		// the wildcard is parsed as the tag for multiple languages.
+		if lrange == "mul" {
+			lrange = "*"
+		}
 		qv, err := NewQualityValue(qValues[i])
 		if err != nil {
 			return EmptyAcceptLanguage, err
 		}
 		ranges = append(ranges, LanguageRange{
-			lrange: tags[i].String() + ";q=" + qv.String(),
+			lrange: lrange,
 			tag:    tags[i],
 			qValue: qv,
 		})
-- 
2.43.0


From 0da2620b99c4d3d5034e832f2ce4a32a1cffb634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 18/27] fix: split comma separated header values into their
 elements

Each value of the Accept, Accept-Charset, Accept-Encoding, Accept-Features
and Negotiate headers was taken for a single element, so the lists user
agents send on a single line were rejected as invalid.
---
 internal/header/accept.go          |  2 +-
 internal/header/accept_charset.go  |  2 +-
 internal/header/accept_encoding.go |  2 +-
 internal/header/accept_features.go |  2 +-
 internal/header/elements.go        | 57 ++++++++++++++++++++++++++++++
 internal/header/negotiate.go       |  2 +-
 6 files changed, 62 insertions(+), 5 deletions(-)
 create mode 100644 internal/header/elements.go

diff --git a/internal/header/accept.go b/internal/header/accept.go
index 43d2004..03058d2 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -49,7 +49,7 @@ func NewAccept(accept []string) (Accept, error) {
 
 	// parse media ranges
 	var mediaRanges []MediaRange
-	for _, m := range accept {
+	for _, m := range elements(accept) {
 		mediaRange, err := parseMediaRange(m)
 		if err != nil {
 			return EmptyAccept, err
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index d79f13c..1366d35 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -50,7 +50,7 @@ func NewAcceptCharset(acceptCharset []string) (AcceptCharset, error) {
 		return EmptyAcceptCharset, nil
 	}
 	var charsets []CharsetRange
-	for _, c := range acceptCharset {
+	for _, c := range elements(acceptCharset) {
 		charset, err := NewCharsetRange(c)
 		if err != nil {
 			return EmptyAcceptCharset, err
diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index fbef4ff..9ea11dc 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -47,7 +47,7 @@ func NewAcceptEncoding(acceptEncoding []string) (AcceptEncoding, error) {
 		return EmptyAcceptEncoding, nil
 	}
 	var contentCodings []ContentCodingRange
-	for _, cc := range acceptEncoding {
+	for _, cc := range elements(acceptEncoding) {
 		coding, err := NewContentCodingRange(cc)
 		if err != nil {
 			return EmptyAcceptEncoding, err
diff --git a/internal/header/accept_features.go b/internal/header/accept_features.go
index 410369b..875feb9 100644
--- a/internal/header/accept_features.go
+++ b/internal/header/accept_features.go
@@ -46,7 +46,7 @@ func NewAcceptFeatures(acceptFeatures []string) (AcceptFeatures, error) {
 		return EmptyAcceptFeatures, nil
 	}
 	var expressions []FeatureExpression
-	for _, e := range acceptFeatures {
+	for _, e := range elements(acceptFeatures) {
 		expressions = append(expressions, FeatureExpression(e))
 	}
 	return AcceptFeatures(expressions), nil
diff --git a/internal/header/elements.go b/internal/header/elements.go
new file mode 100644
index 0000000..0d48efa
--- /dev/null
+++ b/internal/header/elements.go
@@ -0,0 +1,57 @@
+/* Copyright 2020 Freerware
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package header
+
+import "strings"
+
+// elements provides the elements listed within the values of a header.
+//
+// A recipient can receive a list as multiple values, as a single value having
+// its elements separated by commas, or any combination of the two. Commas
+// within quoted strings do not separate elements, and empty elements in a
+// comma separated list are ignored.
+func elements(values []string) []string {
+	var elems []string
+	for _, value := range values {
+		// not a list.
+		if !strings.Contains(value, ",") {
+			elems = append(elems, value)
+			continue
+		}
+		var (
+			start           int
+			quoted, escaped bool
+		)
+		for i := 0; i <= len(value); i++ {
+			if i == len(value) || (value[i] == ',' && !quoted) {
+				if elem := strings.TrimSpace(value[start:i]); len(elem) > 0 {
+					elems = append(elems, elem)
+				}
+				start = i + 1
+				continue
+			}
+			switch {
+			case escaped:
+				escaped = false
+			case quoted && value[i] == '\\':
+				escaped = true
+			case value[i] == '"':
+				quoted = !quoted
+			}
+		}
+	}
+	return elems
+}
diff --git a/internal/header/negotiate.go b/internal/header/negotiate.go
index c3250db..635d38c 100644
--- a/internal/header/negotiate.go
+++ b/internal/header/negotiate.go
@@ -34,7 +34,7 @@ type Negotiate []NegotiateDirective
 // NewNegotiate constructs a Negotiate header with the provided directives.
 func NewNegotiate(directives []string) (Negotiate, error) {
 	var dirs []NegotiateDirective
-	for _, d := range directives {
+	for _, d := range elements(directives) {
 		directive, err := NewNegotiateDirective(d)
 		if err != nil {
 			return EmptyNegotiateHeader, err
-- 
2.43.0


From 0e7590240d4213fbb451f0d277c17d6e2be8d0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:03 +0000
Subject: [PATCH 19/27] fix: let the most specific range decide the quality of
 what it matches

A wildcard having a higher weight took precedence over a range naming the
media type, charset or content coding, so one explicitly refused with a
weight of 0 was served when a wildcard was present.
---
 internal/header/accept.go          |  8 ++++++--
 internal/header/accept_charset.go  |  6 +++++-
 internal/header/accept_encoding.go |  6 +++++-
 internal/header/media_range.go     | 15 +++++++++++++++
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/internal/header/accept.go b/internal/header/accept.go
index 03058d2..fa2db25 100644
--- a/internal/header/accept.go
+++ b/internal/header/accept.go
@@ -59,13 +59,17 @@ func NewAccept(accept []string) (Accept, error) {
 	return Accept(mediaRanges), nil
 }
 
-// MediaRanges provides the media ranges sorted on preference and precedence,
-// from highest preference and precedence to lowest.
+// MediaRanges provides the media ranges sorted on specificity, preference, and
+// precedence, from highest to lowest. The most specific of the media ranges
+// that match a media type takes precedence over the others.
 func (a Accept) MediaRanges() []MediaRange {
 	sort.Slice(a, func(first, second int) bool {
 		f := a[first]
 		s := a[second]
 
+		if f.specificity() != s.specificity() {
+			return f.specificity() > s.specificity()
+		}
 		if f.QualityValue().Equals(s.QualityValue()) {
 			return f.Precedence() > s.Precedence()
 		}
diff --git a/internal/header/accept_charset.go b/internal/header/accept_charset.go
index 1366d35..f020327 100644
--- a/internal/header/accept_charset.go
+++ b/internal/header/accept_charset.go
@@ -61,11 +61,15 @@ func NewAcceptCharset(acceptCharset []string) (AcceptCharset, error) {
 }
 
 // CharsetRanges provides the charsets sorted on preference from highest
-// preference to lowest.
+// preference to lowest, followed by the wildcard as it only matches the
+// charsets not mentioned by the others.
 func (c AcceptCharset) CharsetRanges() []CharsetRange {
 	sort.Slice(c, func(first, second int) bool {
 		f := c[first]
 		s := c[second]
+		if f.IsWildcard() != s.IsWildcard() {
+			return s.IsWildcard()
+		}
 		return f.QualityValue().GreaterThan(s.QualityValue())
 	})
 	return c
diff --git a/internal/header/accept_encoding.go b/internal/header/accept_encoding.go
index 9ea11dc..f50151c 100644
--- a/internal/header/accept_encoding.go
+++ b/internal/header/accept_encoding.go
@@ -58,11 +58,15 @@ func NewAcceptEncoding(acceptEncoding []string) (AcceptEncoding, error) {
 }
 
 // Codings provides the content codings sorted on preference from highest
-// preference to lowest.
+// preference to lowest, followed by the wildcard as it only matches the
+// content codings not mentioned by the others.
 func (e AcceptEncoding) CodingRanges() []ContentCodingRange {
 	sort.Slice(e, func(first, second int) bool {
 		f := e[first]
 		s := e[second]
+		if f.IsWildcard() != s.IsWildcard() {
+			return s.IsWildcard()
+		}
 		return f.QualityValue().GreaterThan(s.QualityValue())
 	})
 	return e
diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index 5a9a097..6bbd48d 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -176,6 +176,21 @@ func (mr MediaRange) Precedence() int {
 	return 2 + len(mr.params)
 }
 
+// specificity determines how specific the media range is, disregarding its
+// weight.
+func (mr MediaRange) specificity() (s int) {
+	if !mr.IsTypeWildcard() {
+		s++
+	}
+	if !mr.IsSubTypeWildcard() {
+		s++
+	}
+	if mr.HasParams() {
+		s++
+	}
+	return
+}
+
 // String provides the textual representation of the media range.
 func (mr MediaRange) String() string {
 	var params []string
-- 
2.43.0


From f95498e6a6a9bde7cd605e9dea0eac067dcaeaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 20/27] fix: keep the supplied order of variants of the same
 text/html level

sort.Slice may permute more than a dozen variants of equal level, while the
first supplied of those that remain tied is to be returned.
---
 proactive/apache_httpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proactive/apache_httpd.go b/proactive/apache_httpd.go
index 7a009c4..fcdb8a7 100644
--- a/proactive/apache_httpd.go
+++ b/proactive/apache_httpd.go
@@ -272,7 +272,7 @@ var (
 		}
 		var htmlVariants representation.Set
 		if len(htmlWithLevel) > 0 {
-			sort.Slice(htmlWithLevel, func(i, j int) bool {
+			sort.SliceStable(htmlWithLevel, func(i, j int) bool {
 				return htmlWithLevel[i].l > htmlWithLevel[j].l
 			})
 			for _, v := range htmlWithLevel {
-- 
2.43.0


From 73249f348604bfc0f7f965292eb4739589efb9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:13 +0000
Subject: [PATCH 21/27] fix: let a named type or subtype outweigh the
 parameters of a wildcard

A range such as text/*;p=v was taken to be as specific as text/html, so the
one with the higher weight decided the quality of what both match.
---
 internal/header/media_range.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/header/media_range.go b/internal/header/media_range.go
index 6bbd48d..a4c1cea 100644
--- a/internal/header/media_range.go
+++ b/internal/header/media_range.go
@@ -180,10 +180,10 @@ func (mr MediaRange) Precedence() int {
 // weight.
 func (mr MediaRange) specificity() (s int) {
 	if !mr.IsTypeWildcard() {
-		s++
+		s += 2
 	}
 	if !mr.IsSubTypeWildcard() {
-		s++
+		s += 2
 	}
 	if mr.HasParams() {
 		s++
-- 
2.43.0


From f3270b144754b27f91b245507b200f61967c819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:16 +0000
Subject: [PATCH 22/27] fix: ignore whitespace before the parameters of a
 content type

A representation having the content type "application/json ; charset=utf-8"
was refused with ErrUnsupportedContentType.
---
 representation/base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/representation/base.go b/representation/base.go
index 10de243..5198dda 100644
--- a/representation/base.go
+++ b/representation/base.go
@@ -156,7 +156,7 @@ func (r Base) Bytes(out interface{}) ([]byte, error) {
 		marshallers = r.marshallers
 	}
 
-	ct := strings.Split(r.ContentType(), ";")[0]
+	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])
 	if _, ok := marshallers[strings.ToLower(ct)]; !ok {
 		return []byte{}, ErrUnsupportedContentType
 	}
@@ -231,7 +231,7 @@ func (r Base) FromBytes(b []byte, in interface{}) (err error) {
 		unmarshallers = r.unmarshallers
 	}
 
-	ct := strings.Split(r.ContentType(), ";")[0]
+	ct := strings.TrimSpace(strings.Split(r.ContentType(), ";")[0])
 	if _, ok := unmarshallers[strings.ToLower(ct)]; !ok {
 		err = ErrUnsupportedContentType
 		return
-- 
2.43.0


From a98297883e7b856987a186a0a0827946b57d8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 23/27] fix: read the whole weight of a content coding range

Only the fraction of the weight was read, so gzip;q=1 had the quality 0 and
gzip;q=1.5 was accepted with the quality 0.5.
---
 internal/header/content_coding_range.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index c13beb2..805c8a0 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -90,8 +90,8 @@ func NewContentCodingRange(contentCoding string) (ContentCodingRange, error) {
 	}
 	cc := ContentCodingRange{coding: coding, qValue: QualityValue(1.0)}
 
-	if len(groups[3]) > 0 {
-		q, _ := strconv.ParseFloat(groups[4], 32)
+	if len(groups[2]) > 0 {
+		q, _ := strconv.ParseFloat(groups[3], 32)
 		qv, err := NewQualityValue(float32(q))
 		if err != nil {
 			return ContentCodingRange{}, err
-- 
2.43.0


From aba4fd176487bdda57cbf8740a143632b71124e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 24/27] fix: accept every token and weight the grammar of a
 range allows

Charsets such as Shift_JIS, weights such as 0. or Q=0.5, and whitespace before
the weight were refused, failing the whole negotiation.
---
 internal/header/charset_range.go        | 2 +-
 internal/header/content_coding_range.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/header/charset_range.go b/internal/header/charset_range.go
index 3c21d93..46a1d6e 100644
--- a/internal/header/charset_range.go
+++ b/internal/header/charset_range.go
@@ -23,7 +23,7 @@ import (
 	"strings"
 )
 
-var charsetRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(;\s?q=(\d(\.\d{1,3})?))?$`)
+var charsetRangeRegex = regexp.MustCompile(`^([!#$%&'*+.^_\x60|~0-9A-Za-z-]+)([ \t]*;[ \t]*[qQ]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	// defaultCharsetRange represents the default charset range.
diff --git a/internal/header/content_coding_range.go b/internal/header/content_coding_range.go
index 805c8a0..c25f706 100644
--- a/internal/header/content_coding_range.go
+++ b/internal/header/content_coding_range.go
@@ -25,7 +25,7 @@ import (
 	"github.com/stretchr/stew/slice"
 )
 
-var contentCodingRangeRegex = regexp.MustCompile(`^([A-Za-z0-9-]+|\*)(;\s?q=(\d(\.\d{1,3})?))?$`)
+var contentCodingRangeRegex = regexp.MustCompile(`^([!#$%&'*+.^_\x60|~0-9A-Za-z-]+)([ \t]*;[ \t]*[qQ]=(\d(\.\d{0,3})?))?$`)
 
 var (
 	gzip      = "gzip"
-- 
2.43.0


From e6aad5e7141edad32646f12f67d244858d25dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 25/27] fix: keep the language ranges having a weight of zero

golang.org/x/text drops them, so a language the user agent refused was treated
as any other, and weights below zero weren't reported.
---
 internal/header/accept_language.go | 12 ++++++++++++
 internal/header/language_range.go  |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index dc9c627..1c95871 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -16,6 +16,7 @@
 package header
 
 import (
+	"errors"
 	"fmt"
 	"sort"
 	"strings"
@@ -70,6 +71,17 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 			qValue: qv,
 		})
 	}
+
+	// the language ranges without a positive weight aren't provided above.
+	for _, l := range elements(acceptLanguage) {
+		lr, err := NewLanguageRange(l)
+		if errors.Is(err, ErrInvalidQualityValue) {
+			return EmptyAcceptLanguage, err
+		}
+		if err == nil && lr.QualityValue() == QualityValueMinimum {
+			ranges = append(ranges, lr)
+		}
+	}
 	return AcceptLanguage(ranges), nil
 }
 
diff --git a/internal/header/language_range.go b/internal/header/language_range.go
index fed00d4..001c4a0 100644
--- a/internal/header/language_range.go
+++ b/internal/header/language_range.go
@@ -51,7 +51,7 @@ func NewLanguageRange(languageRange string) (LanguageRange, error) {
 	}
 
 	parts := strings.Split(languageRange, ";")
-	r := strings.ToLower(parts[0])
+	r := strings.ToLower(strings.TrimSpace(parts[0]))
 	t, err := language.Parse(r)
 	if r != "*" && err != nil {
 		return LanguageRange{}, err
-- 
2.43.0


From f0937cf9a73525e7986642055dcedd827e8d59da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:02 +0000
Subject: [PATCH 26/27] fix: match the language wildcard after the languages it
 is listed with

A language listed with a lower weight than the wildcard was given the weight
of the wildcard.
---
 internal/header/accept_language.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/header/accept_language.go b/internal/header/accept_language.go
index 1c95871..96f0dca 100644
--- a/internal/header/accept_language.go
+++ b/internal/header/accept_language.go
@@ -82,6 +82,11 @@ func NewAcceptLanguage(acceptLanguage []string) (AcceptLanguage, error) {
 			ranges = append(ranges, lr)
 		}
 	}
+
+	// the wildcard only matches the languages not mentioned by the others.
+	sort.SliceStable(ranges, func(first, second int) bool {
+		return !ranges[first].IsWildcard() && ranges[second].IsWildcard()
+	})
 	return AcceptLanguage(ranges), nil
 }
 
-- 
2.43.0


From f7e6b6b2193a38697d5852816411f32ed1ac6f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:27 +0000
Subject: [PATCH 27/27] fix: recognize feature predicate bags that carry
 factors

---
 internal/header/feature_list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/header/feature_list.go b/internal/header/feature_list.go
index e87982a..d9b11ff 100644
--- a/internal/header/feature_list.go
+++ b/internal/header/feature_list.go
@@ -28,7 +28,8 @@ func NewFeatureList(features []string) (FeatureList, error) {
 	for _, feature := range features {
 		var le FeatureListElement
 		var err error
-		if strings.HasPrefix(feature, "[") && strings.HasSuffix(feature, "]") {
+		// a bag can be followed by its factors, so doesn't have to end in "]".
+		if strings.HasPrefix(feature, "[") {
 			if le, err = NewPredicateBagListElement(feature); err != nil {
 				return list, err
 			}
-- 
2.43.0

