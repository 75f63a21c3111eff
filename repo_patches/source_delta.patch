From e9d4562f5f74b042ecb90e895d65ca608f6759b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 01/42] fix: report an invalid false branch of a plural ternary

Compile returned neither an expression nor an error for 'n==1 ? 0 : x'.
---
 plurals/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index c28297a..05afd50 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -54,7 +54,7 @@ func (ternaryStruct) compile(tokens []string) (expr Expression, err error) {
 	}
 	falseAction, err := compileExpression(strings.Join(actions.Right, ""))
 	if err != nil {
-		return expr, nil
+		return expr, err
 	}
 	return ternary{
 		test:      test,
-- 
2.43.0


From ae0d0aff1c03a11850da5378f075e47847f451e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:08 +0000
Subject: [PATCH 02/42] fix: reject plural formulas that divide by zero

'n%0' compiled and made Eval, and thus every plural lookup, panic.
---
 plurals/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 05afd50..8bc06a4 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -134,6 +134,9 @@ func compileMod(tokens []string) (math math, err error) {
 	if err != nil {
 		return math, err
 	}
+	if i == 0 {
+		return math, errors.New("modulus by zero")
+	}
 	return mod{value: uint32(i)}, nil
 }
 
-- 
2.43.0


From c228ce830ea0b74dff5751f89b42a5230d3dc981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 03/42] fix: strip the outer parentheses of a plural formula
 only when they match

'(n==1) ? 0 : (n==2 ? 1 : 2)' lost its first and last parenthesis and was
rejected, so the catalogue fell back to the Germanic rule.
---
 plurals/compiler.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 8bc06a4..2f82e7d 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -353,20 +353,39 @@ func split(s string) <-chan string {
 	return ch
 }
 
+// isEnclosed reports whether s starts with ( and ends with ) and those two form
+// a matching pair.
+//
+// Eg: (foo) -> true; (foo)(bar) -> false;
+func isEnclosed(s string) bool {
+	if len(s) < 2 || s[0] != '(' || s[len(s)-1] != ')' {
+		return false
+	}
+	depth := 0
+	for i := 0; i < len(s)-1; i++ {
+		switch s[i] {
+		case '(':
+			depth++
+		case ')':
+			depth--
+		}
+		if depth == 0 {
+			return false
+		}
+	}
+	return depth == 1
+}
+
 // Tokenizes a string into a list of strings, tokens grouped by parenthesis are
-// not split! If the string starts with ( and ends in ), those are stripped.
+// not split! If the string starts with ( and ends in ), and those two form a
+// matching pair, they are stripped.
 func tokenize(s string) ([]string, error) {
-	/*
-		TODO: Properly detect if the string starts with a ( and ends with a )
-		and that those two form a matching pair.
-
-		Eg: (foo) -> true; (foo)(bar) -> false;
-	*/
+	s = strings.TrimSpace(s)
 	if len(s) == 0 {
 		return []string{}, nil
 	}
-	if s[0] == '(' && s[len(s)-1] == ')' {
-		s = s[1 : len(s)-1]
+	for isEnclosed(s) {
+		s = strings.TrimSpace(s[1 : len(s)-1])
 	}
 	ret := []string{}
 	for chunk := range split(s) {
-- 
2.43.0


From dbfe5ef1956ca3e8d5dd8c5fcd8fe0dffa51c57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 04/42] fix: a bare n in a plural formula is true unless n is
 zero

'n ? 1 : 0' was evaluated as 'n==1 ? 1 : 0'.
---
 plurals/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 2f82e7d..dd7c0b6 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -466,7 +466,7 @@ func compileTest(s string) (test test, err error) {
 		}, nil
 	}
 	if len(tokens) == 1 && tokens[0] == "n" {
-		return equal{value: 1}, nil
+		return notequal{value: 0}, nil
 	}
 	return test, errors.New("cannot compile")
 }
-- 
2.43.0


From 15a245964d2944ffbe8215a044dc6eb5c19e2fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 05/42] fix: accept every constant plural formula

'plural= 0' and 'plural=(0)' were rejected, so single-form languages fell
back to the two-form Germanic rule.
---
 plurals/compiler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index dd7c0b6..6c466cd 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -413,10 +413,10 @@ func tokenize(s string) ([]string, error) {
 
 // Compile a string containing a plural form expression to a Expression object.
 func Compile(s string) (expr Expression, err error) {
-	if s == "0" {
-		return constValue{value: 0}, nil
-	}
 	if !strings.Contains(s, "?") {
+		if expr, err := compileExpression(s); err == nil {
+			return expr, nil
+		}
 		s += "?1:0"
 	}
 	return compileExpression(s)
-- 
2.43.0


From 9ca98631e242da969bab693aca5e11de1360082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 06/42] fix: escape every quote and backslash when writing PO
 text

---
 domain.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index 328b255..fa58026 100644
--- a/domain.go
+++ b/domain.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -786,7 +785,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 
 // EscapeSpecialCharacters escapes special characters in a string
 func EscapeSpecialCharacters(s string) string {
-	s = regexp.MustCompile(`([^\\])(")`).ReplaceAllString(s, "$1\\\"") // Escape non-escaped double quotation marks
+	s = strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s)
 
 	if strings.Count(s, "\n") == 0 {
 		return s
-- 
2.43.0


From 5fffb02741dac2f1e43f2f0f4cb831002e9c0a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 07/42] fix: write plural forms in order and escaped in PO text

---
 domain.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/domain.go b/domain.go
index fa58026..4593d6b 100644
--- a/domain.go
+++ b/domain.go
@@ -773,9 +773,16 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		if trans.PluralID == "" {
 			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
 		} else {
-			buf.WriteString("\nmsgid_plural \"" + trans.PluralID + "\"")
-			for i, tr := range trans.Trs {
-				buf.WriteString("\nmsgstr[" + EscapeSpecialCharacters(strconv.Itoa(i)) + "] \"" + tr + "\"")
+			buf.WriteString("\nmsgid_plural \"" + EscapeSpecialCharacters(trans.PluralID) + "\"")
+
+			// Plural forms go in ascending order
+			forms := make([]int, 0, len(trans.Trs))
+			for i := range trans.Trs {
+				forms = append(forms, i)
+			}
+			sort.Ints(forms)
+			for _, i := range forms {
+				buf.WriteString("\nmsgstr[" + strconv.Itoa(i) + "] \"" + EscapeSpecialCharacters(trans.Trs[i]) + "\"")
 			}
 		}
 	}
-- 
2.43.0


From c508a6731e0baa57c8c4690bb4f96325411f8c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 08/42] fix: escape header values when writing PO text

---
 domain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index 4593d6b..7ed9e0a 100644
--- a/domain.go
+++ b/domain.go
@@ -680,7 +680,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		v := do.Headers[k]
 
 		for _, value := range v {
-			buf.WriteString("\n\"" + k + ": " + value + "\\n\"")
+			buf.WriteString("\n\"" + EscapeSpecialCharacters(k+": "+value) + "\\n\"")
 		}
 	}
 
-- 
2.43.0


From 46c68bd9a3e6f0d5eafe1e987ebbf37631d26e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 09/42] fix: keep the plural id given to SetN and SetNC

---
 domain.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain.go b/domain.go
index 7ed9e0a..0ec94c1 100644
--- a/domain.go
+++ b/domain.go
@@ -310,6 +310,7 @@ func (do *Domain) SetN(id, plural string, n int, str string) {
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[id]; ok {
+		trans.PluralID = plural
 		trans.SetN(pluralForm, str)
 	} else {
 		trans = NewTranslation()
@@ -438,16 +439,19 @@ func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
 
 	if context, ok := do.contextTranslations[ctx]; ok {
 		if trans, hasTrans := context[id]; hasTrans {
+			trans.PluralID = plural
 			trans.SetN(pluralForm, str)
 		} else {
 			trans = NewTranslation()
 			trans.ID = id
+			trans.PluralID = plural
 			trans.SetN(pluralForm, str)
 			context[id] = trans
 		}
 	} else {
 		trans := NewTranslation()
 		trans.ID = id
+		trans.PluralID = plural
 		trans.SetN(pluralForm, str)
 		do.contextTranslations[ctx] = map[string]*Translation{
 			id: trans,
-- 
2.43.0


From f09960511e3e23976e2398725bdd31927da4fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 10/42] fix: fall back to the given plural for an entry without
 a plural id

---
 domain.go      | 8 ++++----
 translation.go | 8 ++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/domain.go b/domain.go
index 0ec94c1..c663b18 100644
--- a/domain.go
+++ b/domain.go
@@ -330,7 +330,7 @@ func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].GetN(do.pluralForm(n)), vars...)
+			return FormatString(do.translations[str].getN(do.pluralForm(n), plural), vars...)
 		}
 	}
 
@@ -350,7 +350,7 @@ func (do *Domain) AppendN(b []byte, str, plural string, n int, vars ...interface
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].GetN(do.pluralForm(n)), vars...)
+			return Appendf(b, do.translations[str].getN(do.pluralForm(n), plural), vars...)
 		}
 	}
 
@@ -469,7 +469,7 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
+					return FormatString(do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
 				}
 			}
 		}
@@ -491,7 +491,7 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
+					return Appendf(b, do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
 				}
 			}
 		}
diff --git a/translation.go b/translation.go
index 2aa42f8..b23903d 100644
--- a/translation.go
+++ b/translation.go
@@ -84,6 +84,14 @@ func (t *Translation) GetN(n int) string {
 	return t.PluralID
 }
 
+// getN works like GetN, with a plural to return when the entry has none
+func (t *Translation) getN(n int, plural string) string {
+	if str := t.GetN(n); str != "" || n == 0 {
+		return str
+	}
+	return plural
+}
+
 // IsTranslated reports whether a string is translated
 func (t *Translation) IsTranslated() bool {
 	tr, ok := t.Trs[0]
-- 
2.43.0


From bf5a14f647a5d4178f66f063fec11da892279a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 11/42] fix: read the loaded domains of a locale under its lock

---
 gotext.go | 6 +++---
 locale.go | 8 ++++++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/gotext.go b/gotext.go
index 059403c..4559909 100644
--- a/gotext.go
+++ b/gotext.go
@@ -77,7 +77,7 @@ func loadLocales(rebuildCache bool) {
 	}
 
 	for _, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[globalConfig.domain]; !ok || rebuildCache {
+		if rebuildCache || !locale.hasDomain(globalConfig.domain) {
 			locale.AddDomain(globalConfig.domain)
 		}
 		locale.SetDomain(globalConfig.domain)
@@ -252,7 +252,7 @@ func GetD(dom, str string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[dom]; !ok {
+		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
 		if !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
@@ -275,7 +275,7 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[dom]; !ok {
+		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
 		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {
diff --git a/locale.go b/locale.go
index 381e560..d45c630 100644
--- a/locale.go
+++ b/locale.go
@@ -213,6 +213,14 @@ func (l *Locale) AddTranslator(dom string, tr Translator) {
 	l.Unlock()
 }
 
+// hasDomain reports whether a domain is loaded
+func (l *Locale) hasDomain(dom string) bool {
+	l.RLock()
+	defer l.RUnlock()
+	_, ok := l.Domains[dom]
+	return ok
+}
+
 // GetDomain is the domain getter for Locale configuration
 func (l *Locale) GetDomain() string {
 	l.RLock()
-- 
2.43.0


From 08bd7d12d34d20bb792bf6db8b12bb28b9a8d24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 12/42] fix: load the domain on demand for context lookups too

---
 gotext.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gotext.go b/gotext.go
index 4559909..fc9b3ed 100644
--- a/gotext.go
+++ b/gotext.go
@@ -310,6 +310,9 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range globalConfig.locales {
+		if !locale.hasDomain(dom) {
+			locale.AddDomain(dom)
+		}
 		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
@@ -331,6 +334,9 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 
 	var tr string
 	for i, locale := range globalConfig.locales {
+		if !locale.hasDomain(dom) {
+			locale.AddDomain(dom)
+		}
 		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
 			continue
 		}
-- 
2.43.0


From 4308eb4d1c072d4e23fe96d2174c15dc2524ee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 13/42] fix: package functions work before anything is
 configured

---
 gotext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gotext.go b/gotext.go
index fc9b3ed..04c7ac4 100644
--- a/gotext.go
+++ b/gotext.go
@@ -68,7 +68,7 @@ func init() {
 func loadLocales(rebuildCache bool) {
 	globalConfig.Lock()
 
-	if globalConfig.locales == nil || rebuildCache {
+	if len(globalConfig.locales) == 0 || rebuildCache {
 		var locales []*Locale
 		for _, language := range globalConfig.languages {
 			locales = append(locales, NewLocale(globalConfig.library, language))
@@ -90,7 +90,7 @@ func loadLocales(rebuildCache bool) {
 func GetDomain() string {
 	var dom string
 	globalConfig.RLock()
-	if globalConfig.locales != nil {
+	if len(globalConfig.locales) > 0 {
 		// All locales have the same domain
 		dom = globalConfig.locales[0].GetDomain()
 	}
-- 
2.43.0


From 669e17ed0dcea4033153e02db77d4e9e9eefe1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 14/42] fix: IsTranslated functions consider every locale of
 the given languages

---
 gotext.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gotext.go b/gotext.go
index 04c7ac4..11e6e88 100644
--- a/gotext.go
+++ b/gotext.go
@@ -380,10 +380,12 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 		lang = SimplifiedLocale(lang)
 
 		for _, supportedLocale := range globalConfig.locales {
-			if lang != supportedLocale.GetActualLanguage(dom) {
+			if lang != supportedLocale.GetLanguage() && lang != supportedLocale.GetActualLanguage(dom) {
 				continue
 			}
-			return supportedLocale.IsTranslatedND(dom, str, n)
+			if supportedLocale.IsTranslatedND(dom, str, n) {
+				return true
+			}
 		}
 	}
 	return false
@@ -423,10 +425,12 @@ func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
 		lang = SimplifiedLocale(lang)
 
 		for _, locale := range globalConfig.locales {
-			if lang != locale.GetActualLanguage(dom) {
+			if lang != locale.GetLanguage() && lang != locale.GetActualLanguage(dom) {
 				continue
 			}
-			return locale.IsTranslatedNDC(dom, str, n, ctx)
+			if locale.IsTranslatedNDC(dom, str, n, ctx) {
+				return true
+			}
 		}
 	}
 	return false
-- 
2.43.0


From 8c667dbb25f9d04b61420444522d6aa78ad9a85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 15/42] fix: IsTranslated functions load the domain on demand

---
 gotext.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gotext.go b/gotext.go
index 11e6e88..2e0cf5e 100644
--- a/gotext.go
+++ b/gotext.go
@@ -383,6 +383,9 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 			if lang != supportedLocale.GetLanguage() && lang != supportedLocale.GetActualLanguage(dom) {
 				continue
 			}
+			if !supportedLocale.hasDomain(dom) {
+				supportedLocale.AddDomain(dom)
+			}
 			if supportedLocale.IsTranslatedND(dom, str, n) {
 				return true
 			}
@@ -428,6 +431,9 @@ func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
 			if lang != locale.GetLanguage() && lang != locale.GetActualLanguage(dom) {
 				continue
 			}
+			if !locale.hasDomain(dom) {
+				locale.AddDomain(dom)
+			}
 			if locale.IsTranslatedNDC(dom, str, n, ctx) {
 				return true
 			}
-- 
2.43.0


From 50a5a4bf6f9e3fd2eb657f1564ef1d30e0c84591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 16/42] fix: IsTranslated looks at the same form as Get

---
 domain.go | 18 ++++++++++++++++--
 gotext.go | 49 +++++++++++++++++++------------------------------
 locale.go | 28 ++++++++++++++++++++++++----
 3 files changed, 59 insertions(+), 36 deletions(-)

diff --git a/domain.go b/domain.go
index c663b18..4b246fb 100644
--- a/domain.go
+++ b/domain.go
@@ -505,7 +505,14 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 
 // IsTranslated reports whether a string is translated
 func (do *Domain) IsTranslated(str string) bool {
-	return do.IsTranslatedN(str, 1)
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
+	if do.translations == nil {
+		return false
+	}
+	tr, ok := do.translations[str]
+	return ok && tr.IsTranslated()
 }
 
 // IsTranslatedN reports whether a plural string is translated
@@ -525,7 +532,14 @@ func (do *Domain) IsTranslatedN(str string, n int) bool {
 
 // IsTranslatedC reports whether a context string is translated
 func (do *Domain) IsTranslatedC(str, ctx string) bool {
-	return do.IsTranslatedNC(str, 1, ctx)
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
+	if do.contextTranslations == nil {
+		return false
+	}
+	tr, ok := do.contextTranslations[ctx][str]
+	return ok && tr.IsTranslated()
 }
 
 // IsTranslatedNC reports whether a plural context string is translated
diff --git a/gotext.go b/gotext.go
index 2e0cf5e..bc8d453 100644
--- a/gotext.go
+++ b/gotext.go
@@ -349,7 +349,7 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 // IsTranslated reports whether a string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslated(str string, langs ...string) bool {
-	return IsTranslatedND(GetDomain(), str, 1, langs...)
+	return IsTranslatedD(GetDomain(), str, langs...)
 }
 
 // IsTranslatedN reports whether a plural string is translated in given languages.
@@ -361,12 +361,21 @@ func IsTranslatedN(str string, n int, langs ...string) bool {
 // IsTranslatedD reports whether a domain string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedD(dom, str string, langs ...string) bool {
-	return IsTranslatedND(dom, str, 1, langs...)
+	return isTranslated(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedD(dom, str)
+	})
 }
 
 // IsTranslatedND reports whether a plural domain string is translated in any of given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedND(dom, str string, n int, langs ...string) bool {
+	return isTranslated(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedND(dom, str, n)
+	})
+}
+
+// isTranslated reports whether check holds for the locale of any of given languages
+func isTranslated(dom string, langs []string, check func(locale *Locale) bool) bool {
 	if len(langs) == 0 {
 		langs = GetLanguages()
 	}
@@ -386,7 +395,7 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 			if !supportedLocale.hasDomain(dom) {
 				supportedLocale.AddDomain(dom)
 			}
-			if supportedLocale.IsTranslatedND(dom, str, n) {
+			if check(supportedLocale) {
 				return true
 			}
 		}
@@ -397,7 +406,7 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 // IsTranslatedC reports whether a context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedC(str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(GetDomain(), str, 1, ctx, langs...)
+	return IsTranslatedDC(GetDomain(), str, ctx, langs...)
 }
 
 // IsTranslatedNC reports whether a plural context string is translated in given languages.
@@ -409,35 +418,15 @@ func IsTranslatedNC(str string, n int, ctx string, langs ...string) bool {
 // IsTranslatedDC reports whether a domain context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedDC(dom, str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(dom, str, 0, ctx, langs...)
+	return isTranslated(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedDC(dom, str, ctx)
+	})
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated in any of given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
-	if len(langs) == 0 {
-		langs = GetLanguages()
-	}
-
-	loadLocales(false)
-
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
-	for _, lang := range langs {
-		lang = SimplifiedLocale(lang)
-
-		for _, locale := range globalConfig.locales {
-			if lang != locale.GetLanguage() && lang != locale.GetActualLanguage(dom) {
-				continue
-			}
-			if !locale.hasDomain(dom) {
-				locale.AddDomain(dom)
-			}
-			if locale.IsTranslatedNDC(dom, str, n, ctx) {
-				return true
-			}
-		}
-	}
-	return false
+	return isTranslated(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedNDC(dom, str, n, ctx)
+	})
 }
diff --git a/locale.go b/locale.go
index d45c630..c8c86ad 100644
--- a/locale.go
+++ b/locale.go
@@ -365,7 +365,7 @@ func (l *Locale) GetTranslations() map[string]*Translation {
 
 // IsTranslated reports whether a string is translated
 func (l *Locale) IsTranslated(str string) bool {
-	return l.IsTranslatedND(l.GetDomain(), str, 1)
+	return l.IsTranslatedD(l.GetDomain(), str)
 }
 
 // IsTranslatedN reports whether a plural string is translated
@@ -375,7 +375,17 @@ func (l *Locale) IsTranslatedN(str string, n int) bool {
 
 // IsTranslatedD reports whether a domain string is translated
 func (l *Locale) IsTranslatedD(dom, str string) bool {
-	return l.IsTranslatedND(dom, str, 1)
+	l.RLock()
+	defer l.RUnlock()
+
+	if l.Domains == nil {
+		return false
+	}
+	translator, ok := l.Domains[dom]
+	if !ok {
+		return false
+	}
+	return translator.GetDomain().IsTranslated(str)
 }
 
 // IsTranslatedND reports whether a plural domain string is translated
@@ -395,7 +405,7 @@ func (l *Locale) IsTranslatedND(dom, str string, n int) bool {
 
 // IsTranslatedC reports whether a context string is translated
 func (l *Locale) IsTranslatedC(str, ctx string) bool {
-	return l.IsTranslatedNDC(l.GetDomain(), str, 1, ctx)
+	return l.IsTranslatedDC(l.GetDomain(), str, ctx)
 }
 
 // IsTranslatedNC reports whether a plural context string is translated
@@ -405,7 +415,17 @@ func (l *Locale) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // IsTranslatedDC reports whether a domain context string is translated
 func (l *Locale) IsTranslatedDC(dom, str, ctx string) bool {
-	return l.IsTranslatedNDC(dom, str, 1, ctx)
+	l.RLock()
+	defer l.RUnlock()
+
+	if l.Domains == nil {
+		return false
+	}
+	translator, ok := l.Domains[dom]
+	if !ok {
+		return false
+	}
+	return translator.GetDomain().IsTranslatedC(str, ctx)
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated
-- 
2.43.0


From e71da6e754d7ffa9e2881b3a00c1f6389a7bf28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 17/42] fix: hold the locks in every Domain and Locale method
 that touches guarded state

---
 domain.go | 22 ++++++++++++++++++----
 locale.go |  6 ++++++
 po.go     |  2 +-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/domain.go b/domain.go
index 4b246fb..4ce6257 100644
--- a/domain.go
+++ b/domain.go
@@ -101,6 +101,9 @@ func NewDomain() *Domain {
 
 // SetPluralResolver sets a custom plural resolver function
 func (do *Domain) SetPluralResolver(f func(int) int) {
+	do.pluralMutex.Lock()
+	defer do.pluralMutex.Unlock()
+
 	do.customPluralResolver = f
 }
 
@@ -563,11 +566,11 @@ func (do *Domain) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // GetTranslations returns a copy of every translation in the domain. It does not support contexts.
 func (do *Domain) GetTranslations() map[string]*Translation {
-	all := make(map[string]*Translation, len(do.translations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]*Translation, len(do.translations))
+
 	for msgID, trans := range do.translations {
 		newTrans := NewTranslation()
 		newTrans.ID = trans.ID
@@ -588,11 +591,11 @@ func (do *Domain) GetTranslations() map[string]*Translation {
 
 // GetCtxTranslations returns a copy of every translation in the domain with context
 func (do *Domain) GetCtxTranslations() map[string]map[string]*Translation {
-	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
+
 	for ctx, translations := range do.contextTranslations {
 		for msgID, trans := range translations {
 			newTrans := NewTranslation()
@@ -644,6 +647,9 @@ func extractPathAndLine(ref string) (string, int) {
 // MarshalText implements encoding.TextMarshaler interface
 // Assists round-trip of POT/PO content
 func (do *Domain) MarshalText() ([]byte, error) {
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
 	var buf bytes.Buffer
 	if len(do.headerComments) > 0 {
 		buf.WriteString(strings.Join(do.headerComments, "\n"))
@@ -847,6 +853,9 @@ func EscapeSpecialCharacters(s string) string {
 
 // MarshalBinary implements encoding.BinaryMarshaler interface
 func (do *Domain) MarshalBinary() ([]byte, error) {
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
 	obj := new(TranslatorEncoding)
 	obj.Headers = do.Headers
 	obj.Language = do.Language
@@ -874,6 +883,11 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	do.trMutex.Lock()
+	do.pluralMutex.Lock()
+	defer do.trMutex.Unlock()
+	defer do.pluralMutex.Unlock()
+
 	do.Headers = obj.Headers
 	do.Language = obj.Language
 	do.PluralForms = obj.PluralForms
diff --git a/locale.go b/locale.go
index c8c86ad..61a0447 100644
--- a/locale.go
+++ b/locale.go
@@ -453,6 +453,9 @@ type LocaleEncoding struct {
 
 // MarshalBinary implements encoding BinaryMarshaler interface
 func (l *Locale) MarshalBinary() ([]byte, error) {
+	l.RLock()
+	defer l.RUnlock()
+
 	obj := new(LocaleEncoding)
 	obj.DefaultDomain = l.defaultDomain
 	obj.Domains = make(map[string][]byte)
@@ -484,6 +487,9 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	l.Lock()
+	defer l.Unlock()
+
 	l.defaultDomain = obj.DefaultDomain
 	l.lang = obj.Lang
 	l.path = obj.Path
diff --git a/po.go b/po.go
index e70eb87..8b00825 100644
--- a/po.go
+++ b/po.go
@@ -94,7 +94,7 @@ func (po *Po) GetRefs(str string) []string {
 
 // SetPluralResolver sets the plural resolver function
 func (po *Po) SetPluralResolver(f func(int) int) {
-	po.domain.customPluralResolver = f
+	po.domain.SetPluralResolver(f)
 }
 
 // Set translation
-- 
2.43.0


From 7b77327fc194a368f73935803cbea1d20b7e0c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 18/42] fix: SetLocales accepts an empty list

---
 gotext.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gotext.go b/gotext.go
index bc8d453..e36766b 100644
--- a/gotext.go
+++ b/gotext.go
@@ -194,12 +194,15 @@ func SetLocales(locales []*Locale) {
 	defer globalConfig.Unlock()
 
 	globalConfig.locales = locales
+	if len(locales) == 0 {
+		return
+	}
 	globalConfig.library = locales[0].path
-	globalConfig.domain = locales[0].defaultDomain
+	globalConfig.domain = locales[0].GetDomain()
 
 	var languages []string
 	for _, locale := range locales {
-		languages = append(languages, locale.lang)
+		languages = append(languages, locale.GetLanguage())
 	}
 	globalConfig.languages = languages
 }
-- 
2.43.0


From f06171e45fe35b80c3cef8ab4f50c2e40d10e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 19/42] fix: binary decoding restores the plural rule, headers
 and empty maps

---
 domain.go     | 21 +++++++++++++++++++--
 mo.go         | 10 +++++++++-
 po.go         | 10 +++++++++-
 translator.go | 12 ++++--------
 4 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/domain.go b/domain.go
index 4ce6257..8267363 100644
--- a/domain.go
+++ b/domain.go
@@ -883,6 +883,13 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	do.decode(obj)
+
+	return nil
+}
+
+// decode replaces the content of the domain
+func (do *Domain) decode(obj *TranslatorEncoding) {
 	do.trMutex.Lock()
 	do.pluralMutex.Lock()
 	defer do.trMutex.Unlock()
@@ -896,9 +903,19 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 	do.translations = obj.Translations
 	do.contextTranslations = obj.Contexts
 
+	// Empty maps are not encoded
+	if do.Headers == nil {
+		do.Headers = make(HeaderMap)
+	}
+	if do.translations == nil {
+		do.translations = make(map[string]*Translation)
+	}
+	if do.contextTranslations == nil {
+		do.contextTranslations = make(map[string]map[string]*Translation)
+	}
+
+	do.pluralforms = nil
 	if expr, err := plurals.Compile(do.plural); err == nil {
 		do.pluralforms = expr
 	}
-
-	return nil
 }
diff --git a/mo.go b/mo.go
index 389deba..7c5904a 100644
--- a/mo.go
+++ b/mo.go
@@ -142,7 +142,15 @@ func (mo *Mo) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary unmarshals the Mo object from a binary format
 func (mo *Mo) UnmarshalBinary(data []byte) error {
-	return mo.domain.UnmarshalBinary(data)
+	if err := mo.domain.UnmarshalBinary(data); err != nil {
+		return err
+	}
+
+	mo.Headers = mo.domain.Headers
+	mo.Language = mo.domain.Language
+	mo.PluralForms = mo.domain.PluralForms
+
+	return nil
 }
 
 // ParseFile loads the translations specified in the provided file, in the GNU gettext .mo format
diff --git a/po.go b/po.go
index 8b00825..99e76e7 100644
--- a/po.go
+++ b/po.go
@@ -189,7 +189,15 @@ func (po *Po) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary unmarshals the Po object from binary
 func (po *Po) UnmarshalBinary(data []byte) error {
-	return po.domain.UnmarshalBinary(data)
+	if err := po.domain.UnmarshalBinary(data); err != nil {
+		return err
+	}
+
+	po.Headers = po.domain.Headers
+	po.Language = po.domain.Language
+	po.PluralForms = po.domain.PluralForms
+
+	return nil
 }
 
 // ParseFile loads the translations from a file
diff --git a/translator.go b/translator.go
index e32e3ab..01108fb 100644
--- a/translator.go
+++ b/translator.go
@@ -63,14 +63,10 @@ type TranslatorEncoding struct {
 // deserialize into a Po-compatible object.
 func (te *TranslatorEncoding) GetTranslator() Translator {
 	po := NewPo()
-	po.domain = NewDomain()
-	po.domain.Headers = te.Headers
-	po.domain.Language = te.Language
-	po.domain.PluralForms = te.PluralForms
-	po.domain.nplurals = te.Nplurals
-	po.domain.plural = te.Plural
-	po.domain.translations = te.Translations
-	po.domain.contextTranslations = te.Contexts
+	po.domain.decode(te)
+	po.Headers = po.domain.Headers
+	po.Language = po.domain.Language
+	po.PluralForms = po.domain.PluralForms
 
 	return po
 }
-- 
2.43.0


From 98fc8a70e6268a83f9883ad878ba2d3af4c32e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 20/42] fix: msgctxt does not save an empty entry in its
 context

---
 po.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/po.go b/po.go
index 99e76e7..cddea9a 100644
--- a/po.go
+++ b/po.go
@@ -250,7 +250,7 @@ func (po *Po) Parse(buf []byte) {
 
 		// Buffer msgid and continue
 		if strings.HasPrefix(l, "msgid") && !strings.HasPrefix(l, "msgid_plural") {
-			po.parseID(l)
+			po.parseID(l, state)
 			state = msgID
 			continue
 		}
@@ -346,9 +346,11 @@ func (po *Po) parseContext(l string) {
 
 // parseID takes a line starting with "msgid",
 // saves the current Translation and creates a new msgid buffer.
-func (po *Po) parseID(l string) {
-	// Save current Translation buffer.
-	po.saveBuffer()
+func (po *Po) parseID(l string, state parseState) {
+	// Save current Translation buffer, unless parseContext already did.
+	if state != msgCtxt {
+		po.saveBuffer()
+	}
 
 	// Set id
 	po.domain.trBuffer.ID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
-- 
2.43.0


From 19c8ef73f6f0907958148acb4d50d2cedc215454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 21/42] fix: the context of an entry with an empty id does not
 leak into the next entry

---
 po.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/po.go b/po.go
index cddea9a..a0d0f28 100644
--- a/po.go
+++ b/po.go
@@ -303,10 +303,8 @@ func (po *Po) saveBuffer() {
 		}
 		po.domain.contextTranslations[po.domain.ctxBuffer][po.domain.trBuffer.ID] = po.domain.trBuffer
 
-		// Cleanup current context buffer if needed
-		if po.domain.trBuffer.ID != "" {
-			po.domain.ctxBuffer = ""
-		}
+		// Cleanup current context buffer
+		po.domain.ctxBuffer = ""
 	}
 
 	// Flush Translation buffer
-- 
2.43.0


From 2f63aee466167966a6c5d190b0d7689772b3c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 22/42] fix: keep all the source references of an entry and
 only those

---
 po.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/po.go b/po.go
index a0d0f28..d412e48 100644
--- a/po.go
+++ b/po.go
@@ -311,7 +311,8 @@ func (po *Po) saveBuffer() {
 	if po.domain.refBuffer == "" {
 		po.domain.trBuffer = NewTranslation()
 	} else {
-		po.domain.trBuffer = NewTranslationWithRefs(strings.Split(po.domain.refBuffer, " "))
+		po.domain.trBuffer = NewTranslationWithRefs(strings.Fields(po.domain.refBuffer))
+		po.domain.refBuffer = ""
 	}
 }
 
@@ -325,7 +326,7 @@ func (po *Po) parseComment(l string, state parseState) {
 			switch l[1] {
 			case ':':
 				if len(l) > 2 {
-					po.domain.refBuffer = strings.TrimSpace(l[2:])
+					po.domain.refBuffer += " " + strings.TrimSpace(l[2:])
 				}
 			}
 		}
-- 
2.43.0


From 7438b3e1df5a9e3893d23cf77d452ce81c64dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 23/42] fix: check the sizes and offsets of MO files against
 their length

---
 mo.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/mo.go b/mo.go
index 7c5904a..20e9d05 100644
--- a/mo.go
+++ b/mo.go
@@ -211,6 +211,12 @@ func (mo *Mo) Parse(buf []byte) {
 		// return fmt.Errorf("gettext: %v", "invalid version number")
 	}
 
+	// Every string takes 8 bytes in each table
+	if int64(header.MsgIDCount)*8 > int64(len(buf)) {
+		return
+		// return fmt.Errorf("gettext: %v", "invalid string count")
+	}
+
 	msgIDStart := make([]uint32, header.MsgIDCount)
 	msgIDLen := make([]uint32, header.MsgIDCount)
 	if _, err := r.Seek(int64(header.MsgIDOffset), 0); err != nil {
@@ -228,8 +234,8 @@ func (mo *Mo) Parse(buf []byte) {
 		}
 	}
 
-	msgStrStart := make([]int32, header.MsgIDCount)
-	msgStrLen := make([]int32, header.MsgIDCount)
+	msgStrStart := make([]uint32, header.MsgIDCount)
+	msgStrLen := make([]uint32, header.MsgIDCount)
 	if _, err := r.Seek(int64(header.MsgStrOffset), 0); err != nil {
 		return
 		// return fmt.Errorf("gettext: %v", err)
@@ -246,25 +252,14 @@ func (mo *Mo) Parse(buf []byte) {
 	}
 
 	for i := 0; i < int(header.MsgIDCount); i++ {
-		if _, err := r.Seek(int64(msgIDStart[i]), 0); err != nil {
-			return
-			// return fmt.Errorf("gettext: %v", err)
-		}
-		msgIDData := make([]byte, msgIDLen[i])
-		if _, err := r.Read(msgIDData); err != nil {
-			return
-			// return fmt.Errorf("gettext: %v", err)
-		}
-
-		if _, err := r.Seek(int64(msgStrStart[i]), 0); err != nil {
+		msgIDEnd := int64(msgIDStart[i]) + int64(msgIDLen[i])
+		msgStrEnd := int64(msgStrStart[i]) + int64(msgStrLen[i])
+		if msgIDEnd > int64(len(buf)) || msgStrEnd > int64(len(buf)) {
 			return
-			// return fmt.Errorf("gettext: %v", err)
-		}
-		msgStrData := make([]byte, msgStrLen[i])
-		if _, err := r.Read(msgStrData); err != nil {
-			return
-			// return fmt.Errorf("gettext: %v", err)
+			// return fmt.Errorf("gettext: %v", "string out of bounds")
 		}
+		msgIDData := buf[msgIDStart[i]:msgIDEnd]
+		msgStrData := buf[msgStrStart[i]:msgStrEnd]
 
 		if len(msgIDData) == 0 {
 			mo.addTranslation(msgIDData, msgStrData)
-- 
2.43.0


From a9aaded8b1c95ec0217a890301829da7f8abd7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 24/42] fix: a singular MO entry has no plural id

---
 mo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mo.go b/mo.go
index 20e9d05..92d1033 100644
--- a/mo.go
+++ b/mo.go
@@ -293,12 +293,11 @@ func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 	dd := bytes.Split(msgid, []byte(NulSeparator))
 	if len(dd) > 1 {
 		msgid = dd[0]
-		dd = dd[1:]
+		msgidPlural = bytes.Join(dd[1:], []byte(NulSeparator))
 	}
 
 	translation.ID = string(msgid)
 
-	msgidPlural = bytes.Join(dd, []byte(NulSeparator))
 	if len(msgidPlural) > 0 {
 		translation.PluralID = string(msgidPlural)
 	}
-- 
2.43.0


From f0db363afaf5238dbb4193ab8d26206a5d656ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 25/42] fix: GetActualLanguage prefers the file that AddDomain
 loads

---
 locale.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/locale.go b/locale.go
index 61a0447..97939a2 100644
--- a/locale.go
+++ b/locale.go
@@ -121,7 +121,7 @@ func (l *Locale) findExt(dom, ext string) string {
 // GetActualLanguage inspects the filesystem and decides whether to strip
 // a CC part of the ll_CC locale string.
 func (l *Locale) GetActualLanguage(dom string) string {
-	extensions := []string{"mo", "po"}
+	extensions := []string{"po", "mo"} // same order as AddDomain
 	var fp string
 	for _, ext := range extensions {
 		// 'll' (or 'll_CC') exists, and it was specified as-is
-- 
2.43.0


From c7af57910a5efc0006447026113e4a1020650dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 26/42] fix: languages with a three-letter code fall back to
 that code

---
 locale.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/locale.go b/locale.go
index 97939a2..529a33a 100644
--- a/locale.go
+++ b/locale.go
@@ -11,6 +11,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"strings"
 	"sync"
 )
 
@@ -90,14 +91,22 @@ func NewLocaleFSWithPath(l string, filesystem fs.FS, p string) *Locale {
 	return loc
 }
 
+// baseLanguage returns the 'll' part of a ll_CC locale string.
+func (l *Locale) baseLanguage() string {
+	if idx := strings.IndexAny(l.lang, "_-"); idx > 0 {
+		return l.lang[:idx]
+	}
+	return l.lang
+}
+
 func (l *Locale) findExt(dom, ext string) string {
 	filename := path.Join(l.path, l.lang, "LC_MESSAGES", dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
 	}
 
-	if len(l.lang) > 2 {
-		filename = path.Join(l.path, l.lang[:2], "LC_MESSAGES", dom+"."+ext)
+	if base := l.baseLanguage(); base != l.lang {
+		filename = path.Join(l.path, base, "LC_MESSAGES", dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
@@ -108,8 +117,8 @@ func (l *Locale) findExt(dom, ext string) string {
 		return filename
 	}
 
-	if len(l.lang) > 2 {
-		filename = path.Join(l.path, l.lang[:2], dom+"."+ext)
+	if base := l.baseLanguage(); base != l.lang {
+		filename = path.Join(l.path, base, dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
@@ -130,10 +139,10 @@ func (l *Locale) GetActualLanguage(dom string) string {
 			return l.lang
 		}
 		// 'll' exists, but 'll_CC' was specified
-		if len(l.lang) > 2 {
-			fp = path.Join(l.path, l.lang[:2], "LC_MESSAGES", dom+"."+ext)
+		if base := l.baseLanguage(); base != l.lang {
+			fp = path.Join(l.path, base, "LC_MESSAGES", dom+"."+ext)
 			if l.fileExists(fp) {
-				return l.lang[:2]
+				return base
 			}
 		}
 		// 'll' (or 'll_CC') exists outside of LC_category, and it was specified as-is
@@ -142,10 +151,10 @@ func (l *Locale) GetActualLanguage(dom string) string {
 			return l.lang
 		}
 		// 'll' exists outside of LC_category, but 'll_CC' was specified
-		if len(l.lang) > 2 {
-			fp = path.Join(l.path, l.lang[:2], dom+"."+ext)
+		if base := l.baseLanguage(); base != l.lang {
+			fp = path.Join(l.path, base, dom+"."+ext)
 			if l.fileExists(fp) {
-				return l.lang[:2]
+				return base
 			}
 		}
 	}
-- 
2.43.0


From 26c5ae700da3826beea0ee1700540b0dd44cf1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 27/42] fix: SetRefs keeps an existing translation from being
 dropped as stale

---
 domain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index 8267363..008e81e 100644
--- a/domain.go
+++ b/domain.go
@@ -229,7 +229,7 @@ func (do *Domain) SetRefs(str string, refs []string) {
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[str]; ok {
-		trans.Refs = refs
+		trans.SetRefs(refs)
 	} else {
 		trans = NewTranslation()
 		trans.ID = str
-- 
2.43.0


From dd3c0ef3a6d6df674e6f9a3908e617dead26d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 28/42] fix: GetNC falls back by the plural rule like GetN

---
 domain.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index 008e81e..3437e71 100644
--- a/domain.go
+++ b/domain.go
@@ -478,7 +478,8 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 		}
 	}
 
-	if n == 1 {
+	// Parse plural forms to distinguish between plural and singular
+	if do.pluralForm(n) == 0 {
 		return FormatString(str, vars...)
 	}
 	return FormatString(plural, vars...)
@@ -500,7 +501,8 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 		}
 	}
 
-	if n == 1 {
+	// Parse plural forms to distinguish between plural and singular
+	if do.pluralForm(n) == 0 {
 		return Appendf(b, str, vars...)
 	}
 	return Appendf(b, plural, vars...)
-- 
2.43.0


From 4dad3ac0f4426553548bc852cd85ca419c41fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 29/42] fix: xgotext does not crash on a domain that is not a
 literal

---
 cli/xgotext/parser/gofile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 9e93dbc..0c42507 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -155,6 +155,11 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 	// get domain
 	var domain string
 	if def.Domain != -1 {
+		// domain must be a string
+		if args[def.Domain] == nil || args[def.Domain].Kind != token.STRING {
+			log.Printf("ERR: Unsupported call at %s (Domain not a string)", pos)
+			return
+		}
 		domain, _ = strconv.Unquote(args[def.Domain].Value)
 	}
 
-- 
2.43.0


From c30eea376cee0050f792c7c984f6f8caed2f551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 30/42] fix: xgotext writes contexts in PO syntax whatever the
 Go literal

---
 cli/xgotext/parser/gofile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 0c42507..2e086cc 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -189,7 +189,8 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 			log.Printf("ERR: Unsupported call at %s (Context not a string)", pos)
 			return
 		}
-		trans.Context = args[def.Context].Value
+		context, _ := strconv.Unquote(args[def.Context].Value)
+		trans.Context = formatMultiline(fixSpecialChars(context))
 	}
 
 	g.Data.AddTranslation(domain, &trans)
-- 
2.43.0


From e59339981ed75bcc7e6acb0ef4da8f3cdd96f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 31/42] fix: xgotext keeps the plural of an id first seen
 without one

---
 cli/xgotext/parser/domain.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/domain.go b/cli/xgotext/parser/domain.go
index 35146ad..ec6c587 100644
--- a/cli/xgotext/parser/domain.go
+++ b/cli/xgotext/parser/domain.go
@@ -25,6 +25,14 @@ func (t *Translation) AddLocations(locations []string) {
 	}
 }
 
+// merge another occurrence of the same translation
+func (t *Translation) merge(other *Translation) {
+	t.AddLocations(other.SourceLocations)
+	if t.MsgIDPlural == "" {
+		t.MsgIDPlural = other.MsgIDPlural
+	}
+}
+
 // Dump translation as string
 func (t *Translation) Dump() string {
 	data := make([]string, 0, len(t.SourceLocations)+5)
@@ -130,7 +138,7 @@ func (d *Domain) AddTranslation(translation *Translation) {
 
 	if translation.Context == "" {
 		if t, ok := d.Translations[translation.MsgID]; ok {
-			t.AddLocations(translation.SourceLocations)
+			t.merge(translation)
 		} else {
 			d.Translations[translation.MsgID] = translation
 		}
@@ -140,7 +148,7 @@ func (d *Domain) AddTranslation(translation *Translation) {
 		}
 
 		if t, ok := d.ContextTranslations[translation.Context][translation.MsgID]; ok {
-			t.AddLocations(translation.SourceLocations)
+			t.merge(translation)
 		} else {
 			d.ContextTranslations[translation.Context][translation.MsgID] = translation
 		}
-- 
2.43.0


From 75f3a5e92dff514028a86ed5ab36d94f51176643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 32/42] fix: xgotext excludes only the listed directories

---
 cli/xgotext/parser/dir/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/dir/parser.go b/cli/xgotext/parser/dir/parser.go
index 9f92c27..7c42d0c 100644
--- a/cli/xgotext/parser/dir/parser.go
+++ b/cli/xgotext/parser/dir/parser.go
@@ -50,7 +50,7 @@ func ParseDirRec(dirPath string, exclude []string, data *parser.DomainMap, verbo
 			// skip directory if in exclude list
 			subDir, _ := filepath.Rel(dirPath, path)
 			for _, d := range exclude {
-				if strings.HasPrefix(subDir, d) {
+				if subDir == d || strings.HasPrefix(subDir, d+string(filepath.Separator)) {
 					return nil
 				}
 			}
-- 
2.43.0


From 13020c0e1ed233857d9a36063bc7bac22c6a0333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 33/42] fix: xgotext does not write an empty id over the header

---
 cli/xgotext/parser/gofile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 2e086cc..602ea24 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -170,6 +170,11 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 	}
 
 	msgID, _ := strconv.Unquote(args[def.ID].Value)
+	if msgID == "" {
+		// the empty ID is the header of the file
+		log.Printf("ERR: Unsupported call at %s (empty ID)", pos)
+		return
+	}
 	trans := Translation{
 		MsgID:           msgID,
 		SourceLocations: []string{pos},
-- 
2.43.0


From 1c13f74d3f3407655799827a525b7dcedb8cbd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:39 +0000
Subject: [PATCH 34/42] fix: continuation lines go to the plural form they
 follow

---
 domain.go |  1 +
 po.go     | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/domain.go b/domain.go
index 3437e71..90fe543 100644
--- a/domain.go
+++ b/domain.go
@@ -44,6 +44,7 @@ type Domain struct {
 	trBuffer  *Translation
 	ctxBuffer string
 	refBuffer string
+	strBuffer int // index of the form being parsed
 
 	customPluralResolver func(int) int
 }
diff --git a/po.go b/po.go
index d412e48..75027d7 100644
--- a/po.go
+++ b/po.go
@@ -363,6 +363,7 @@ func (po *Po) parsePluralID(l string) {
 // parseMessage takes a line starting with "msgstr" and saves it into the current buffer.
 func (po *Po) parseMessage(l string) {
 	l = strings.TrimSpace(strings.TrimPrefix(l, "msgstr"))
+	po.domain.strBuffer = -1
 
 	// Check for indexed Translation forms
 	if strings.HasPrefix(l, "[") {
@@ -374,12 +375,13 @@ func (po *Po) parseMessage(l string) {
 
 		// Parse index
 		i, err := strconv.Atoi(l[1:idx])
-		if err != nil {
+		if err != nil || i < 0 {
 			// Skip wrong index formatting
 			return
 		}
 
 		// Parse Translation string
+		po.domain.strBuffer = i
 		po.domain.trBuffer.Trs[i], _ = strconv.Unquote(strings.TrimSpace(l[idx+1:]))
 
 		// Loop
@@ -387,6 +389,7 @@ func (po *Po) parseMessage(l string) {
 	}
 
 	// Save single Translation form under 0 index
+	po.domain.strBuffer = 0
 	po.domain.trBuffer.Trs[0], _ = strconv.Unquote(l)
 }
 
@@ -397,8 +400,10 @@ func (po *Po) parseString(l string, state parseState) {
 
 	switch state {
 	case msgStr:
-		// Append to last Translation found
-		po.domain.trBuffer.Trs[len(po.domain.trBuffer.Trs)-1] += clean
+		// Append to last Translation found, if its index was right
+		if po.domain.strBuffer >= 0 {
+			po.domain.trBuffer.Trs[po.domain.strBuffer] += clean
+		}
 
 	case msgID:
 		// Multiline msgid - Append to current id
-- 
2.43.0


From 61ba92a7189d1b910d1271f15b534309b94a9d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:09 +0000
Subject: [PATCH 35/42] fix: UnmarshalBinary of Po and Mo updates the public
 headers under the lock

---
 mo.go | 3 +++
 po.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mo.go b/mo.go
index 92d1033..34af43a 100644
--- a/mo.go
+++ b/mo.go
@@ -146,6 +146,9 @@ func (mo *Mo) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	mo.domain.trMutex.Lock()
+	defer mo.domain.trMutex.Unlock()
+
 	mo.Headers = mo.domain.Headers
 	mo.Language = mo.domain.Language
 	mo.PluralForms = mo.domain.PluralForms
diff --git a/po.go b/po.go
index 75027d7..9cff7af 100644
--- a/po.go
+++ b/po.go
@@ -193,6 +193,9 @@ func (po *Po) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	po.domain.trMutex.Lock()
+	defer po.domain.trMutex.Unlock()
+
 	po.Headers = po.domain.Headers
 	po.Language = po.domain.Language
 	po.PluralForms = po.domain.PluralForms
-- 
2.43.0


From 3d6366ad92a7089fc475f54029c2dbc157991c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:40 +0000
Subject: [PATCH 36/42] fix: SetN and SetNC pick the plural form under the
 translations lock

---
 domain.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/domain.go b/domain.go
index 90fe543..c4ac03c 100644
--- a/domain.go
+++ b/domain.go
@@ -305,12 +305,14 @@ func (do *Domain) Append(b []byte, str string, vars ...interface{}) []byte {
 
 // SetN sets the (N)th plural form for the given string
 func (do *Domain) SetN(id, plural string, n int, str string) {
-	// Get plural form _before_ lock down
+	do.trMutex.Lock()
+	defer do.trMutex.Unlock()
+
+	// Get the plural form before locking the plural rule, but under the translations
+	// lock: the catalogue must not be replaced in between
 	pluralForm := do.pluralForm(n)
 
-	do.trMutex.Lock()
 	do.pluralMutex.Lock()
-	defer do.trMutex.Unlock()
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[id]; ok {
@@ -433,12 +435,14 @@ func (do *Domain) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte
 
 // SetNC sets the (N)th plural form for the given string in the given context
 func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
-	// Get plural form _before_ lock down
+	do.trMutex.Lock()
+	defer do.trMutex.Unlock()
+
+	// Get the plural form before locking the plural rule, but under the translations
+	// lock: the catalogue must not be replaced in between
 	pluralForm := do.pluralForm(n)
 
-	do.trMutex.Lock()
 	do.pluralMutex.Lock()
-	defer do.trMutex.Unlock()
 	defer do.pluralMutex.Unlock()
 
 	if context, ok := do.contextTranslations[ctx]; ok {
-- 
2.43.0


From 85a3145654a960c389e645f83a6272c479f9a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 37/42] fix: the path and language of a Locale are read under
 its lock

---
 gotext.go |  2 +-
 locale.go | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/gotext.go b/gotext.go
index e36766b..894cf59 100644
--- a/gotext.go
+++ b/gotext.go
@@ -197,7 +197,7 @@ func SetLocales(locales []*Locale) {
 	if len(locales) == 0 {
 		return
 	}
-	globalConfig.library = locales[0].path
+	globalConfig.library = locales[0].location().path
 	globalConfig.domain = locales[0].GetDomain()
 
 	var languages []string
diff --git a/locale.go b/locale.go
index 529a33a..68f882d 100644
--- a/locale.go
+++ b/locale.go
@@ -99,7 +99,16 @@ func (l *Locale) baseLanguage() string {
 	return l.lang
 }
 
+// location returns a copy of the settings that tell where the files of the locale are,
+// to be read without holding its lock.
+func (l *Locale) location() *Locale {
+	l.RLock()
+	defer l.RUnlock()
+	return &Locale{path: l.path, lang: l.lang, fs: l.fs}
+}
+
 func (l *Locale) findExt(dom, ext string) string {
+	l = l.location()
 	filename := path.Join(l.path, l.lang, "LC_MESSAGES", dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
@@ -130,6 +139,7 @@ func (l *Locale) findExt(dom, ext string) string {
 // GetActualLanguage inspects the filesystem and decides whether to strip
 // a CC part of the ll_CC locale string.
 func (l *Locale) GetActualLanguage(dom string) string {
+	l = l.location()
 	extensions := []string{"po", "mo"} // same order as AddDomain
 	var fp string
 	for _, ext := range extensions {
-- 
2.43.0


From 75ea12758a9b2aed147f63baaddf353fddd330ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 38/42] fix: loading locales releases the package lock when a
 file system panics

---
 gotext.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gotext.go b/gotext.go
index 894cf59..2d68733 100644
--- a/gotext.go
+++ b/gotext.go
@@ -67,6 +67,7 @@ func init() {
 // It is called when trying to use Get or GetD methods.
 func loadLocales(rebuildCache bool) {
 	globalConfig.Lock()
+	defer globalConfig.Unlock()
 
 	if len(globalConfig.locales) == 0 || rebuildCache {
 		var locales []*Locale
@@ -82,8 +83,6 @@ func loadLocales(rebuildCache bool) {
 		}
 		locale.SetDomain(globalConfig.domain)
 	}
-
-	globalConfig.Unlock()
 }
 
 // GetDomain is the domain getter for the package configuration
-- 
2.43.0


From 422768c6b5df897d8f450dc3323c97fad73b3441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:43 +0000
Subject: [PATCH 39/42] fix: a percent sign written as %% does not start a
 named verb

---
 helper.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/helper.go b/helper.go
index 1e6a610..905c489 100644
--- a/helper.go
+++ b/helper.go
@@ -11,7 +11,7 @@ import (
 	"strings"
 )
 
-var re = regexp.MustCompile(`%\(([a-zA-Z0-9_]+)\)[.0-9]*[svTtbcdoqXxUeEfFgGp]`)
+var re = regexp.MustCompile(`%%|%\(([a-zA-Z0-9_]+)\)[.0-9]*[svTtbcdoqXxUeEfFgGp]`)
 
 // SimplifiedLocale simplified locale like " en_US"/"de_DE "/en_US.UTF-8/zh_CN/zh_TW/el_GR@euro/... to en_US, de_DE, zh_CN, el_GR...
 func SimplifiedLocale(lang string) string {
@@ -81,11 +81,17 @@ func reformatSprintf(f string) (string, []string) {
 
 	ord := []string{}
 	for _, v := range m {
+		if v[1] == "" {
+			continue // "%%" is a percent sign, it does not start a named verb
+		}
 		ord = append(ord, v[1])
 	}
 
 	pair := []int{0}
 	for _, v := range i {
+		if v[2] < 0 {
+			continue
+		}
 		pair = append(pair, v[2]-1)
 		pair = append(pair, v[3]+1)
 	}
-- 
2.43.0


From cee47a9d64064cf9ef24923743fcdbe764c3f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 40/42] fix: xgotext keeps its own package when an import has
 the same name

---
 cli/xgotext/parser/dir/golang.go      | 3 ++-
 cli/xgotext/parser/pkg-tree/golang.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/dir/golang.go b/cli/xgotext/parser/dir/golang.go
index ec924ee..a81b6a5 100644
--- a/cli/xgotext/parser/dir/golang.go
+++ b/cli/xgotext/parser/dir/golang.go
@@ -51,8 +51,9 @@ func goParser(dirPath, basePath string, data *parser.DomainMap) error {
 				Data:     data,
 				FileSet:  fileSet,
 
+				// the package itself, under a name that no import can have
 				ImportedPackages: map[string]*packages.Package{
-					pkgs[0].Name: pkgs[0],
+					"package": pkgs[0],
 				},
 			},
 		}
diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index d66e351..6aa40a6 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -40,8 +40,9 @@ func pkgParser(dirPath, basePath string, data *parser.DomainMap, verbose bool) e
 					Data:     data,
 					FileSet:  pkg.Fset,
 
+					// the package itself, under a name that no import can have
 					ImportedPackages: map[string]*packages.Package{
-						pkg.Name: pkg,
+						"package": pkg,
 					},
 				},
 			}
-- 
2.43.0


From 68a9e2161c9e2824024596dc32aab0aa63bdafbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 41/42] fix: a package tree is extracted whatever was extracted
 before

---
 cli/xgotext/parser/pkg-tree/golang.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index 6aa40a6..7d96a4a 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -78,6 +78,8 @@ func loadPackage(name string) (*packages.Package, error) {
 }
 
 func filterPkgs(pkg *packages.Package) []*packages.Package {
+	// forget the packages of earlier trees
+	pkgCache = make(map[string]*packages.Package)
 	result := filterPkgsRec(pkg)
 	return result
 }
-- 
2.43.0


From bd176775c9c10190efcae8e60c28d2e073f6b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:55 +0000
Subject: [PATCH 42/42] fix: compiling a malformed plural formula leaves no
 goroutine behind

---
 plurals/compiler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 6c466cd..398e767 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -388,7 +388,8 @@ func tokenize(s string) ([]string, error) {
 		s = strings.TrimSpace(s[1 : len(s)-1])
 	}
 	ret := []string{}
-	for chunk := range split(s) {
+	chunks := split(s)
+	for chunk := range chunks {
 		if len(chunk) != 0 {
 			if chunk[0] == '(' && chunk[len(chunk)-1] == ')' {
 				ret = append(ret, chunk)
@@ -401,6 +402,9 @@ func tokenize(s string) ([]string, error) {
 					matchedLen += len(token[0])
 				}
 				if matchedLen != len(chunk) {
+					// Let split end, it waits for its chunks to be taken
+					for range chunks {
+					}
 					return nil, fmt.Errorf("invalid character in expression chunk: %s", chunk)
 				}
 			}
-- 
2.43.0

