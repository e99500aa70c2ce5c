From d48e4aa7fe78305e95a9ca4124022ace9be2998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 01/34] fix: cyrillic: prefer the longest romanization instead
 of map order

---
 translit/cyrillic/cyrillic.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/translit/cyrillic/cyrillic.go b/translit/cyrillic/cyrillic.go
index 3d6e059..923d128 100644
--- a/translit/cyrillic/cyrillic.go
+++ b/translit/cyrillic/cyrillic.go
@@ -2,6 +2,7 @@ package cyrillic
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hangulize/hangulize"
@@ -25,9 +26,22 @@ func mustNew(country string) hangulize.Translit {
 		panic(fmt.Errorf("cyrillic: invalid country: %s", country))
 	}
 
-	oldnew := make([]string, 0, len(mapping.ToCyrillic)*2)
-	for src, dst := range mapping.ToCyrillic {
-		oldnew = append(oldnew, src, dst)
+	// The replacer prefers the pair listed earlier. List the longer sources
+	// first. Otherwise, the result would depend on the map iteration order.
+	srcs := make([]string, 0, len(mapping.ToCyrillic))
+	for src := range mapping.ToCyrillic {
+		srcs = append(srcs, src)
+	}
+	sort.Slice(srcs, func(i, j int) bool {
+		if len(srcs[i]) != len(srcs[j]) {
+			return len(srcs[i]) > len(srcs[j])
+		}
+		return srcs[i] < srcs[j]
+	})
+
+	oldnew := make([]string, 0, len(srcs)*2)
+	for _, src := range srcs {
+		oldnew = append(oldnew, src, mapping.ToCyrillic[src])
 	}
 	repl := strings.NewReplacer(oldnew...)
 
-- 
2.43.0


From da5ed64a6e74dfe6795236ab4d545a3bea874aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 02/34] fix: hre: prefer the longest macro instead of map order

---
 pkg/hre/macro.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/hre/macro.go b/pkg/hre/macro.go
index 43f67ae..a308e51 100644
--- a/pkg/hre/macro.go
+++ b/pkg/hre/macro.go
@@ -1,19 +1,28 @@
 package hre
 
 import (
+	"sort"
 	"strings"
 )
 
 // expandMacros replaces macro sources to corresponding targets.
 func expandMacros(expr string, macros map[string]string) string {
-	args := make([]string, len(macros)*2)
+	// The replacer prefers the pair listed earlier. List the longer sources
+	// first. Otherwise, the result would depend on the map iteration order.
+	srcs := make([]string, 0, len(macros))
+	for src := range macros {
+		srcs = append(srcs, src)
+	}
+	sort.Slice(srcs, func(i, j int) bool {
+		if len(srcs[i]) != len(srcs[j]) {
+			return len(srcs[i]) > len(srcs[j])
+		}
+		return srcs[i] < srcs[j]
+	})
 
-	i := 0
-	for src, dst := range macros {
-		args[i] = src
-		i++
-		args[i] = dst
-		i++
+	args := make([]string, 0, len(srcs)*2)
+	for _, src := range srcs {
+		args = append(args, src, macros[src])
 	}
 
 	rep := strings.NewReplacer(args...)
-- 
2.43.0


From e8eb666829377855d6b428ee53b0e06f8a2d87bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:23 +0000
Subject: [PATCH 03/34] fix: spec: normalize by the longest alternative instead
 of map order

---
 spec.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/spec.go b/spec.go
index 3a97367..3f9b1e5 100644
--- a/spec.go
+++ b/spec.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -165,11 +166,29 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	puncts := collectPuncts(rewrite, transcribe)
 
 	// custom normalization
-	var args []string
+	var norms [][2]string
 	for to, froms := range normalize {
 		for _, from := range froms {
-			args = append(args, from, to)
+			norms = append(norms, [2]string{from, to})
+		}
+	}
+
+	// The replacer prefers the pair listed earlier. List the longer sources
+	// first. Otherwise, the result would depend on the map iteration order.
+	sort.Slice(norms, func(i, j int) bool {
+		a, b := norms[i], norms[j]
+		if len(a[0]) != len(b[0]) {
+			return len(a[0]) > len(b[0])
 		}
+		if a[0] != b[0] {
+			return a[0] < b[0]
+		}
+		return a[1] < b[1]
+	})
+
+	var args []string
+	for _, n := range norms {
+		args = append(args, n[0], n[1])
 	}
 	normReplacer := strings.NewReplacer(args...)
 
-- 
2.43.0


From e940b65e8561f1f07f1c92a14446a142aabff708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 04/34] fix: specs: guard the spec cache against concurrent use

---
 specs.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/specs.go b/specs.go
index ea2d727..faac375 100644
--- a/specs.go
+++ b/specs.go
@@ -6,6 +6,7 @@ import (
 	"io/fs"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/pkg/errors"
 )
@@ -35,11 +36,17 @@ func ListLangs() []string {
 }
 
 // Cached specs.
-var specs = make(map[string]*Spec)
+var (
+	specs   = make(map[string]*Spec)
+	specsMu sync.Mutex
+)
 
 // LoadSpec finds a bundled spec by the given language name.
 // Once it loads a spec, it will cache the spec.
 func LoadSpec(lang string) (*Spec, error) {
+	specsMu.Lock()
+	defer specsMu.Unlock()
+
 	var spec *Spec
 
 	spec, ok := specs[lang]
@@ -69,5 +76,8 @@ func LoadSpec(lang string) (*Spec, error) {
 
 // UnloadSpec flushes a cached spec to get free memory.
 func UnloadSpec(lang string) {
+	specsMu.Lock()
+	defer specsMu.Unlock()
+
 	delete(specs, lang)
 }
-- 
2.43.0


From bf259babea64f227184cdab6e37424297aaaae1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 05/34] fix: translit: guard the default registry against
 concurrent use

---
 hangulize.go |  2 +-
 translit.go  | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/hangulize.go b/hangulize.go
index 59707fa..2f156b7 100644
--- a/hangulize.go
+++ b/hangulize.go
@@ -12,7 +12,7 @@ func Hangulize(lang string, word string) (string, error) {
 		return word, err
 	}
 
-	h := &hangulizer{spec, defaultTranslitRegistry, nil}
+	h := &hangulizer{spec, Translits(), nil}
 	return h.Hangulize(word)
 }
 
diff --git a/translit.go b/translit.go
index 7a821e7..23a7d38 100644
--- a/translit.go
+++ b/translit.go
@@ -1,5 +1,7 @@
 package hangulize
 
+import "sync"
+
 // Translit is an interface for a transliterator. It may convert a word from
 // one script to another script. It also may guess phonograms from the spelling
 // based on lexical analysis.
@@ -46,19 +48,31 @@ func (r translitRegistry) Remove(scheme string) bool {
 }
 
 // defaultTranslitRegistry the default Translit registry.
-var defaultTranslitRegistry = make(translitRegistry)
+var (
+	defaultTranslitRegistry   = make(translitRegistry)
+	defaultTranslitRegistryMu sync.RWMutex
+)
 
 // Translits returns a copy of the default Translit registry.
 func Translits() map[string]Translit {
+	defaultTranslitRegistryMu.RLock()
+	defer defaultTranslitRegistryMu.RUnlock()
+
 	return defaultTranslitRegistry.Detach()
 }
 
 // UseTranslit imports a Translit into the default registry.
 func UseTranslit(t Translit) bool {
+	defaultTranslitRegistryMu.Lock()
+	defer defaultTranslitRegistryMu.Unlock()
+
 	return defaultTranslitRegistry.Add(t)
 }
 
 // UnuseTranslit removes an imported Translit from the default registry.
 func UnuseTranslit(scheme string) bool {
+	defaultTranslitRegistryMu.Lock()
+	defer defaultTranslitRegistryMu.Unlock()
+
 	return defaultTranslitRegistry.Remove(scheme)
 }
-- 
2.43.0


From 5dca45ad24b0515162f1e7638311c83be62407ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 06/34] fix: furigana: initialize the tokenizer once under
 concurrent use

---
 translit/furigana/furigana.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/translit/furigana/furigana.go b/translit/furigana/furigana.go
index a159318..0233333 100644
--- a/translit/furigana/furigana.go
+++ b/translit/furigana/furigana.go
@@ -6,6 +6,8 @@ converted to Kana. This Translit uses IPADIC in Kagome to analyze Kanji.
 package furigana
 
 import (
+	"sync"
+
 	"github.com/hangulize/hangulize"
 	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
 	"golang.org/x/text/unicode/norm"
@@ -17,20 +19,21 @@ var T hangulize.Translit = &furigana{}
 // ----------------------------------------------------------------------------
 
 type furigana struct {
+	once   sync.Once
 	kagome *kagome.Tokenizer
 }
 
-func (furigana) Scheme() string {
+func (*furigana) Scheme() string {
 	return "furigana"
 }
 
 // ensureKagome caches a Kagome tokenizer because it is expensive.
 func (p *furigana) ensureKagome() *kagome.Tokenizer {
-	if p.kagome == nil {
+	p.once.Do(func() {
 		// It may take a while.
 		k := kagome.New()
 		p.kagome = &k
-	}
+	})
 	return p.kagome
 }
 
-- 
2.43.0


From bfb1d9f3175082e8d711d0939a763d5cace57be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 07/34] fix: hre: measure negative lookaround windows in
 characters, not bytes

---
 pkg/hre/pattern.go |  4 ++--
 pkg/hre/util.go    | 19 +++++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 74c7e19..d4403be 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -227,7 +227,7 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negAWidth == -1 {
 				negAStop = len(word)
 			} else {
-				negAStop = m[lenM-4] + p.negAWidth
+				negAStop = forward(word, m[lenM-4], p.negAWidth)
 			}
 
 			if p.negA.MatchString(substr(word, negAStart, negAStop)) {
@@ -243,7 +243,7 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negBWidth == -1 {
 				negBStart = 0
 			} else {
-				negBStart = m[5] - p.negBWidth
+				negBStart = backward(word, m[5], p.negBWidth)
 			}
 
 			if p.negB.MatchString(substr(word, negBStart, negBStop)) {
diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index 6949e9d..7100863 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -3,6 +3,7 @@ package hre
 import (
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 // indexOf finds the index of the given value in a string array. It returns -1
@@ -37,6 +38,24 @@ func substr(s string, start int, stop int) string {
 	return ""
 }
 
+// forward returns the offset of n characters after the given offset.
+func forward(s string, offset int, n int) int {
+	for ; n > 0 && 0 <= offset && offset < len(s); n-- {
+		_, size := utf8.DecodeRuneInString(s[offset:])
+		offset += size
+	}
+	return offset
+}
+
+// backward returns the offset of n characters before the given offset.
+func backward(s string, offset int, n int) int {
+	for ; n > 0 && 0 < offset && offset <= len(s); n-- {
+		_, size := utf8.DecodeLastRuneInString(s[:offset])
+		offset -= size
+	}
+	return offset
+}
+
 // captured returns the captured substring by their group number.
 func captured(s string, m []int, n int) string {
 	i := n * 2
-- 
2.43.0


From 0f64ecc19f69750157430f61cc1f24aebae9420f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 08/34] fix: hre: leave the match when a mapped var has no
 value instead of panicking

---
 pkg/hre/rpattern.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/hre/rpattern.go b/pkg/hre/rpattern.go
index 42554b3..350ccce 100644
--- a/pkg/hre/rpattern.go
+++ b/pkg/hre/rpattern.go
@@ -116,10 +116,19 @@ func (rp *RPattern) Interpolate(
 				return "", err
 			}
 			fromVar := p.usedVars[varIndex]
+			if len(m) < (varIndex+2)*2 {
+				return "", errors.New("mapped var not captured")
+			}
 			fromVal := captured(word, m, varIndex+1)
 
 			// Find index of the matched character in the var.
 			i := indexOf(fromVal, fromVar)
+			if i == -1 {
+				return "", errors.New("mapped var not matched")
+			}
+			if len(part.usedVar) == 0 {
+				return "", errors.New("mapped var has no value")
+			}
 			i = i % len(part.usedVar)
 
 			// Choose a replacement character at the same index.
-- 
2.43.0


From e84cf07e11c2a269eafdc5ad316efd740d26236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:25 +0000
Subject: [PATCH 09/34] fix: hre: a repeat of an unlimited expression is
 unlimited

---
 pkg/hre/width.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/width.go b/pkg/hre/width.go
index 8153322..a43cb0e 100644
--- a/pkg/hre/width.go
+++ b/pkg/hre/width.go
@@ -54,7 +54,11 @@ func RegexpMaxWidth(re *syntax.Regexp) int {
 		if re.Max == -1 {
 			return -1
 		}
-		return re.Max * RegexpMaxWidth(re.Sub0[0])
+		n := RegexpMaxWidth(re.Sub0[0])
+		if n == -1 {
+			return -1
+		}
+		return re.Max * n
 
 	case syntax.OpConcat:
 		// matches concatenation of Subs
-- 
2.43.0


From 04bee2f4832a43cf820cb821e7641bb337817fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 10/34] fix: hre: keep escaped parentheses and special groups
 in a lookaround

---
 pkg/hre/util.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index 7100863..a73104c 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -2,7 +2,6 @@ package hre
 
 import (
 	"regexp"
-	"strings"
 	"unicode/utf8"
 )
 
@@ -62,9 +61,18 @@ func captured(s string, m []int, n int) string {
 	return substr(s, m[i], m[i+1])
 }
 
+// reParen matches an escaped letter, a character class, an opened special
+// group, or an opened capturing group.
+var reParen = regexp.MustCompile(`(?s)\\.|\[\^?\]?(?:\\.|[^\]])*\]|\(\?|\(`)
+
 // noCapture removes capturing groups in a regexp string.
 func noCapture(expr string) string {
-	return strings.Replace(expr, "(", "(?:", -1)
+	return reParen.ReplaceAllStringFunc(expr, func(s string) string {
+		if s == "(" {
+			return "(?:"
+		}
+		return s
+	})
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From bd852f0d51a32da01942942f3703ce2b974504c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 11/34] fix: hsl: a NUL character is not the end of the source

---
 pkg/hsl/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 3ab27d5..cff0419 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -21,7 +21,7 @@ func newLexer(r io.Reader) *lexer {
 	return &lexer{bufio.NewReader(r), 1, 1}
 }
 
-const eof = rune(0)
+const eof = rune(-1)
 
 // Line returns the current line number.
 func (l lexer) Line() int {
@@ -194,7 +194,7 @@ func (l *lexer) Scan() (token, string) {
 	ch := l.read()
 
 	if ch == eof {
-		return EOF, string(eof)
+		return EOF, ""
 	}
 	if ch == '\n' {
 		return Newline, "\n"
-- 
2.43.0


From 289767a51892897143eb606fdd327c0ce1e377cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 12/34] fix: hsl: reject an unclosed string instead of hanging,
 keep text after a backslash

---
 pkg/hsl/lexer.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index cff0419..9116ad9 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -149,25 +149,24 @@ func (l *lexer) scanQuotedString() (token, string) {
 		panic("not a quote")
 	}
 
-	escaped := false
-
 	for {
 		ch := l.read()
 
 		if ch == '"' {
-			if escaped {
-				escaped = false
-			} else {
-				break
-			}
+			break
 		}
 
 		if ch == '\\' {
-			escaped = true
-			continue
+			// Only a quote and a backslash can be escaped. A backslash
+			// before any other letter is just a backslash.
+			if ch = l.read(); ch != '"' && ch != '\\' {
+				buf.WriteRune('\\')
+			}
 		}
-		if escaped {
-			continue
+
+		if ch == eof {
+			// The string has not been closed.
+			return Illegal, `"` + buf.String()
 		}
 
 		buf.WriteRune(ch)
-- 
2.43.0


From ceb4dc29b91668cf6575b28589c23de630d067ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 13/34] fix: hsl: reject a hyphen which is not an arrow instead
 of panicking

---
 pkg/hsl/lexer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 9116ad9..6346425 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -178,11 +178,15 @@ func (l *lexer) scanQuotedString() (token, string) {
 // delimiters
 
 func (l *lexer) scanArrow() (token, string) {
-	first := l.read()
-	second := l.read()
+	// discard initial hyphen
+	ch := l.read()
+	if ch != '-' {
+		panic("not a hyphen")
+	}
 
-	if first != '-' || second != '>' {
-		panic("not ->")
+	if l.read() != '>' {
+		l.unread()
+		return Illegal, "-"
 	}
 
 	return Arrow, "->"
-- 
2.43.0


From 701c3039f83ccf18fd78a9253bd5a04fe904ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:01 +0000
Subject: [PATCH 14/34] fix: hsl: report a duplicated key as an error instead
 of panicking

---
 pkg/hsl/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 50a4fe4..df48191 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -100,7 +100,7 @@ func (p *parser) parse() (HSL, error) {
 			}
 
 			if err := section.addPair(lastString, values, line); err != nil {
-				panic(fmt.Errorf("failed to add pair: %w", err))
+				return nil, fmt.Errorf("failed to add pair: %w", err)
 			}
 
 			continue
-- 
2.43.0


From 79141186bd794679286d886d8eead3478562f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 15/34] fix: hsl: reject a section mixing dict and list pairs

---
 pkg/hsl/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index df48191..f56f541 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -86,6 +86,10 @@ func (p *parser) parse() (HSL, error) {
 					section = newDictSection(sectionLine)
 					hsl[sectionName] = section
 				}
+
+				if _, ok := section.(*DictSection); !ok {
+					return nil, fmt.Errorf("not a dict section: %s", sectionName)
+				}
 			}
 
 			// If an arrow sign found, the last string is a left value in a
@@ -97,6 +101,10 @@ func (p *parser) parse() (HSL, error) {
 					section = newListSection(sectionLine)
 					hsl[sectionName] = section
 				}
+
+				if _, ok := section.(*ListSection); !ok {
+					return nil, fmt.Errorf("not a list section: %s", sectionName)
+				}
 			}
 
 			if err := section.addPair(lastString, values, line); err != nil {
-- 
2.43.0


From 6556ffe6174c35541363c8654621980da62002b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 16/34] fix: hsl: a comment after values ends the pair

---
 pkg/hsl/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index f56f541..bf2b7d4 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -130,7 +130,8 @@ func (p *parser) parseValues() ([]string, error) {
 		} else if tok == EOF {
 			break
 		} else if tok == Comment {
-			continue
+			// A comment consumes the rest of the line.
+			break
 		}
 
 		// Collect strings in values.
-- 
2.43.0


From 15a2a0550f1968a999b7ff8dccc283926ab08f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:08 +0000
Subject: [PATCH 17/34] fix: hsl: report an error of the reader instead of
 truncating the source

---
 pkg/hsl/lexer.go  | 12 +++++++++++-
 pkg/hsl/parser.go |  9 +++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 6346425..15f1212 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -14,11 +14,14 @@ type lexer struct {
 
 	line     int
 	prevLine int
+
+	// The first error of the reader except io.EOF.
+	err error
 }
 
 // newLexer creates a Lexer.
 func newLexer(r io.Reader) *lexer {
-	return &lexer{bufio.NewReader(r), 1, 1}
+	return &lexer{r: bufio.NewReader(r), line: 1, prevLine: 1}
 }
 
 const eof = rune(-1)
@@ -30,9 +33,16 @@ func (l lexer) Line() int {
 
 // read reads the rune on the buffer cursor.
 func (l *lexer) read() rune {
+	if l.err != nil {
+		return eof
+	}
+
 	ch, _, err := l.r.ReadRune()
 
 	if err != nil {
+		if err != io.EOF {
+			l.err = err
+		}
 		return eof
 	}
 
diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index bf2b7d4..cd58e68 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -25,6 +25,15 @@ func (p *parser) scan() (token, string, int) {
 
 // parse ...
 func (p *parser) parse() (HSL, error) {
+	hsl, err := p.parseSections()
+	if p.lexer.err != nil {
+		return nil, fmt.Errorf("parse: %w", p.lexer.err)
+	}
+	return hsl, err
+}
+
+// parseSections ...
+func (p *parser) parseSections() (HSL, error) {
 	hsl := make(HSL)
 
 	var (
-- 
2.43.0


From c95e855c362d9ec9dde94609deeff10446aaecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 18/34] fix: spec: reject a section of the wrong kind or a pair
 without a right side

---
 spec.go | 80 +++++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 72 insertions(+), 8 deletions(-)

diff --git a/spec.go b/spec.go
index 3f9b1e5..b9791b1 100644
--- a/spec.go
+++ b/spec.go
@@ -77,7 +77,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var lang Language
 
 	if sec, ok := h["lang"]; ok {
-		_lang, err := newLanguage(sec.(*hsl.DictSection))
+		dict, err := dictSection("lang", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		_lang, err := newLanguage(dict)
 
 		if err != nil {
 			return nil, err
@@ -90,7 +95,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var config Config
 
 	if sec, ok := h["config"]; ok {
-		_config, err := newConfig(sec.(*hsl.DictSection))
+		dict, err := dictSection("config", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		_config, err := newConfig(dict)
 
 		if err != nil {
 			return nil, err
@@ -103,7 +113,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var macros map[string]string
 
 	if sec, ok := h["macros"]; ok {
-		macros, err = sec.(*hsl.DictSection).Injective()
+		dict, err := dictSection("macros", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		macros, err = dict.Injective()
 
 		if err != nil {
 			return nil, err
@@ -113,19 +128,34 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// vars
 	var vars map[string][]string
 	if sec, ok := h["vars"]; ok {
-		vars = sec.(*hsl.DictSection).Map()
+		dict, err := dictSection("vars", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		vars = dict.Map()
 	}
 
 	// normalize
 	var normalize map[string][]string
 	if sec, ok := h["normalize"]; ok {
-		normalize = sec.(*hsl.DictSection).Map()
+		dict, err := dictSection("normalize", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		normalize = dict.Map()
 	}
 
 	// rewrite
 	var rewritePairs []hsl.Pair
 	if sec, ok := h["rewrite"]; ok {
-		rewritePairs = sec.(*hsl.ListSection).Pairs()
+		list, err := listSection("rewrite", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		rewritePairs = list.Pairs()
 	}
 
 	rewrite, err := newRules(rewritePairs, macros, vars)
@@ -136,7 +166,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// transcribe
 	var transcribePairs []hsl.Pair
 	if sec, ok := h["transcribe"]; ok {
-		transcribePairs = sec.(*hsl.ListSection).Pairs()
+		list, err := listSection("transcribe", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		transcribePairs = list.Pairs()
 	}
 
 	transcribe, err := newRules(transcribePairs, macros, vars)
@@ -147,7 +182,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// test
 	var test [][2]string
 	if sec, ok := h["test"]; ok {
-		for _, pair := range sec.(*hsl.ListSection).Pairs() {
+		list, err := listSection("test", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		for _, pair := range list.Pairs() {
 			word := pair.Left()
 			result := pair.Right()[0]
 
@@ -229,6 +269,30 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	return &spec, nil
 }
 
+// dictSection asserts that the section is a dict section.
+func dictSection(name string, sec hsl.Section) (*hsl.DictSection, error) {
+	dict, ok := sec.(*hsl.DictSection)
+	if !ok {
+		return nil, errors.Errorf("%s must be a dict section", name)
+	}
+	return dict, nil
+}
+
+// listSection asserts that the section is a list section whose every pair has
+// a right side.
+func listSection(name string, sec hsl.Section) (*hsl.ListSection, error) {
+	list, ok := sec.(*hsl.ListSection)
+	if !ok {
+		return nil, errors.Errorf("%s must be a list section", name)
+	}
+	for _, pair := range list.Pairs() {
+		if len(pair.Right()) == 0 {
+			return nil, errors.Errorf("%s has a pair without right: %s", name, pair)
+		}
+	}
+	return list, nil
+}
+
 // -----------------------------------------------------------------------------
 // "lang" section
 
-- 
2.43.0


From 397e702ef17cc25d6c8faff7de5bd08c75202556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 19/34] fix: scripts: decode the base letter of a Latin
 decomposition as a character

---
 internal/scripts/latn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/scripts/latn.go b/internal/scripts/latn.go
index edfe7b9..03abaf7 100644
--- a/internal/scripts/latn.go
+++ b/internal/scripts/latn.go
@@ -2,6 +2,7 @@ package scripts
 
 import (
 	"unicode"
+	"unicode/utf8"
 
 	"golang.org/x/text/unicode/norm"
 )
@@ -23,7 +24,7 @@ func (Latn) Normalize(ch rune) rune {
 	props := norm.NFD.PropertiesString(string(ch))
 	bin := props.Decomposition()
 	if len(bin) != 0 {
-		ch = rune(bin[0])
+		ch, _ = utf8.DecodeRune(bin)
 	}
 	return unicode.ToLower(ch)
 }
-- 
2.43.0


From 5c2190f873cbcaf4015e6192c4281f0303048701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 20/34] fix: cmd: read the last word even if its line is not
 terminated

---
 cmd/hangulize/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/hangulize/main.go b/cmd/hangulize/main.go
index 4376230..4153224 100644
--- a/cmd/hangulize/main.go
+++ b/cmd/hangulize/main.go
@@ -84,10 +84,14 @@ func readWords(ch chan<- string, args []string) {
 		reader := bufio.NewReader(os.Stdin)
 		for {
 			word, err := reader.ReadString('\n')
+			word = strings.TrimSpace(word)
 			if err != nil {
+				// The last line may not be terminated.
+				if word != "" {
+					ch <- word
+				}
 				break
 			}
-			word = strings.TrimSpace(word)
 			ch <- word
 		}
 	} else {
-- 
2.43.0


From dab339eeaa08827a0b40ccd0183efd4131ef2a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 21/34] fix: cmd: install the standard transliterators in
 'test' and 'dev'

---
 cmd/hangulize/dev.go  | 2 ++
 cmd/hangulize/test.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/hangulize/dev.go b/cmd/hangulize/dev.go
index 7a649ae..4ed291c 100644
--- a/cmd/hangulize/dev.go
+++ b/cmd/hangulize/dev.go
@@ -4,6 +4,7 @@ import (
 	"os"
 
 	"github.com/hangulize/hangulize"
+	"github.com/hangulize/hangulize/translit"
 	"github.com/spf13/cobra"
 )
 
@@ -32,6 +33,7 @@ var devCmd = &cobra.Command{
 
 		// Test the spec.
 		h := hangulize.New(spec)
+		translit.Install(h)
 		hangulizeStream(cmd, args, h)
 		return nil
 	},
diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index c5b3876..e831868 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -4,6 +4,7 @@ import (
 	"os"
 
 	"github.com/hangulize/hangulize"
+	"github.com/hangulize/hangulize/translit"
 	"github.com/spf13/cobra"
 )
 
@@ -62,6 +63,7 @@ var testCmd = &cobra.Command{
 				traces   []hangulize.Trace
 			)
 			h := hangulize.New(spec)
+			translit.Install(h)
 
 			// Run test.
 			for _, exm := range spec.Test {
-- 
2.43.0


From ed575ba896bd56a3bcd48f20194d96602e6423b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 22/34] fix: cmd: a failed transcription fails the example in
 'test'

---
 cmd/hangulize/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index e831868..ce04457 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -90,7 +90,7 @@ var testCmd = &cobra.Command{
 					}
 				}
 
-				if result == expected {
+				if err == nil && result == expected {
 					continue
 				}
 
-- 
2.43.0


From 5453cb80aca78bf0db83db6d09039b48656da991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 23/34] fix: cmd: replace the earlier content of the coverage
 profile

---
 cmd/hangulize/test.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangulize/test.go b/cmd/hangulize/test.go
index ce04457..f007292 100644
--- a/cmd/hangulize/test.go
+++ b/cmd/hangulize/test.go
@@ -112,7 +112,7 @@ var testCmd = &cobra.Command{
 		if testCoverProfile != "" {
 			file, err := os.OpenFile(
 				testCoverProfile,
-				os.O_WRONLY|os.O_CREATE,
+				os.O_WRONLY|os.O_CREATE|os.O_TRUNC,
 				0644,
 			)
 			if err != nil {
-- 
2.43.0


From d876d4a1813b8c7b97b417307197da7eda10d980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 24/34] fix: cmd: profile coverage of a spec without rewrite or
 transcribe rules

---
 cmd/hangulize/cover.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index 3c4af39..a5c0ad7 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -79,6 +79,9 @@ func (c *cover) Coverage() float64 {
 		total += len(spec.Transcribe)
 	}
 
+	if total == 0 {
+		return 0.0
+	}
 	return float64(len(c.covered)) / float64(total)
 }
 
@@ -128,7 +131,7 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			cols = append(cols, col)
 		}
 
-		rewritePairs := hsl["rewrite"].Pairs()
+		rewritePairs := pairs(hsl, "rewrite")
 		for _, rule := range spec.Rewrite {
 			line := rewritePairs[rule.ID].Line()
 			col := cols[line-1]
@@ -136,7 +139,7 @@ func (c *cover) WriteProfile(w io.Writer) error {
 			fmt.Fprintf(w, template, name, line, line, col, covered)
 		}
 
-		transcribePairs := hsl["transcribe"].Pairs()
+		transcribePairs := pairs(hsl, "transcribe")
 		for _, rule := range spec.Transcribe {
 			line := transcribePairs[rule.ID].Line()
 			col := cols[line-1]
@@ -148,6 +151,14 @@ func (c *cover) WriteProfile(w io.Writer) error {
 	return nil
 }
 
+// pairs returns the pairs in a section which may be omitted.
+func pairs(h hsl.HSL, name string) []hsl.Pair {
+	if sec, ok := h[name]; ok {
+		return sec.Pairs()
+	}
+	return nil
+}
+
 func btoi(b bool) int {
 	if b {
 		return 1
-- 
2.43.0


From 0348452458f1f674add40314a8ec171e74e8d1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 25/34] fix: procedure: never transcribe the masked output of
 an earlier rule

---
 procedure.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/procedure.go b/procedure.go
index 112846f..d45f094 100644
--- a/procedure.go
+++ b/procedure.go
@@ -193,10 +193,13 @@ func (p procedure) transcribe(subwords []subword.Subword) []subword.Subword {
 		dummy := subword.NewReplacer(word, 0, 0)
 
 		for _, rule := range p.spec.Transcribe {
-			repls := rule.replacements(word)
-			rep.ReplaceBy(repls...)
+			for _, repl := range rule.replacements(word) {
+				// A wildcard may match with the masked subwords.
+				if strings.ContainsRune(word[repl.Start:repl.Stop], 0) {
+					continue
+				}
+				rep.ReplaceBy(repl)
 
-			for _, repl := range repls {
 				nulls := strings.Repeat("\x00", len(repl.Word))
 				dummy.Replace(repl.Start, repl.Stop, nulls)
 			}
-- 
2.43.0


From 6a24bce65d27f52f61803e90b021e4b30b3313d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 26/34] fix: wasm: a transliterator which throws or rejects
 with any value rejects the call

---
 cmd/hangulize.wasm/translit.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/cmd/hangulize.wasm/translit.go b/cmd/hangulize.wasm/translit.go
index 17e7c86..b7e14c7 100644
--- a/cmd/hangulize.wasm/translit.go
+++ b/cmd/hangulize.wasm/translit.go
@@ -24,7 +24,36 @@ func (t promiseTranslit) Load() error {
 	return nil
 }
 
+// call calls the JavaScript function. An exception is returned as an error.
+func (p promiseTranslit) call(word string) (promise js.Value, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			jsErr, ok := r.(js.Error)
+			if !ok {
+				panic(r)
+			}
+			err = errors.New(jsMessage(jsErr.Value))
+		}
+	}()
+	return js.Global().Get("Promise").Call("resolve", p.fn.Invoke(word)), nil
+}
+
+// jsMessage picks the message of a thrown JavaScript value.
+func jsMessage(v js.Value) string {
+	if v.Type() == js.TypeObject {
+		if msg := v.Get("message"); msg.Type() == js.TypeString {
+			return msg.String()
+		}
+	}
+	return v.String()
+}
+
 func (p promiseTranslit) Transliterate(word string) (string, error) {
+	promise, err := p.call(word)
+	if err != nil {
+		return "", err
+	}
+
 	thenCh := make(chan string)
 	defer close(thenCh)
 
@@ -38,12 +67,12 @@ func (p promiseTranslit) Transliterate(word string) (string, error) {
 	})
 
 	catch := js.FuncOf(func(this js.Value, args []js.Value) any {
-		err := errors.New(args[0].Get("message").String())
+		err := errors.New(jsMessage(args[0]))
 		catchCh <- err
 		return nil
 	})
 
-	p.fn.Invoke(word).Call("then", then).Call("catch", catch)
+	promise.Call("then", then).Call("catch", catch)
 
 	select {
 	case result := <-thenCh:
-- 
2.43.0


From 914dd3b2ba90d6688e46b5733d9504bb244caee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 27/34] fix: wasm: an exception of the trace function rejects
 the promise instead of crashing

---
 cmd/hangulize.wasm/hangulize.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cmd/hangulize.wasm/hangulize.go b/cmd/hangulize.wasm/hangulize.go
index 95e964a..d3e3e4e 100644
--- a/cmd/hangulize.wasm/hangulize.go
+++ b/cmd/hangulize.wasm/hangulize.go
@@ -3,6 +3,7 @@
 package main
 
 import (
+	"errors"
 	"syscall/js"
 
 	"github.com/hangulize/hangulize"
@@ -31,6 +32,17 @@ var jsHangulize = js.FuncOf(func(this js.Value, args []js.Value) any {
 		// Blocking code needs a new goroutine to avoid deadlock in a
 		// JavaScript build.
 		go func() {
+			// An exception of the trace function rejects the promise.
+			defer func() {
+				if r := recover(); r != nil {
+					jsErr, ok := r.(js.Error)
+					if !ok {
+						panic(r)
+					}
+					throw(errors.New(jsMessage(jsErr.Value)))
+				}
+			}()
+
 			spec, err := hangulize.LoadSpec(lang)
 			if err != nil {
 				throw(err)
@@ -42,7 +54,7 @@ var jsHangulize = js.FuncOf(func(this js.Value, args []js.Value) any {
 				h.UseTranslit(translit)
 			}
 
-			if !traceFn.IsUndefined() {
+			if traceFn.Type() == js.TypeFunction {
 				h.Trace(func(t hangulize.Trace) {
 					traceFn.Invoke(jsTrace(t))
 				})
-- 
2.43.0


From 9ac1daffc5bc8a9a9e9b48275aa1215713b5b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 28/34] fix: trace: report NUL characters of the word as they
 are

---
 trace.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/trace.go b/trace.go
index 5421260..a2f10d7 100644
--- a/trace.go
+++ b/trace.go
@@ -1,8 +1,6 @@
 package hangulize
 
 import (
-	"strings"
-
 	"github.com/hangulize/hangulize/internal/subword"
 )
 
@@ -157,7 +155,6 @@ func (r *subwordsTracer) Commit() {
 		if dirty {
 			b := subword.NewBuilder(subwords)
 			word := b.String()
-			word = strings.Replace(word, "\x00", ".", -1)
 
 			r.tracer.trace(Trace{Step: r.step, Word: word, Rule: &rec.rule})
 		}
-- 
2.43.0


From 35bc634d1d20c4942e306d54c06d3e7a8c4a9085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 29/34] fix: keep every letter of a normalize target from the
 script normalization

Only the first letter of a target had been kept.
---
 spec.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/spec.go b/spec.go
index b9791b1..7154db5 100644
--- a/spec.go
+++ b/spec.go
@@ -7,7 +7,6 @@ import (
 	"sort"
 	"strings"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/pkg/errors"
 
@@ -235,11 +234,8 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// letters in normalize
 	normLetters := make(map[rune]bool, len(normalize))
 	for to := range normalize {
-		more := len(to)
-		for more > 0 {
-			let, size := utf8.DecodeRuneInString(to)
+		for _, let := range to {
 			normLetters[let] = true
-			more -= size
 		}
 	}
 
-- 
2.43.0


From 67d891c424fa60f6367da0daaec13ba1cc912e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 30/34] fix: write the coverage profile of a spec with very
 long lines

---
 cmd/hangulize/cover.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/hangulize/cover.go b/cmd/hangulize/cover.go
index a5c0ad7..194c8e1 100644
--- a/cmd/hangulize/cover.go
+++ b/cmd/hangulize/cover.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"github.com/hangulize/hangulize"
@@ -126,6 +127,7 @@ func (c *cover) WriteProfile(w io.Writer) error {
 
 		cols := make([]int, 0)
 		scanner := bufio.NewScanner(file)
+		scanner.Buffer(nil, math.MaxInt) // a line can be very long
 		for scanner.Scan() {
 			col := len(scanner.Text()) + 1
 			cols = append(cols, col)
-- 
2.43.0


From 1e6dd9db8b0e0e19eea40e00cf0a842382954cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:21 +0000
Subject: [PATCH 31/34] fix: hre: reject a pattern which would swallow the
 groups around its core

---
 pkg/hre/assertions.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index dd2fb4e..3ca6222 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -72,6 +72,11 @@ func expandLookaround(expr string) (string, string, string, int, int, error) {
 		return ``, ``, ``, 0, 0, err
 	}
 
+	err = mustComplete(expr)
+	if err != nil {
+		return ``, ``, ``, 0, 0, err
+	}
+
 	return posExpr, negAExpr, negBExpr, negAWidth, negBWidth, nil
 }
 
@@ -198,6 +203,30 @@ func mustNoZeroWidth(expr string) error {
 	return nil
 }
 
+// mustComplete rejects an expression of which the core would swallow the groups
+// put after it, such as one with a trailing backslash.
+func mustComplete(expr string) error {
+	stop := reLookahead.FindStringIndex(expr)[0]
+	start := reLookbehind.FindStringIndex(expr[:stop])[1]
+	core := expr[start:stop]
+
+	// "(?:)" keeps a repetition operator next to a lookbehind.
+	re, err := syntax.Parse(`(?:)`+core, syntax.Perl)
+	if err != nil {
+		return err
+	}
+
+	guarded, err := syntax.Parse(`(?:)`+core+`()()`, syntax.Perl)
+	if err != nil {
+		return err
+	}
+
+	if guarded.MaxCap() != re.MaxCap()+2 {
+		return fmt.Errorf("expression is not complete: %#v", expr)
+	}
+	return nil
+}
+
 func expandEdges(expr string) string {
 	expr = reLeftEdge.ReplaceAllStringFunc(expr, func(e string) string {
 		if e == `^` {
-- 
2.43.0


From 9261fb4bb90807cca7a87278c71a3db8afeaa0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 32/34] fix: furigana: merge long vowels after chi, di and va

---
 translit/furigana/longvowel.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/translit/furigana/longvowel.go b/translit/furigana/longvowel.go
index e4d00ab..b985175 100644
--- a/translit/furigana/longvowel.go
+++ b/translit/furigana/longvowel.go
@@ -6,10 +6,10 @@ import (
 )
 
 var longVowelRels = map[rune]string{
-	'ァ': "ァアカガサザタダナハバパマャヤラヮワ",
-	'ア': "ァアカガサザタダナハバパマャヤラヮワ",
+	'ァ': "ァアカガサザタダナハバパマャヤラヮワヷ",
+	'ア': "ァアカガサザタダナハバパマャヤラヮワヷ",
 	'ィ': "ィイェエキギケゲシジセゼチヂニネヒビピヘベペミメリレヰヱヸヹ",
-	'イ': "ィイキギシジニヒビピミリヰヸ",
+	'イ': "ィイキギシジチヂニヒビピミリヰヸ",
 	'ゥ': "ゥウォオクグコゴスズソゾツヅヌノフブプホボポムモュユョヨルロヲヴヺ",
 	'ウ': "ゥウォオクグコゴスズソゾツヅトドヌノフブプホボポムモュユョヨルロヲヴヺ",
 	'ェ': "ェエケゲセゼテデネヘベペメレヱヹ",
-- 
2.43.0


From 6bc6549db633cfe81729b3e228de5a7d1ebd46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 33/34] fix: wasm: an unknown scheme is an error instead of
 ending the cyrillic module

---
 cmd/cyrillic.translit.wasm/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/cyrillic.translit.wasm/main.go b/cmd/cyrillic.translit.wasm/main.go
index 1136197..ae6a48f 100644
--- a/cmd/cyrillic.translit.wasm/main.go
+++ b/cmd/cyrillic.translit.wasm/main.go
@@ -15,7 +15,12 @@ var jsTransliterate = js.FuncOf(func(this js.Value, args []js.Value) any {
 	scheme := args[0].String()
 	word := args[1].String()
 
-	result, err := translits[scheme].Transliterate(word)
+	t, ok := translits[scheme]
+	if !ok {
+		return js.Global().Get("Error").New("translit not supported: " + scheme)
+	}
+
+	result, err := t.Transliterate(word)
 	if err != nil {
 		return js.Global().Get("Error").New(err.Error())
 	}
-- 
2.43.0


From 0bcd0547ae1b7833d034afc9b553774032f18530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 34/34] fix: reject a lookaround which begins with a question
 mark

Such a lookaround, as in "a{?}" or "a{?:b}", made another kind of group, so
the pattern was accepted but panicked when it met a word.
---
 pkg/hre/assertions.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index 3ca6222..c43e229 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -2,6 +2,7 @@ package hre
 
 import (
 	"fmt"
+	"regexp"
 	"regexp/syntax"
 	"strings"
 )
@@ -224,6 +225,15 @@ func mustComplete(expr string) error {
 	if guarded.MaxCap() != re.MaxCap()+2 {
 		return fmt.Errorf("expression is not complete: %#v", expr)
 	}
+
+	// A lookaround becomes a group. It must not be a prefix of another kind of
+	// group, such as "?:".
+	for _, look := range []*regexp.Regexp{reLookbehind, reLookahead} {
+		m := look.FindStringSubmatch(expr)
+		if strings.HasPrefix(m[1], `?`) || strings.HasPrefix(m[2], `?`) {
+			return fmt.Errorf("expression is not complete: %#v", expr)
+		}
+	}
 	return nil
 }
 
-- 
2.43.0

