From f55b71f34f60cb249269a0c30997f8fab54dfdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 01/50] fix: consume CDO and CDC tokens so that lexing them
 makes progress

---
 internal/lexer/lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index d6b5193..143d03d 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -175,6 +175,9 @@ func (l *Lexer) Next() {
 
 			if p0, p1 := l.peek(0), l.peek(1); p0 == '-' && p1 == '>' {
 				l.Current = CDC
+				for i := 0; i < len("-->"); i++ {
+					l.step()
+				}
 				return
 			}
 
@@ -188,6 +191,9 @@ func (l *Lexer) Next() {
 		case '<':
 			if p0, p1, p2 := l.peek(0), l.peek(1), l.peek(2); p0 == '!' && p1 == '-' && p2 == '-' {
 				l.Current = CDO
+				for i := 0; i < len("<!--"); i++ {
+					l.step()
+				}
 				return
 			}
 
-- 
2.43.0


From b50bfacf55bae9f77d57b46064ec6fe0d9664f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 02/50] fix: consume the escaped code point of an escape, in
 strings too

---
 internal/lexer/lexer.go | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 143d03d..0d49115 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -318,18 +318,14 @@ func (l *Lexer) Next() {
 				case '\n':
 					l.Errorf("unclosed string: unexpected newline")
 				case '\\':
-					l.step()
-
-					switch l.ch {
-					case '\n':
-						l.step()
-					case -1:
-						l.Errorf("unexpected EOF")
-					default:
-						if startsEscape(l.ch, l.peek(0)) {
-							l.nextEscaped()
-						}
+					// An escaped newline continues the string. Anything else is
+					// an escaped codepoint, which may be the quotation mark.
+					if startsEscape(l.ch, l.peek(0)) {
+						l.nextEscaped()
+						continue
 					}
+					l.step()
+					l.step()
 				case -1:
 					l.Errorf("unexpected EOF")
 				default:
@@ -574,12 +570,18 @@ func (l *Lexer) nextName() {
 // Note that we do not need to interpret the codepoint for our purposes - we can record
 // the byte offsets as-is for transformation.
 func (l *Lexer) nextEscaped() {
-	l.step()
-	for i := 0; i < 5 && isHexDigit(l.ch); i++ {
+	l.step() // Consume \.
+
+	if !isHexDigit(l.ch) {
+		l.step()
+		return
+	}
+
+	for i := 0; i < 6 && isHexDigit(l.ch); i++ {
+		l.step()
+	}
+	if isWhitespace(l.ch) {
 		l.step()
-		if isWhitespace(l.ch) {
-			l.step()
-		}
 	}
 }
 
-- 
2.43.0


From 2812ab559b8b70b700532d0bf70ea781b00368b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 03/50] fix: record each line start once when a declaration is
 lexed again

---
 internal/lexer/lexer.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 0d49115..b5bc8cd 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -71,7 +71,7 @@ func NewLexer(source *sources.Source) *Lexer {
 // step consumes the next unicode rune and stores it.
 func (l *Lexer) step() {
 	if l.pos == 0 {
-		l.source.Lines = append(l.source.Lines, l.pos)
+		l.addLine(l.pos)
 	}
 
 	cp, size := utf8.DecodeRuneInString(l.source.Content[l.pos:])
@@ -86,7 +86,7 @@ func (l *Lexer) step() {
 	if cp == '\r' {
 		next, nextSize := utf8.DecodeRuneInString(l.source.Content[l.pos+size:])
 		if next == '\n' {
-			l.source.Lines = append(l.source.Lines, l.pos+size+nextSize)
+			l.addLine(l.pos + size + nextSize)
 		}
 
 		l.ch = next
@@ -96,7 +96,7 @@ func (l *Lexer) step() {
 	}
 
 	if cp == '\n' {
-		l.source.Lines = append(l.source.Lines, l.pos+size)
+		l.addLine(l.pos + size)
 	}
 
 	l.ch = cp
@@ -104,6 +104,15 @@ func (l *Lexer) step() {
 	l.pos += size
 }
 
+// addLine records the start of a line. The same line may be stepped over more than
+// once because callers can back up and lex a part of the source again.
+func (l *Lexer) addLine(start int) {
+	if n := len(l.source.Lines); n > 0 && l.source.Lines[n-1] >= start {
+		return
+	}
+	l.source.Lines = append(l.source.Lines, start)
+}
+
 // peek returns the next ith unconsumed rune but does not consume it.
 // i is 0-indexed (0 is one ahead, 1 is two ahead, etc.)
 func (l *Lexer) peek(i int) rune {
-- 
2.43.0


From 81130a53eebc28f6a6e335e40a5708c5d8378611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 04/50] fix: treat a lone carriage return or form feed as a
 newline

---
 internal/lexer/lexer.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index b5bc8cd..7695742 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -86,20 +86,16 @@ func (l *Lexer) step() {
 	if cp == '\r' {
 		next, nextSize := utf8.DecodeRuneInString(l.source.Content[l.pos+size:])
 		if next == '\n' {
-			l.addLine(l.pos + size + nextSize)
+			cp = next
+			size += nextSize
 		}
-
-		l.ch = next
-		l.lastPos = l.pos
-		l.pos += size + nextSize
-		return
 	}
 
 	if cp == '\n' {
 		l.addLine(l.pos + size)
 	}
 
-	l.ch = cp
+	l.ch = toNewline(cp)
 	l.lastPos = l.pos
 	l.pos += size
 }
@@ -124,6 +120,15 @@ func (l *Lexer) peek(i int) rune {
 	if size == 0 {
 		return -1
 	}
+	return toNewline(cp)
+}
+
+// toNewline converts the codepoints that count as newlines. Line numbers only count
+// line feeds, with or without a carriage return.
+func toNewline(cp rune) rune {
+	if cp == '\r' || cp == '\f' {
+		return '\n'
+	}
 	return cp
 }
 
-- 
2.43.0


From 4a19ed488f6228176932ab657b73e067937fb96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 05/50] fix: only ASCII digits are digits in CSS

---
 internal/lexer/lexer.go  | 23 +++++++++++------------
 internal/lexer/tokens.go |  9 ++++++---
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 7695742..922ee3e 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -3,7 +3,6 @@
 package lexer
 
 import (
-	"unicode"
 	"unicode/utf8"
 
 	"github.com/stephen/cssc/internal/ast"
@@ -368,7 +367,7 @@ func (l *Lexer) Next() {
 				return
 			}
 
-			if unicode.IsDigit(l.ch) {
+			if isDigit(l.ch) {
 				l.nextNumericToken()
 				return
 			}
@@ -414,22 +413,22 @@ func startsEscape(p0, p1 rune) bool {
 // startsNumber implements https://www.w3.org/TR/css-syntax-3/#starts-with-a-number.
 func startsNumber(p0, p1, p2 rune) bool {
 	if p0 == '+' || p0 == '-' {
-		if unicode.IsDigit(p1) {
+		if isDigit(p1) {
 			return true
 		}
 
-		if p1 == '.' && unicode.IsDigit(p2) {
+		if p1 == '.' && isDigit(p2) {
 			return true
 		}
 
 		return false
 	}
 
-	if p0 == '.' && unicode.IsDigit(p1) {
+	if p0 == '.' && isDigit(p1) {
 		return true
 	}
 
-	return unicode.IsDigit(p0)
+	return isDigit(p0)
 }
 
 // nextNumericToken implements https://www.w3.org/TR/css-syntax-3/#consume-a-numeric-token
@@ -530,27 +529,27 @@ func (l *Lexer) nextNumber() {
 		l.step()
 	}
 
-	for unicode.IsDigit(l.ch) {
+	for isDigit(l.ch) {
 		l.step()
 	}
 
-	if l.ch == '.' && unicode.IsDigit(l.peek(0)) {
+	if l.ch == '.' && isDigit(l.peek(0)) {
 		l.step()
 		l.step()
 
-		for unicode.IsDigit(l.ch) {
+		for isDigit(l.ch) {
 			l.step()
 		}
 	}
 
-	if p0, p1 := l.peek(0), l.peek(1); (l.ch == 'e' || l.ch == 'E') && (unicode.IsDigit(p0) ||
-		((p0 == '+' || p0 == '-') && unicode.IsDigit(p1))) {
+	if p0, p1 := l.peek(0), l.peek(1); (l.ch == 'e' || l.ch == 'E') && (isDigit(p0) ||
+		((p0 == '+' || p0 == '-') && isDigit(p1))) {
 		l.step()
 		if l.ch == '+' || l.ch == '-' {
 			l.step()
 		}
 
-		for unicode.IsDigit(l.ch) {
+		for isDigit(l.ch) {
 			l.step()
 		}
 	}
diff --git a/internal/lexer/tokens.go b/internal/lexer/tokens.go
index 693353f..44c46f8 100644
--- a/internal/lexer/tokens.go
+++ b/internal/lexer/tokens.go
@@ -1,7 +1,5 @@
 package lexer
 
-import "unicode"
-
 // Token is the set of lexical tokens in CSS.
 type Token int
 
@@ -79,9 +77,14 @@ var tokens = [...]string{
 	RCurly: "}",
 }
 
+// isDigit implements https://www.w3.org/TR/css-syntax-3/#digit.
+func isDigit(r rune) bool {
+	return r >= '0' && r <= '9'
+}
+
 // isHexDigit implements https://www.w3.org/TR/css-syntax-3/#hex-digit.
 func isHexDigit(r rune) bool {
-	return unicode.IsDigit(r) || (r >= 'A' && r <= 'F') || (r >= 'a' && r <= 'f')
+	return isDigit(r) || (r >= 'A' && r <= 'F') || (r >= 'a' && r <= 'f')
 }
 
 // isWhitespace implements https://www.w3.org/TR/css-syntax-3/#whitespace.
-- 
2.43.0


From ced14a6e096125dae710535f508ce0dffef39703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 06/50] fix: an identifier starts with a name-start code point
 or an escape

---
 internal/lexer/lexer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 922ee3e..63d1d16 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -194,7 +194,7 @@ func (l *Lexer) Next() {
 				return
 			}
 
-			if startsIdentifier(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsIdentifier(l.ch, l.peek(0), l.peek(1)) {
 				l.nextIdentLikeToken()
 				return
 			}
@@ -389,11 +389,11 @@ func (l *Lexer) Next() {
 func startsIdentifier(p0, p1, p2 rune) bool {
 	switch p0 {
 	case '-':
-		return p1 == '-' || isNameCodePoint(p1) || startsEscape(p1, p2)
-	case '\n':
-		return false
+		return p1 == '-' || isNameStartCodePoint(p1) || startsEscape(p1, p2)
+	case '\\':
+		return startsEscape(p0, p1)
 	default:
-		return isNameCodePoint(p0)
+		return isNameStartCodePoint(p0)
 	}
 }
 
-- 
2.43.0


From 82088093c37a6eaeccbd513f92ab5cc261a2a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 07/50] fix: trailing whitespace is not part of an unquoted url

---
 internal/lexer/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 63d1d16..172ea3c 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -478,10 +478,12 @@ func (l *Lexer) nextIdentLikeToken() {
 
 		l.Current = URL
 		urlStart := l.lastPos
+		urlEnd := urlStart
 		for {
 			switch l.ch {
 			case ')':
-				l.CurrentString = l.source.Content[urlStart:l.lastPos]
+				// Trailing whitespace is not part of the url.
+				l.CurrentString = l.source.Content[urlStart:urlEnd]
 				l.step()
 				return
 			case -1:
@@ -491,6 +493,7 @@ func (l *Lexer) nextIdentLikeToken() {
 			case '\\':
 				if startsEscape(l.ch, l.peek(0)) {
 					l.nextEscaped()
+					urlEnd = l.lastPos
 					continue
 				}
 
@@ -506,6 +509,7 @@ func (l *Lexer) nextIdentLikeToken() {
 				}
 
 				l.step()
+				urlEnd = l.lastPos
 			}
 		}
 	}
-- 
2.43.0


From c42db748066a17c71550e977516ef524c3c67262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 08/50] fix: a full stop only starts a number if a digit
 follows it

---
 internal/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 172ea3c..ea99b5b 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -268,7 +268,7 @@ func (l *Lexer) Next() {
 			l.step()
 
 		case '.':
-			if startsNumber(l.peek(0), l.peek(1), l.peek(2)) {
+			if startsNumber(l.ch, l.peek(0), l.peek(1)) {
 				l.nextNumericToken()
 				return
 			}
-- 
2.43.0


From d035db26c09871b53253796d81320191845550aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 09/50] fix: report whitespace inside an unquoted url

---
 internal/lexer/lexer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index ea99b5b..69d5d61 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -482,7 +482,6 @@ func (l *Lexer) nextIdentLikeToken() {
 		for {
 			switch l.ch {
 			case ')':
-				// Trailing whitespace is not part of the url.
 				l.CurrentString = l.source.Content[urlStart:urlEnd]
 				l.step()
 				return
@@ -500,7 +499,13 @@ func (l *Lexer) nextIdentLikeToken() {
 				l.Errorf("unexpected token: %c", l.ch)
 			default:
 				if isWhitespace(l.ch) {
-					l.step()
+					// Whitespace may only trail the url, and is not part of it.
+					for isWhitespace(l.ch) {
+						l.step()
+					}
+					if l.ch != ')' {
+						l.Errorf("unexpected whitespace in url")
+					}
 					continue
 				}
 
-- 
2.43.0


From b282dd4a68af7f6fb157da969889c9549033482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:06 +0000
Subject: [PATCH 10/50] fix: treat U+0000 as a replacement character

---
 internal/lexer/lexer.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 69d5d61..a8f0345 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -94,7 +94,7 @@ func (l *Lexer) step() {
 		l.addLine(l.pos + size)
 	}
 
-	l.ch = toNewline(cp)
+	l.ch = preprocess(cp)
 	l.lastPos = l.pos
 	l.pos += size
 }
@@ -119,16 +119,20 @@ func (l *Lexer) peek(i int) rune {
 	if size == 0 {
 		return -1
 	}
-	return toNewline(cp)
+	return preprocess(cp)
 }
 
-// toNewline converts the codepoints that count as newlines. Line numbers only count
-// line feeds, with or without a carriage return.
-func toNewline(cp rune) rune {
-	if cp == '\r' || cp == '\f' {
+// preprocess implements https://www.w3.org/TR/css-syntax-3/#input-preprocessing. Note that
+// line numbers only count line feeds, with or without a carriage return.
+func preprocess(cp rune) rune {
+	switch cp {
+	case '\r', '\f':
 		return '\n'
+	case 0:
+		return utf8.RuneError
+	default:
+		return cp
 	}
-	return cp
 }
 
 // TokenEnd returns the end location of the current token.
-- 
2.43.0


From 5d5b3b704328ac84385b2671e940658d487457ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 11/50] fix: report an error in the first token of a stylesheet
 instead of panicking

---
 internal/parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index fb568a9..79960bb 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -9,7 +9,7 @@ import (
 
 // Parse parses an input stylesheet.
 func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
-	p := newParser(source)
+	var p *parser
 	defer func() {
 		if rErr := recover(); rErr != nil {
 			if errI, ok := rErr.(*lexer.Error); ok {
@@ -17,15 +17,16 @@ func Parse(source *sources.Source) (ss *ast.Stylesheet, err error) {
 				return
 			}
 
-			if errI, ok := rErr.(error); ok {
+			if errI, ok := rErr.(error); ok && p != nil {
 				panic(logging.LocationErrorf(source, p.lexer.TokenSpan(), "%v", errI))
 			}
 
 			// Re-panic unknown issues.
-			panic(err)
+			panic(rErr)
 		}
 	}()
 
+	p = newParser(source)
 	p.parse()
 	return p.ss, nil
 }
-- 
2.43.0


From 72c5ed50593cf34f6f88ee14050db2f720a657f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 12/50] fix: require exactly one prelude for a qualified rule

---
 internal/parser/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 79960bb..ce353f3 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -93,11 +93,18 @@ func (p *parser) parseQualifiedRule(isKeyframes bool) *ast.QualifiedRule {
 			p.lexer.Errorf("unexpected EOF")
 
 		case lexer.LCurly:
+			if r.Prelude == nil {
+				p.lexer.Errorf("expected selector")
+			}
 			r.Block = p.parseDeclarationBlock()
 			r.End = r.Block.Location().End
 			return r
 
 		default:
+			if r.Prelude != nil {
+				p.lexer.Errorf("expected %s, but got %s instead", lexer.LCurly, p.lexer.Current)
+			}
+
 			if isKeyframes {
 				r.Prelude = p.parseKeyframeSelectorList()
 				continue
-- 
2.43.0


From 3bb570fcdf2f6e807ce469d29399046d2256ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 13/50] fix: keep the descendant combinator after an attribute
 selector

---
 internal/parser/selectors.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 45b875d..5db50f9 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -170,6 +170,15 @@ func (p *parser) parseSelector() *ast.Selector {
 		case lexer.LBracket:
 			s.Parts = append(s.Parts, p.parseAttributeSelector())
 
+			// Whitespace is only a combinator if the selector continues after it.
+			if p.lexer.Current == lexer.Whitespace {
+				whitespace := &ast.Whitespace{Span: p.lexer.TokenSpan()}
+				p.lexer.Next()
+				if p.lexer.Current != lexer.LCurly {
+					s.Parts = append(s.Parts, whitespace)
+				}
+			}
+
 		default:
 			if len(s.Parts) == 0 {
 				p.lexer.Errorf("expected selector")
@@ -197,6 +206,7 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	p.lexer.Expect(lexer.Ident)
 	if p.lexer.Current == lexer.RBracket {
 		attr.End = p.lexer.TokenEnd()
+		p.lexer.RetainWhitespace = prev
 		p.lexer.Next()
 		return attr
 	}
@@ -227,6 +237,7 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 		p.lexer.Next()
 	}
 
+	p.lexer.RetainWhitespace = prev
 	p.lexer.Expect(lexer.RBracket)
 	return attr
 }
-- 
2.43.0


From cf3d776545a43f5c873b7383a580ceab69f39468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 14/50] fix: end a raw declaration with its block or the end of
 the input

---
 internal/parser/parser.go | 40 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index ce353f3..81f5392 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -152,11 +152,45 @@ func (p *parser) parseRaw() *ast.Raw {
 		Span: p.lexer.TokenSpan(),
 	}
 
-	for p.lexer.Current != lexer.Semicolon {
+	// closers is the stack of tokens that would close each open block.
+	var closers []lexer.Token
+
+raw:
+	for {
+		switch p.lexer.Current {
+		case lexer.EOF:
+			p.lexer.Errorf("unexpected EOF")
+
+		case lexer.LCurly:
+			closers = append(closers, lexer.RCurly)
+
+		case lexer.LBracket:
+			closers = append(closers, lexer.RBracket)
+
+		case lexer.LParen, lexer.FunctionStart:
+			closers = append(closers, lexer.RParen)
+
+		case lexer.RCurly, lexer.RBracket, lexer.RParen:
+			if n := len(closers); n > 0 {
+				if closers[n-1] == p.lexer.Current {
+					closers = closers[:n-1]
+				}
+			} else if p.lexer.Current == lexer.RCurly {
+				// This closes the block that the declaration is in.
+				break raw
+			}
+
+		case lexer.Semicolon:
+			if len(closers) == 0 {
+				raw.End = p.lexer.TokenEnd()
+				p.lexer.Next()
+				break raw
+			}
+		}
+
+		raw.End = p.lexer.TokenEnd()
 		p.lexer.Next()
 	}
-	raw.End = p.lexer.TokenEnd()
-	p.lexer.Next()
 
 	raw.Value = p.source.Content[raw.Start:raw.End]
 
-- 
2.43.0


From ac68b891005d696fa20700b3a93d33a88f3fbac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 15/50] fix: do not split a declaration at a token that cannot
 end it

---
 internal/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 81f5392..e68aa11 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -250,6 +250,9 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 				if len(decl.Values) == 0 {
 					p.lexer.Errorf("declaration must have a value")
 				}
+				if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.RCurly {
+					p.lexer.Errorf("unexpected token: %s", p.lexer.Current)
+				}
 				if lastValueEnd := decl.Values[len(decl.Values)-1].Location().End; lastValueEnd > decl.End {
 					decl.End = lastValueEnd
 				}
-- 
2.43.0


From a188a2603b8993df9fa3cd10cab2882acaf116d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 16/50] fix: only accept !important as the last part of a
 declaration

---
 internal/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index e68aa11..5a9bd21 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -237,13 +237,17 @@ func (p *parser) parseDeclaration() *ast.Declaration {
 			}
 			p.lexer.Next()
 
-			if !isImportantString(p.lexer.CurrentString) {
+			if p.lexer.Current != lexer.Ident || !isImportantString(p.lexer.CurrentString) {
 				p.lexer.Errorf("expected !important, unexpected token: %s", p.lexer.CurrentString)
 			}
 			decl.End = p.lexer.TokenEnd()
 			p.lexer.Next()
 			decl.Important = true
 
+			if p.lexer.Current != lexer.Semicolon && p.lexer.Current != lexer.RCurly {
+				p.lexer.Errorf("unexpected token after !important: %s", p.lexer.Current)
+			}
+
 		default:
 			val := p.parseValue()
 			if val == nil {
-- 
2.43.0


From d35d692494d9515e11bb507ce390d1d85bbb5a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 17/50] fix: report a function or math expression with a
 missing or unknown value

---
 internal/parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 5a9bd21..2af4339 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -370,7 +370,11 @@ func (p *parser) parseMathProduct() ast.Value {
 
 func (p *parser) parseMathParenthesizedExpression() ast.Value {
 	if p.lexer.Current != lexer.LParen {
-		return p.parseValue()
+		val := p.parseValue()
+		if val == nil {
+			p.lexer.Errorf("expected value, but got %s instead", p.lexer.Current)
+		}
+		return val
 	}
 
 	loc := p.lexer.TokenSpan()
@@ -492,7 +496,7 @@ func (p *parser) parseValue() ast.Value {
 				val := p.parseValue()
 				if val == nil {
 					// XXX: there's probably some backtracking to do here?
-					break arguments
+					p.lexer.Errorf("unexpected token: %s", p.lexer.Current)
 				}
 
 				fn.Arguments = append(fn.Arguments, val)
-- 
2.43.0


From bd22d8c2cb663697ae823d854337e6bf0b9dd28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 18/50] fix: report an unsupported at-rule instead of
 discarding parts of it

---
 internal/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 2af4339..58f553a 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -894,6 +894,9 @@ func (p *parser) parseGenericAtRule() {
 	}
 	p.lexer.Next()
 
+	if p.lexer.Current != lexer.LCurly {
+		p.lexer.Errorf("expected %s, but got %s instead", lexer.LCurly, p.lexer.Current)
+	}
 	r.Block = p.parseDeclarationBlock()
 	r.End = r.Block.Location().End
 
-- 
2.43.0


From 8829080d59ae24995d9c100cde9df846ad976fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 19/50] fix: handle media query lists that are empty or have an
 empty query

---
 internal/parser/parser.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 58f553a..ddee2ff 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -648,7 +648,12 @@ func (p *parser) parseMediaAtRule() {
 	}
 	p.lexer.Next()
 
-	r.Preludes = []ast.AtPrelude{p.parseMediaQueryList()}
+	queries := p.parseMediaQueryList()
+	if queries == nil {
+		// An empty list is allowed and always matches.
+		queries = &ast.MediaQueryList{Span: p.lexer.TokenSpan()}
+	}
+	r.Preludes = []ast.AtPrelude{queries}
 
 	block := &ast.QualifiedRuleBlock{
 		Span: p.lexer.TokenSpan(),
@@ -686,9 +691,14 @@ func (p *parser) parseMediaQueryList() *ast.MediaQueryList {
 		q := p.parseMediaQuery()
 		if q != nil {
 			l.Queries = append(l.Queries, q)
+		} else if len(l.Queries) > 0 {
+			p.lexer.Errorf("expected media query")
 		}
 
 		if p.lexer.Current == lexer.Comma {
+			if q == nil {
+				p.lexer.Errorf("expected media query")
+			}
 			p.lexer.Next()
 			continue
 		}
@@ -877,7 +887,7 @@ func (p *parser) parseCustomMediaAtRule() {
 
 	r.Preludes = append(r.Preludes, name)
 	queries := p.parseMediaQueryList()
-	if len(queries.Queries) != 1 {
+	if queries == nil || len(queries.Queries) != 1 {
 		p.lexer.Errorf("@custom-media rule requires a single media query argument")
 	}
 	r.Preludes = append(r.Preludes, queries.Queries[0])
-- 
2.43.0


From 0ac75cc3b3c54f0d4c13ab53ebd46e479a94c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 20/50] fix: report media features with a missing value

---
 internal/parser/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index ddee2ff..7d3fac3 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -771,6 +771,9 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 		}
 
 		secondValue := p.parseValue()
+		if secondValue == nil {
+			p.lexer.Errorf("expected value, but got %s instead", p.lexer.Current)
+		}
 
 		plain := &ast.MediaFeaturePlain{
 			Span:     startLoc,
@@ -790,6 +793,9 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 		r.Operator = p.parseMediaRangeOperator()
 
 		secondValue := p.parseValue()
+		if firstValue == nil || secondValue == nil {
+			p.lexer.Errorf("expected value on both sides of %s", r.Operator)
+		}
 
 		maybeIdent, ok := secondValue.(*ast.Identifier)
 		if !ok {
@@ -819,6 +825,9 @@ func (p *parser) parseMediaFeature() ast.MediaFeature {
 				p.lexer.Errorf("operators in a range must be the same")
 			}
 			r.RightValue = p.parseValue()
+			if r.RightValue == nil {
+				p.lexer.Errorf("expected value, but got %s instead", p.lexer.Current)
+			}
 		}
 
 		r.End = p.lexer.TokenEnd()
-- 
2.43.0


From 38b57d6cf8f40f227c7ac0b86e17dc46f74f339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 21/50] fix: require @import and @custom-media to end with a
 semicolon

---
 internal/parser/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/parser.go b/internal/parser/parser.go
index 7d3fac3..1ea0d0b 100644
--- a/internal/parser/parser.go
+++ b/internal/parser/parser.go
@@ -585,6 +585,10 @@ func (p *parser) parseImportAtRule() {
 		imp.Preludes = append(imp.Preludes, mq)
 	}
 
+	if p.lexer.Current != lexer.Semicolon {
+		p.lexer.Errorf("expected %s, but got %s instead", lexer.Semicolon, p.lexer.Current)
+	}
+
 	imp.End = imp.Preludes[len(imp.Preludes)-1].Location().End
 	p.ss.Nodes = append(p.ss.Nodes, imp)
 }
@@ -899,6 +903,9 @@ func (p *parser) parseCustomMediaAtRule() {
 	if queries == nil || len(queries.Queries) != 1 {
 		p.lexer.Errorf("@custom-media rule requires a single media query argument")
 	}
+	if p.lexer.Current != lexer.Semicolon {
+		p.lexer.Errorf("expected %s, but got %s instead", lexer.Semicolon, p.lexer.Current)
+	}
 	r.Preludes = append(r.Preludes, queries.Queries[0])
 	r.End = queries.Queries[0].End
 
-- 
2.43.0


From bb6aaf8ceab21b9e0560abb508f2859790daf6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 22/50] fix: only accept attribute matchers that are known

---
 internal/parser/selectors.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 5db50f9..19fa522 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -211,19 +211,19 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 		return attr
 	}
 
-	switch p.lexer.CurrentString {
-	case "^", "~", "$", "*", "|":
-		attr.PreOperator = p.lexer.CurrentString
-		p.lexer.Next()
-
-		if p.lexer.CurrentString != "=" {
-			p.lexer.Errorf("expected =, got %s: ", p.lexer.CurrentString)
+	if p.lexer.Current == lexer.Delim {
+		switch p.lexer.CurrentString {
+		case "^", "~", "$", "*", "|":
+			attr.PreOperator = p.lexer.CurrentString
+			p.lexer.Next()
 		}
-		p.lexer.Expect(lexer.Delim)
-	default:
-		p.lexer.Expect(lexer.Delim)
 	}
 
+	if p.lexer.Current == lexer.Delim && p.lexer.CurrentString != "=" {
+		p.lexer.Errorf("expected =, got %s: ", p.lexer.CurrentString)
+	}
+	p.lexer.Expect(lexer.Delim)
+
 	attr.Value = p.parseValue()
 	if attr.Value == nil {
 		p.lexer.Errorf("value must be specified")
-- 
2.43.0


From d655ff9d014b24c0d8c2b836caf9903bfbdd81df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 23/50] fix: report a type selector that does not start a
 compound selector

---
 internal/parser/selectors.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 19fa522..afdcbec 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -55,6 +55,13 @@ func (p *parser) parseSelector() *ast.Selector {
 			p.lexer.Next()
 
 		case lexer.Ident:
+			if len(s.Parts) > 0 {
+				switch s.Parts[len(s.Parts)-1].(type) {
+				case *ast.Whitespace, *ast.CombinatorSelector:
+				default:
+					p.lexer.Errorf("unexpected type selector: %s", p.lexer.CurrentString)
+				}
+			}
 			s.Parts = append(s.Parts, &ast.TypeSelector{
 				Span: p.lexer.TokenSpan(),
 				Name: p.lexer.CurrentString,
-- 
2.43.0


From 09c8d86671c01d3bc2863c4f7073dcbe1be97ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 24/50] fix: report nth arguments that are missing or not of
 the form An+B

---
 internal/parser/selectors.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index afdcbec..1255640 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -151,6 +151,8 @@ func (p *parser) parseSelector() *ast.Selector {
 							Value: p.lexer.CurrentString,
 						}
 						p.lexer.Next()
+					default:
+						p.lexer.Errorf("expected even, odd, or an+b syntax")
 					}
 				} else {
 					pc.Arguments = p.parseSelectorList()
@@ -302,6 +304,13 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		}
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Number)
+	} else {
+		p.lexer.Errorf("expected an+b syntax")
+	}
+
+	// There is nothing left to read if we already have B.
+	if v.B != "" {
+		return v
 	}
 
 	// If there was no whitespace, e.g. n+3, then the lexer will have given
@@ -322,6 +331,9 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		p.lexer.Next()
 
 		v.B = p.lexer.CurrentNumeral
+		if strings.HasPrefix(v.B, "-") || strings.HasPrefix(v.B, "+") {
+			p.lexer.Errorf("expected number after operator")
+		}
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Number)
 	}
-- 
2.43.0


From cfb50756daf2e207b3d2e3e500d76912d4030629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 25/50] fix: quote strings with a mark that does not end them
 early

---
 internal/printer/printer.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index b0a43a9..dfb87f2 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -123,6 +123,21 @@ func (p *printer) addMapping(loc ast.Span) {
 	p.lastWritten = p.s.Len()
 }
 
+// stringMark returns the quotation mark to use for a string literal. The value is
+// the literal text from the source, so it can contain at most one of the two marks
+// without an escape.
+func stringMark(value string) rune {
+	for i := 0; i < len(value); i++ {
+		switch value[i] {
+		case '\\':
+			i++ // Skip the escaped codepoint.
+		case '"':
+			return '\''
+		}
+	}
+	return '"'
+}
+
 // print prints the current ast node to the printer output.
 func (p *printer) print(in ast.Node) {
 	switch node := in.(type) {
@@ -223,9 +238,10 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('%')
 
 	case *ast.String:
-		p.s.WriteRune('"')
+		mark := stringMark(node.Value)
+		p.s.WriteRune(mark)
 		p.s.WriteString(node.Value)
-		p.s.WriteRune('"')
+		p.s.WriteRune(mark)
 
 	case *ast.Identifier:
 		p.s.WriteString(node.Value)
-- 
2.43.0


From ddfdd160bb52161ba7956a5bd65df72ae0630f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 26/50] fix: separate function arguments that are not separated
 by a comma

---
 internal/printer/printer.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index dfb87f2..35a5612 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -138,6 +138,23 @@ func stringMark(value string) rune {
 	return '"'
 }
 
+// printValues prints a list of values.
+func (p *printer) printValues(values []ast.Value) {
+	for i, val := range values {
+		p.print(val)
+
+		// Print space if we're not the last value and the previous or current
+		// value was not a comma.
+		if i+1 < len(values) {
+			if _, nextIsComma := values[i+1].(*ast.Comma); !nextIsComma {
+				if _, isComma := val.(*ast.Comma); !isComma {
+					p.s.WriteRune(' ')
+				}
+			}
+		}
+	}
+}
+
 // print prints the current ast node to the printer output.
 func (p *printer) print(in ast.Node) {
 	switch node := in.(type) {
@@ -208,19 +225,7 @@ func (p *printer) print(in ast.Node) {
 	case *ast.Declaration:
 		p.s.WriteString(node.Property)
 		p.s.WriteRune(':')
-		for i, val := range node.Values {
-			p.print(val)
-
-			// Print space if we're not the last value and the previous or current
-			// value was not a comma.
-			if i+1 < len(node.Values) {
-				if _, nextIsComma := node.Values[i+1].(*ast.Comma); !nextIsComma {
-					if _, isComma := val.(*ast.Comma); !isComma {
-						p.s.WriteRune(' ')
-					}
-				}
-			}
-		}
+		p.printValues(node.Values)
 
 		if node.Important {
 			p.s.WriteString("!important")
@@ -249,9 +254,7 @@ func (p *printer) print(in ast.Node) {
 	case *ast.Function:
 		p.s.WriteString(node.Name)
 		p.s.WriteRune('(')
-		for _, arg := range node.Arguments {
-			p.print(arg)
-		}
+		p.printValues(node.Arguments)
 		p.s.WriteRune(')')
 
 	case *ast.Brackets:
-- 
2.43.0


From 8b2eb010d4a48cac41ee964bade3a27519d48e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 27/50] fix: print the commas of a keyframe selector list

---
 internal/printer/printer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 35a5612..9758a99 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -196,8 +196,12 @@ func (p *printer) print(in ast.Node) {
 		}
 
 	case *ast.KeyframeSelectorList:
-		for _, s := range node.Selectors {
+		for i, s := range node.Selectors {
 			p.print(s)
+
+			if i+1 < len(node.Selectors) {
+				p.s.WriteRune(',')
+			}
 		}
 
 	case *ast.QualifiedRule:
-- 
2.43.0


From e70ac9faa394e9ea9dedd6994a7353946fca76b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 28/50] fix: print the matcher and modifier of an attribute
 selector

---
 internal/printer/printer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 9758a99..44a9a81 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -298,8 +298,13 @@ func (p *printer) print(in ast.Node) {
 		p.s.WriteRune('[')
 		p.s.WriteString(node.Property)
 		if node.Value != nil {
+			p.s.WriteString(node.PreOperator)
 			p.s.WriteRune('=')
 			p.print(node.Value)
+			if node.Modifier != "" {
+				p.s.WriteRune(' ')
+				p.s.WriteString(node.Modifier)
+			}
 		}
 		p.s.WriteRune(']')
 
-- 
2.43.0


From b736a0c0a730c6e92daa079fa2a2534f95d97eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 29/50] fix: print An+B values without an A part

---
 internal/printer/printer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 44a9a81..8619257 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -356,10 +356,14 @@ func (p *printer) print(in ast.Node) {
 			wrote = true
 		}
 		if node.B != "" && node.B != "0" {
-			if wrote {
+			if wrote || node.Operator == "-" {
 				p.s.WriteString(node.Operator)
 			}
 			p.s.WriteString(node.B)
+			wrote = true
+		}
+		if !wrote {
+			p.s.WriteRune('0')
 		}
 
 	case *ast.MediaQueryList:
-- 
2.43.0


From 0f880a3c82de014d6fe59ea47babc6aaf6e40bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 30/50] fix: escape the path in the source map

---
 internal/printer/printer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/printer/printer.go b/internal/printer/printer.go
index 8619257..f04ca6b 100644
--- a/internal/printer/printer.go
+++ b/internal/printer/printer.go
@@ -62,10 +62,14 @@ func (p *printer) printMapping() {
 	}
 
 	b := strings.Builder{}
-	b.WriteString(`{"version": 3,"file":"`)
-	b.WriteString(p.options.OriginalSource.Path)
+	b.WriteString(`{"version": 3,"file":`)
+	path, err := json.Marshal(p.options.OriginalSource.Path)
+	if err != nil {
+		panic(err)
+	}
+	b.Write(path)
 	// XXX: sources content and names.
-	b.WriteString(`","sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
+	b.WriteString(`,"sourceRoot":"", "sources": ["source.css"], "sourcesContent":[`)
 	out, err := json.Marshal(p.options.OriginalSource.Content)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 2c89db529975d56307f3161d82ecb4a8299d2664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 31/50] fix: keep an import rule once when there are no import
 replacements

---
 internal/transformer/transformer.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 771bca2..19f8f80 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -179,10 +179,6 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 		case *ast.AtRule:
 			switch node.Name {
 			case "import":
-				if t.ImportReplacements == nil {
-					rv = append(rv, node)
-				}
-
 				imported, ok := t.ImportReplacements[node]
 				if !ok {
 					rv = append(rv, node)
-- 
2.43.0


From c296333641fab2adeb55f22284e7c6ee49babb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 32/50] fix: expand every any-link selector, also in pseudo
 class arguments

---
 internal/transformer/transformer.go | 68 +++++++++++++++++++----------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 19f8f80..7361cdc 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -77,35 +77,57 @@ func (t *transformer) addWarn(loc ast.Node, fmt string, args ...interface{}) {
 func (t *transformer) transformSelectors(nodes []*ast.Selector) []*ast.Selector {
 	newNodes := make([]*ast.Selector, 0, len(nodes))
 	for _, n := range nodes {
-		newParts := make([]ast.SelectorPart, 0, len(n.Parts))
-		for index, p := range n.Parts {
-			switch part := p.(type) {
-			case *ast.PseudoClassSelector:
-				if part.Name != "any-link" || t.AnyLink == transforms.AnyLinkPassthrough {
-					newParts = append(newParts, p)
-					break
-				}
-
-				// Replace one of them with :link.
-				newParts = append(
-					newParts,
-					&ast.PseudoClassSelector{Name: "link"},
-				)
-
-				// Make a duplicate with :visited.
-				duplicate := *n
-				duplicate.Parts[index] = &ast.PseudoClassSelector{Name: "visited"}
-				newNodes = append(newNodes, &duplicate)
+		newNodes = append(newNodes, t.transformSelector(n)...)
+	}
+	return newNodes
+}
 
-			default:
+// transformSelector returns the selectors that together match what n matches. There is more
+// than one if n needs to be duplicated, and each of them has its own list of parts.
+func (t *transformer) transformSelector(n *ast.Selector) []*ast.Selector {
+	newParts := make([]ast.SelectorPart, 0, len(n.Parts))
+	for index, p := range n.Parts {
+		switch part := p.(type) {
+		case *ast.PseudoClassSelector:
+			if part.Name != "any-link" || part.Arguments != nil || t.AnyLink == transforms.AnyLinkPassthrough {
+				t.transformPseudoClassArguments(part)
 				newParts = append(newParts, p)
+				break
+			}
+
+			// Make a duplicate for both :visited and :link. The rest of the selector may
+			// need to be duplicated for each of those again.
+			rest := t.transformSelector(&ast.Selector{Span: n.Span, Parts: n.Parts[index+1:]})
+			newNodes := make([]*ast.Selector, 0, 2*len(rest))
+			for _, name := range []string{"visited", "link"} {
+				for _, r := range rest {
+					parts := make([]ast.SelectorPart, 0, len(n.Parts))
+					parts = append(parts, newParts...)
+					parts = append(parts, &ast.PseudoClassSelector{Name: name})
+					parts = append(parts, r.Parts...)
+					newNodes = append(newNodes, &ast.Selector{Span: n.Span, Parts: parts})
+				}
 			}
+			return newNodes
+
+		case *ast.PseudoElementSelector:
+			t.transformPseudoClassArguments(part.Inner)
+			newParts = append(newParts, p)
+
+		default:
+			newParts = append(newParts, p)
 		}
+	}
 
-		n.Parts = newParts
-		newNodes = append(newNodes, n)
+	n.Parts = newParts
+	return []*ast.Selector{n}
+}
+
+// transformPseudoClassArguments transforms the selectors in the arguments of a pseudo class, e.g. :not().
+func (t *transformer) transformPseudoClassArguments(part *ast.PseudoClassSelector) {
+	if args, ok := part.Arguments.(*ast.SelectorList); ok {
+		args.Selectors = t.transformSelectors(args.Selectors)
 	}
-	return newNodes
 }
 
 func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
-- 
2.43.0


From fe7256040c6000ac58547c019c2ce7dae0e31ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 33/50] fix: transform the rules and declarations inside
 at-rules

---
 internal/transformer/transformer.go | 52 ++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 7361cdc..933928f 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -186,14 +186,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 				declBlock.Declarations = newDecls
 			}()
 
-			selList, ok := node.Prelude.(*ast.SelectorList)
-			if !ok {
-				t.addError(node.Prelude, "expected selector list for qualified rule")
-			}
-			selList.Selectors = t.transformSelectors(selList.Selectors)
-			node.Block = t.transformBlock(node.Block)
-
-			if node.Block == nil {
+			if !t.transformQualifiedRule(node) {
 				continue
 			}
 			rv = append(rv, node)
@@ -239,9 +232,11 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 			case "media":
 				mq := node.Preludes[0].(*ast.MediaQueryList)
 				mq.Queries = t.transformMediaQueries(mq.Queries)
+				t.transformAtRuleBlock(node.Block)
 				rv = append(rv, node)
 
 			default:
+				t.transformAtRuleBlock(node.Block)
 				rv = append(rv, node)
 			}
 
@@ -252,6 +247,47 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	return rv
 }
 
+// transformQualifiedRule transforms a rule in place. It returns false if there is nothing
+// left of the rule.
+func (t *transformer) transformQualifiedRule(node *ast.QualifiedRule) bool {
+	switch prelude := node.Prelude.(type) {
+	case *ast.SelectorList:
+		prelude.Selectors = t.transformSelectors(prelude.Selectors)
+
+	case *ast.KeyframeSelectorList:
+		// An empty keyframe is still a keyframe.
+		t.transformAtRuleBlock(node.Block)
+		return true
+
+	default:
+		t.addError(node.Prelude, "expected selector list for qualified rule")
+	}
+
+	block := t.transformBlock(node.Block)
+	if block == nil {
+		return false
+	}
+	node.Block = block
+	return true
+}
+
+// transformAtRuleBlock transforms the contents of a block that is kept even if it is empty.
+func (t *transformer) transformAtRuleBlock(block ast.Block) {
+	switch node := block.(type) {
+	case *ast.QualifiedRuleBlock:
+		newRules := make([]*ast.QualifiedRule, 0, len(node.Rules))
+		for _, r := range node.Rules {
+			if t.transformQualifiedRule(r) {
+				newRules = append(newRules, r)
+			}
+		}
+		node.Rules = newRules
+
+	case *ast.DeclarationBlock:
+		node.Declarations = t.transformDeclarations(node.Declarations)
+	}
+}
+
 func (t *transformer) transformMediaQueries(queries []*ast.MediaQuery) []*ast.MediaQuery {
 	newQueries := make([]*ast.MediaQuery, 0, len(queries))
 	for _, q := range queries {
-- 
2.43.0


From a267fd632418027afc770c4fb12a361575d60633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 34/50] fix: only read custom properties from rules whose
 selector is :root

---
 internal/transformer/transformer.go | 44 +++++++++++++++++------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 933928f..0a1ae8d 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -130,6 +130,31 @@ func (t *transformer) transformPseudoClassArguments(part *ast.PseudoClassSelecto
 	}
 }
 
+// isRootSelector returns whether or not the list is the :root selector and nothing else.
+func isRootSelector(selList *ast.SelectorList) bool {
+	if len(selList.Selectors) != 1 {
+		return false
+	}
+
+	isRoot := false
+	for _, p := range selList.Selectors[0].Parts {
+		switch part := p.(type) {
+		case *ast.Whitespace:
+			// Whitespace around the selector does not matter.
+
+		case *ast.PseudoClassSelector:
+			if isRoot || part.Name != "root" || part.Arguments != nil {
+				return false
+			}
+			isRoot = true
+
+		default:
+			return false
+		}
+	}
+	return isRoot
+}
+
 func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 	rv := make([]ast.Node, 0, len(nodes))
 	for _, value := range nodes {
@@ -141,24 +166,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					return
 				}
 
-				isRoot := false
-				for _, sel := range selList.Selectors {
-					if len(sel.Parts) != 1 {
-						isRoot = true
-						break
-					}
-				}
-
-				if !isRoot {
-					return
-				}
-
-				rootSel, ok := selList.Selectors[0].Parts[0].(*ast.PseudoClassSelector)
-				if !ok {
-					return
-				}
-
-				if rootSel.Name != "root" {
+				if !isRootSelector(selList) {
 					return
 				}
 
-- 
2.43.0


From b9dad83edc4fa255271607e55b52c8cb1dd66257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 35/50] fix: resolve var() inside definitions, fallbacks,
 functions and math expressions

---
 internal/transformer/transformer.go | 62 +++++++++++++++++------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 0a1ae8d..34cc38a 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -181,7 +181,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					case *ast.Declaration:
 
 						if strings.HasPrefix(d.Property, "--") && t.variables != nil {
-							t.variables[d.Property] = d.Values
+							t.variables[d.Property] = t.transformValues(d.Values)
 							continue
 						}
 						newDecls = append(newDecls, d)
@@ -465,11 +465,11 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 		case *ast.Function:
 			newValues := []ast.Value{v}
 			func() {
-				if v.Name != "var" {
-					return
-				}
-
-				if t.variables == nil {
+				if v.Name != "var" || t.variables == nil {
+					// The arguments could contain other functions.
+					fn := *v
+					fn.Arguments = t.transformValues(v.Arguments)
+					v, newValues = &fn, []ast.Value{&fn}
 					return
 				}
 
@@ -488,7 +488,7 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 				if !ok {
 					// The first argument is the value, the second is a comma.
 					if len(v.Arguments) > 2 {
-						newValues = v.Arguments[2:]
+						newValues = t.transformValues(v.Arguments[2:])
 						return
 					}
 
@@ -513,28 +513,12 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				args := t.transformValues([]ast.Value{v.Arguments[0]})
-				if len(args) != 1 {
-					t.addWarn(v, "expected single argument for calc()")
-					return
-				}
-
-				arg, ok := args[0].(*ast.MathExpression)
+				arg, ok := v.Arguments[0].(*ast.MathExpression)
 				if !ok {
 					return
 				}
 
-				l, r := t.transformValues([]ast.Value{arg.Left}), t.transformValues([]ast.Value{arg.Right})
-				if len(l) != 1 {
-					t.addWarn(arg.Left, "expected left-hand side of math expression to be a single value")
-					return
-				}
-				if len(r) != 1 {
-					t.addWarn(arg.Right, "expected right-hand side of math expression to be a single value")
-					return
-				}
-
-				newValue := t.evaluateMathExpression(l[0], r[0], arg.Operator)
+				newValue := t.evaluateMathExpression(arg.Left, arg.Right, arg.Operator)
 				if newValue == nil {
 					return
 				}
@@ -544,6 +528,23 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 
 			rv = append(rv, newValues...)
 
+		case *ast.Brackets:
+			rv = append(rv, &ast.Brackets{Span: v.Span, Values: t.transformValues(v.Values)})
+
+		case *ast.MathExpression:
+			rv = append(rv, &ast.MathExpression{
+				Span:     v.Span,
+				Operator: v.Operator,
+				Left:     t.transformMathOperand(v.Left, "left-hand side"),
+				Right:    t.transformMathOperand(v.Right, "right-hand side"),
+			})
+
+		case *ast.MathParenthesizedExpression:
+			rv = append(rv, &ast.MathParenthesizedExpression{
+				Span:  v.Span,
+				Value: t.transformMathOperand(v.Value, "contents"),
+			})
+
 		default:
 			rv = append(rv, v)
 		}
@@ -552,6 +553,17 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 	return rv
 }
 
+// transformMathOperand transforms an operand of a math expression. The operand is kept as-is
+// if it is not a single value afterwards.
+func (t *transformer) transformMathOperand(operand ast.Value, description string) ast.Value {
+	values := t.transformValues([]ast.Value{operand})
+	if len(values) != 1 {
+		t.addWarn(operand, "expected %s of math expression to be a single value", description)
+		return operand
+	}
+	return values[0]
+}
+
 func (t *transformer) doMath(left, right, op string) (float64, error) {
 	leftValue, err := strconv.ParseFloat(left, 10)
 	if err != nil {
-- 
2.43.0


From abd50f85ca5209e6ae45651db5851051eda3e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 36/50] fix: do not report valid math expressions that cannot
 be reduced

---
 internal/transformer/transformer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 34cc38a..eb961ff 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -651,6 +651,10 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		// left.Right.Unit case: doMath on left.Right.Value and right.Value and return left with Right = [the result of doMath]
 		// left.Left.Unit case: doMath on left.Left.Value and right.Value and return left with Left = [the result of doMath]
 
+		case *ast.Function, *ast.Identifier, *ast.MathExpression, *ast.MathParenthesizedExpression:
+			// Valid css, but we do not know the value.
+			return nil
+
 		default:
 			t.addError(l, "cannot perform %s on this type", op)
 			return nil
@@ -687,6 +691,12 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		}
 
 	case "/":
+		switch r.(type) {
+		case *ast.Function, *ast.Identifier, *ast.MathExpression, *ast.MathParenthesizedExpression:
+			// Valid css, but we do not know the value.
+			return nil
+		}
+
 		rightAsDimension, rightIsDimension := r.(*ast.Dimension)
 		if !rightIsDimension || rightAsDimension.Unit != "" {
 			t.addError(l, "right side of division must be a number (non-percentage/dimension)")
@@ -706,7 +716,9 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 				Unit:  left.Unit,
 			}
 
-			// case *ast.MathExpression
+		case *ast.Function, *ast.Identifier, *ast.MathExpression, *ast.MathParenthesizedExpression:
+			// Valid css, but we do not know the value.
+			return nil
 
 		default:
 			t.addError(l, "cannot perform %s on this type", op)
-- 
2.43.0


From 25da9ad44b9d0f9c93c61a21f05cefe3aea0d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 37/50] fix: report math that overflows instead of printing an
 infinite value

---
 internal/transformer/transformer.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index eb961ff..242fc79 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -2,6 +2,7 @@ package transformer
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -574,21 +575,27 @@ func (t *transformer) doMath(left, right, op string) (float64, error) {
 	if err != nil {
 		return 0, fmt.Errorf("could not parse dimension value: %s", right)
 	}
+	var value float64
 	switch op {
 	case "+":
-		return leftValue + rightValue, nil
+		value = leftValue + rightValue
 	case "-":
-		return leftValue - rightValue, nil
+		value = leftValue - rightValue
 	case "*":
-		return leftValue * rightValue, nil
+		value = leftValue * rightValue
 	case "/":
 		if rightValue == 0 {
 			return 0, fmt.Errorf("cannot divide by zero")
 		}
-		return leftValue / rightValue, nil
+		value = leftValue / rightValue
 	default:
 		return 0, fmt.Errorf("unknown op: %s", op)
 	}
+
+	if math.IsInf(value, 0) {
+		return 0, fmt.Errorf("result of %s %s %s is too large", left, op, right)
+	}
+	return value, nil
 }
 
 // evaluateMathExpression attempts to add l + r. If sub is true, subtraction will be applied
-- 
2.43.0


From 21767a46f7c61bde6af6560bab65c4f4a35b0fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 38/50] fix: transform the queries of custom media definitions
 and import rules

---
 internal/transformer/transformer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 242fc79..6e3b1ff 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -205,6 +205,11 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 			case "import":
 				imported, ok := t.ImportReplacements[node]
 				if !ok {
+					for _, prelude := range node.Preludes {
+						if mq, ok := prelude.(*ast.MediaQueryList); ok {
+							mq.Queries = t.transformMediaQueries(mq.Queries)
+						}
+					}
 					rv = append(rv, node)
 					break
 				}
@@ -235,6 +240,7 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 						return
 					}
 
+					query.Parts = t.transformMediaQueryParts(query.Parts)
 					t.customMedia[name.Value] = query
 				}()
 
-- 
2.43.0


From 524b87a1e496772b46cafe71eabe3560cfed749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 39/50] fix: report problems in an imported file at their
 position in that file

---
 internal/transformer/transformer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index 6e3b1ff..dd497e6 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -28,6 +28,10 @@ type Options struct {
 	// ImportReplacements is the set of import references to inline. ImportReplacements must be non-nil
 	// if ImportRules is set to ImportRulesInline.
 	ImportReplacements map[*ast.AtRule]*ast.Stylesheet
+
+	// ImportSources is the set of sources that ImportReplacements were parsed from. It is used to
+	// report error locations inside of inlined content.
+	ImportSources map[*ast.AtRule]*sources.Source
 }
 
 // Transform takes a pass over the input AST and runs various
@@ -218,7 +222,12 @@ func (t *transformer) transformNodes(nodes []ast.Node) []ast.Node {
 					t.addWarn(node, "@import transform does not yet support @supports or media queries")
 				}
 
+				importer := t.OriginalSource
+				if source, ok := t.ImportSources[node]; ok {
+					t.OriginalSource = source
+				}
 				rv = append(rv, t.transformNodes(imported.Nodes)...)
+				t.OriginalSource = importer
 
 			case "custom-media":
 				func() {
-- 
2.43.0


From b416e688066333926982ace34c4eaea2cca0d4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 40/50] fix: do not share loop variables between goroutines

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index f559852..7459b55 100644
--- a/api.go
+++ b/api.go
@@ -181,6 +181,7 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
 	var wg errgroup.Group
 	for _, imp := range ss.Imports {
+		imp := imp
 		wg.Go(func() error {
 			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
 			if err != nil {
@@ -225,6 +226,7 @@ func Compile(opts Options) *Result {
 	var wg errgroup.Group
 
 	for _, e := range opts.Entry {
+		e := e
 		wg.Go(func() error {
 			c.parseFile(e, true)
 			return nil
-- 
2.43.0


From 110f869bd12de3864a7a0911caa8a3db56607fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 41/50] fix: synchronize source indices and outputs

---
 api.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/api.go b/api.go
index 7459b55..8d33ddd 100644
--- a/api.go
+++ b/api.go
@@ -72,7 +72,8 @@ type compilation struct {
 	astsByIndex   map[int]*ast.Stylesheet
 
 	// outputsByIndex is the set of sources to write outputs for.
-	outputsByIndex map[int]struct{}
+	outputsByIndexMu sync.Mutex
+	outputsByIndex   map[int]struct{}
 
 	result *Result
 
@@ -109,15 +110,21 @@ func (c *compilation) addSource(path string) (int, error) {
 	}
 
 	c.sourcesMu.Lock()
+	defer c.sourcesMu.Unlock()
+	if i, ok := c.sources[abs]; ok {
+		// Someone else added the same file while we were reading it.
+		return i, nil
+	}
+
 	i := c.nextIndex
-	c.sources[abs] = i
-	c.sourcesMu.Unlock()
+	c.nextIndex++
 
+	// The source needs to be available to anyone that can see its index.
 	c.sourcesByIndexMu.Lock()
 	c.sourcesByIndex[i] = source
 	c.sourcesByIndexMu.Unlock()
 
-	c.nextIndex++
+	c.sources[abs] = i
 	return i, nil
 }
 
@@ -155,7 +162,9 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	}
 
 	if hasOutput {
+		c.outputsByIndexMu.Lock()
 		c.outputsByIndex[idx] = struct{}{}
+		c.outputsByIndexMu.Unlock()
 	}
 
 	c.astsByIndexMu.RLock()
-- 
2.43.0


From cff20fdc1af99ad53f781495ffb1ca38243e6884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 42/50] fix: serialize reports from the transformer

---
 api.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 8d33ddd..8ec9693 100644
--- a/api.go
+++ b/api.go
@@ -146,6 +146,16 @@ func (c *compilation) addError(err error) {
 	c.reporter.AddError(err)
 }
 
+// syncReporter serializes reports from concurrent parts of the compilation.
+type syncReporter struct {
+	c *compilation
+}
+
+// AddError implements Reporter.
+func (r syncReporter) AddError(err error) {
+	r.c.addError(err)
+}
+
 // parseFile assigns the file a source index and parses the source. It also
 // looks at imported files and adds them to the compilation. hasOutput should
 // be called if the file should be included in compilation output.
@@ -214,7 +224,7 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	opts := transformer.Options{
 		Options:        c.transforms,
 		OriginalSource: source,
-		Reporter:       c.reporter,
+		Reporter:       syncReporter{c},
 	}
 
 	if c.transforms.ImportRules == transforms.ImportRulesInline {
-- 
2.43.0


From f36481b1dbe72892555473828b6d988fcc5e0381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 43/50] fix: support import cycles and files that are imported
 more than once

---
 api.go | 126 +++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 83 insertions(+), 43 deletions(-)

diff --git a/api.go b/api.go
index 8ec9693..56922ce 100644
--- a/api.go
+++ b/api.go
@@ -39,6 +39,7 @@ func newCompilation(opts Options) *compilation {
 		sourcesByIndex: make(map[int]*sources.Source),
 		outputsByIndex: make(map[int]struct{}),
 		astsByIndex:    make(map[int]*ast.Stylesheet),
+		importsByIndex: make(map[int][]int),
 		result:         newResult(),
 		reporter:       logging.DefaultReporter,
 		transforms:     opts.Transforms,
@@ -71,6 +72,10 @@ type compilation struct {
 	astsByIndexMu sync.RWMutex
 	astsByIndex   map[int]*ast.Stylesheet
 
+	// importsByIndex has the source index for each of the imports of a source, or -1 if
+	// there is none. It is also synchronized by astsByIndexMu.
+	importsByIndex map[int][]int
+
 	// outputsByIndex is the set of sources to write outputs for.
 	outputsByIndexMu sync.Mutex
 	outputsByIndex   map[int]struct{}
@@ -85,23 +90,23 @@ type compilation struct {
 }
 
 // addSource will read in a path and assign it a source index. If
-// it's already been loaded, the cached source is returned.
-func (c *compilation) addSource(path string) (int, error) {
+// it's already been loaded, the cached source is returned and isNew is false.
+func (c *compilation) addSource(path string) (i int, isNew bool, err error) {
 	abs, err := filepath.Abs(path)
 	if err != nil {
-		return 0, oops.Wrapf(err, "failed to make path absolute: %s", path)
+		return 0, false, oops.Wrapf(err, "failed to make path absolute: %s", path)
 	}
 
 	c.sourcesMu.RLock()
 	if _, ok := c.sources[abs]; ok {
 		defer c.sourcesMu.RUnlock()
-		return c.sources[abs], nil
+		return c.sources[abs], false, nil
 	}
 	c.sourcesMu.RUnlock()
 
 	in, err := ioutil.ReadFile(abs)
 	if err != nil {
-		return 0, oops.Wrapf(err, "failed to read file: %s", path)
+		return 0, false, oops.Wrapf(err, "failed to read file: %s", path)
 	}
 
 	source := &sources.Source{
@@ -113,10 +118,10 @@ func (c *compilation) addSource(path string) (int, error) {
 	defer c.sourcesMu.Unlock()
 	if i, ok := c.sources[abs]; ok {
 		// Someone else added the same file while we were reading it.
-		return i, nil
+		return i, false, nil
 	}
 
-	i := c.nextIndex
+	i = c.nextIndex
 	c.nextIndex++
 
 	// The source needs to be available to anyone that can see its index.
@@ -125,7 +130,7 @@ func (c *compilation) addSource(path string) (int, error) {
 	c.sourcesByIndexMu.Unlock()
 
 	c.sources[abs] = i
-	return i, nil
+	return i, true, nil
 }
 
 func newResult() *Result {
@@ -160,15 +165,14 @@ func (r syncReporter) AddError(err error) {
 // looks at imported files and adds them to the compilation. hasOutput should
 // be called if the file should be included in compilation output.
 //
-// parseFile also runs the last transformation pass on the output. Note that we
-// don't make this function print the output as well so that we can make the current
-// file available to any callers as a dependency.
-func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
+// It returns the source index, or -1 if the file could not be read. Only the first call for
+// a file parses it. Other calls, e.g. from an import cycle, do not wait for that to finish.
+func (c *compilation) parseFile(file string, hasOutput bool) int {
 	// Assign the file a source index.
-	idx, err := c.addSource(file)
+	idx, isNew, err := c.addSource(file)
 	if err != nil {
 		c.addError(err)
-		return nil
+		return -1
 	}
 
 	if hasOutput {
@@ -177,12 +181,9 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 		c.outputsByIndexMu.Unlock()
 	}
 
-	c.astsByIndexMu.RLock()
-	if ss, ok := c.astsByIndex[idx]; ok {
-		c.astsByIndexMu.RUnlock()
-		return ss
+	if !isNew {
+		return idx
 	}
-	c.astsByIndexMu.RUnlock()
 
 	c.sourcesByIndexMu.RLock()
 	source := c.sourcesByIndex[idx]
@@ -190,17 +191,16 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 	ss, err := parser.Parse(source)
 	if err != nil {
 		c.addError(err)
-		return nil
+		return idx
 	}
 
 	// Immediately look at the imports from the file and feed those dependencies
-	// into parseFile as well. If we're set to inline imports, then we'll use
-	// collect those dependency ASTs to let the transformer replace them.
-	var mu sync.Mutex
-	replacements := make(map[*ast.AtRule]*ast.Stylesheet)
+	// into parseFile as well.
+	imports := make([]int, len(ss.Imports))
 	var wg errgroup.Group
-	for _, imp := range ss.Imports {
-		imp := imp
+	for i, imp := range ss.Imports {
+		i, imp := i, imp
+		imports[i] = -1
 		wg.Go(func() error {
 			rel, err := c.resolver.Resolve(imp.Value, filepath.Dir(source.Path))
 			if err != nil {
@@ -209,33 +209,74 @@ func (c *compilation) parseFile(file string, hasOutput bool) *ast.Stylesheet {
 			}
 
 			// If import follow is on, then every referenced file makes it to the output.
-			imported := c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
-
-			mu.Lock()
-			defer mu.Unlock()
-			if imported != nil {
-				replacements[imp.AtRule] = imported
-			}
+			imports[i] = c.parseFile(rel, c.transforms.ImportRules == transforms.ImportRulesFollow)
 			return nil
 		})
 	}
 	wg.Wait()
 
+	c.astsByIndexMu.Lock()
+	c.astsByIndex[idx] = ss
+	c.importsByIndex[idx] = imports
+	c.astsByIndexMu.Unlock()
+	return idx
+}
+
+// transformFile runs the last transformation pass on a source. It must only be called
+// after all files are parsed, once for each source.
+func (c *compilation) transformFile(idx int) *ast.Stylesheet {
 	opts := transformer.Options{
 		Options:        c.transforms,
-		OriginalSource: source,
+		OriginalSource: c.sourcesByIndex[idx],
 		Reporter:       syncReporter{c},
 	}
 
+	// If we're set to inline imports, then collect the ASTs of the dependencies to let
+	// the transformer replace them.
 	if c.transforms.ImportRules == transforms.ImportRulesInline {
-		opts.ImportReplacements = replacements
+		opts.ImportReplacements = make(map[*ast.AtRule]*ast.Stylesheet)
+		opts.ImportSources = make(map[*ast.AtRule]*sources.Source)
+		c.addReplacements(opts, c.astsByIndex[idx], []int{idx})
 	}
 
-	ss = transformer.Transform(ss, opts)
-	c.astsByIndexMu.Lock()
-	c.astsByIndex[idx] = ss
-	c.astsByIndexMu.Unlock()
-	return ss
+	return transformer.Transform(c.astsByIndex[idx], opts)
+}
+
+// addReplacements adds the replacements for the imports of ss, which was parsed from the last of
+// the parents. The transformer works in place, so each import needs to be replaced with its own copy.
+func (c *compilation) addReplacements(opts transformer.Options, ss *ast.Stylesheet, parents []int) {
+	imports := c.importsByIndex[parents[len(parents)-1]]
+	for i, imp := range ss.Imports {
+		idx := imports[i]
+		if c.astsByIndex[idx] == nil {
+			// There was a problem reading or parsing this file.
+			continue
+		}
+
+		isCycle := false
+		for _, parent := range parents {
+			if parent == idx {
+				isCycle = true
+			}
+		}
+		if isCycle {
+			continue
+		}
+
+		source := &sources.Source{
+			Content: c.sourcesByIndex[idx].Content,
+			Path:    c.sourcesByIndex[idx].Path,
+		}
+		imported, err := parser.Parse(source)
+		if err != nil {
+			c.addError(err)
+			continue
+		}
+
+		opts.ImportReplacements[imp.AtRule] = imported
+		opts.ImportSources[imp.AtRule] = source
+		c.addReplacements(opts, imported, append(parents[:len(parents):len(parents)], idx))
+	}
 }
 
 // Compile runs a compilation with the specified Options.
@@ -259,14 +300,13 @@ func Compile(opts Options) *Result {
 		wg.Go(func() error {
 			// XXX: this is the wrong file name
 			source := c.sourcesByIndex[idx]
-			ast := c.astsByIndex[idx]
-			if source == nil || ast == nil {
+			if source == nil || c.astsByIndex[idx] == nil {
 				// Skip attempting to print if there was a problem reading/parsing this file
 				// in the first place.
 				return nil
 			}
 
-			out, err := printer.Print(ast, printer.Options{
+			out, err := printer.Print(c.transformFile(idx), printer.Options{
 				OriginalSource: source,
 			})
 			if err != nil {
-- 
2.43.0


From 7a2f4f1841e93ab0909e21c9ef9eff9f41972d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 44/50] fix: stop looking for node_modules at the top of a
 relative path

---
 resolver/node_resolver.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index 2c491a7..5a891d5 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -138,14 +138,18 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 // resolveAsNodeModule walks directories from fromDir to find node_modules paths.
 func (r *NodeResolver) resolveFromNodeModules(module, fromDir string) (string, error) {
 	currentDir := fromDir
-	for currentDir != "/" {
+	for {
 		modulePkgPath := filepath.Join(currentDir, "node_modules", module)
 
 		if res, err := r.resolve(modulePkgPath); err == nil {
 			return res, nil
 		}
 
-		currentDir = filepath.Dir(currentDir)
+		parent := filepath.Dir(currentDir)
+		if parent == currentDir {
+			break
+		}
+		currentDir = parent
 	}
 
 	return "", oops.Wrapf(ErrNotFound, "could not find absolute path in node_modules")
-- 
2.43.0


From 834b58422cbff6a7229ab322a2a14255790bf236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 45/50] fix: do not resolve a package to a directory without an
 error

---
 resolver/node_resolver.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resolver/node_resolver.go b/resolver/node_resolver.go
index 5a891d5..e3ac9bd 100644
--- a/resolver/node_resolver.go
+++ b/resolver/node_resolver.go
@@ -104,11 +104,13 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 	if err != nil {
 		// If there is no package.json, then try resolving an index.css file.
 		indexPath := filepath.Join(path, "index.css")
-		if info, err := os.Stat(indexPath); err != nil || info.IsDir() {
+		if info, err := os.Stat(indexPath); err != nil {
 			if os.IsNotExist(err) {
 				return "", oops.Wrapf(ErrNotFound, "could not resolve as directory: %s", path)
 			}
 			return "", oops.Wrapf(err, "failure during resolution")
+		} else if info.IsDir() {
+			return "", oops.Wrapf(ErrNotFound, "%s exists, but is directory", indexPath)
 		}
 
 		return indexPath, nil
@@ -125,11 +127,13 @@ func (r *NodeResolver) resolveAsDir(path string) (string, error) {
 	}
 
 	stylePath := filepath.Join(path, pkgContent.Style)
-	if info, err := os.Stat(stylePath); err != nil || info.IsDir() {
+	if info, err := os.Stat(stylePath); err != nil {
 		if os.IsNotExist(err) {
 			return "", oops.Wrapf(ErrNotFound, "package.json has style attribute, but it cannot be resolved: %s (to %s)", pkgContent.Style, stylePath)
 		}
 		return "", oops.Wrapf(err, "failure during resolution")
+	} else if info.IsDir() {
+		return "", oops.Wrapf(ErrNotFound, "package.json has style attribute, but it is a directory: %s (to %s)", pkgContent.Style, stylePath)
 	}
 
 	return stylePath, nil
-- 
2.43.0


From 14a64698937485763fac6478aa72e3edbf13d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 46/50] fix: give esbuild one message per problem, with its
 line number and column

---
 esbuildplugin/plugin.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/esbuildplugin/plugin.go b/esbuildplugin/plugin.go
index 36d62ee..7df16b2 100644
--- a/esbuildplugin/plugin.go
+++ b/esbuildplugin/plugin.go
@@ -28,19 +28,26 @@ func (r *csscReporter) toEsbuild() []api.Message {
 
 		if lErr, ok := err.(locationError); ok {
 			source, span := lErr.Location()
-			_, colNumber := source.LineAndCol(span)
+			lineNumber, colNumber := source.LineAndCol(span)
 			lineSpan := source.FullLine(span)
 
+			// The span can go past the end of the line.
+			length := span.End - span.Start
+			if max := lineSpan.End - span.Start; length > max {
+				length = max
+			}
+
 			errs = append(errs, api.Message{
 				Text: err.Error(),
 				Location: &api.Location{
 					File:     source.Path,
-					Column:   int(colNumber),
-					Line:     lineSpan.Start,
-					Length:   lineSpan.End - lineSpan.Start,
+					Column:   int(colNumber) - 1,
+					Line:     int(lineNumber),
+					Length:   length,
 					LineText: source.Content[lineSpan.Start:lineSpan.End],
 				},
 			})
+			continue
 		}
 
 		errs = append(errs, api.Message{
-- 
2.43.0


From 3f4a2c5aebe9374a83d1614d420a1ddb82e5964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 47/50] fix: keep the location of reduced math for later
 reports

---
 internal/transformer/transformer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index dd497e6..e424abd 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -660,6 +660,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			}
 
 			return &ast.Dimension{
+				Span:  ast.Span{Start: l.Location().Start, End: r.Location().End},
 				Value: strconv.FormatFloat(newValue, 'f', -1, 64),
 				Unit:  left.Unit,
 			}
@@ -708,6 +709,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 		}
 
 		return &ast.Dimension{
+			Span:  ast.Span{Start: l.Location().Start, End: r.Location().End},
 			Value: strconv.FormatFloat(newValue, 'f', -1, 64),
 			Unit:  maybeWithUnit.Unit,
 		}
@@ -734,6 +736,7 @@ func (t *transformer) evaluateMathExpression(l, r ast.Value, op string) ast.Valu
 			}
 
 			return &ast.Dimension{
+				Span:  ast.Span{Start: l.Location().Start, End: r.Location().End},
 				Value: strconv.FormatFloat(newValue, 'f', -1, 64),
 				Unit:  left.Unit,
 			}
-- 
2.43.0


From 7ad3e11cf764df0cbf8a51fd5bba411457639e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 48/50] fix: report problems with the value of a variable where
 it is used

---
 internal/transformer/transformer.go | 30 ++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/internal/transformer/transformer.go b/internal/transformer/transformer.go
index e424abd..4f3d052 100644
--- a/internal/transformer/transformer.go
+++ b/internal/transformer/transformer.go
@@ -512,7 +512,10 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 					return
 				}
 
-				newValues = vals
+				newValues = make([]ast.Value, 0, len(vals))
+				for _, val := range vals {
+					newValues = append(newValues, relocate(val, v.Span))
+				}
 			}()
 
 			func() {
@@ -569,6 +572,31 @@ func (t *transformer) transformValues(values []ast.Value) []ast.Value {
 	return rv
 }
 
+// relocate returns a copy of a value at a new location. The original location of the value of
+// a variable could even be in a different file.
+func relocate(value ast.Value, span ast.Span) ast.Value {
+	switch v := value.(type) {
+	case *ast.Dimension:
+		return &ast.Dimension{Span: span, Value: v.Value, Unit: v.Unit}
+	case *ast.Identifier:
+		return &ast.Identifier{Span: span, Value: v.Value}
+	case *ast.String:
+		return &ast.String{Span: span, Value: v.Value}
+	case *ast.HexColor:
+		return &ast.HexColor{Span: span, RGBA: v.RGBA}
+	case *ast.Raw:
+		return &ast.Raw{Span: span, Value: v.Value}
+	case *ast.Comma:
+		return &ast.Comma{Span: span}
+	case *ast.Brackets:
+		return &ast.Brackets{Span: span, Values: v.Values}
+	case *ast.Function:
+		return &ast.Function{Span: span, Name: v.Name, Arguments: v.Arguments}
+	default:
+		return v
+	}
+}
+
 // transformMathOperand transforms an operand of a math expression. The operand is kept as-is
 // if it is not a single value afterwards.
 func (t *transformer) transformMathOperand(operand ast.Value, description string) ast.Value {
-- 
2.43.0


From 17b35eeae8eb2bca58d4727641c4f96876ea1d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 49/50] fix: give esbuild the location of parse errors

---
 esbuildplugin/plugin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/esbuildplugin/plugin.go b/esbuildplugin/plugin.go
index 7df16b2..84c051b 100644
--- a/esbuildplugin/plugin.go
+++ b/esbuildplugin/plugin.go
@@ -2,6 +2,7 @@ package esbuildplugin
 
 import (
 	"context"
+	"errors"
 	"runtime/pprof"
 
 	"github.com/evanw/esbuild/pkg/api"
@@ -26,7 +27,9 @@ func (r *csscReporter) toEsbuild() []api.Message {
 	var errs []api.Message
 	for _, err := range *r {
 
-		if lErr, ok := err.(locationError); ok {
+		// The location may be wrapped, e.g. in the error for a file that could not be parsed.
+		var lErr locationError
+		if errors.As(err, &lErr) {
 			source, span := lErr.Location()
 			lineNumber, colNumber := source.LineAndCol(span)
 			lineSpan := source.FullLine(span)
-- 
2.43.0


From 150bd0ea9b9332c89f36ec033dc3dd06256834db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 50/50] fix: require integers in An+B

---
 internal/parser/selectors.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/parser/selectors.go b/internal/parser/selectors.go
index 1255640..03f52cb 100644
--- a/internal/parser/selectors.go
+++ b/internal/parser/selectors.go
@@ -251,6 +251,16 @@ func (p *parser) parseAttributeSelector() *ast.AttributeSelector {
 	return attr
 }
 
+// isDigits returns whether or not the string is only digits.
+func isDigits(in string) bool {
+	for i := 0; i < len(in); i++ {
+		if in[i] < '0' || in[i] > '9' {
+			return false
+		}
+	}
+	return len(in) > 0
+}
+
 func (p *parser) parseANPlusB() *ast.ANPlusB {
 	prev := p.lexer.RetainWhitespace
 	p.lexer.RetainWhitespace = false
@@ -308,8 +318,15 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		p.lexer.Errorf("expected an+b syntax")
 	}
 
+	if a := strings.TrimLeft(v.A, "+-"); a != "" && !isDigits(a) {
+		p.lexer.Errorf("expected integer as A of An+B")
+	}
+
 	// There is nothing left to read if we already have B.
 	if v.B != "" {
+		if !isDigits(v.B) {
+			p.lexer.Errorf("expected integer as B of An+B")
+		}
 		return v
 	}
 
@@ -324,6 +341,9 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 			p.lexer.Errorf("expected +/- as part of An+B")
 		}
 		v.B = p.lexer.CurrentNumeral[1:]
+		if !isDigits(v.B) {
+			p.lexer.Errorf("expected integer as B of An+B")
+		}
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Number)
 	} else if p.lexer.Current == lexer.Delim && (p.lexer.CurrentString == "+" || p.lexer.CurrentString == "-") {
@@ -331,8 +351,8 @@ func (p *parser) parseANPlusB() *ast.ANPlusB {
 		p.lexer.Next()
 
 		v.B = p.lexer.CurrentNumeral
-		if strings.HasPrefix(v.B, "-") || strings.HasPrefix(v.B, "+") {
-			p.lexer.Errorf("expected number after operator")
+		if p.lexer.Current == lexer.Number && !isDigits(v.B) {
+			p.lexer.Errorf("expected integer after operator")
 		}
 		v.End = p.lexer.TokenEnd()
 		p.lexer.Expect(lexer.Number)
-- 
2.43.0

