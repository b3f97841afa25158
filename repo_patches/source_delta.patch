From 237f1d0b0e8ef515dd24fd8d3b0f2b462130815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:59 +0000
Subject: [PATCH 01/35] fix: WriteUint32 drops the last six digits of values >=
 1e9

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 654cc16..22ff9a8 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -140,7 +140,7 @@ func WriteUint32(space []byte, val uint32) []byte {
 	} else {
 		r3 := q2 - q3*1000
 		space = append(space, byte(q3 + '0'))
-		return writeBuf(space, digits[r3])
+		space = writeBuf(space, digits[r3])
 	}
 	space = writeBuf(space, digits[r2])
 	return writeBuf(space, digits[r1])
-- 
2.43.0


From e6495cb90b82818c177fa573358560f7b885a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:59 +0000
Subject: [PATCH 02/35] fix: WriteUint64 writes a non-digit for values >= 1e19

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 22ff9a8..816400f 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -201,7 +201,7 @@ func WriteUint64(space []byte, val uint64) []byte {
 	if q6 == 0 {
 		space = writeFirstBuf(space, digits[q5])
 	} else {
-		space = append(space, byte(q6 + '0'))
+		space = writeFirstBuf(space, digits[q6])
 		r6 := q5 - q6*1000
 		space = writeBuf(space, digits[r6])
 	}
-- 
2.43.0


From 21e9cb7f53c2a89e7c72fff202dfaa11d9b67366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:59 +0000
Subject: [PATCH 03/35] fix: the last byte of a string or byte slice is dropped
 when it needs escaping

---
 msgfmt/formatter_bytes.go       | 7 ++-----
 msgfmt/jsonfmt/encoder_bytes.go | 8 ++------
 msgfmt/jsonfmt/encoder_str.go   | 8 ++------
 3 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index 646e5c8..3f21520 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -123,13 +123,10 @@ func writeBytes(space []byte, s []byte) []byte {
 		if c < utf8.RuneSelf && safeSet[c] {
 			space = append(space, c)
 		} else {
-			break
+			return writeBytesSlowPath(space, s[i:])
 		}
 	}
-	if i == len(s)-1 {
-		return space
-	}
-	return writeBytesSlowPath(space, s[i:])
+	return space
 }
 
 func writeBytesSlowPath(space []byte, s []byte) []byte {
diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index 4c81ece..b41bc17 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -22,14 +22,10 @@ func WriteBytes(space []byte, s []byte) []byte {
 		if c < utf8.RuneSelf && safeSet[c] {
 			space = append(space, c)
 		} else {
-			break
+			return writeBytesSlowPath(space, s[i:])
 		}
 	}
-	if i == len(s)-1 {
-		space = append(space, '"')
-		return space
-	}
-	return writeBytesSlowPath(space, s[i:])
+	return append(space, '"')
 }
 
 func writeBytesSlowPath(space []byte, s []byte) []byte {
diff --git a/msgfmt/jsonfmt/encoder_str.go b/msgfmt/jsonfmt/encoder_str.go
index effd7cc..0554a47 100644
--- a/msgfmt/jsonfmt/encoder_str.go
+++ b/msgfmt/jsonfmt/encoder_str.go
@@ -129,14 +129,10 @@ func WriteString(space []byte, str string) []byte {
 		if c > 31 && c != '"' && c != '\\' {
 			space = append(space, c)
 		} else {
-			break
+			return writeStringSlowPath(space, []byte(str[i:]))
 		}
 	}
-	if i == len(str)-1 {
-		space = append(space, '"')
-		return space
-	}
-	return writeStringSlowPath(space, []byte(str[i:]))
+	return append(space, '"')
 }
 
 func writeStringSlowPath(space []byte, s []byte) []byte {
-- 
2.43.0


From bc552d0cf94353993712fc24a254eeac38c15752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:59 +0000
Subject: [PATCH 04/35] fix: bytes before a non-ASCII byte are dropped when
 escaping a byte slice

---
 msgfmt/formatter_bytes.go       | 3 +++
 msgfmt/jsonfmt/encoder_bytes.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index 3f21520..d9110fa 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -136,6 +136,9 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			if start < i {
+				space = append(space, s[start:i]...)
+			}
 			space = append(space, '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index b41bc17..40591dd 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -35,6 +35,9 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			if start < i {
+				space = append(space, s[start:i]...)
+			}
 			space = append(space, '\\', '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
-- 
2.43.0


From a3f1bdc569f2041dec6e9704a246b9e7cdc850dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:48 +0000
Subject: [PATCH 05/35] fix: read.Uint64 misses overflow when the wrapped
 product is not smaller

---
 parse/read/int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/read/int.go b/parse/read/int.go
index 2d88c84..1a336a5 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -79,7 +79,7 @@ func Uint64(src *parse.Source) uint64 {
 			}
 			if value > uint64SafeToMultiple10 {
 				value2 := (value << 3) + (value << 1) + uint64(ind)
-				if value2 < value {
+				if value > math.MaxUint64/10 || value2 < value {
 					src.ReportError(errors.New("uint64: overflow"))
 					return 0
 				}
-- 
2.43.0


From 58217d2e1228a29e4fb9e8133d48d4ee626974a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:48 +0000
Subject: [PATCH 06/35] fix: Source.ConsumeN past the end of the input never
 returns

---
 parse/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/parse.go b/parse/parse.go
index fc60f5d..1f864cb 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -120,6 +120,9 @@ func (src *Source) ConsumeN(n int) {
 	for n != 0 && n >= len(src.current) {
 		n -= len(src.current)
 		src.Consume()
+		if len(src.current) == 0 && src.err != nil {
+			return
+		}
 	}
 	src.current = src.current[n:]
 }
-- 
2.43.0


From b3d27a5b06f456665a2c5bd7d91bc7ad24fa4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:48 +0000
Subject: [PATCH 07/35] fix: Source.Consume loses the bytes a reader returns
 together with an error and stops at empty reads

---
 parse/parse.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 1f864cb..cc121a2 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -142,16 +142,24 @@ func (src *Source) Consume() {
 		src.ReportError(io.EOF)
 		return
 	}
-	if len(src.nextList) != 0 {
+	for len(src.nextList) != 0 {
 		src.current = src.nextList[0]
 		src.nextList = src.nextList[1:]
-		return
+		if len(src.current) != 0 {
+			return
+		}
 	}
-	n, err := src.reader.Read(src.buf)
-	if err != nil {
-		src.ReportError(err)
+	for {
+		n, err := src.reader.Read(src.buf)
+		src.current = src.buf[:n]
+		if n != 0 {
+			return
+		}
+		if err != nil {
+			src.ReportError(err)
+			return
+		}
 	}
-	src.current = src.buf[:n]
 }
 
 func (src *Source) PeekRune() (rune, int) {
-- 
2.43.0


From 7dd187378dda1c7eb2723c99efe5bef5670f93e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:48 +0000
Subject: [PATCH 08/35] fix: a Source over the empty string does not report the
 end of input

---
 parse/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/parse.go b/parse/parse.go
index cc121a2..2d3add4 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -70,6 +70,9 @@ func NewSource(reader io.Reader, buf []byte) (*Source, error) {
 }
 
 func NewSourceString(src string) *Source {
+	if src == "" {
+		return &Source{err: io.EOF}
+	}
 	return &Source{
 		current: []byte(src),
 	}
-- 
2.43.0


From 57038b19848184a943a199e4ad2db7de617157c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:57 +0000
Subject: [PATCH 09/35] fix: UnicodeRange and UnicodeRanges loop past the end
 of input and stop after one included rune

---
 parse/read/range.go | 9 ++++++---
 parse/skip/range.go | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/parse/read/range.go b/parse/read/range.go
index be83a0e..085ab4a 100644
--- a/parse/read/range.go
+++ b/parse/read/range.go
@@ -6,7 +6,7 @@ import (
 )
 
 func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -15,10 +15,12 @@ func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []
 		}
 		return space
 	}
+	return space
 }
 
 func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) []rune {
-	for {
+next:
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
@@ -34,9 +36,10 @@ func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTab
 			if unicode.Is(include, r) {
 				src.ConsumeN(n)
 				space = append(space, r)
-				continue
+				continue next
 			}
 		}
 		return space
 	}
+	return space
 }
diff --git a/parse/skip/range.go b/parse/skip/range.go
index d2286c5..ce54511 100644
--- a/parse/skip/range.go
+++ b/parse/skip/range.go
@@ -7,7 +7,7 @@ import (
 
 func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -16,11 +16,13 @@ func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 		}
 		return count
 	}
+	return count
 }
 
 func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) int {
 	count := 0
-	for {
+next:
+	for src.Error() == nil {
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
@@ -31,9 +33,10 @@ func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes [
 			if unicode.Is(include, r) {
 				src.ConsumeN(n)
 				count += n
-				continue
+				continue next
 			}
 		}
 		return count
 	}
+	return count
 }
-- 
2.43.0


From c30aed8cef2c491c6be34a4db11e0fb2904ca8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:43 +0800
Subject: [PATCH 10/35] fix: an error found at the end of the input is lost

ReportError kept the io.EOF reported when the last byte was consumed, so
read.Int64 returned 0 without an overflow error for 9223372036854775808.
---
 parse/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index 2d3add4..5b982a2 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -181,7 +181,8 @@ func (src *Source) PeekRune() (rune, int) {
 }
 
 func (src *Source) ReportError(err error) {
-	if src.err == nil {
+	// the end of the input is no failure, it must not hide one that is found there
+	if src.err == nil || src.err == io.EOF {
 		src.err = err
 	}
 }
-- 
2.43.0


From f0e10d90050c5b156b14747e1f8eb9b0aa0e1999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:05 +0800
Subject: [PATCH 11/35] fix: NewSource returns neither a source nor an error
 when the first read is empty

---
 parse/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/parse.go b/parse/parse.go
index 5b982a2..acb55c0 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -59,6 +59,9 @@ type Source struct {
 
 func NewSource(reader io.Reader, buf []byte) (*Source, error) {
 	n, err := reader.Read(buf)
+	for n == 0 && err == nil {
+		n, err = reader.Read(buf)
+	}
 	if n == 0 {
 		return nil, err
 	}
-- 
2.43.0


From 8977bf549988b06d8e0da483a910b5b6d529f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:27 +0000
Subject: [PATCH 12/35] fix: after a handler panics, the next log call of the
 same event panics

---
 countlog/root.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/countlog/root.go b/countlog/root.go
index 1f46859..2ada3d6 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -112,6 +112,10 @@ func (redirector *redirector) Handle(event *spi.Event) {
 	return
 }
 
+func (redirector *redirector) LogSite() *spi.LogSite {
+	return &redirector.site
+}
+
 type accurateHandlerKey struct {
 	File string
 	Line int
-- 
2.43.0


From 8e728ec5a5ff6d1051a3d7cde641282357533d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 13/35] fix: after handler panics, different events logged from
 one line share a handler

---
 countlog/root.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/countlog/root.go b/countlog/root.go
index 2ada3d6..16b6df9 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -96,7 +96,7 @@ type redirector struct {
 
 func (redirector *redirector) Handle(event *spi.Event) {
 	_, callerFile, callerLine, _ := runtime.Caller(3)
-	key := accurateHandlerKey{callerFile, callerLine}
+	key := accurateHandlerKey{redirector.site.Event, callerFile, callerLine}
 	handlerObj, found := handlerCache.Load(key)
 	if found {
 		handlerObj.(spi.EventHandler).Handle(event)
@@ -117,6 +117,7 @@ func (redirector *redirector) LogSite() *spi.LogSite {
 }
 
 type accurateHandlerKey struct {
-	File string
-	Line int
+	Event string
+	File  string
+	Line  int
 }
-- 
2.43.0


From 9dda31791ec0a1eed55f4512dc63f54b77d56d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:32 +0000
Subject: [PATCH 14/35] fix: malformed and empty message formats panic

---
 msgfmt/formatter.go |  3 +++
 msgfmt/parse.go     | 33 ++++++++++++++++++++++++---------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 6819826..596d28f 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -91,6 +91,9 @@ func compile(format string, sample []interface{}) Formatter {
 	formatter := toFormatter.Parse(src, 0)
 	if src.Error() != nil {
 		if src.Error() == io.EOF {
+			if formatter == nil {
+				return fixedFormatter("")
+			}
 			return formatter.(Formatter)
 		}
 		return invalidFormatter(src.Error().Error())
diff --git a/msgfmt/parse.go b/msgfmt/parse.go
index 4099f66..b201565 100644
--- a/msgfmt/parse.go
+++ b/msgfmt/parse.go
@@ -8,6 +8,8 @@ import (
 	"errors"
 )
 
+var errUnclosed = errors.New("expect , or }, but the format ends")
+
 type lexer struct {
 	leftCurly     *leftCurlyToken
 	literal       *literalToken
@@ -36,10 +38,14 @@ func newLexer(initLexer func(l *lexer)) *lexer {
 func (lexer *lexer) Parse(src *parse.Source, precedence int) interface{} {
 	var left interface{}
 	for src.Error() == nil {
+		right := parse.Parse(src, lexer, precedence)
+		if right == nil {
+			break
+		}
 		if left == nil {
-			left = parse.Parse(src, lexer, precedence)
+			left = right
 		} else {
-			left = lexer.merge(left, parse.Parse(src, lexer, precedence))
+			left = lexer.merge(left, right)
 		}
 	}
 	return left
@@ -66,13 +72,17 @@ func (token *leftCurlyToken) PrefixParse(src *parse.Source) interface{} {
 	src.Consume1('{')
 	obj := parse.Parse(src, token.lexer.variable, 0)
 	if src.Error() != nil {
+		src.ReportError(errUnclosed)
 		return nil
 	}
 	id, isId := obj.(string)
 	if isId {
 		obj = token.lexer.parseVariable(src, id)
 	}
-	rightFormatter := obj.(Formatter)
+	rightFormatter, _ := obj.(Formatter)
+	if rightFormatter == nil {
+		return nil
+	}
 	src.Consume1('}')
 	return rightFormatter
 }
@@ -106,6 +116,10 @@ func (lexer *variableLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 
 func (lexer *variableLexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
 	skip.UnicodeSpace(src)
+	if src.Error() != nil {
+		src.ReportError(errUnclosed)
+		return nil, 0
+	}
 	switch src.Peek()[0] {
 	case ',':
 		return lexer.comma, parse.DefaultPrecedence
@@ -156,13 +170,10 @@ func (lexer *formatterLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 	buf, _ := src.PeekN(6)
 	str := string(buf)
 	switch str {
-	case "select":
-		panic("not implemented")
-	case "plural":
-		panic("not implemented")
-	default:
-		return lexer.funcName
+	case "select", "plural":
+		src.ReportError(errors.New(str + " is not implemented"))
 	}
+	return lexer.funcName
 }
 
 func (lexer *formatterLexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
@@ -183,6 +194,10 @@ func (token *funcNameToken) PrefixParse(src *parse.Source) interface{} {
 	var args []string
 	for {
 		skip.UnicodeSpace(src)
+		if src.Error() != nil {
+			src.ReportError(errUnclosed)
+			return funcInvocation{name, args}
+		}
 		switch src.Peek1() {
 		case ',':
 			src.Consume1(',')
-- 
2.43.0


From 358d6e34581fa90d14c850684d82479a9b82962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:32 +0000
Subject: [PATCH 15/35] fix: an invalid format shows no arguments when they
 have no JSON form

---
 msgfmt/formatter_invalid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/formatter_invalid.go b/msgfmt/formatter_invalid.go
index 813c846..688c4b8 100644
--- a/msgfmt/formatter_invalid.go
+++ b/msgfmt/formatter_invalid.go
@@ -9,7 +9,7 @@ type invalidFormatter string
 
 func (formatter invalidFormatter) Format(space []byte, kv []interface{}) []byte {
 	output, err := json.Marshal(kv)
-	if err != nil {
+	if err == nil {
 		space = append(space, "%! (INVALID FORMAT) "...)
 		space = append(space, formatter...)
 		space = append(space, "%! (FORMAT ARGS) "...)
-- 
2.43.0


From fc33f9560174ba24067e98b1cf29c21b8bbbc377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:32 +0000
Subject: [PATCH 16/35] fix: formatting a nil value panics

---
 msgfmt/formatter.go      |  2 ++
 msgfmt/formatter_json.go | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 596d28f..cb3ef0b 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -43,6 +43,8 @@ var toFormatter = newLexer(func(l *lexer) {
 			return stringerFormatter(idx)
 		}
 		switch sampleValue.(type) {
+		case nil:
+			return &jsonFormatter{idx: idx}
 		case string:
 			return strFormatter(idx)
 		case []byte:
diff --git a/msgfmt/formatter_json.go b/msgfmt/formatter_json.go
index bb4c88a..6d4a666 100644
--- a/msgfmt/formatter_json.go
+++ b/msgfmt/formatter_json.go
@@ -7,9 +7,16 @@ import (
 
 type jsonFormatter struct {
 	idx     int
-	encoder jsonfmt.Encoder
+	encoder jsonfmt.Encoder // nil when the sample value was nil
 }
 
 func (formatter *jsonFormatter) Format(space []byte, kv []interface{}) []byte {
-	return formatter.encoder.Encode(nil, space, reflect2.PtrOf(kv[formatter.idx]))
+	encoder := formatter.encoder
+	if encoder == nil {
+		if kv[formatter.idx] == nil {
+			return append(space, "null"...)
+		}
+		encoder = jsonfmt.EncoderOfObject(kv[formatter.idx])
+	}
+	return encoder.Encode(nil, space, reflect2.PtrOf(kv[formatter.idx]))
 }
-- 
2.43.0


From 66eb95e8567fc80d0cff3854d83118a578af8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 17/35] fix: a message format used again with other keys or
 value types panics or formats the wrong value

---
 msgfmt/msgfmt.go | 48 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index e08557b..43753e6 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -3,6 +3,7 @@ package msgfmt
 import (
 	"io"
 	"os"
+	"reflect"
 	"sync"
 	"unsafe"
 	"fmt"
@@ -69,12 +70,53 @@ func fprintf(writer io.Writer, format string, kv []interface{}) (int, error) {
 
 var formatterCache = concurrent.NewMap()
 
+// cachedFormatter remembers what the formatter was compiled for,
+// the same format might be used with other keys or types of value
+type cachedFormatter struct {
+	formatter Formatter
+	keys      []string
+	types     []reflect.Type
+}
+
+func newCachedFormatter(formatter Formatter, sample []interface{}) *cachedFormatter {
+	cached := &cachedFormatter{formatter: formatter}
+	for i, obj := range sample {
+		if i%2 == 0 {
+			key, _ := obj.(string)
+			cached.keys = append(cached.keys, key)
+		} else {
+			cached.types = append(cached.types, reflect.TypeOf(obj))
+		}
+	}
+	return cached
+}
+
+func (cached *cachedFormatter) matches(sample []interface{}) bool {
+	if len(cached.keys)+len(cached.types) != len(sample) {
+		return false
+	}
+	for i, obj := range sample {
+		if i%2 == 0 {
+			key, _ := obj.(string)
+			if key != cached.keys[i/2] {
+				return false
+			}
+		} else if reflect.TypeOf(obj) != cached.types[i/2] {
+			return false
+		}
+	}
+	return true
+}
+
 func FormatterOf(format string, sample []interface{}) Formatter {
-	formatterObj, found := formatterCache.Load(format)
+	cachedObj, found := formatterCache.Load(format)
 	if found {
-		return formatterObj.(Formatter)
+		cached := cachedObj.(*cachedFormatter)
+		if cached.matches(sample) {
+			return cached.formatter
+		}
 	}
 	formatter := compile(format, sample)
-	formatterCache.Store(format, formatter)
+	formatterCache.Store(format, newCachedFormatter(formatter, sample))
 	return formatter
 }
\ No newline at end of file
-- 
2.43.0


From 08b335244d92455d8840eccd8fbd27f9acb151e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 18/35] fix: Fprintln without values ignores the writer

---
 msgfmt/msgfmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index 43753e6..3705504 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -39,7 +39,7 @@ func Fprintln(writer io.Writer, valuesObj ...interface{}) (int, error) {
 func fprintln(writer io.Writer, values []interface{}) (int, error) {
 	switch len(values) {
 	case 0:
-		return fmt.Println()
+		return fmt.Fprintln(writer)
 	case 1:
 		return Fprintf(writer,"{single_value}\n", "single_value", values[0])
 	default:
-- 
2.43.0


From 41ca2a113d920da4e9b1d483fccee568cab901c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:23 +0800
Subject: [PATCH 19/35] fix: encoding or iterating a map crashes on go 1.18 and
 above

---
 reflect2/go_above_118.go | 17 +++++++++++++++++
 reflect2/go_below_118.go | 11 +++++++++++
 reflect2/unsafe_link.go  | 21 ++++++++++++++-------
 3 files changed, 42 insertions(+), 7 deletions(-)
 create mode 100644 reflect2/go_above_118.go
 create mode 100644 reflect2/go_below_118.go

diff --git a/reflect2/go_above_118.go b/reflect2/go_above_118.go
new file mode 100644
index 0000000..788da8b
--- /dev/null
+++ b/reflect2/go_above_118.go
@@ -0,0 +1,17 @@
+//+build go1.18
+
+package reflect2
+
+import "unsafe"
+
+// m escapes into the return value, but the caller of mapiterinit
+// doesn't let the return value escape.
+//go:noescape
+//go:linkname reflect_mapiterinit reflect.mapiterinit
+func reflect_mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer, it *hiter)
+
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	it := &hiter{}
+	reflect_mapiterinit(rtype, m, it)
+	return it
+}
diff --git a/reflect2/go_below_118.go b/reflect2/go_below_118.go
new file mode 100644
index 0000000..b6b021b
--- /dev/null
+++ b/reflect2/go_below_118.go
@@ -0,0 +1,11 @@
+//+build !go1.18
+
+package reflect2
+
+import "unsafe"
+
+// m escapes into the return value, but the caller of mapiterinit
+// doesn't let the return value escape.
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
diff --git a/reflect2/unsafe_link.go b/reflect2/unsafe_link.go
index a25a5f4..0afd5bf 100644
--- a/reflect2/unsafe_link.go
+++ b/reflect2/unsafe_link.go
@@ -25,12 +25,6 @@ func mapassign(rtype unsafe.Pointer, m unsafe.Pointer, key, val unsafe.Pointer)
 //go:noescape
 func mapaccess(rtype unsafe.Pointer, m unsafe.Pointer, key unsafe.Pointer) (val unsafe.Pointer)
 
-// m escapes into the return value, but the caller of mapiterinit
-// doesn't let the return value escape.
-//go:noescape
-//go:linkname mapiterinit reflect.mapiterinit
-func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
-
 //go:noescape
 //go:linkname mapiternext reflect.mapiternext
 func mapiternext(it *hiter)
@@ -44,7 +38,20 @@ func ifaceE2I(rtype unsafe.Pointer, src interface{}, dst unsafe.Pointer)
 type hiter struct {
 	key   unsafe.Pointer // Must be in first position.  Write nil to indicate iteration end (see cmd/internal/gc/range.go).
 	value unsafe.Pointer // Must be in second position (see cmd/internal/gc/range.go).
-	// rest fields are ignored
+	// rest fields are ignored, but the runtime writes them
+	t           unsafe.Pointer
+	h           unsafe.Pointer
+	buckets     unsafe.Pointer
+	bptr        unsafe.Pointer
+	overflow    unsafe.Pointer
+	oldoverflow unsafe.Pointer
+	startBucket uintptr
+	offset      uint8
+	wrapped     bool
+	b           uint8
+	i           uint8
+	bucket      uintptr
+	checkBucket uintptr
 }
 
 // add returns p+x.
-- 
2.43.0


From 81fdde9a7d734546319da98d2f29ddf237606508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:55 +0800
Subject: [PATCH 20/35] fix: errors in JSON are not escaped, and a nil error or
 json.Marshaler panics

---
 msgfmt/jsonfmt/encoder_error.go          | 14 ++++++++++----
 msgfmt/jsonfmt/encoder_json_marshaler.go |  8 ++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index 8cd46c2..ba65a54 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -3,6 +3,7 @@ package jsonfmt
 import (
 	"unsafe"
 	"context"
+	"reflect"
 	"github.com/v2pro/plz/reflect2"
 )
 
@@ -12,8 +13,13 @@ type errorEncoder struct {
 
 func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
-	space = append(space, '"')
-	space = append(space, obj.(error).Error()...)
-	space = append(space, '"')
-	return space
+	if isNilPtr(obj) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
+	return WriteString(space, obj.(error).Error())
+}
+
+// isNilPtr tells if there is no value to call a method of
+func isNilPtr(obj interface{}) bool {
+	return obj == nil || reflect.TypeOf(obj).Kind() == reflect.Ptr && reflect2.IsNil(obj)
 }
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index fc0cd76..5332b8d 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -13,12 +13,12 @@ type jsonMarshalerEncoder struct {
 
 func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
+	if isNilPtr(obj) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	buf, err := obj.(json.Marshaler).MarshalJSON()
 	if err != nil {
-		space = append(space, '"')
-		space = append(space, err.Error()...)
-		space = append(space, '"')
-		return space
+		return WriteString(space, err.Error())
 	}
 	space = append(space, buf...)
 	return space
-- 
2.43.0


From 973a2beb23f938d53ed254a5ddfd7866cefddd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:55 +0800
Subject: [PATCH 21/35] fix: the JSON of a value that can not be encoded is
 malformed below a struct field

---
 msgfmt/jsonfmt/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index f3a8cc2..5e953c6 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -172,7 +172,7 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	case reflect.Interface:
 		return &dynamicEncoder{valType:valType}
 	}
-	return &unsupportedEncoder{fmt.Sprintf(`"can not encode %s %s to json"`, valType.String(), prefix)}
+	return &unsupportedEncoder{string(WriteString(nil, fmt.Sprintf("can not encode %s %s to json", valType.String(), prefix)))}
 }
 
 type unsupportedEncoder struct {
-- 
2.43.0


From e216c3b290538e56650aaa9cfcc0132c00c4d767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:55 +0800
Subject: [PATCH 22/35] fix: encoding nil in JSON panics

---
 msgfmt/jsonfmt/encoder.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 5e953c6..023b66d 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -54,6 +54,9 @@ func (cfg Config) Froze() API {
 }
 
 func (cfg *frozenConfig) EncoderOfObject(obj interface{}) Encoder {
+	if obj == nil {
+		return &nilEncoder{}
+	}
 	cacheKey := reflect2.RTypeOf(obj)
 	encoderObj, found := cfg.encoderCache.Load(cacheKey)
 	if found {
@@ -175,6 +178,13 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	return &unsupportedEncoder{string(WriteString(nil, fmt.Sprintf("can not encode %s %s to json", valType.String(), prefix)))}
 }
 
+type nilEncoder struct {
+}
+
+func (encoder *nilEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	return append(space, 'n', 'u', 'l', 'l')
+}
+
 type unsupportedEncoder struct {
 	msg string
 }
-- 
2.43.0


From a2e5871b2d383c5854e7e470a4096e51c357d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:55 +0800
Subject: [PATCH 23/35] fix: NaN and infinities are written as something that
 is not JSON

---
 msgfmt/jsonfmt/encoder_float.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_float.go b/msgfmt/jsonfmt/encoder_float.go
index 572953c..f88600d 100644
--- a/msgfmt/jsonfmt/encoder_float.go
+++ b/msgfmt/jsonfmt/encoder_float.go
@@ -27,8 +27,11 @@ func (encoder *lossyFloat32Encoder) Encode(ctx context.Context, space []byte, pt
 	return WriteFloat32Lossy(space, *(*float32)(ptr))
 }
 
-// WriteFloat64 write float64 to stream
+// WriteFloat64 write float64 to stream, null if it is not a number or infinite
 func WriteFloat64(space []byte, val float64) []byte {
+	if math.IsNaN(val) || math.IsInf(val, 0) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	abs := math.Abs(val)
 	fmt := byte('f')
 	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.
@@ -41,6 +44,9 @@ func WriteFloat64(space []byte, val float64) []byte {
 }
 // WriteFloat64Lossy write float64 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat64Lossy(space []byte, val float64) []byte {
+	if math.IsNaN(val) || math.IsInf(val, 0) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
@@ -67,8 +73,11 @@ func WriteFloat64Lossy(space []byte, val float64) []byte {
 	return space
 }
 
-// WriteFloat32 write float32 to stream
+// WriteFloat32 write float32 to stream, null if it is not a number or infinite
 func WriteFloat32(space []byte, val float32) []byte {
+	if math.IsNaN(float64(val)) || math.IsInf(float64(val), 0) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	abs := math.Abs(float64(val))
 	fmt := byte('f')
 	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.
@@ -82,6 +91,9 @@ func WriteFloat32(space []byte, val float32) []byte {
 
 // WriteFloat32Lossy write float32 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat32Lossy(space []byte, val float32) []byte {
+	if math.IsNaN(float64(val)) || math.IsInf(float64(val), 0) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
-- 
2.43.0


From 08bfa0b252f885c33957c44d9c0a6ac579a0ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:54 +0000
Subject: [PATCH 24/35] fix: creating the encoder of a type that contains
 itself never ends

---
 msgfmt/jsonfmt/encoder.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 023b66d..04360b8 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -42,6 +42,7 @@ type frozenConfig struct {
 	extensions         []Extension
 	encoderCache       *concurrent.Map
 	mapKeyEncoderCache *concurrent.Map
+	incomplete         map[uintptr]*recursiveEncoder
 }
 
 func (cfg Config) Froze() API {
@@ -71,7 +72,7 @@ func (cfg *frozenConfig) EncoderOf(valType reflect2.Type) Encoder {
 	if found {
 		return encoderObj.(Encoder)
 	}
-	encoder := encoderOf(cfg, "", valType)
+	encoder := encoderOf(cfg.newBuild(), "", valType)
 	if valType.LikePtr() {
 		encoder = &onePtrInterfaceEncoder{encoder}
 	}
@@ -85,7 +86,7 @@ func encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) En
 	if found {
 		return encoderObj.(Encoder)
 	}
-	encoder := _encoderOfMapKey(cfg, prefix, keyType)
+	encoder := _encoderOfMapKey(cfg.newBuild(), prefix, keyType)
 	cfg.mapKeyEncoderCache.Store(cacheKey, encoder)
 	return encoder
 }
@@ -103,7 +104,35 @@ func MarshalToString(obj interface{}) string {
 	return string(encoder.Encode(nil, nil, reflect2.PtrOf(obj)))
 }
 
+// newBuild is the config to create one encoder, together with the encoders it is made of
+func (cfg *frozenConfig) newBuild() *frozenConfig {
+	build := *cfg
+	build.incomplete = map[uintptr]*recursiveEncoder{}
+	return &build
+}
+
+// recursiveEncoder is used within the encoder of a type, where the type contains itself
+type recursiveEncoder struct {
+	encoder Encoder
+}
+
+func (encoder *recursiveEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	return encoder.encoder.Encode(ctx, space, ptr)
+}
+
 func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder {
+	recursive, found := cfg.incomplete[valType.RType()]
+	if found {
+		return recursive
+	}
+	recursive = &recursiveEncoder{}
+	cfg.incomplete[valType.RType()] = recursive
+	recursive.encoder = createEncoderOf(cfg, prefix, valType)
+	delete(cfg.incomplete, valType.RType())
+	return recursive.encoder
+}
+
+func createEncoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder {
 	for _, extension := range cfg.extensions {
 		encoder := extension.EncoderOf(prefix, valType.Type1())
 		if encoder != nil {
-- 
2.43.0


From 40802cb80c54391d90b2415ded5406ffe504a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:28 +0000
Subject: [PATCH 25/35] fix: encoding a map with nil, pointer or non-empty
 interface keys crashes

---
 msgfmt/jsonfmt/encoder.go     |  2 +-
 msgfmt/jsonfmt/encoder_map.go | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 04360b8..a15708d 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -239,7 +239,7 @@ func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) E
 		return &mapStringKeyEncoder{keyEncoder}
 	}
 	if keyType.Kind() == reflect.Interface {
-		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix}
+		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix, keyType: keyType}
 	}
 	return &mapNumberKeyEncoder{keyEncoder}
 }
diff --git a/msgfmt/jsonfmt/encoder_map.go b/msgfmt/jsonfmt/encoder_map.go
index 58a49a2..106b71f 100644
--- a/msgfmt/jsonfmt/encoder_map.go
+++ b/msgfmt/jsonfmt/encoder_map.go
@@ -52,12 +52,20 @@ func (encoder *mapStringKeyEncoder) Encode(ctx context.Context, space []byte, pt
 }
 
 type mapInterfaceKeyEncoder struct {
-	cfg    *frozenConfig
-	prefix string
+	cfg     *frozenConfig
+	prefix  string
+	keyType reflect2.Type
 }
 
 func (encoder *mapInterfaceKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
-	keyObj := *(*interface{})(ptr)
-	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, reflect2.TypeOf(keyObj))
+	keyObj := encoder.keyType.UnsafeIndirect(ptr)
+	if keyObj == nil {
+		return append(space, `"null":`...)
+	}
+	keyType := reflect2.TypeOf(keyObj)
+	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, keyType)
+	if keyType.LikePtr() {
+		keyEncoder = &onePtrInterfaceEncoder{keyEncoder}
+	}
 	return keyEncoder.Encode(ctx, space, reflect2.PtrOf(keyObj))
 }
-- 
2.43.0


From ba81f0a9d1761da68070f350de7badd6b1512ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 26/35] fix: msgfmt: a format compiled for one type of value
 panicked or printed garbage for another

---
 msgfmt/custom.go             |  6 +++++-
 msgfmt/formatter.go          |  2 ++
 msgfmt/formatter_bytes.go    |  6 +++++-
 msgfmt/formatter_json.go     | 29 ++++++++++++++++++++++-------
 msgfmt/formatter_str.go      |  6 +++++-
 msgfmt/formatter_stringer.go |  6 +++++-
 6 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/msgfmt/custom.go b/msgfmt/custom.go
index 282eb66..535a101 100644
--- a/msgfmt/custom.go
+++ b/msgfmt/custom.go
@@ -58,5 +58,9 @@ type goTimeFormatter struct {
 }
 
 func (formatter *goTimeFormatter) Format(space []byte, kv []interface{}) []byte {
-	return kv[formatter.idx].(time.Time).AppendFormat(space, formatter.layout)
+	val, isTime := kv[formatter.idx].(time.Time)
+	if !isTime {
+		return formatValue(space, kv[formatter.idx])
+	}
+	return val.AppendFormat(space, formatter.layout)
 }
diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index cb3ef0b..cfa2357 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"github.com/v2pro/plz/parse"
 	"fmt"
+	"reflect"
 	"github.com/v2pro/plz/msgfmt/jsonfmt"
 	"github.com/v2pro/plz/reflect2"
 )
@@ -52,6 +53,7 @@ var toFormatter = newLexer(func(l *lexer) {
 		default:
 			return &jsonFormatter{
 				idx:     idx,
+				valType: reflect.TypeOf(sampleValue),
 				encoder: jsonfmt.EncoderOf(reflect2.TypeOf(sampleValue)),
 			}
 		}
diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index d9110fa..5dd833e 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -5,7 +5,11 @@ import "unicode/utf8"
 type bytesFormatter int
 
 func (formatter bytesFormatter) Format(space []byte, properties []interface{}) []byte {
-	return writeBytes(space, properties[formatter].([]byte))
+	bytes, isBytes := properties[formatter].([]byte)
+	if !isBytes {
+		return formatValue(space, properties[formatter])
+	}
+	return writeBytes(space, bytes)
 }
 
 // safeSet holds the value true if the ASCII character with the given array
diff --git a/msgfmt/formatter_json.go b/msgfmt/formatter_json.go
index 6d4a666..b7f9438 100644
--- a/msgfmt/formatter_json.go
+++ b/msgfmt/formatter_json.go
@@ -1,22 +1,37 @@
 package msgfmt
 
 import (
+	"fmt"
+	"reflect"
 	"github.com/v2pro/plz/msgfmt/jsonfmt"
 	"github.com/v2pro/plz/reflect2"
 )
 
 type jsonFormatter struct {
 	idx     int
+	valType reflect.Type    // the encoder is for this type
 	encoder jsonfmt.Encoder // nil when the sample value was nil
 }
 
 func (formatter *jsonFormatter) Format(space []byte, kv []interface{}) []byte {
-	encoder := formatter.encoder
-	if encoder == nil {
-		if kv[formatter.idx] == nil {
-			return append(space, "null"...)
-		}
-		encoder = jsonfmt.EncoderOfObject(kv[formatter.idx])
+	val := kv[formatter.idx]
+	if formatter.encoder == nil || reflect.TypeOf(val) != formatter.valType {
+		return formatValue(space, val)
 	}
-	return encoder.Encode(nil, space, reflect2.PtrOf(kv[formatter.idx]))
+	return formatter.encoder.Encode(nil, space, reflect2.PtrOf(val))
+}
+
+// formatValue formats a value that is not of the type of the sample the formatter was compiled for
+func formatValue(space []byte, val interface{}) []byte {
+	switch typed := val.(type) {
+	case fmt.Stringer:
+		return append(space, typed.String()...)
+	case nil:
+		return append(space, "null"...)
+	case string:
+		return append(space, typed...)
+	case []byte:
+		return writeBytes(space, typed)
+	}
+	return jsonfmt.EncoderOfObject(val).Encode(nil, space, reflect2.PtrOf(val))
 }
diff --git a/msgfmt/formatter_str.go b/msgfmt/formatter_str.go
index e1b3ff2..c415642 100644
--- a/msgfmt/formatter_str.go
+++ b/msgfmt/formatter_str.go
@@ -3,5 +3,9 @@ package msgfmt
 type strFormatter int
 
 func (formatter strFormatter) Format(space []byte, kv []interface{}) []byte {
-	return append(space, kv[formatter].(string)...)
+	str, isStr := kv[formatter].(string)
+	if !isStr {
+		return formatValue(space, kv[formatter])
+	}
+	return append(space, str...)
 }
diff --git a/msgfmt/formatter_stringer.go b/msgfmt/formatter_stringer.go
index a6e51aa..5cc2a20 100644
--- a/msgfmt/formatter_stringer.go
+++ b/msgfmt/formatter_stringer.go
@@ -5,5 +5,9 @@ import "fmt"
 type stringerFormatter int
 
 func (formatter stringerFormatter) Format(space []byte, kv []interface{}) []byte {
-	return append(space, kv[formatter].(fmt.Stringer).String()...)
+	stringer, isStringer := kv[formatter].(fmt.Stringer)
+	if !isStringer {
+		return formatValue(space, kv[formatter])
+	}
+	return append(space, stringer.String()...)
 }
-- 
2.43.0


From 77167e3643767832e84ed0a3946b1a02cbae2771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 27/35] fix: spi: level names were missing in coloured level
 names

---
 countlog/spi/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/countlog/spi/color.go b/countlog/spi/color.go
index 9fed7f8..aefc859 100644
--- a/countlog/spi/color.go
+++ b/countlog/spi/color.go
@@ -1,5 +1,7 @@
 package spi
 
+import "strconv"
+
 var coloredNames = map[int]string{}
 
 func init() {
@@ -15,9 +17,7 @@ func init() {
 		LevelFatal,
 	}
 	for _, level := range levels {
-		coloredNames[level] = ColoredLevelName(level)
-		//coloredNames[level] = msgfmt.Sprintf("\x1b[{color};1m[{level}]\x1b[0m ",
-		//	"color", getColor(level), "level", LevelName(level))
+		coloredNames[level] = "\x1b[" + strconv.Itoa(getColor(level)) + ";1m[" + LevelName(level) + "]\x1b[0m "
 	}
 }
 
-- 
2.43.0


From 18dcc6793454ac399bae4175c4c6753fb37b6af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 28/35] fix: hrf: panicked for an event without the context
 properties of the log site

---
 countlog/output/hrf/ctx.go | 17 +++++++++++++++--
 countlog/output/hrf/hrf.go |  4 +---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/countlog/output/hrf/ctx.go b/countlog/output/hrf/ctx.go
index 9e53325..7124dce 100644
--- a/countlog/output/hrf/ctx.go
+++ b/countlog/output/hrf/ctx.go
@@ -6,9 +6,22 @@ import (
 )
 
 type ctxFormatter struct {
-	fmt msgfmt.Formatter
+	key string
 }
 
 func (formatter *ctxFormatter) Format(space []byte, event *spi.Event) []byte {
-	return formatter.fmt.Format(space, spi.GetLogContext(event.Context).Properties)
+	if event.Context == nil {
+		return space
+	}
+	ctx := spi.GetLogContext(event.Context)
+	if ctx == nil {
+		return space
+	}
+	for i := 0; i+1 < len(ctx.Properties); i += 2 {
+		if ctx.Properties[i] == formatter.key {
+			format := "\n" + formatter.key + ": {" + formatter.key + "}"
+			return msgfmt.FormatterOf(format, ctx.Properties).Format(space, ctx.Properties)
+		}
+	}
+	return space
 }
\ No newline at end of file
diff --git a/countlog/output/hrf/hrf.go b/countlog/output/hrf/hrf.go
index a617dd7..8382de0 100644
--- a/countlog/output/hrf/hrf.go
+++ b/countlog/output/hrf/hrf.go
@@ -34,9 +34,7 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 		for i := 0; i < len(ctx.Properties); i += 2 {
 			key := ctx.Properties[i].(string)
 			formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
-			formatters = append(formatters, &ctxFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", ctx.Properties),
-			})
+			formatters = append(formatters, &ctxFormatter{key})
 			formatters = append(formatters, fixedFormatter("\x1b[0m"))
 		}
 	}
-- 
2.43.0


From b1c284627997c3fabe5cad0201e07687ad532812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 29/35] fix: output/json: log lines were no valid JSON

---
 countlog/output/json/json.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/countlog/output/json/json.go b/countlog/output/json/json.go
index 413a0df..3741288 100644
--- a/countlog/output/json/json.go
+++ b/countlog/output/json/json.go
@@ -1,6 +1,7 @@
 package json
 
 import (
+	"reflect"
 	"github.com/v2pro/plz/countlog/output"
 	"github.com/v2pro/plz/countlog/spi"
 	"github.com/v2pro/plz/msgfmt/jsonfmt"
@@ -12,17 +13,21 @@ type JsonFormat struct {
 
 func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 	formatter := &jsonFormatter{
-		prefix:           `{"event":"` + site.Event + `"`,
-		suffix:           `,location:"` + site.Location() + `"}` + "\n",
+		prefix:           string(jsonfmt.WriteString([]byte(`{"event":`), site.Event)),
+		suffix:           string(jsonfmt.WriteString([]byte(`,"location":`), site.Location())) + "}\n",
 		timestampEncoder: jsonfmt.EncoderOf(reflect2.TypeOf(int64(0))),
 	}
 	for i := 0; i < len(site.Sample); i += 2 {
-		prefix := `"` + site.Sample[i].(string) + `":`
-		formatter.props = append(formatter.props, jsonFormatterProp{
+		prefix := string(jsonfmt.WriteString(nil, site.Sample[i].(string))) + ":"
+		prop := jsonFormatterProp{
 			prefix:  prefix,
 			idx:     i + 1,
-			encoder: jsonfmt.EncoderOf(reflect2.TypeOf(site.Sample[i+1])),
-		})
+		}
+		if site.Sample[i+1] != nil {
+			prop.valType = reflect.TypeOf(site.Sample[i+1])
+			prop.encoder = jsonfmt.EncoderOf(reflect2.TypeOf(site.Sample[i+1]))
+		}
+		formatter.props = append(formatter.props, prop)
 	}
 	return formatter
 }
@@ -37,7 +42,8 @@ type jsonFormatter struct {
 type jsonFormatterProp struct {
 	prefix  string
 	idx     int
-	encoder jsonfmt.Encoder
+	valType reflect.Type
+	encoder jsonfmt.Encoder // of valType
 }
 
 func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
@@ -45,9 +51,17 @@ func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
 	for _, prop := range formatter.props {
 		space = append(space, ',')
 		space = append(space, prop.prefix...)
-		space = prop.encoder.Encode(nil, space, reflect2.PtrOf(event.Properties[prop.idx]))
+		val := event.Properties[prop.idx]
+		if val == nil {
+			space = append(space, "null"...)
+		} else if reflect.TypeOf(val) == prop.valType {
+			space = prop.encoder.Encode(nil, space, reflect2.PtrOf(val))
+		} else {
+			// the same log site might be used with another type of value
+			space = jsonfmt.EncoderOfObject(val).Encode(nil, space, reflect2.PtrOf(val))
+		}
 	}
-	space = append(space, ",timestamp:"...)
+	space = append(space, ",\"timestamp\":"...)
 	space = formatter.timestampEncoder.Encode(nil, space, reflect2.PtrOf(event.Timestamp.UnixNano()))
 	space = append(space, formatter.suffix...)
 	return space
-- 
2.43.0


From 9ad489744f7473bfb4983d069b8dfdf4d7e322be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:44 +0000
Subject: [PATCH 30/35] fix: CloseAll: the errors of the second and later
 failures were not logged

---
 closer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/closer.go b/closer.go
index 3ab67c9..3880253 100644
--- a/closer.go
+++ b/closer.go
@@ -45,8 +45,9 @@ func CloseAll(resources []io.Closer, properties ...interface{}) error {
 		if err != nil {
 			_, file, line, _ := runtime.Caller(1)
 			closedAt := fmt.Sprintf("%s:%d", file, line)
-			properties = append(properties, "err", err)
-			countlog.Error("event!CloseAll called from "+closedAt, properties...)
+			// each error is logged with its own properties, in the layout of its log site
+			failure := append(properties[:len(properties):len(properties)], "err", err)
+			countlog.Error("event!CloseAll failed, called from "+closedAt, failure...)
 			errs = append(errs, err)
 		}
 	}
-- 
2.43.0


From 16459645f045e4bebf00189e320688d3cb860075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 31/35] fix: stats: a shard stayed locked after a panic in the
 extraction of dimensions

---
 countlog/stats/counter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/countlog/stats/counter.go b/countlog/stats/counter.go
index 9da8dc3..4d7c715 100644
--- a/countlog/stats/counter.go
+++ b/countlog/stats/counter.go
@@ -11,9 +11,10 @@ type countEvent struct {
 func (state *countEvent) Handle(event *spi.Event) {
 	lock, dimensions := state.Window.Mutate()
 	lock.Lock()
+	// extracting panics for an event that does not fit its log site
+	defer lock.Unlock()
 	counter := state.extractor.Extract(event, dimensions, NewCounterMonoid)
 	*(counter.(*CounterMonoid)) += CounterMonoid(1)
-	lock.Unlock()
 }
 
 func (state *countEvent) GetWindow() *Window {
-- 
2.43.0


From 83abdb77ef99527d4a3cb8a28024c19ad1f30c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 32/35] fix: stats: windows were exported only once

---
 countlog/stats/window.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index e1b43b9..f9abc8e 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -39,10 +39,11 @@ func newWindow(executor Executor, collector Collector, dimensionElemCount int) *
 }
 
 func (window *Window) exportEverySecond(ctx context.Context) {
-	timer := time.NewTimer(time.Second)
+	ticker := time.NewTicker(time.Second)
+	defer ticker.Stop()
 	for {
 		select {
-		case <-timer.C:
+		case <-ticker.C:
 			window.Export(time.Now())
 		case <-ctx.Done():
 			return
-- 
2.43.0


From 060ea64996a16df1882171e5acfad066a5c95606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:32 +0800
Subject: [PATCH 33/35] fix: stats: points were collected without the name of
 the event

---
 countlog/stats/stats.go  | 2 +-
 countlog/stats/window.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index f357b30..a86e35a 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -44,7 +44,7 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		return &spi.DummyEventHandler{Site: site}
 	}
 	extractor, dimensionElemCount := newDimensionExtractor(site)
-	window := newWindow(aggregator.executor, aggregator.collector, dimensionElemCount)
+	window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
 	switch agg {
 	case "counter":
 		return &countEvent{
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index f9abc8e..3fd1d43 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -23,9 +23,10 @@ type windowShard struct {
 	lock *sync.Mutex
 }
 
-func newWindow(executor Executor, collector Collector, dimensionElemCount int) *Window {
+func newWindow(executor Executor, collector Collector, event string, dimensionElemCount int) *Window {
 	window := &Window{
 		collector:          collector,
+		event:              event,
 		dimensionElemCount: dimensionElemCount,
 	}
 	for i := 0; i < 16; i++ {
-- 
2.43.0


From fd94d584dffdf9908db95507106d587aa4cc12da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:03 +0000
Subject: [PATCH 34/35] fix: lumberjack: a name in which prefix and extension
 overlap panicked the clean-up

---
 countlog/output/lumberjack/lumberjack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 3a8623e..41aacfc 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -442,6 +442,10 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 	if !strings.HasSuffix(filename, ext) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
+	if len(filename) < len(prefix)+len(ext) {
+		// prefix and extension overlap
+		return time.Time{}, errors.New("mismatched name")
+	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
 	if l.BackupTimeFormat == "" {
 		l.BackupTimeFormat = defaultBackupTimeFormat
-- 
2.43.0


From 4c2db93ffdfce10e2628e0611213e14212119c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:03 +0000
Subject: [PATCH 35/35] fix: lumberjack: data race on BackupTimeFormat between
 writes and the clean-up

---
 countlog/output/lumberjack/lumberjack.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 41aacfc..dc65459 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -220,10 +220,11 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		if l.BackupTimeFormat == "" {
-			l.BackupTimeFormat = defaultBackupTimeFormat
+		format := l.BackupTimeFormat
+		if format == "" {
+			format = defaultBackupTimeFormat
 		}
-		newname := backupName(name, l.LocalTime, l.BackupTimeFormat)
+		newname := backupName(name, l.LocalTime, format)
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -447,10 +448,12 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched name")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
-	if l.BackupTimeFormat == "" {
-		l.BackupTimeFormat = defaultBackupTimeFormat
+	// runs in the clean-up goroutine, which does not hold the mutex
+	format := l.BackupTimeFormat
+	if format == "" {
+		format = defaultBackupTimeFormat
 	}
-	return time.Parse(l.BackupTimeFormat, ts)
+	return time.Parse(format, ts)
 }
 
 // max returns the maximum size in bytes of log files before rolling.
-- 
2.43.0

