From dae3e17fb9cbf1a9aaadb752487ef54e09c93a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 01/30] fix: ToMarker refuses markers outside the text

---
 scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner.go b/scanner.go
index 475845e..965251d 100644
--- a/scanner.go
+++ b/scanner.go
@@ -371,7 +371,7 @@ type Marker int
 // Moves s to the marked position.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) ToMarker(m Marker) bool {
-	if m < 0 && Marker(len(s.full)) <= m {
+	if m < 0 || Marker(len(s.full)) < m {
 		return false
 	}
 	s.pos = int(m)
-- 
2.43.0


From 4685d5d7658e900749e80a340b08d5d5101c6398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 02/30] fix: no rune matches beyond the end of the text

---
 reader.go      | 2 +-
 scanner.go     | 2 +-
 scanner_rev.go | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/reader.go b/reader.go
index 0fddcef..dc734a0 100644
--- a/reader.go
+++ b/reader.go
@@ -448,7 +448,7 @@ type holeyReader struct {
 
 func (r holeyReader) Read(s *Scanner) error {
 	val, i := utf8.DecodeRuneInString(s.Tail())
-	if inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
+	if i != 0 && inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {
 		return s.ErrorIfFalse(s.Move(i), r.What())
 	}
 	return s.ErrorFor(r.What())
diff --git a/scanner.go b/scanner.go
index 965251d..c687181 100644
--- a/scanner.go
+++ b/scanner.go
@@ -128,7 +128,7 @@ func (s *Scanner) ToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfRune(r rune) bool {
 	first, i := utf8.DecodeRuneInString(s.Tail())
-	if i == -1 || first != r {
+	if i == 0 || first != r {
 		return false
 	}
 	return s.Move(i)
diff --git a/scanner_rev.go b/scanner_rev.go
index 997b270..6680ce5 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -80,7 +80,7 @@ func (s *Scanner) RevToFold(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfRune(r rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || last != r {
+	if i == 0 || last != r {
 		return false
 	}
 	return s.Move(-i)
@@ -125,7 +125,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfAnyRune(str string) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i != -1 && strings.ContainsRune(str, last) {
+	if i != 0 && strings.ContainsRune(str, last) {
 		return s.Move(-i)
 	}
 	return false
-- 
2.43.0


From 08bca5822062209e6a6d648f57ea12f251ea8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:29 +0000
Subject: [PATCH 03/30] fix: RevIfBetween and RevIfMatch move if the rune
 matches

---
 scanner_rev.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner_rev.go b/scanner_rev.go
index 6680ce5..95810eb 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -168,7 +168,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfBetween(min, max rune) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || inRange(min, last, max) {
+	if i == 0 || !inRange(min, last, max) {
 		return false
 	}
 	return s.Move(-i)
@@ -211,7 +211,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfMatch(check MatchFunc) bool {
 	last, i := utf8.DecodeLastRuneInString(s.Head())
-	if i == -1 || check(last) {
+	if i == 0 || !check(last) {
 		return false
 	}
 	return s.Move(-i)
-- 
2.43.0


From a8c4659110ff37555d2b9ffdbad2d6654389bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:30 +0000
Subject: [PATCH 04/30] fix: step over invalid UTF-8 bytes and U+FFFD by their
 real width

---
 intl.go    | 6 ++----
 scanner.go | 8 +++++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/intl.go b/intl.go
index 1f0a2cc..e2edfe7 100644
--- a/intl.go
+++ b/intl.go
@@ -23,11 +23,9 @@ func makeRevItr(str string) revItr {
 }
 
 func (itr *revItr) next() bool {
-	if itr.Val != utf8.RuneError {
-		itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
-	}
+	itr.Str = itr.Str[0 : len(itr.Str)-itr.vi]
 	itr.Val, itr.vi = utf8.DecodeLastRuneInString(itr.Str)
-	return itr.Val != utf8.RuneError
+	return itr.vi != 0
 }
 
 func (itr *revItr) pos() int {
diff --git a/scanner.go b/scanner.go
index c687181..eca2ecd 100644
--- a/scanner.go
+++ b/scanner.go
@@ -334,10 +334,12 @@ func (s *Scanner) Move(n int) bool {
 func (s *Scanner) MoveRunes(n int) bool {
 	c := 0
 	if n > 0 {
-		for i, r := range s.Tail() {
+		tail := s.Tail()
+		for i := range tail {
 			c++
 			if n == c {
-				return s.Move(i + utf8.RuneLen(r))
+				_, w := utf8.DecodeRuneInString(tail[i:])
+				return s.Move(i + w)
 			}
 		}
 		return false
@@ -346,7 +348,7 @@ func (s *Scanner) MoveRunes(n int) bool {
 		for itr.next() {
 			c--
 			if n == c {
-				return s.Move(-(itr.pos() + utf8.RuneLen(itr.Val)))
+				return s.Move(-(itr.pos() + itr.vi))
 			}
 		}
 		return false
-- 
2.43.0


From 3f6f41fa263f32871a284ae0fce9ee9f8cbf7386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:31 +0000
Subject: [PATCH 05/30] fix: ScanString reads the last runes of the text

---
 intl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intl.go b/intl.go
index e2edfe7..bb34c9b 100644
--- a/intl.go
+++ b/intl.go
@@ -42,7 +42,7 @@ func getPrefix(str string, n int) (string, bool) {
 		}
 		count++
 	}
-	return str, false
+	return str, count == n
 }
 
 func midSubString(str string, from int) string {
-- 
2.43.0


From c101b39ced8aeb279f58ccb9a245daac7f26f8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:32 +0000
Subject: [PATCH 06/30] fix: While functions report and do the move they made

---
 scanner.go     | 6 +++---
 scanner_rev.go | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/scanner.go b/scanner.go
index eca2ecd..20d11ea 100644
--- a/scanner.go
+++ b/scanner.go
@@ -155,7 +155,7 @@ func (s *Scanner) WhileRune(r rune) bool {
 
 	for i, v := range s.Tail() {
 		if v != r {
-			return s.Move(i)
+			return i > 0 && s.Move(i)
 		}
 	}
 	return s.ToEnd()
@@ -244,7 +244,7 @@ func (s *Scanner) WhileBetween(min, max rune) bool {
 
 	for i, v := range s.Tail() {
 		if !inRange(min, v, max) {
-			return s.Move(i)
+			return i > 0 && s.Move(i)
 		}
 	}
 	return s.ToEnd()
@@ -291,7 +291,7 @@ func (s *Scanner) WhileMatch(check MatchFunc) bool {
 		}
 	}
 
-	return false
+	return s.ToEnd()
 }
 
 // ----------------------------------------------------------------------- state
diff --git a/scanner_rev.go b/scanner_rev.go
index 95810eb..f81f927 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -110,7 +110,7 @@ func (s *Scanner) RevWhileRune(r rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if itr.Val != r {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -154,7 +154,7 @@ func (s *Scanner) RevWhileAnyRune(str string) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !strings.ContainsRune(str, itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -196,7 +196,7 @@ func (s *Scanner) RevWhileBetween(min, max rune) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !inRange(min, itr.Val, max) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
@@ -239,7 +239,7 @@ func (s *Scanner) RevWhileMatch(check MatchFunc) bool {
 	itr := makeRevItr(s.Head())
 	for itr.next() {
 		if !check(itr.Val) {
-			if itr.pos() == len(s.Head()) {
+			if itr.pos() == 0 {
 				return false
 			}
 			return s.Move(-itr.pos())
-- 
2.43.0


From 8f80927ee612578d253aee6080a8ff496fe02826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:00 +0000
Subject: [PATCH 07/30] fix: fold functions compare rune by rune and do not
 panic on short texts

---
 intl.go        | 27 +++++++++++++++++++++++++++
 scanner.go     | 20 +++++++++-----------
 scanner_rev.go | 13 +++----------
 3 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/intl.go b/intl.go
index bb34c9b..4955c31 100644
--- a/intl.go
+++ b/intl.go
@@ -1,6 +1,7 @@
 package tok
 
 import (
+	"strings"
 	"unicode/utf8"
 )
 
@@ -61,3 +62,29 @@ func subStringFrom(str string, from int, n int) string {
 	res, _ := getPrefix(tail, n)
 	return res
 }
+
+//------------------------------------------------------------------------------
+
+// foldPrefix returns the number of bytes at the begin of str that match val under Unicode case-folding.
+func foldPrefix(str, val string) (int, bool) {
+	n := 0
+	for _, v := range val {
+		r, i := utf8.DecodeRuneInString(str[n:])
+		if i == 0 || !strings.EqualFold(string(r), string(v)) {
+			return 0, false
+		}
+		n += i
+	}
+	return n, true
+}
+
+// foldSuffix returns the number of bytes at the end of str that match val under Unicode case-folding.
+func foldSuffix(str, val string) (int, bool) {
+	itr := makeRevItr(str)
+	for valItr := makeRevItr(val); valItr.next(); {
+		if !itr.next() || !strings.EqualFold(string(itr.Val), string(valItr.Val)) {
+			return 0, false
+		}
+	}
+	return itr.pos() + itr.vi, true
+}
diff --git a/scanner.go b/scanner.go
index 20d11ea..ed44e49 100644
--- a/scanner.go
+++ b/scanner.go
@@ -101,26 +101,24 @@ func (s *Scanner) To(str string) bool {
 // Moves s the length of str forward if Tail() has str as the prefix under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) IfFold(str string) bool {
-	i := len(str)
-	prefix := s.Tail()[:i]
-	if strings.EqualFold(prefix, str) {
-		return s.Move(i)
-	}
-	return false
+	i, ok := foldPrefix(s.Tail(), str)
+	return ok && s.Move(i)
 }
 
 // Moves s to the first appearance of str in Tail() under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) ToFold(str string) bool {
-	i := len(str)
 	sub := s.Tail()
-	for n := 0; len(sub) >= i+n; n++ {
-		prefix := sub[n : n+i]
-		if strings.EqualFold(prefix, str) {
+	for n := 0; ; {
+		if _, ok := foldPrefix(sub[n:], str); ok {
 			return s.Move(n)
 		}
+		_, i := utf8.DecodeRuneInString(sub[n:])
+		if i == 0 {
+			return false
+		}
+		n += i
 	}
-	return false
 }
 
 // ------------------------------------------------------------------------ rune
diff --git a/scanner_rev.go b/scanner_rev.go
index f81f927..ab8a34c 100644
--- a/scanner_rev.go
+++ b/scanner_rev.go
@@ -51,23 +51,16 @@ func (s *Scanner) RevTo(str string) bool {
 // Moves s the length of str backward if Head() has str as the suffix under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevIfFold(str string) bool {
-	i := len(str)
-	head := s.Head()
-	suffix := head[len(head)-i:]
-	if strings.EqualFold(suffix, str) {
-		return s.Move(-i)
-	}
-	return false
+	i, ok := foldSuffix(s.Head(), str)
+	return ok && s.Move(-i)
 }
 
 // Moves s to the last appearance of str in Head() under Unicode case-folding.
 // Returns true if s was moved, otherwise false.
 func (s *Scanner) RevToFold(str string) bool {
-	i := len(str)
 	itr := makeRevItr(s.Head())
 	for itr.next() {
-		suffix := itr.Str[len(itr.Str)-i:]
-		if strings.EqualFold(suffix, str) {
+		if _, ok := foldSuffix(itr.Str, str); ok {
 			return s.Move(-itr.pos())
 		}
 	}
-- 
2.43.0


From c841f3e97563fc875bff5c35d30202b7ca4aae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:01 +0000
Subject: [PATCH 08/30] fix: ReadInt and ReadUint detect every overflow of 64
 bit values

---
 read.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/read.go b/read.go
index 0773827..3526f52 100644
--- a/read.go
+++ b/read.go
@@ -109,15 +109,15 @@ func (s *Scanner) ReadInt(base int, bitSize int) (int64, error) {
 		}
 
 		if neg {
-			tmp = (i64)*int64(base) - int64(v)
-			if i64 < tmp || tmp < min {
+			if i64 < (min+int64(v))/int64(base) {
 				break
 			}
+			tmp = (i64)*int64(base) - int64(v)
 		} else {
-			tmp = (i64 * int64(base)) + int64(v)
-			if i64 > tmp || tmp > max {
+			if i64 > (max-int64(v))/int64(base) {
 				break
 			}
+			tmp = (i64 * int64(base)) + int64(v)
 		}
 
 		i64 = tmp
@@ -196,11 +196,11 @@ func (s *Scanner) ReadUint(base int, bitSize int) (uint64, error) {
 			break
 		}
 
-		tmp = (u64 * uint64(base)) + uint64(v)
-		if u64 > tmp || tmp > max {
+		if u64 > (max-uint64(v))/uint64(base) {
 			break
 		}
 
+		tmp = (u64 * uint64(base)) + uint64(v)
 		u64 = tmp
 		n = i
 	}
-- 
2.43.0


From 7b134bae15aa931fe612c2916064a5fa5ed7ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:03 +0000
Subject: [PATCH 09/30] fix: ReadRune and RevReadRune read a valid U+FFFD

---
 read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 3526f52..fd83492 100644
--- a/read.go
+++ b/read.go
@@ -9,7 +9,7 @@ import (
 // ReadRune reads one rune value from the scanner.
 func (s *Scanner) ReadRune() (rune, error) {
 	r, i := utf8.DecodeRuneInString(s.Tail())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i <= 1 {
 		return utf8.RuneError, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(i), "rune")
@@ -18,7 +18,7 @@ func (s *Scanner) ReadRune() (rune, error) {
 // RevReadRune reads one rune value from the scanner the reverse way.
 func (s *Scanner) RevReadRune() (rune, error) {
 	r, i := utf8.DecodeLastRuneInString(s.Head())
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && i <= 1 {
 		return r, s.ErrorFor("rune")
 	}
 	return r, s.ErrorIfFalse(s.Move(-i), "rune")
-- 
2.43.0


From 226b7f6af2a3e14dd2d87e364cb1c8c9b2924153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:42 +0000
Subject: [PATCH 10/30] fix: Not fails at the end of the text, where it can not
 move

---
 reader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index dc734a0..66fd8aa 100644
--- a/reader.go
+++ b/reader.go
@@ -709,8 +709,7 @@ func (r *notReader) Read(s *Scanner) error {
 	if err == nil {
 		return s.ErrorFor(r.sub.What())
 	}
-	s.MoveRunes(1)
-	return nil
+	return s.ErrorIfFalse(s.MoveRunes(1), r.What())
 }
 
 func (r *notReader) What() string {
-- 
2.43.0


From 0a9047260fcd5c77f73fd569bd905005792fe0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:43 +0000
Subject: [PATCH 11/30] fix: Zom and Many stop when the sub reader does not
 move

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 66fd8aa..8a42435 100644
--- a/reader.go
+++ b/reader.go
@@ -607,7 +607,7 @@ type manyReader struct {
 
 func (r manyReader) Read(s *Scanner) error {
 	start := s.Mark()
-	for r.sub.Read(s) == nil {
+	for m := start; r.sub.Read(s) == nil && s.Mark() != m; m = s.Mark() {
 	}
 	end := s.Mark()
 	return s.ErrorIfFalse(start < end, r.What())
@@ -1003,7 +1003,7 @@ type zomReader struct {
 }
 
 func (r zomReader) Read(s *Scanner) error {
-	for r.sub.Read(s) == nil {
+	for m := s.Mark(); r.sub.Read(s) == nil && s.Mark() != m; m = s.Mark() {
 	}
 	return nil
 }
-- 
2.43.0


From bbe640534873450d7b6dda7460667317ef4a7561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:44 +0000
Subject: [PATCH 12/30] fix: Times moves back if it fails

---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index 8a42435..322b4cf 100644
--- a/reader.go
+++ b/reader.go
@@ -895,8 +895,10 @@ type timesReader struct {
 }
 
 func (r *timesReader) Read(s *Scanner) error {
+	m := s.Mark()
 	for i := 0; i < r.n; i++ {
 		if e := r.sub.Read(s); e != nil {
+			s.ToMarker(m)
 			return e
 		}
 	}
-- 
2.43.0


From d96385c1dcc1aca6ebceda3d15707d67a5071e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:45 +0000
Subject: [PATCH 13/30] fix: Past, Body and BodyTail also find a match at the
 end of the text

---
 reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reader.go b/reader.go
index 322b4cf..289ba2a 100644
--- a/reader.go
+++ b/reader.go
@@ -322,7 +322,7 @@ type bodyReader struct {
 
 func (r *bodyReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
@@ -355,7 +355,7 @@ type bodyTailReader struct {
 
 func (r *bodyTailReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
 			sub := NewScanner(s.Get(MakeToken(m, t)))
@@ -752,7 +752,7 @@ type pastReader struct {
 
 func (r *pastReader) Read(s *Scanner) error {
 	m := s.Mark()
-	for ; !s.AtEnd(); s.MoveRunes(1) {
+	for ok := true; ok; ok = s.MoveRunes(1) {
 		if e := r.sub.Read(s); e == nil {
 			return nil
 		}
-- 
2.43.0


From 98cd28b6791d2b0b83cbf6c8fe0a45f40649462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:41 +0000
Subject: [PATCH 14/30] fix: Body and BodyTail read the body with the positions
 and the Tracker of the scanner

---
 reader.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/reader.go b/reader.go
index 289ba2a..67e60b1 100644
--- a/reader.go
+++ b/reader.go
@@ -320,17 +320,24 @@ type bodyReader struct {
 	tail Reader
 }
 
+// readBody moves s from m to t if body reads everything inbetween.
+func readBody(s *Scanner, body Reader, m Marker, t Marker) bool {
+	s.ToMarker(m)
+	sub := &Scanner{full: s.full[:t], pos: int(m), Tracker: s.Tracker}
+	if e := sub.Use(body); e != nil || !sub.AtEnd() {
+		return false
+	}
+	return s.ToMarker(t)
+}
+
 func (r *bodyReader) Read(s *Scanner) error {
 	m := s.Mark()
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
-			e = sub.Use(r.body)
-			if e != nil || !sub.AtEnd() {
+			if !readBody(s, r.body, m, t) {
 				break
 			}
-			s.ToMarker(t)
 			return nil
 		}
 	}
@@ -358,9 +365,7 @@ func (r *bodyTailReader) Read(s *Scanner) error {
 	for ok := true; ok; ok = s.MoveRunes(1) {
 		t := s.Mark()
 		if e := r.tail.Read(s); e == nil {
-			sub := NewScanner(s.Get(MakeToken(m, t)))
-			e = sub.Use(r.body)
-			if e != nil || !sub.AtEnd() {
+			if !readBody(s, r.body, m, t) || r.tail.Read(s) != nil {
 				break
 			}
 			return nil
-- 
2.43.0


From cd8452eeb3b3f218b02fb507a9b4f6f466be4e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:43 +0000
Subject: [PATCH 15/30] fix: Any returns the errors of its parts if none of
 them is a ReadError

---
 reader.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 67e60b1..4d02ddd 100644
--- a/reader.go
+++ b/reader.go
@@ -78,13 +78,19 @@ type anyReader struct {
 }
 
 func getDeepest(errs []error) error {
-	var deepest ReadError
+	var deepest error
 	for _, e := range errs {
 		re, ok := e.(ReadError)
-		if ok && re.Later(deepest) {
+		if !ok {
+			continue
+		}
+		if prev, ok := deepest.(ReadError); !ok || re.Later(prev) {
 			deepest = re
 		}
 	}
+	if deepest == nil && len(errs) > 0 {
+		return errs[len(errs)-1]
+	}
 	return deepest
 }
 
@@ -99,6 +105,9 @@ func (r *anyReader) Read(s *Scanner) error {
 		}
 	}
 	s.ToMarker(m)
+	if len(errs) == 0 {
+		return s.ErrorFor(r.What())
+	}
 	return getDeepest(errs)
 }
 
-- 
2.43.0


From e49b90872245898700eda35b31ce095626c36cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:44 +0000
Subject: [PATCH 16/30] fix: Wrap moves back if the function fails

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 4d02ddd..0421676 100644
--- a/reader.go
+++ b/reader.go
@@ -995,7 +995,7 @@ type wrapReader struct {
 }
 
 func (r wrapReader) Read(s *Scanner) error {
-	return r.f(s)
+	return s.UseFunc(r.f)
 }
 
 func (r wrapReader) What() string {
-- 
2.43.0


From d59d83a26a674268ad4502785f23b17b9aa87f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:14 +0000
Subject: [PATCH 17/30] fix: a Janus end expects the matched sub string until
 the next begin

---
 grammar/mxt.go | 2 +-
 reader.go      | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/grammar/mxt.go b/grammar/mxt.go
index 5edc60e..ac162cd 100644
--- a/grammar/mxt.go
+++ b/grammar/mxt.go
@@ -39,7 +39,7 @@ func MXT() *MXTReader {
 	g.Arrow.Reader = arrow
 	saltHead, saltTail := Janus("", Opt(&g.Word))
 	g.Salt.Reader = Seq(Many(' '), saltHead, Zom(' '))
-	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Opt(&g.Salt))
+	g.Header.Reader = Seq(&g.Marker, Many(' '), &g.Name, &g.Comment, &g.Arrow, Any(&g.Salt, At(saltHead)))
 	g.NextMarker.Reader = Seq(&g.NL, "//", saltTail)
 	g.EmptyContent.Reader = Any(AtEnd(), At(&g.NextMarker))
 	g.Content.Reader = To(Any(&g.NextMarker, AtEnd()))
diff --git a/reader.go b/reader.go
index 0421676..8b0767a 100644
--- a/reader.go
+++ b/reader.go
@@ -530,11 +530,7 @@ type janusEndReader struct {
 }
 
 func (r *janusEndReader) Read(s *Scanner) error {
-	err := r.reader.Read(s)
-	if err == nil {
-		r.reader.str = ""
-	}
-	return err
+	return r.reader.Read(s)
 }
 
 func (r *janusEndReader) What() string {
-- 
2.43.0


From a3880872704e41431f49fe9ff773a1dcef1c99d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:38 +0000
Subject: [PATCH 18/30] fix: CheckRuleName checks the whole name

---
 grammar.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index bcacd3e..28d5204 100644
--- a/grammar.go
+++ b/grammar.go
@@ -141,7 +141,7 @@ func (r ruleNameReader) What() string {
 
 // CheckRuleName validates the Name field of a RuleReader.
 func CheckRuleName(name string) error {
-	return NewScanner(name).Use(RuleName())
+	return NewScanner(name).Use(Seq(RuleName(), AtEnd()))
 }
 
 // RuleName returns a Reader to validate a Name field of a RuleReader.
-- 
2.43.0


From 2f35c5087f5f9eb7603b80c8bec96db601a0989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:39 +0000
Subject: [PATCH 19/30] fix: SetRuleNames and CollectRules skip unexported
 fields instead of a panic

---
 grammar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grammar.go b/grammar.go
index 28d5204..d821c44 100644
--- a/grammar.go
+++ b/grammar.go
@@ -30,7 +30,7 @@ func SetRuleNames(g Grammar) error {
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < t.NumField(); i++ {
 		field := t.Field(i)
-		if field.Type != reflect.TypeOf(Rule{}) {
+		if field.Type != reflect.TypeOf(Rule{}) || field.PkgPath != "" {
 			continue
 		}
 		name := field.Tag.Get("name")
@@ -60,6 +60,9 @@ func CollectRules(g Grammar) []*Rule {
 	rules := []*Rule{}
 	v := reflect.ValueOf(g).Elem()
 	for i := 0; i < v.NumField(); i++ {
+		if v.Type().Field(i).PkgPath != "" {
+			continue
+		}
 		field := v.Field(i)
 		i := field.Addr().Interface()
 		ptr, ok := i.(*Rule)
-- 
2.43.0


From a6fc6d5df06dd7af14b4b47b880741eb4239bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:40 +0000
Subject: [PATCH 20/30] fix: sort segments with a strict order, also for equal
 and empty tokens

---
 segment.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/segment.go b/segment.go
index c280450..a22deb8 100644
--- a/segment.go
+++ b/segment.go
@@ -45,13 +45,21 @@ func (s *segSorter) Swap(i, j int) {
 	s.values[i], s.values[j] = s.values[j], s.values[i]
 }
 
+// lessToken orders by the start, the longer Token first.
+func lessToken(a, b Token) bool {
+	if a.from != b.from {
+		return a.from < b.from
+	}
+	return a.to > b.to
+}
+
 // SortSegments sorts the segments in a slice.
 // Segments that cover other segments will appear before the covered values.
 func SortSegments(values []Segment) {
 	sorter := &segSorter{
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
-			return a.Covers(b.Token) || a.Before(b.Token)
+			return lessToken(a.Token, b.Token)
 		},
 	}
 	sort.Stable(sorter)
@@ -64,7 +72,7 @@ func SortSegmentsByOrder(values []Segment, order []string) {
 		values: values,
 		cmpFunc: func(a, b Segment) bool {
 			if a.Token != b.Token {
-				return a.Covers(b.Token) || a.Before(b.Token)
+				return lessToken(a.Token, b.Token)
 			}
 			ai, bi := -1, -1
 			for i, info := range order {
-- 
2.43.0


From 15d5b8426f1b8f9b8903869d2d95d7bf67c0be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:41 +0000
Subject: [PATCH 21/30] fix: Log keeps the exit of entries that were moved
 while they were open

---
 monitor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monitor.go b/monitor.go
index cf3f8a3..c46ce0a 100644
--- a/monitor.go
+++ b/monitor.go
@@ -21,6 +21,7 @@ func (e LogEntry) String() string {
 type Log struct {
 	Entries []LogEntry
 	level   int
+	open    []int
 }
 
 func MonitorGrammar(g Grammar) *Log {
@@ -37,6 +38,7 @@ func (l *Log) Enter(info string, pos int) *LogEntry {
 		Info:    info,
 		Level:   l.level,
 	})
+	l.open = append(l.open, i)
 	return &l.Entries[i]
 }
 
@@ -44,6 +46,11 @@ func (l *Log) Exit(e *LogEntry, pos int, err error) {
 	e.ExitAt = pos
 	e.Error = err
 	l.level--
+	// e can be outdated, the Entries can be moved since Enter was called
+	if n := len(l.open); n > 0 {
+		l.Entries[l.open[n-1]] = *e
+		l.open = l.open[:n-1]
+	}
 }
 
 func (l *Log) Monitor(readers ...*Rule) {
@@ -67,6 +74,7 @@ func (l *Log) PrintWithPreview(str string, n int) {
 func (l *Log) Reset() {
 	l.Entries = []LogEntry{}
 	l.level = 0
+	l.open = nil
 }
 
 type monitorReader struct {
-- 
2.43.0


From f575ed4a98155dd50c08738403871ecd27770d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:20 +0000
Subject: [PATCH 22/30] fix: PrintWithPreview shows the text at the entered
 position

---
 monitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/monitor.go b/monitor.go
index c46ce0a..006c295 100644
--- a/monitor.go
+++ b/monitor.go
@@ -67,7 +67,11 @@ func (l *Log) Print() {
 
 func (l *Log) PrintWithPreview(str string, n int) {
 	for _, e := range l.Entries {
-		fmt.Println(e, ">", strconv.Quote(subStringFrom(str, e.EnterAt, n)))
+		preview := ""
+		if e.EnterAt < len(str) {
+			preview, _ = getPrefix(str[e.EnterAt:], n)
+		}
+		fmt.Println(e, ">", strconv.Quote(preview))
 	}
 }
 
-- 
2.43.0


From b6852c678984826c542b5f914122c4e8e304504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:20 +0000
Subject: [PATCH 23/30] fix: Lua keywords are whole words and no names

---
 grammar/lua.go | 56 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index ad3eafc..90175e8 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -49,6 +49,12 @@ func LuaComment() Reader {
 	return Any(long, line)
 }
 
+var luaKeywords = []string{
+	"and", "break", "do", "else", "elseif", "end", "false", "for", "function",
+	"goto", "if", "in", "local", "nil", "not", "or", "repeat", "return",
+	"then", "true", "until", "while",
+}
+
 type LuaReader struct {
 	SheBang       Rule `name:"SheBang"`
 	Name          Rule `name:"Name"`
@@ -108,15 +114,23 @@ func Lua() *LuaReader {
 	g := &LuaReader{}
 	MustSetRuleNames(g)
 	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
-	g.Name.Reader = Seq(Set("a-zA-Z", "_"), Zom(Set("a-zA-Z0-9", "_")))
+	wordRune := Set("a-zA-Z0-9", "_")
+	keyword := func(str string) Reader {
+		return Named(Lit(str).What(), Seq(str, At(Any(AtEnd(), Not(wordRune)))))
+	}
+	keywords := []interface{}{}
+	for _, str := range luaKeywords {
+		keywords = append(keywords, keyword(str))
+	}
+	g.Name.Reader = Seq(At(Not(Named("keyword", Any(keywords...)))), Set("a-zA-Z", "_"), Zom(wordRune))
 	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(Seq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
 
-	g.UnOp.Reader = Any("-", "not", "#", "~")
+	g.UnOp.Reader = Any("-", keyword("not"), "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<=", "<", ">=", ">", "==", "~=", "and", "or",
+		"..", "<=", "<", ">=", ">", "==", "~=", keyword("and"), keyword("or"),
 		"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<",
 	)
 
@@ -138,8 +152,8 @@ func Lua() *LuaReader {
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
-	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, "end")
-	g.FuncDef.Reader = SkipWSSeq(Lit("function"), &g.FuncBody)
+	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, keyword("end"))
+	g.FuncDef.Reader = SkipWSSeq(keyword("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -149,7 +163,7 @@ func Lua() *LuaReader {
 
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
 	g.FinalExp.Reader = Any(
-		"nil", "false", "true",
+		keyword("nil"), keyword("false"), keyword("true"),
 		LuaNumeral(), &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
@@ -173,25 +187,25 @@ func Lua() *LuaReader {
 
 	g.FuncName.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq('.', &g.Name)), Opt(SkipWSSeq(':', &g.Name)))
 	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = SkipWSSeq(Lit("return"), Opt(&g.ExpList), Opt(';'))
+	g.RetStat.Reader = SkipWSSeq(keyword("return"), Opt(&g.ExpList), Opt(';'))
 	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
 	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
-	g.Break.Reader = Lit("break")
-	g.GoTo.Reader = SkipWSSeq("goto", &g.Name)
-	g.Do.Reader = SkipWSSeq("do", &g.Block, "end")
-	g.While.Reader = SkipWSSeq("while", &g.Exp, "do", &g.Block, "end")
-	g.Repeat.Reader = SkipWSSeq("repeat", &g.Block, "until", &g.Exp)
+	g.Break.Reader = keyword("break")
+	g.GoTo.Reader = SkipWSSeq(keyword("goto"), &g.Name)
+	g.Do.Reader = SkipWSSeq(keyword("do"), &g.Block, keyword("end"))
+	g.While.Reader = SkipWSSeq(keyword("while"), &g.Exp, keyword("do"), &g.Block, keyword("end"))
+	g.Repeat.Reader = SkipWSSeq(keyword("repeat"), &g.Block, keyword("until"), &g.Exp)
 	g.IfElse.Reader = SkipWSSeq(
-		"if", &g.Exp, "then", &g.Block,
-		Zom(SkipWSSeq("elseif", &g.Exp, "then", &g.Block)),
-		Opt(SkipWSSeq("else", &g.Block)),
-		"end",
+		keyword("if"), &g.Exp, keyword("then"), &g.Block,
+		Zom(SkipWSSeq(keyword("elseif"), &g.Exp, keyword("then"), &g.Block)),
+		Opt(SkipWSSeq(keyword("else"), &g.Block)),
+		keyword("end"),
 	)
-	g.For.Reader = SkipWSSeq("for", &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), "do", &g.Block, "end")
-	g.ForEach.Reader = SkipWSSeq("for", &g.NameList, "in", &g.ExpList, "do", &g.Block, "end")
-	g.Func.Reader = SkipWSSeq("function", &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq("local", "function", &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = SkipWSSeq("local", &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
+	g.For.Reader = SkipWSSeq(keyword("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), keyword("do"), &g.Block, keyword("end"))
+	g.ForEach.Reader = SkipWSSeq(keyword("for"), &g.NameList, keyword("in"), &g.ExpList, keyword("do"), &g.Block, keyword("end"))
+	g.Func.Reader = SkipWSSeq(keyword("function"), &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = SkipWSSeq(keyword("local"), keyword("function"), &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = SkipWSSeq(keyword("local"), &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
 		Seq(&g.VarList, '=', &g.ExpList),
-- 
2.43.0


From bf6d10bc0985c9fd1774e55e26f474efa341cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:56 +0000
Subject: [PATCH 24/30] fix: Lua allows white space and comments between all
 tokens

---
 grammar/lua.go | 59 +++++++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 90175e8..b9255de 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -123,7 +123,11 @@ func Lua() *LuaReader {
 		keywords = append(keywords, keyword(str))
 	}
 	g.Name.Reader = Seq(At(Not(Named("keyword", Any(keywords...)))), Set("a-zA-Z", "_"), Zom(wordRune))
-	g.NameList.Reader = SkipWSSeq(&g.Name, Zom(Seq(',', &g.Name)))
+	skiper := Zom(Any(WS(), &g.Comment))
+	skipSeq := func(list ...interface{}) Reader {
+		return SkipSeq(skiper, list...)
+	}
+	g.NameList.Reader = skipSeq(&g.Name, Zom(skipSeq(',', &g.Name)))
 	g.Numeral.Reader = LuaNumeral()
 	g.LiteralString.Reader = LuaString()
 	g.Comment.Reader = LuaComment()
@@ -134,26 +138,21 @@ func Lua() *LuaReader {
 		"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<",
 	)
 
-	skiper := Zom(Any(WS(), &g.Comment))
-	skipSeq := func(list ...interface{}) Reader {
-		return SkipSeq(skiper, list...)
-	}
-
 	g.FieldSep.Reader = AnyRune(",;")
 	g.Field.Reader = Any(
 		skipSeq('[', &g.Exp, ']', '=', &g.Exp),
 		skipSeq(&g.Name, '=', &g.Exp),
 		&g.Exp,
 	)
-	g.FieldList.Reader = skipSeq(&g.Field, Zom(Seq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
+	g.FieldList.Reader = skipSeq(&g.Field, Zom(skipSeq(&g.FieldSep, &g.Field)), Opt(&g.FieldSep))
 	g.TableConstructor.Reader = skipSeq('{', Opt(&g.FieldList), '}')
 
-	nameAndArgs := skipSeq(Opt(Seq(':', &g.Name)), &g.FuncArgs)
+	nameAndArgs := skipSeq(Opt(skipSeq(':', &g.Name)), &g.FuncArgs)
 	varOrExp := Any(&g.Var, skipSeq('(', &g.Exp, ')'))
 
 	g.FuncParams.Reader = Any(skipSeq(&g.NameList, Opt(skipSeq(',', "..."))), "...")
 	g.FuncBody.Reader = skipSeq('(', Opt(&g.FuncParams), ')', &g.Block, keyword("end"))
-	g.FuncDef.Reader = SkipWSSeq(keyword("function"), &g.FuncBody)
+	g.FuncDef.Reader = skipSeq(keyword("function"), &g.FuncBody)
 	g.FuncArgs.Reader = Any(
 		skipSeq('(', Opt(&g.ExpList), ')'),
 		&g.TableConstructor,
@@ -171,41 +170,41 @@ func Lua() *LuaReader {
 		&g.PrefixExp,
 	)
 	g.Exp.Reader = Any(
-		SkipWSSeq(&g.FinalExp, &g.BinOp, &g.Exp),
+		skipSeq(&g.FinalExp, &g.BinOp, &g.Exp),
 		&g.FinalExp,
 	)
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
 		skipSeq('[', &g.Exp, ']'),
-		Seq('.', &g.Name),
+		skipSeq('.', &g.Name),
 	))
 	g.Var.Reader = Seq(Any(
 		&g.Name,
 		skipSeq('(', &g.Exp, ')', &g.VarSuffix),
 	), Zom(&g.VarSuffix))
-	g.VarList.Reader = SkipWSSeq(&g.Var, Zom(SkipWSSeq(',', &g.Var)))
+	g.VarList.Reader = skipSeq(&g.Var, Zom(skipSeq(',', &g.Var)))
 
-	g.FuncName.Reader = SkipWSSeq(&g.Name, Zom(SkipWSSeq('.', &g.Name)), Opt(SkipWSSeq(':', &g.Name)))
-	g.Label.Reader = Seq(Lit("::"), &g.Name, Lit("::"))
-	g.RetStat.Reader = SkipWSSeq(keyword("return"), Opt(&g.ExpList), Opt(';'))
-	g.Attrib.Reader = Opt(Seq('<', &g.Name, '>'))
-	g.AttNameList.Reader = SkipWSSeq(&g.Name, &g.Attrib, Zom(SkipWSSeq(',', &g.Name, &g.Attrib)))
+	g.FuncName.Reader = skipSeq(&g.Name, Zom(skipSeq('.', &g.Name)), Opt(skipSeq(':', &g.Name)))
+	g.Label.Reader = skipSeq(Lit("::"), &g.Name, Lit("::"))
+	g.RetStat.Reader = skipSeq(keyword("return"), Opt(&g.ExpList), Opt(';'))
+	g.Attrib.Reader = Opt(skipSeq('<', &g.Name, '>'))
+	g.AttNameList.Reader = skipSeq(&g.Name, &g.Attrib, Zom(skipSeq(',', &g.Name, &g.Attrib)))
 	g.Break.Reader = keyword("break")
-	g.GoTo.Reader = SkipWSSeq(keyword("goto"), &g.Name)
-	g.Do.Reader = SkipWSSeq(keyword("do"), &g.Block, keyword("end"))
-	g.While.Reader = SkipWSSeq(keyword("while"), &g.Exp, keyword("do"), &g.Block, keyword("end"))
-	g.Repeat.Reader = SkipWSSeq(keyword("repeat"), &g.Block, keyword("until"), &g.Exp)
-	g.IfElse.Reader = SkipWSSeq(
+	g.GoTo.Reader = skipSeq(keyword("goto"), &g.Name)
+	g.Do.Reader = skipSeq(keyword("do"), &g.Block, keyword("end"))
+	g.While.Reader = skipSeq(keyword("while"), &g.Exp, keyword("do"), &g.Block, keyword("end"))
+	g.Repeat.Reader = skipSeq(keyword("repeat"), &g.Block, keyword("until"), &g.Exp)
+	g.IfElse.Reader = skipSeq(
 		keyword("if"), &g.Exp, keyword("then"), &g.Block,
-		Zom(SkipWSSeq(keyword("elseif"), &g.Exp, keyword("then"), &g.Block)),
-		Opt(SkipWSSeq(keyword("else"), &g.Block)),
+		Zom(skipSeq(keyword("elseif"), &g.Exp, keyword("then"), &g.Block)),
+		Opt(skipSeq(keyword("else"), &g.Block)),
 		keyword("end"),
 	)
-	g.For.Reader = SkipWSSeq(keyword("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(SkipWSSeq(',', &g.Exp)), keyword("do"), &g.Block, keyword("end"))
-	g.ForEach.Reader = SkipWSSeq(keyword("for"), &g.NameList, keyword("in"), &g.ExpList, keyword("do"), &g.Block, keyword("end"))
-	g.Func.Reader = SkipWSSeq(keyword("function"), &g.FuncName, &g.FuncBody)
-	g.LocalFunc.Reader = SkipWSSeq(keyword("local"), keyword("function"), &g.Name, &g.FuncBody)
-	g.LocalAtt.Reader = SkipWSSeq(keyword("local"), &g.AttNameList, Opt(SkipWSSeq('=', &g.ExpList)))
+	g.For.Reader = skipSeq(keyword("for"), &g.Name, '=', &g.Exp, ',', &g.Exp, Opt(skipSeq(',', &g.Exp)), keyword("do"), &g.Block, keyword("end"))
+	g.ForEach.Reader = skipSeq(keyword("for"), &g.NameList, keyword("in"), &g.ExpList, keyword("do"), &g.Block, keyword("end"))
+	g.Func.Reader = skipSeq(keyword("function"), &g.FuncName, &g.FuncBody)
+	g.LocalFunc.Reader = skipSeq(keyword("local"), keyword("function"), &g.Name, &g.FuncBody)
+	g.LocalAtt.Reader = skipSeq(keyword("local"), &g.AttNameList, Opt(skipSeq('=', &g.ExpList)))
 	g.Stat.Reader = Any(
 		';',
 		Seq(&g.VarList, '=', &g.ExpList),
@@ -223,7 +222,7 @@ func Lua() *LuaReader {
 		&g.LocalAtt,
 		&g.FuncCall,
 	)
-	g.Block.Reader = skipSeq(Zom(&g.Stat), Opt(&g.RetStat))
+	g.Block.Reader = skipSeq(Zom(skipSeq(&g.Stat)), Opt(&g.RetStat))
 	g.Chunk.Reader = &g.Block
 	g.Script.Reader = Seq(Opt(&g.SheBang), &g.Block)
 
-- 
2.43.0


From c912497d96df7c0c55c3ba563691731d53e466e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:56 +0000
Subject: [PATCH 25/30] fix: Lua reads the longest operator

---
 grammar/lua.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index b9255de..df548a8 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -134,8 +134,8 @@ func Lua() *LuaReader {
 
 	g.UnOp.Reader = Any("-", keyword("not"), "#", "~")
 	g.BinOp.Reader = Any(
-		"..", "<=", "<", ">=", ">", "==", "~=", keyword("and"), keyword("or"),
-		"+", "-", "*", "/", "//", "^", "%", "&", "~", "|", ">>", "<<",
+		"..", "<=", "<<", "<", ">=", ">>", ">", "==", "~=", keyword("and"), keyword("or"),
+		"+", "-", "*", "//", "/", "^", "%", "&", "~", "|",
 	)
 
 	g.FieldSep.Reader = AnyRune(",;")
-- 
2.43.0


From 285fc2f0d3d3b9024f3b67c63de5063bae3f09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:57 +0000
Subject: [PATCH 26/30] fix: Lua line comments and the shebang may end with the
 file

---
 grammar/lua.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index df548a8..d2934e3 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -41,7 +41,7 @@ func LuaString() Reader {
 }
 
 func LuaComment() Reader {
-	line := Seq("--", To('\n'))
+	line := Seq("--", To(Any('\n', AtEnd())))
 	cmtHead, cmtTail := Janus("", Zom("="))
 	longBeg := Seq("--[", cmtHead, '[')
 	longEnd := Seq(']', cmtTail, ']')
@@ -113,7 +113,7 @@ type LuaReader struct {
 func Lua() *LuaReader {
 	g := &LuaReader{}
 	MustSetRuleNames(g)
-	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n')))
+	g.SheBang.Reader = Seq("#!", To(Any('\r', '\n', AtEnd())))
 	wordRune := Set("a-zA-Z0-9", "_")
 	keyword := func(str string) Reader {
 		return Named(Lit(str).What(), Seq(str, At(Any(AtEnd(), Not(wordRune)))))
-- 
2.43.0


From 69f395c9418adfca0182981cdb785a4b287c22ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:58 +0000
Subject: [PATCH 27/30] fix: Lua numerals may start or end with a dot

---
 grammar/lua.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index d2934e3..0c23146 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -9,9 +9,15 @@ import (
 
 func LuaNumeral() Reader {
 	hexExponent := Seq(AnyRune("pP"), Opt(AnyRune("+-")), Many(Digit()))
-	hexFloat := Seq('0', AnyRune("xX"), Many(HexDigit()), Opt(Seq('.', Many(HexDigit()))), Opt(hexExponent))
+	hexFloat := Seq('0', AnyRune("xX"), Any(
+		Seq(Many(HexDigit()), Opt(Seq('.', Zom(HexDigit())))),
+		Seq('.', Many(HexDigit())),
+	), Opt(hexExponent))
 	exponent := Seq(AnyRune("eE"), Opt(AnyRune("+-")), Many(Digit()))
-	floatValue := Seq(Many(Digit()), Opt(Seq('.', Many(Digit()))), Opt(exponent))
+	floatValue := Seq(Any(
+		Seq(Many(Digit()), Opt(Seq('.', Zom(Digit())))),
+		Seq('.', Many(Digit())),
+	), Opt(exponent))
 	intValue := Many(Digit())
 	hexValue := Seq('0', AnyRune("xX"), Many(HexDigit()))
 	return Any(hexFloat, hexValue, floatValue, intValue)
-- 
2.43.0


From 5e0d66b3af16b3ff5f99fd1cac197a9ecab7bf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:20 +0000
Subject: [PATCH 28/30] fix: Lua strings may contain control characters,
 escaped line breaks and skipped white space

---
 grammar/lua.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 0c23146..726b59b 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -32,13 +32,15 @@ func LuaString() Reader {
 		Seq('\\', Between('0', '2'), Times(2, Digit())),
 	)
 	escapeSequence := Any(
-		Seq('\\', AnyRune("abfnrtvz\"'\\")),
+		Seq('\\', AnyRune("abfnrtv\"'\\")),
+		Seq('\\', NL()),
+		Seq("\\z", Zom(WS())),
 		decimalEscape,
 		hexEscape,
 		utfEscape,
 	)
-	normalString := Seq('"', Zom(Any(Holey(' ', utf8.MaxRune, `"\`), escapeSequence)), '"')
-	charString := Seq('\'', Zom(Any(Holey(' ', utf8.MaxRune, `'\`), escapeSequence)), '\'')
+	normalString := Seq('"', Zom(Any(Holey(0, utf8.MaxRune, "\"\\\r\n"), escapeSequence)), '"')
+	charString := Seq('\'', Zom(Any(Holey(0, utf8.MaxRune, "'\\\r\n"), escapeSequence)), '\'')
 	strHead, strTail := Janus("", Zom("="))
 	longBeg := Seq('[', strHead, '[')
 	longEnd := Seq(']', strTail, ']')
-- 
2.43.0


From 7e842f67a03397c42ed938dd94edc20179aa71f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:21 +0000
Subject: [PATCH 29/30] fix: Lua expressions use the rule of the numerals

---
 grammar/lua.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 726b59b..9f84e5a 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -171,7 +171,7 @@ func Lua() *LuaReader {
 	g.PrefixExp.Reader = Seq(varOrExp, Zom(nameAndArgs))
 	g.FinalExp.Reader = Any(
 		keyword("nil"), keyword("false"), keyword("true"),
-		LuaNumeral(), &g.LiteralString, "...",
+		&g.Numeral, &g.LiteralString, "...",
 		&g.FuncDef,
 		skipSeq(&g.UnOp, &g.Exp),
 		&g.TableConstructor,
-- 
2.43.0


From 600a8b33573fb08206879d81e20bc65b3a0b00bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:21 +0000
Subject: [PATCH 30/30] fix: Lua does not read each nested expression twice

---
 grammar/lua.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/grammar/lua.go b/grammar/lua.go
index 9f84e5a..d183cd9 100644
--- a/grammar/lua.go
+++ b/grammar/lua.go
@@ -177,10 +177,7 @@ func Lua() *LuaReader {
 		&g.TableConstructor,
 		&g.PrefixExp,
 	)
-	g.Exp.Reader = Any(
-		skipSeq(&g.FinalExp, &g.BinOp, &g.Exp),
-		&g.FinalExp,
-	)
+	g.Exp.Reader = skipSeq(&g.FinalExp, Opt(skipSeq(&g.BinOp, &g.Exp)))
 	g.ExpList.Reader = skipSeq(&g.Exp, Zom(skipSeq(',', &g.Exp)))
 	g.VarSuffix.Reader = skipSeq(Zom(nameAndArgs), Any(
 		skipSeq('[', &g.Exp, ']'),
-- 
2.43.0

