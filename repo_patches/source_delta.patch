From 1b48c633ebc4a50e11b960304c5a81a780247697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 01/31] fix: transformations keep bytes that are not valid
 UTF-8

---
 modsecurity/transforms/compress_whitespace.go |  4 +---
 modsecurity/transforms/lowercase.go           | 19 ++++++++++++++++++-
 modsecurity/transforms/map_rune.go            | 16 ++++++++++++++--
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/modsecurity/transforms/compress_whitespace.go b/modsecurity/transforms/compress_whitespace.go
index e5ed722..16e05b0 100644
--- a/modsecurity/transforms/compress_whitespace.go
+++ b/modsecurity/transforms/compress_whitespace.go
@@ -1,8 +1,6 @@
 package transforms
 
 import (
-	"strings"
-
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
@@ -18,7 +16,7 @@ func (t *TransCompressWhitespace) Name() string {
 }
 func (t *TransCompressWhitespace) Trans(tr *modsecurity.Transaction, s string) string {
 	var previousIsSpace bool
-	return strings.Map(func(i rune) rune {
+	return mapBytes(func(i rune) rune {
 		if i == ' ' {
 			if previousIsSpace {
 				return -1
diff --git a/modsecurity/transforms/lowercase.go b/modsecurity/transforms/lowercase.go
index 7022a4e..f7eebc5 100644
--- a/modsecurity/transforms/lowercase.go
+++ b/modsecurity/transforms/lowercase.go
@@ -1,7 +1,10 @@
 package transforms
 
 import (
+	"bytes"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
@@ -16,5 +19,19 @@ func (*TransLowerCase) Name() string {
 	return "lowercase"
 }
 func (*TransLowerCase) Trans(tr *modsecurity.Transaction, s string) string {
-	return strings.ToLower(s)
+	if utf8.ValidString(s) {
+		return strings.ToLower(s)
+	}
+	// keep the bytes that are not valid UTF-8 as they are
+	res := bytes.NewBuffer(nil)
+	for len(s) > 0 {
+		r, n := utf8.DecodeRuneInString(s)
+		if r == utf8.RuneError && n == 1 {
+			res.WriteByte(s[0])
+		} else {
+			res.WriteRune(unicode.ToLower(r))
+		}
+		s = s[n:]
+	}
+	return res.String()
 }
diff --git a/modsecurity/transforms/map_rune.go b/modsecurity/transforms/map_rune.go
index 73ea7ca..86d69ea 100644
--- a/modsecurity/transforms/map_rune.go
+++ b/modsecurity/transforms/map_rune.go
@@ -1,7 +1,7 @@
 package transforms
 
 import (
-	"strings"
+	"bytes"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
@@ -45,5 +45,17 @@ func (t *TransMapRune) Name() string {
 	return t.name
 }
 func (t *TransMapRune) Trans(tr *modsecurity.Transaction, s string) string {
-	return strings.Map(t.mapping, s)
+	return mapBytes(t.mapping, s)
+}
+
+// mapBytes is strings.Map for byte strings: request data need not be valid
+// UTF-8, and bytes that are not must come out as they went in.
+func mapBytes(mapping func(rune) rune, s string) string {
+	res := bytes.NewBuffer(nil)
+	for i := 0; i < len(s); i++ {
+		if r := mapping(rune(s[i])); r >= 0 {
+			res.WriteByte(byte(r))
+		}
+	}
+	return res.String()
 }
-- 
2.43.0


From 94f97cb243f2ec830a62721e9c5911f5e9b89880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 02/31] fix: whitespace transformations handle every ASCII
 whitespace character

---
 modsecurity/transforms/compress_whitespace.go |  3 ++-
 modsecurity/transforms/map_rune.go            | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/modsecurity/transforms/compress_whitespace.go b/modsecurity/transforms/compress_whitespace.go
index 16e05b0..a9f535f 100644
--- a/modsecurity/transforms/compress_whitespace.go
+++ b/modsecurity/transforms/compress_whitespace.go
@@ -17,11 +17,12 @@ func (t *TransCompressWhitespace) Name() string {
 func (t *TransCompressWhitespace) Trans(tr *modsecurity.Transaction, s string) string {
 	var previousIsSpace bool
 	return mapBytes(func(i rune) rune {
-		if i == ' ' {
+		if isSpace(i) {
 			if previousIsSpace {
 				return -1
 			}
 			previousIsSpace = true
+			return ' '
 		} else {
 			previousIsSpace = false
 		}
diff --git a/modsecurity/transforms/map_rune.go b/modsecurity/transforms/map_rune.go
index 86d69ea..f569a24 100644
--- a/modsecurity/transforms/map_rune.go
+++ b/modsecurity/transforms/map_rune.go
@@ -14,7 +14,7 @@ type TransMapRune struct {
 func NewTransRemoveWhitespace() modsecurity.Trans {
 	return &TransMapRune{
 		name:    "removeWhitespace",
-		mapping: replaceRune(' ', -1),
+		mapping: removeSpace,
 	}
 }
 
@@ -32,6 +32,18 @@ func NewTransReplaceNulls() modsecurity.Trans {
 	}
 }
 
+// isSpace tells the ASCII whitespace characters.
+func isSpace(i rune) bool {
+	return i == ' ' || (i >= '\t' && i <= '\r')
+}
+
+func removeSpace(i rune) rune {
+	if isSpace(i) {
+		return -1
+	}
+	return i
+}
+
 func replaceRune(from, to rune) func(rune) rune {
 	return func(i rune) rune {
 		if i == from {
-- 
2.43.0


From 99bf1bd43fcc153389f8d2eed10f59be85bac542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 03/31] fix: numeric operators compare numbers beyond the int64
 range as the nearest limit, not as 0

---
 modsecurity/operators/compare.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modsecurity/operators/compare.go b/modsecurity/operators/compare.go
index e9873db..f62ca48 100644
--- a/modsecurity/operators/compare.go
+++ b/modsecurity/operators/compare.go
@@ -64,8 +64,8 @@ func (o *OperatorCompare) Args() string {
 func (o *OperatorCompare) Match(tr *modsecurity.Transaction, s string) bool {
 	s = strings.TrimSpace(s)
 	v, err := strconv.ParseInt(s, 10, 64)
-	if err != nil {
-		v = 0
+	if ne, ok := err.(*strconv.NumError); err != nil && !(ok && ne.Err == strconv.ErrRange) {
+		v = 0 // not a number; one out of range stays at the nearest limit
 	}
 	return o.fn(v, o.arg)
 }
-- 
2.43.0


From 45704493e98128c53d975f2a39a38b5ef72c7069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 04/31] fix: body buffer stores each byte once when it spills
 to a file, and survives failing to

---
 modsecurity/buffer.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 27a982c..3a1d241 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -44,16 +44,23 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 	case b.length+int64(len(p)) > b.fileLimit:
 		return 0, ErrOutOfFileLimit
 	case b.fileBuf == nil && b.length+int64(len(p)) > b.memLimit:
-		b.memBuf.Write(p[:b.memLimit-b.length])
-		b.fileBuf, err = ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
+		var file *os.File
+		file, err = ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
 		if err != nil {
 			return 0, err
 		}
-		_, err = b.fileBuf.Write(b.memBuf.Bytes())
+		_, err = file.Write(b.memBuf.Bytes())
+		if err == nil {
+			wn, err = file.Write(p)
+		}
 		if err != nil {
+			// nothing of p is taken, what was there stays in memory
+			file.Close()
+			os.Remove(file.Name())
 			return 0, err
 		}
-		wn, err = b.fileBuf.Write(p)
+		b.memBuf.Write(p[:b.memLimit-b.length])
+		b.fileBuf = file
 	case b.fileBuf == nil:
 		wn, err = b.memBuf.Write(p)
 	default:
-- 
2.43.0


From a8cc3866cd3079108466683a66bce029513cf6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 05/31] fix: reading a body buffer advances and ends, and no
 write is taken after it

---
 modsecurity/buffer.go                        | 1 +
 modsecurity/variables/request_body_parser.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 3a1d241..09e6a2e 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -90,6 +90,7 @@ func (b *buffer) Len() int64 {
 }
 func (b *buffer) initRead() {
 	if !b.readed {
+		b.readed = true
 		b.memReader = bytes.NewReader(b.memBuf.Bytes())
 		b.fileBuf.Seek(0, 0)
 	}
diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 80c3986..662b7b9 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -2,6 +2,7 @@ package variables
 
 import (
 	"fmt"
+	"io"
 	"mime"
 	"mime/multipart"
 	"net/http"
@@ -37,6 +38,9 @@ var parsers = map[int]*bodyParser{
 	bodyTypeMultipart: &bodyParser{
 		contentType: "multipart/",
 		parser: func(t *modsecurity.Transaction, params map[string]string) (interface{}, error) {
+			if _, err := t.Request.Body.Seek(0, io.SeekStart); err != nil {
+				return nil, err
+			}
 			mr := multipart.NewReader(t.Request.Body, params["boundary"])
 			form, err := mr.ReadForm(t.Engine.RequestBodyInMem)
 			if err == multipart.ErrMessageTooLarge {
-- 
2.43.0


From fa33c849fd287aba07d448542b27a0e5ade0dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 06/31] fix: closing a body buffer that never left memory

---
 modsecurity/buffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 09e6a2e..cc05ddc 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -119,6 +119,9 @@ func (b *buffer) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (b *buffer) Close() error {
+	if b.fileBuf == nil {
+		return nil
+	}
 	filename := b.fileBuf.Name()
 	err := b.fileBuf.Close()
 	err2 := os.Remove(filename)
-- 
2.43.0


From 6b66149bb536ce9ac3bfa46abce2c82834cfd79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 07/31] fix: allow skips the rules of what it lets through and
 no others

---
 modsecurity/actions/allow.go | 12 ++++++++++--
 modsecurity/transaction.go   | 18 +++++++++++++++---
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/modsecurity/actions/allow.go b/modsecurity/actions/allow.go
index 7374b42..acf63ac 100644
--- a/modsecurity/actions/allow.go
+++ b/modsecurity/actions/allow.go
@@ -27,10 +27,18 @@ func (a *ActionAllow) Value() string {
 func (a *ActionAllow) Do(t *modsecurity.Transaction) {
 	switch a.arg {
 	case "":
-		t.JumpToPhase(modsecurity.PhaseLogging)
+		jumpForward(t, modsecurity.PhaseLogging)
 	case "phase":
 		t.NextPhase()
 	case "request":
-		t.JumpToPhase(modsecurity.PhaseResponseHeaders)
+		jumpForward(t, modsecurity.PhaseResponseHeaders)
 	}
 }
+
+// jumpForward jumps to a phase, or ends the current one if it is past that.
+func jumpForward(t *modsecurity.Transaction, phase int) {
+	if current := t.CurrentPhase(); current > phase {
+		phase = current
+	}
+	t.JumpToPhase(phase)
+}
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 8f9a256..a192c5e 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -153,7 +153,11 @@ func (t *Transaction) NextPhase() int {
 }
 
 func (t *Transaction) ProcessPhase(phase int) {
-	if t.currentPhase >= phase {
+	if t.currentPhase > phase {
+		return
+	}
+	// the phase may be current without having run, when an action jumped to it
+	if t.currentPhase == phase && t.currentRule != StatusNotStarted {
 		return
 	}
 	t.JumpToPhase(phase)
@@ -164,9 +168,17 @@ func (t *Transaction) processPhase(phase int) {
 	if t.Abort {
 		return
 	}
-	next := t.Next()
-	for ; t.currentPhase == phase && next != StatusEndOfRules; next = t.Next() {
+	for next := t.Next(); next != StatusEndOfRules; next = t.Next() {
 		t.RuleSet.Process(t, phase, next)
+		if t.currentPhase != phase {
+			return // jumped to another phase
+		}
+		if t.currentRule != next {
+			// jumped to this phase again: no more of its rules
+			t.currentRule = StatusEndOfRules
+			t.nextRule = StatusEndOfRules
+			return
+		}
 		if t.Intervention().Disruptive {
 			logrus.Debug("skiping this phase, already intercepted")
 			break
-- 
2.43.0


From 970caf14fd0ac15063209c83b7fb643393d742f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 08/31] fix: no rule runs while a disruptive decision is
 pending

---
 modsecurity/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index a192c5e..db3d214 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -165,7 +165,7 @@ func (t *Transaction) ProcessPhase(phase int) {
 }
 
 func (t *Transaction) processPhase(phase int) {
-	if t.Abort {
+	if t.Abort || t.Intervention().Disruptive {
 		return
 	}
 	for next := t.Next(); next != StatusEndOfRules; next = t.Next() {
-- 
2.43.0


From 27f2b580b3c8778d0702ff5c36333e217d5a7570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 09/31] fix: the status action applies to its own rule only

---
 modsecurity/sec_rule.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modsecurity/sec_rule.go b/modsecurity/sec_rule.go
index e157122..2bdb379 100644
--- a/modsecurity/sec_rule.go
+++ b/modsecurity/sec_rule.go
@@ -95,6 +95,7 @@ func (r *SecRule) Do(t *Transaction) {
 			return
 		}
 	}
+	delete(t.Data, "status") // what an earlier rule set is not for this one
 	ActionsExecute(t, r.Actions)
 	for _, sub := range r.SubRules {
 		ActionsExecute(t, sub.Actions)
-- 
2.43.0


From 88b255e76d74c7a5718ada52a4be1e6f20d1d2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 10/31] fix: honour SecRuleEngine Off and DetectionOnly

---
 modsecurity/engine.go      |  2 ++
 modsecurity/sec_rule.go    |  5 ++++-
 modsecurity/transaction.go | 12 ++++++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/modsecurity/engine.go b/modsecurity/engine.go
index 34f47d3..3ab94f3 100644
--- a/modsecurity/engine.go
+++ b/modsecurity/engine.go
@@ -6,6 +6,7 @@ type Engine struct {
 	RuleSet       *SecRuleSet
 	*Limits
 	*Config
+	off bool // set by Enable(StatusOff)
 }
 
 type Limits struct {
@@ -49,6 +50,7 @@ const (
 
 // Enable acts like SecRuleEngine. status argument should be `StatusOn`, `StatusOff` or `StatusDect`.
 func (e *Engine) Enable(status int) {
+	e.off = status == StatusOff
 	switch status {
 	case StatusOn:
 		e.Enabled = true
diff --git a/modsecurity/sec_rule.go b/modsecurity/sec_rule.go
index 2bdb379..eafb2a3 100644
--- a/modsecurity/sec_rule.go
+++ b/modsecurity/sec_rule.go
@@ -107,7 +107,10 @@ func ActionsExecute(t *Transaction, as []Action) {
 	for _, a := range as {
 		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
 	}
-	for _, actions := range actionMap {
+	for group, actions := range actionMap {
+		if group == ActionGroupDisruptive && t.detectionOnly() {
+			continue
+		}
 		for _, action := range actions {
 			action.Do(t)
 		}
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index db3d214..5929625 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -165,6 +165,9 @@ func (t *Transaction) ProcessPhase(phase int) {
 }
 
 func (t *Transaction) processPhase(phase int) {
+	if t.Engine != nil && t.Engine.off {
+		return
+	}
 	if t.Abort || t.Intervention().Disruptive {
 		return
 	}
@@ -237,6 +240,11 @@ func (t *Transaction) ProcessLogging() {
 	t.ProcessPhase(PhaseLogging)
 }
 
+// detectionOnly reports whether nothing may be intercepted.
+func (t *Transaction) detectionOnly() bool {
+	return t.Engine != nil && t.Engine.DetectionOnly
+}
+
 func (t *Transaction) Intervention() *Intervention {
 	if t.intervention == nil {
 		t.intervention = new(Intervention)
@@ -252,6 +260,10 @@ func (t *Transaction) ResetIntervention() {
 }
 
 func (t *Transaction) AbortWithError(code int, err error) {
+	if t.detectionOnly() {
+		t.Logf("not aborting process with error %s, detection only", err.Error())
+		return
+	}
 	t.Abort = true
 	i := t.Intervention()
 	i.Status = code
-- 
2.43.0


From 7b0083db73c83b97400921228db4ae46e918df76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 11/31] fix: the log line of a denial names the status it
 denies with

---
 modsecurity/actions/deny.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/actions/deny.go b/modsecurity/actions/deny.go
index 94f35ce..80d8fb1 100644
--- a/modsecurity/actions/deny.go
+++ b/modsecurity/actions/deny.go
@@ -35,5 +35,5 @@ func (*ActionDeny) Do(t *modsecurity.Transaction) {
 
 	}
 	i.Disruptive = true
-	t.Logf("ModSecurity: Access denied with code 403")
+	t.Logf("ModSecurity: Access denied with code %d", i.Status)
 }
-- 
2.43.0


From e2963d568aa8f45eb90f3156c9d16016d302cd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 12/31] fix: a member selected by name or by expression is
 selected

---
 modsecurity/variables/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/filter.go b/modsecurity/variables/filter.go
index 0fe135c..e96ffe2 100644
--- a/modsecurity/variables/filter.go
+++ b/modsecurity/variables/filter.go
@@ -76,8 +76,8 @@ func (f *filter) Names(vs map[string][]string) []string {
 func (f *filter) FetchWithNames(vs map[string][]string) map[string][]string {
 	var res = make(map[string][]string)
 	for k, v := range vs {
-		if (f.include != nil && !utils.StringInSlice(k, f.include)) ||
-			(f.includeRegex != nil && !utils.StringInRegexSlice(k, f.includeRegex)) {
+		if (f.include != nil || f.includeRegex != nil) &&
+			!utils.StringInSlice(k, f.include) && !utils.StringInRegexSlice(k, f.includeRegex) {
 			continue
 		}
 		if (f.exclude != nil && utils.StringInSlice(k, f.exclude)) ||
-- 
2.43.0


From a33d1517472ce7ef7905c222062e8a5fb0fd3357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 13/31] fix: ARGS_POST_NAMES of a damaged multipart body is
 empty, not a panic

---
 modsecurity/variables/args_post_names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/variables/args_post_names.go b/modsecurity/variables/args_post_names.go
index e66eab2..e272ad2 100644
--- a/modsecurity/variables/args_post_names.go
+++ b/modsecurity/variables/args_post_names.go
@@ -30,7 +30,7 @@ func (v *VariableArgsPostNames) Fetch(t *modsecurity.Transaction) []string {
 		return v.filter.Names(content)
 	case bodyTypeMultipart:
 		content, ok := parsed.(*multipart.Form)
-		if !ok {
+		if content == nil || !ok {
 			return nil
 		}
 		return v.filter.Names(content.Value)
-- 
2.43.0


From 5606ae4baa6b89356c22f735c3b18ce20d55b8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 14/31] fix: a malformed argument in a body does not hide the
 others

---
 modsecurity/variables/request_body_parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 662b7b9..4462c84 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -79,8 +79,7 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 			res, err = parser.parser(t, params)
 			t.VariableCache[cacheKey] = res
 			if err != nil {
-				t.RequestBodyError = err
-				break
+				t.RequestBodyError = err // res holds what could be parsed
 			}
 		}
 		if res != nil {
-- 
2.43.0


From 06beb4ce9ec507ee57435158031ecc758fcd757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 15/31] fix: REQUEST_HEADERS_NAMES does not need a URL

---
 modsecurity/variables/request_headers_names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_headers_names.go b/modsecurity/variables/request_headers_names.go
index b3a2568..3f37add 100644
--- a/modsecurity/variables/request_headers_names.go
+++ b/modsecurity/variables/request_headers_names.go
@@ -16,7 +16,7 @@ func (*VariableRequestHeadersNames) Name() string {
 	return "REQUEST_HEADERS_NAMES"
 }
 func (v *VariableRequestHeadersNames) Fetch(t *modsecurity.Transaction) []string {
-	if t == nil || t.URL == nil {
+	if t == nil {
 		return nil
 	}
 	return v.filter.Names(t.Request.Header)
-- 
2.43.0


From a280bcdb15fc0d4d1a78f5c1060e6583226ec111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 16/31] fix: a backslash before a word does not hang the parser

---
 seclang/parser/scanner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 7b8f4b2..03c3d4b 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -354,11 +354,11 @@ func (s *Scanner) SkipBlank() error {
 		case isBlank(s.current):
 			s.advance()
 		case s.current == '\\':
-			if s.next() == '\n' {
-				s.advance()             //skip '\\'
-				s.incrementLineNumber() // skip newlines
-
+			if !isNewLine(s.next()) {
+				return nil // an escape that begins a word
 			}
+			s.advance()             //skip '\\'
+			s.incrementLineNumber() // skip newlines
 		default:
 			return nil
 
-- 
2.43.0


From 6ea91806a7f93d34c936797962b0d7cd4bde5a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 17/31] fix: a comma inside a quoted action argument belongs to
 it

---
 seclang/parser/scanner.go |  3 +--
 seclang/parser/utils.go   | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 03c3d4b..b57089b 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -322,8 +322,7 @@ func (s *Scanner) ReadActions() (*Actions, error) {
 	if len(str) == 0 {
 		return nil, errors.New("expected actions bug got empty")
 	}
-	actions := strings.Split(str, ",")
-	for _, action := range actions {
+	for _, action := range splitActions(str) {
 		err := processAction(res, action)
 		if err != nil {
 			return nil, err
diff --git a/seclang/parser/utils.go b/seclang/parser/utils.go
index fd1363b..e602847 100644
--- a/seclang/parser/utils.go
+++ b/seclang/parser/utils.go
@@ -34,6 +34,44 @@ func trimQuote(s string) string {
 	return s
 }
 
+// splitActions splits an action list at its commas. A comma inside a quoted
+// argument belongs to the argument.
+func splitActions(s string) []string {
+	var res []string
+	for {
+		end := strings.IndexByte(s, ',')
+		if end < 0 {
+			return append(res, s)
+		}
+		if arg := strings.IndexByte(s, ':') + 1; arg > 0 && arg < end && isQuote(rune(s[arg])) {
+			if after := quotedEnd(s, arg); after > 0 {
+				end = after
+			}
+		}
+		if end == len(s) {
+			return append(res, s)
+		}
+		res = append(res, s[:end])
+		s = s[end+1:]
+	}
+}
+
+// quotedEnd returns where the action whose argument opens with the quote at
+// start ends: at a comma or at the end of s. It returns -1 when the quote is
+// never closed.
+func quotedEnd(s string, start int) int {
+	for i := start + 1; i < len(s); i++ {
+		if s[i] != s[start] {
+			continue
+		}
+		rest := strings.TrimLeft(s[i+1:], " \f\t\v\r\n")
+		if len(rest) == 0 || rest[0] == ',' {
+			return len(s) - len(rest)
+		}
+	}
+	return -1
+}
+
 func splitMulti(s string, seps string) []string {
 	var count = 1
 	if len(seps) == 0 {
-- 
2.43.0


From 6a9d37f2495897d24a7b42bb511cf6831f947207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 18/31] fix: the targets of a SecLang rule are the union of
 what is named minus what is excluded

---
 seclang/variable.go | 69 ++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/seclang/variable.go b/seclang/variable.go
index 5408859..53540ff 100644
--- a/seclang/variable.go
+++ b/seclang/variable.go
@@ -45,53 +45,50 @@ func variableNoArgErrWrapper(f func() modsecurity.Variable) func(v *parser.Varia
 type VariableFactory func(*parser.Variable) (modsecurity.Variable, error)
 
 func (dr *DireRule) applyVariables(vs []*parser.Variable) error {
-	var (
-		has      bool
-		err      error
-		factory  VariableFactory
-		variable modsecurity.Variable
-	)
+	whole := make(map[int]bool)   // collections named without a member
+	removed := make(map[int]bool) // collections excluded without a member
+	for _, v := range vs {
+		if v.Index == "" && !v.Count {
+			if v.Exclusion {
+				removed[v.Tk] = true
+			} else {
+				whole[v.Tk] = true
+			}
+		}
+	}
 	varMap := make(map[int]modsecurity.Variable)
-	countVarMap := make(map[int]modsecurity.Variable)
 	for _, v := range vs {
-		factory, has = variableFactorys[v.Tk]
+		factory, has := variableFactorys[v.Tk]
 		if !has {
 			return fmt.Errorf("variable %d is not implemented", v.Tk)
 		}
-		if !v.Count {
-			if variable, has = varMap[v.Tk]; !has {
-				if variable, err = factory(v); err != nil {
-					return err
-				}
-				varMap[v.Tk] = variable
+		variable, has := varMap[v.Tk]
+		if v.Count || !has {
+			var err error
+			if variable, err = factory(v); err != nil {
+				return err
 			}
-		} else {
-			if variable, has = countVarMap[v.Tk]; !has {
-				if variable, err = factory(v); err != nil {
-					return err
+			if v.Count {
+				// every count is a target of its own
+				dr.rule.AppendVariables(variables.NewCountVariable(variable))
+			} else {
+				varMap[v.Tk] = variable
+				if !removed[v.Tk] {
+					dr.rule.AppendVariables(variable)
 				}
-				countVarMap[v.Tk] = variables.NewCountVariable(variable)
 			}
 		}
-		if v.Index != "" {
-			if !v.Exclusion {
-				err := variable.Include(v.Index)
-				if err != nil {
-					return err
-				}
-			} else {
-				err := variable.Exclude(v.Index)
-				if err != nil {
-					return err
-				}
+		switch {
+		case v.Index == "":
+		case v.Exclusion:
+			if err := variable.Exclude(v.Index); err != nil {
+				return err
+			}
+		case v.Count || !whole[v.Tk]:
+			if err := variable.Include(v.Index); err != nil {
+				return err
 			}
 		}
 	}
-	for _, variable := range varMap {
-		dr.rule.Variables = append(dr.rule.Variables, variable)
-	}
-	for _, variable := range countVarMap {
-		dr.rule.Variables = append(dr.rule.Variables, variable)
-	}
 	return nil
 }
-- 
2.43.0


From 035a510545695640f8980ff9c72da4a1287a8048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 19/31] fix: a SecLang rule without a phase runs in phase 2

---
 seclang/actions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seclang/actions.go b/seclang/actions.go
index 6765170..dd21752 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -92,6 +92,9 @@ type actionProcessor struct {
 func (dr *DireRule) applyActions(actions *parser.Actions) error {
 	dr.rule.Id = actions.Id
 	dr.rule.Phase = actions.Phase
+	if actions.Phase == 0 {
+		dr.rule.Phase = parser.PhaseRequestBody // none given
+	}
 	dr.chain = actions.Chain
 	for _, action := range actions.Action {
 		processor, has := actionFactorys[action.Tk]
-- 
2.43.0


From a85e7df6b8476c800723661ebe605ca803ef85ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 20/31] fix: SecLang accepts pass, severity and logdata, and
 pass keeps what was logged

---
 modsecurity/actions/pass.go | 2 ++
 seclang/actions.go          | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/modsecurity/actions/pass.go b/modsecurity/actions/pass.go
index 06b85b4..3c325e7 100644
--- a/modsecurity/actions/pass.go
+++ b/modsecurity/actions/pass.go
@@ -21,5 +21,7 @@ func (*ActionPass) Value() string {
 
 }
 func (*ActionPass) Do(t *modsecurity.Transaction) {
+	log := t.Intervention().Log
 	t.ResetIntervention()
+	t.Intervention().Log = log // what was logged stays logged
 }
diff --git a/seclang/actions.go b/seclang/actions.go
index dd21752..4ebf94a 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -22,6 +22,9 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 	parser.TkActionBlock: &actionProcessor{
 		factory: actionWrapper(actions.NewActionBlock),
 	},
+	parser.TkActionPass: &actionProcessor{
+		factory: actionWrapper(actions.NewActionPass),
+	},
 	parser.TkActionStatus: &actionProcessor{
 		factory: actionNumArgWrapper(actions.NewActionStatus),
 	},
@@ -40,6 +43,12 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 	parser.TkActionVer: &actionProcessor{
 		meta: metaFactory("ver"),
 	},
+	parser.TkActionSeverity: &actionProcessor{
+		meta: metaFactory("severity"),
+	},
+	parser.TkActionLogData: &actionProcessor{
+		meta: metaFactory("logdata"),
+	},
 }
 
 func isQuote(c rune) bool { return '\'' == c || '"' == c }
-- 
2.43.0


From 3477c25fef67d1c0b6f8077ec13edcabaa5ff650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 21/31] fix: skip:N skips N rules

---
 modsecurity/actions/skip.go | 20 ++++++++++++++++----
 seclang/actions.go          | 14 +++++++++++++-
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/modsecurity/actions/skip.go b/modsecurity/actions/skip.go
index d08e718..f6087ff 100644
--- a/modsecurity/actions/skip.go
+++ b/modsecurity/actions/skip.go
@@ -1,14 +1,23 @@
 package actions
 
 import (
+	"strconv"
+
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
 type ActionSkip struct {
+	n int
 }
 
+// NewActionSkip skips the next rule.
 func NewActionSkip() modsecurity.Action {
-	return &ActionSkip{}
+	return NewActionSkipN(1)
+}
+
+// NewActionSkipN skips the next n rules.
+func NewActionSkipN(n int) modsecurity.Action {
+	return &ActionSkip{n}
 }
 func (*ActionSkip) ActionGroup() int {
 	return modsecurity.ActionGroupFlow
@@ -18,9 +27,12 @@ func (*ActionSkip) Name() string {
 	return "skip"
 }
 func (a *ActionSkip) Value() string {
-	return ""
-
+	return strconv.Itoa(a.n)
 }
 func (a *ActionSkip) Do(t *modsecurity.Transaction) {
-	t.JumpTo(t.CurrentRule() + 2)
+	n := a.n
+	if left := len(t.CurrentPhaseRules()); n > left {
+		n = left
+	}
+	t.JumpTo(t.CurrentRule() + n + 1)
 }
diff --git a/seclang/actions.go b/seclang/actions.go
index 4ebf94a..a20d9f7 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -14,7 +14,19 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 		factory: actionWrapper(actions.NewActionDeny),
 	},
 	parser.TkActionSkip: &actionProcessor{
-		factory: actionWrapper(actions.NewActionSkip),
+		factory: func(v *parser.Action) (modsecurity.Action, error) {
+			if trimQuote(v.Argument) == "" {
+				return actions.NewActionSkip(), nil
+			}
+			n, err := toNum(v.Argument)
+			if err != nil {
+				return nil, err
+			}
+			if n < 0 {
+				return nil, fmt.Errorf("cannot skip %d rules", n)
+			}
+			return actions.NewActionSkipN(n), nil
+		},
 	},
 	parser.TkActionLog: &actionProcessor{
 		factory: actionWrapper(actions.NewActionLog),
-- 
2.43.0


From b8a7e1c6800062951777f7d2de562db7487cb97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 22/31] fix: query and body arguments with semicolons or
 malformed escapes are no longer dropped

---
 modsecurity/variables/args_get_names.go      |  3 +-
 modsecurity/variables/args_gets.go           |  3 +-
 modsecurity/variables/query.go               | 34 ++++++++++++++++++++
 modsecurity/variables/request_body_parser.go |  3 +-
 4 files changed, 39 insertions(+), 4 deletions(-)
 create mode 100644 modsecurity/variables/query.go

diff --git a/modsecurity/variables/args_get_names.go b/modsecurity/variables/args_get_names.go
index b058028..6b64848 100644
--- a/modsecurity/variables/args_get_names.go
+++ b/modsecurity/variables/args_get_names.go
@@ -19,5 +19,6 @@ func (v *VariableArgsGetNames) Fetch(t *modsecurity.Transaction) []string {
 	if t == nil || t.URL == nil {
 		return nil
 	}
-	return v.filter.Names(t.URL.Query())
+	query, _ := parseQuery(t.URL.RawQuery)
+	return v.filter.Names(query)
 }
diff --git a/modsecurity/variables/args_gets.go b/modsecurity/variables/args_gets.go
index 1db9eb5..58a9f54 100644
--- a/modsecurity/variables/args_gets.go
+++ b/modsecurity/variables/args_gets.go
@@ -19,5 +19,6 @@ func (v *VariableArgsGet) Fetch(t *modsecurity.Transaction) []string {
 	if t == nil || t.URL == nil {
 		return nil
 	}
-	return v.filter.Fetch(t.URL.Query())
+	query, _ := parseQuery(t.URL.RawQuery)
+	return v.filter.Fetch(query)
 }
diff --git a/modsecurity/variables/query.go b/modsecurity/variables/query.go
new file mode 100644
index 0000000..5c82def
--- /dev/null
+++ b/modsecurity/variables/query.go
@@ -0,0 +1,34 @@
+package variables
+
+import (
+	"fmt"
+	"net/url"
+	"strings"
+
+	"github.com/senghoo/modsecurity-go/utils"
+)
+
+// parseQuery splits a query string or an urlencoded body into its pairs.
+// Unlike url.ParseQuery it drops none of them: semicolons are data and a
+// malformed escape is kept as it is. The error reports malformed escapes.
+func parseQuery(query string) (url.Values, error) {
+	bad := 0
+	res := make(url.Values)
+	for _, pair := range strings.Split(query, "&") {
+		if pair == "" {
+			continue
+		}
+		name, value := pair, ""
+		if i := strings.Index(pair, "="); i >= 0 {
+			name, value = pair[:i], pair[i+1:]
+		}
+		name, badName := utils.UrlDecode(name)
+		value, badValue := utils.UrlDecode(value)
+		bad += badName + badValue
+		res[name] = append(res[name], value)
+	}
+	if bad > 0 {
+		return res, fmt.Errorf("%d malformed url escapes", bad)
+	}
+	return res, nil
+}
diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 4462c84..17ef48b 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -6,7 +6,6 @@ import (
 	"mime"
 	"mime/multipart"
 	"net/http"
-	"net/url"
 	"strings"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
@@ -32,7 +31,7 @@ var parsers = map[int]*bodyParser{
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
 				return nil, err
 			}
-			return url.ParseQuery(body)
+			return parseQuery(body)
 		},
 	},
 	bodyTypeMultipart: &bodyParser{
-- 
2.43.0


From 1279658c25f120a6e9e6f44b51465049f0f4fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 23/31] fix: a refused configuration text adds nothing to the
 directive set

---
 seclang/rule_set.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seclang/rule_set.go b/seclang/rule_set.go
index 74b4dcb..c72de80 100644
--- a/seclang/rule_set.go
+++ b/seclang/rule_set.go
@@ -44,6 +44,7 @@ type DireSet struct {
 
 func (rs *DireSet) AddSecLangString(str string) error {
 	var chainParent *DireRule
+	var dires []Dire
 	scanner := parser.NewSecLangScannerFromString(str)
 	dirs, err := scanner.AllDirective()
 	if err != nil {
@@ -67,8 +68,9 @@ func (rs *DireSet) AddSecLangString(str string) error {
 				continue // skip append dire
 			}
 		}
-		rs.dires = append(rs.dires, dire)
+		dires = append(dires, dire)
 	}
+	rs.dires = append(rs.dires, dires...)
 	return nil
 }
 
-- 
2.43.0


From 171ccd976e612d08eb9c9da0df1b92eecfd1f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 24/31] fix: large files of a multipart body are no longer left
 in the temporary directory

---
 modsecurity/variables/request_body_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 17ef48b..d8bc231 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -46,6 +46,9 @@ var parsers = map[int]*bodyParser{
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
 				return nil, err
 			}
+			if err == nil {
+				form.RemoveAll() // files of the form, only its values are used
+			}
 			return form, err
 		},
 	},
-- 
2.43.0


From 1257abaecfe26a455fd959a82b7b785f8894872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 25/31] fix: an unquoted word at the end of a line no longer
 joins the next line to its directive

---
 seclang/parser/scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index b57089b..6a7b4e2 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -113,7 +113,9 @@ func (s *Scanner) readString(delimiter ...rune) (string, error) {
 		}
 	}
 
-	s.advance()
+	if !isNewLine(s.current) { // a line end also ends the directive
+		s.advance()
+	}
 	str := s.buffer.String()
 	s.buffer.Reset()
 	return str, nil
-- 
2.43.0


From a19034f245ab05ea9bc8c18c33b10b101349b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 26/31] fix: damaged content type parameters no longer hide a
 body or the response content type

---
 modsecurity/variables/request_body.go          |  3 +--
 modsecurity/variables/request_body_parser.go   | 12 +++++++++++-
 modsecurity/variables/response_content_type.go |  4 +---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/modsecurity/variables/request_body.go b/modsecurity/variables/request_body.go
index 3813e1a..1054e6b 100644
--- a/modsecurity/variables/request_body.go
+++ b/modsecurity/variables/request_body.go
@@ -1,7 +1,6 @@
 package variables
 
 import (
-	"mime"
 	"net/http"
 
 	"github.com/senghoo/modsecurity-go/modsecurity"
@@ -31,7 +30,7 @@ func (v *VariableRequestBody) Fetch(t *modsecurity.Transaction) []string {
 	if ct == "" {
 		return nil
 	}
-	ct, _, _ = mime.ParseMediaType(ct)
+	ct, _ = mediaType(ct)
 	if ct != "application/x-www-form-urlencoded" {
 		return nil
 	}
diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index d8bc231..ecc10c2 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -66,7 +66,7 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 	if ct == "" {
 		ct = "application/octet-stream"
 	}
-	ct, params, _ := mime.ParseMediaType(ct)
+	ct, params := mediaType(ct)
 	for _, tp := range types {
 		parser, has := parsers[tp]
 		if !has {
@@ -91,3 +91,13 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 
 	return bodyTypeNone, nil
 }
+
+// mediaType returns the type a content type names and its parameters. Damaged
+// parameters do not hide the type.
+func mediaType(ct string) (string, map[string]string) {
+	tp, params, err := mime.ParseMediaType(ct)
+	if err != nil {
+		tp = strings.ToLower(strings.TrimSpace(strings.SplitN(ct, ";", 2)[0]))
+	}
+	return tp, params
+}
diff --git a/modsecurity/variables/response_content_type.go b/modsecurity/variables/response_content_type.go
index 8ad8acb..50b1b5a 100644
--- a/modsecurity/variables/response_content_type.go
+++ b/modsecurity/variables/response_content_type.go
@@ -1,8 +1,6 @@
 package variables
 
 import (
-	"mime"
-
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
@@ -23,6 +21,6 @@ func (*VariableResponseContentType) Fetch(t *modsecurity.Transaction) []string {
 	if ct == "" {
 		ct = "application/octet-stream"
 	}
-	ct, _, _ = mime.ParseMediaType(ct)
+	ct, _ = mediaType(ct)
 	return []string{ct}
 }
-- 
2.43.0


From 0ee1aceb6a16749ec7f217bc646fcfb45f436ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 27/31] fix: pass in a rule whose condition aborted the
 transaction no longer undoes the abort

---
 modsecurity/actions/pass.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/actions/pass.go b/modsecurity/actions/pass.go
index 3c325e7..dad69f5 100644
--- a/modsecurity/actions/pass.go
+++ b/modsecurity/actions/pass.go
@@ -21,6 +21,9 @@ func (*ActionPass) Value() string {
 
 }
 func (*ActionPass) Do(t *modsecurity.Transaction) {
+	if t.Abort {
+		return // an abort is final
+	}
 	log := t.Intervention().Log
 	t.ResetIntervention()
 	t.Intervention().Log = log // what was logged stays logged
-- 
2.43.0


From 1146f612ed0768bb24724807fe69cf2960f3e0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:11 +0000
Subject: [PATCH 28/31] fix: parsing a multipart body no longer moves the
 position at which it is read

---
 modsecurity/variables/request_body_parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index ecc10c2..d5afe06 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -37,7 +37,13 @@ var parsers = map[int]*bodyParser{
 	bodyTypeMultipart: &bodyParser{
 		contentType: "multipart/",
 		parser: func(t *modsecurity.Transaction, params map[string]string) (interface{}, error) {
-			if _, err := t.Request.Body.Seek(0, io.SeekStart); err != nil {
+			pos, err := t.Request.Body.Seek(0, io.SeekCurrent)
+			if err != nil {
+				return nil, err
+			}
+			// who reads the body goes on where he was
+			defer t.Request.Body.Seek(pos, io.SeekStart)
+			if _, err = t.Request.Body.Seek(0, io.SeekStart); err != nil {
 				return nil, err
 			}
 			mr := multipart.NewReader(t.Request.Body, params["boundary"])
-- 
2.43.0


From 68e482f649b9830425d54248ffe3369bef80fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:12 +0000
Subject: [PATCH 29/31] fix: a configuration that cannot be read to its end is
 refused instead of cut short

---
 seclang/parser/scanner.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 6a7b4e2..fd21f46 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -34,6 +34,7 @@ type Scanner struct {
 	buffer               *bytes.Buffer
 	r                    *bufio.Reader
 	current              rune
+	err                  error // why the text could not be read to its end
 	LineNumber, LastLine int
 }
 
@@ -134,9 +135,15 @@ func (s *Scanner) ReadDirective() (Directive, error) {
 		case 0:
 			s.advance()
 		case EOS:
+			if s.err != nil {
+				return nil, s.err
+			}
 			return nil, ErrEOS
 		default:
 			dir, err := s.readDirective()
+			if s.err != nil {
+				return nil, s.err
+			}
 			if err == ErrEOS {
 				return nil, errors.New("unexpected EOS")
 			}
@@ -408,6 +415,9 @@ func (s *Scanner) incrementLineNumber() {
 
 func (s *Scanner) advance() {
 	if c, err := s.r.ReadByte(); err != nil {
+		if err != io.EOF {
+			s.err = err
+		}
 		s.current = EOS
 	} else {
 		s.current = rune(c)
-- 
2.43.0


From 128f03203c93b7dc8e134c3a30e66e734a3b0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:16 +0000
Subject: [PATCH 30/31] fix: blanks before the comma that ends an action are
 not part of its argument

---
 seclang/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index fd21f46..ace6c0e 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -332,7 +332,7 @@ func (s *Scanner) ReadActions() (*Actions, error) {
 		return nil, errors.New("expected actions bug got empty")
 	}
 	for _, action := range splitActions(str) {
-		err := processAction(res, action)
+		err := processAction(res, strings.TrimSpace(action))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 873df679841ec1735165f91c3325e2806b3a8a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:52 +0000
Subject: [PATCH 31/31] fix: REQUEST_URI shows the path as it was sent, not as
 it should have been escaped

---
 modsecurity/variables/request_uri.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modsecurity/variables/request_uri.go b/modsecurity/variables/request_uri.go
index c041229..1d2a609 100644
--- a/modsecurity/variables/request_uri.go
+++ b/modsecurity/variables/request_uri.go
@@ -28,5 +28,11 @@ func (*VariableRequestURI) Fetch(t *modsecurity.Transaction) []string {
 	u.Host = ""
 	u.Opaque = ""
 	u.User = nil
+	if path, err := url.PathUnescape(u.RawPath); err == nil && u.RawPath != "" && path == u.Path {
+		// the path as it was sent, also where it should have been escaped
+		path = u.RawPath
+		u.Path, u.RawPath = "", ""
+		return []string{path + u.String()}
+	}
 	return []string{u.String()}
 }
-- 
2.43.0

