From 499aa660d86fed900e2502c4f55aaf55f859a6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:50 +0000
Subject: [PATCH 01/69] fix: skip the whole key-value delimiter when it is a
 multi-byte character

---
 parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 44fc526..b0e1878 100644
--- a/parser.go
+++ b/parser.go
@@ -23,6 +23,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const minReaderBufferSize = 4096
@@ -157,7 +158,9 @@ func readKeyName(delimiters string, in []byte) (string, int, error) {
 			return "", -1, ErrDelimiterNotFound{line}
 		}
 		endIdx = pos + i
-		return strings.TrimSpace(line[startIdx:pos]), endIdx + startIdx + 1, nil
+		// The delimiter may take more than one byte
+		_, delimSize := utf8.DecodeRuneInString(line[endIdx+startIdx:])
+		return strings.TrimSpace(line[startIdx:pos]), endIdx + startIdx + delimSize, nil
 	}
 
 	endIdx = strings.IndexAny(line, delimiters)
@@ -168,7 +171,8 @@ func readKeyName(delimiters string, in []byte) (string, int, error) {
 		return "", -1, ErrEmptyKeyName{line}
 	}
 
-	return strings.TrimSpace(line[0:endIdx]), endIdx + 1, nil
+	_, delimSize := utf8.DecodeRuneInString(line[endIdx:])
+	return strings.TrimSpace(line[0:endIdx]), endIdx + delimSize, nil
 }
 
 func (p *parser) readMultilines(line, val, valQuote string) (string, error) {
-- 
2.43.0


From 3353cdf31f668247a7f356bcd93c044ae63875f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:51 +0000
Subject: [PATCH 02/69] fix: fold the default section name too when section
 names are insensitive

---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index f8b2240..19dd765 100644
--- a/file.go
+++ b/file.go
@@ -85,7 +85,7 @@ func (f *File) NewSection(name string) (*Section, error) {
 		return nil, errors.New("empty section name")
 	}
 
-	if (f.options.Insensitive || f.options.InsensitiveSections) && name != DefaultSection {
+	if f.options.Insensitive || f.options.InsensitiveSections {
 		name = strings.ToLower(name)
 	}
 
-- 
2.43.0


From c84e0813be517522ca311fbbd3668c3b114c576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 03/69] fix: delete a key regardless of the case of its name
 when key names are insensitive

---
 section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/section.go b/section.go
index a3615d8..2b1e2b9 100644
--- a/section.go
+++ b/section.go
@@ -226,6 +226,10 @@ func (s *Section) KeysHash() map[string]string {
 
 // DeleteKey deletes a key from section.
 func (s *Section) DeleteKey(name string) {
+	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
+		name = strings.ToLower(name)
+	}
+
 	if s.f.BlockMode {
 		s.f.lock.Lock()
 		defer s.f.lock.Unlock()
-- 
2.43.0


From 93fced60fe06f653ec4e38f9053d434f0ee57c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 04/69] fix: do not panic when writing a comment with an empty
 line

---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index 19dd765..a6e8dfe 100644
--- a/file.go
+++ b/file.go
@@ -349,7 +349,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			// Support multiline comments
 			lines := strings.Split(sec.Comment, LineBreak)
 			for i := range lines {
-				if lines[i][0] != '#' && lines[i][0] != ';' {
+				if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 					lines[i] = "; " + lines[i]
 				} else {
 					lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
@@ -419,7 +419,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				// Support multiline comments
 				lines := strings.Split(key.Comment, LineBreak)
 				for i := range lines {
-					if lines[i][0] != '#' && lines[i][0] != ';' {
+					if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 						lines[i] = "; " + strings.TrimSpace(lines[i])
 					} else {
 						lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
-- 
2.43.0


From dacecc3fa9ab817d646eaa11b5cf022f6741bad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:54 +0000
Subject: [PATCH 05/69] fix: keep the key hash in step when a Must accessor
 stores its default

---
 key.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/key.go b/key.go
index a19d9f3..3ee6c64 100644
--- a/key.go
+++ b/key.go
@@ -252,7 +252,7 @@ func (k *Key) Time() (time.Time, error) {
 func (k *Key) MustString(defaultVal string) string {
 	val := k.String()
 	if len(val) == 0 {
-		k.value = defaultVal
+		k.SetValue(defaultVal)
 		return defaultVal
 	}
 	return val
@@ -263,7 +263,7 @@ func (k *Key) MustString(defaultVal string) string {
 func (k *Key) MustBool(defaultVal ...bool) bool {
 	val, err := k.Bool()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatBool(defaultVal[0])
+		k.SetValue(strconv.FormatBool(defaultVal[0]))
 		return defaultVal[0]
 	}
 	return val
@@ -274,7 +274,7 @@ func (k *Key) MustBool(defaultVal ...bool) bool {
 func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 	val, err := k.Float64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatFloat(defaultVal[0], 'f', -1, 64)
+		k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
 		return defaultVal[0]
 	}
 	return val
@@ -285,7 +285,7 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 func (k *Key) MustInt(defaultVal ...int) int {
 	val, err := k.Int()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(int64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -296,7 +296,7 @@ func (k *Key) MustInt(defaultVal ...int) int {
 func (k *Key) MustInt64(defaultVal ...int64) int64 {
 	val, err := k.Int64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(defaultVal[0], 10)
+		k.SetValue(strconv.FormatInt(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -307,7 +307,7 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 func (k *Key) MustUint(defaultVal ...uint) uint {
 	val, err := k.Uint()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(uint64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatUint(uint64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -318,7 +318,7 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 	val, err := k.Uint64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(defaultVal[0], 10)
+		k.SetValue(strconv.FormatUint(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -329,7 +329,7 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 	val, err := k.Duration()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].String()
+		k.SetValue(defaultVal[0].String())
 		return defaultVal[0]
 	}
 	return val
@@ -340,7 +340,7 @@ func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 func (k *Key) MustTimeFormat(format string, defaultVal ...time.Time) time.Time {
 	val, err := k.TimeFormat(format)
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].Format(format)
+		k.SetValue(defaultVal[0].Format(format))
 		return defaultVal[0]
 	}
 	return val
-- 
2.43.0


From 43dbd8bfd8cddca9270566e3ce8ff028997bf4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 06/69] fix: do not bring a deleted key back into the key hash
 when setting its value

---
 key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 3ee6c64..9dace8b 100644
--- a/key.go
+++ b/key.go
@@ -833,5 +833,8 @@ func (k *Key) SetValue(v string) {
 	}
 
 	k.value = v
-	k.s.keysHash[k.name] = v
+	// A key that is no longer part of its section must not reappear in the hash.
+	if k.s.keys[k.name] == k {
+		k.s.keysHash[k.name] = v
+	}
 }
-- 
2.43.0


From bdeebce4bbd6b69e7320014dcd7d23dbdf1dae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:57 +0000
Subject: [PATCH 07/69] fix: split list values correctly with multi-byte,
 multi-character and empty delimiters

---
 key.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/key.go b/key.go
index 9dace8b..06d25fe 100644
--- a/key.go
+++ b/key.go
@@ -495,7 +495,6 @@ func (k *Key) Strings(delim string) []string {
 		return []string{}
 	}
 
-	runes := []rune(str)
 	vals := make([]string, 0, 2)
 	var buf bytes.Buffer
 	escape := false
@@ -503,26 +502,35 @@ func (k *Key) Strings(delim string) []string {
 	for {
 		if escape {
 			escape = false
-			if runes[idx] != '\\' && !strings.HasPrefix(string(runes[idx:]), delim) {
-				buf.WriteRune('\\')
+			if len(delim) > 0 && strings.HasPrefix(str[idx:], delim) {
+				// The whole delimiter is literal, not only its first character
+				buf.WriteString(delim)
+				idx += len(delim) - 1
+			} else {
+				if str[idx] != '\\' {
+					buf.WriteByte('\\')
+				}
+				buf.WriteByte(str[idx])
 			}
-			buf.WriteRune(runes[idx])
 		} else {
-			if runes[idx] == '\\' {
+			if str[idx] == '\\' {
 				escape = true
-			} else if strings.HasPrefix(string(runes[idx:]), delim) {
+			} else if len(delim) > 0 && strings.HasPrefix(str[idx:], delim) {
 				idx += len(delim) - 1
 				vals = append(vals, strings.TrimSpace(buf.String()))
 				buf.Reset()
 			} else {
-				buf.WriteRune(runes[idx])
+				buf.WriteByte(str[idx])
 			}
 		}
 		idx++
-		if idx == len(runes) {
+		if idx == len(str) {
 			break
 		}
 	}
+	if escape {
+		buf.WriteByte('\\')
+	}
 
 	if buf.Len() > 0 {
 		vals = append(vals, strings.TrimSpace(buf.String()))
-- 
2.43.0


From cbe776c2d50c52955da3738ca9f61678aa835f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 08/69] fix: return the default of In and Range accessors when
 the value is invalid

---
 key.go | 50 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/key.go b/key.go
index 06d25fe..6dc8571 100644
--- a/key.go
+++ b/key.go
@@ -367,7 +367,10 @@ func (k *Key) In(defaultVal string, candidates []string) string {
 // InFloat64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InFloat64(defaultVal float64, candidates []float64) float64 {
-	val := k.MustFloat64()
+	val, err := k.Float64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -379,7 +382,10 @@ func (k *Key) InFloat64(defaultVal float64, candidates []float64) float64 {
 // InInt always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InInt(defaultVal int, candidates []int) int {
-	val := k.MustInt()
+	val, err := k.Int()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -391,7 +397,10 @@ func (k *Key) InInt(defaultVal int, candidates []int) int {
 // InInt64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InInt64(defaultVal int64, candidates []int64) int64 {
-	val := k.MustInt64()
+	val, err := k.Int64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -403,7 +412,10 @@ func (k *Key) InInt64(defaultVal int64, candidates []int64) int64 {
 // InUint always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InUint(defaultVal uint, candidates []uint) uint {
-	val := k.MustUint()
+	val, err := k.Uint()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -415,7 +427,10 @@ func (k *Key) InUint(defaultVal uint, candidates []uint) uint {
 // InUint64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
-	val := k.MustUint64()
+	val, err := k.Uint64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -427,7 +442,10 @@ func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
 // InTimeFormat always parses with given format and returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []time.Time) time.Time {
-	val := k.MustTimeFormat(format)
+	val, err := k.TimeFormat(format)
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -445,7 +463,10 @@ func (k *Key) InTime(defaultVal time.Time, candidates []time.Time) time.Time {
 // RangeFloat64 checks if value is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeFloat64(defaultVal, min, max float64) float64 {
-	val := k.MustFloat64()
+	val, err := k.Float64()
+	if err != nil {
+		return defaultVal
+	}
 	if val < min || val > max {
 		return defaultVal
 	}
@@ -455,7 +476,10 @@ func (k *Key) RangeFloat64(defaultVal, min, max float64) float64 {
 // RangeInt checks if value is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeInt(defaultVal, min, max int) int {
-	val := k.MustInt()
+	val, err := k.Int()
+	if err != nil {
+		return defaultVal
+	}
 	if val < min || val > max {
 		return defaultVal
 	}
@@ -465,7 +489,10 @@ func (k *Key) RangeInt(defaultVal, min, max int) int {
 // RangeInt64 checks if value is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeInt64(defaultVal, min, max int64) int64 {
-	val := k.MustInt64()
+	val, err := k.Int64()
+	if err != nil {
+		return defaultVal
+	}
 	if val < min || val > max {
 		return defaultVal
 	}
@@ -475,7 +502,10 @@ func (k *Key) RangeInt64(defaultVal, min, max int64) int64 {
 // RangeTimeFormat checks if value with given format is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeTimeFormat(format string, defaultVal, min, max time.Time) time.Time {
-	val := k.MustTimeFormat(format)
+	val, err := k.TimeFormat(format)
+	if err != nil {
+		return defaultVal
+	}
 	if val.Unix() < min.Unix() || val.Unix() > max.Unix() {
 		return defaultVal
 	}
-- 
2.43.0


From 6df975c72f185ae938689096ed0cf5c965985204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:16 +0000
Subject: [PATCH 09/69] fix: compare times as instants in InTime and RangeTime

---
 key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/key.go b/key.go
index 6dc8571..4ae3f2b 100644
--- a/key.go
+++ b/key.go
@@ -447,7 +447,7 @@ func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []tim
 		return defaultVal
 	}
 	for _, cand := range candidates {
-		if val == cand {
+		if val.Equal(cand) {
 			return val
 		}
 	}
@@ -506,7 +506,7 @@ func (k *Key) RangeTimeFormat(format string, defaultVal, min, max time.Time) tim
 	if err != nil {
 		return defaultVal
 	}
-	if val.Unix() < min.Unix() || val.Unix() > max.Unix() {
+	if val.Before(min) || val.After(max) {
 		return defaultVal
 	}
 	return val
-- 
2.43.0


From de560dbe3e19cbf0def5da15cf686e1ae05018ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 10/69] fix: do not create the default section when reading a
 value

---
 key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 4ae3f2b..9523ba8 100644
--- a/key.go
+++ b/key.go
@@ -161,7 +161,10 @@ func (k *Key) transformValue(val string) string {
 		// If not found or found the key itself, then search again in default section.
 		nk, err := k.s.GetKey(noption)
 		if err != nil || k == nk {
-			nk, _ = k.s.f.Section("").GetKey(noption)
+			nk = nil
+			if sec, err := k.s.f.GetSection(""); err == nil {
+				nk, _ = sec.GetKey(noption)
+			}
 			if nk == nil {
 				// Stop when no results found in the default section,
 				// and returns the value as-is.
-- 
2.43.0


From c994672f857c6fc1f775c6cba4aa02ead153e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:19 +0000
Subject: [PATCH 11/69] fix: bound the size of values with recursive references

---
 ini.go | 2 ++
 key.go | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/ini.go b/ini.go
index 99e7f86..2af9d29 100644
--- a/ini.go
+++ b/ini.go
@@ -25,6 +25,8 @@ import (
 const (
 	// Maximum allowed depth when recursively substituing variable names.
 	depthValues = 99
+	// Maximum allowed size in bytes of a value when substituing variable names.
+	maxExpandedSize = 1 << 20
 )
 
 var (
diff --git a/key.go b/key.go
index 9523ba8..73bfad2 100644
--- a/key.go
+++ b/key.go
@@ -172,6 +172,11 @@ func (k *Key) transformValue(val string) string {
 			}
 		}
 
+		// Stop when (mutually) recursive values make the result grow without end.
+		if len(val)+strings.Count(val, vr)*(len(nk.value)-len(vr)) > maxExpandedSize && len(nk.value) > len(vr) {
+			break
+		}
+
 		// Substitute by new value and take off leading '%(' and trailing ')s'.
 		val = strings.Replace(val, vr, nk.value, -1)
 	}
-- 
2.43.0


From 0506cf1898d8b8a63eb98ef4dd417e8f819b2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 12/69] fix: return a copy of the list of sections with the
 same name

---
 file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index a6e8dfe..f03220c 100644
--- a/file.go
+++ b/file.go
@@ -167,7 +167,8 @@ func (f *File) SectionsByName(name string) ([]*Section, error) {
 		return nil, fmt.Errorf("section %q does not exist", name)
 	}
 
-	return secs, nil
+	// Return a copy, the list itself changes when sections are deleted.
+	return append([]*Section(nil), secs...), nil
 }
 
 // Section assumes named section exists and returns a zero-value when not.
-- 
2.43.0


From 319de434104210a1af71ced0572d0ab137721214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:06 +0000
Subject: [PATCH 13/69] fix: take the lock when listing keys, key names,
 section names and child sections

---
 file.go    |  5 +++++
 section.go | 17 ++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index f03220c..1d6ca29 100644
--- a/file.go
+++ b/file.go
@@ -218,6 +218,11 @@ func (f *File) ChildSections(name string) []*Section {
 
 // SectionStrings returns list of section names.
 func (f *File) SectionStrings() []string {
+	if f.BlockMode {
+		f.lock.RLock()
+		defer f.lock.RUnlock()
+	}
+
 	list := make([]string, len(f.sectionList))
 	copy(list, f.sectionList)
 	return list
diff --git a/section.go b/section.go
index 2b1e2b9..0dc9ff9 100644
--- a/section.go
+++ b/section.go
@@ -176,9 +176,14 @@ func (s *Section) Key(name string) *Key {
 
 // Keys returns list of keys of section.
 func (s *Section) Keys() []*Key {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	keys := make([]*Key, len(s.keyList))
 	for i := range s.keyList {
-		keys[i] = s.Key(s.keyList[i])
+		keys[i] = s.keys[s.keyList[i]]
 	}
 	return keys
 }
@@ -205,6 +210,11 @@ func (s *Section) ParentKeys() []*Key {
 
 // KeyStrings returns list of key names of section.
 func (s *Section) KeyStrings() []string {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	list := make([]string, len(s.keyList))
 	copy(list, s.keyList)
 	return list
@@ -250,6 +260,11 @@ func (s *Section) DeleteKey(name string) {
 // of section "[parent]".
 func (s *Section) ChildSections() []*Section {
 	prefix := s.name + s.f.options.ChildSectionDelimiter
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	children := make([]*Section, 0, 3)
 	for _, name := range s.f.sectionList {
 		if strings.HasPrefix(name, prefix) {
-- 
2.43.0


From 1d60916a26e97574c005bb5e4e6c784d7581a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 14/69] fix: list every non-unique child section once and in
 file order

---
 section.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/section.go b/section.go
index 0dc9ff9..4b6ca8a 100644
--- a/section.go
+++ b/section.go
@@ -266,9 +266,9 @@ func (s *Section) ChildSections() []*Section {
 	}
 
 	children := make([]*Section, 0, 3)
-	for _, name := range s.f.sectionList {
+	for i, name := range s.f.sectionList {
 		if strings.HasPrefix(name, prefix) {
-			children = append(children, s.f.sections[name]...)
+			children = append(children, s.f.sections[name][s.f.sectionIndexes[i]])
 		}
 	}
 	return children
-- 
2.43.0


From d265751f28bdaecc595b502f58187cb4dd77cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 15/69] fix: look up a key in a section and its parents in one
 atomic step

---
 file.go    | 10 +++++++--
 section.go | 59 +++++++++++++++++++++++++++++++-----------------------
 2 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/file.go b/file.go
index 1d6ca29..760aae5 100644
--- a/file.go
+++ b/file.go
@@ -148,14 +148,20 @@ func (f *File) HasSection(name string) bool {
 	return section != nil
 }
 
-// SectionsByName returns all sections with given name.
-func (f *File) SectionsByName(name string) ([]*Section, error) {
+// storedName returns the name under which the section with given name is stored.
+func (f *File) storedName(name string) string {
 	if len(name) == 0 {
 		name = DefaultSection
 	}
 	if f.options.Insensitive || f.options.InsensitiveSections {
 		name = strings.ToLower(name)
 	}
+	return name
+}
+
+// SectionsByName returns all sections with given name.
+func (f *File) SectionsByName(name string) ([]*Section, error) {
+	name = f.storedName(name)
 
 	if f.BlockMode {
 		f.lock.RLock()
diff --git a/section.go b/section.go
index 4b6ca8a..4ac8583 100644
--- a/section.go
+++ b/section.go
@@ -113,29 +113,42 @@ func (s *Section) GetKey(name string) (*Key, error) {
 		name = strings.ToLower(name)
 	}
 	key := s.keys[name]
+	if key == nil {
+		// Check if it is a child-section.
+		for _, sec := range s.parentSections() {
+			if key = sec.keys[name]; key != nil {
+				break
+			}
+		}
+	}
 	if s.f.BlockMode {
 		s.f.lock.RUnlock()
 	}
 
 	if key == nil {
-		// Check if it is a child-section.
-		sname := s.name
-		for {
-			if i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter); i > -1 {
-				sname = sname[:i]
-				sec, err := s.f.GetSection(sname)
-				if err != nil {
-					continue
-				}
-				return sec.GetKey(name)
-			}
-			break
-		}
 		return nil, fmt.Errorf("error when getting key of section %q: key %q not exists", s.name, name)
 	}
 	return key, nil
 }
 
+// parentSections returns existing parent sections, nearest first. The lock must
+// be held by the caller, so that all of them are looked at in the same state.
+func (s *Section) parentSections() []*Section {
+	var parents []*Section
+	sname := s.name
+	for {
+		if i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter); i > -1 {
+			sname = sname[:i]
+			secs := s.f.sections[s.f.storedName(sname)]
+			if len(secs) > 0 {
+				parents = append(parents, secs[0])
+			}
+			continue
+		}
+		return parents
+	}
+}
+
 // HasKey returns true if section contains a key with given name.
 func (s *Section) HasKey(name string) bool {
 	key, _ := s.GetKey(name)
@@ -190,20 +203,16 @@ func (s *Section) Keys() []*Key {
 
 // ParentKeys returns list of keys of parent section.
 func (s *Section) ParentKeys() []*Key {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	var parentKeys []*Key
-	sname := s.name
-	for {
-		if i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter); i > -1 {
-			sname = sname[:i]
-			sec, err := s.f.GetSection(sname)
-			if err != nil {
-				continue
-			}
-			parentKeys = append(parentKeys, sec.Keys()...)
-		} else {
-			break
+	for _, sec := range s.parentSections() {
+		for _, name := range sec.keyList {
+			parentKeys = append(parentKeys, sec.keys[name])
 		}
-
 	}
 	return parentKeys
 }
-- 
2.43.0


From 71c5b4c662d61c4348a0ccb34f7631707408f48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:12 +0000
Subject: [PATCH 16/69] fix: get or create keys and sections in one atomic step

---
 file.go    | 43 +++++++++++++++++++++++++++++++++----------
 section.go | 35 ++++++++++++++++++++++++++++++-----
 2 files changed, 63 insertions(+), 15 deletions(-)

diff --git a/file.go b/file.go
index 760aae5..e2fd576 100644
--- a/file.go
+++ b/file.go
@@ -98,6 +98,11 @@ func (f *File) NewSection(name string) (*Section, error) {
 		return f.sections[name][0], nil
 	}
 
+	return f.addSection(name), nil
+}
+
+// addSection adds a new section. The lock must be held by the caller.
+func (f *File) addSection(name string) *Section {
 	f.sectionList = append(f.sectionList, name)
 
 	// NOTE: Append to indexes must happen before appending to sections,
@@ -107,7 +112,7 @@ func (f *File) NewSection(name string) (*Section, error) {
 	sec := newSection(f, name)
 	f.sections[name] = append(f.sections[name], sec)
 
-	return sec, nil
+	return sec
 }
 
 // NewRawSection creates a new section with an unparseable body.
@@ -181,23 +186,41 @@ func (f *File) SectionsByName(name string) ([]*Section, error) {
 func (f *File) Section(name string) *Section {
 	sec, err := f.GetSection(name)
 	if err != nil {
-		if name == "" {
-			name = DefaultSection
-		}
-		sec, _ = f.NewSection(name)
-		return sec
+		return f.sectionOrNew(name, 0)
 	}
 	return sec
 }
 
+// sectionOrNew returns the section with given name and index, and creates a new
+// one when it still does not exist.
+func (f *File) sectionOrNew(name string, index int) *Section {
+	name = f.storedName(name)
+
+	if f.BlockMode {
+		f.lock.Lock()
+		defer f.lock.Unlock()
+	}
+
+	// Another goroutine may have created the section in the meantime.
+	secs := f.sections[name]
+	switch {
+	case index < len(secs):
+		return secs[index]
+	case len(secs) > 0 && !f.options.AllowNonUniqueSections:
+		return secs[0]
+	}
+	return f.addSection(name)
+}
+
 // SectionWithIndex assumes named section exists and returns a new section when not.
 func (f *File) SectionWithIndex(name string, index int) *Section {
 	secs, err := f.SectionsByName(name)
 	if err != nil || len(secs) <= index {
-		// NOTE: It's OK here because the only possible error is empty section name,
-		// but if it's empty, this piece of code won't be executed.
-		newSec, _ := f.NewSection(name)
-		return newSec
+		// NOTE: A section with empty name can be looked up but not created.
+		if len(name) == 0 {
+			return nil
+		}
+		return f.sectionOrNew(name, index)
 	}
 
 	return secs[index]
diff --git a/section.go b/section.go
index 4ac8583..f8620cf 100644
--- a/section.go
+++ b/section.go
@@ -87,10 +87,15 @@ func (s *Section) NewKey(name, val string) (*Key, error) {
 		return s.keys[name], nil
 	}
 
+	return s.addKey(name, val), nil
+}
+
+// addKey adds a key that does not exist yet. The lock must be held by the caller.
+func (s *Section) addKey(name, val string) *Key {
 	s.keyList = append(s.keyList, name)
 	s.keys[name] = newKey(s, name, val)
 	s.keysHash[name] = val
-	return s.keys[name], nil
+	return s.keys[name]
 }
 
 // NewBooleanKey creates a new boolean type key to given section.
@@ -179,14 +184,34 @@ func (s *Section) HasValue(value string) bool {
 func (s *Section) Key(name string) *Key {
 	key, err := s.GetKey(name)
 	if err != nil {
-		// It's OK here because the only possible error is empty key name,
-		// but if it's empty, this piece of code won't be executed.
-		key, _ = s.NewKey(name, "")
-		return key
+		return s.keyOrNew(name)
 	}
 	return key
 }
 
+// keyOrNew returns named key and creates it in section when it still does not
+// exist. It returns nil when the key name is empty.
+func (s *Section) keyOrNew(name string) *Key {
+	if len(name) == 0 {
+		return nil
+	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
+		name = strings.ToLower(name)
+	}
+
+	if s.f.BlockMode {
+		s.f.lock.Lock()
+		defer s.f.lock.Unlock()
+	}
+
+	// Another goroutine may have created the key in the meantime.
+	for _, sec := range append([]*Section{s}, s.parentSections()...) {
+		if key := sec.keys[name]; key != nil {
+			return key
+		}
+	}
+	return s.addKey(name, "")
+}
+
 // Keys returns list of keys of section.
 func (s *Section) Keys() []*Key {
 	if s.f.BlockMode {
-- 
2.43.0


From 383d571bd1ebf3af77cc246c749aee3f39a12baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 17/69] fix: delete all sections with the same name in one
 atomic step

---
 file.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/file.go b/file.go
index e2fd576..f37b066 100644
--- a/file.go
+++ b/file.go
@@ -259,16 +259,18 @@ func (f *File) SectionStrings() []string {
 
 // DeleteSection deletes a section or all sections with given name.
 func (f *File) DeleteSection(name string) {
-	secs, err := f.SectionsByName(name)
-	if err != nil {
-		return
+	name = f.storedName(name)
+
+	if f.BlockMode {
+		f.lock.Lock()
+		defer f.lock.Unlock()
 	}
 
-	for i := 0; i < len(secs); i++ {
+	secs := len(f.sections[name])
+	for i := 0; i < secs; i++ {
 		// For non-unique sections, it is always needed to remove the first one so
 		// in the next iteration, the subsequent section continue having index 0.
-		// Ignoring the error as index 0 never returns an error.
-		_ = f.DeleteSectionWithIndex(name, 0)
+		f.removeSection(name, 0)
 	}
 }
 
@@ -278,18 +280,20 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 		return fmt.Errorf("delete section with non-zero index is only allowed when non-unique sections is enabled")
 	}
 
-	if len(name) == 0 {
-		name = DefaultSection
-	}
-	if f.options.Insensitive || f.options.InsensitiveSections {
-		name = strings.ToLower(name)
-	}
+	name = f.storedName(name)
 
 	if f.BlockMode {
 		f.lock.Lock()
 		defer f.lock.Unlock()
 	}
 
+	f.removeSection(name, index)
+	return nil
+}
+
+// removeSection removes the section stored under given name and index. The lock
+// must be held by the caller.
+func (f *File) removeSection(name string, index int) {
 	// Count occurrences of the sections
 	occurrences := 0
 
@@ -319,8 +323,6 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 
 		occurrences++
 	}
-
-	return nil
 }
 
 func (f *File) reload(s dataSource) error {
-- 
2.43.0


From 162bfeb8ba8fd198734206465e4f649e4ab50373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 18/69] fix: ignore a negative index when deleting a section

---
 file.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/file.go b/file.go
index f37b066..783aec3 100644
--- a/file.go
+++ b/file.go
@@ -287,6 +287,9 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 		defer f.lock.Unlock()
 	}
 
+	if index < 0 {
+		return nil
+	}
 	f.removeSection(name, index)
 	return nil
 }
-- 
2.43.0


From 11fc10e0b4e1889cd7d8a6a0955bff3a2a7f96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 19/69] fix: do not create a section when listing its child
 sections

---
 file.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 783aec3..0173563 100644
--- a/file.go
+++ b/file.go
@@ -242,7 +242,12 @@ func (f *File) Sections() []*Section {
 
 // ChildSections returns a list of child sections of given section name.
 func (f *File) ChildSections(name string) []*Section {
-	return f.Section(name).ChildSections()
+	sec, err := f.GetSection(name)
+	if err != nil {
+		// Only look, do not create the section.
+		sec = newSection(f, f.storedName(name))
+	}
+	return sec.ChildSections()
 }
 
 // SectionStrings returns list of section names.
-- 
2.43.0


From b06e072e6eef37686f837d01ee5626e2b87b2ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 20/69] fix: take the lock when marking a key as boolean

---
 section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/section.go b/section.go
index f8620cf..70d1abb 100644
--- a/section.go
+++ b/section.go
@@ -105,6 +105,10 @@ func (s *Section) NewBooleanKey(name string) (*Key, error) {
 		return nil, err
 	}
 
+	if s.f.BlockMode {
+		s.f.lock.Lock()
+		defer s.f.lock.Unlock()
+	}
 	key.isBooleanType = true
 	return key, nil
 }
-- 
2.43.0


From cc6887cf39397994e520cfcd6d2092e045ba5e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 21/69] fix: do not glue the next section header to a body
 without trailing line break

---
 file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 0173563..7cfeb8d 100644
--- a/file.go
+++ b/file.go
@@ -423,7 +423,9 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				return nil, err
 			}
 
-			if PrettySection && !isLastSection {
+			// The next section header must start on its own line
+			endsLine := len(sec.rawBody) == 0 || strings.HasSuffix(sec.rawBody, "\n")
+			if (PrettySection || !endsLine) && !isLastSection {
 				// Put a line between sections
 				if _, err := buf.WriteString(LineBreak); err != nil {
 					return nil, err
-- 
2.43.0


From ca9e51d699387f0572e3c59cda3764fd98080d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 22/69] fix: report read errors met while looking ahead for
 Python-style multi-line values

---
 parser.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index b0e1878..50db4d2 100644
--- a/parser.go
+++ b/parser.go
@@ -106,6 +106,16 @@ func (p *parser) BOM() error {
 	return nil
 }
 
+// peek returns up to the next n bytes, less only at the end of data or when the
+// buffer of the parser is smaller.
+func (p *parser) peek(n int) ([]byte, error) {
+	data, err := p.buf.Peek(n)
+	if err != nil && err != io.EOF && err != bufio.ErrBufferFull {
+		return nil, err
+	}
+	return data, nil
+}
+
 func (p *parser) readUntil(delim byte) ([]byte, error) {
 	data, err := p.buf.ReadBytes(delim)
 	if err != nil {
@@ -307,7 +317,10 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 }
 
 func (p *parser) readPythonMultilines(line string, bufferSize int) (string, error) {
-	parserBufferPeekResult, _ := p.buf.Peek(bufferSize)
+	parserBufferPeekResult, err := p.peek(bufferSize)
+	if err != nil {
+		return "", err
+	}
 	peekBuffer := bytes.NewBuffer(parserBufferPeekResult)
 
 	for {
@@ -332,7 +345,7 @@ func (p *parser) readPythonMultilines(line string, bufferSize int) (string, erro
 		}
 
 		// Advance the parser reader (buffer) in-sync with the peek buffer.
-		_, err := p.buf.Discard(len(peekData))
+		_, err = p.buf.Discard(len(peekData))
 		if err != nil {
 			p.debug("readPythonMultilines: failed to skip to the end, returning error")
 			return "", err
@@ -382,7 +395,10 @@ func (f *File) parse(reader io.Reader) (err error) {
 
 	if f.options.AllowPythonMultilineValues {
 		for {
-			peekBytes, _ := p.buf.Peek(currentPeekSize)
+			peekBytes, err := p.peek(currentPeekSize)
+			if err != nil {
+				return err
+			}
 			peekBytesLength := len(peekBytes)
 
 			if parserBufferSize >= peekBytesLength {
-- 
2.43.0


From a2d4d3169d90bb0b299a6d6b0cf8c2b1996f07b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 23/69] fix: read Python-style multi-line values that exceed
 the look-ahead buffer

---
 parser.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/parser.go b/parser.go
index 50db4d2..f4cc7f9 100644
--- a/parser.go
+++ b/parser.go
@@ -330,6 +330,18 @@ func (p *parser) readPythonMultilines(line string, bufferSize int) (string, erro
 			return "", peekErr
 		}
 
+		// The peeked bytes may end before the line does, look again from its start.
+		if peekErr == io.EOF {
+			more, err := p.peek(bufferSize)
+			if err != nil {
+				return "", err
+			}
+			if len(more) > len(peekData) {
+				peekBuffer = bytes.NewBuffer(more)
+				peekData, _ = peekBuffer.ReadBytes('\n')
+			}
+		}
+
 		p.debug("readPythonMultilines: parsing %q", string(peekData))
 
 		peekMatches := pythonMultiline.FindStringSubmatch(string(peekData))
@@ -352,6 +364,15 @@ func (p *parser) readPythonMultilines(line string, bufferSize int) (string, erro
 		}
 
 		line += "\n" + peekMatches[0]
+
+		// The line is longer than what can be peeked, read the rest of it.
+		if peekData[len(peekData)-1] != '\n' {
+			rest, err := p.readUntil('\n')
+			if err != nil {
+				return "", err
+			}
+			line += strings.TrimSuffix(string(rest), "\n")
+		}
 	}
 }
 
-- 
2.43.0


From 4a36d752806b8f3c3600f36ecc69ced61882838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 24/69] fix: start the inline comment at the first comment
 symbol after a space

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index f4cc7f9..1f048df 100644
--- a/parser.go
+++ b/parser.go
@@ -287,8 +287,8 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 		var i int
 		if p.options.SpaceBeforeInlineComment {
 			i = strings.Index(line, " #")
-			if i == -1 {
-				i = strings.Index(line, " ;")
+			if j := strings.Index(line, " ;"); i == -1 || (j > -1 && j < i) {
+				i = j
 			}
 
 		} else {
-- 
2.43.0


From 06c3f2a28fb1392c0203cbde9201b597f27bdf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 25/69] fix: keep the inline comment after a quoted value on a
 single line

---
 parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser.go b/parser.go
index 1f048df..f936eb7 100644
--- a/parser.go
+++ b/parser.go
@@ -266,6 +266,12 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 			return p.readMultilines(line, line[startIdx:], valQuote)
 		}
 
+		// Keep the comment that follows the closing quote
+		comment, has := cleanComment([]byte(line[pos+startIdx:]))
+		if has && !p.options.IgnoreInlineComment {
+			p.comment.Write(bytes.TrimSpace(comment))
+		}
+
 		if p.options.UnescapeValueDoubleQuotes && valQuote == `"` {
 			return strings.Replace(line[startIdx:pos+startIdx], `\"`, `"`, -1), nil
 		}
-- 
2.43.0


From d7fa1a18823e49b7f57b2e3f2b8c6977b0b59256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:31 +0000
Subject: [PATCH 26/69] fix: keep the comment of a key when a shadow value
 follows without one

---
 parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index f936eb7..713bbc4 100644
--- a/parser.go
+++ b/parser.go
@@ -559,7 +559,10 @@ func (f *File) parse(reader io.Reader) (err error) {
 			return err
 		}
 		key.isAutoIncrement = isAutoIncr
-		key.Comment = strings.TrimSpace(p.comment.String())
+		// A shadow without comment does not take away the comment of its key
+		if p.comment.Len() > 0 || !f.options.AllowShadows {
+			key.Comment = strings.TrimSpace(p.comment.String())
+		}
 		p.comment.Reset()
 		lastRegularKey = key
 	}
-- 
2.43.0


From 3d75bdc97f91f0a2be437edc7c532f1263300514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 27/69] fix: return a copy of the nested values

---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 73bfad2..1ea3b11 100644
--- a/key.go
+++ b/key.go
@@ -135,7 +135,7 @@ func (k *Key) ValueWithShadows() []string {
 // NestedValues returns nested values stored in the key.
 // It is possible returned value is nil if no nested values stored in the key.
 func (k *Key) NestedValues() []string {
-	return k.nestedValues
+	return append([]string(nil), k.nestedValues...)
 }
 
 // transformValue takes a raw value and transforms to its final string.
-- 
2.43.0


From 76b22d419cbefbfd54e7a887946b78eb5fad110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 28/69] fix: write the value of a boolean key that has been
 changed

---
 file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 7cfeb8d..1088415 100644
--- a/file.go
+++ b/file.go
@@ -496,7 +496,8 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 					return false, err
 				}
 
-				if key.isBooleanType {
+				// A boolean key has no value unless it has been given another one
+				if key.isBooleanType && val == "true" {
 					buf.WriteString(LineBreak)
 					return true, nil
 				}
-- 
2.43.0


From 5592dd49ff455b716bea26d099af28e0454958b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 29/69] fix: do not keep carriage returns inside multi-line
 comments

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 713bbc4..dea1037 100644
--- a/parser.go
+++ b/parser.go
@@ -464,6 +464,9 @@ func (f *File) parse(reader io.Reader) (err error) {
 			// Note: we do not care ending line break,
 			// it is needed for adding second line,
 			// so just clean it once at the end when set to value.
+			if bytes.HasSuffix(line, []byte("\r\n")) {
+				line = append(line[:len(line)-2], '\n')
+			}
 			p.comment.Write(line)
 			continue
 		}
-- 
2.43.0


From c786a1e530f30a054b3bbfb5d622157522370ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 30/69] fix: in loose mode skip only sources that cannot be
 opened because they do not exist

---
 file.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/file.go b/file.go
index 1088415..93ce13e 100644
--- a/file.go
+++ b/file.go
@@ -333,28 +333,31 @@ func (f *File) removeSection(name string, index int) {
 	}
 }
 
-func (f *File) reload(s dataSource) error {
+// reload reads and parses a data source, it reports whether the data source does
+// not exist and has been skipped.
+func (f *File) reload(s dataSource) (skipped bool, err error) {
 	r, err := s.ReadCloser()
 	if err != nil {
-		return err
+		// In loose mode, we create an empty default section for nonexistent files.
+		if os.IsNotExist(err) && f.options.Loose {
+			_ = f.parse(bytes.NewBuffer(nil))
+			return true, nil
+		}
+		return false, err
 	}
 	defer r.Close()
 
-	return f.parse(r)
+	return false, f.parse(r)
 }
 
 // Reload reloads and parses all data sources.
 func (f *File) Reload() (err error) {
 	for _, s := range f.dataSources {
-		if err = f.reload(s); err != nil {
-			// In loose mode, we create an empty default section for nonexistent files.
-			if os.IsNotExist(err) && f.options.Loose {
-				_ = f.parse(bytes.NewBuffer(nil))
-				continue
-			}
+		skipped, err := f.reload(s)
+		if err != nil {
 			return err
 		}
-		if f.options.ShortCircuit {
+		if f.options.ShortCircuit && !skipped {
 			return nil
 		}
 	}
-- 
2.43.0


From 368ffa7a00007dae7599dc2e61101e81efcc2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 31/69] fix: reload replaces what the last load has read
 instead of adding to it

---
 file.go    | 29 +++++++++++++++++++++++++++++
 key.go     |  2 ++
 parser.go  | 15 ++++++++++-----
 section.go | 41 +++++++++++++++++++++++++++++++++++++++++
 4 files changed, 82 insertions(+), 5 deletions(-)

diff --git a/file.go b/file.go
index 93ce13e..0be8878 100644
--- a/file.go
+++ b/file.go
@@ -43,6 +43,12 @@ type File struct {
 	// Actual data is stored here.
 	sections map[string][]*Section
 
+	// To tell what the current load has already read from what was there before.
+	loadSeq int
+	// To keep track of how many headers with same name the current load has read.
+	// It is only used when non-unique section names are allowed.
+	loadCounts map[string]int
+
 	NameMapper
 	ValueMapper
 }
@@ -115,6 +121,27 @@ func (f *File) addSection(name string) *Section {
 	return sec
 }
 
+// loadSection returns the section for a header met by the current load, which is
+// the one that an earlier load has created for the same header when there is one.
+func (f *File) loadSection(name string) (*Section, error) {
+	if len(name) == 0 || !f.options.AllowNonUniqueSections {
+		return f.NewSection(name)
+	}
+	name = f.storedName(name)
+
+	if f.BlockMode {
+		f.lock.Lock()
+		defer f.lock.Unlock()
+	}
+
+	index := f.loadCounts[name]
+	f.loadCounts[name]++
+	if index < len(f.sections[name]) {
+		return f.sections[name][index], nil
+	}
+	return f.addSection(name), nil
+}
+
 // NewRawSection creates a new section with an unparseable body.
 func (f *File) NewRawSection(name, body string) (*Section, error) {
 	section, err := f.NewSection(name)
@@ -352,6 +379,8 @@ func (f *File) reload(s dataSource) (skipped bool, err error) {
 
 // Reload reloads and parses all data sources.
 func (f *File) Reload() (err error) {
+	f.loadSeq++
+	f.loadCounts = make(map[string]int)
 	for _, s := range f.dataSources {
 		skipped, err := f.reload(s)
 		if err != nil {
diff --git a/key.go b/key.go
index 1ea3b11..c177bcf 100644
--- a/key.go
+++ b/key.go
@@ -36,6 +36,8 @@ type Key struct {
 	shadows  []*Key
 
 	nestedValues []string
+
+	loadSeq int // The load which has read the value
 }
 
 // newKey simply return a key object with given values.
diff --git a/parser.go b/parser.go
index dea1037..f50bfa5 100644
--- a/parser.go
+++ b/parser.go
@@ -404,7 +404,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 	if f.options.Insensitive || f.options.InsensitiveSections {
 		name = strings.ToLower(DefaultSection)
 	}
-	section, _ := f.NewSection(name)
+	section, _ := f.loadSection(name)
 
 	// This "last" is not strictly equivalent to "previous one" if current key is not the first nested key
 	var isLastValueEmpty bool
@@ -480,7 +480,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 			}
 
 			name := string(line[1:closeIdx])
-			section, err = f.NewSection(name)
+			section, err = f.loadSection(name)
 			if err != nil {
 				return err
 			}
@@ -510,6 +510,10 @@ func (f *File) parse(reader io.Reader) (err error) {
 		}
 
 		if inUnparseableSection {
+			if section.loadSeq != f.loadSeq {
+				section.loadSeq = f.loadSeq
+				section.rawBody = ""
+			}
 			section.isRawSection = true
 			section.rawBody += string(line)
 			continue
@@ -526,10 +530,11 @@ func (f *File) parse(reader io.Reader) (err error) {
 					if err != nil {
 						return err
 					}
-					key, err := section.NewBooleanKey(kname)
+					key, _, err := section.loadKey(kname, "true")
 					if err != nil {
 						return err
 					}
+					key.isBooleanType = true
 					key.Comment = strings.TrimSpace(p.comment.String())
 					p.comment.Reset()
 					continue
@@ -557,13 +562,13 @@ func (f *File) parse(reader io.Reader) (err error) {
 		}
 		isLastValueEmpty = len(value) == 0
 
-		key, err := section.NewKey(kname, value)
+		key, first, err := section.loadKey(kname, value)
 		if err != nil {
 			return err
 		}
 		key.isAutoIncrement = isAutoIncr
 		// A shadow without comment does not take away the comment of its key
-		if p.comment.Len() > 0 || !f.options.AllowShadows {
+		if p.comment.Len() > 0 || first || !f.options.AllowShadows {
 			key.Comment = strings.TrimSpace(p.comment.String())
 		}
 		p.comment.Reset()
diff --git a/section.go b/section.go
index 70d1abb..f653142 100644
--- a/section.go
+++ b/section.go
@@ -31,6 +31,8 @@ type Section struct {
 
 	isRawSection bool
 	rawBody      string
+
+	loadSeq int // The load which has read the body
 }
 
 func newSection(f *File, name string) *Section {
@@ -90,6 +92,45 @@ func (s *Section) NewKey(name, val string) (*Key, error) {
 	return s.addKey(name, val), nil
 }
 
+// loadKey assigns a value to a key on behalf of the current load. It reports
+// whether it is the first time, then what an earlier load has read is replaced.
+func (s *Section) loadKey(name, val string) (_ *Key, first bool, err error) {
+	key := s.ownKey(name)
+	if key == nil || key.loadSeq == s.f.loadSeq {
+		first = key == nil
+		if key, err = s.NewKey(name, val); err != nil {
+			return nil, false, err
+		}
+		key.loadSeq = s.f.loadSeq
+		return key, first, nil
+	}
+
+	if s.f.BlockMode {
+		s.f.lock.Lock()
+		defer s.f.lock.Unlock()
+	}
+	key.loadSeq = s.f.loadSeq
+	key.value = val
+	key.shadows = nil
+	key.nestedValues = nil
+	key.isBooleanType = false
+	s.keysHash[key.name] = val
+	return key, true, nil
+}
+
+// ownKey returns the key with given name of the section itself, or nil.
+func (s *Section) ownKey(name string) *Key {
+	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
+		name = strings.ToLower(name)
+	}
+
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+	return s.keys[name]
+}
+
 // addKey adds a key that does not exist yet. The lock must be held by the caller.
 func (s *Section) addKey(name, val string) *Key {
 	s.keyList = append(s.keyList, name)
-- 
2.43.0


From c9b92a23cfd0850da48c5610296ed2cc7990fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 32/69] fix: do not panic on duration text in unsigned integer
 fields

Mapping "5s" to an unsigned integer field panicked, because a
time.Duration cannot be assigned to it. Such a text is just not a valid
unsigned integer.
---
 struct.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/struct.go b/struct.go
index a486b2f..1269c95 100644
--- a/struct.go
+++ b/struct.go
@@ -210,17 +210,6 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 	//	byte is an alias for uint8, so supporting uint8 breaks support for byte
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		durationVal, err := key.Duration()
-		// Skip zero value
-		if err == nil && uint64(durationVal) > 0 {
-			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
-			} else {
-				field.Set(reflect.ValueOf(durationVal))
-			}
-			return nil
-		}
-
 		uintVal, err := key.Uint64()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
-- 
2.43.0


From 1f99220bc0b5e0d898ab136199c56c594aab946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 33/69] fix: treat numbers that do not fit the field as invalid
 values

They were truncated silently: 300 became 44 in an int8 field, and a too
large number became infinite in a float32 field.
---
 struct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/struct.go b/struct.go
index 1269c95..0ac06df 100644
--- a/struct.go
+++ b/struct.go
@@ -198,6 +198,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 
 		intVal, err := key.Int64()
+		if err == nil && reflect.Zero(vt).OverflowInt(intVal) {
+			err = fmt.Errorf("value %d overflows type %q", intVal, vt)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
@@ -211,6 +214,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 	//	byte is an alias for uint8, so supporting uint8 breaks support for byte
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		uintVal, err := key.Uint64()
+		if err == nil && reflect.Zero(vt).OverflowUint(uintVal) {
+			err = fmt.Errorf("value %d overflows type %q", uintVal, vt)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
@@ -224,6 +230,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 
 	case reflect.Float32, reflect.Float64:
 		floatVal, err := key.Float64()
+		if err == nil && reflect.Zero(vt).OverflowFloat(floatVal) {
+			err = fmt.Errorf("value %v overflows type %q", floatVal, vt)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-- 
2.43.0


From f6b375db4bf32a86b6608a96285383b6d664300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 34/69] fix: map plain integers to duration pointers and zero
 or negative durations

A plain integer for a *time.Duration field panicked, a duration for a
named duration type panicked, and zero or negative durations were
silently ignored.
---
 struct.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index 0ac06df..2bbd496 100644
--- a/struct.go
+++ b/struct.go
@@ -183,16 +183,18 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if vt.Name() == "Duration" {
 			durationVal, err := key.Duration()
 			if err != nil {
-				if intVal, err := key.Int64(); err == nil {
-					field.SetInt(intVal)
-					return nil
+				intVal, ierr := key.Int64()
+				if ierr != nil {
+					return wrapStrictError(err, isStrict)
 				}
-				return wrapStrictError(err, isStrict)
+				durationVal = time.Duration(intVal)
 			}
 			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
-			} else if int64(durationVal) > 0 {
-				field.Set(reflect.ValueOf(durationVal))
+				pv := reflect.New(t.Elem())
+				pv.Elem().SetInt(int64(durationVal))
+				field.Set(pv)
+			} else {
+				field.SetInt(int64(durationVal))
 			}
 			return nil
 		}
-- 
2.43.0


From ccef723cc76378f615a76603bb5cf445e91034b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:36 +0000
Subject: [PATCH 35/69] fix: do not panic when mapping to named types, their
 lists and pointers

Pointers to and lists of defined types (as *MyString or []MyInt), and
structs or lists of structs whose name has a key holding a time, made
mapping panic because the value is not assignable without conversion.
---
 struct.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/struct.go b/struct.go
index 2bbd496..52add1c 100644
--- a/struct.go
+++ b/struct.go
@@ -77,6 +77,8 @@ func parseDelim(actual string) string {
 
 var reflectTime = reflect.TypeOf(time.Now()).Kind()
 
+var timeType = reflect.TypeOf(time.Time{})
+
 // setSliceWithProperType sets proper values to slice based on its type.
 func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow, isStrict bool) error {
 	var strs []string
@@ -111,6 +113,9 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.Bool:
 		vals, err = key.parseBools(strs, true, false)
 	case reflectTime:
+		if !timeType.ConvertibleTo(field.Type().Elem()) {
+			return fmt.Errorf("unsupported type %q", field.Type())
+		}
 		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, false)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
@@ -123,21 +128,21 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	for i := 0; i < numVals; i++ {
 		switch sliceOf {
 		case reflect.String:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]string)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]string)[i]).Convert(field.Type().Elem()))
 		case reflect.Int:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]int)[i]).Convert(field.Type().Elem()))
 		case reflect.Int64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int64)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]int64)[i]).Convert(field.Type().Elem()))
 		case reflect.Uint:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]uint)[i]).Convert(field.Type().Elem()))
 		case reflect.Uint64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint64)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]uint64)[i]).Convert(field.Type().Elem()))
 		case reflect.Float64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]float64)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]float64)[i]).Convert(field.Type().Elem()))
 		case reflect.Bool:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]bool)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]bool)[i]).Convert(field.Type().Elem()))
 		case reflectTime:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]).Convert(field.Type().Elem()))
 		}
 	}
 	field.Set(slice)
@@ -164,7 +169,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 	case reflect.String:
 		stringVal := key.String()
 		if isPtr {
-			field.Set(reflect.ValueOf(&stringVal))
+			field.Set(reflect.ValueOf(&stringVal).Convert(t))
 		} else if len(stringVal) > 0 {
 			field.SetString(key.String())
 		}
@@ -174,7 +179,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 			return wrapStrictError(err, isStrict)
 		}
 		if isPtr {
-			field.Set(reflect.ValueOf(&boolVal))
+			field.Set(reflect.ValueOf(&boolVal).Convert(t))
 		} else {
 			field.SetBool(boolVal)
 		}
@@ -247,13 +252,16 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 	case reflectTime:
 		timeVal, err := key.Time()
+		if err == nil && !timeType.ConvertibleTo(vt) {
+			err = fmt.Errorf("unsupported type %q", t)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
 		if isPtr {
-			field.Set(reflect.ValueOf(&timeVal))
+			field.Set(reflect.ValueOf(&timeVal).Convert(t))
 		} else {
-			field.Set(reflect.ValueOf(timeVal))
+			field.Set(reflect.ValueOf(timeVal).Convert(t))
 		}
 	case reflect.Slice:
 		return setSliceWithProperType(key, field, delim, allowShadow, isStrict)
-- 
2.43.0


From 1b21d86d7f254b2603e58c308a6896c1b757af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:38 +0000
Subject: [PATCH 36/69] fix: map durations in lists

A list of durations is mapped element by element like a single duration.
It used to panic.
---
 struct.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/struct.go b/struct.go
index 52add1c..aa79028 100644
--- a/struct.go
+++ b/struct.go
@@ -103,6 +103,13 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.Int:
 		vals, err = key.parseInts(strs, true, false)
 	case reflect.Int64:
+		if field.Type().Elem().Name() == "Duration" {
+			for i := range strs {
+				if d, err := time.ParseDuration(strs[i]); err == nil {
+					strs[i] = fmt.Sprint(int64(d))
+				}
+			}
+		}
 		vals, err = key.parseInt64s(strs, true, false)
 	case reflect.Uint:
 		vals, err = key.parseUints(strs, true, false)
-- 
2.43.0


From abe29e718d90983e198c01e521b2837d4af29c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:39 +0000
Subject: [PATCH 37/69] fix: do not panic when mapping to something that is not
 a struct

Nil values, nil pointers, pointers to other types and lists of other
types than structs made mapping panic instead of returning an error.
Lists of struct pointers, which can be reflected, can be mapped as well.
---
 struct.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index aa79028..fc70782 100644
--- a/struct.go
+++ b/struct.go
@@ -381,13 +381,23 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 	}
 
 	typ := val.Type().Elem()
+	isPtr := typ.Kind() == reflect.Ptr
+	if isPtr {
+		typ = typ.Elem()
+	}
+	if typ.Kind() != reflect.Struct {
+		return reflect.Value{}, fmt.Errorf("unsupported type %q", val.Type())
+	}
 	for i, sec := range secs {
 		elem := reflect.New(typ)
 		if err = sec.mapToField(elem, isStrict, i, sec.name); err != nil {
 			return reflect.Value{}, fmt.Errorf("map to field from section %q: %v", secName, err)
 		}
 
-		val = reflect.Append(val, elem.Elem())
+		if !isPtr {
+			elem = elem.Elem()
+		}
+		val = reflect.Append(val, elem)
 	}
 	return val, nil
 }
@@ -396,7 +406,7 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 func (s *Section) mapTo(v interface{}, isStrict bool) error {
 	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
-	if typ.Kind() == reflect.Ptr {
+	if val.Kind() == reflect.Ptr && !val.IsNil() {
 		typ = typ.Elem()
 		val = val.Elem()
 	} else {
@@ -413,6 +423,9 @@ func (s *Section) mapTo(v interface{}, isStrict bool) error {
 		return nil
 	}
 
+	if reflect.Indirect(val).Kind() != reflect.Struct {
+		return errors.New("not a pointer to a struct")
+	}
 	return s.mapToField(val, isStrict, 0, s.name)
 }
 
-- 
2.43.0


From c2ed922a9d70dc6b5206111885dd0a28cf7cd6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 38/69] fix: keep what an embedded struct pointer holds when
 mapping

An embedded pointer was replaced by a new struct, which lost the values
of the fields that have no key, and panicked when it does not point to a
struct.
---
 struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index fc70782..1eccf0a 100644
--- a/struct.go
+++ b/struct.go
@@ -315,8 +315,8 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 
 		isStruct := tpField.Type.Kind() == reflect.Struct
 		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
-		isAnonymousPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Anonymous
-		if isAnonymousPtr {
+		isAnonymousPtr := isStructPtr && tpField.Anonymous
+		if isAnonymousPtr && field.IsNil() {
 			field.Set(reflect.New(tpField.Type.Elem()))
 		}
 
-- 
2.43.0


From 43395968c512ecc2c79f01fc54b710509256c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 39/69] fix: map the key of a time field even if there is a
 section of the same name

The section was mapped to the private fields of time.Time and the key was
ignored.
---
 struct.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 1eccf0a..36f36b9 100644
--- a/struct.go
+++ b/struct.go
@@ -313,8 +313,9 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			continue
 		}
 
-		isStruct := tpField.Type.Kind() == reflect.Struct
-		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
+		isTime := tpField.Type == timeType || tpField.Type == reflect.PtrTo(timeType)
+		isStruct := tpField.Type.Kind() == reflect.Struct && !isTime
+		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && !isTime
 		isAnonymousPtr := isStructPtr && tpField.Anonymous
 		if isAnonymousPtr && field.IsNil() {
 			field.Set(reflect.New(tpField.Type.Elem()))
-- 
2.43.0


From f549b96282ca84ee3e5527ad08520587b0f7ee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:59 +0000
Subject: [PATCH 40/69] fix: do not create the default section when mapping a
 file

Mapping a file whose default section has been deleted brought the
section back.
---
 struct.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 36f36b9..bbcc990 100644
--- a/struct.go
+++ b/struct.go
@@ -441,15 +441,24 @@ func (s *Section) StrictMapTo(v interface{}) error {
 	return s.mapTo(v, true)
 }
 
+// defaultSection returns the default section, or an empty one that is not part
+// of the file when it has been deleted, so that mapping does not change the file.
+func (f *File) defaultSection() *Section {
+	if sec, err := f.GetSection(""); err == nil {
+		return sec
+	}
+	return newSection(f, DefaultSection)
+}
+
 // MapTo maps file to given struct.
 func (f *File) MapTo(v interface{}) error {
-	return f.Section("").MapTo(v)
+	return f.defaultSection().MapTo(v)
 }
 
 // StrictMapTo maps file to given struct in strict mode,
 // which returns all possible error including value parsing error.
 func (f *File) StrictMapTo(v interface{}) error {
-	return f.Section("").StrictMapTo(v)
+	return f.defaultSection().StrictMapTo(v)
 }
 
 // MapToWithMapper maps data sources to given struct with name mapper.
-- 
2.43.0


From ef537790a5792ed6a0cf1a3b2f1d9cfe26feae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:01 +0000
Subject: [PATCH 41/69] fix: keep a list of structs that has no section when
 mapping

A field for non-unique sections without any section of its name made the
whole mapping fail, unlike any other field that has no data.
---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index bbcc990..3d830b1 100644
--- a/struct.go
+++ b/struct.go
@@ -354,6 +354,9 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 
 		// Map non-unique sections
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
+			if !s.f.HasSection(fieldName) {
+				continue
+			}
 			newField, err := s.mapToSlice(fieldName, field, isStrict)
 			if err != nil {
 				return fmt.Errorf("map to slice %q: %v", fieldName, err)
-- 
2.43.0


From 03ed2372330f5c0b170776f711a06af5e467b289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:37 +0000
Subject: [PATCH 42/69] fix: reflect the fields after a struct reflector or an
 empty list of structs

Reflecting stopped silently at the first field that implements
StructReflector and at the first empty list of non-unique sections, and
called struct reflectors on nil pointers.
---
 struct.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 3d830b1..00a49a4 100644
--- a/struct.go
+++ b/struct.go
@@ -639,7 +639,13 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		if r, ok := field.Interface().(StructReflector); ok {
-			return r.ReflectINIStruct(s.f)
+			if field.Kind() == reflect.Ptr && field.IsNil() {
+				continue
+			}
+			if err := r.ReflectINIStruct(s.f); err != nil {
+				return err
+			}
+			continue
 		}
 
 		fieldName := s.parseFieldName(tpField.Name, rawName)
@@ -677,7 +683,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
 			slice := field.Slice(0, field.Len())
 			if field.Len() == 0 {
-				return nil
+				continue
 			}
 			sliceOf := field.Type().Elem().Kind()
 
-- 
2.43.0


From 9ad9da03b26d0125de888ebe21b04432206fb8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:39 +0000
Subject: [PATCH 43/69] fix: do not panic when reflecting nil pointers or
 non-struct values

A nil pointer to a struct in any field made reflecting panic, as did nil
values and pointers to other types than structs.
---
 struct.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/struct.go b/struct.go
index 00a49a4..5de79a8 100644
--- a/struct.go
+++ b/struct.go
@@ -616,8 +616,14 @@ type StructReflector interface {
 
 func (s *Section) reflectFrom(val reflect.Value) error {
 	if val.Kind() == reflect.Ptr {
+		if val.IsNil() {
+			return nil
+		}
 		val = val.Elem()
 	}
+	if val.Kind() != reflect.Struct {
+		return errors.New("not a pointer to a struct")
+	}
 	typ := val.Type()
 
 	for i := 0; i < typ.NumField(); i++ {
@@ -662,6 +668,10 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 
 		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct) ||
 			(tpField.Type.Kind() == reflect.Struct && tpField.Type.Name() != "Time") {
+			// There is nothing to reflect, and no section must appear
+			if tpField.Type.Kind() == reflect.Ptr && field.IsNil() {
+				continue
+			}
 			// Note: The only error here is section doesn't exist.
 			sec, err := s.f.GetSection(fieldName)
 			if err != nil {
@@ -733,6 +743,9 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 func (s *Section) ReflectFrom(v interface{}) error {
 	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
+	if typ == nil || (typ.Kind() == reflect.Ptr && val.IsNil()) {
+		return errors.New("not a pointer to a struct")
+	}
 
 	if s.name != DefaultSection && s.f.options.AllowNonUniqueSections &&
 		(typ.Kind() == reflect.Slice || typ.Kind() == reflect.Ptr) {
-- 
2.43.0


From f6fa3009d63c6b4b7640f2972801c8df86b23f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 44/69] fix: do not overwrite keys of the parent section when
 reflecting

Reflecting a child section set the value of the key of the same name in
the parent section instead of creating its own.
---
 struct.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 5de79a8..4a60bde 100644
--- a/struct.go
+++ b/struct.go
@@ -720,8 +720,9 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		// Note: Same reason as section.
+		// A key that is inherited from a parent section belongs to that section.
 		key, err := s.GetKey(fieldName)
-		if err != nil {
+		if err != nil || key.s != s {
 			key, _ = s.NewKey(fieldName, "")
 		}
 
-- 
2.43.0


From 5ae7b132b000686b639fb61a90b587c910bb4170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 45/69] fix: reflect lists completely into existing keys and
 files without shadows

An empty list left the old value in place, a list without the allowshadow
option left old shadows behind, one with it lost the comment of the key
and its entry in the key hash, and lost all values but the first when the
file does not allow shadows.
---
 struct.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 4a60bde..31d5158 100644
--- a/struct.go
+++ b/struct.go
@@ -499,12 +499,14 @@ func StrictMapTo(v, source interface{}, others ...interface{}) error {
 // reflectSliceWithProperType does the opposite thing as setSliceWithProperType.
 func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow bool) error {
 	slice := field.Slice(0, field.Len())
+	key.shadows = nil
 	if field.Len() == 0 {
+		key.SetValue("")
 		return nil
 	}
 	sliceOf := field.Type().Elem().Kind()
 
-	if allowShadow {
+	if allowShadow && key.s.f.options.AllowShadows {
 		var keyWithShadows *Key
 		for i := 0; i < field.Len(); i++ {
 			var val string
@@ -531,7 +533,8 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 				_ = keyWithShadows.AddShadow(val)
 			}
 		}
-		*key = *keyWithShadows
+		key.SetValue(keyWithShadows.value)
+		key.shadows = keyWithShadows.shadows
 		return nil
 	}
 
-- 
2.43.0


From c80b8dee24add8a02b789cd3cab6b2200e2ee4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:04 +0000
Subject: [PATCH 46/69] fix: reflect time pointers and defined time types as
 times

A *time.Time field was written as an empty section, and a struct type of
the user called Time made reflecting panic.
---
 struct.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/struct.go b/struct.go
index 31d5158..af56603 100644
--- a/struct.go
+++ b/struct.go
@@ -79,6 +79,14 @@ var reflectTime = reflect.TypeOf(time.Now()).Kind()
 
 var timeType = reflect.TypeOf(time.Time{})
 
+// isTimeType reports whether the type is a time or a pointer to one.
+func isTimeType(t reflect.Type) bool {
+	if t.Kind() == reflect.Ptr {
+		t = t.Elem()
+	}
+	return t.ConvertibleTo(timeType)
+}
+
 // setSliceWithProperType sets proper values to slice based on its type.
 func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow, isStrict bool) error {
 	var strs []string
@@ -313,7 +321,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			continue
 		}
 
-		isTime := tpField.Type == timeType || tpField.Type == reflect.PtrTo(timeType)
+		isTime := isTimeType(tpField.Type)
 		isStruct := tpField.Type.Kind() == reflect.Struct && !isTime
 		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && !isTime
 		isAnonymousPtr := isStructPtr && tpField.Anonymous
@@ -522,7 +530,7 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 			case reflect.Bool:
 				val = fmt.Sprint(slice.Index(i).Bool())
 			case reflectTime:
-				val = slice.Index(i).Interface().(time.Time).Format(time.RFC3339)
+				val = slice.Index(i).Convert(timeType).Interface().(time.Time).Format(time.RFC3339)
 			default:
 				return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 			}
@@ -552,7 +560,7 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 		case reflect.Bool:
 			buf.WriteString(fmt.Sprint(slice.Index(i).Bool()))
 		case reflectTime:
-			buf.WriteString(slice.Index(i).Interface().(time.Time).Format(time.RFC3339))
+			buf.WriteString(slice.Index(i).Convert(timeType).Interface().(time.Time).Format(time.RFC3339))
 		default:
 			return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 		}
@@ -576,7 +584,7 @@ func reflectWithProperType(t reflect.Type, key *Key, field reflect.Value, delim
 	case reflect.Float32, reflect.Float64:
 		key.SetValue(fmt.Sprint(field.Float()))
 	case reflectTime:
-		key.SetValue(fmt.Sprint(field.Interface().(time.Time).Format(time.RFC3339)))
+		key.SetValue(fmt.Sprint(field.Convert(timeType).Interface().(time.Time).Format(time.RFC3339)))
 	case reflect.Slice:
 		return reflectSliceWithProperType(key, field, delim, allowShadow)
 	case reflect.Ptr:
@@ -606,8 +614,9 @@ func isEmptyValue(v reflect.Value) bool {
 	case reflect.Interface, reflect.Ptr:
 		return v.IsNil()
 	case reflectTime:
-		t, ok := v.Interface().(time.Time)
-		return ok && t.IsZero()
+		if v.Type().ConvertibleTo(timeType) {
+			return v.Convert(timeType).Interface().(time.Time).IsZero()
+		}
 	}
 	return false
 }
@@ -669,8 +678,10 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
-		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct) ||
-			(tpField.Type.Kind() == reflect.Struct && tpField.Type.Name() != "Time") {
+		if isTimeType(tpField.Type) {
+			// Times are written as keys, not as sections
+		} else if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct) ||
+			(tpField.Type.Kind() == reflect.Struct) {
 			// There is nothing to reflect, and no section must appear
 			if tpField.Type.Kind() == reflect.Ptr && field.IsNil() {
 				continue
-- 
2.43.0


From b2d6f8154353bfff84add0f4c8c7d28706973caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:05 +0000
Subject: [PATCH 47/69] fix: reflect extended structs into the section they are
 mapped from

When the section of a named extended struct exists, mapping reads it, but
reflecting wrote to its parent.
---
 struct.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index af56603..64210c6 100644
--- a/struct.go
+++ b/struct.go
@@ -672,7 +672,14 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		if extends && tpField.Anonymous && (tpField.Type.Kind() == reflect.Ptr || tpField.Type.Kind() == reflect.Struct) {
-			if err := s.reflectFrom(field); err != nil {
+			// Use the section that mapping reads
+			sec := s
+			if rawName != "" {
+				if child, err := s.f.GetSection(s.name + s.f.options.ChildSectionDelimiter + rawName); err == nil {
+					sec = child
+				}
+			}
+			if err := sec.reflectFrom(field); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 			}
 			continue
-- 
2.43.0


From 52d5ca95e45dc9a3d81527165e8bac8bd16177b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:29 +0000
Subject: [PATCH 48/69] fix: return the default of RangeFloat64 for NaN

NaN is not within any bounds, but was returned as if it were.
---
 key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index c177bcf..afbd4f3 100644
--- a/key.go
+++ b/key.go
@@ -474,7 +474,8 @@ func (k *Key) InTime(defaultVal time.Time, candidates []time.Time) time.Time {
 // and returns default value if it's not.
 func (k *Key) RangeFloat64(defaultVal, min, max float64) float64 {
 	val, err := k.Float64()
-	if err != nil {
+	if err != nil || val != val {
+		// NaN is in no range
 		return defaultVal
 	}
 	if val < min || val > max {
-- 
2.43.0


From a7413ba570bced9a8d988faea8b5f7ca9ed217a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:46 +0000
Subject: [PATCH 49/69] fix: write values that other quotes cannot hold in
 back-quotes

A value with a newline and three double quotes, one with a leading or
trailing blank and a double quote (or any when surrounding quotes are
preserved), and one with an escape that is removed on load were not read
back unchanged.
---
 file.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 0be8878..39469b7 100644
--- a/file.go
+++ b/file.go
@@ -540,7 +540,9 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				}
 
 				// In case key value contains "\n", "`", "\"", "#" or ";"
-				if strings.ContainsAny(val, "\n`") {
+				if f.needsBackQuotes(val) {
+					val = "`" + val + "`"
+				} else if strings.ContainsAny(val, "\n`") {
 					val = `"""` + val + `"""`
 				} else if !f.options.IgnoreInlineComment && strings.ContainsAny(val, "#;") {
 					val = "`" + val + "`"
@@ -587,6 +589,21 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	return buf, nil
 }
 
+// needsBackQuotes reports whether the value would not be read back unchanged
+// without back-quotes, i.e. plain or in any other kind of quotes.
+func (f *File) needsBackQuotes(val string) bool {
+	switch {
+	case strings.Contains(val, "`"):
+		return false
+	case strings.Contains(val, "\n"):
+		return strings.Contains(val, `"""`)
+	case len(strings.TrimSpace(val)) != len(val):
+		return f.options.PreserveSurroundedQuote || strings.Contains(val, `"`)
+	}
+	return f.options.UnescapeValueDoubleQuotes && strings.Contains(val, `\"`) ||
+		f.options.UnescapeValueCommentSymbols && (strings.Contains(val, `\#`) || strings.Contains(val, `\;`))
+}
+
 // WriteToIndent writes content into io.Writer with given indention.
 // If PrettyFormat has been set to be true,
 // it will align "=" sign with spaces under each section.
-- 
2.43.0


From 60f358941d257b7ab739aeda5cab128b95c2b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:42 +0000
Subject: [PATCH 50/69] fix: take a leading header of the default section for
 the default section

With non-unique sections allowed it created a second default section,
so that a file written with DefaultHeader did not load back.
---
 parser.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index f50bfa5..fd70a40 100644
--- a/parser.go
+++ b/parser.go
@@ -413,6 +413,9 @@ func (f *File) parse(reader io.Reader) (err error) {
 	var line []byte
 	var inUnparseableSection bool
 
+	// Whether nothing but blank lines and comments has been read so far
+	isStart := true
+
 	// NOTE: Iterate and increase `currentPeekSize` until
 	// the size of the parser buffer is found.
 	// TODO(unknwon): When Golang 1.10 is the lowest version supported, replace with `parserBufferSize := p.buf.Size()`.
@@ -480,10 +483,14 @@ func (f *File) parse(reader io.Reader) (err error) {
 			}
 
 			name := string(line[1:closeIdx])
-			section, err = f.loadSection(name)
-			if err != nil {
-				return err
+			// A leading header of the default section is no further one with the same name
+			if !isStart || len(name) == 0 || f.storedName(name) != section.name {
+				section, err = f.loadSection(name)
+				if err != nil {
+					return err
+				}
 			}
+			isStart = false
 
 			comment, has := cleanComment(line[closeIdx+1:])
 			if has {
@@ -509,6 +516,8 @@ func (f *File) parse(reader io.Reader) (err error) {
 			continue
 		}
 
+		isStart = false
+
 		if inUnparseableSection {
 			if section.loadSeq != f.loadSeq {
 				section.loadSeq = f.loadSeq
-- 
2.43.0


From 77c75081702822b101244ed9d40b2ecf8b82413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:11 +0000
Subject: [PATCH 51/69] fix: quote key names that would be read as something
 else

A key name that starts with a comment symbol or '[', or is that of a boolean
key and contains quotes or comment symbols, did not load back.
---
 file.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/file.go b/file.go
index 39469b7..16eba0a 100644
--- a/file.go
+++ b/file.go
@@ -472,14 +472,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		alignLength := 0
 		if PrettyFormat {
 			for _, kname := range sec.keyList {
-				keyLength := len(kname)
-				// First case will surround key by ` and second by """
-				if strings.Contains(kname, "\"") || strings.ContainsAny(kname, f.options.KeyValueDelimiters) {
-					keyLength += 2
-				} else if strings.Contains(kname, "`") {
-					keyLength += 6
-				}
-
+				keyLength := len(kname) + 2*len(f.keyNameQuote(sec.keys[kname]))
 				if keyLength > alignLength {
 					alignLength = keyLength
 				}
@@ -514,13 +507,11 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				buf.WriteString(indent)
 			}
 
-			switch {
-			case key.isAutoIncrement:
+			if key.isAutoIncrement {
 				kname = "-"
-			case strings.Contains(kname, "\"") || strings.ContainsAny(kname, f.options.KeyValueDelimiters):
-				kname = "`" + kname + "`"
-			case strings.Contains(kname, "`"):
-				kname = `"""` + kname + `"""`
+			} else {
+				quote := f.keyNameQuote(key)
+				kname = quote + kname + quote
 			}
 
 			writeKeyValue := func(val string) (bool, error) {
@@ -589,6 +580,27 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	return buf, nil
 }
 
+// keyNameQuote returns the quote that the name of the key has to be surrounded by
+// when it is written, which is empty when the name can be written as it is.
+func (f *File) keyNameQuote(key *Key) string {
+	name := key.name
+	switch {
+	case key.isAutoIncrement:
+		return ""
+	case strings.Contains(name, "\"") || strings.ContainsAny(name, f.options.KeyValueDelimiters):
+		return "`"
+	case strings.Contains(name, "`"):
+		return `"""`
+	case strings.ContainsAny(name[:1], "#;["):
+		// Would be read as a comment or a section
+		return "`"
+	case key.isBooleanType && key.value == "true" && strings.ContainsAny(name, `#;'\`):
+		// The name of a boolean key is read like a value
+		return "`"
+	}
+	return ""
+}
+
 // needsBackQuotes reports whether the value would not be read back unchanged
 // without back-quotes, i.e. plain or in any other kind of quotes.
 func (f *File) needsBackQuotes(val string) bool {
-- 
2.43.0


From f368db72e4de96b8e5fda1aa02825b79d8f29850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 52/69] fix: write an empty default section that is followed by
 another one

With non-unique sections allowed it was lost when the output was loaded.
---
 file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 16eba0a..2f820e0 100644
--- a/file.go
+++ b/file.go
@@ -438,7 +438,10 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			}
 		}
 
-		if i > 0 || DefaultHeader || (i == 0 && strings.ToUpper(sec.name) != DefaultSection) {
+		// A following section with the same name must not be taken for this one
+		isRepeated := i < lastSectionIdx && f.sectionList[i+1] == sname
+
+		if i > 0 || DefaultHeader || strings.ToUpper(sec.name) != DefaultSection || (len(sec.keyList) == 0 && isRepeated) {
 			if _, err := buf.WriteString("[" + sname + "]" + LineBreak); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 4cb474de4e3764cdfcde349825d49e6e45394b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:47 +0000
Subject: [PATCH 53/69] fix: quote values that end with a backslash or are
 surrounded by quotes

A trailing backslash joined the next line when the output was loaded, and
quotes that are part of a value were dropped.
---
 file.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 2f820e0..9c81ec3 100644
--- a/file.go
+++ b/file.go
@@ -615,7 +615,17 @@ func (f *File) needsBackQuotes(val string) bool {
 	case len(strings.TrimSpace(val)) != len(val):
 		return f.options.PreserveSurroundedQuote || strings.Contains(val, `"`)
 	}
-	return f.options.UnescapeValueDoubleQuotes && strings.Contains(val, `\"`) ||
+	switch {
+	case strings.HasSuffix(val, `\`) && !f.options.IgnoreContinuation:
+		return true
+	case strings.HasPrefix(val, `"""`):
+		return true
+	case hasSurroundedQuote(val, '"') || hasSurroundedQuote(val, '\''):
+		if !f.options.PreserveSurroundedQuote {
+			return true
+		}
+	}
+	return f.options.UnescapeValueDoubleQuotes && (strings.Contains(val, `\"`) || strings.HasPrefix(val, `"`)) ||
 		f.options.UnescapeValueCommentSymbols && (strings.Contains(val, `\#`) || strings.Contains(val, `\;`))
 }
 
-- 
2.43.0


From 75948c6a322dda4cd794c5dfc902f7ee529048b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:18 +0000
Subject: [PATCH 54/69] fix: report recursive types instead of mapping them
 without end

Mapping to a type that contains (a pointer to, or a slice of) itself never
ended and exhausted the stack as soon as a section of the field's name existed.
---
 struct.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/struct.go b/struct.go
index 64210c6..e2f96c0 100644
--- a/struct.go
+++ b/struct.go
@@ -298,14 +298,29 @@ func parseTagOptions(tag string) (rawName string, omitEmpty bool, allowShadow bo
 	return rawName, omitEmpty, allowShadow, allowNonUnique, extends
 }
 
+// mapping is a section that is being mapped to a type.
+type mapping struct {
+	sec *Section
+	typ reflect.Type
+}
+
 // mapToField maps the given value to the matching field of the given section.
 // The sectionIndex is the index (if non unique sections are enabled) to which the value should be added.
-func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int, sectionName string) error {
+// The outer are the mappings that this one is a part of.
+func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int, sectionName string, outer ...mapping) error {
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
 	typ := val.Type()
 
+	// A recursive type would be mapped from the same section without end
+	for _, m := range outer {
+		if m.sec == s && m.typ == typ {
+			return fmt.Errorf("section %q is mapped to type %q recursively", s.name, typ)
+		}
+	}
+	outer = append(outer[:len(outer):len(outer)], mapping{s, typ})
+
 	for i := 0; i < typ.NumField(); i++ {
 		field := val.Field(i)
 		tpField := typ.Field(i)
@@ -340,7 +355,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 					fieldSection = secs[sectionIndex]
 				}
 			}
-			if err := fieldSection.mapToField(field, isStrict, sectionIndex, sectionName); err != nil {
+			if err := fieldSection.mapToField(field, isStrict, sectionIndex, sectionName, outer...); err != nil {
 				return fmt.Errorf("map to field %q: %v", fieldName, err)
 			}
 		} else if isAnonymousPtr || isStruct || isStructPtr {
@@ -353,7 +368,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 				if isStructPtr && field.IsNil() {
 					field.Set(reflect.New(tpField.Type.Elem()))
 				}
-				if err = secs[sectionIndex].mapToField(field, isStrict, sectionIndex, fieldName); err != nil {
+				if err = secs[sectionIndex].mapToField(field, isStrict, sectionIndex, fieldName, outer...); err != nil {
 					return fmt.Errorf("map to field %q: %v", fieldName, err)
 				}
 				continue
@@ -365,7 +380,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			if !s.f.HasSection(fieldName) {
 				continue
 			}
-			newField, err := s.mapToSlice(fieldName, field, isStrict)
+			newField, err := s.mapToSlice(fieldName, field, isStrict, outer...)
 			if err != nil {
 				return fmt.Errorf("map to slice %q: %v", fieldName, err)
 			}
@@ -386,7 +401,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 
 // mapToSlice maps all sections with the same name and returns the new value.
 // The type of the Value must be a slice.
-func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (reflect.Value, error) {
+func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool, outer ...mapping) (reflect.Value, error) {
 	secs, err := s.f.SectionsByName(secName)
 	if err != nil {
 		return reflect.Value{}, err
@@ -402,7 +417,7 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 	}
 	for i, sec := range secs {
 		elem := reflect.New(typ)
-		if err = sec.mapToField(elem, isStrict, i, sec.name); err != nil {
+		if err = sec.mapToField(elem, isStrict, i, sec.name, outer...); err != nil {
 			return reflect.Value{}, fmt.Errorf("map to field from section %q: %v", secName, err)
 		}
 
-- 
2.43.0


From f304d560cd2f71b49c4f222f97072bdb5059600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:46 +0000
Subject: [PATCH 55/69] fix: report values that contain themselves instead of
 reflecting them without end

Reflecting a value with a pointer back to itself never ended and exhausted the stack.
---
 struct.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index e2f96c0..c788a75 100644
--- a/struct.go
+++ b/struct.go
@@ -641,7 +641,9 @@ type StructReflector interface {
 	ReflectINIStruct(*File) error
 }
 
-func (s *Section) reflectFrom(val reflect.Value) error {
+// reflectFrom reflects the section from the given value.
+// The outer are the values that this one is a part of.
+func (s *Section) reflectFrom(val reflect.Value, outer ...interface{}) error {
 	if val.Kind() == reflect.Ptr {
 		if val.IsNil() {
 			return nil
@@ -653,6 +655,16 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 	}
 	typ := val.Type()
 
+	// A value that contains itself would be reflected without end
+	if val.CanAddr() {
+		for _, p := range outer {
+			if p == val.Addr().Interface() {
+				return fmt.Errorf("value of type %q contains itself", typ)
+			}
+		}
+		outer = append(outer[:len(outer):len(outer)], val.Addr().Interface())
+	}
+
 	for i := 0; i < typ.NumField(); i++ {
 		if !val.Field(i).CanInterface() {
 			continue
@@ -694,7 +706,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 					sec = child
 				}
 			}
-			if err := sec.reflectFrom(field); err != nil {
+			if err := sec.reflectFrom(field, outer...); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 			}
 			continue
@@ -720,7 +732,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 				sec.Comment = tpField.Tag.Get("comment")
 			}
 
-			if err = sec.reflectFrom(field); err != nil {
+			if err = sec.reflectFrom(field, outer...); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 			}
 			continue
@@ -748,7 +760,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 					sec.Comment = tpField.Tag.Get("comment")
 				}
 
-				if err := sec.reflectFrom(slice.Index(i)); err != nil {
+				if err := sec.reflectFrom(slice.Index(i), outer...); err != nil {
 					return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 				}
 			}
-- 
2.43.0


From d4a72b2e5f7a2b4442e3962d976ef17c13a18b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:26 +0000
Subject: [PATCH 56/69] fix: clear the key of a nil pointer that is reflected

The key kept the value that it had before, so that mapping the file back
set the pointer instead of leaving it nil.
---
 struct.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/struct.go b/struct.go
index c788a75..9003286 100644
--- a/struct.go
+++ b/struct.go
@@ -606,6 +606,8 @@ func reflectWithProperType(t reflect.Type, key *Key, field reflect.Value, delim
 		if !field.IsNil() {
 			return reflectWithProperType(t.Elem(), key, field.Elem(), delim, allowShadow)
 		}
+		// Do not keep the value of what was there before
+		key.SetValue("")
 	default:
 		return fmt.Errorf("unsupported type %q", t)
 	}
-- 
2.43.0


From fb02fc5efcf8451f89dc9fceee704924bb312587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:28 +0000
Subject: [PATCH 57/69] fix: reflect the parts of non-unique sections into
 their own sections

A struct inside the elements of a non-unique slice was reflected into the
first section of its name for every element, while mapping reads the one
with the index of the element.
---
 struct.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/struct.go b/struct.go
index 9003286..7b9abb5 100644
--- a/struct.go
+++ b/struct.go
@@ -644,8 +644,9 @@ type StructReflector interface {
 }
 
 // reflectFrom reflects the section from the given value.
+// The sectionIndex is the index (if non unique sections are enabled) of the sections for the value.
 // The outer are the values that this one is a part of.
-func (s *Section) reflectFrom(val reflect.Value, outer ...interface{}) error {
+func (s *Section) reflectFrom(val reflect.Value, sectionIndex int, outer ...interface{}) error {
 	if val.Kind() == reflect.Ptr {
 		if val.IsNil() {
 			return nil
@@ -704,11 +705,11 @@ func (s *Section) reflectFrom(val reflect.Value, outer ...interface{}) error {
 			// Use the section that mapping reads
 			sec := s
 			if rawName != "" {
-				if child, err := s.f.GetSection(s.name + s.f.options.ChildSectionDelimiter + rawName); err == nil {
-					sec = child
+				if secs, err := s.f.SectionsByName(s.name + s.f.options.ChildSectionDelimiter + rawName); err == nil && sectionIndex < len(secs) {
+					sec = secs[sectionIndex]
 				}
 			}
-			if err := sec.reflectFrom(field, outer...); err != nil {
+			if err := sec.reflectFrom(field, sectionIndex, outer...); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 			}
 			continue
@@ -723,8 +724,11 @@ func (s *Section) reflectFrom(val reflect.Value, outer ...interface{}) error {
 				continue
 			}
 			// Note: The only error here is section doesn't exist.
-			sec, err := s.f.GetSection(fieldName)
-			if err != nil {
+			var sec *Section
+			secs, err := s.f.SectionsByName(fieldName)
+			if err == nil && sectionIndex < len(secs) {
+				sec = secs[sectionIndex]
+			} else {
 				// Note: fieldName can never be empty here, ignore error.
 				sec, _ = s.f.NewSection(fieldName)
 			}
@@ -734,7 +738,7 @@ func (s *Section) reflectFrom(val reflect.Value, outer ...interface{}) error {
 				sec.Comment = tpField.Tag.Get("comment")
 			}
 
-			if err = sec.reflectFrom(field, outer...); err != nil {
+			if err = sec.reflectFrom(field, sectionIndex, outer...); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 			}
 			continue
@@ -762,7 +766,8 @@ func (s *Section) reflectFrom(val reflect.Value, outer ...interface{}) error {
 					sec.Comment = tpField.Tag.Get("comment")
 				}
 
-				if err := sec.reflectFrom(slice.Index(i), outer...); err != nil {
+				secs, _ := s.f.SectionsByName(fieldName)
+				if err := sec.reflectFrom(slice.Index(i), len(secs)-1, outer...); err != nil {
 					return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 				}
 			}
@@ -808,7 +813,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 			if err != nil {
 				return err
 			}
-			return sec.reflectFrom(val.Elem())
+			return sec.reflectFrom(val.Elem(), 0)
 		}
 
 		slice := val.Slice(0, val.Len())
@@ -823,7 +828,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 				return err
 			}
 
-			err = sec.reflectFrom(slice.Index(i))
+			err = sec.reflectFrom(slice.Index(i), i)
 			if err != nil {
 				return fmt.Errorf("reflect from %dth field: %v", i, err)
 			}
@@ -838,7 +843,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		return errors.New("not a pointer to a struct")
 	}
 
-	return s.reflectFrom(val)
+	return s.reflectFrom(val, 0)
 }
 
 // ReflectFrom reflects file from given struct.
-- 
2.43.0


From ebea72cb4b315f7e33ca794e8decc3b708adc566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:10 +0000
Subject: [PATCH 58/69] fix: overwrite the shadows of a key that a scalar is
 reflected to

The old shadow values stayed behind the new value, and took its place
when an empty value was written and loaded again.
---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 7b9abb5..7873ca9 100644
--- a/struct.go
+++ b/struct.go
@@ -522,7 +522,6 @@ func StrictMapTo(v, source interface{}, others ...interface{}) error {
 // reflectSliceWithProperType does the opposite thing as setSliceWithProperType.
 func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow bool) error {
 	slice := field.Slice(0, field.Len())
-	key.shadows = nil
 	if field.Len() == 0 {
 		key.SetValue("")
 		return nil
@@ -587,6 +586,7 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 
 // reflectWithProperType does the opposite thing as setWithProperType.
 func reflectWithProperType(t reflect.Type, key *Key, field reflect.Value, delim string, allowShadow bool) error {
+	key.shadows = nil
 	switch t.Kind() {
 	case reflect.String:
 		key.SetValue(field.String())
-- 
2.43.0


From 334b984a83d30b233380287b6f9de7aeba367377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 59/69] fix: report structs that cannot be reflected to a key
 instead of panicking

A slice of structs without the nonunique option, or a pointer to a pointer
to a struct, made reflecting panic.
---
 struct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/struct.go b/struct.go
index 7873ca9..81c1cad 100644
--- a/struct.go
+++ b/struct.go
@@ -527,6 +527,9 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 		return nil
 	}
 	sliceOf := field.Type().Elem().Kind()
+	if sliceOf == reflectTime && !field.Type().Elem().ConvertibleTo(timeType) {
+		return fmt.Errorf("unsupported type %q", field.Type())
+	}
 
 	if allowShadow && key.s.f.options.AllowShadows {
 		var keyWithShadows *Key
@@ -599,6 +602,9 @@ func reflectWithProperType(t reflect.Type, key *Key, field reflect.Value, delim
 	case reflect.Float32, reflect.Float64:
 		key.SetValue(fmt.Sprint(field.Float()))
 	case reflectTime:
+		if !t.ConvertibleTo(timeType) {
+			return fmt.Errorf("unsupported type %q", t)
+		}
 		key.SetValue(fmt.Sprint(field.Convert(timeType).Interface().(time.Time).Format(time.RFC3339)))
 	case reflect.Slice:
 		return reflectSliceWithProperType(key, field, delim, allowShadow)
-- 
2.43.0


From be38a613191f813ba4fd7b3ecfd14a133ffd79da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:54 +0000
Subject: [PATCH 60/69] fix: create raw sections and boolean keys atomically

The fields that make a section raw or a key boolean were set without, or
under a second acquisition of, the lock, so that two goroutines raced.
---
 file.go    | 23 ++++++++++++++---------
 section.go | 25 +++++++++++++------------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/file.go b/file.go
index 9c81ec3..fc0ecf8 100644
--- a/file.go
+++ b/file.go
@@ -87,6 +87,12 @@ func Empty(opts ...LoadOptions) *File {
 
 // NewSection creates a new section.
 func (f *File) NewSection(name string) (*Section, error) {
+	return f.createSection(name, func(*Section) {})
+}
+
+// createSection creates a new section, or takes the existing one, and sets it up
+// as a part of the same atomic operation.
+func (f *File) createSection(name string, setup func(*Section)) (*Section, error) {
 	if len(name) == 0 {
 		return nil, errors.New("empty section name")
 	}
@@ -101,10 +107,13 @@ func (f *File) NewSection(name string) (*Section, error) {
 	}
 
 	if !f.options.AllowNonUniqueSections && inSlice(name, f.sectionList) {
+		setup(f.sections[name][0])
 		return f.sections[name][0], nil
 	}
 
-	return f.addSection(name), nil
+	section := f.addSection(name)
+	setup(section)
+	return section, nil
 }
 
 // addSection adds a new section. The lock must be held by the caller.
@@ -144,14 +153,10 @@ func (f *File) loadSection(name string) (*Section, error) {
 
 // NewRawSection creates a new section with an unparseable body.
 func (f *File) NewRawSection(name, body string) (*Section, error) {
-	section, err := f.NewSection(name)
-	if err != nil {
-		return nil, err
-	}
-
-	section.isRawSection = true
-	section.rawBody = body
-	return section, nil
+	return f.createSection(name, func(section *Section) {
+		section.isRawSection = true
+		section.rawBody = body
+	})
 }
 
 // NewSections creates a list of sections.
diff --git a/section.go b/section.go
index f653142..37a6cf2 100644
--- a/section.go
+++ b/section.go
@@ -66,6 +66,12 @@ func (s *Section) SetBody(body string) {
 
 // NewKey creates a new key to given section.
 func (s *Section) NewKey(name, val string) (*Key, error) {
+	return s.createKey(name, val, func(*Key) {})
+}
+
+// createKey creates a new key, or assigns the value to the existing one, and sets
+// it up as a part of the same atomic operation.
+func (s *Section) createKey(name, val string, setup func(*Key)) (*Key, error) {
 	if len(name) == 0 {
 		return nil, errors.New("error creating new key: empty key name")
 	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
@@ -86,10 +92,13 @@ func (s *Section) NewKey(name, val string) (*Key, error) {
 			s.keys[name].value = val
 			s.keysHash[name] = val
 		}
+		setup(s.keys[name])
 		return s.keys[name], nil
 	}
 
-	return s.addKey(name, val), nil
+	key := s.addKey(name, val)
+	setup(key)
+	return key, nil
 }
 
 // loadKey assigns a value to a key on behalf of the current load. It reports
@@ -141,17 +150,9 @@ func (s *Section) addKey(name, val string) *Key {
 
 // NewBooleanKey creates a new boolean type key to given section.
 func (s *Section) NewBooleanKey(name string) (*Key, error) {
-	key, err := s.NewKey(name, "true")
-	if err != nil {
-		return nil, err
-	}
-
-	if s.f.BlockMode {
-		s.f.lock.Lock()
-		defer s.f.lock.Unlock()
-	}
-	key.isBooleanType = true
-	return key, nil
+	return s.createKey(name, "true", func(key *Key) {
+		key.isBooleanType = true
+	})
 }
 
 // GetKey returns key in section by given name.
-- 
2.43.0


From d3bfef75b3c04173e60c983f345abd3accbbd7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 61/69] fix: write all values of a boolean key with shadows or
 nested values

---
 file.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/file.go b/file.go
index fc0ecf8..d74c950 100644
--- a/file.go
+++ b/file.go
@@ -488,7 +488,6 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		}
 		alignSpaces := bytes.Repeat([]byte(" "), alignLength)
 
-	KeyList:
 		for _, kname := range sec.keyList {
 			key := sec.Key(kname)
 			if len(key.Comment) > 0 {
@@ -522,15 +521,15 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				kname = quote + kname + quote
 			}
 
-			writeKeyValue := func(val string) (bool, error) {
+			writeKeyValue := func(val string, isLast bool) error {
 				if _, err := buf.WriteString(kname); err != nil {
-					return false, err
+					return err
 				}
 
 				// A boolean key has no value unless it has been given another one
-				if key.isBooleanType && val == "true" {
+				if key.isBooleanType && val == "true" && isLast {
 					buf.WriteString(LineBreak)
-					return true, nil
+					return nil
 				}
 
 				// Write out alignment spaces before "=" sign
@@ -549,24 +548,21 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 					val = `"` + val + `"`
 				}
 				if _, err := buf.WriteString(equalSign + val + LineBreak); err != nil {
-					return false, err
+					return err
 				}
-				return false, nil
+				return nil
 			}
 
 			shadows := key.ValueWithShadows()
 			if len(shadows) == 0 {
-				if _, err := writeKeyValue(""); err != nil {
+				if err := writeKeyValue("", true); err != nil {
 					return nil, err
 				}
 			}
 
-			for _, val := range shadows {
-				exitLoop, err := writeKeyValue(val)
-				if err != nil {
+			for i, val := range shadows {
+				if err := writeKeyValue(val, i == len(shadows)-1); err != nil {
 					return nil, err
-				} else if exitLoop {
-					continue KeyList
 				}
 			}
 
@@ -602,7 +598,7 @@ func (f *File) keyNameQuote(key *Key) string {
 	case strings.ContainsAny(name[:1], "#;["):
 		// Would be read as a comment or a section
 		return "`"
-	case key.isBooleanType && key.value == "true" && strings.ContainsAny(name, `#;'\`):
+	case key.isBooleanType && strings.ContainsAny(name, `#;'\`):
 		// The name of a boolean key is read like a value
 		return "`"
 	}
-- 
2.43.0


From f03ca3ea8cd5fd1efcdcb5f6621e2e7e6715194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 62/69] fix: write auto-increment keys by name when they would
 be numbered differently

---
 file.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/file.go b/file.go
index d74c950..27dafb6 100644
--- a/file.go
+++ b/file.go
@@ -21,6 +21,7 @@ import (
 	"io"
 	"io/ioutil"
 	"os"
+	"strconv"
 	"strings"
 	"sync"
 )
@@ -474,13 +475,18 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			continue
 		}
 
+		autoIncrements := sec.autoIncrements()
+
 		// Count and generate alignment length and buffer spaces using the
 		// longest key. Keys may be modified if they contain certain characters so
 		// we need to take that into account in our calculation.
 		alignLength := 0
 		if PrettyFormat {
 			for _, kname := range sec.keyList {
-				keyLength := len(kname) + 2*len(f.keyNameQuote(sec.keys[kname]))
+				keyLength := len(kname)
+				if !autoIncrements[kname] {
+					keyLength += 2 * len(f.keyNameQuote(sec.keys[kname]))
+				}
 				if keyLength > alignLength {
 					alignLength = keyLength
 				}
@@ -514,7 +520,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				buf.WriteString(indent)
 			}
 
-			if key.isAutoIncrement {
+			if autoIncrements[kname] {
 				kname = "-"
 			} else {
 				quote := f.keyNameQuote(key)
@@ -584,13 +590,24 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	return buf, nil
 }
 
+// autoIncrements returns the names of the keys that are written as "-", which are
+// the auto-increment keys that are given the same name again when they are read.
+func (s *Section) autoIncrements() map[string]bool {
+	names := make(map[string]bool)
+	for _, kname := range s.keyList {
+		key := s.keys[kname]
+		if key.isAutoIncrement && !key.isBooleanType && len(key.shadows) == 0 && kname == "#"+strconv.Itoa(len(names)+1) {
+			names[kname] = true
+		}
+	}
+	return names
+}
+
 // keyNameQuote returns the quote that the name of the key has to be surrounded by
 // when it is written, which is empty when the name can be written as it is.
 func (f *File) keyNameQuote(key *Key) string {
 	name := key.name
 	switch {
-	case key.isAutoIncrement:
-		return ""
 	case strings.Contains(name, "\"") || strings.ContainsAny(name, f.options.KeyValueDelimiters):
 		return "`"
 	case strings.Contains(name, "`"):
-- 
2.43.0


From ac1e1b303e1b341d5e2ed7638dc5b0ae1cc10fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 63/69] fix: keep the comment of a key that a boolean key
 without comment is a shadow of

---
 parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index fd70a40..8414d23 100644
--- a/parser.go
+++ b/parser.go
@@ -539,12 +539,14 @@ func (f *File) parse(reader io.Reader) (err error) {
 					if err != nil {
 						return err
 					}
-					key, _, err := section.loadKey(kname, "true")
+					key, first, err := section.loadKey(kname, "true")
 					if err != nil {
 						return err
 					}
 					key.isBooleanType = true
-					key.Comment = strings.TrimSpace(p.comment.String())
+					if p.comment.Len() > 0 || first || !f.options.AllowShadows {
+						key.Comment = strings.TrimSpace(p.comment.String())
+					}
 					p.comment.Reset()
 					continue
 
-- 
2.43.0


From cbc06566c190332cbf8ed803fb18c45fc8f904c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 64/69] fix: quote key names that start with a byte order mark
 when writing

---
 file.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/file.go b/file.go
index 27dafb6..f16b496 100644
--- a/file.go
+++ b/file.go
@@ -615,6 +615,9 @@ func (f *File) keyNameQuote(key *Key) string {
 	case strings.ContainsAny(name[:1], "#;["):
 		// Would be read as a comment or a section
 		return "`"
+	case strings.HasPrefix(name, "\xef\xbb\xbf") || strings.HasPrefix(name, "\xfe\xff") || strings.HasPrefix(name, "\xff\xfe"):
+		// Would be skipped as a byte order mark at the start of the file
+		return "`"
 	case key.isBooleanType && strings.ContainsAny(name, `#;'\`):
 		// The name of a boolean key is read like a value
 		return "`"
-- 
2.43.0


From 09ce37986a141459c6778fc5c333f25456f88336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 65/69] fix: do not set an extending field to the key of its
 name as well

---
 struct.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/struct.go b/struct.go
index 81c1cad..e588e8a 100644
--- a/struct.go
+++ b/struct.go
@@ -358,6 +358,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			if err := fieldSection.mapToField(field, isStrict, sectionIndex, sectionName, outer...); err != nil {
 				return fmt.Errorf("map to field %q: %v", fieldName, err)
 			}
+			continue
 		} else if isAnonymousPtr || isStruct || isStructPtr {
 			if secs, err := s.f.SectionsByName(fieldName); err == nil {
 				if len(secs) <= sectionIndex {
-- 
2.43.0


From ae28094a0bbeb1ca5a9fe4888f935b23bc93df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 66/69] fix: do not quote the name of a boolean key that was
 given a value

---
 file.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index f16b496..ab02bb6 100644
--- a/file.go
+++ b/file.go
@@ -618,13 +618,22 @@ func (f *File) keyNameQuote(key *Key) string {
 	case strings.HasPrefix(name, "\xef\xbb\xbf") || strings.HasPrefix(name, "\xfe\xff") || strings.HasPrefix(name, "\xff\xfe"):
 		// Would be skipped as a byte order mark at the start of the file
 		return "`"
-	case key.isBooleanType && strings.ContainsAny(name, `#;'\`):
+	case strings.ContainsAny(name, `#;'\`) && writtenAsBoolean(key):
 		// The name of a boolean key is read like a value
 		return "`"
 	}
 	return ""
 }
 
+// writtenAsBoolean reports whether the last line of the key has no value.
+func writtenAsBoolean(key *Key) bool {
+	if !key.isBooleanType {
+		return false
+	}
+	vals := key.ValueWithShadows()
+	return len(vals) > 0 && vals[len(vals)-1] == "true"
+}
+
 // needsBackQuotes reports whether the value would not be read back unchanged
 // without back-quotes, i.e. plain or in any other kind of quotes.
 func (f *File) needsBackQuotes(val string) bool {
-- 
2.43.0


From 69285223bfa265028ba6cbffb557a90317441caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:07 +0000
Subject: [PATCH 67/69] fix: write every line of a comment as comment, whatever
 the line break written

---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index ab02bb6..3367b02 100644
--- a/file.go
+++ b/file.go
@@ -430,7 +430,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		sec := f.SectionWithIndex(sname, f.sectionIndexes[i])
 		if len(sec.Comment) > 0 {
 			// Support multiline comments
-			lines := strings.Split(sec.Comment, LineBreak)
+			lines := strings.Split(strings.ReplaceAll(sec.Comment, LineBreak, "\n"), "\n")
 			for i := range lines {
 				if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 					lines[i] = "; " + lines[i]
@@ -502,7 +502,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				}
 
 				// Support multiline comments
-				lines := strings.Split(key.Comment, LineBreak)
+				lines := strings.Split(strings.ReplaceAll(key.Comment, LineBreak, "\n"), "\n")
 				for i := range lines {
 					if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 						lines[i] = "; " + strings.TrimSpace(lines[i])
-- 
2.43.0


From 4d00b016a69c2a9f3860e0f7a6f1b314ee54c789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 68/69] fix: keep the default section when reflecting into it,
 also if it is named in lower case

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index e588e8a..edb6fc7 100644
--- a/struct.go
+++ b/struct.go
@@ -810,7 +810,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		return errors.New("not a pointer to a struct")
 	}
 
-	if s.name != DefaultSection && s.f.options.AllowNonUniqueSections &&
+	if s.name != s.f.storedName("") && s.f.options.AllowNonUniqueSections &&
 		(typ.Kind() == reflect.Slice || typ.Kind() == reflect.Ptr) {
 		// Clear sections to make sure none exists before adding the new ones
 		s.f.DeleteSection(s.name)
-- 
2.43.0


From bac4fe16e3b9ea7fd2ac1813acf258c517488819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 69/69] fix: write the body of a default section that is
 unparseable

---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 3367b02..eb5205a 100644
--- a/file.go
+++ b/file.go
@@ -447,7 +447,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		// A following section with the same name must not be taken for this one
 		isRepeated := i < lastSectionIdx && f.sectionList[i+1] == sname
 
-		if i > 0 || DefaultHeader || strings.ToUpper(sec.name) != DefaultSection || (len(sec.keyList) == 0 && isRepeated) {
+		if i > 0 || DefaultHeader || strings.ToUpper(sec.name) != DefaultSection || sec.isRawSection || (len(sec.keyList) == 0 && isRepeated) {
 			if _, err := buf.WriteString("[" + sname + "]" + LineBreak); err != nil {
 				return nil, err
 			}
-- 
2.43.0

