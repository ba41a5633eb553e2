From 78af737a3e660287f7dad8acf6c0d9cb51a756fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 01/24] fix: MatchStandaloneJSON must not modify the Config it
 is called on

Defaulting the extension on the shared receiver moved the snapshots of every
later call made through the same Config and raced with concurrent ones.
---
 snaps/matchStandaloneJSON.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/snaps/matchStandaloneJSON.go b/snaps/matchStandaloneJSON.go
index 701e81b..65f99ab 100644
--- a/snaps/matchStandaloneJSON.go
+++ b/snaps/matchStandaloneJSON.go
@@ -12,11 +12,13 @@ import (
 func (c *Config) MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
 	t.Helper()
 
-	if c.extension == "" {
-		c.extension = ".json"
+	// work on a copy, the same config can be used for other Match* calls
+	cfg := *c
+	if cfg.extension == "" {
+		cfg.extension = ".json"
 	}
 
-	matchStandaloneJSON(c, t, input, matchers...)
+	matchStandaloneJSON(&cfg, t, input, matchers...)
 }
 
 func MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
-- 
2.43.0


From c71d32124fdf9ba1a4c8c4a87fd89e1b9f95ef21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 02/24] fix: JSON matchers must not overwrite the caller's
 bytes

sjson replaces values in place, so the []byte input of MatchJSON and
MatchStandaloneJSON was modified by matchers. Work on a copy.
---
 snaps/matchJSON.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snaps/matchJSON.go b/snaps/matchJSON.go
index 3a40860..655cf0e 100644
--- a/snaps/matchJSON.go
+++ b/snaps/matchJSON.go
@@ -1,6 +1,7 @@
 package snaps
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -153,7 +154,8 @@ func validateJSON(input any) ([]byte, error) {
 			return nil, errInvalidJSON
 		}
 
-		return j, nil
+		// matchers replace values in place, don't let them modify the caller's bytes
+		return bytes.Clone(j), nil
 	default:
 		return json.Marshal(input)
 	}
-- 
2.43.0


From c3c031483eaaf8d3e9068b7af59ccc423db69d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:55 +0000
Subject: [PATCH 03/24] fix: report single line changes between invalid UTF-8
 bytes

The highlighted diff compares runes, so two lines that differ only in bytes
that are not valid UTF-8 had an empty report and the test passed.
---
 snaps/diff.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/snaps/diff.go b/snaps/diff.go
index 19304e1..91594d9 100644
--- a/snaps/diff.go
+++ b/snaps/diff.go
@@ -155,7 +155,15 @@ func singlelineDiff(expected, received string) (string, int, int) {
 		dmp.DiffMain(expected, received, false),
 	)
 	if len(diffs) == 1 && diffs[0].Type == diffEqual {
-		return "", -1, -1
+		if expected == received {
+			return "", -1, -1
+		}
+
+		// diffs are on runes, bytes that are not valid UTF-8 all look the same
+		diffs = []diffmatchpatch.Diff{
+			{Type: diffDelete, Text: expected},
+			{Type: diffInsert, Text: received},
+		}
 	}
 
 	var inserted, deleted int
-- 
2.43.0


From c34a96524fd50b11820042a0ab40b72f0f2b6299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:55 +0000
Subject: [PATCH 04/24] fix: serialise adding a snapshot with rewrites of the
 same file

updateSnapshot dumps the whole file, an entry appended by a parallel test
between its read and its write was lost.
---
 snaps/snapshot.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index ee63b2c..9ae768a 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -245,6 +245,10 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 }
 
 func addNewSnapshot(testID, snapshot, snapPath string) error {
+	// a snapshot added while updateSnapshot rewrites the file would be lost
+	_m.Lock()
+	defer _m.Unlock()
+
 	if err := os.MkdirAll(filepath.Dir(snapPath), os.ModePerm); err != nil {
 		return err
 	}
-- 
2.43.0


From cba8f086f7069784de7785c9e4c8f50518401831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:55 +0000
Subject: [PATCH 05/24] fix: keep '%' in the path of standalone snapshots

The path was used as a format for the occurrence, a '%' in the test name, the
directory, the filename or the extension garbled it.
---
 snaps/snapshot.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 9ae768a..b2c8019 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -354,16 +354,22 @@ func getPrevStandaloneSnapshot(snapPath string) (string, error) {
 func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 	//  skips current func, the wrapper match* and the exported Match* func
 	callerFilename := baseCaller(3)
+	callerDir := filepath.Dir(callerFilename)
 
 	dir := c.snapsDir
 	if !filepath.IsAbs(dir) && !isTrimBathBuild {
-		dir = filepath.Join(filepath.Dir(callerFilename), c.snapsDir)
+		dir = filepath.Join(callerDir, c.snapsDir)
+	}
+
+	if isStandalone {
+		// the standalone path is a format, only the verb for the occurrence is expanded
+		dir, callerDir = escapeFormat(dir), escapeFormat(callerDir)
 	}
 
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
 	snapPathRel := snapPath
 	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(filepath.Dir(callerFilename), snapPath)
+		snapPathRel, _ = filepath.Rel(callerDir, snapPath)
 	}
 
 	return snapPath, snapPathRel
@@ -381,11 +387,15 @@ func constructFilename(c *Config, callerFilename, tName string, isStandalone boo
 	}
 
 	if isStandalone {
-		filename += "_%d"
+		return escapeFormat(filename) + "_%d" + snapsExt + escapeFormat(c.extension)
 	}
-	filename += snapsExt + c.extension
 
-	return filename
+	return filename + snapsExt + c.extension
+}
+
+// escapeFormat escapes s so it's printed as is when used as a format.
+func escapeFormat(s string) string {
+	return strings.ReplaceAll(s, "%", "%%")
 }
 
 func unescapeEndChars(s string) string {
-- 
2.43.0


From 0df53e5902c004a23b9b962c71d470563c87357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:16 +0000
Subject: [PATCH 06/24] fix: don't mistake a line of a snapshot for the header
 of another one

A snapshot containing a line like `[TestName - 2]` was read, or rewritten, as
if it was the second snapshot of TestName.
---
 snaps/snapshot.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index b2c8019..d35d955 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -216,12 +216,14 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 
 	lineNumber := 1
 	tid := []byte(testID)
+	insideSnapshot := false
 
 	s := snapshotScanner(bytes.NewReader(f))
 	for s.Scan() {
 		l := s.Bytes()
-		if !bytes.Equal(l, tid) {
+		if insideSnapshot || !bytes.Equal(l, tid) {
 			lineNumber++
+			insideSnapshot = isSnapshotLine(l, insideSnapshot)
 			continue
 		}
 		var snapshot strings.Builder
@@ -275,6 +277,7 @@ func updateSnapshot(testID, snapshot, snapPath string) error {
 	defer f.Close()
 
 	tid := []byte(testID)
+	insideSnapshot := false
 	var updatedSnapFile bytes.Buffer
 	i, err := f.Stat()
 	if err == nil {
@@ -286,7 +289,8 @@ func updateSnapshot(testID, snapshot, snapPath string) error {
 		b := s.Bytes()
 		updatedSnapFile.Write(b)
 		updatedSnapFile.WriteByte('\n')
-		if !bytes.Equal(b, tid) {
+		if insideSnapshot || !bytes.Equal(b, tid) {
+			insideSnapshot = isSnapshotLine(b, insideSnapshot)
 			continue
 		}
 
@@ -306,6 +310,16 @@ func updateSnapshot(testID, snapshot, snapPath string) error {
 	return overwriteFile(f, updatedSnapFile.Bytes())
 }
 
+// isSnapshotLine reports whether the line following l belongs to the text of a snapshot.
+// There a line that looks like a testID is part of the snapshot and not the start of another one.
+func isSnapshotLine(l []byte, insideSnapshot bool) bool {
+	if insideSnapshot {
+		return !bytes.Equal(l, endSequenceByteSlice)
+	}
+
+	return len(l) > 1 && l[0] == '[' && l[len(l)-1] == ']'
+}
+
 func overwriteFile(f *os.File, b []byte) error {
 	f.Truncate(0)
 	f.Seek(0, io.SeekStart)
-- 
2.43.0


From d79bfc2edffa27ac28f6417e9039a52ace6ec4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 07/24] fix: store text that looks like the escaped terminator
 unambiguously

A line `/-/-/-/` and a line `---` were stored and compared as the same text, so
changing one into the other passed.
---
 snaps/snapshot.go | 17 +++++++++++++++--
 snaps/utils.go    |  2 ++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index d35d955..a8ff7e5 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -412,21 +412,34 @@ func escapeFormat(s string) string {
 	return strings.ReplaceAll(s, "%", "%%")
 }
 
+// isEscapedLine reports whether s is what escapeEndChars turns a line into, the escaped end
+// sequence followed by zero or more '/'.
+func isEscapedLine(s string) bool {
+	return strings.HasPrefix(s, escapedEndSequence) &&
+		strings.Trim(s[len(escapedEndSequence):], "/") == ""
+}
+
 func unescapeEndChars(s string) string {
 	ss := strings.Split(s, "\n")
 	for idx, s := range ss {
-		if s == "/-/-/-/" {
+		if s == escapedEndSequence {
 			ss[idx] = endSequence
+		} else if isEscapedLine(s) {
+			ss[idx] = s[:len(s)-1]
 		}
 	}
 	return strings.Join(ss, "\n")
 }
 
+// escapeEndChars escapes the lines equal to the end sequence. Lines that already look escaped
+// get one more '/' so that different snapshots are never stored as the same text.
 func escapeEndChars(s string) string {
 	ss := strings.Split(s, "\n")
 	for idx, s := range ss {
 		if s == endSequence {
-			ss[idx] = "/-/-/-/"
+			ss[idx] = escapedEndSequence
+		} else if isEscapedLine(s) {
+			ss[idx] = s + "/"
 		}
 	}
 	return strings.Join(ss, "\n")
diff --git a/snaps/utils.go b/snaps/utils.go
index 7c441ca..3c9a8da 100644
--- a/snaps/utils.go
+++ b/snaps/utils.go
@@ -39,6 +39,8 @@ const (
 
 	snapsExt    = ".snap"
 	endSequence = "---"
+	// how a line equal to endSequence is stored inside a snapshot
+	escapedEndSequence = "/-/-/-/"
 )
 
 type (
-- 
2.43.0


From 6bef79f80cc9cf1fb460cf1114c55af13422db7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:53 +0000
Subject: [PATCH 08/24] fix: sorting must not remove obsolete snapshots

Clean with Sort dropped obsolete snapshots from the files it sorted, also when
removing them was not requested.
---
 snaps/clean.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 73761d1..2f24c1d 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -251,8 +251,10 @@ func examineSnaps(
 				obsoleteTests = append(obsoleteTests, testID)
 				hasDiffs = true
 
-				removeSnapshot(s)
-				continue
+				if update {
+					removeSnapshot(s)
+					continue
+				}
 			}
 
 			for s.Scan() {
-- 
2.43.0


From 579abb44f643d082d5775fa621cf7879580a097b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 09/24] fix: Clean must not drop the snapshots of fuzz tests
 and benchmarks

Entries of names that don't start with Test were not recognised and got lost when
a file was rewritten.
---
 snaps/clean.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 2f24c1d..84bcded 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -117,14 +117,14 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	}
 }
 
-// getTestID will return the testID if the line is in the form of [Test... - number]
+// getTestID will return the testID if the line is in the form of [<test name> - number]
 func getTestID(b []byte) (string, bool) {
 	if len(b) == 0 {
 		return "", false
 	}
 
-	// needs to start with [Test and end with ]
-	if !bytes.HasPrefix(b, []byte("[Test")) || b[len(b)-1] != ']' {
+	// needs to start with [ and end with ], not only tests have snapshots e.g. FuzzXxx
+	if b[0] != '[' || b[len(b)-1] != ']' {
 		return "", false
 	}
 
-- 
2.43.0


From 6bc560c1f564a25350c91dec17f667bb6e839a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:49 +0000
Subject: [PATCH 10/24] fix: Clean must not mix up snapshots with the same id

When a file held the same id twice a rewrite stored the last one for both, the
one tests are compared with was lost.
---
 snaps/clean.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 84bcded..acc69c5 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -223,7 +223,7 @@ func examineSnaps(
 	sort bool,
 ) ([]string, error) {
 	obsoleteTests := []string{}
-	tests := map[string]string{}
+	tests := map[string][]string{}
 	data := bytes.Buffer{}
 	testIDs := []string{}
 
@@ -261,7 +261,7 @@ func examineSnaps(
 				line := s.Bytes()
 
 				if bytes.Equal(line, endSequenceByteSlice) {
-					tests[testID] = data.String()
+					tests[testID] = append(tests[testID], data.String())
 
 					data.Reset()
 					break
@@ -300,12 +300,12 @@ func examineSnaps(
 		}
 
 		for _, id := range testIDs {
-			test, ok := tests[id]
-			if !ok {
+			if len(tests[id]) == 0 {
 				continue
 			}
 
-			fmt.Fprintf(f, "\n[%s]\n%s%s\n", id, test, endSequence)
+			fmt.Fprintf(f, "\n[%s]\n%s%s\n", id, tests[id][0], endSequence)
+			tests[id] = tests[id][1:]
 		}
 		f.Close()
 
-- 
2.43.0


From 02235c6410e354fc42150881d0ea694d746b5ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 11/24] fix: Clean must keep snapshots of tests that differ
 between executions

The number of snapshots of a test was the number of all its calls divided by
-count. When a test made fewer calls in one of its executions, or didn't run in
some of them, snapshots that were matched got removed.
---
 snaps/clean.go    | 11 ++++++-----
 snaps/snapshot.go |  9 +++++++++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index acc69c5..2f48589 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
-	"strconv"
 	"strings"
 	"sync"
 	"testing"
@@ -80,21 +79,23 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	// This is just for making sure Clean is called from TestMain
 	_ = m
 	runOnly := flag.Lookup("test.run").Value.String()
-	count, _ := strconv.Atoi(flag.Lookup("test.count").Value.String())
+	// the registries keep the highest occurrence of a single execution of a test, no matter
+	// how many times (-count) or how differently each time it was executed
+	const count = 1
 	registeredStandaloneTests := occurrences(
-		standaloneTestsRegistry.cleanup,
+		standaloneTestsRegistry.highest,
 		count,
 		standaloneOccurrenceFMT,
 	)
 
 	obsoleteFiles, usedFiles := examineFiles(
-		testsRegistry.cleanup,
+		testsRegistry.highest,
 		registeredStandaloneTests,
 		runOnly,
 		shouldClean && !isCI,
 	)
 	obsoleteTests, err := examineSnaps(
-		testsRegistry.cleanup,
+		testsRegistry.highest,
 		usedFiles,
 		runOnly,
 		count,
diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index a8ff7e5..35e65f2 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -134,6 +134,8 @@ func handleError(t testingT, err any) {
 type syncRegistry struct {
 	running map[string]map[string]int
 	cleanup map[string]map[string]int
+	// highest occurrence of each test, in any of its executions
+	highest map[string]map[string]int
 	sync.Mutex
 }
 
@@ -145,11 +147,13 @@ func (s *syncRegistry) getTestID(snapPath, testName string) string {
 	if _, exists := s.running[snapPath]; !exists {
 		s.running[snapPath] = make(map[string]int)
 		s.cleanup[snapPath] = make(map[string]int)
+		s.highest[snapPath] = make(map[string]int)
 	}
 
 	s.running[snapPath][testName]++
 	s.cleanup[snapPath][testName]++
 	c := s.running[snapPath][testName]
+	s.highest[snapPath][testName] = max(s.highest[snapPath][testName], c)
 	s.Unlock()
 
 	return fmt.Sprintf("[%s - %d]", testName, c)
@@ -166,6 +170,7 @@ func newRegistry() *syncRegistry {
 	return &syncRegistry{
 		running: make(map[string]map[string]int),
 		cleanup: make(map[string]map[string]int),
+		highest: make(map[string]map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -173,6 +178,8 @@ func newRegistry() *syncRegistry {
 type syncStandaloneRegistry struct {
 	running map[string]int
 	cleanup map[string]int
+	// highest occurrence of each snapshot, in any execution of its test
+	highest map[string]int
 	sync.Mutex
 }
 
@@ -180,6 +187,7 @@ func newStandaloneRegistry() *syncStandaloneRegistry {
 	return &syncStandaloneRegistry{
 		running: make(map[string]int),
 		cleanup: make(map[string]int),
+		highest: make(map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -190,6 +198,7 @@ func (s *syncStandaloneRegistry) getTestID(snapPath, snapPathRel string) (string
 	s.running[snapPath]++
 	s.cleanup[snapPath]++
 	c := s.running[snapPath]
+	s.highest[snapPath] = max(s.highest[snapPath], c)
 	s.Unlock()
 
 	return fmt.Sprintf(snapPath, c), fmt.Sprintf(snapPathRel, c)
-- 
2.43.0


From 94428b0ae3f38f3bd7f137462fe1f36a73462b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 12/24] fix: Clean must apply -run to test names the way go
 test does

The pattern was matched anywhere in the id of a snapshot, including the number,
so snapshots of tests that -run had filtered out got removed.
---
 snaps/skip.go | 57 +++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/snaps/skip.go b/snaps/skip.go
index 7016257..4cfbd80 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -6,6 +6,7 @@ import (
 	"go/token"
 	"path"
 	"regexp"
+	"slices"
 	"strings"
 
 	"github.com/gkampitakis/go-snaps/internal/colors"
@@ -76,8 +77,60 @@ func testSkipped(testID, runOnly string) bool {
 		}
 	}
 
-	matched, _ := regexp.MatchString(runOnly, testID)
-	return !matched
+	return !testSelected(testName, runOnly)
+}
+
+// testSelected reports whether 'go test -run runOnly' runs the test.
+//
+// Same as the testing package does, each part of the pattern is matched with the part of the name
+// at the same level e.g. -run=b doesn't run TestA/b.
+func testSelected(testName, runOnly string) bool {
+	levels := strings.Split(testName, "/")
+
+	return slices.ContainsFunc(splitRunPattern(runOnly), func(patterns []string) bool {
+		for i := 0; i < len(levels) && i < len(patterns); i++ {
+			if matched, _ := regexp.MatchString(patterns[i], levels[i]); !matched {
+				return false
+			}
+		}
+
+		return true
+	})
+}
+
+// splitRunPattern splits the value of -run to alternatives, separated by '|', and those to patterns
+// per level, separated by '/'. Separators inside brackets or parentheses are part of the pattern.
+func splitRunPattern(runOnly string) (alternatives [][]string) {
+	var patterns []string
+	var start, brackets, parens int
+	// names have no spaces, see testing.T.Name
+	runOnly = strings.ReplaceAll(runOnly, " ", "_")
+
+	for i := 0; i < len(runOnly); i++ {
+		switch c := runOnly[i]; {
+		case c == '\\':
+			i++
+		case c == '[':
+			brackets++
+		case c == ']':
+			brackets = max(brackets-1, 0)
+		case brackets > 0:
+		case c == '(':
+			parens++
+		case c == ')':
+			parens--
+		case parens == 0 && (c == '/' || c == '|'):
+			patterns = append(patterns, runOnly[start:i])
+			start = i + 1
+
+			if c == '|' {
+				alternatives = append(alternatives, patterns)
+				patterns = nil
+			}
+		}
+	}
+
+	return append(alternatives, append(patterns, runOnly[start:]))
 }
 
 func isFileSkipped(dir, filename, runOnly string) bool {
-- 
2.43.0


From 7e487ae008dd23b36b94fb280abc64466e7e3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:47 +0000
Subject: [PATCH 13/24] fix: Clean must not remove files of skipped or filtered
 out tests

For a snapshot file without any call, the tests it belongs to are taken from the
ids inside it or, for a standalone snapshot, from its name. Before only the name of
the test file was tried, and only with -run.
---
 snaps/skip.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/snaps/skip.go b/snaps/skip.go
index 4cfbd80..63d054f 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -1,10 +1,13 @@
 package snaps
 
 import (
+	"bytes"
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"os"
 	"path"
+	"path/filepath"
 	"regexp"
 	"slices"
 	"strings"
@@ -98,6 +101,24 @@ func testSelected(testName, runOnly string) bool {
 	})
 }
 
+// fileTestIDs returns the ids of the snapshots inside a snapshot file
+func fileTestIDs(snapPath string) (testIDs []string) {
+	f, err := os.ReadFile(snapPath)
+	if err != nil {
+		return nil
+	}
+
+	s := snapshotScanner(bytes.NewReader(f))
+	for s.Scan() {
+		if testID, match := getTestID(s.Bytes()); match {
+			testIDs = append(testIDs, testID)
+			removeSnapshot(s)
+		}
+	}
+
+	return testIDs
+}
+
 // splitRunPattern splits the value of -run to alternatives, separated by '|', and those to patterns
 // per level, separated by '/'. Separators inside brackets or parentheses are part of the pattern.
 func splitRunPattern(runOnly string) (alternatives [][]string) {
@@ -133,12 +154,41 @@ func splitRunPattern(runOnly string) (alternatives [][]string) {
 	return append(alternatives, append(patterns, runOnly[start:]))
 }
 
+// standaloneFile matches the name of a standalone snapshot, <test name or filename>_<occurrence>.snap<ext>
+var standaloneFile = regexp.MustCompile(`^(.*)_[0-9]+\.snap`)
+
+// isFileSkipped checks if a file with no calls in this run belongs to tests that didn't run
 func isFileSkipped(dir, filename, runOnly string) bool {
+	testIDs := fileTestIDs(filepath.Join(dir, filename))
+	if slices.ContainsFunc(testIDs, func(id string) bool { return testSkipped(id, runOnly) }) {
+		return true
+	}
+
+	name := standaloneFile.FindStringSubmatch(filename)
+	if name != nil {
+		for _, skipped := range skippedTests.values {
+			skipped = strings.ReplaceAll(skipped, "/", "_")
+			if name[1] == skipped || strings.HasPrefix(name[1], skipped+"_") {
+				return true
+			}
+		}
+	}
+
 	// When a file is skipped through CLI with -run flag we can track it
 	if runOnly == "" {
 		return false
 	}
 
+	// the name of a standalone snapshot is not enough for finding its test
+	if name != nil {
+		return true
+	}
+
+	// there are snapshots only of tests that run
+	if len(testIDs) > 0 {
+		return false
+	}
+
 	testFilePath := path.Join(dir, "..", strings.TrimSuffix(filename, snapsExt)+".go")
 
 	fset := token.NewFileSet()
-- 
2.43.0


From 9f26cd6eb527a5a10ab6efc5183712b1dc61efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 14/24] fix: matchers must not drop values that need escaping

sjson's ReplaceInPlace returns the original document when the replacement contains characters
that need escaping but fits in the original bytes, so the mask was silently not applied.
---
 match/utils.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/match/utils.go b/match/utils.go
index a1cabb2..bbc426d 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -8,9 +8,10 @@ import (
 
 var (
 	errPathNotFound = errors.New("path does not exist")
-	setJSONOptions  = &sjson.Options{
-		Optimistic:     true,
-		ReplaceInPlace: true,
+	// not using ReplaceInPlace, with it a value that needs escaping is dropped silently when the
+	// result fits in the original bytes
+	setJSONOptions = &sjson.Options{
+		Optimistic: true,
 	}
 )
 
-- 
2.43.0


From 26f3a2a8b92be4966ffb9a8e304887458aadbee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:13 +0000
Subject: [PATCH 15/24] fix: YAML matchers must render placeholders that don't
 fit as plain or block scalars

a placeholder with newlines inside a sequence or flow mapping, or with flow indicators inside a
flow collection, produced an invalid document.
---
 match/internal/yaml/yaml.go | 38 +++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 6b22881..4789307 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -3,10 +3,12 @@ package yaml
 import (
 	"bytes"
 	"errors"
+	"reflect"
 	"strings"
 
 	"github.com/goccy/go-yaml"
 	"github.com/goccy/go-yaml/ast"
+	"github.com/goccy/go-yaml/parser"
 )
 
 // GetValue returns the value of the node.
@@ -51,9 +53,45 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 		return err
 	}
 
+	if err := path.ReplaceWithReader(f, bytes.NewReader(b)); err != nil {
+		return err
+	}
+	if canReadBack(f, path, b) {
+		return nil
+	}
+
+	// block scalars and plain strings with flow indicators can't be rendered everywhere
+	b, err = yaml.MarshalWithOptions(value, yaml.JSON())
+	if err != nil {
+		return err
+	}
+
 	return path.ReplaceWithReader(f, bytes.NewReader(b))
 }
 
+// canReadBack reports if the rendered file holds the marshaled value at the path.
+func canReadBack(f *ast.File, path *yaml.Path, value []byte) bool {
+	rendered, err := parser.ParseBytes(MarshalFile(f, false), parser.ParseComments)
+	if err != nil {
+		return false
+	}
+
+	node, err := path.FilterFile(rendered)
+	if err != nil {
+		return false
+	}
+
+	var got, expected interface{}
+	if err := yaml.NodeToValue(node, &got); err != nil {
+		return false
+	}
+	if err := yaml.Unmarshal(value, &expected); err != nil {
+		return false
+	}
+
+	return reflect.DeepEqual(got, expected)
+}
+
 // MarshalFile returns the representation of the ast.File to a byte slice.
 func MarshalFile(f *ast.File, addNewLine bool) []byte {
 	docs := make([]string, 0, len(f.Docs))
-- 
2.43.0


From 9b3f26d8596539dcf9a6e8fe9bc4421a7cbf0e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:58 +0000
Subject: [PATCH 16/24] fix: JSON matchers must not silently ignore paths sjson
 can't set

gjson's modifiers, multipaths, literals and pipes found a value but it was not replaced, or a new
member was added.
---
 match/any.go    |  3 +--
 match/custom.go |  3 +--
 match/type.go   |  8 +-------
 match/utils.go  | 16 +++++++++++++++-
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/match/any.go b/match/any.go
index 8947ed6..aa471e5 100644
--- a/match/any.go
+++ b/match/any.go
@@ -6,7 +6,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type anyMatcher struct {
@@ -104,7 +103,7 @@ func (a anyMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := sjson.SetBytesOptions(json, path, a.placeholder, setJSONOptions)
+		j, err := setJSON(json, path, r, a.placeholder)
 		if err != nil {
 			errs = append(errs, a.matcherError(err, path))
 
diff --git a/match/custom.go b/match/custom.go
index bef2a6c..6a8be87 100644
--- a/match/custom.go
+++ b/match/custom.go
@@ -6,7 +6,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type customMatcher struct {
@@ -123,7 +122,7 @@ func (c *customMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 		return nil, c.matcherError(err)
 	}
 
-	b, err = sjson.SetBytesOptions(b, c.path, value, setJSONOptions)
+	b, err = setJSON(b, c.path, r, value)
 	if err != nil {
 		return nil, c.matcherError(err)
 	}
diff --git a/match/type.go b/match/type.go
index 5f532e7..6c68c34 100644
--- a/match/type.go
+++ b/match/type.go
@@ -7,7 +7,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type typeMatcher[ExpectedType any] struct {
@@ -118,12 +117,7 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := sjson.SetBytesOptions(
-			json,
-			path,
-			typePlaceholder(r.Value()),
-			setJSONOptions,
-		)
+		j, err := setJSON(json, path, r, typePlaceholder(r.Value()))
 		if err != nil {
 			errs = append(errs, t.matcherError(err, path))
 
diff --git a/match/utils.go b/match/utils.go
index bbc426d..b815e8b 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -2,12 +2,15 @@ package match
 
 import (
 	"errors"
+	"strings"
 
+	"github.com/tidwall/gjson"
 	"github.com/tidwall/sjson"
 )
 
 var (
-	errPathNotFound = errors.New("path does not exist")
+	errPathNotFound     = errors.New("path does not exist")
+	errPathNotSupported = errors.New("path does not address a value of the document")
 	// not using ReplaceInPlace, with it a value that needs escaping is dropped silently when the
 	// result fits in the original bytes
 	setJSONOptions = &sjson.Options{
@@ -15,6 +18,17 @@ var (
 	}
 )
 
+// setJSON replaces the value found at path, r is the result of gjson for this path.
+func setJSON(json []byte, path string, r gjson.Result, value any) ([]byte, error) {
+	// gjson computes the result of modifiers, multipaths, literals and `#`, sjson would ignore
+	// these paths or add a member
+	if r.Index == 0 && len(r.Indexes) == 0 || strings.HasPrefix(path, "..") {
+		return nil, errPathNotSupported
+	}
+
+	return sjson.SetBytesOptions(json, path, value, setJSONOptions)
+}
+
 type JSONMatcher interface {
 	JSON([]byte) ([]byte, []MatcherError)
 }
-- 
2.43.0


From 96c2d1e4ad1dc61bbc387a87e03fffe28378730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 17/24] fix: snapshots of -trimpath builds do not follow later
 changes of the working directory

---
 snaps/snapshot.go | 11 ++++++-----
 snaps/utils.go    |  2 ++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 35e65f2..12c69d4 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -378,9 +378,13 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 	//  skips current func, the wrapper match* and the exported Match* func
 	callerFilename := baseCaller(3)
 	callerDir := filepath.Dir(callerFilename)
+	if isTrimBathBuild {
+		// there is no source path, but tests start in the directory of their package
+		callerDir = startDir
+	}
 
 	dir := c.snapsDir
-	if !filepath.IsAbs(dir) && !isTrimBathBuild {
+	if !filepath.IsAbs(dir) {
 		dir = filepath.Join(callerDir, c.snapsDir)
 	}
 
@@ -390,10 +394,7 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 	}
 
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
-	snapPathRel := snapPath
-	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(callerDir, snapPath)
-	}
+	snapPathRel, _ := filepath.Rel(callerDir, snapPath)
 
 	return snapPath, snapPathRel
 }
diff --git a/snaps/utils.go b/snaps/utils.go
index 3c9a8da..ec9d9d4 100644
--- a/snaps/utils.go
+++ b/snaps/utils.go
@@ -25,6 +25,8 @@ var (
 		snapsDir: "__snapshots__",
 	}
 	isTrimBathBuild = trimPathBuild()
+	// working directory before any test could change it
+	startDir, _ = os.Getwd()
 )
 
 const (
-- 
2.43.0


From 4eebadcd60904385c89e2651d17b8e840958fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:46 +0000
Subject: [PATCH 18/24] fix: YAML paths with wildcards that match nothing were
 taken as existing or panicked

---
 match/internal/yaml/yaml.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 4789307..2ea23d3 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -43,7 +43,28 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 		return path, nil, false, err
 	}
 
-	return path, node, true, nil
+	node, exists := matched(node)
+	return path, node, exists, nil
+}
+
+// matched drops the holes go-yaml leaves in the result of a path with wildcards for elements
+// without a match, and reports if there is any match.
+func matched(node ast.Node) (ast.Node, bool) {
+	seq, ok := node.(*ast.SequenceNode)
+	if !ok {
+		return node, node != nil
+	}
+
+	out := *seq
+	out.Values = make([]ast.Node, 0, len(seq.Values))
+	for _, value := range seq.Values {
+		if value, ok := matched(value); ok {
+			out.Values = append(out.Values, value)
+		}
+	}
+
+	// a sequence of the document is only empty in flow style
+	return &out, len(out.Values) > 0 || len(seq.Values) == 0 && seq.IsFlowStyle
 }
 
 // Update marshals the value and replaces the file at the path provided with the new value.
-- 
2.43.0


From 219d1163504e4fbc31dab0bd6a35a36f1163360f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:52 +0000
Subject: [PATCH 19/24] fix: ErrOnMissingPath(false) didn't ignore YAML paths
 past a sequence or through a scalar

---
 match/internal/yaml/yaml.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 2ea23d3..c80e3a5 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -39,6 +39,10 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 		if errors.Is(err, yaml.ErrNotFoundNode) {
 			return path, nil, false, nil
 		}
+		if errors.Is(err, yaml.ErrInvalidQuery) && !strings.Contains(p, "[*]") && isPlain(f) {
+			// the path leads through a scalar or past the end of a sequence
+			return path, nil, false, nil
+		}
 
 		return path, nil, false, err
 	}
@@ -47,6 +51,22 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 	return path, node, exists, nil
 }
 
+// isPlain reports if the file is a single document without the nodes go-yaml's paths can't
+// lead through.
+func isPlain(f *ast.File) bool {
+	if len(f.Docs) != 1 {
+		return false
+	}
+
+	for _, typ := range []ast.NodeType{ast.AnchorType, ast.AliasType, ast.TagType} {
+		if len(ast.FilterFile(typ, f)) > 0 {
+			return false
+		}
+	}
+
+	return true
+}
+
 // matched drops the holes go-yaml leaves in the result of a path with wildcards for elements
 // without a match, and reports if there is any match.
 func matched(node ast.Node) (ast.Node, bool) {
-- 
2.43.0


From d9466bb42c2479e92ff405a988c839f4d3082173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:20 +0000
Subject: [PATCH 20/24] fix: YAML matchers on the root of a document changed
 nothing

---
 match/internal/yaml/yaml.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index c80e3a5..e82f5bd 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -94,7 +94,7 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 		return err
 	}
 
-	if err := path.ReplaceWithReader(f, bytes.NewReader(b)); err != nil {
+	if err := replace(f, path, b); err != nil {
 		return err
 	}
 	if canReadBack(f, path, b) {
@@ -107,7 +107,27 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 		return err
 	}
 
-	return path.ReplaceWithReader(f, bytes.NewReader(b))
+	return replace(f, path, b)
+}
+
+// replace replaces the nodes of the file at the path with the marshaled value.
+func replace(f *ast.File, path *yaml.Path, value []byte) error {
+	if path.String() != "$" {
+		return path.ReplaceWithReader(f, bytes.NewReader(value))
+	}
+
+	// go-yaml leaves the root as it is
+	root, err := parser.ParseBytes(value, 0)
+	if err != nil {
+		return err
+	}
+	for _, doc := range f.Docs {
+		if doc.Body != nil {
+			doc.Body = root.Docs[0].Body
+		}
+	}
+
+	return nil
 }
 
 // canReadBack reports if the rendered file holds the marshaled value at the path.
-- 
2.43.0


From bab9f59b113f715eff7b58c38e61d4b8653b7b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 21/24] fix: matchers panicked on empty YAML documents

---
 match/internal/yaml/yaml.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index e82f5bd..a78a41c 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -112,8 +112,15 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 
 // replace replaces the nodes of the file at the path with the marshaled value.
 func replace(f *ast.File, path *yaml.Path, value []byte) error {
+	docs := make([]*ast.DocumentNode, 0, len(f.Docs))
+	for _, doc := range f.Docs {
+		if doc.Body != nil {
+			docs = append(docs, doc)
+		}
+	}
+
 	if path.String() != "$" {
-		return path.ReplaceWithReader(f, bytes.NewReader(value))
+		return path.ReplaceWithReader(&ast.File{Docs: docs}, bytes.NewReader(value))
 	}
 
 	// go-yaml leaves the root as it is
@@ -121,10 +128,8 @@ func replace(f *ast.File, path *yaml.Path, value []byte) error {
 	if err != nil {
 		return err
 	}
-	for _, doc := range f.Docs {
-		if doc.Body != nil {
-			doc.Body = root.Docs[0].Body
-		}
+	for _, doc := range docs {
+		doc.Body = root.Docs[0].Body
 	}
 
 	return nil
@@ -158,7 +163,7 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 	docs := make([]string, 0, len(f.Docs))
 
 	for _, doc := range f.Docs {
-		docs = append(docs, doc.String())
+		docs = append(docs, docString(doc))
 	}
 
 	if addNewLine {
@@ -167,3 +172,20 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 
 	return []byte(strings.Join(docs, "\n"))
 }
+
+// docString returns the representation of a document, go-yaml can't render one without a body.
+func docString(doc *ast.DocumentNode) string {
+	if doc.Body != nil {
+		return doc.String()
+	}
+
+	var markers []string
+	if doc.Start != nil {
+		markers = append(markers, doc.Start.Value)
+	}
+	if doc.End != nil {
+		markers = append(markers, doc.End.Value)
+	}
+
+	return strings.Join(markers, "\n")
+}
-- 
2.43.0


From ed4bc75d0546338745c8ca82b187da0b8a2ea576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:16 +0000
Subject: [PATCH 22/24] fix: YAML placeholders go-yaml leaves unquoted were
 stored as other values

---
 match/internal/yaml/yaml.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index a78a41c..b88b966 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -93,21 +93,33 @@ func Update(f *ast.File, path *yaml.Path, value interface{}) error {
 	if err != nil {
 		return err
 	}
-
-	if err := replace(f, path, b); err != nil {
+	quoted, err := yaml.MarshalWithOptions(value, yaml.JSON())
+	if err != nil {
 		return err
 	}
-	if canReadBack(f, path, b) {
-		return nil
+
+	// go-yaml leaves some strings that aren't plain scalars unquoted
+	if isSame(b, quoted) {
+		if err := replace(f, path, b); err != nil {
+			return err
+		}
+		if canReadBack(f, path, b) {
+			return nil
+		}
 	}
 
 	// block scalars and plain strings with flow indicators can't be rendered everywhere
-	b, err = yaml.MarshalWithOptions(value, yaml.JSON())
-	if err != nil {
-		return err
+	return replace(f, path, quoted)
+}
+
+// isSame reports if two documents hold the same value.
+func isSame(a, b []byte) bool {
+	var x, y interface{}
+	if yaml.Unmarshal(a, &x) != nil || yaml.Unmarshal(b, &y) != nil {
+		return false
 	}
 
-	return replace(f, path, b)
+	return reflect.DeepEqual(x, y)
 }
 
 // replace replaces the nodes of the file at the path with the marshaled value.
-- 
2.43.0


From 65a3f7e37fb0b123f6e063d4f7ceed682d0ee139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:29 +0000
Subject: [PATCH 23/24] fix: JSON matchers added members or produced invalid
 documents for some paths and placeholders

---
 match/utils.go | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/match/utils.go b/match/utils.go
index b815e8b..4dbfde3 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -1,6 +1,7 @@
 package match
 
 import (
+	"bytes"
 	"errors"
 	"strings"
 
@@ -11,11 +12,7 @@ import (
 var (
 	errPathNotFound     = errors.New("path does not exist")
 	errPathNotSupported = errors.New("path does not address a value of the document")
-	// not using ReplaceInPlace, with it a value that needs escaping is dropped silently when the
-	// result fits in the original bytes
-	setJSONOptions = &sjson.Options{
-		Optimistic: true,
-	}
+	errNotJSON          = errors.New("value can't be represented in JSON")
 )
 
 // setJSON replaces the value found at path, r is the result of gjson for this path.
@@ -26,7 +23,43 @@ func setJSON(json []byte, path string, r gjson.Result, value any) ([]byte, error
 		return nil, errPathNotSupported
 	}
 
-	return sjson.SetBytesOptions(json, path, value, setJSONOptions)
+	encoded, err := sjson.SetBytes(nil, "v", value)
+	if err != nil {
+		return nil, err
+	}
+	if !gjson.ValidBytes(encoded) {
+		return nil, errNotJSON
+	}
+	encoded = []byte(gjson.GetBytes(encoded, "v").Raw)
+
+	targets, indexes := []gjson.Result{r}, []int{r.Index}
+	if len(r.Indexes) > 0 {
+		targets, indexes = r.Array(), r.Indexes
+	}
+	if len(targets) != len(indexes) {
+		return nil, errPathNotSupported
+	}
+
+	var (
+		out bytes.Buffer
+		end int
+	)
+	for i, target := range targets {
+		// gjson doesn't know the position of everything it computes
+		if indexes[i] < end || !bytes.HasPrefix(json[indexes[i]:], []byte(target.Raw)) {
+			return nil, errPathNotSupported
+		}
+		out.Write(json[end:indexes[i]])
+		out.Write(encoded)
+		end = indexes[i] + len(target.Raw)
+	}
+	out.Write(json[end:])
+
+	if !gjson.ValidBytes(out.Bytes()) {
+		return nil, errPathNotSupported
+	}
+
+	return out.Bytes(), nil
 }
 
 type JSONMatcher interface {
-- 
2.43.0


From c07e68db61f938d96e9d09566cf6a5d828142edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 24/24] fix: a YAML path ending inside an index panicked

---
 match/internal/yaml/yaml.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index b88b966..c118e18 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -3,6 +3,7 @@ package yaml
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"reflect"
 	"strings"
 
@@ -29,7 +30,7 @@ func GetValue(node ast.Node) (interface{}, error) {
 // Get takes an ast.File and a string representing a path
 // and returns the yaml.Path, the node and a bool indicating if the node exists.
 func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
-	path, err := yaml.PathString(p)
+	path, err := parsePath(p)
 	if err != nil {
 		return nil, nil, false, err
 	}
@@ -51,6 +52,17 @@ func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
 	return path, node, exists, nil
 }
 
+// parsePath parses the path, go-yaml panics when it ends inside an index.
+func parsePath(p string) (path *yaml.Path, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%q: %w", p, yaml.ErrInvalidPathString)
+		}
+	}()
+
+	return yaml.PathString(p)
+}
+
 // isPlain reports if the file is a single document without the nodes go-yaml's paths can't
 // lead through.
 func isPlain(f *ast.File) bool {
-- 
2.43.0

