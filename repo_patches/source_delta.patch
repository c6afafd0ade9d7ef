From 1c36b206ca29bad17282b678f344c8c7a4c7682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 01/40] fix: do not panic on a backslash followed by a
 non-Latin-1 character

IsCorrectEscaping indexed a 256-entry table with an arbitrary rune.
---
 build/quote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/quote.go b/build/quote.go
index 03bcdb6..35f0546 100644
--- a/build/quote.go
+++ b/build/quote.go
@@ -251,7 +251,7 @@ func IsCorrectEscaping(value string) bool {
 			continue
 		}
 
-		if ok := escapable[ch]; !ok {
+		if ch >= rune(len(escapable)) || !escapable[ch] {
 			return false
 		}
 		escaped = false
-- 
2.43.0


From 79e434b6eb23660d508eb150215966bdb9ecddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 02/40] fix: attr-cfg must not modify the analysed call

Removing cfg = "data" shifted the arguments in the backing array shared with
the original call, so the file changed even if the fix was not applied.
---
 warn/warn_bazel_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 61de4e6..958581e 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -395,7 +395,7 @@ func attrConfigurationWarning(f *build.File) []*LinterFinding {
 		newCall := *call
 		switch value.Value {
 		case "data":
-			newCall.List = append(newCall.List[:i], newCall.List[i+1:]...)
+			newCall.List = append(append([]build.Expr{}, newCall.List[:i]...), newCall.List[i+1:]...)
 			findings = append(findings,
 				makeLinterFinding(param, `cfg = "data" for attr definitions has no effect and should be removed.`,
 					LinterReplacement{expr, &newCall}))
-- 
2.43.0


From fbd91c1f09b773ff97860fced60311b94c866c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 03/40] fix: do not modify command arguments in splitLoadArgs

The arguments are shared by all files and targets the command is applied to.
---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 1b9c186..cfd89d6 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -283,7 +283,7 @@ func findInsertionIndex(env CmdEnvironment) (bool, int, error) {
 // splitLoadArgs splits arguments of form <[to=]from>
 // into a slice of froms and a slice of tos.
 func splitLoadArgs(args []string) ([]string, []string) {
-	from := args
+	from := append([]string{}, args...)
 	to := append([]string{}, args...)
 	for i := range from {
 		if s := strings.SplitN(from[i], "=", 2); len(s) == 2 {
-- 
2.43.0


From b242c1867fb7bdcb59526daf048a660484db87ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 04/40] fix: replace_load skipped symbols next to a removed one

The symbols were deleted from the slice that was being iterated over.
---
 edit/edit.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index e56ee45..48e12bf 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1192,17 +1192,15 @@ func ReplaceLoad(stmts []build.Expr, location string, from, to []string) []build
 			continue
 		}
 
+		var loadFrom, loadTo []*build.Ident
 		for i, to := range load.To {
-			if toSymbols[to.Name] {
-				if i < len(load.From)-1 {
-					load.From = append(load.From[:i], load.From[i+1:]...)
-					load.To = append(load.To[:i], load.To[i+1:]...)
-				} else {
-					load.From = load.From[:i]
-					load.To = load.To[:i]
-				}
+			if !toSymbols[to.Name] {
+				loadFrom = append(loadFrom, load.From[i])
+				loadTo = append(loadTo, to)
 			}
 		}
+		load.From = loadFrom
+		load.To = loadTo
 
 		if len(load.To) > 0 {
 			all = append(all, load)
-- 
2.43.0


From 3f92e5791c56e06b54a75cd76bf7b4d6f4af5f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 05/40] fix: negate identifiers other than True and False
 correctly

The attr-non-empty fix replaced any other identifier with True.
---
 warn/warn_bazel_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 958581e..257a349 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -52,7 +52,7 @@ func negateExpression(expr build.Expr) build.Expr {
 	}
 
 	boolean, ok := expr.(*build.Ident)
-	if ok {
+	if ok && (boolean.Name == "True" || boolean.Name == "False") {
 		newBoolean := *boolean
 		if boolean.Name == "True" {
 			newBoolean.Name = "False"
-- 
2.43.0


From da4e01a3eff897190e82858b7fbe410590dddb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 06/40] fix: parenthesize conditional expressions inside
 operators

Printing a rewritten tree such as not (a if b else c) lost the parentheses
and changed the meaning of the expression.
---
 build/print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 0492dd4..6e1fc60 100644
--- a/build/print.go
+++ b/build/print.go
@@ -840,7 +840,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.listFor(v)
 
 	case *ConditionalExpr:
-		addParen(precSuffix)
+		addParen(precIfElse)
 		p.expr(v.Then, precIfElse)
 		p.printf(" if ")
 		p.expr(v.Test, precIfElse)
-- 
2.43.0


From 0f5726e1a33618bde6f37d1de00c9efd970f3461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 07/40] fix: 'set kind' without a value must not panic

---
 edit/buildozer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index cfd89d6..aa2f5cb 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -559,6 +559,9 @@ func cmdSet(opts *Options, env CmdEnvironment) (*build.File, error) {
 	attr := env.Args[0]
 	args := env.Args[1:]
 	if attr == "kind" {
+		if len(args) == 0 {
+			return nil, fmt.Errorf("setting 'kind' requires a value. Got %s", env.Args)
+		}
 		env.Rule.SetKind(args[0])
 	} else {
 		env.Rule.SetAttr(attr, getAttrValueExpr(attr, args, env))
-- 
2.43.0


From c7aa6dadb71ceb94544fc7462d9e6db7e597e80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 08/40] fix: use_repo_add and use_repo_remove must not panic
 without an extension name

---
 edit/buildozer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index aa2f5cb..af3ccdc 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -849,6 +849,9 @@ func cmdImplUseRepo(env CmdEnvironment, mode string) (*build.File, error) {
 	var proxies []string
 	var repos []string
 	if isExtensionLabel(args[0]) {
+		if len(args) < 2 {
+			return nil, fmt.Errorf("%s: missing the name of the extension defined in %q", mode, args[0])
+		}
 		extBzlFile := args[0]
 		extName := args[1]
 
-- 
2.43.0


From b98c8c6e26febe616053171c922b7cb6ade15c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 09/40] fix: -add_tables must not panic after -tables with
 omitted fields

---
 tables/tables.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tables/tables.go b/tables/tables.go
index 7ff8b02..21e451f 100644
--- a/tables/tables.go
+++ b/tables/tables.go
@@ -280,6 +280,16 @@ func OverrideTables(labelArg, denylist, listArg, sortableListArg, sortDenylist,
 
 // MergeTables allows a user of the build package to override the special-case rules. The user-provided tables are merged into the built-in tables.
 func MergeTables(labelArg, denylist, listArg, sortableListArg, sortDenylist, sortAllowlist map[string]bool, namePriority map[string]int, stripLabelLeadingSlashes, shortenAbsoluteLabelsToRelative bool) {
+	// Any of the tables may be nil if it has been overridden by OverrideTables.
+	for _, table := range []*map[string]bool{&IsLabelArg, &LabelDenylist, &IsListArg, &IsSortableListArg, &SortableDenylist, &SortableAllowlist} {
+		if *table == nil {
+			*table = make(map[string]bool)
+		}
+	}
+	if NamePriority == nil {
+		NamePriority = make(map[string]int)
+	}
+
 	for k, v := range labelArg {
 		IsLabelArg[k] = v
 	}
-- 
2.43.0


From 33fe1cf452e51d5d21c368676e2134bddd80e7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 10/40] fix: unused_deps must not panic on a one-character
 dependency label

---
 unused_deps/unused_deps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index ef5d8f4..a38cd27 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -278,7 +278,7 @@ func printCommands(label string, deps map[string]bool) (anyCommandPrinted bool)
 					continue
 				}
 				buildLabel := str.Value
-				if repo != "" && buildLabel[:2] == "//" {
+				if repo != "" && strings.HasPrefix(buildLabel, "//") {
 					buildLabel = fmt.Sprintf("@%s%s", repo, str.Value)
 				}
 				if !labels.Equal(buildLabel, dep, pkg) {
-- 
2.43.0


From bbb3f6a2fcd0db27034a4daa238022989854e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 11/40] fix: unused_deps must not panic if the params file ends
 with --direct_dependencies

---
 unused_deps/unused_deps.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index a38cd27..2602848 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -166,6 +166,10 @@ func directDepParams(blazeOutputPath string, paramsFileNames ...string) (depsByJ
 			continue
 		}
 		first := arg + len(directDepsFlag) + 1
+		if first > len(data) {
+			// The flag is at the very end of the file, there are no dependencies.
+			continue
+		}
 
 		scanner := bufio.NewScanner(bytes.NewReader(data[first:]))
 		for scanner.Scan() {
-- 
2.43.0


From d3bbed93c1056bf4b0dec8e46d62d64eb355668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 12/40] fix: parse all augmented assignments as assignments

&=, ^=, <<= and >>= were parsed as binary expressions of unknown precedence
and reported by the no-effect warning.
---
 build/parse.y    | 2 +-
 build/parse.y.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index 0eaf470..1d7724c 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -1076,7 +1076,7 @@ func binary(x Expr, pos Position, op string, y Expr) Expr {
 	ystart, _ := y.Span()
 
 	switch op {
-	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=":
+	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=", "&=", "^=", "<<=", ">>=":
 		return &AssignExpr{
 			LHS:       x,
 			OpPos:     pos,
diff --git a/build/parse.y.go b/build/parse.y.go
index 11dec91..97f0aaf 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -165,7 +165,7 @@ func binary(x Expr, pos Position, op string, y Expr) Expr {
 	ystart, _ := y.Span()
 
 	switch op {
-	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=":
+	case "=", "+=", "-=", "*=", "/=", "//=", "%=", "|=", "&=", "^=", "<<=", ">>=":
 		return &AssignExpr{
 			LHS:       x,
 			OpPos:     pos,
-- 
2.43.0


From d3fa3663e92b2edf6d63c8912c3cd9abf9bf89b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 13/40] fix: report a failed write of the formatted file to
 stdout

---
 buildifier/buildifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildifier/buildifier.go b/buildifier/buildifier.go
index 60124fc..ef2e1dc 100644
--- a/buildifier/buildifier.go
+++ b/buildifier/buildifier.go
@@ -353,7 +353,10 @@ func (b *buildifier) processFile(filename string, data []byte, displayFileNames
 	case "pipe":
 		// pipe mode - reading from stdin, writing to stdout.
 		// ("pipe" is not from the command line; it is set above in main.)
-		os.Stdout.Write(ndata)
+		if _, err := os.Stdout.Write(ndata); err != nil {
+			fmt.Fprintf(os.Stderr, "buildifier: error writing output: %v\n", err)
+			return fileDiagnostics, 3
+		}
 
 	case "fix":
 		// fix mode: update files in place as needed.
-- 
2.43.0


From 0d8be5d7cf5ff543ef605d168457e7565d159cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 14/40] fix: remove temporary files that could not be written
 completely

---
 buildifier/utils/tempfile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildifier/utils/tempfile.go b/buildifier/utils/tempfile.go
index e5f5f77..690b717 100644
--- a/buildifier/utils/tempfile.go
+++ b/buildifier/utils/tempfile.go
@@ -40,10 +40,11 @@ func (tf *TempFile) WriteTemp(data []byte) (file string, err error) {
 	}()
 
 	name := f.Name()
+	// Remember the file before writing to it, so that Clean removes it even if writing fails.
+	tf.filenames = append(tf.filenames, name)
 	if _, err := f.Write(data); err != nil {
 		return "", fmt.Errorf("writing temporary file: %v", err)
 	}
-	tf.filenames = append(tf.filenames, name)
 	return name, nil
 }
 
-- 
2.43.0


From 3620c9a9919be2a919aca14ecc733f04afaebebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 15/40] fix: keep removing temporary files if one of them
 cannot be removed

---
 buildifier/utils/tempfile.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/buildifier/utils/tempfile.go b/buildifier/utils/tempfile.go
index 690b717..7e26d0b 100644
--- a/buildifier/utils/tempfile.go
+++ b/buildifier/utils/tempfile.go
@@ -50,11 +50,12 @@ func (tf *TempFile) WriteTemp(data []byte) (file string, err error) {
 
 // Clean removes all created temporary files
 func (tf *TempFile) Clean() error {
+	var firstErr error
 	for _, file := range tf.filenames {
-		if err := os.Remove(file); err != nil {
-			return err
+		if err := os.Remove(file); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
 	tf.filenames = []string{}
-	return nil
+	return firstErr
 }
-- 
2.43.0


From a1501b991dba4eeab82e40ccb636e295ffa66941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 16/40] fix: serialize writes of concurrent buildozer workers

---
 edit/buildozer.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index af3ccdc..825388e 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -31,6 +31,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"sync"
 
 	apipb "github.com/bazelbuild/buildtools/api_proto"
 	"github.com/bazelbuild/buildtools/build"
@@ -1444,6 +1445,18 @@ func printRecord(writer io.Writer, record *apipb.Output_Record) {
 	fmt.Fprint(writer, strings.Join(line, " ")+"\n")
 }
 
+// syncWriter serializes the writes of concurrent workers.
+type syncWriter struct {
+	mu *sync.Mutex
+	w  io.Writer
+}
+
+func (s *syncWriter) Write(p []byte) (int, error) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.w.Write(p)
+}
+
 // Buildozer loops over all arguments on the command line fixing BUILD files.
 func Buildozer(opts *Options, args []string) int {
 	if opts.OutWriter == nil {
@@ -1452,6 +1465,12 @@ func Buildozer(opts *Options, args []string) int {
 	if opts.ErrWriter == nil {
 		opts.ErrWriter = os.Stderr
 	}
+	// The writers are used by the workers concurrently and may be the same.
+	syncOpts, mu := *opts, &sync.Mutex{}
+	syncOpts.OutWriter = &syncWriter{mu, opts.OutWriter}
+	syncOpts.ErrWriter = &syncWriter{mu, opts.ErrWriter}
+	opts = &syncOpts
+
 	commandsByFile := make(map[string][]commandsForTarget)
 	if len(opts.CommandsFiles) > 0 {
 		if err := appendCommandsFromFiles(opts, commandsByFile, args); err != nil {
-- 
2.43.0


From 999b1cfc8636461a824a851526bd3eb1900f0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:00 +0000
Subject: [PATCH 17/40] fix: report a failed write of a changed BUILD file to
 stdout in buildozer

---
 edit/buildozer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 825388e..3c71f63 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1252,7 +1252,9 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 	}
 
 	if opts.Stdout || name == stdinPackageName {
-		opts.OutWriter.Write(ndata)
+		if _, err := opts.OutWriter.Write(ndata); err != nil {
+			errs = append(errs, err)
+		}
 		return &rewriteResult{file: name, errs: errs, records: records}
 	}
 
-- 
2.43.0


From 86808e5cfc20a0097de4f95ffd4863fefdbf951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 18/40] fix: keep the exponent of floats whose exponent is zero

editFloats turned 1.5e0 into 1.5e, which is not a number.
---
 build/rewrite.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index e500beb..da07ad2 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -1426,7 +1426,12 @@ func editFloats(f *File, _ *Rewriter) {
 			// Invalid float, skip rewriting.
 			return
 		}
-		l.Token = parts[0] + "e" + strings.TrimLeft(parts[1], "0+")
+		exponent := strings.TrimLeft(parts[1], "0+")
+		if exponent == "" {
+			// The exponent consists of zeroes only, keep one of them.
+			exponent = "0"
+		}
+		l.Token = parts[0] + "e" + exponent
 	})
 }
 
-- 
2.43.0


From 6dae8c68a57c25527251f44ea79e7f6941cd976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 19/40] fix: keep comments after a typed parameter's name and
 inside a return annotation in place

---
 build/lex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build/lex.go b/build/lex.go
index 30639ea..82add1e 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -732,6 +732,7 @@ func (in *input) order(v Expr) {
 	case *Ident:
 		// nothing
 	case *TypedIdent:
+		in.order(v.Ident)
 		in.order(v.Type)
 	case *BranchStmt:
 		// nothing
@@ -811,6 +812,7 @@ func (in *input) order(v Expr) {
 		for _, x := range v.Params {
 			in.order(x)
 		}
+		in.order(v.Type)
 		for _, x := range v.Body {
 			in.order(x)
 		}
-- 
2.43.0


From a58498cebae98db09aabed0e42555b2ff9485ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 20/40] fix: nest chained conditional expressions to the right

'a if b else c if d else e' was parsed as '(a if b else c) if d else e'
although the language groups it as 'a if b else (c if d else e)'.
---
 build/parse.y    | 2 +-
 build/parse.y.go | 2 +-
 build/print.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index 1d7724c..a988b15 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -869,7 +869,7 @@ test:
 			$$ = binary($1, $2, $<tok>2, $3)
 		}
 	}
-|	test _IF test _ELSE test
+|	test _IF test _ELSE test %prec ShiftInstead
 	{
 		$$ = &ConditionalExpr{
 			Then: $1,
diff --git a/build/parse.y.go b/build/parse.y.go
index 97f0aaf..562a1d4 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -543,7 +543,7 @@ var yyPact = [...]int16{
 	21, -1000, -1000, -1000, 855, -1000, 590, 150, 971, 971,
 	-1000, -1000, 971, -1000, -1000, 590, 200, -1000, 4, 971,
 	43, 590, -1000, -1000, 590, -1000, 461, -1000, -37, -1000,
-	-1000, 365, -1000, 684, -1000, -1000, 75, 971, 179, 178,
+	-1000, 365, -1000, 590, -1000, -1000, 75, 971, 179, 178,
 	-1000, 971, 590, 590, 133, 590, 58, 684, 971, 260,
 	-1000, -1000, -1000, 418, 971, 971, 590, -1000, 971, 197,
 	-1000, -1000, 143, 684, -1000, 971, 590, 590, 92, 210,
diff --git a/build/print.go b/build/print.go
index 6e1fc60..bfdec87 100644
--- a/build/print.go
+++ b/build/print.go
@@ -841,7 +841,7 @@ func (p *printer) expr(v Expr, outerPrec int) {
 
 	case *ConditionalExpr:
 		addParen(precIfElse)
-		p.expr(v.Then, precIfElse)
+		p.expr(v.Then, precIfElse+1)
 		p.printf(" if ")
 		p.expr(v.Test, precIfElse)
 		p.printf(" else ")
-- 
2.43.0


From 7e74727578bef4fc1a0fd8aaae849580b47cb6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 21/40] fix: parenthesize operands of 'is' that bind less
 tightly

---
 build/print.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build/print.go b/build/print.go
index bfdec87..9362a0c 100644
--- a/build/print.go
+++ b/build/print.go
@@ -513,6 +513,7 @@ const (
 	precAssign
 	precColon
 	precIfElse
+	precIs
 	precOr
 	precAnd
 	precCmp
@@ -528,6 +529,7 @@ const (
 
 // opPrec gives the precedence for operators found in a BinaryExpr.
 var opPrec = map[string]int{
+	"is":     precIs,
 	"or":     precOr,
 	"and":    precAnd,
 	"in":     precCmp,
-- 
2.43.0


From 4e0d7d480502907410ebd9246c40d440729c255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 22/40] fix: parenthesize conditional and lambda expressions in
 comprehension clauses

---
 build/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/build/print.go b/build/print.go
index 9362a0c..c442a6e 100644
--- a/build/print.go
+++ b/build/print.go
@@ -927,10 +927,10 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("for ")
 		p.expr(v.Vars, precLow)
 		p.printf(" in ")
-		p.expr(v.X, precLow)
+		p.expr(v.X, precIfElse+1)
 	case *IfClause:
 		p.printf("if ")
-		p.expr(v.Cond, precLow)
+		p.expr(v.Cond, precIfElse+1)
 	}
 
 	// Add closing parenthesis if needed.
-- 
2.43.0


From f8bd490e8d495c76055a5735a8c8ce5e0f53918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 23/40] fix: let 'not' apply to a whole comparison

'not a == b' was parsed as '(not a) == b' although the language
groups it as 'not (a == b)'.
---
 build/parse.y    |  2 +-
 build/parse.y.go |  2 +-
 build/print.go   | 15 +++++++++++----
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/build/parse.y b/build/parse.y
index a988b15..9e9f421 100644
--- a/build/parse.y
+++ b/build/parse.y
@@ -836,7 +836,7 @@ test:
 			},
 		}
 	}
-|	_NOT test %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
+|	_NOT test %prec _AND { $$ = unary($1, $<tok>1, $2) }
 |	'-' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
 |	'+' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
 |	'~' test  %prec _UNARY { $$ = unary($1, $<tok>1, $2) }
diff --git a/build/parse.y.go b/build/parse.y.go
index 562a1d4..3132ff4 100644
--- a/build/parse.y.go
+++ b/build/parse.y.go
@@ -529,7 +529,7 @@ var yyPact = [...]int16{
 	971, 106, -1000, 971, 971, 971, 971, 971, 971, 971,
 	971, 971, 971, 971, 971, 971, 3, 971, 971, 971,
 	971, 971, 971, 971, 971, 971, 216, 180, 54, 200,
-	971, 191, 206, -1000, 152, 21, 21, -1000, -1000, -1000,
+	971, 191, 206, -1000, 152, 21, 21, 813, -1000, -1000,
 	-1000, 200, 136, 547, 200, 73, 110, 205, 461, 200,
 	214, 590, 8, -1000, -35, 632, -1000, -1000, -1000, 971,
 	72, 204, 204, 684, 590, 174, 365, -1000, -1000, -1000,
diff --git a/build/print.go b/build/print.go
index c442a6e..14b1be5 100644
--- a/build/print.go
+++ b/build/print.go
@@ -516,6 +516,7 @@ const (
 	precIs
 	precOr
 	precAnd
+	precNot
 	precCmp
 	precBitwiseOr
 	precBitwiseXor
@@ -705,16 +706,22 @@ func (p *printer) expr(v Expr, outerPrec int) {
 		p.printf("]")
 
 	case *UnaryExpr:
-		addParen(precUnary)
+		// Use the next precedence level (precSuffix), so that nested unary expressions are parenthesized,
+		// for example: `not (-(+(~foo)))` instead of `not -+~foo`
+		operandPrec := precSuffix
 		if v.Op == "not" {
+			// The operand of "not" extends over comparisons and arithmetic: `not a == b` is `not (a == b)`.
+			addParen(precNot)
 			p.printf("not ") // Requires a space after it.
+			if _, ok := v.X.(*UnaryExpr); !ok {
+				operandPrec = precNot + 1
+			}
 		} else {
+			addParen(precUnary)
 			p.printf("%s", v.Op)
 		}
-		// Use the next precedence level (precSuffix), so that nested unary expressions are parenthesized,
-		// for example: `not (-(+(~foo)))` instead of `not -+~foo`
 		if v.X != nil {
-			p.expr(v.X, precSuffix)
+			p.expr(v.X, operandPrec)
 		}
 
 	case *LambdaExpr:
-- 
2.43.0


From d6474338a325aba6d78fb1e63e412062140929dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 24/40] fix: skylark-comment: keep positions right when several
 words are replaced

The positions of the matches refer to the original text, but were applied to
the text that had already been changed (and got longer), which garbled
comments and docstrings that mention the word more than once.
---
 warn/warn_cosmetic.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/warn/warn_cosmetic.go b/warn/warn_cosmetic.go
index e0401c0..06892eb 100644
--- a/warn/warn_cosmetic.go
+++ b/warn/warn_cosmetic.go
@@ -224,7 +224,7 @@ func skylarkToStarlark(s string) string {
 // supported by Go regexp module.
 func replaceSkylark(s string) (newString string, changed bool) {
 	skylarkRegex := regexp.MustCompile("(?i)skylark")
-	newString = s
+	end := 0 // everything before s[end:] is already in newString
 	for _, r := range skylarkRegex.FindAllStringIndex(s, -1) {
 		if r[0] > 0 && s[r[0]-1] == '/' {
 			continue
@@ -232,8 +232,10 @@ func replaceSkylark(s string) (newString string, changed bool) {
 		if r[1] < len(s)-1 && s[r[1]+1] == '/' {
 			continue
 		}
-		newString = newString[:r[0]] + skylarkToStarlark(newString[r[0]:r[1]]) + newString[r[1]:]
+		newString += s[end:r[0]] + skylarkToStarlark(s[r[0]:r[1]])
+		end = r[1]
 	}
+	newString += s[end:]
 	return newString, newString != s
 }
 
-- 
2.43.0


From 545f28cd736cca8c71a481c01bd43e8ac8122737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 25/40] fix: skylark-comment: look at the character right after
 the word

The check for a following slash (part of a URL) looked one character too far.
---
 warn/warn_cosmetic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warn/warn_cosmetic.go b/warn/warn_cosmetic.go
index 06892eb..ca46f4d 100644
--- a/warn/warn_cosmetic.go
+++ b/warn/warn_cosmetic.go
@@ -229,7 +229,7 @@ func replaceSkylark(s string) (newString string, changed bool) {
 		if r[0] > 0 && s[r[0]-1] == '/' {
 			continue
 		}
-		if r[1] < len(s)-1 && s[r[1]+1] == '/' {
+		if r[1] < len(s) && s[r[1]] == '/' {
 			continue
 		}
 		newString += s[end:r[0]] + skylarkToStarlark(s[r[0]:r[1]])
-- 
2.43.0


From ab5521a3ac0c0582ad51197b991f9789d2cc5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:09 +0000
Subject: [PATCH 26/40] fix: report unused_deps output and build failures

The errors of creating and writing the output file were dropped, so that a
missing or truncated list of unused deps looked like a success; so was a
failed build.
---
 unused_deps/unused_deps.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 2602848..3f8db42 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -115,9 +115,17 @@ func getJarPath(path string) (string, error) {
 func writeUnusedDeps(jarPath, outputFileName string) {
 	depsPath := strings.Replace(jarPath, ".jar", ".jdeps", 1)
 	paramsPath := jarPath + "-2.params"
-	file, _ := os.Create(outputFileName)
+	file, err := os.Create(outputFileName)
+	if err != nil {
+		log.Fatal(err)
+	}
 	for dep := range unusedDeps(depsPath, directDepParams(paramsPath)) {
-		file.WriteString(dep + "\n")
+		if _, err := file.WriteString(dep + "\n"); err != nil {
+			log.Fatal(err)
+		}
+	}
+	if err := file.Close(); err != nil {
+		log.Fatal(err)
 	}
 }
 
@@ -390,7 +398,9 @@ func main() {
 	blazeArgs := append(buildCmd, targetPatterns...)
 
 	log.Printf("running: %s %s", *buildTool, strings.Join(blazeArgs, " "))
-	cmdWithStderr(*buildTool, blazeArgs...).Run()
+	if err := cmdWithStderr(*buildTool, blazeArgs...).Run(); err != nil {
+		log.Print(err)
+	}
 	binDir := blazeInfo(config.DefaultBinDir)
 	blazeOutputPath := blazeInfo(config.DefaultOutputPath)
 	fmt.Fprintf(os.Stderr, "\n") // vertical space between build output and unused_deps output
-- 
2.43.0


From 921a4a6d077e71daa874299eb634b5aff3290a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 27/40] fix: append symbols to a load statement in the
 requested order

---
 edit/edit.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 48e12bf..46a5bda 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -1075,9 +1075,13 @@ func AppendToLoad(load *build.LoadStmt, from, to []string) bool {
 	}
 
 	// Append the remaining loads to the load statement.
-	for s := range symbolsToLoad {
+	for _, s := range to {
+		if _, ok := symbolsToLoad[s]; !ok {
+			continue
+		}
 		load.From = append(load.From, &build.Ident{Name: symbolsToLoad[s]})
 		load.To = append(load.To, &build.Ident{Name: s})
+		delete(symbolsToLoad, s)
 	}
 	return true
 }
@@ -1109,13 +1113,17 @@ func appendLoad(stmts []build.Expr, location string, from, to []string) bool {
 	}
 
 	// Append the remaining loads to the last load location.
-	from = []string{}
-	to = []string{}
-	for t, f := range symbolsToLoad {
-		from = append(from, f)
-		to = append(to, t)
+	var remainingFrom, remainingTo []string
+	for _, t := range to {
+		f, ok := symbolsToLoad[t]
+		if !ok {
+			continue
+		}
+		remainingFrom = append(remainingFrom, f)
+		remainingTo = append(remainingTo, t)
+		delete(symbolsToLoad, t)
 	}
-	AppendToLoad(lastLoad, from, to)
+	AppendToLoad(lastLoad, remainingFrom, remainingTo)
 	return true
 }
 
-- 
2.43.0


From b76343ff109703fe7097c3b235f62a79c946a9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 28/40] fix: report lint findings in an order that does not
 depend on map iteration

---
 warn/warn_control_flow.go | 38 +++++++++++++++++++++++++++++++++-----
 warn/warn_cosmetic.go     |  6 +++++-
 warn/warn_docstring.go    |  9 ++++++++-
 warn/warn_macro.go        |  9 ++++++++-
 4 files changed, 54 insertions(+), 8 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 19206a2..abfc422 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -392,6 +393,21 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 	return assigned, used
 }
 
+// sortedIdents returns the idents in the order of their appearance in the source code.
+func sortedIdents(idents map[*build.Ident]bool) []*build.Ident {
+	var result []*build.Ident
+	for ident := range idents {
+		result = append(result, ident)
+	}
+	sort.Slice(result, func(i, j int) bool {
+		if result[i].NamePos.Line != result[j].NamePos.Line {
+			return result[i].NamePos.Line < result[j].NamePos.Line
+		}
+		return result[i].NamePos.LineRune < result[j].NamePos.LineRune
+	})
+	return result
+}
+
 // unusedVariableCheck checks for unused variables inside a given node `stmt` (either *build.File or
 // *build.DefStmt) and variables that are used in the current scope or subscopes,
 // but not defined here.
@@ -480,10 +496,10 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 			for symbol := range used {
 				usedSymbols[symbol.Name] = true
 			}
-			for symbol, isSuppressed := range assigned {
+			for _, symbol := range sortedIdents(assigned) {
 				if _, ok := definedSymbols[symbol.Name]; !ok {
 					definedSymbols[symbol.Name] = symbol
-					if isSuppressed {
+					if assigned[symbol] {
 						suppressedWarnings[symbol.Name] = true
 					}
 				}
@@ -513,7 +529,13 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 	// Do not warn on exportable variables.
 	ignoreTopLevel := (f.Type == build.TypeBzl || f.Type == build.TypeDefault) && root == f
 
-	for name, ident := range definedSymbols {
+	var definedNames []string
+	for name := range definedSymbols {
+		definedNames = append(definedNames, name)
+	}
+	sort.Strings(definedNames)
+	for _, name := range definedNames {
+		ident := definedSymbols[name]
 		if _, ok := usedSymbols[name]; ok {
 			// The variable is used either in this scope or in a nested scope
 			continue
@@ -529,7 +551,13 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 			makeLinterFinding(ident, fmt.Sprintf(`Variable %q is unused. Please remove it.`, ident.Name)))
 	}
 
-	for name, def := range definedFunctions {
+	var definedFunctionNames []string
+	for name := range definedFunctions {
+		definedFunctionNames = append(definedFunctionNames, name)
+	}
+	sort.Strings(definedFunctionNames)
+	for _, name := range definedFunctionNames {
+		def := definedFunctions[name]
 		if _, ok := usedSymbols[name]; ok {
 			// The function is used either in this scope or in a nested scope
 			continue
@@ -783,7 +811,7 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 				// the comprehension.
 
 				_, used := extractIdentsFromStmt(expr)
-				for ident := range used {
+				for _, ident := range sortedIdents(used) {
 					callbackIfNeeded(ident)
 				}
 
diff --git a/warn/warn_cosmetic.go b/warn/warn_cosmetic.go
index ca46f4d..3b03c24 100644
--- a/warn/warn_cosmetic.go
+++ b/warn/warn_cosmetic.go
@@ -102,7 +102,11 @@ func packageOnTopWarning(f *build.File) []*LinterFinding {
 	}
 
 	var findings []*LinterFinding
-	for _, load := range misplacedPackages {
+	for i := range f.Stmt {
+		load, ok := misplacedPackages[i]
+		if !ok {
+			continue
+		}
 		findings = append(findings, makeLinterFinding(load,
 			"Package declaration should be at the top of the file, after the load() statements, "+
 				"but before any call to a rule or a macro. "+
diff --git a/warn/warn_docstring.go b/warn/warn_docstring.go
index 71b3256..a159c90 100644
--- a/warn/warn_docstring.go
+++ b/warn/warn_docstring.go
@@ -19,6 +19,7 @@ package warn
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -349,7 +350,13 @@ one (preferably two) space more than "Args:", for example:
 		}
 
 		// Check whether all documented arguments actually exist in the function signature.
-		for name, pos := range info.args {
+		var documentedArguments []string
+		for name := range info.args {
+			documentedArguments = append(documentedArguments, name)
+		}
+		sort.Strings(documentedArguments)
+		for _, name := range documentedArguments {
+			pos := info.args[name]
 			if paramNames[name] {
 				continue
 			}
diff --git a/warn/warn_macro.go b/warn/warn_macro.go
index 65b071c..0bcacc8 100644
--- a/warn/warn_macro.go
+++ b/warn/warn_macro.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -258,7 +259,13 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 	// Prioritize function calls from already loaded files. If some of the function calls are from the same file
 	// (or another file that has been loaded already), check them first.
 	var knownFunCalls, newFunCalls []funCall
-	for _, fc := range funCalls {
+	var calledNames []string
+	for name := range funCalls {
+		calledNames = append(calledNames, name)
+	}
+	sort.Strings(calledNames)
+	for _, name := range calledNames {
+		fc := funCalls[name]
 		if _, ok := ma.files[fc.function.pkg+":"+fc.function.filename]; ok || fc.function.filename == nativeModule {
 			knownFunCalls = append(knownFunCalls, fc)
 		} else {
-- 
2.43.0


From 2b1932ea41edc8003fccdeabd964c4a545e34b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 29/40] fix: write unused deps in sorted order

---
 unused_deps/unused_deps.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 3f8db42..4c04768 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -28,6 +28,7 @@ import (
 	"os"
 	"os/exec"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -119,7 +120,12 @@ func writeUnusedDeps(jarPath, outputFileName string) {
 	if err != nil {
 		log.Fatal(err)
 	}
+	var deps []string
 	for dep := range unusedDeps(depsPath, directDepParams(paramsPath)) {
+		deps = append(deps, dep)
+	}
+	sort.Strings(deps)
+	for _, dep := range deps {
 		if _, err := file.WriteString(dep + "\n"); err != nil {
 			log.Fatal(err)
 		}
-- 
2.43.0


From ba1b85d41334a7bf3cf9d71d63341370bda0a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 30/40] fix: list added warning categories in sorted order

---
 buildifier/config/validation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buildifier/config/validation.go b/buildifier/config/validation.go
index 87cc393..b9f559a 100644
--- a/buildifier/config/validation.go
+++ b/buildifier/config/validation.go
@@ -18,6 +18,7 @@ package config
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -132,9 +133,12 @@ func ValidateWarnings(warnings *string, allWarnings, defaultWarnings *[]string)
 					warningsList = append(warningsList, warning)
 				}
 			}
+			var added []string
 			for warning := range plus {
-				warningsList = append(warningsList, warning)
+				added = append(added, warning)
 			}
+			sort.Strings(added)
+			warningsList = append(warningsList, added...)
 		}
 	}
 	return warningsList, nil
-- 
2.43.0


From bd938b58a59e98e7b1307a60a72097370a9dc1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:35 +0000
Subject: [PATCH 31/40] fix: compute suggestions without rewriting the analysed
 file

---
 warn/warn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index 65b7882..2797995 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -356,7 +356,7 @@ func FileWarnings(f *build.File, enabledWarnings []string, formatted *[]byte, mo
 
 	// If suggestions are requested and formatted file is not provided, format it to compare modified versions with
 	if mode == ModeSuggest && formatted == nil {
-		contents := build.Format(f)
+		contents := build.FormatWithoutRewriting(f)
 		formatted = &contents
 	}
 
@@ -385,7 +385,8 @@ func formatWithFix(f *build.File, replacements *[]LinterReplacement) []byte {
 		defer func() { *r.Old = old }()
 	}
 
-	return build.Format(f)
+	// Rewriting would modify the file in place, the rollback of the fix couldn't undo that.
+	return build.FormatWithoutRewriting(f)
 }
 
 // calculateDifference compares two file contents and returns a replacement in the form of
-- 
2.43.0


From 498e0df97e00b085cef7777c333694c7fee7ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:22 +0000
Subject: [PATCH 32/40] fix: don't exit with 0 after a failed read when an
 output format is given

With --format the diagnostics tell about syntax errors, findings and
formatting, but a file that could not be read does not appear in them.
The status of such a failure must not be reset, nor replaced by the
status of a later file.
---
 buildifier/buildifier.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/buildifier/buildifier.go b/buildifier/buildifier.go
index ef2e1dc..a995a4e 100644
--- a/buildifier/buildifier.go
+++ b/buildifier/buildifier.go
@@ -203,8 +203,11 @@ func (b *buildifier) run(args []string) int {
 	if b.config.Format != "" {
 		// Explicitly provided --format means the diagnostics are printed to stdout
 		fmt.Print(diagnosticsOutput)
-		// Exit code should be set to 0 so that other tools know they can safely parse the json
-		exitCode = 0
+		// Exit code should be set to 0 so that other tools know they can safely parse the json,
+		// unless there was an internal failure, which the diagnostics don't include
+		if exitCode != 3 {
+			exitCode = 0
+		}
 	} else {
 		// --format is not provided, stdout is reserved for file contents
 		fmt.Fprint(os.Stderr, diagnosticsOutput)
@@ -271,7 +274,7 @@ func (b *buildifier) processFiles(files []string, tf *utils.TempFile) (*utils.Di
 		if fd != nil {
 			fileDiagnostics = append(fileDiagnostics, fd)
 		}
-		if newExitCode != 0 {
+		if newExitCode != 0 && exitCode != 3 {
 			exitCode = newExitCode
 		}
 	}
-- 
2.43.0


From 850fcd4f0e66f2f61cc3ce99caa42da5fd27cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:25 +0000
Subject: [PATCH 33/40] fix: execute all commands for a file together however
 its name is spelled

---
 edit/buildozer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 3c71f63..bf165d0 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1353,6 +1353,12 @@ func appendCommands(opts *Options, commandMap map[string][]commandsForTarget, ar
 		}
 
 		for _, file := range buildFiles {
+			if file != stdinPackageName {
+				// All commands for a file should be executed together, no matter how its name is spelled.
+				if file, err = filepath.Abs(file); err != nil {
+					return err
+				}
+			}
 			commandMap[file] = append(commandMap[file], commandsForTarget{target, commands})
 		}
 	}
-- 
2.43.0


From ae511030a65eacc9252689b5175ae6f9ce7d5844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:49 +0000
Subject: [PATCH 34/40] fix: edit only one of several BUILD files of a
 directory for a package pattern

---
 edit/buildozer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index bf165d0..7083a91 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1314,17 +1314,22 @@ func findBuildFiles(rootDir string) []string {
 			continue
 		}
 
+		// If a directory has several BUILD files, only the first of BuildFileNames is used.
+		found := len(BuildFileNames)
 		for _, dirFile := range dirFiles {
 			if dirFile.IsDir() {
 				searchDirs = append(searchDirs, filepath.Join(dir, dirFile.Name()))
 			} else {
-				for _, buildFileName := range BuildFileNames {
-					if dirFile.Name() == buildFileName {
-						buildFiles = append(buildFiles, filepath.Join(dir, dirFile.Name()))
+				for i, buildFileName := range BuildFileNames {
+					if dirFile.Name() == buildFileName && i < found {
+						found = i
 					}
 				}
 			}
 		}
+		if found < len(BuildFileNames) {
+			buildFiles = append(buildFiles, filepath.Join(dir, BuildFileNames[found]))
+		}
 	}
 
 	return buildFiles
-- 
2.43.0


From 0f06b4846a40c122775f0d74d345ed492d15eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:25 +0000
Subject: [PATCH 35/40] fix: don't let a disabling comment suppress warnings
 whose name merely begins with the given one

---
 warn/warn.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/warn/warn.go b/warn/warn.go
index 2797995..9806316 100644
--- a/warn/warn.go
+++ b/warn/warn.go
@@ -22,9 +22,9 @@ import (
 	"log"
 	"os"
 	"sort"
+	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
-	"github.com/bazelbuild/buildtools/edit"
 )
 
 // LintMode is an enum representing a linter mode. Can be either "warn", "fix", or "suggest"
@@ -310,8 +310,31 @@ func runWarningsFunction(category string, f *build.File, fct func(f *build.File,
 
 // HasDisablingComment checks if a node has a comment that disables a certain warning
 func HasDisablingComment(expr build.Expr, warning string) bool {
-	return edit.ContainsComments(expr, "buildifier: disable="+warning) ||
-		edit.ContainsComments(expr, "buildozer: disable="+warning)
+	return hasDirective(expr, "buildifier: disable="+warning) ||
+		hasDirective(expr, "buildozer: disable="+warning)
+}
+
+// hasDirective checks if a node has a comment with the directive, and not just with a directive
+// for another warning whose name begins with the same characters.
+func hasDirective(expr build.Expr, directive string) bool {
+	directive = strings.ToLower(directive)
+	com := expr.Comment()
+	for _, comments := range [][]build.Comment{com.Before, com.Suffix, com.After} {
+		for _, c := range comments {
+			_, rest, found := strings.Cut(strings.ToLower(c.Token), directive)
+			for found {
+				if rest == "" || !isWarningNameChar(rest[0]) {
+					return true
+				}
+				_, rest, found = strings.Cut(rest, directive)
+			}
+		}
+	}
+	return false
+}
+
+func isWarningNameChar(c byte) bool {
+	return 'a' <= c && c <= 'z' || '0' <= c && c <= '9' || c == '-' || c == '_'
 }
 
 // DisabledWarning checks if the warning was disabled by a comment.
-- 
2.43.0


From 69d2b8c8866fc788cdb0db9fedafc6b4d26688c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:27 +0000
Subject: [PATCH 36/40] fix: keep a file's package when statements are removed
 from it

buildozer took every file it had removed a rule from to be in the top-level
package, so that later commands for '//...:x' neither shortened nor found
labels relative to the file's package.
---
 edit/bzlmod/bzlmod.go |  4 +++-
 edit/edit.go          | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/edit/bzlmod/bzlmod.go b/edit/bzlmod/bzlmod.go
index 4a3fc42..fbd93c6 100644
--- a/edit/bzlmod/bzlmod.go
+++ b/edit/bzlmod/bzlmod.go
@@ -115,7 +115,9 @@ func NewUseRepo(f *build.File, proxies []string) (*build.File, *build.CallExpr)
 	}
 	stmt := append(f.Stmt[:lastUsage+1], append([]build.Expr{useRepo}, f.Stmt[lastUsage+1:]...)...)
 
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: stmt, Type: build.TypeModule}, useRepo
+	res := *f
+	res.Stmt = stmt
+	return &res, useRepo
 }
 
 // AddRepoUsages adds the given repos to the given use_repo calls without introducing duplicate
diff --git a/edit/edit.go b/edit/edit.go
index 46a5bda..ec5b4a8 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -173,6 +173,13 @@ func PackageDeclaration(f *build.File) *build.Rule {
 	return &build.Rule{Call: call, ImplicitName: ""}
 }
 
+// withStatements returns a copy of the file with other statements.
+func withStatements(f *build.File, stmts []build.Expr) *build.File {
+	res := *f
+	res.Stmt = stmts
+	return &res
+}
+
 // RemoveEmptyPackage removes empty package declarations from the file, i.e.:
 //
 //	package()
@@ -187,7 +194,7 @@ func RemoveEmptyPackage(f *build.File) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 func isEmptyPackage(expr build.Expr) bool {
@@ -221,7 +228,7 @@ func RemoveEmptyUseRepoCalls(f *build.File) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: build.TypeModule}
+	return withStatements(f, all)
 }
 
 func isEmptyUseRepoCall(expr build.Expr) bool {
@@ -348,7 +355,7 @@ func DeleteRule(f *build.File, rule *build.Rule) *build.File {
 		}
 		all = append(all, stmt)
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 // DeleteRuleByName returns the AST without the rules that have the
@@ -366,7 +373,7 @@ func DeleteRuleByName(f *build.File, name string) *build.File {
 			all = append(all, stmt)
 		}
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 // DeleteRuleByKind removes the rules of the specified kind from the AST.
@@ -384,7 +391,7 @@ func DeleteRuleByKind(f *build.File, kind string) *build.File {
 			all = append(all, stmt)
 		}
 	}
-	return &build.File{Path: f.Path, Comments: f.Comments, Stmt: all, Type: f.Type}
+	return withStatements(f, all)
 }
 
 // AllLists returns all the lists concatenated in an expression.
-- 
2.43.0


From a8d5c64e91a1187b1c000aa1df269810beb65de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:33 +0000
Subject: [PATCH 37/40] fix: dict_remove keeps the entries whose key is not a
 string

---
 edit/edit.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index ec5b4a8..a69581f 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -949,12 +949,10 @@ func DictionaryDelete(dict *build.DictExpr, key string) (deleted build.Expr) {
 	deleted = nil
 	var all []*build.KeyValueExpr
 	for _, kv := range dict.List {
-		if k, ok := kv.Key.(*build.StringExpr); ok {
-			if k.Value == key {
-				deleted = kv
-			} else {
-				all = append(all, kv)
-			}
+		if k, ok := kv.Key.(*build.StringExpr); ok && k.Value == key {
+			deleted = kv
+		} else {
+			all = append(all, kv)
 		}
 	}
 	dict.List = all
-- 
2.43.0


From bb2d21ca6e6a354c51f42553522a312c0be458fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:22 +0000
Subject: [PATCH 38/40] fix: keep what replaces a dict entry or a comprehension
 clause in a walk

WalkOnce passed its callback a pointer to a copy of these children, so a node
that build.Edit or WalkPointers put in their place was lost.
---
 build/walk.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/build/walk.go b/build/walk.go
index dd279a7..f90756a 100644
--- a/build/walk.go
+++ b/build/walk.go
@@ -171,11 +171,14 @@ func WalkOnce(v Expr, f func(x *Expr)) {
 		for i := range v.List {
 			e := Expr(v.List[i])
 			f(&e)
+			if kv, ok := e.(*KeyValueExpr); ok {
+				v.List[i] = kv
+			}
 		}
 	case *Comprehension:
 		f(&v.Body)
-		for _, c := range v.Clauses {
-			f(&c)
+		for i := range v.Clauses {
+			f(&v.Clauses[i])
 		}
 	case *IfClause:
 		f(&v.Cond)
-- 
2.43.0


From 084b232cc9aefb0bffa6b4e3f13819ae63597f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:50 +0000
Subject: [PATCH 39/40] fix: convertast keeps slice steps, dict comprehensions
 and large integers

A slice's step was only printed after a second colon that was never set, a
dict comprehension was not recognised, and an integer that does not fit into
an int64 caused a panic.
---
 convertast/convert_ast.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 6978354..0de3829 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -22,7 +22,6 @@ package convertast
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -172,7 +171,7 @@ func convExpr(e syntax.Expr) build.Expr {
 		switch e.Token {
 		case syntax.INT:
 			return &build.LiteralExpr{
-				Token:    strconv.FormatInt(e.Value.(int64), 10),
+				Token:    fmt.Sprint(e.Value), // an int64 or, if it is too large for one, a *big.Int
 				Comments: convComments(e.Comments())}
 		case syntax.FLOAT:
 			return &build.LiteralExpr{
@@ -206,7 +205,12 @@ func convExpr(e syntax.Expr) build.Expr {
 	case *syntax.UnaryExpr:
 		return &build.UnaryExpr{Op: e.Op.String(), X: convExpr(e.X)}
 	case *syntax.SliceExpr:
-		return &build.SliceExpr{X: convExpr(e.X), From: convExpr(e.Lo), To: convExpr(e.Hi), Step: convExpr(e.Step)}
+		slice := &build.SliceExpr{X: convExpr(e.X), From: convExpr(e.Lo), To: convExpr(e.Hi), Step: convExpr(e.Step)}
+		if e.Step != nil {
+			// The step is printed only after a second colon, its exact position is unknown.
+			slice.SecondColon = build.Position{Line: int(e.Rbrack.Line), LineRune: int(e.Rbrack.Col), Byte: 1}
+		}
+		return slice
 	case *syntax.DotExpr:
 		return &build.DotExpr{X: convExpr(e.X), Name: e.Name.Name}
 	case *syntax.CallExpr:
@@ -228,14 +232,15 @@ func convExpr(e syntax.Expr) build.Expr {
 	case *syntax.DictExpr:
 		list := []*build.KeyValueExpr{}
 		for i := range e.List {
-			entry := e.List[i].(*syntax.DictEntry)
-			list = append(list, &build.KeyValueExpr{
-				Key:      convExpr(entry.Key),
-				Value:    convExpr(entry.Value),
-				Comments: convComments(entry.Comments()),
-			})
+			list = append(list, convExpr(e.List[i]).(*build.KeyValueExpr))
 		}
 		return &build.DictExpr{List: list, Comments: convComments(e.Comments())}
+	case *syntax.DictEntry:
+		return &build.KeyValueExpr{
+			Key:      convExpr(e.Key),
+			Value:    convExpr(e.Value),
+			Comments: convComments(e.Comments()),
+		}
 	case *syntax.CondExpr:
 		return &build.ConditionalExpr{
 			Then:     convExpr(e.True),
-- 
2.43.0


From dd09210c3996f19cce29e0a927137db1f7b135ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:55 +0000
Subject: [PATCH 40/40] fix: convertast keeps the comments of all nodes

The comments of load statements, calls, unary and slice expressions, clauses,
and of the names in def statements and dot expressions were lost.
---
 convertast/convert_ast.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/convertast/convert_ast.go b/convertast/convert_ast.go
index 0de3829..3eb725a 100644
--- a/convertast/convert_ast.go
+++ b/convertast/convert_ast.go
@@ -56,6 +56,7 @@ func convStmt(stmt syntax.Stmt) build.Expr {
 		load := &build.LoadStmt{
 			Module:       convExpr(stmt.Module).(*build.StringExpr),
 			ForceCompact: singleLine(stmt),
+			Comments:     convComments(stmt.Comments()),
 		}
 		for _, ident := range stmt.From {
 			load.From = append(load.From, convExpr(ident).(*build.Ident))
@@ -81,7 +82,7 @@ func convStmt(stmt syntax.Stmt) build.Expr {
 	case *syntax.DefStmt:
 		return &build.DefStmt{
 			Name:     stmt.Name.Name,
-			Comments: convComments(stmt.Comments()),
+			Comments: mergeComments(convComments(stmt.Comments()), convComments(stmt.Name.Comments())),
 			Function: build.Function{
 				Params: convExprs(stmt.Params),
 				Body:   convStmts(stmt.Body),
@@ -127,6 +128,15 @@ func convCommentList(list []syntax.Comment, txt string) []build.Comment {
 	return res
 }
 
+// mergeComments returns the comments of a node together with those of a part of it that isn't converted to a node.
+func mergeComments(node, part build.Comments) build.Comments {
+	return build.Comments{
+		Before: append(node.Before, part.Before...),
+		Suffix: append(part.Suffix, node.Suffix...),
+		After:  append(part.After, node.After...),
+	}
+}
+
 func convComments(c *syntax.Comments) build.Comments {
 	if c == nil {
 		return build.Comments{}
@@ -150,12 +160,14 @@ func convClauses(list []syntax.Node) []build.Expr {
 		switch stmt := c.(type) {
 		case *syntax.ForClause:
 			res = append(res, &build.ForClause{
-				Vars: convExpr(stmt.Vars),
-				X:    convExpr(stmt.X),
+				Vars:     convExpr(stmt.Vars),
+				X:        convExpr(stmt.X),
+				Comments: convComments(stmt.Comments()),
 			})
 		case *syntax.IfClause:
 			res = append(res, &build.IfClause{
-				Cond: convExpr(stmt.Cond),
+				Cond:     convExpr(stmt.Cond),
+				Comments: convComments(stmt.Comments()),
 			})
 		}
 	}
@@ -203,16 +215,27 @@ func convExpr(e syntax.Expr) build.Expr {
 			LineBreak: lhsEnd.Line != rhsBegin.Line,
 			Comments:  convComments(e.Comments())}
 	case *syntax.UnaryExpr:
-		return &build.UnaryExpr{Op: e.Op.String(), X: convExpr(e.X)}
+		return &build.UnaryExpr{
+			Op:       e.Op.String(),
+			X:        convExpr(e.X),
+			Comments: convComments(e.Comments())}
 	case *syntax.SliceExpr:
-		slice := &build.SliceExpr{X: convExpr(e.X), From: convExpr(e.Lo), To: convExpr(e.Hi), Step: convExpr(e.Step)}
+		slice := &build.SliceExpr{
+			X:        convExpr(e.X),
+			From:     convExpr(e.Lo),
+			To:       convExpr(e.Hi),
+			Step:     convExpr(e.Step),
+			Comments: convComments(e.Comments())}
 		if e.Step != nil {
 			// The step is printed only after a second colon, its exact position is unknown.
 			slice.SecondColon = build.Position{Line: int(e.Rbrack.Line), LineRune: int(e.Rbrack.Col), Byte: 1}
 		}
 		return slice
 	case *syntax.DotExpr:
-		return &build.DotExpr{X: convExpr(e.X), Name: e.Name.Name}
+		return &build.DotExpr{
+			X:        convExpr(e.X),
+			Name:     e.Name.Name,
+			Comments: mergeComments(convComments(e.Comments()), convComments(e.Name.Comments()))}
 	case *syntax.CallExpr:
 		args := []build.Expr{}
 		for _, a := range e.Args {
@@ -222,6 +245,7 @@ func convExpr(e syntax.Expr) build.Expr {
 			X:            convExpr(e.Fn),
 			List:         args,
 			ForceCompact: singleLine(e),
+			Comments:     convComments(e.Comments()),
 		}
 	case *syntax.ListExpr:
 		list := []build.Expr{}
-- 
2.43.0

