From 90628ac08bf9a7ef890c366264305b95f5110c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 01/84] fix: an escaped sequence separator at the end of a word
 crashed the parser

After removing the backslash the separator is one byte further left; not
following it skipped the next byte and ran out of the word at its end.
---
 pkg/core/parser/sequence.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/core/parser/sequence.go b/pkg/core/parser/sequence.go
index cda7e53..f5b0d4e 100644
--- a/pkg/core/parser/sequence.go
+++ b/pkg/core/parser/sequence.go
@@ -43,6 +43,8 @@ func (self *SequenceParser) Normalize(argv []string) []string {
 			//  2. this is a workaround, we also need to handle '\\', '\\\', ... things like that
 			if searchIdx >= 1 && "\\" == arg[searchIdx-1:searchIdx] {
 				arg = arg[0:searchIdx-1] + arg[searchIdx:]
+				// The sep moved one byte to the left
+				searchIdx -= 1
 				continue
 			}
 			unbreakable := false
-- 
2.43.0


From 2e0e18f934ba8195c9da394940a3605f32b643ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 02/84] fix: a tolerated failure of a flow made the sequence
 loop forever

The recovered panic left the returned command index at 0, so the sequence
started over; and the stack of the failed subflows was never stepped out.
---
 pkg/core/model/cmd.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index db61fae..45e3cd1 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -201,7 +201,16 @@ func (self *Cmd) Execute(
 		env.GetLayer(EnvLayerSession).SetInt(self.autoTimerKeys.Begin, int(begin.Unix()))
 	}
 
+	session := env.GetLayer(EnvLayerSession)
+	stack := session.GetRaw("sys.stack")
+	stackDepth := session.GetRaw("sys.stack-depth")
+
 	newCurrCmdIdx, ok = self.execute(argv, cc, env, mask, flow, allowError, currCmdIdx, tryBreakInsideFileNFlow)
+	if !ok && allowError {
+		// The failed subflows did not step out
+		session.Set("sys.stack", stack)
+		session.Set("sys.stack-depth", stackDepth)
+	}
 	if !ok {
 		// Normally the command should print info before return false, so no need to panic
 		// panic(NewCmdError(flow.Cmds[currCmdIdx], "command failed without detail info"))
@@ -262,6 +271,10 @@ func (self *Cmd) execute(
 			if r != nil && !self.flags.quietError && !allowError {
 				panic(r)
 			}
+			if r != nil {
+				// The panic skipped the assignment of the returned index
+				newCurrCmdIdx = currCmdIdx
+			}
 		}()
 	}
 
-- 
2.43.0


From 32d2799dc6f877c5cde3eb9de813bb45a7aff88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 03/84] fix: failures inside nested flows corrupted the session
 record

A failed subflow was never closed in the status file, so everything recorded
after it (the caller's own result, the commands after a tolerated failure)
was lost when reading the session.
---
 pkg/core/model/cmd.go      | 9 +++++++--
 pkg/core/model/executed.go | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 45e3cd1..bf48c8e 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -264,7 +264,7 @@ func (self *Cmd) execute(
 				_, isAbort = err.(*AbortByUserErr)
 			}
 
-			if (r == nil || !handledErr) && !isAbort {
+			if (r == nil || !handledErr || allowError) && !isAbort {
 				cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
 				cc.HandledErrors[r] = true
 			}
@@ -944,9 +944,14 @@ func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask)
 	if cc.FlowStatus != nil {
 		cc.FlowStatus.OnSubFlowStart(flowEnv, flowStr)
 		defer func() {
-			if succeeded {
+			r := recover()
+			if _, isAbort := r.(*AbortByUserErr); !isAbort {
+				// Close the subflow even if it failed, the caller may tolerate the failure
 				cc.FlowStatus.OnSubFlowFinish(flowEnv, succeeded, skipped)
 			}
+			if r != nil {
+				panic(r)
+			}
 		}()
 	}
 	if mask != nil && len(mask.SubFlow) != 0 {
diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index db692b3..bc44370 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -260,6 +260,10 @@ func parseExecutedCmds(path ExecutedStatusFilePath, lines []string,
 		}
 		if !ok {
 			if _, _, ok := parseMarkedOneLineContent(path, lines, "flow-finish-time", level); ok {
+				// The last command has no result of its own if the failure came from its subflow
+				if cmd != nil {
+					cmds = append(cmds, cmd)
+				}
 				break
 			}
 			if len(lines) != 0 {
-- 
2.43.0


From 526575eef8660c1b592671dad2d55844b4efe24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 04/84] fix: a sequence of one command after a separator ran
 without session

': <cmd>' was treated as tail-mode with nothing in front, so no session was
made and an executable could not run.
---
 pkg/core/execute/executor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index e4e0d61..6810205 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -369,7 +369,12 @@ func moveLastPriorityCmdToFront(
 	}
 
 	if cnt >= 2 && len(flow[cnt-2].ParseResult.Input) == 0 {
-		flow = trim(flow[:cnt-2])
+		lead := trim(flow[:cnt-2])
+		if len(lead) == 0 && !last.IsPriority() && !last.AllowTailModeCall() {
+			// Only seps are in front of the command, there is nothing to be moved over
+			return flow, false, false, false
+		}
+		flow = lead
 	} else if last.IsPriority() {
 		flow = trim(flow[:cnt-1])
 	} else {
-- 
2.43.0


From 5ad0337c88da16d907f4e78ee23f9d2684c8faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 05/84] fix: a word that is just an escaped sequence separator
 was taken as separator

After unescaping it looked like a real one; remember which ones are real.
---
 pkg/core/parser/sequence.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/core/parser/sequence.go b/pkg/core/parser/sequence.go
index f5b0d4e..6bab99c 100644
--- a/pkg/core/parser/sequence.go
+++ b/pkg/core/parser/sequence.go
@@ -23,8 +23,15 @@ func NewSequenceParser(
 }
 
 func (self *SequenceParser) Normalize(argv []string) []string {
+	res, _ := self.normalize(argv)
+	return res
+}
+
+// An escaped sep could be the same as a sep, so the indexes of the real ones are also returned
+func (self *SequenceParser) normalize(argv []string) (res []string, seps map[int]bool) {
 	sepN := len(self.sep)
-	res := []string{}
+	res = []string{}
+	seps = map[int]bool{}
 	for _, arg := range argv {
 		if len(arg) == 0 {
 			res = append(res, arg)
@@ -71,25 +78,26 @@ func (self *SequenceParser) Normalize(argv []string) []string {
 			if handledIdx != searchIdx {
 				res = append(res, arg[handledIdx:searchIdx])
 			}
+			seps[len(res)] = true
 			res = append(res, self.sep)
 			handledIdx = searchIdx + sepN
 		}
 	}
-	return res
+	return res, seps
 }
 
 func (self *SequenceParser) Parse(argv []string) (parsed [][]string, firstIsGlobal bool) {
-	argv = self.Normalize(argv)
+	argv, seps := self.normalize(argv)
 
 	firstIsGlobal = true
-	if len(argv) != 0 && argv[0] == self.sep {
+	if seps[0] {
 		firstIsGlobal = false
 	}
 
 	parsed = [][]string{}
 	curr := []string{}
-	for _, arg := range argv {
-		if arg != self.sep {
+	for i, arg := range argv {
+		if !seps[i] {
 			arg = strings.TrimSpace(arg)
 			//if len(arg) != 0 {
 			curr = append(curr, arg)
-- 
2.43.0


From 10c49bfd91f6dce5801cbc8da9390e3adf8f99b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 06/84] fix: a leading brace setting of a flow equal to the
 current value was lost when that value changed

---
 pkg/core/model/env.go     | 6 ++++++
 pkg/core/model/parsing.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/env.go b/pkg/core/model/env.go
index 9aa42db..7389497 100644
--- a/pkg/core/model/env.go
+++ b/pkg/core/model/env.go
@@ -196,6 +196,12 @@ func (self *Env) SetEx(name string, val string, isArg bool, isSysArg bool) (old
 	return
 }
 
+// Unlike 'SetEx', keep the value in this layer even if a lower layer has the same one for now,
+// the lower one may change later
+func (self *Env) SetInSelfLayer(name string, val string, isArg bool, isSysArg bool) {
+	self.pairs[name] = EnvVal{val, isArg, isSysArg}
+}
+
 func (self *Env) Parent() *Env {
 	return self.parent
 }
diff --git a/pkg/core/model/parsing.go b/pkg/core/model/parsing.go
index daedb31..f8c891b 100644
--- a/pkg/core/model/parsing.go
+++ b/pkg/core/model/parsing.go
@@ -442,7 +442,7 @@ func (self ParsedEnv) WriteNotArgTo(env *Env, valDelAllMark string) {
 		if v.Val == valDelAllMark {
 			env.Delete(k)
 		} else if !v.IsArg {
-			env.SetEx(k, v.Val, v.IsArg, v.IsSysArg)
+			env.SetInSelfLayer(k, v.Val, v.IsArg, v.IsSysArg)
 		}
 	}
 }
-- 
2.43.0


From a4369e33d021448b5dc06ae45677d46624872454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 07/84] fix: argument values with quotes, backslashes or shell
 symbols were lost in flows

---
 pkg/core/model/flow.go | 33 ++++++++++++---------------------
 pkg/utils/misc.go      | 15 ---------------
 2 files changed, 12 insertions(+), 36 deletions(-)

diff --git a/pkg/core/model/flow.go b/pkg/core/model/flow.go
index 5bbb3b8..0b42b1d 100644
--- a/pkg/core/model/flow.go
+++ b/pkg/core/model/flow.go
@@ -6,8 +6,6 @@ import (
 	"io"
 	"sort"
 	"strings"
-
-	"github.com/innerr/ticat/pkg/utils"
 )
 
 func SaveFlowToStr(flow *ParsedCmds, cmdPathSep string, trivialMark string, env *Env) string {
@@ -107,8 +105,11 @@ func SaveFlowEnv(
 		if strings.HasPrefix(k, prefix) && len(k) != len(prefix) {
 			k = strings.Join(v.MatchedPath[len(prefixPath):], pathSep)
 		}
-		val := normalizeEnvVal(v.Val, seqSep)
-		kv := fmt.Sprintf("%v%s%v", k, envKeyValSep, utils.QuoteStrIfHasSpace(val))
+		kv := k + envKeyValSep + quoteEnvVal(v.Val, seqSep)
+		if len(v.Val) == 0 {
+			// Only a separated empty string could be recognized as a value by parser
+			kv = k + " " + envKeyValSep + " " + quoteEnvVal(v.Val, seqSep)
+		}
 		kvs = append(kvs, kv)
 	}
 
@@ -120,24 +121,14 @@ func SaveFlowEnv(
 	return true
 }
 
-func normalizeEnvVal(v string, seqSep string) string {
-	i := 0
-	for i < len(v) {
-		origin := i
-		i = strings.Index(v[i:], seqSep)
-		if i < 0 {
-			break
-		}
-		i += origin
-		if i > len(BackSlash) && v[i-len(BackSlash):i] == BackSlash {
-			i += len(seqSep)
-			continue
-		}
-		// NOTE: shellwords in 'cmd.go#FlowStrToStrs' will eat the single '\', so double '\\' is needed
-		v = v[0:i] + BackSlash + BackSlash + seqSep + v[i+len(seqSep):]
-		i += len(BackSlash)*2 + len(seqSep)
+// The reverse operation of shellwords in 'cmd.go#FlowStrToStrs' and then the sequence parser
+func quoteEnvVal(v string, seqSep string) string {
+	v = strings.ReplaceAll(v, seqSep, BackSlash+seqSep)
+	v = strings.ReplaceAll(v, BackSlash, BackSlash+BackSlash)
+	if len(v) != 0 && strings.IndexAny(v, " \t\r\n\"'`;&|<>()") < 0 {
+		return v
 	}
-	return v
+	return "\"" + strings.ReplaceAll(v, "\"", BackSlash+"\"") + "\""
 }
 
 // TODO: put '\' to env
diff --git a/pkg/utils/misc.go b/pkg/utils/misc.go
index c7838d6..8ffa3fd 100644
--- a/pkg/utils/misc.go
+++ b/pkg/utils/misc.go
@@ -143,21 +143,6 @@ func NormalizeDurStr(durStr string) string {
 	return durStr
 }
 
-func QuoteStrIfHasSpace(str string) string {
-	if strings.IndexAny(str, " \t\r\n") < 0 {
-		return str
-	}
-	i := strings.Index(str, "\"")
-	if i < 0 {
-		return "\"" + str + "\""
-	}
-	i = strings.Index(str, "'")
-	if i < 0 {
-		return "'" + str + "'"
-	}
-	return str
-}
-
 // TODO: may not right, use PidExists to do that
 func IsPidRunning(pid int) bool {
 	// err := syscall.Kill(pid, syscall.Signal(0))
-- 
2.43.0


From 8e6abf802fe1d532f59fc1ca9576b1f2303a1742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 08/84] fix: user keys starting with a reserved name were not
 saved

The filter of SaveEnvToFile, of the essential env listing and of the session
record treated exact key names like 'session' as prefixes.
---
 pkg/core/model/env.go   | 10 +++++++++-
 pkg/core/model/proto.go |  5 +++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/env.go b/pkg/core/model/env.go
index 7389497..37a41db 100644
--- a/pkg/core/model/env.go
+++ b/pkg/core/model/env.go
@@ -324,7 +324,7 @@ func (self *Env) flatten(
 	for k, v := range self.pairs {
 		filtered := false
 		for _, filterPrefix := range filterPrefixs {
-			if len(filterPrefix) != 0 && strings.HasPrefix(k, filterPrefix) {
+			if matchEnvKeyFilter(k, filterPrefix) {
 				filtered = true
 				break
 			}
@@ -337,6 +337,14 @@ func (self *Env) flatten(
 	}
 }
 
+// A filter ends with the path sep matches all keys under this path, otherwise it matches only the exact key
+func matchEnvKeyFilter(key string, filter string) bool {
+	if strings.HasSuffix(filter, ".") {
+		return strings.HasPrefix(key, filter)
+	}
+	return key == filter
+}
+
 func IsSensitiveKeyVal(key string, val string) bool {
 	sensitives := []string{
 		"pwd",
diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 1db1472..1e79bb6 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -90,9 +90,10 @@ func SaveEnvToFile(env *Env, path string, sep string, skipDefault bool) {
 		"sys.stack",
 		"sys.stack-depth",
 		"sys.session.",
-		"sys.interact",
-		"sys.breakpoint",
+		"sys.interact.",
+		"sys.breakpoint.",
 		"sys.execute-wait-sec",
+		"sys.execute-wait-sec.",
 		"sys.event.",
 		"sys.paths.",
 	}
-- 
2.43.0


From a7471e975536675e706ec91996c3be6ac35c95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 09/84] fix: saved environment lost empty and long values and
 kept argument values of flow calls

A flow calling env.save stored its own argument values and internal keys, which
then overrode the arguments' defaults in all later runs.
---
 pkg/core/model/proto.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 1e79bb6..acdbefe 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -13,19 +14,21 @@ import (
 func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDefault bool) error {
 	defEnv := env.GetLayer(EnvLayerDefault)
 
-	flatten := env.Flatten(true, filtered, false)
+	flatten := env.Flatten(true, filtered, true)
 	var keys []string
 	for k, v := range flatten {
-		if skipDefault && defEnv.GetRaw(k) == v {
-			continue
+		if skipDefault {
+			defVal, ok := defEnv.GetEx(k)
+			if ok && defVal.Raw == v {
+				continue
+			}
 		}
 		keys = append(keys, k)
 	}
 
 	sort.Strings(keys)
 	for _, k := range keys {
-		v := env.GetRaw(k)
-		_, err := fmt.Fprintf(writer, "%s%s%s\n", k, sep, v)
+		_, err := fmt.Fprintf(writer, "%s%s%s\n", k, sep, flatten[k])
 		if err != nil {
 			return err
 		}
@@ -35,6 +38,7 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 
 func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 	scanner := bufio.NewScanner(reader)
+	scanner.Buffer(nil, math.MaxInt32)
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		text := scanner.Text()
@@ -55,7 +59,7 @@ func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDefault bool) {
@@ -90,6 +94,8 @@ func SaveEnvToFile(env *Env, path string, sep string, skipDefault bool) {
 		"sys.stack",
 		"sys.stack-depth",
 		"sys.session.",
+		"sys.subflow",
+		"sys.in-bg-task",
 		"sys.interact.",
 		"sys.breakpoint.",
 		"sys.execute-wait-sec",
-- 
2.43.0


From db481ee4dd7edcbe9fbb9dd8381cc14aac927a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 10/84] fix: a value with a line-break corrupted the saved and
 the session environment

It was written as two lines: the rest became another key, or made the file
unreadable, so that every later run failed.
---
 pkg/core/model/proto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index acdbefe..00006d1 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -28,6 +28,9 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 
 	sort.Strings(keys)
 	for _, k := range keys {
+		if strings.Contains(k, sep) || strings.Contains(k, "\n") || strings.Contains(flatten[k], "\n") {
+			return fmt.Errorf("[EnvOutput] key-value of '%s' has line-break or '%s' in key, can't be stored", k, sep)
+		}
 		_, err := fmt.Fprintf(writer, "%s%s%s\n", k, sep, flatten[k])
 		if err != nil {
 			return err
-- 
2.43.0


From 2389e6f288700cd90748ae2f6ddd033dffe79a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 11/84] fix: modules did not see the settings of their own
 command and of the flow they are in

The session env file a module gets had only the session layer, so a flow saved
with a leading brace setting ran its modules without that setting. Now the file
has all visible values, and only what the module changed is applied to the
session afterwards.
---
 pkg/core/model/cmd.go   |  9 ++++++++-
 pkg/core/model/proto.go | 42 ++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index bf48c8e..fb2d741 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -3,6 +3,7 @@ package model
 import (
 	"fmt"
 	"math/rand"
+	"os"
 	"os/exec"
 	"path/filepath"
 	"reflect"
@@ -1028,8 +1029,14 @@ func (self *Cmd) executeFile(argv ArgVals, cc *Cli, env *Env, allowError bool, p
 
 	var sessionDir string
 	var sessionPath string
+	var sessionEnvContent []byte
 	if !self.flags.noSession {
 		sessionDir, sessionPath = saveEnvToSessionFile(cc, env, parsedCmd, false)
+		var err error
+		sessionEnvContent, err = os.ReadFile(sessionPath)
+		if err != nil {
+			panic(NewCmdError(parsedCmd, fmt.Sprintf("[Cmd.executeFile] %s", err)))
+		}
 	}
 
 	args = append(args, self.cmdLine)
@@ -1062,7 +1069,7 @@ func (self *Cmd) executeFile(argv ArgVals, cc *Cli, env *Env, allowError bool, p
 	}
 
 	if len(sessionPath) != 0 {
-		LoadEnvFromFile(env.GetLayer(EnvLayerSession), sessionPath, sep, delMark)
+		loadEnvFromSessionFile(env.GetLayer(EnvLayerSession), sessionPath, sessionEnvContent, sep, delMark)
 	}
 	return true
 }
diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 00006d1..9d73517 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 	"math"
@@ -146,7 +147,46 @@ func saveEnvToSessionFile(cc *Cli, env *Env, parsedCmd ParsedCmd, skipDefault bo
 		//"sys.stack-depth",
 		//"sys.session.",
 		//"sys.interact",
+		"sys.subflow",
 	}
-	saveEnvToFile(env.GetLayer(EnvLayerSession), sessionPath, sep, filtered, skipDefault)
+	saveEnvToFile(env, sessionPath, sep, filtered, skipDefault)
 	return
 }
+
+// Apply what a command did to the session env file to the session layer.
+// 'old' is the file content given to the command, it has values from the command/subflow layers,
+// so the values not touched by the command should not be written to the session layer.
+func loadEnvFromSessionFile(session *Env, path string, old []byte, sep string, delMark string) {
+	content, err := os.ReadFile(path)
+	if err != nil {
+		if os.IsNotExist(err) {
+			return
+		}
+		panic(fmt.Errorf("[LoadEnvFromFile] read session env file '%s' failed: %v", path, err))
+	}
+
+	if bytes.HasPrefix(content, old) {
+		err = EnvInput(session, bytes.NewReader(content[len(old):]), sep, delMark)
+	} else {
+		// The file is rewritten, normally by another ticat process in the same session
+		before := NewEnv()
+		err = EnvInput(before, bytes.NewReader(old), sep, delMark)
+		after := before.Clone()
+		if err == nil {
+			err = EnvInput(after, bytes.NewReader(content), sep, delMark)
+		}
+		for k, v := range after.pairs {
+			if prev, ok := before.pairs[k]; !ok || prev.Raw != v.Raw {
+				session.Set(k, v.Raw)
+			}
+		}
+		for k := range before.pairs {
+			if !after.Has(k) {
+				session.Delete(k)
+			}
+		}
+	}
+	if err != nil {
+		panic(fmt.Errorf("[LoadEnvFromFile] read session env file '%s' failed: %v", path, err))
+	}
+}
-- 
2.43.0


From c071fd3115ba3d4562bb3cc62647b70a2cdb089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 12/84] fix: a template value referring to itself made
 rendering loop forever

---
 pkg/core/model/template.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/template.go b/pkg/core/model/template.go
index 7b6686f..7e3d83f 100644
--- a/pkg/core/model/template.go
+++ b/pkg/core/model/template.go
@@ -143,6 +143,13 @@ func tryRenderTemplate(
 	templBracketLeft := cmd.owner.Strs.FlowTemplateBracketLeft
 	templBracketRight := cmd.owner.Strs.FlowTemplateBracketRight
 
+	// The values being expanded, 'tailLen' is the length of the string after the value
+	type expanding struct {
+		key     string
+		tailLen int
+	}
+	var stack []expanding
+
 	findPos := 0
 	for {
 		str := in[findPos:]
@@ -156,6 +163,21 @@ func tryRenderTemplate(
 			break
 		}
 		key := tail[0:j]
+		for len(stack) != 0 && len(str)-i <= stack[len(stack)-1].tailLen {
+			stack = stack[:len(stack)-1]
+		}
+		recursive := false
+		for _, it := range stack {
+			recursive = recursive || it.key == key
+		}
+		if recursive {
+			hasError = true
+			if allowError {
+				findPos += i + len(templBracketLeft) + j + len(templBracketRight)
+				continue
+			}
+			panic(fmt.Errorf("render %s template failed, the value of '%s' refers to itself", targetName, key))
+		}
 		var valStr string
 		val, ok := env.GetEx(key)
 		valStr = val.Raw
@@ -170,12 +192,14 @@ func tryRenderTemplate(
 		if !ok {
 			hasError = true
 			if allowError {
-				findPos += j + len(templBracketRight)
+				findPos += i + len(templBracketLeft) + j + len(templBracketRight)
 				continue
 			}
 			templateRenderPanic(in, cmd, targetName, key, false)
 		}
-		in = in[:findPos] + str[0:i] + valStr + tail[j+len(templBracketRight):]
+		tail = tail[j+len(templBracketRight):]
+		stack = append(stack, expanding{key, len(tail)})
+		in = in[:findPos] + str[0:i] + valStr + tail
 	}
 	return in, hasError
 }
-- 
2.43.0


From e7274c58f74ee803b20427394ab1b395a411443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 13/84] fix: env op 'r' was ignored when spaces are around the
 op separator

---
 pkg/mods/persist/mod_meta/mod_reg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/persist/mod_meta/mod_reg.go b/pkg/mods/persist/mod_meta/mod_reg.go
index 499c954..25af4bb 100644
--- a/pkg/mods/persist/mod_meta/mod_reg.go
+++ b/pkg/mods/persist/mod_meta/mod_reg.go
@@ -604,7 +604,7 @@ func regEnvKeyAbbrs(
 }
 
 func regEnvOp(cmd *model.Cmd, key string, opOrigin string) {
-	op := strings.ToLower(opOrigin)
+	op := strings.ToLower(strings.TrimSpace(opOrigin))
 	may := strings.Index(op, "may") >= 0 || strings.Index(op, "opt") >= 0
 	write := strings.Index(op, "w") >= 0
 	read := strings.Index(op, "rd") >= 0 ||
-- 
2.43.0


From dfa14cd793185d8b46d133f4bff1380ef84baecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 14/84] fix: env-ops check ignored key removing and excluded
 keys of reset, so wrongly passed or refused

---
 pkg/core/model/env_ops.go | 19 +++++++++++++++++--
 pkg/mods/builtin/env.go   | 39 +++++++++++++++++++++++++--------------
 pkg/mods/builtin/misc.go  | 35 +++++++++++++++++++++++------------
 3 files changed, 65 insertions(+), 28 deletions(-)

diff --git a/pkg/core/model/env_ops.go b/pkg/core/model/env_ops.go
index 859f161..a6f1120 100644
--- a/pkg/core/model/env_ops.go
+++ b/pkg/core/model/env_ops.go
@@ -138,14 +138,29 @@ type EnvOpCmd struct {
 	Action func(*EnvOpsChecker, ArgVals, *Env)
 }
 
-func (self *EnvOpsChecker) Reset() {
-	*self = EnvOpsChecker{}
+func (self *EnvOpsChecker) Reset(excludeKeys ...string) {
+	reseted := EnvOpsChecker{}
+	for _, key := range excludeKeys {
+		info, ok := (*self)[key]
+		if ok {
+			reseted[key] = info
+		}
+	}
+	*self = reseted
 }
 
 func (self *EnvOpsChecker) RemoveKeyStat(key string) {
 	(*self)[key] = envOpsCheckerKeyInfo{}
 }
 
+func (self *EnvOpsChecker) RemoveKeyStatByPrefix(prefix string) {
+	for key, _ := range *self {
+		if strings.HasPrefix(key, prefix) {
+			self.RemoveKeyStat(key)
+		}
+	}
+}
+
 func (self *EnvOpsChecker) SetKeyWritten(key string) {
 	old, ok := (*self)[key]
 	if !ok {
diff --git a/pkg/mods/builtin/env.go b/pkg/mods/builtin/env.go
index 95efeba..00da22a 100644
--- a/pkg/mods/builtin/env.go
+++ b/pkg/mods/builtin/env.go
@@ -316,20 +316,7 @@ func ResetSessionEnv(
 
 	assertNotTailMode(flow, currCmdIdx)
 
-	excludes := map[string]string{}
-	excludeStr := argv.GetRaw("exclude-keys")
-	if len(excludeStr) != 0 {
-		listSep := env.GetRaw("strs.list-sep")
-		for _, key := range strings.Split(excludeStr, listSep) {
-			excludes[key] = env.GetRaw(key)
-		}
-	}
-
-	sessionEnv := env.GetLayer(model.EnvLayerSession)
-	sessionEnv.Clear(false)
-	for key, val := range excludes {
-		sessionEnv.Set(key, val)
-	}
+	excludes := resetSessionEnv(env, getResetSessionEnvExcludeKeys(argv, env))
 
 	title := "all session env values are removed"
 	if len(excludes) != 0 {
@@ -343,6 +330,30 @@ func ResetSessionEnv(
 	return currCmdIdx, true
 }
 
+func getResetSessionEnvExcludeKeys(argv model.ArgVals, env *model.Env) (keys []string) {
+	excludeStr := argv.GetRaw("exclude-keys")
+	if len(excludeStr) != 0 {
+		keys = strings.Split(excludeStr, env.GetRaw("strs.list-sep"))
+	}
+	return
+}
+
+func resetSessionEnv(env *model.Env, excludeKeys []string) (excludes map[string]string) {
+	sessionEnv := env.GetLayer(model.EnvLayerSession)
+	excludes = map[string]string{}
+	for _, key := range excludeKeys {
+		val, ok := sessionEnv.GetEx(key)
+		if ok {
+			excludes[key] = val.Raw
+		}
+	}
+	sessionEnv.Clear(false)
+	for key, val := range excludes {
+		sessionEnv.Set(key, val)
+	}
+	return
+}
+
 func EnvAssertEqual(
 	argv model.ArgVals,
 	cc *model.Cli,
diff --git a/pkg/mods/builtin/misc.go b/pkg/mods/builtin/misc.go
index 95c99b9..b6ae5cb 100644
--- a/pkg/mods/builtin/misc.go
+++ b/pkg/mods/builtin/misc.go
@@ -177,31 +177,42 @@ func Dummy(
 	return currCmdIdx, true
 }
 
+func removeKeyInEnvOpCheck(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
+	key := argv.GetRaw("key")
+	if checker != nil {
+		checker.RemoveKeyStat(key)
+	}
+	env.DeleteEx(key, model.EnvLayerDefault)
+}
+
 func EnvOpCmds() []model.EnvOpCmd {
 	return []model.EnvOpCmd{
 		model.EnvOpCmd{
 			ResetSessionEnv,
 			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
+				excludeKeys := getResetSessionEnvExcludeKeys(argv, env)
 				if checker != nil {
-					checker.Reset()
+					checker.Reset(excludeKeys...)
 				}
-				env.GetLayer(model.EnvLayerSession).Clear(false)
+				resetSessionEnv(env, excludeKeys)
 			}},
+		model.EnvOpCmd{RemoveEnvValNotSave, removeKeyInEnvOpCheck},
+		model.EnvOpCmd{RemoveEnvValAndSaveToLocal, removeKeyInEnvOpCheck},
 		model.EnvOpCmd{
-			ResetLocalEnv,
+			RemoveEnvValHavePrefixNotSave,
 			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
-				if checker != nil {
-					checker.Reset()
+				prefix := argv.GetRaw("prefix")
+				if len(prefix) == 0 {
+					return
 				}
-				env.GetLayer(model.EnvLayerSession).Clear(false)
-			}},
-		model.EnvOpCmd{RemoveEnvValAndSaveToLocal,
-			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
-				key := argv.GetRaw("key")
 				if checker != nil {
-					checker.RemoveKeyStat(key)
+					checker.RemoveKeyStatByPrefix(prefix)
+				}
+				for key, _ := range env.FlattenAll() {
+					if strings.HasPrefix(key, prefix) {
+						env.DeleteEx(key, model.EnvLayerDefault)
+					}
 				}
-				env.DeleteEx(key, model.EnvLayerDefault)
 			}},
 		model.EnvOpCmd{MarkTime,
 			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
-- 
2.43.0


From 9badbc35b4831b777c713f75a3c685a912c5981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 15/84] fix: env-ops check refused optional reads after a
 satisfied read, and checked a file-n-flow command before its flow

---
 pkg/core/model/env_ops.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/core/model/env_ops.go b/pkg/core/model/env_ops.go
index a6f1120..ad31ee9 100644
--- a/pkg/core/model/env_ops.go
+++ b/pkg/core/model/env_ops.go
@@ -200,16 +200,16 @@ func (self EnvOpsChecker) OnCallCmd(
 			res.Cmd = cmd.Owner()
 			if (before.val&EnvOpTypeWrite) == 0 &&
 				(before.val&EnvOpTypeMayWrite) == 0 {
-				if (before.val & EnvOpTypeRead) != 0 {
+				if (curr & EnvOpTypeRead) != 0 {
 					res.ReadNotExist = true
-				} else if (before.val & EnvOpTypeMayRead) != 0 {
+				} else if (curr & EnvOpTypeMayRead) != 0 {
 					res.MayReadNotExist = true
 				}
 			} else if (before.val & EnvOpTypeMayWrite) != 0 {
-				if (before.val & EnvOpTypeRead) != 0 {
+				if (curr & EnvOpTypeRead) != 0 {
 					res.ReadMayWrite = true
 					res.MayWriteCmdsBefore = before.mayWriteCmds
-				} else if (before.val & EnvOpTypeMayRead) != 0 {
+				} else if (curr & EnvOpTypeMayRead) != 0 {
 					res.MayReadMayWrite = true
 					res.MayWriteCmdsBefore = before.mayWriteCmds
 				}
@@ -280,8 +280,16 @@ func checkEnvOps(
 
 		cmdEnv, argv := cmd.ApplyMappingGenEnvAndArgv(env, cc.Cmds.Strs.EnvValDelAllMark, cc.Cmds.Strs.PathSep, depth+1)
 
-		res := checker.OnCallCmd(cmdEnv, argv, cmd, sep, last, ignoreMaybe, displayPath, arg2envs)
-		*result = append(*result, res...)
+		// The subflow of a file-n-flow command is executed before the file
+		checkAfterSubFlow := last.Type() == CmdTypeFileNFlow && last.HasSubFlow(true)
+
+		checkCmd := func() {
+			res := checker.OnCallCmd(cmdEnv, argv, cmd, sep, last, ignoreMaybe, displayPath, arg2envs)
+			*result = append(*result, res...)
+		}
+		if !checkAfterSubFlow {
+			checkCmd()
+		}
 
 		TryExeEnvOpCmds(argv, cc, cmdEnv, flow, i, envOpCmds, checker,
 			"failed to execute env-op cmd in env-ops checking")
@@ -292,6 +300,10 @@ func checkEnvOps(
 
 		parsedFlow, flowEnv := renderSubFlowOnChecking(last, cc, argv, cmdEnv)
 		checkEnvOps(cc, parsedFlow, flowEnv, checker, ignoreMaybe, envOpCmds, result, arg2envs, depth+1)
+
+		if checkAfterSubFlow {
+			checkCmd()
+		}
 	}
 }
 
-- 
2.43.0


From 0887331052a4b4e8c25f84a511e5a3079ba3f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 16/84] fix: the order of commands was random when dumping
 depended os-commands

---
 pkg/cli/display/dep.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/cli/display/dep.go b/pkg/cli/display/dep.go
index a7d8dff..74cb807 100644
--- a/pkg/cli/display/dep.go
+++ b/pkg/cli/display/dep.go
@@ -54,8 +54,14 @@ func DumpDepends(
 		cmds := deps[osCmd]
 		screen.Print(ColorCmd(fmt.Sprintf("[%s]\n", osCmd), env))
 
-		// TODO: sort cmds
+		var infos []model.DependInfo
 		for _, info := range cmds {
+			infos = append(infos, info)
+		}
+		sort.Slice(infos, func(i, j int) bool {
+			return infos[i].Cmd.DisplayPath(sep, true) < infos[j].Cmd.DisplayPath(sep, true)
+		})
+		for _, info := range infos {
 			screen.Print("        " + ColorHelp(fmt.Sprintf("'%s'\n", info.Reason), env))
 			screen.Print("            " + ColorCmd(fmt.Sprintf("[%s]\n", info.Cmd.DisplayPath(sep, true)), env))
 		}
-- 
2.43.0


From 0a2d7add6564ed35f40d308aac4d67d094d7a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 17/84] fix: a status file broken inside a command record made
 the session unlistable

---
 pkg/core/model/executed.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index bc44370..0b319b2 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -270,10 +270,10 @@ func parseExecutedCmds(path ExecutedStatusFilePath, lines []string,
 				return cmds, hasDelayCmd, lines, lastActiveTs, false
 			}
 		}
-		if cmd.IsDelay {
-			hasDelayCmd = true
-		}
 		if cmd != nil {
+			if cmd.IsDelay {
+				hasDelayCmd = true
+			}
 			cmds = append(cmds, cmd)
 		}
 	}
-- 
2.43.0


From 45aa54656432e3744225784e1c71a31111b6ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 18/84] fix: sessions of flows with line breaks in arg values
 were unreadable

---
 pkg/core/model/executed.go  | 17 ++++++++++++++++-
 pkg/core/model/executing.go |  4 ++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index 0b319b2..e92fa0e 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -217,7 +217,7 @@ func tryParseExecutedFlow(path ExecutedStatusFilePath, lines []string,
 
 	executed = NewExecutedFlow(path.DirName)
 
-	executed.Flow, lines, ok = parseMarkedOneLineContent(path, lines, "flow", level)
+	executed.Flow, lines, ok = parseFlowContent(path, lines, level)
 	if !ok {
 		return executed, hasDelayCmd, lines, lastActiveTs, false
 	}
@@ -442,6 +442,21 @@ func parseMarkedOneLineContent(path ExecutedStatusFilePath, lines []string,
 	return res[0], remain, ok
 }
 
+// The arg values in a flow could have line breaks
+func parseFlowContent(path ExecutedStatusFilePath, lines []string,
+	level int) (content string, remain []string, ok bool) {
+
+	res, remain, ok := parseMarkedContent(path, lines, "flow", level)
+	if !ok {
+		return
+	}
+	indent := strings.Repeat(StatusFileIndent, level)
+	for i, _ := range res {
+		res[i] = strings.TrimPrefix(res[i], indent)
+	}
+	return strings.Join(res, "\n"), remain, ok
+}
+
 func parseMarkedContent(path ExecutedStatusFilePath, lines []string,
 	mark string, level int) (content []string, remain []string, ok bool) {
 
diff --git a/pkg/core/model/executing.go b/pkg/core/model/executing.go
index 0bdeaea..0df347b 100644
--- a/pkg/core/model/executing.go
+++ b/pkg/core/model/executing.go
@@ -39,7 +39,7 @@ func (self *ExecutingFlow) onFlowStart(flow *ParsedCmds, env *Env) {
 	trivialMark := env.GetRaw("strs.trivial-mark")
 	cmdPathSep := env.GetRaw("strs.cmd-path-sep")
 	flowStr := SaveFlowToStr(flow, cmdPathSep, trivialMark, env)
-	buf.Write([]byte(markedContent("flow", 0, flowStr)))
+	buf.Write([]byte(markedContent("flow", 0, strings.Split(flowStr, "\n")...)))
 
 	now := time.Now().Format(SessionTimeFormat)
 	buf.Write([]byte(markedOneLineContent("flow-start-time", self.level, now)))
@@ -128,7 +128,7 @@ func (self *ExecutingFlow) OnSubFlowStart(env *Env, flow string) {
 
 	self.level += 1
 
-	content += markedContent("flow", self.level, flow)
+	content += markedContent("flow", self.level, strings.Split(flow, "\n")...)
 
 	now := time.Now().Format(SessionTimeFormat)
 	content += markedOneLineContent("flow-start-time", self.level, now)
-- 
2.43.0


From 4736eb3041a8fd9844ffb309a553497c6daca7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 19/84] fix: retrying a session with leading global env skipped
 the wrong commands

---
 pkg/core/execute/executor.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 6810205..a4c508c 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -191,12 +191,17 @@ func (self *Executor) executeFlow(
 	input []string) bool {
 
 	breakAtNext := false
+	// Masks are for the executable commands only, a global env definition is not one of them
+	executed := 0
 	for i := 0; i < len(flow.Cmds); i++ {
 		cmd := flow.Cmds[i]
 		var succeeded bool
 		var mask *model.ExecuteMask
-		if i < len(masks) {
-			mask = masks[i]
+		if last := cmd.LastCmdNode(); last != nil && !last.IsNoExecutableCmd() {
+			if executed < len(masks) {
+				mask = masks[executed]
+			}
+			executed += 1
 		}
 		cmdEnv := env
 		if cc.ForestMode.AtForestTopLvl(env) {
-- 
2.43.0


From c6be6e8e67476f4c883dc0747e08ea15623acef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 20/84] fix: own and flow-scoped settings of skipped commands
 leaked to the commands after them when retrying a session

---
 pkg/core/model/cmd.go | 18 ++----------------
 pkg/core/model/env.go | 13 +++++++++++++
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index fb2d741..89f1d08 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -240,14 +240,7 @@ func (self *Cmd) execute(
 
 	// TODO: this logic should be in upper layer
 	if mask != nil && mask.OverWriteStartEnv != nil {
-		p := env
-		for p != nil && p.LayerType() != EnvLayerSession {
-			p.CleanCurrLayer()
-			p = p.Parent()
-		}
-		if p != nil {
-			mask.OverWriteStartEnv.WriteCurrLayerTo(p)
-		}
+		mask.OverWriteStartEnv.restoreCurrLayerTo(env)
 	}
 
 	logFilePath := self.genLogFilePath(env)
@@ -280,14 +273,7 @@ func (self *Cmd) execute(
 	}
 
 	if mask != nil && mask.OverWriteFinishEnv != nil {
-		p := env
-		for p != nil && p.LayerType() != EnvLayerSession {
-			p.CleanCurrLayer()
-			p = p.Parent()
-		}
-		if p != nil {
-			mask.OverWriteFinishEnv.WriteCurrLayerTo(p)
-		}
+		mask.OverWriteFinishEnv.restoreCurrLayerTo(env)
 	}
 
 	disableQuietKey := "display.executor"
diff --git a/pkg/core/model/env.go b/pkg/core/model/env.go
index 37a41db..93f2b2f 100644
--- a/pkg/core/model/env.go
+++ b/pkg/core/model/env.go
@@ -305,6 +305,19 @@ func (self Env) WriteCurrLayerTo(env *Env) {
 	}
 }
 
+// Make the recorded values visible in 'env' by writing them to its session layer,
+// a value which is already provided by a narrower layer stays there, so it won't outlive its scope
+func (self Env) restoreCurrLayerTo(env *Env) {
+	for k, v := range self.pairs {
+		old, exists := env.GetEx(k)
+		if exists && old.Raw == v.Raw {
+			continue
+		}
+		env.DeleteEx(k, EnvLayerSession)
+		env.GetLayer(EnvLayerSession).Set(k, v.Raw)
+	}
+}
+
 func (self *Env) CleanCurrLayer() {
 	self.pairs = map[string]EnvVal{}
 }
-- 
2.43.0


From 76f3ce29b5ab3478158826dafd1fb2d421a17689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 21/84] fix: retrying a session rendered its arg values as
 templates

---
 pkg/core/model/cmd.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 89f1d08..bea86d0 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -808,14 +808,18 @@ func (self *Cmd) RenderedFlowStrs(
 			panic(fmt.Errorf("[Cmd.RenderedFlowStrs] should never happend: ad-hot flow has fixed flow-strings"))
 		}
 		flowStrs, masks, _ = self.adhotFlow(argv, cc, env)
+		if masks != nil {
+			// An executed flow, template marks left in it are just parts of arg values
+			if !cc.Blender.IsEmpty() {
+				panic(fmt.Errorf("[Cmd.RenderedFlowStrs] can't use blender on a masked flow"))
+			}
+			return flowStrs, masks, macrosFullyRendered
+		}
 	}
 
 	flow, flowFullyRendered := RenderTemplateStrLines(flowStrs, "flow", self, argv, env, allowFlowTemplateRenderError)
 	fullyRendered = macrosFullyRendered && flowFullyRendered
 	if fullyRendered {
-		if masks != nil && !cc.Blender.IsEmpty() {
-			panic(fmt.Errorf("[Cmd.RenderedFlowStrs] can't use blender on a masked flow"))
-		}
 		flow = self.invokeBlender(cc, env, flow)
 	}
 	return
-- 
2.43.0


From e411dd6a2208c03420cb8f12eaa3164a29c76bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 22/84] fix: flows were recorded without quotes in sessions, so
 could not be executed again

---
 pkg/core/model/cmd.go  | 11 ++++++++++-
 pkg/core/model/flow.go |  5 ++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index bea86d0..0392d55 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -897,6 +897,15 @@ func FlowStrToStrs(flowStr string) []string {
 	return flowStrs
 }
 
+// The reverse operation of 'FlowStrToStrs'
+func quoteFlowStrs(flowStrs []string) string {
+	var strs []string
+	for _, str := range flowStrs {
+		strs = append(strs, quoteShellWord(str))
+	}
+	return FlowStrsToStr(strs)
+}
+
 func FlowStrsToStr(flowStrs []string) string {
 	return strings.Join(flowStrs, " ")
 }
@@ -933,7 +942,7 @@ func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask)
 	flowEnv.Set("sys.subflow", flowStrEnvVal)
 
 	if cc.FlowStatus != nil {
-		cc.FlowStatus.OnSubFlowStart(flowEnv, flowStr)
+		cc.FlowStatus.OnSubFlowStart(flowEnv, quoteFlowStrs(flow))
 		defer func() {
 			r := recover()
 			if _, isAbort := r.(*AbortByUserErr); !isAbort {
diff --git a/pkg/core/model/flow.go b/pkg/core/model/flow.go
index 0b42b1d..d05fb2e 100644
--- a/pkg/core/model/flow.go
+++ b/pkg/core/model/flow.go
@@ -123,7 +123,10 @@ func SaveFlowEnv(
 
 // The reverse operation of shellwords in 'cmd.go#FlowStrToStrs' and then the sequence parser
 func quoteEnvVal(v string, seqSep string) string {
-	v = strings.ReplaceAll(v, seqSep, BackSlash+seqSep)
+	return quoteShellWord(strings.ReplaceAll(v, seqSep, BackSlash+seqSep))
+}
+
+func quoteShellWord(v string) string {
 	v = strings.ReplaceAll(v, BackSlash, BackSlash+BackSlash)
 	if len(v) != 0 && strings.IndexAny(v, " \t\r\n\"'`;&|<>()") < 0 {
 		return v
-- 
2.43.0


From 4105f038990d1d27d314d67b453bf99f5516f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 23/84] fix: retrying the last session, which was a retry of
 the last one, never ended

---
 pkg/mods/builtin/sessions.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index 5dbeb18..3c72f43 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -693,7 +693,36 @@ func retrySession(session model.SessionStatus, errSessionOnly bool) (flow []stri
 	if errSessionOnly && session.Status != nil && session.Status.Result == model.ExecutedResultSucceeded {
 		panic(fmt.Errorf("session [%s] had succeeded, nothing to retry", session.DirName))
 	}
-	return []string{session.Status.Flow}, session.Status.GenExecMasks(), true
+	executed := unwrapRetry(session.Status)
+	if retriesLast(executed) {
+		// The last session is this one now, running it again will never end
+		panic(fmt.Errorf("session [%s] retried the last session as part of it, can't be retried", session.DirName))
+	}
+	return []string{executed.Flow}, executed.GenExecMasks(), true
+}
+
+// A session just for retrying another one, is an execution of the flow it retried
+func unwrapRetry(executed *model.ExecutedFlow) *model.ExecutedFlow {
+	for len(executed.Cmds) == 1 && isRetryCmd(executed.Cmds[0].Cmd) && executed.Cmds[0].SubFlow != nil {
+		executed = executed.Cmds[0].SubFlow
+	}
+	return executed
+}
+
+func retriesLast(executed *model.ExecutedFlow) bool {
+	for _, it := range executed.Cmds {
+		if isRetryCmd(it.Cmd) && it.Cmd != "sessions.retry" {
+			return true
+		}
+		if it.SubFlow != nil && retriesLast(it.SubFlow) {
+			return true
+		}
+	}
+	return false
+}
+
+func isRetryCmd(cmd string) bool {
+	return cmd == "sessions.retry" || cmd == "sessions.last.retry" || cmd == "sessions.error.retry"
 }
 
 func normalizeSid(id string) string {
-- 
2.43.0


From 7e5a69d09fee5e676cb08e13ac9a6cbdaeb4e28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 24/84] fix: retrying a session made its global settings hide
 the changes done by the executed commands

---
 pkg/core/execute/executor.go | 6 +++++-
 pkg/core/model/cli.go        | 5 ++++-
 pkg/core/model/executed.go   | 1 +
 pkg/mods/builtin/sessions.go | 6 +++++-
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index a4c508c..a57afa0 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -102,7 +102,11 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...)
 	if flow.GlobalEnv != nil {
 		env = env.GetOneOfLayers(model.EnvLayerSubFlow, model.EnvLayerSession)
-		flow.GlobalEnv.WriteNotArgTo(env, cc.Cmds.Strs.EnvValDelAllMark)
+		globalEnv := env
+		if len(masks) != 0 && masks[0].InTopFlow {
+			globalEnv = env.GetLayer(model.EnvLayerSession)
+		}
+		flow.GlobalEnv.WriteNotArgTo(globalEnv, cc.Cmds.Strs.EnvValDelAllMark)
 	}
 
 	if !innerCall && !bootstrap {
diff --git a/pkg/core/model/cli.go b/pkg/core/model/cli.go
index b4b5bfc..d3e036b 100644
--- a/pkg/core/model/cli.go
+++ b/pkg/core/model/cli.go
@@ -26,10 +26,12 @@ type ExecuteMask struct {
 	SubFlow             []*ExecuteMask
 	ResultIfExecuted    ExecutedResult
 	ExecutedCmd         *ExecutedCmd
+	// The flow of this command was executed by user, it's not in another flow
+	InTopFlow bool
 }
 
 func NewExecuteMask(cmd string) *ExecuteMask {
-	return &ExecuteMask{cmd, nil, nil, ExecPolicyExec, ExecPolicyExec, nil, ExecutedResultUnRun, nil}
+	return &ExecuteMask{cmd, nil, nil, ExecPolicyExec, ExecPolicyExec, nil, ExecutedResultUnRun, nil, false}
 }
 
 func (self *ExecuteMask) Copy() *ExecuteMask {
@@ -42,6 +44,7 @@ func (self *ExecuteMask) Copy() *ExecuteMask {
 		self.SubFlow,
 		ExecutedResultUnRun,
 		self.ExecutedCmd,
+		self.InTopFlow,
 	}
 }
 
diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index e92fa0e..c6372a3 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -152,6 +152,7 @@ func (self *ExecutedFlow) GenExecMasks() (masks []*ExecuteMask) {
 			subMasks,
 			cmd.Result,
 			cmd,
+			false,
 		})
 	}
 	return
diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index 3c72f43..bb7599b 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -698,7 +698,11 @@ func retrySession(session model.SessionStatus, errSessionOnly bool) (flow []stri
 		// The last session is this one now, running it again will never end
 		panic(fmt.Errorf("session [%s] retried the last session as part of it, can't be retried", session.DirName))
 	}
-	return []string{executed.Flow}, executed.GenExecMasks(), true
+	masks = executed.GenExecMasks()
+	for _, mask := range masks {
+		mask.InTopFlow = true
+	}
+	return []string{executed.Flow}, masks, true
 }
 
 // A session just for retrying another one, is an execution of the flow it retried
-- 
2.43.0


From 52801e45c2d80ede5950a417b66f353824e90d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 25/84] fix: removing sessions by search removed only one of
 the found ones

---
 pkg/mods/builtin/sessions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index bb7599b..00be1ba 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -339,7 +339,7 @@ func FindAndRemoveSessions(
 	force := argv.GetBool("remove-running")
 
 	findStrs := getFindStrsFromArgvAndFlow(flow, currCmdIdx, argv)
-	sessions, _ := findSessions(findStrs, "", cc, env, 1, true, true, true)
+	sessions, _ := findSessions(findStrs, "", cc, env, 0, true, true, true)
 	if len(sessions) == 0 {
 		return currCmdIdx, true
 	}
-- 
2.43.0


From 15bfe2cf1061c5e810c2b694a4b4157419ecfd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:40 +0000
Subject: [PATCH 26/84] fix: everything after a long line in the hub file was
 silently dropped

---
 pkg/mods/persist/hub_meta/hub_meta.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index a8520be..7b823fc 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -3,6 +3,7 @@ package hub_meta
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -92,6 +93,7 @@ func ReadReposInfoFile(
 	defer file.Close()
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt32)
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		line := strings.Trim(scanner.Text(), "\n\r")
@@ -110,6 +112,9 @@ func ReadReposInfoFile(
 		infos = append(infos, info)
 		list[info.Addr.Str()] = true
 	}
+	if err := scanner.Err(); err != nil {
+		panic(fmt.Errorf("[ReadReposInfoFile] read file '%s' failed: %v", path, err))
+	}
 	return
 }
 
-- 
2.43.0


From 954a4cc2d7cec6711417c561d5e30b4cc2d2b64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:41 +0000
Subject: [PATCH 27/84] fix: an empty or unreadable help file, or a local dir
 in hub which is gone, made every run fail

---
 pkg/core/model/helps.go |  8 ++++++++
 pkg/mods/builtin/mod.go | 20 ++++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/helps.go b/pkg/core/model/helps.go
index 0d7be08..7f2ab13 100644
--- a/pkg/core/model/helps.go
+++ b/pkg/core/model/helps.go
@@ -3,6 +3,7 @@ package model
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 )
 
@@ -27,11 +28,18 @@ func (self *Helps) RegHelpFile(path string) {
 	defer file.Close()
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt32)
 	scanner.Split(bufio.ScanLines)
 	var lines []string
 	for scanner.Scan() {
 		lines = append(lines, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		panic(fmt.Errorf("read help file failed: %v", err))
+	}
+	if len(lines) == 0 {
+		panic(fmt.Errorf("help file is empty"))
+	}
 
 	self.RegHelp(lines[0], lines[1:])
 }
diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index 0482ded..f654b61 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -45,7 +45,11 @@ func loadLocalMods(
 
 	// TODO: return filepath.SkipDir to avoid some non-sense scanning
 	filepath.Walk(root, func(metaPath string, info fs.FileInfo, err error) error {
-		if info != nil && info.IsDir() {
+		if info == nil {
+			// The root is not accessible
+			return nil
+		}
+		if info.IsDir() {
 			// Skip hidden file or dir
 			base := filepath.Base(metaPath)
 			if len(base) > 0 && base[0] == '.' {
@@ -58,7 +62,7 @@ func loadLocalMods(
 		}
 
 		if strings.HasSuffix(metaPath, helpExt) {
-			cc.Helps.RegHelpFile(metaPath)
+			regHelpFile(cc, metaPath, source, panicRecover)
 			return nil
 		}
 
@@ -101,3 +105,15 @@ func loadLocalMods(
 		return nil
 	})
 }
+
+func regHelpFile(cc *model.Cli, path string, source string, panicRecover bool) {
+	defer func() {
+		if !panicRecover {
+			return
+		}
+		if err := recover(); err != nil {
+			cc.TolerableErrs.OnErr(err, source, path, "help file loading failed")
+		}
+	}()
+	cc.Helps.RegHelpFile(path)
+}
-- 
2.43.0


From 403fc5ee50a55a4c7fb1cf6837211ff40309fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 28/84] fix: the meta file of a dir changed the same-name
 command from another source

---
 pkg/core/model/cmds.go               | 6 +++++-
 pkg/mods/persist/mod_meta/mod_reg.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/cmds.go b/pkg/core/model/cmds.go
index 16aa5b9..3c3043b 100644
--- a/pkg/core/model/cmds.go
+++ b/pkg/core/model/cmds.go
@@ -195,9 +195,13 @@ func (self *CmdTree) RegDirWithCmd(cmd string, help string, source string) *Cmd
 	return self.cmd
 }
 
-func (self *CmdTree) RegEmptyDirCmd(dir string, help string) *Cmd {
+func (self *CmdTree) RegEmptyDirCmd(dir string, help string, source string) *Cmd {
 	// Ignore empty dir cmd register
 	if self.cmd != nil {
+		// The meta of the dir should not be applied to a cmd from another source
+		if self.source != source {
+			self.cmdConflictCheck(help, "RegEmptyDirCmd", source)
+		}
 		return self.cmd
 	}
 	self.cmd = NewEmptyDirCmd(self, help, dir)
diff --git a/pkg/mods/persist/mod_meta/mod_reg.go b/pkg/mods/persist/mod_meta/mod_reg.go
index 25af4bb..75c34d1 100644
--- a/pkg/mods/persist/mod_meta/mod_reg.go
+++ b/pkg/mods/persist/mod_meta/mod_reg.go
@@ -404,7 +404,7 @@ func regMod(
 			if len(flow) != 0 {
 				return mod.RegFlowCmd(flow, help, source)
 			}
-			return mod.RegEmptyDirCmd(executablePath, help)
+			return mod.RegEmptyDirCmd(executablePath, help, source)
 		}
 	} else if len(flow) != 0 {
 		return mod.RegFileNFlowCmd(flow, executablePath, help, source)
-- 
2.43.0


From 462cbb4b6b7f18a2e562db9b662629a2284ae1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:37 +0000
Subject: [PATCH 29/84] fix: a module which failed to load made the same-name
 command of another source unusable

---
 pkg/core/model/cmds.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/core/model/cmds.go b/pkg/core/model/cmds.go
index 3c3043b..432b5d9 100644
--- a/pkg/core/model/cmds.go
+++ b/pkg/core/model/cmds.go
@@ -89,6 +89,10 @@ func (self *CmdTree) cmdConflictCheck(help string, funName string, source string
 	if self.cmd == nil && self.source == source {
 		return
 	}
+	// Allow cross-source overwrite when: the node was left by a failed register
+	if self.cmd == nil && len(self.source) != 0 && !self.hasCmdInSubs() {
+		return
+	}
 	// Allow cross-source overwrite when: the cmd is a totally empty dir cmd
 	if self.cmd != nil && self.cmd.IsTotallyEmpty() {
 		return
@@ -110,6 +114,15 @@ func (self *CmdTree) cmdConflictCheck(help string, funName string, source string
 	panic(err)
 }
 
+func (self *CmdTree) hasCmdInSubs() bool {
+	for _, sub := range self.subs {
+		if sub.cmd != nil || sub.hasCmdInSubs() {
+			return true
+		}
+	}
+	return false
+}
+
 func (self *CmdTree) SetHidden() *CmdTree {
 	self.hidden = true
 	return self
-- 
2.43.0


From 5d65ad5e8ea75ae7b87fe8bdcd2eb0ec04533ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 30/84] fix: an abbreviation of an env key which is the name of
 another key made every run fail

---
 pkg/core/execute/executor.go | 17 +++--------------
 pkg/core/model/env_abbr.go   | 26 ++++++++++++++++++++++++++
 pkg/mods/builtin/env.go      |  3 +++
 3 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index a57afa0..edf741e 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -97,7 +97,7 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 	}
 
 	if !innerCall && !bootstrap {
-		useEnvAbbrs(cc.EnvAbbrs, env, cc.Cmds.Strs.EnvPathSep)
+		cc.EnvAbbrs.AddEnvKeys(env, cc.Cmds.Strs.EnvPathSep)
 	}
 	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, input...)
 	if flow.GlobalEnv != nil {
@@ -438,26 +438,15 @@ func useCmdsAbbrs(abbrs *model.EnvAbbrs, cmds *model.CmdTree) {
 	}
 	for _, subName := range cmds.SubNames() {
 		subAbbrs := cmds.SubAbbrs(subName)
-		subEnv := abbrs.GetSub(subName)
+		subEnv := abbrs.BorrowSub(subName, subAbbrs...)
 		if subEnv == nil {
-			subEnv = abbrs.AddSub(subName, subAbbrs...)
-		} else {
-			abbrs.AddSubAbbrs(subName, subAbbrs...)
+			continue
 		}
 		subTree := cmds.GetSub(subName)
 		useCmdsAbbrs(subEnv, subTree)
 	}
 }
 
-func useEnvAbbrs(abbrs *model.EnvAbbrs, env *model.Env, sep string) {
-	for k, _ := range env.Flatten(true, nil, true) {
-		curr := abbrs
-		for _, seg := range strings.Split(k, sep) {
-			curr = curr.GetOrAddSub(seg)
-		}
-	}
-}
-
 func stackStepIn(caller string, env *model.Env) {
 	env = env.GetLayer(model.EnvLayerSession)
 	env.PlusInt("sys.stack-depth", 1)
diff --git a/pkg/core/model/env_abbr.go b/pkg/core/model/env_abbr.go
index d40a378..f21c15f 100644
--- a/pkg/core/model/env_abbr.go
+++ b/pkg/core/model/env_abbr.go
@@ -114,6 +114,32 @@ func (self *EnvAbbrs) GetOrAddSub(name string) *EnvAbbrs {
 	return sub
 }
 
+// A segment of a key which is already used as an abbr of another name is skipped, with the rest of this key
+func (self *EnvAbbrs) AddEnvKeys(env *Env, sep string) {
+	for k, _ := range env.Flatten(true, nil, true) {
+		curr := self
+		for _, seg := range strings.Split(k, sep) {
+			if curr = curr.BorrowSub(seg); curr == nil {
+				break
+			}
+		}
+	}
+}
+
+// Add those not conflicted with the existing ones, return nil if the name itself is conflicted
+func (self *EnvAbbrs) BorrowSub(name string, abbrs ...string) *EnvAbbrs {
+	if self.subs[name] == nil && self.subAbbrsRevIdx[name] != "" {
+		return nil
+	}
+	sub := self.GetOrAddSub(name)
+	for _, abbr := range abbrs {
+		if self.subAbbrsRevIdx[abbr] == "" {
+			self.AddSubAbbrs(name, abbr)
+		}
+	}
+	return sub
+}
+
 func (self *EnvAbbrs) GetSub(name string) *EnvAbbrs {
 	sub, _ := self.subs[name]
 	return sub
diff --git a/pkg/mods/builtin/env.go b/pkg/mods/builtin/env.go
index 00da22a..7dba501 100644
--- a/pkg/mods/builtin/env.go
+++ b/pkg/mods/builtin/env.go
@@ -173,6 +173,9 @@ func LoadLocalEnv(
 		env.GetLayer(model.EnvLayerDefault).SetBool("display.color", !utils.StdoutIsPipe())
 	}
 
+	// The keys in env own their names, the mods which will be loaded after this can't use them as abbrs
+	cc.EnvAbbrs.AddEnvKeys(env, cc.Cmds.Strs.EnvPathSep)
+
 	return currCmdIdx, true
 }
 
-- 
2.43.0


From a71a21d62ba08fafa28bd6a967077f4fcb520452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 31/84] fix: a malformed flow with auto mapped args made every
 run fail

---
 pkg/core/model/args_auto_map.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index 6a1e9e7..f263e5e 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -15,12 +15,30 @@ func (self Arg2EnvAutoMapCmds) AddAutoMapTarget(cmd *Cmd) {
 func (self Arg2EnvAutoMapCmds) AutoMapArg2Env(cc *Cli, env *Env, envOpCmds []EnvOpCmd, stackDepth int) {
 	sep := env.GetRaw("strs.cmd-path-sep")
 	for cmd, _ := range self {
-		argv := env.GetArgv(cmd.Owner().Path(), sep, stackDepth, cmd.Args())
-		autoMapArg2EnvForCmd(cc, env.Clone(), cmd, argv, envOpCmds, cmd, stackDepth)
+		tryAutoMapArg2EnvForCmd(cc, env, cmd, envOpCmds, sep, stackDepth)
 		cmd.FinishArg2EnvAutoMap(cc)
 	}
 }
 
+// The flow of a cmd may be malformed, which should not affect the other cmds
+func tryAutoMapArg2EnvForCmd(
+	cc *Cli,
+	env *Env,
+	cmd *Cmd,
+	envOpCmds []EnvOpCmd,
+	sep string,
+	stackDepth int) {
+
+	defer func() {
+		if err := recover(); err != nil {
+			cc.TolerableErrs.OnErr(err, cmd.Owner().Source(), cmd.MetaFile(), "arg2env auto mapping failed")
+		}
+	}()
+
+	argv := env.GetArgv(cmd.Owner().Path(), sep, stackDepth, cmd.Args())
+	autoMapArg2EnvForCmd(cc, env.Clone(), cmd, argv, envOpCmds, cmd, stackDepth)
+}
+
 func autoMapArg2EnvForCmd(
 	cc *Cli,
 	env *Env,
-- 
2.43.0


From 50c2a042bee125f7d834e2baf234ee2aaf4047f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:28 +0000
Subject: [PATCH 32/84] fix: a flow which can't be loaded made the following
 ones in the same combined file missing

---
 pkg/mods/persist/mod_meta/mod_reg.go | 29 +++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/pkg/mods/persist/mod_meta/mod_reg.go b/pkg/mods/persist/mod_meta/mod_reg.go
index 75c34d1..e3b996a 100644
--- a/pkg/mods/persist/mod_meta/mod_reg.go
+++ b/pkg/mods/persist/mod_meta/mod_reg.go
@@ -54,12 +54,35 @@ func RegMod(
 
 	// Discard the cmdPath from real file name
 	for _, meta := range metas {
-		path := getVirtualFileCmdPath(meta.VirtualPath, flowExt, cc.Cmds.Strs.PathSep)
-		regModFile(meta.Meta, cc, metaPath, "", false, true, path,
-			abbrsSep, envPathSep, source, panicRecover)
+		regVirtualFile(meta, cc, metaPath, flowExt, abbrsSep, envPathSep, source, panicRecover)
 	}
 }
 
+// A virtual file which can't be loaded should not affect the others in the same combined file
+func regVirtualFile(
+	meta meta_file.VirtualMetaFile,
+	cc *model.Cli,
+	metaPath string,
+	flowExt string,
+	abbrsSep string,
+	envPathSep string,
+	source string,
+	panicRecover bool) {
+
+	defer func() {
+		if !panicRecover {
+			return
+		}
+		if err := recover(); err != nil {
+			cc.TolerableErrs.OnErr(err, source, metaPath, "module loading failed")
+		}
+	}()
+
+	path := getVirtualFileCmdPath(meta.VirtualPath, flowExt, cc.Cmds.Strs.PathSep)
+	regModFile(meta.Meta, cc, metaPath, "", false, true, path,
+		abbrsSep, envPathSep, source, panicRecover)
+}
+
 func getVirtualFileCmdPath(path string, flowExt string, pathSep string) []string {
 	base := filepath.Base(path)
 	if !strings.HasSuffix(base, flowExt) {
-- 
2.43.0


From 6eb42f33a367ceb260948a546947a10ffc4db30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 33/84] fix: blanks around the separators of command abbrs and
 arg enums were taken as part of them

---
 pkg/mods/persist/mod_meta/mod_reg.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/mods/persist/mod_meta/mod_reg.go b/pkg/mods/persist/mod_meta/mod_reg.go
index e3b996a..990cc6b 100644
--- a/pkg/mods/persist/mod_meta/mod_reg.go
+++ b/pkg/mods/persist/mod_meta/mod_reg.go
@@ -436,6 +436,13 @@ func regMod(
 	}
 }
 
+func splitAndTrim(str string, sep string) (fields []string) {
+	for _, field := range strings.Split(str, sep) {
+		fields = append(fields, strings.TrimSpace(field))
+	}
+	return
+}
+
 func regModAbbrs(meta *meta_file.MetaFile, mod *model.CmdTree) {
 	abbrs := meta.Get("abbrs")
 	if len(abbrs) == 0 {
@@ -445,7 +452,7 @@ func regModAbbrs(meta *meta_file.MetaFile, mod *model.CmdTree) {
 		return
 	}
 	abbrsSep := mod.Strs.AbbrsSep
-	mod.AddAbbrs(strings.Split(abbrs, abbrsSep)...)
+	mod.AddAbbrs(splitAndTrim(abbrs, abbrsSep)...)
 }
 
 func regFlowAbbrs(meta *meta_file.MetaFile, cmds *model.CmdTree, cmdPath []string) {
@@ -462,7 +469,7 @@ func regFlowAbbrs(meta *meta_file.MetaFile, cmds *model.CmdTree, cmdPath []strin
 
 	var abbrs [][]string
 	for _, abbrSeg := range strings.Split(abbrsStr, pathSep) {
-		abbrList := strings.Split(abbrSeg, abbrsSep)
+		abbrList := splitAndTrim(abbrSeg, abbrsSep)
 		abbrs = append(abbrs, abbrList)
 	}
 
@@ -500,7 +507,7 @@ func regArgs(meta *meta_file.MetaFile, cmd *model.Cmd, abbrsSep string) {
 				if strings.HasPrefix(enumsStr, "enum:") {
 					enumsStr = strings.TrimSpace(enumsStr[5:])
 				}
-				enums = strings.Split(enumsStr, enumSep)
+				enums = splitAndTrim(enumsStr, enumSep)
 				defVal = strings.TrimSpace(defVal[:i])
 			}
 		}
-- 
2.43.0


From 66cb0e2bd353986d407fbea56a8201b6211bc468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 34/84] fix: the arg2env auto mapping was done and its errors
 were reported in random order

---
 pkg/core/model/args_auto_map.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index f263e5e..8f5670a 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -14,12 +14,23 @@ func (self Arg2EnvAutoMapCmds) AddAutoMapTarget(cmd *Cmd) {
 
 func (self Arg2EnvAutoMapCmds) AutoMapArg2Env(cc *Cli, env *Env, envOpCmds []EnvOpCmd, stackDepth int) {
 	sep := env.GetRaw("strs.cmd-path-sep")
-	for cmd, _ := range self {
+	for _, cmd := range self.sorted() {
 		tryAutoMapArg2EnvForCmd(cc, env, cmd, envOpCmds, sep, stackDepth)
 		cmd.FinishArg2EnvAutoMap(cc)
 	}
 }
 
+// The results and the reported errors should not be affected by the order of map iterating
+func (self Arg2EnvAutoMapCmds) sorted() (cmds []*Cmd) {
+	for cmd, _ := range self {
+		cmds = append(cmds, cmd)
+	}
+	sort.Slice(cmds, func(i, j int) bool {
+		return cmds[i].Owner().DisplayPath() < cmds[j].Owner().DisplayPath()
+	})
+	return
+}
+
 // The flow of a cmd may be malformed, which should not affect the other cmds
 func tryAutoMapArg2EnvForCmd(
 	cc *Cli,
-- 
2.43.0


From fa28f55642733c19607bf9b357b3134e97a8abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 35/84] fix: a blank or comment line before the first part of a
 combined flow file became an extra empty command

---
 pkg/mods/persist/meta_file/meta_file.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 6ae526d..80f1bc9 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -58,7 +58,7 @@ func parseCombinedFile(path string, data []byte, lineSep string) (paths []string
 			if strings.HasPrefix(cand, CombinedFilePrefix1) {
 				cand = strings.TrimSpace(cand[len(CombinedFilePrefix1):])
 				if strings.HasPrefix(cand, CombinedFilePrefix2) {
-					if !(currPath == path && len(currLines) == 0) {
+					if !(notVirtual && noContent(currLines)) {
 						paths = append(paths, currPath)
 						contents = append(contents, currLines)
 						notVirtuals = append(notVirtuals, notVirtual)
@@ -77,6 +77,15 @@ func parseCombinedFile(path string, data []byte, lineSep string) (paths []string
 	return
 }
 
+func noContent(lines []string) bool {
+	for _, line := range lines {
+		if len(line) != 0 && line[0] != CommentPrefix {
+			return false
+		}
+	}
+	return true
+}
+
 func CreateMetaFile(path string) (meta *MetaFile) {
 	meta = &MetaFile{
 		make(SectionMap),
-- 
2.43.0


From 0aa4f22711b0d19cd78b1272e363b2b059b32c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 36/84] fix: waiting for a background command which is not the
 earliest one panicked, waiting for it twice too

---
 pkg/core/model/bg_tasks.go | 45 ++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/pkg/core/model/bg_tasks.go b/pkg/core/model/bg_tasks.go
index 94f7839..33dec48 100644
--- a/pkg/core/model/bg_tasks.go
+++ b/pkg/core/model/bg_tasks.go
@@ -137,17 +137,17 @@ func (self *BgTask) WaitForFinish() error {
 }
 
 type BgTasks struct {
-	tids      []string
-	tasks     map[string]*BgTask
-	name2task map[string]*BgTask
-	lock      sync.Mutex
+	tids       []string
+	tasks      map[string]*BgTask
+	name2tasks map[string][]*BgTask
+	lock       sync.Mutex
 }
 
 func NewBgTasks() *BgTasks {
 	return &BgTasks{
-		tids:      []string{},
-		tasks:     map[string]*BgTask{},
-		name2task: map[string]*BgTask{},
+		tids:       []string{},
+		tasks:      map[string]*BgTask{},
+		name2tasks: map[string][]*BgTask{},
 	}
 }
 
@@ -161,8 +161,7 @@ func (self *BgTasks) GetOrAddTask(tid string, displayName string, realName strin
 	self.tids = append(self.tids, tid)
 	task = NewBgTask(tid, displayName, stdout)
 	self.tasks[tid] = task
-	println(realName)
-	self.name2task[realName] = task
+	self.name2tasks[realName] = append(self.name2tasks[realName], task)
 	return task
 }
 
@@ -183,11 +182,12 @@ func (self *BgTasks) GetTaskByCmd(cmd string) (tid string, task *BgTask, ok bool
 	if len(self.tids) == 0 {
 		return
 	}
-	task, ok = self.name2task[cmd]
-	if ok {
-		tid = task.info.Tid
+	tasks := self.name2tasks[cmd]
+	if len(tasks) == 0 {
+		return
 	}
-	return
+	task = tasks[len(tasks)-1]
+	return task.info.Tid, task, true
 }
 
 func (self *BgTasks) GetLatestTask() (tid string, task *BgTask, ok bool) {
@@ -228,10 +228,21 @@ func (self *BgTasks) RemoveTask(tid string) {
 	if len(self.tids) == 0 || !ok {
 		panic(fmt.Errorf("[BgTasks.RemoveTask] task '%s' not found", tid))
 	}
-	if self.tids[0] != tid {
-		panic(fmt.Errorf("[BgTasks.RemoveTask] removing task '%s' is not the earliest", tid))
+	var tids []string
+	for _, it := range self.tids {
+		if it != tid {
+			tids = append(tids, it)
+		}
+	}
+	self.tids = tids
+	for name, tasks := range self.name2tasks {
+		var remaining []*BgTask
+		for _, task := range tasks {
+			if task.info.Tid != tid {
+				remaining = append(remaining, task)
+			}
+		}
+		self.name2tasks[name] = remaining
 	}
-	self.tids = self.tids[1:]
 	delete(self.tasks, tid)
-	// TODO: remove it from name2task
 }
-- 
2.43.0


From 7bc64e564c88f5ce7417fa165eef247bf6e7745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 37/84] fix: waiting for a failed background command made the
 run succeed

---
 pkg/mods/builtin/bg_tasks.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/mods/builtin/bg_tasks.go b/pkg/mods/builtin/bg_tasks.go
index a126843..baaf556 100644
--- a/pkg/mods/builtin/bg_tasks.go
+++ b/pkg/mods/builtin/bg_tasks.go
@@ -20,14 +20,15 @@ func WaitForLatestBgTaskFinish(
 			"must be in main thread to wait for other threads to finish"))
 	}
 
+	var errs []error
 	tid, task, ok := cc.BgTasks.GetLatestTask()
 	if ok {
-		errs := WaitBgTask(cc, env, tid, task)
+		errs = WaitBgTask(cc, env, tid, task)
 		for _, err := range errs {
 			display.PrintError(cc, env, err)
 		}
 	}
-	return currCmdIdx, true
+	return currCmdIdx, len(errs) == 0
 }
 
 func WaitForBgTaskFinishByName(
@@ -47,16 +48,17 @@ func WaitForBgTaskFinishByName(
 	}
 
 	verifiedCmd := cc.NormalizeCmd(true, bgCmd)
+	var errs []error
 	tid, task, ok := cc.BgTasks.GetTaskByCmd(verifiedCmd)
 	if !ok {
 		display.PrintTipTitle(cc.Screen, env, "command '"+bgCmd+"' not in background")
 	} else {
-		errs := WaitBgTask(cc, env, tid, task)
+		errs = WaitBgTask(cc, env, tid, task)
 		for _, err := range errs {
 			display.PrintError(cc, env, err)
 		}
 	}
-	return currCmdIdx, true
+	return currCmdIdx, len(errs) == 0
 }
 
 func WaitForAllBgTasksFinish(
@@ -76,7 +78,7 @@ func WaitForAllBgTasksFinish(
 	for _, err := range errs {
 		display.PrintError(cc, env, err)
 	}
-	return currCmdIdx, true
+	return currCmdIdx, len(errs) == 0
 }
 
 func WaitBgTask(cc *model.Cli, env *model.Env, tid string, task *model.BgTask) (errs []error) {
-- 
2.43.0


From ea6f1c3507198103c83c721faf93bab61ccd0753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 38/84] fix: the environment of a background command was read
 while the command was already changing it

---
 pkg/core/execute/executor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index edf741e..3c48a9a 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -574,7 +574,7 @@ func asyncExecute(
 		}
 		cc.FlowStatus.OnFlowFinish(env, ok)
 
-	}(dur, argv, cc, env, flow, currCmdIdx)
+	}(dur, argv, cc, env.Clone(), flow, currCmdIdx)
 
 	tid = <-tidChan
 	screen.Print(display.ColorExplain("(current command scheduled to thread "+tid+")\n", env))
-- 
2.43.0


From 503f5fcda98b02b1496612833f06112dab01f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 39/84] fix: a pause at a breakpoint left the request for it
 behind, so that a later command paused without a reason

---
 pkg/core/execute/interactive.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index 4e5c8cc..bef248f 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -73,6 +73,12 @@ func tryBreakBefore(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, mask *mo
 		return BPAContinue
 	}
 
+	// The pause asked by these is this one, whatever the reason to show is
+	// TODO: BUG: too soon to delete step-in at here, if the first cmd after step-in is FileNFlow, that this cmd can't break between subflow and script
+	env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-in")
+	env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-out")
+	env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.at-next", false)
+
 	choices := []string{}
 	var reason string
 
@@ -84,14 +90,9 @@ func tryBreakBefore(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, mask *mo
 		reason = display.ColorTip("break-point: before command ", env) + display.ColorCmd("["+name+"]", env)
 		choices = append(choices, "s", "d", "c")
 	} else if stepIn {
-		// TODO: BUG: too soon to delete at here, if the first cmd after step-in is FileNFlow, that this cmd can't break between subflow and script
-		env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-in")
 		reason = display.ColorTip("just stepped in", env)
 		choices = append(choices, "s", "d", "c")
 	} else if stepOut {
-		if env.GetBool("sys.breakpoint.status.step-out") {
-			env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-out")
-		}
 		reason = display.ColorTip("just stepped out", env)
 		choices = append(choices, "s", "d", "c")
 	} else if breakByPrev {
-- 
2.43.0


From 352f044f9b19734bd1b4f7e169e5f06c0c28e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 40/84] fix: stepping over the last command of a subflow, or to
 a quiet command, did not pause at the next command

---
 pkg/core/execute/executor.go    | 11 ++++++++++-
 pkg/core/execute/interactive.go |  8 ++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 3c48a9a..456b8df 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -255,6 +255,11 @@ func (self *Executor) executeCmd(
 
 	last := cmd.LastCmdNode()
 
+	if cmd.IsQuiet() {
+		// No break at this one, so the next one still is the next one
+		breakAtNext = breakByPrev
+	}
+
 	// TODO: change name `IsDelay`, maybe `IsBackgroundCmd`
 	if !sysArgv.IsDelay() {
 		bpa := tryWaitSecAndBreakBefore(cc, env, cmd, mask, breakByPrev, lastCmdInFlow, bootstrap, showStack)
@@ -326,7 +331,7 @@ func (self *Executor) executeCmd(
 	}
 
 	if !sysArgv.IsDelay() {
-		bpa := tryWaitSecAndBreakAfter(cc, env, cmd, bootstrap, lastCmdInFlow, showStack)
+		bpa := tryWaitSecAndBreakAfter(cc, env, cmd, bootstrap, showStack)
 		if bpa == BPAStepOver {
 			// Use `breakAtNext = true` to do step-over to not affect subflow
 			breakAtNext = true
@@ -334,6 +339,10 @@ func (self *Executor) executeCmd(
 			return
 		}
 	}
+	if breakAtNext && lastCmdInFlow {
+		// The next command is not in this flow
+		env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.status.step-out", true)
+	}
 	return
 }
 
diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index bef248f..14adef5 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -110,13 +110,9 @@ func tryBreakBefore(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, mask *mo
 	return readUserBPAChoice(reason, choices, bpas, true, cc, env, showStack)
 }
 
-func tryWaitSecAndBreakAfter(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, bootstrap bool, lastCmdInFlow bool, showStack func()) BreakPointAction {
+func tryWaitSecAndBreakAfter(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, bootstrap bool, showStack func()) BreakPointAction {
 	bpa := tryBreakAfter(cc, env, cmd, showStack)
-	if bpa == BPAStepOver {
-		if lastCmdInFlow && (cmd.LastCmd() == nil || !cmd.LastCmd().HasSubFlow(false)) {
-			env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.status.step-out", true)
-		}
-	} else if bpa == BPAContinue && !bootstrap && cmd.LastCmdNode() != nil && !cmd.LastCmdNode().IsQuiet() {
+	if bpa == BPAContinue && !bootstrap && cmd.LastCmdNode() != nil && !cmd.LastCmdNode().IsQuiet() {
 		tryWaitSec(cc, env, "sys.execute-wait-sec.at-end")
 	}
 	return bpa
-- 
2.43.0


From 4d3f20b1d12ca37af840cbf3f937da6c0dd5a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:56 +0000
Subject: [PATCH 41/84] fix: skipping a command that has a flow and a script
 asked again for the script, and continue asked too

---
 pkg/core/execute/executor.go    |  3 ++-
 pkg/core/execute/interactive.go | 18 +++++++++---------
 pkg/core/model/cmd.go           |  4 ++--
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 456b8df..9265968 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -266,6 +266,7 @@ func (self *Executor) executeCmd(
 		if bpa == BPASkip {
 			mask = copyMask(last.DisplayPath(), mask)
 			mask.ExecPolicy = model.ExecPolicySkip
+			mask.FileNFlowExecPolicy = model.ExecPolicySkip
 			// Use env `sys.breakpoint.at-next` to do skip to affect subflow
 			env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.at-next", true)
 		} else if bpa == BPAStepOver {
@@ -292,7 +293,7 @@ func (self *Executor) executeCmd(
 					cmdEnv.SetInt("display.executor.displayed", cmdEnv.GetInt("sys.stack-depth"))
 				}
 				tryBreakInsideFileNFlowWrap := func(cc *model.Cli, env *model.Env, cmd *model.Cmd) bool {
-					return tryBreakInsideFileNFlow(cc, env, cmd, breakByPrev, showStack)
+					return tryBreakInsideFileNFlow(cc, env, cmd, showStack)
 				}
 				newCurrCmdIdx, succeeded = last.Execute(argv, sysArgv, cc, cmdEnv, mask, flow, currCmdIdx, tryBreakInsideFileNFlowWrap)
 				cmdEnv.SetInt("display.executor.displayed", 0)
diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index 14adef5..3069891 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -172,8 +172,8 @@ func tryWaitSec(cc *model.Cli, env *model.Env, waitSecKey string) {
 	}
 }
 
-func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, breakByPrev bool, showStack func()) (shouldExec bool) {
-	breakByPrev = breakByPrev || env.GetBool("sys.breakpoint.at-next")
+func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, showStack func()) (shouldExec bool) {
+	breakByPrev := env.GetBool("sys.breakpoint.at-next")
 
 	if env.GetBool("sys.in-bg-task") {
 		return true
@@ -190,6 +190,10 @@ func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, brea
 		return true
 	}
 
+	env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-in")
+	env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-out")
+	env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.at-next", false)
+
 	name := cmd.Owner().DisplayPath()
 	reason := display.ColorCmd("["+name+"]", env) + display.ColorTip(": pre-executing subflow done, before executing", env)
 	bpa := readUserBPAChoice(
@@ -200,14 +204,10 @@ func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, brea
 		cc,
 		env,
 		showStack)
-	if bpa == BPAContinue {
-		env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-out")
-		return true
-	}
-	if bpa == BPAStepOver {
-		return true
+	if bpa != BPAContinue {
+		env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.at-next", true)
 	}
-	return false
+	return bpa != BPASkip
 }
 
 func clearBreakPointStatusInEnv(env *model.Env) {
diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 0392d55..03052ec 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -980,8 +980,8 @@ func (self *Cmd) executeFileNFlow(argv ArgVals, cc *Cli, env *Env, allowError bo
 	}
 
 	// TODO: user will feel a bit weird when FileNFlowExecPolicy is skip
-	if tryBreakInsideFileNFlow == nil || tryBreakInsideFileNFlow(cc, env, self) {
-		if mask == nil || mask.FileNFlowExecPolicy == ExecPolicyExec {
+	if mask == nil || mask.FileNFlowExecPolicy == ExecPolicyExec {
+		if tryBreakInsideFileNFlow == nil || tryBreakInsideFileNFlow(cc, env, self) {
 			return self.executeFile(argv, cc, env, allowError, parsedCmd, logFilePath)
 		}
 	}
-- 
2.43.0


From cea1c7f6fccd07284e406f888fcee225220430ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 42/84] fix: the answer to a breakpoint took the input of the
 following ones along

---
 pkg/core/execute/interactive.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index 3069891..0ce6909 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -1,8 +1,8 @@
 package execute
 
 import (
-	"bufio"
 	"fmt"
+	"io"
 	"os"
 	"strings"
 	"time"
@@ -217,6 +217,23 @@ func clearBreakPointStatusInEnv(env *model.Env) {
 	env.Delete("sys.breakpoint.status.step-out")
 }
 
+// No buffering, what is behind the line belongs to the next reader
+func readLine(reader io.Reader) (line []byte, err error) {
+	char := make([]byte, 1)
+	for {
+		n, err := reader.Read(char)
+		if n > 0 {
+			line = append(line, char[0])
+			if char[0] == '\n' {
+				return line, nil
+			}
+		}
+		if err != nil {
+			return line, err
+		}
+	}
+}
+
 func readUserBPAChoice(reason string, choices []string, actions BPAs, lowerInput bool,
 	cc *model.Cli, env *model.Env, showStack func()) BreakPointAction {
 
@@ -231,9 +248,8 @@ func readUserBPAChoice(reason string, choices []string, actions BPAs, lowerInput
 
 	showTitle()
 
-	buf := bufio.NewReader(os.Stdin)
 	for {
-		lineBytes, err := buf.ReadBytes('\n')
+		lineBytes, err := readLine(os.Stdin)
 		if err != nil {
 			panic(fmt.Errorf("[readFromStdin] read from stdin failed: %v", err))
 		}
-- 
2.43.0


From 3608d2454ce2dba0644988949f68c3465b564ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 43/84] fix: several replace requests duplicated or skipped the
 commands of a sequence

---
 pkg/core/model/blender.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/pkg/core/model/blender.go b/pkg/core/model/blender.go
index cc80245..2a19a0f 100644
--- a/pkg/core/model/blender.go
+++ b/pkg/core/model/blender.go
@@ -154,23 +154,20 @@ func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool)
 
 		originDeleted := false
 		originPosDelta := 0
-		addedCmdCnt := 0
-		for j := 0; j < len(self.invokers); j++ {
+		// What the origin command becomes, 'originIdx' is the position of itself in it
+		blended := []ParsedCmd{parsedCmd}
+		originIdx := 0
+		for j := 0; j < len(self.invokers); {
 			invoker := self.invokers[j]
 			cmds, deleted, posDelta, finished := invoker.Invoke(parsedCmd)
 			if finished {
-				if j == len(self.invokers)-1 {
-					self.invokers = self.invokers[0:j]
-				} else {
-					self.invokers = append(self.invokers[0:j], self.invokers[j+1:]...)
-				}
+				self.invokers = append(append([]BlenderInvoker{}, self.invokers[0:j]...), self.invokers[j+1:]...)
+			} else {
 				j += 1
 			}
 
-			addedCmdCnt += len(cmds) - 1
-			if len(cmds) > 0 {
-				result = append(result, cmds...)
-			}
+			following := append([]ParsedCmd{}, blended[originIdx+1:]...)
+			blended = append(append(blended[:originIdx], cmds...), following...)
 			if deleted {
 				originDeleted = true
 				break
@@ -178,6 +175,8 @@ func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool)
 				originPosDelta += posDelta
 			}
 		}
+		addedCmdCnt := len(blended) - 1
+		result = append(result, blended...)
 
 		if originDeleted || originPosDelta != 0 {
 			changed = true
-- 
2.43.0


From 6af629c8e625c76b5ec4f4341008a69688dd5206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 44/84] fix: '*' in args auto mapping used the key and the
 default value of the last command

---
 pkg/core/model/args_auto_map.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index 8f5670a..b1bacdf 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -265,12 +265,28 @@ func (self *ArgsAutoMapStatus) FullyMapped() bool {
 
 func (self *ArgsAutoMapStatus) MarkAndCacheMapping(srcCmd *Cmd, key string, argName string, defVal string, abbrs []string, shouldMarkMapped bool) {
 	self.MarkMet(srcCmd)
+	// The first command in the flow decides the mapping (and the default value), the same as in executing
+	if _, ok := self.cache[argName]; ok {
+		return
+	}
+	if !shouldMarkMapped && self.isKeyCached(key) {
+		return
+	}
 	self.cache[argName] = Arg2EnvMappingEntry{srcCmd, key, argName, defVal, abbrs}
 	if shouldMarkMapped {
 		self.mapped[argName] = true
 	}
 }
 
+func (self *ArgsAutoMapStatus) isKeyCached(key string) bool {
+	for _, entry := range self.cache {
+		if entry.Key == key {
+			return true
+		}
+	}
+	return false
+}
+
 func (self *ArgsAutoMapStatus) GetMappedSource(argName string) *Arg2EnvMappingEntry {
 	entry, ok := self.resultData[argName]
 	if !ok {
-- 
2.43.0


From 354261059c40fc234c379285a261054f6b467b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:50 +0000
Subject: [PATCH 45/84] fix: a flow calling itself hung or overflowed the stack
 instead of being reported

---
 pkg/core/execute/executor.go | 1 +
 pkg/core/model/dep.go        | 2 ++
 pkg/core/model/env_ops.go    | 2 ++
 pkg/core/model/flow.go       | 9 +++++++++
 4 files changed, 14 insertions(+)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 9265968..1aa3090 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -176,6 +176,7 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 
 	if !bootstrap && !crossProcessInnerCall {
 		stackStepIn(caller, env)
+		model.AssertFlowDepth(env.GetInt("sys.stack-depth"))
 	}
 	if !self.executeFlow(cc, bootstrap, flow, env, masks, input) {
 		return false
diff --git a/pkg/core/model/dep.go b/pkg/core/model/dep.go
index 2dd3012..7dd99ef 100644
--- a/pkg/core/model/dep.go
+++ b/pkg/core/model/dep.go
@@ -29,6 +29,8 @@ func collectDepends(
 	envOpCmds []EnvOpCmd,
 	depth int) {
 
+	AssertFlowDepth(depth)
+
 	for i := currCmdIdx; i < len(flow.Cmds); i++ {
 		it := flow.Cmds[i]
 		cic := it.LastCmd()
diff --git a/pkg/core/model/env_ops.go b/pkg/core/model/env_ops.go
index ad31ee9..27e06b0 100644
--- a/pkg/core/model/env_ops.go
+++ b/pkg/core/model/env_ops.go
@@ -264,6 +264,8 @@ func checkEnvOps(
 	arg2envs FirstArg2EnvProviders,
 	depth int) {
 
+	AssertFlowDepth(depth)
+
 	if len(flow.Cmds) == 0 {
 		return
 	}
diff --git a/pkg/core/model/flow.go b/pkg/core/model/flow.go
index d05fb2e..ffc00c1 100644
--- a/pkg/core/model/flow.go
+++ b/pkg/core/model/flow.go
@@ -8,6 +8,15 @@ import (
 	"strings"
 )
 
+// Far deeper than any reasonable flow, only a flow calling itself could reach it
+const MaxFlowDepth = 256
+
+func AssertFlowDepth(depth int) {
+	if depth > MaxFlowDepth {
+		panic(fmt.Errorf("flow nested too deep (over %d levels), it may be calling itself", MaxFlowDepth))
+	}
+}
+
 func SaveFlowToStr(flow *ParsedCmds, cmdPathSep string, trivialMark string, env *Env) string {
 	w := bytes.NewBuffer(nil)
 	SaveFlow(w, flow, cmdPathSep, trivialMark, env)
-- 
2.43.0


From ba5f957d2f8aa7be444a0b93e45066b843059d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:50 +0000
Subject: [PATCH 46/84] fix: a delayed command without session aborted the
 process

---
 pkg/core/execute/executor.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 1aa3090..8bacbf8 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -525,16 +525,20 @@ func asyncExecute(
 		realName := cmd.LastCmdNode().DisplayPath()
 		tid := utils.GoRoutineIdStr()
 
+		bgSessionEnv := env.GetLayer(model.EnvLayerSession)
+
+		// There is no session dir if the flow is executing without session
 		sessionDir := env.GetRaw("session")
-		sessionDir = filepath.Join(sessionDir, tid)
-		os.MkdirAll(sessionDir, os.ModePerm)
+		if len(sessionDir) != 0 {
+			sessionDir = filepath.Join(sessionDir, tid)
+			os.MkdirAll(sessionDir, os.ModePerm)
 
-		statusFileName := env.GetRaw("strs.session-status-file")
-		statusPath := filepath.Join(sessionDir, statusFileName)
-		cc.SetFlowStatusWriter(model.NewExecutingFlow(statusPath, flow, env))
+			statusFileName := env.GetRaw("strs.session-status-file")
+			statusPath := filepath.Join(sessionDir, statusFileName)
+			cc.SetFlowStatusWriter(model.NewExecutingFlow(statusPath, flow, env))
 
-		bgSessionEnv := env.GetLayer(model.EnvLayerSession)
-		bgSessionEnv.Set("session", sessionDir)
+			bgSessionEnv.Set("session", sessionDir)
+		}
 		bgSessionEnv.SetBool("display.one-cmd", true)
 		bgSessionEnv.SetBool("sys.in-bg-task", true)
 
@@ -583,7 +587,9 @@ func asyncExecute(
 				env, ok, elapsed, flow.Cmds, currCmdIdx, cc.Cmds.Strs)
 			display.RenderCmdResult(resultLines, env, cc.Screen, width)
 		}
-		cc.FlowStatus.OnFlowFinish(env, ok)
+		if cc.FlowStatus != nil {
+			cc.FlowStatus.OnFlowFinish(env, ok)
+		}
 
 	}(dur, argv, cc, env.Clone(), flow, currCmdIdx)
 
-- 
2.43.0


From ce4a1ffd206b3fc2bf0254f3ec03d4e997f1d062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:50 +0000
Subject: [PATCH 47/84] fix: a bad display setting turned the display of an
 error into a crash

---
 pkg/cli/display/err.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/cli/display/err.go b/pkg/cli/display/err.go
index 81408ef..0a86e51 100644
--- a/pkg/cli/display/err.go
+++ b/pkg/cli/display/err.go
@@ -23,6 +23,13 @@ func PrintEmptyDirCmdHint(screen model.Screen, env *model.Env, cmd model.ParsedC
 }
 
 func PrintError(cc *model.Cli, env *model.Env, err error) {
+	defer func() {
+		// The error can't be well displayed (eg: bad display settings in env), but still needs to be showed
+		if r := recover(); r != nil {
+			cc.Screen.Print(fmt.Sprintf("%v\n(failed to display this error: %v)\n", err, r))
+		}
+	}()
+
 	switch err.(type) {
 	case *model.CmdMissedEnvValWhenRenderFlow:
 		e := err.(*model.CmdMissedEnvValWhenRenderFlow)
-- 
2.43.0


From 633b0fb2ea453f06fb0ffd2cc1f3d9de55918568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:50 +0000
Subject: [PATCH 48/84] fix: showing a tip with a screen width of zero or less
 crashed

---
 pkg/cli/display/tip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cli/display/tip.go b/pkg/cli/display/tip.go
index 896e065..5b7608a 100644
--- a/pkg/cli/display/tip.go
+++ b/pkg/cli/display/tip.go
@@ -55,7 +55,7 @@ func NewTipBoxPrinter(screen model.Screen, env *model.Env, isErr bool) *TipBoxPr
 
 func (self *TipBoxPrinter) PrintWrap(msgs ...string) {
 	for _, msg := range msgs {
-		for len(msg) > self.maxWidth {
+		for self.maxWidth > 0 && len(msg) > self.maxWidth {
 			self.Print(msg[0:self.maxWidth])
 			msg = msg[self.maxWidth:]
 		}
-- 
2.43.0


From 1ed241a0af77170524e1da0e6efa05a30b3986b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:50 +0000
Subject: [PATCH 49/84] fix: listing sessions before any was made failed

---
 pkg/core/model/session.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/session.go b/pkg/core/model/session.go
index d333351..4c927e5 100644
--- a/pkg/core/model/session.go
+++ b/pkg/core/model/session.go
@@ -43,7 +43,11 @@ func ListSessions(
 
 	entrys, err := os.ReadDir(sessionsRoot)
 	if err != nil {
-		panic(fmt.Sprintf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
+		if os.IsNotExist(err) {
+			// No session yet
+			return
+		}
+		panic(fmt.Errorf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
 	}
 	dirs := make([]string, len(entrys))
 	for i, it := range entrys {
@@ -116,7 +120,11 @@ func CleanSessions(env *Env) (cleaned uint, runnings uint) {
 
 	dirs, err := os.ReadDir(sessionsRoot)
 	if err != nil {
-		panic(fmt.Sprintf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
+		if os.IsNotExist(err) {
+			// No session yet
+			return
+		}
+		panic(fmt.Errorf("[CleanSessions] can't read sessions' root path '%s'\n", sessionsRoot))
 	}
 
 	for _, dir := range dirs {
-- 
2.43.0


From b0c78ac4b98490d92dc5245f7f669d9b8d22ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:50 +0000
Subject: [PATCH 50/84] fix: words following an empty valued argument were cut
 at the wrong place or crashed the parser

---
 pkg/core/parser/env.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/core/parser/env.go b/pkg/core/parser/env.go
index 9a6ce2b..59dcdbe 100644
--- a/pkg/core/parser/env.go
+++ b/pkg/core/parser/env.go
@@ -79,7 +79,9 @@ func (self *EnvParser) TryParseRaw(
 		}
 		originIdx := normalized.originIdx[normalizedIdx]
 		originStrIdx := normalized.originStrIdx[normalizedIdx]
-		return tryTrimStrings(input[originIdx:][originStrIdx:])
+		result := append([]string{}, input[originIdx:]...)
+		result[0] = result[0][originStrIdx:]
+		return tryTrimStrings(result)
 	}
 
 	// It's non-args env definition
-- 
2.43.0


From 546c8f8c2afcf27e352ebfabd83e4337dd5d775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:50 +0000
Subject: [PATCH 51/84] fix: checking an empty command for needing a session
 crashed

---
 pkg/core/execute/cmd_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/execute/cmd_type.go b/pkg/core/execute/cmd_type.go
index ac86176..7b17dd9 100644
--- a/pkg/core/execute/cmd_type.go
+++ b/pkg/core/execute/cmd_type.go
@@ -105,7 +105,7 @@ func noSessionCmds(flow *model.ParsedCmds) bool {
 		}
 		ignore := false
 		for _, it := range funcs {
-			if cmd.Cmd() != nil && cmd.Cmd().IsTheSameFunc(it) {
+			if cmd != nil && cmd.Cmd() != nil && cmd.Cmd().IsTheSameFunc(it) {
 				ignore = true
 				break
 			}
-- 
2.43.0


From d0b76c1c7f4df5091868999eee455a999d90e430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:50 +0000
Subject: [PATCH 52/84] fix: a pause accepted the choices it did not offer, at
 the end of flow that crashed

---
 pkg/core/execute/interactive.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index 0ce6909..24190b3 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -248,6 +248,12 @@ func readUserBPAChoice(reason string, choices []string, actions BPAs, lowerInput
 
 	showTitle()
 
+	// What is not offered is not a valid input
+	offered := BPAs{}
+	for _, choice := range choices {
+		offered[choice] = actions[choice]
+	}
+
 	for {
 		lineBytes, err := readLine(os.Stdin)
 		if err != nil {
@@ -260,7 +266,7 @@ func readUserBPAChoice(reason string, choices []string, actions BPAs, lowerInput
 		if lowerInput {
 			line = strings.ToLower(line)
 		}
-		if action, ok := actions[line]; ok {
+		if action, ok := offered[line]; ok {
 			if action == BPAQuit {
 				panic(model.NewAbortByUserErr())
 			} else if action == BPAInteract {
-- 
2.43.0


From d3fdb95e49c0502a0423518de0702369793b3b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 53/84] fix: a call of ticat from inside a run executed the
 exit hooks and broke the stack of the run

---
 pkg/ticat/ticat.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ticat/ticat.go b/pkg/ticat/ticat.go
index c8b3dee..bf0644d 100644
--- a/pkg/ticat/ticat.go
+++ b/pkg/ticat/ticat.go
@@ -231,6 +231,10 @@ func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 	if len(env.GetRaw("session")) == 0 {
 		return true
 	}
+	// The hooks belong to the process owning the session, not to the inner calls joining it
+	if ticat.cc.FlowStatus == nil {
+		return true
+	}
 	hookStr := env.GetRaw(hookKeyName)
 	if !(len(hookStr) != 0 && ticat.executor != nil) {
 		return true
-- 
2.43.0


From 151dab1498a12de06f7152bec4b501932bbbb5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:00 +0000
Subject: [PATCH 54/84] fix: a path as the name of an env snapshot reached
 files outside the snapshots

---
 pkg/mods/builtin/env_snapshot.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/mods/builtin/env_snapshot.go b/pkg/mods/builtin/env_snapshot.go
index 1f73c0d..6f921e9 100644
--- a/pkg/mods/builtin/env_snapshot.go
+++ b/pkg/mods/builtin/env_snapshot.go
@@ -187,6 +187,9 @@ func getEnvSnapshotPath(env *model.Env, name string) string {
 	if len(ext) == 0 {
 		panic(fmt.Errorf("env value 'strs.env-snapshot-ext' is empty"))
 	}
+	if strings.ContainsRune(name, filepath.Separator) || name == "." || name == ".." {
+		panic(fmt.Errorf("invalid env snapshot name '%s', it should not be a path", name))
+	}
 	dir := getEnvSnapshotDir(env)
 	return filepath.Join(dir, name) + ext
 }
-- 
2.43.0


From 82b639a32392b8808636cf755f89b13736c07134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:01 +0000
Subject: [PATCH 55/84] fix: describing a sequence showed sensitive argument
 values

---
 pkg/cli/display/args.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cli/display/args.go b/pkg/cli/display/args.go
index 7395118..5e0b51d 100644
--- a/pkg/cli/display/args.go
+++ b/pkg/cli/display/args.go
@@ -50,7 +50,7 @@ func DumpEffectedArgs(
 		line := ColorArg(k, env) + " " + ColorSymbol("=", env) + " "
 		v, provided := argv[k]
 		if provided && v.Provided {
-			line += mayQuoteStr(v.Raw)
+			line += mayQuoteStr(mayMaskSensitiveVal(env, k, v.Raw))
 		} else {
 			if len(defV) == 0 {
 				continue
@@ -63,7 +63,7 @@ func DumpEffectedArgs(
 			if hasMapping && writtenKeys[key] {
 				continue
 			}
-			line += mayQuoteStr(defV)
+			line += mayQuoteStr(mayMaskSensitiveVal(env, k, defV))
 		}
 		output = append(output, line)
 	}
-- 
2.43.0


From b52e850570cf69fce32fe6f4c56caf5e098ed992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 56/84] fix: renaming a flow silently replaced another flow, or
 hid it behind an existing command

---
 pkg/mods/builtin/flow.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 2855106..3af3bfe 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -110,6 +110,25 @@ func RenameFlow(
 			fmt.Sprintf("path '%s' does not exist", srcFilePath)))
 	}
 
+	if srcFilePath != destFilePath {
+		realDest := ""
+		if argDestCmdPath != destCmdPath {
+			realDest = "(" + destCmdPath + ")"
+		}
+		if fileExists(destFilePath) {
+			cc.Screen.Print(fmt.Sprintf(display.ColorTip("[confirm]", env)+
+				" flow file of '%s'"+realDest+" exists, "+
+				"type "+display.ColorWarn("'y'", env)+" and press enter to "+
+				display.ColorWarn("overwrite:", env)+"\n", argDestCmdPath))
+			utils.UserConfirm()
+		} else if isExistingCmd(cc, destCmdPath) {
+			display.PrintErrTitle(cc.Screen, env,
+				"cmd '"+argDestCmdPath+"'"+realDest+" exists but it is not a saved flow in default place.",
+				"", "so a flow can not be renamed to it")
+			return currCmdIdx, false
+		}
+	}
+
 	err = os.Rename(srcFilePath, destFilePath)
 	if err != nil {
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
@@ -384,6 +403,12 @@ func loadFlowsFromDir(
 	return true
 }
 
+// A path could be in the command tree only as the prefix of other commands
+func isExistingCmd(cc *model.Cli, cmdPath string) bool {
+	node := cc.Cmds.GetSub(strings.Split(cmdPath, cc.Cmds.Strs.PathSep)...)
+	return node != nil && node.Cmd() != nil
+}
+
 func getCmdRealPath(
 	flow *model.ParsedCmds,
 	currCmdIdx int,
-- 
2.43.0


From 69134ae7fccc5e66572e721aeddd04ac7ca581c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 57/84] fix: a command could not be defined at a path another
 source has commands below, so a saved flow hid a command or could not be
 saved

---
 pkg/core/model/cmds.go   | 29 +++++------------------------
 pkg/mods/builtin/flow.go |  2 +-
 2 files changed, 6 insertions(+), 25 deletions(-)

diff --git a/pkg/core/model/cmds.go b/pkg/core/model/cmds.go
index 432b5d9..e62aaff 100644
--- a/pkg/core/model/cmds.go
+++ b/pkg/core/model/cmds.go
@@ -85,27 +85,17 @@ func (self *CmdTree) Execute(
 }
 
 func (self *CmdTree) cmdConflictCheck(help string, funName string, source string) {
-	// Allow in-source overwrite when: the cmd is not registered
-	if self.cmd == nil && self.source == source {
-		return
-	}
-	// Allow cross-source overwrite when: the node was left by a failed register
-	if self.cmd == nil && len(self.source) != 0 && !self.hasCmdInSubs() {
+	// Allow overwrite when: the cmd is not registered, the node only leads to other cmds or was left by a failed register
+	if self.cmd == nil {
 		return
 	}
 	// Allow cross-source overwrite when: the cmd is a totally empty dir cmd
 	if self.cmd != nil && self.cmd.IsTotallyEmpty() {
 		return
 	}
-	var errStr string
-	if self.cmd != nil {
-		errStr = fmt.Sprintf("reg-cmd conflicted. old-help '%s', new-help '%s'",
-			strings.Split(self.cmd.Help(), "\n")[0],
-			strings.Split(help, "\n")[0])
-	} else {
-		errStr = fmt.Sprintf("reg-cmd conflicted. old-cmd is no executable, new-help '%s'",
-			strings.Split(help, "\n")[0])
-	}
+	errStr := fmt.Sprintf("reg-cmd conflicted. old-help '%s', new-help '%s'",
+		strings.Split(self.cmd.Help(), "\n")[0],
+		strings.Split(help, "\n")[0])
 	err := &CmdTreeErrExecutableConflicted{
 		errStr,
 		self.Path(),
@@ -114,15 +104,6 @@ func (self *CmdTree) cmdConflictCheck(help string, funName string, source string
 	panic(err)
 }
 
-func (self *CmdTree) hasCmdInSubs() bool {
-	for _, sub := range self.subs {
-		if sub.cmd != nil || sub.hasCmdInSubs() {
-			return true
-		}
-	}
-	return false
-}
-
 func (self *CmdTree) SetHidden() *CmdTree {
 	self.hidden = true
 	return self
diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 3af3bfe..af1ed36 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -258,7 +258,7 @@ func SaveFlow(
 				utils.UserConfirm()
 			}
 		}
-	} else if cmdExists {
+	} else if cmdExists && isExistingCmd(cc, cmdPath) {
 		display.PrintErrTitle(cc.Screen, env,
 			"cmd '"+argCmdPath+"'"+realCmdStr+" exists but it is not a saved flow in default place.",
 			"", "so can not be overwrited by 'flow.save', recommand to use 'cmd.edit' to modify it")
-- 
2.43.0


From fa37220e8cc8ca4276aa07d78281e796af5dff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 58/84] fix: a flow saved with a file path as its name was
 stored outside the flows or under another name

---
 pkg/mods/builtin/flow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index af1ed36..89a375f 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -475,6 +475,11 @@ func getFlowCmdPath(
 		}
 	}
 
+	if strings.ContainsRune(cmdPath, filepath.Separator) {
+		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+			fmt.Sprintf("invalid cmd path '%s', it should not be a file path", originCmd)))
+	}
+
 	if expectExists && !cmdExists {
 		if originCmd == cmdPath {
 			panic(model.NewCmdError(flow.Cmds[currCmdIdx],
-- 
2.43.0


From b5129f207d580f90dbea84910e4c1ef3ba6d88fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 59/84] fix: a saved help ending with a backslash swallowed the
 next line of the flow file

---
 pkg/mods/persist/meta_file/meta_file.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 80f1bc9..ec41e0c 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -268,7 +268,15 @@ func (self *MetaFile) Save() {
 func (self *MetaFile) save(w io.Writer) {
 	saveKey := func(key string, val string) (multiLine bool) {
 		lines := strings.Split(val, self.lineSep)
-		if len(lines) == 1 {
+		if strings.HasSuffix(strings.TrimSpace(lines[len(lines)-1]), string(MultiLineBreaker)) {
+			// In key-value form the breaker in the end will join the value with the next line
+			fmt.Fprintf(w, "%c%s/%c\n", SectionBracketLeft, key, SectionBracketRight)
+			for _, line := range lines {
+				fmt.Fprintf(w, "    %s\n", line)
+			}
+			fmt.Fprintf(w, "%c/%s%c\n", SectionBracketLeft, key, SectionBracketRight)
+			return true
+		} else if len(lines) == 1 {
 			fmt.Fprintf(w, "%s %s %s\n", key, self.kvSep, val)
 			return false
 		} else {
-- 
2.43.0


From e7003d07385ad451594cc29aaac05aa8f64400d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:54 +0000
Subject: [PATCH 60/84] fix: a crash or a full disk while saving a flow lost
 its content, and a failed save reported success

---
 pkg/mods/persist/meta_file/meta_file.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index ec41e0c..f4c7a74 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -256,13 +256,23 @@ func (self *MetaFile) parse(lines []string) {
 }
 
 func (self *MetaFile) Save() {
-	file, err := os.OpenFile(self.path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	// Write to a temporary file then rename, or a crash in the middle will lose the old content
+	tmp := self.path + ".tmp"
+	mode := os.FileMode(0644)
+	if info, err := os.Stat(self.path); err == nil {
+		mode = info.Mode().Perm()
+	}
+	content := &bytes.Buffer{}
+	self.save(content)
+	err := ioutil.WriteFile(tmp, content.Bytes(), mode)
+	if err == nil {
+		err = os.Rename(tmp, self.path)
+	}
 	if err != nil {
-		panic(fmt.Errorf("[MetaFile.Save] open mod meta file '%s' for save failed: %v",
+		os.Remove(tmp)
+		panic(fmt.Errorf("[MetaFile.Save] save mod meta file '%s' failed: %v",
 			self.path, err))
 	}
-	defer file.Close()
-	self.save(file)
 }
 
 func (self *MetaFile) save(w io.Writer) {
-- 
2.43.0


From e20792d9fd96f23424e285f15ec61646e4843e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:10 +0000
Subject: [PATCH 61/84] fix: a join with a zero step or at the largest integer
 never ended, an invalid range ran other values, and a failing run was ignored

---
 pkg/mods/builtin/join.go | 75 +++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 17 deletions(-)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index 92aabcf..ca4bb1b 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -11,6 +11,8 @@ import (
 
 const (
 	joinKvName = "join.kvs"
+
+	joinRangeMaxSize = 1000000
 )
 
 type joinKv struct {
@@ -49,20 +51,11 @@ func JoinNew(
 			endStr = val[j+1 : len(val)-1]
 			stepStr = "1"
 		}
-		if strings.Contains(val, ".") {
-			start, _ := strconv.ParseFloat(startStr, 64)
-			end, _ := strconv.ParseFloat(endStr, 64)
-			step, _ := strconv.ParseFloat(stepStr, 64)
-			for ; start <= end; start += step {
-				vals = append(vals, fmt.Sprintf("%f", start))
-			}
-		} else {
-			start, _ := strconv.Atoi(startStr)
-			end, _ := strconv.Atoi(endStr)
-			step, _ := strconv.Atoi(stepStr)
-			for ; start <= end; start += step {
-				vals = append(vals, strconv.Itoa(start))
-			}
+		var err error
+		vals, err = joinRangeVals(startStr, endStr, stepStr)
+		if err != nil {
+			panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+				fmt.Sprintf("invalid range '%s': %s", val, err.Error())))
 		}
 	} else {
 		vals = strings.Split(val, env.GetRaw("strs.list-sep"))
@@ -110,15 +103,22 @@ func JoinRun(
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
 			"can't execute null ticat command"))
 	}
+	seqSep := env.GetRaw("strs.seq-sep")
 	iter := newJoinKvsIter(kvs)
 	for {
 		args := []string{cmd}
 		keys, vals := iter.get()
 		for i, key := range keys {
-			args = append(args, key+"="+vals[i])
+			if len(strings.TrimSpace(vals[i])) == 0 {
+				args = append(args, key, "=", "")
+			} else {
+				args = append(args, key+"="+strings.ReplaceAll(vals[i], seqSep, "\\"+seqSep))
+			}
+		}
+		if !cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
+			true, cc, env, nil, args...) {
+			return currCmdIdx, false
 		}
-		cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
-			true, cc, env, nil, args...)
 		if !iter.next() {
 			break
 		}
@@ -126,6 +126,47 @@ func JoinRun(
 	return currCmdIdx, true
 }
 
+// Both ends are included
+func joinRangeVals(startStr string, endStr string, stepStr string) (vals []string, err error) {
+	startStr = strings.TrimSpace(startStr)
+	endStr = strings.TrimSpace(endStr)
+	stepStr = strings.TrimSpace(stepStr)
+
+	if strings.Contains(startStr+endStr+stepStr, ".") {
+		var nums [3]float64
+		for i, str := range []string{startStr, endStr, stepStr} {
+			nums[i], err = strconv.ParseFloat(str, 64)
+			if err != nil {
+				return nil, err
+			}
+		}
+		start, end, step := nums[0], nums[1], nums[2]
+		if !(step > 0) || !(start <= end) || !((end-start)/step < joinRangeMaxSize) {
+			return nil, fmt.Errorf("should be increasing, and not bigger than %d", joinRangeMaxSize)
+		}
+		for ; start <= end; start += step {
+			vals = append(vals, fmt.Sprintf("%f", start))
+		}
+		return vals, nil
+	}
+
+	var nums [3]int
+	for i, str := range []string{startStr, endStr, stepStr} {
+		nums[i], err = strconv.Atoi(str)
+		if err != nil {
+			return nil, err
+		}
+	}
+	start, end, step := nums[0], nums[1], nums[2]
+	if step <= 0 || start > end || uint64(end-start)/uint64(step) >= joinRangeMaxSize {
+		return nil, fmt.Errorf("should be increasing, and not bigger than %d", joinRangeMaxSize)
+	}
+	for i, last := 0, int(uint64(end-start)/uint64(step)); i <= last; i++ {
+		vals = append(vals, strconv.Itoa(start+i*step))
+	}
+	return vals, nil
+}
+
 type joinKvsIter struct {
 	kvs []joinKv
 	ids []int
-- 
2.43.0


From 063f7c8cec15fe903e64ffdb98eebb3dedb141d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:47 +0000
Subject: [PATCH 62/84] fix: a sequence starting with a command that needs no
 session ran the following commands without a session, so they failed

---
 pkg/core/execute/cmd_type.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/cmd_type.go b/pkg/core/execute/cmd_type.go
index 7b17dd9..d64d58d 100644
--- a/pkg/core/execute/cmd_type.go
+++ b/pkg/core/execute/cmd_type.go
@@ -95,7 +95,16 @@ func noSessionCmds(flow *model.ParsedCmds) bool {
 	}
 	cmd := flow.Cmds[0].LastCmdNode()
 
-	if cmd != nil && cmd.Cmd() != nil && cmd.Cmd().IsNoSessionCmd() {
+	// The other commands may need a session
+	allNoSession := true
+	for _, it := range flow.Cmds {
+		last := it.LastCmd()
+		if last == nil || !last.IsNoSessionCmd() {
+			allNoSession = false
+			break
+		}
+	}
+	if allNoSession {
 		return true
 	}
 
-- 
2.43.0


From cf4725f7ede6bf42c110a92b774222db4a3b23a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:47 +0000
Subject: [PATCH 63/84] fix: a tolerated failure ended the run of a ticat
 called by a command, a failed one broke the stack of its caller, and forest
 mode leaked into a subflow of the same name or over a tolerated failure

---
 pkg/core/model/blender.go   |  9 +++---
 pkg/core/model/cmd.go       | 59 ++++++++++++++++++++++---------------
 pkg/core/model/forest.go    |  4 +--
 pkg/mods/builtin/blender.go |  2 +-
 4 files changed, 43 insertions(+), 31 deletions(-)

diff --git a/pkg/core/model/blender.go b/pkg/core/model/blender.go
index 2a19a0f..e200061 100644
--- a/pkg/core/model/blender.go
+++ b/pkg/core/model/blender.go
@@ -2,7 +2,6 @@ package model
 
 import (
 	"fmt"
-	"strings"
 )
 
 type BlenderInvoker interface {
@@ -197,12 +196,12 @@ func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool)
 }
 
 // TODO: should not in core package
-func GetLastStackFrame(env *Env) string {
+// The name of the last frame is not enough to identify a frame,
+// a command could be called (indirectly) by another call of it
+func GetStackFrames(env *Env) string {
 	stackStr := env.GetRaw("sys.stack")
 	if len(stackStr) == 0 {
 		panic(fmt.Errorf("[BlenderForestMode] should never happen"))
 	}
-	listSep := env.GetRaw("strs.list-sep")
-	stack := strings.Split(stackStr, listSep)
-	return stack[len(stack)-1]
+	return stackStr
 }
diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 03052ec..8add90a 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -205,12 +205,14 @@ func (self *Cmd) Execute(
 	session := env.GetLayer(EnvLayerSession)
 	stack := session.GetRaw("sys.stack")
 	stackDepth := session.GetRaw("sys.stack-depth")
+	forestMode := cc.ForestMode.Clone()
 
 	newCurrCmdIdx, ok = self.execute(argv, cc, env, mask, flow, allowError, currCmdIdx, tryBreakInsideFileNFlow)
 	if !ok && allowError {
 		// The failed subflows did not step out
 		session.Set("sys.stack", stack)
 		session.Set("sys.stack-depth", stackDepth)
+		*cc.ForestMode = *forestMode
 	}
 	if !ok {
 		// Normally the command should print info before return false, so no need to panic
@@ -247,30 +249,35 @@ func (self *Cmd) execute(
 
 	if cc.FlowStatus != nil {
 		cc.FlowStatus.OnCmdStart(flow, currCmdIdx, env, logFilePath)
-		defer func() {
-			r := recover()
-			handledErr := false
-			var err error
-			isAbort := false
-			if r != nil {
-				handledErr = cc.HandledErrors[r]
-				err = r.(error)
-				_, isAbort = err.(*AbortByUserErr)
+	}
+	// There is no status file for a ticat process called by a command in a session
+	defer func() {
+		r := recover()
+		handledErr := false
+		var err error
+		isAbort := false
+		if r != nil {
+			handledErr = cc.HandledErrors[r]
+			var isErr bool
+			err, isErr = r.(error)
+			if !isErr {
+				err = fmt.Errorf("%v", r)
 			}
+			_, isAbort = err.(*AbortByUserErr)
+		}
 
-			if (r == nil || !handledErr || allowError) && !isAbort {
-				cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
-				cc.HandledErrors[r] = true
-			}
-			if r != nil && !self.flags.quietError && !allowError {
-				panic(r)
-			}
-			if r != nil {
-				// The panic skipped the assignment of the returned index
-				newCurrCmdIdx = currCmdIdx
-			}
-		}()
-	}
+		if cc.FlowStatus != nil && (r == nil || !handledErr || allowError) && !isAbort {
+			cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
+			cc.HandledErrors[r] = true
+		}
+		if r != nil && (isAbort || !self.flags.quietError && !allowError) {
+			panic(r)
+		}
+		if r != nil {
+			// The panic skipped the assignment of the returned index
+			newCurrCmdIdx = currCmdIdx
+		}
+	}()
 
 	if mask != nil && mask.OverWriteFinishEnv != nil {
 		mask.OverWriteFinishEnv.restoreCurrLayerTo(env)
@@ -1068,7 +1075,13 @@ func (self *Cmd) executeFile(argv ArgVals, cc *Cli, env *Env, allowError bool, p
 	}
 
 	if len(sessionPath) != 0 {
-		loadEnvFromSessionFile(env.GetLayer(EnvLayerSession), sessionPath, sessionEnvContent, sep, delMark)
+		session := env.GetLayer(EnvLayerSession)
+		stack := session.GetRaw("sys.stack")
+		stackDepth := session.GetRaw("sys.stack-depth")
+		loadEnvFromSessionFile(session, sessionPath, sessionEnvContent, sep, delMark)
+		// A failed ticat process called by this command left its own stack in the file
+		session.Set("sys.stack", stack)
+		session.Set("sys.stack-depth", stackDepth)
 	}
 	return true
 }
diff --git a/pkg/core/model/forest.go b/pkg/core/model/forest.go
index 625ace3..bbf102a 100644
--- a/pkg/core/model/forest.go
+++ b/pkg/core/model/forest.go
@@ -13,14 +13,14 @@ func NewForestMode() *ForestMode {
 }
 
 func (self ForestMode) AtForestTopLvl(env *Env) bool {
-	return len(self.stack) != 0 && self.stack[len(self.stack)-1] == GetLastStackFrame(env)
+	return len(self.stack) != 0 && self.stack[len(self.stack)-1] == GetStackFrames(env)
 }
 
 func (self *ForestMode) Pop(env *Env) {
 	if len(self.stack) == 0 {
 		panic(fmt.Errorf("[Forest] should never happen: pop on empty"))
 	}
-	last1 := GetLastStackFrame(env)
+	last1 := GetStackFrames(env)
 	last2 := self.stack[len(self.stack)-1]
 	if last1 != last2 {
 		panic(fmt.Errorf("[Forest] should never happen: pop on wrong frame: %s != %s", last1, last2))
diff --git a/pkg/mods/builtin/blender.go b/pkg/mods/builtin/blender.go
index ecc6c33..6ab4782 100644
--- a/pkg/mods/builtin/blender.go
+++ b/pkg/mods/builtin/blender.go
@@ -14,7 +14,7 @@ func SetForestMode(
 	assertNotTailMode(flow, currCmdIdx)
 
 	if !cc.ForestMode.AtForestTopLvl(env) {
-		cc.ForestMode.Push(model.GetLastStackFrame(env))
+		cc.ForestMode.Push(model.GetStackFrames(env))
 	}
 	return currCmdIdx, true
 }
-- 
2.43.0


From 9658e49d230beba79668f81ef5ed77c292e35e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:47 +0000
Subject: [PATCH 64/84] fix: a ticat called in a session did not join it for a
 single builtin command, lost builtin and removed values, saw removed ones,
 and leaked values of flows

---
 pkg/core/execute/executor.go | 14 ++++++++++-
 pkg/core/model/proto.go      | 48 +++++++++++++++++++++++++++++++++---
 pkg/core/model/session.go    |  2 +-
 3 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 8bacbf8..8a8780a 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -144,15 +144,24 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 	display.PrintTolerableErrs(cc.Screen, env, cc.TolerableErrs)
 
 	crossProcessInnerCall := false
+	var joinedEnv map[string]string
 
 	if !innerCall && !bootstrap && !env.GetBool("sys.interact.inside") {
-		noSession := env.GetBool("sys.session.disable") || noSessionCmds(flow)
+		// Called by a command, need to join the session of it even if these commands could run without a session
+		noSession := env.GetBool("sys.session.disable") || noSessionCmds(flow) && len(env.GetRaw("session")) == 0
 		if !noSession {
 			statusWriter, sessionExisted, ok := model.SessionInit(cc, flow, env, self.sessionFileName, self.sessionStatusFileName)
 			if !ok {
 				return false
 			}
 			crossProcessInnerCall = sessionExisted
+			if sessionExisted {
+				joinedEnv = env.FlattenAll()
+				if flow.GlobalEnv != nil {
+					// The values from command line were overwritten by the ones of the caller
+					flow.GlobalEnv.WriteNotArgTo(env.GetLayer(model.EnvLayerSession), cc.Cmds.Strs.EnvValDelAllMark)
+				}
+			}
 			cc.SetFlowStatusWriter(statusWriter)
 		} else {
 			model.SessionSetId(env)
@@ -181,6 +190,9 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 	if !self.executeFlow(cc, bootstrap, flow, env, masks, input) {
 		return false
 	}
+	if crossProcessInnerCall {
+		model.SaveEnvToJoinedSession(cc, env, joinedEnv)
+	}
 	if !bootstrap && !crossProcessInnerCall {
 		stackStepOut(caller, self.callerNameEntry, env)
 	}
diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 9d73517..86eef8e 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -129,8 +129,6 @@ func LoadEnvFromFile(env *Env, path string, sep string, delMark string) {
 }
 
 func saveEnvToSessionFile(cc *Cli, env *Env, parsedCmd ParsedCmd, skipDefault bool) (sessionDir string, sessionPath string) {
-	sep := cc.Cmds.Strs.EnvKeyValSep
-
 	sessionDir = env.GetRaw("session")
 	if len(sessionDir) == 0 {
 		panic(NewCmdError(parsedCmd, "[Cmd.executeFile] session dir not found in env"))
@@ -140,7 +138,33 @@ func saveEnvToSessionFile(cc *Cli, env *Env, parsedCmd ParsedCmd, skipDefault bo
 		panic(NewCmdError(parsedCmd, "[Cmd.executeFile] session env file name not found in env"))
 	}
 	sessionPath = filepath.Join(sessionDir, sessionFileName)
+	writeEnvToSessionFile(cc, env, sessionPath, skipDefault)
+	return
+}
+
+// Give the env changes back to the command which called this ticat process,
+// 'joined' are the values when the session was joined
+func SaveEnvToJoinedSession(cc *Cli, env *Env, joined map[string]string) {
+	sessionDir := env.GetRaw("session")
+	sessionFileName := env.GetRaw("strs.session-env-file")
+	if len(sessionDir) == 0 || len(sessionFileName) == 0 {
+		return
+	}
+	if info, err := os.Stat(sessionDir); err != nil || !info.IsDir() {
+		return
+	}
+	path := filepath.Join(sessionDir, sessionFileName)
+	env = env.Clone()
+	for key := range joined {
+		if !env.Has(key) {
+			// The caller can't find out from the missing of a key that it is removed
+			env.Set(key, cc.Cmds.Strs.EnvValDelAllMark)
+		}
+	}
+	writeEnvToSessionFile(cc, env, path, false)
+}
 
+func writeEnvToSessionFile(cc *Cli, env *Env, sessionPath string, skipDefault bool) {
 	filtered := []string{
 		//"display.height",
 		//"sys.stack",
@@ -149,8 +173,24 @@ func saveEnvToSessionFile(cc *Cli, env *Env, parsedCmd ParsedCmd, skipDefault bo
 		//"sys.interact",
 		"sys.subflow",
 	}
-	saveEnvToFile(env, sessionPath, sep, filtered, skipDefault)
-	return
+	saveEnvToFile(env, sessionPath, cc.Cmds.Strs.EnvKeyValSep, filtered, skipDefault)
+}
+
+// Load the env of the command which called this ticat process,
+// the saved values removed by the caller are removed here too
+func loadEnvFromJoinedSession(env *Env, path string, sep string, delMark string) {
+	caller := NewEnv()
+	LoadEnvFromFile(caller, path, sep, delMark)
+	persisted := env.getLayer(EnvLayerPersisted)
+	if len(caller.pairs) != 0 && persisted != nil {
+		keys, _ := persisted.Pairs()
+		for _, k := range keys {
+			if !caller.Has(k) {
+				env.Delete(k)
+			}
+		}
+	}
+	LoadEnvFromFile(env, path, sep, delMark)
 }
 
 // Apply what a command did to the session env file to the session layer.
diff --git a/pkg/core/model/session.go b/pkg/core/model/session.go
index 4c927e5..2bcb397 100644
--- a/pkg/core/model/session.go
+++ b/pkg/core/model/session.go
@@ -185,7 +185,7 @@ func SessionInit(cc *Cli, flow *ParsedCmds, env *Env, sessionFileName string,
 
 	sessionPath := filepath.Join(sessionDir, sessionFileName)
 	if len(sessionDir) != 0 {
-		LoadEnvFromFile(env, sessionPath, cc.Cmds.Strs.EnvKeyValSep, cc.Cmds.Strs.EnvValDelAllMark)
+		loadEnvFromJoinedSession(env, sessionPath, cc.Cmds.Strs.EnvKeyValSep, cc.Cmds.Strs.EnvValDelAllMark)
 		// NOTE: treat recursive ticat call as non-ticat scripts, not record the executing status
 		//statusPath := filepath.Join(sessionDir, statusFileName)
 		//return NewExecutingFlow(statusPath, flow, env), true
-- 
2.43.0


From 829dcc88a51320a7b1eac397a9622584b0909dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:05 +0000
Subject: [PATCH 65/84] fix: searches no longer match commands without
 environment writes by parts of the word 'write'

---
 pkg/core/model/env_mapper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/env_mapper.go b/pkg/core/model/env_mapper.go
index 39047b2..0d9f285 100644
--- a/pkg/core/model/env_mapper.go
+++ b/pkg/core/model/env_mapper.go
@@ -71,7 +71,7 @@ func (self *Val2Env) Has(envKey string) bool {
 }
 
 func (self *Val2Env) MatchFind(findStr string) bool {
-	if strings.Index("write", findStr) >= 0 {
+	if len(self.orderedKeys) != 0 && strings.Index("write", findStr) >= 0 {
 		return true
 	}
 	for _, envKey := range self.orderedKeys {
@@ -158,7 +158,7 @@ func (self *Arg2Env) GetEnvKey(argName string) (string, bool) {
 }
 
 func (self *Arg2Env) MatchFind(findStr string) bool {
-	if strings.Index("write", findStr) >= 0 {
+	if len(self.orderedKeys) != 0 && strings.Index("write", findStr) >= 0 {
 		return true
 	}
 	for argName, envKey := range self.nameKeys {
-- 
2.43.0


From ec80dce735f475292f340e14b812da2ce4bc652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 66/84] fix: concurrent runs saving the environment, the hub
 list or a flow shared a temporary file, so that saves failed or stored a
 mixture

---
 pkg/core/model/proto.go                 | 22 +++++-------------
 pkg/mods/persist/hub_meta/hub_meta.go   | 31 +++++++++++--------------
 pkg/mods/persist/meta_file/meta_file.go | 12 +++++-----
 pkg/utils/misc.go                       | 23 ++++++++++++++++++
 4 files changed, 48 insertions(+), 40 deletions(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 86eef8e..78db4cb 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -10,6 +10,8 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+
+	"github.com/innerr/ticat/pkg/utils"
 )
 
 func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDefault bool) error {
@@ -67,23 +69,11 @@ func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 }
 
 func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDefault bool) {
-	tmp := path + ".tmp"
-	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
-	if err != nil {
-		panic(fmt.Errorf("[SaveEnvToFile] open env file '%s' failed: %v", tmp, err))
-	}
-	defer file.Close()
-
-	err = EnvOutput(env, file, sep, filtered, skipDefault)
-	if err != nil {
-		panic(fmt.Errorf("[SaveEnvToFile] write env file '%s' failed: %v", tmp, err))
-	}
-	file.Close()
-
-	err = os.Rename(tmp, path)
+	err := utils.WriteFileAtomic(path, 0644, func(file io.Writer) error {
+		return EnvOutput(env, file, sep, filtered, skipDefault)
+	})
 	if err != nil {
-		panic(fmt.Errorf("[SaveEnvToFile] rename env file '%s' to '%s' failed: %v",
-			tmp, path, err))
+		panic(fmt.Errorf("[SaveEnvToFile] write env file '%s' failed: %v", path, err))
 	}
 }
 
diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index 7b823fc..685553f 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -3,10 +3,13 @@ package hub_meta
 import (
 	"bufio"
 	"fmt"
+	"io"
 	"math"
 	"os"
 	"path/filepath"
 	"strings"
+
+	"github.com/innerr/ticat/pkg/utils"
 )
 
 type RepoAddr struct {
@@ -52,26 +55,18 @@ func WriteReposInfoFile(
 	infos []RepoInfo, sep string) {
 
 	os.MkdirAll(filepath.Dir(path), os.ModePerm)
-	tmp := path + ".tmp"
-	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
-	if err != nil {
-		panic(fmt.Errorf("[WriteReposInfoFile] open file '%s' failed: %v", tmp, err))
-	}
-	defer file.Close()
-
-	for _, info := range infos {
-		_, err = fmt.Fprintf(file, "%s%s%s%s%s%s%s%s%s\n", info.Addr.Str(), sep, info.AddReason, sep,
-			tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, info.HelpStr, sep, info.OnOff)
-		if err != nil {
-			panic(fmt.Errorf("[WriteReposInfoFile] write file '%s' failed: %v", tmp, err))
+	err := utils.WriteFileAtomic(path, 0644, func(file io.Writer) error {
+		for _, info := range infos {
+			_, err := fmt.Fprintf(file, "%s%s%s%s%s%s%s%s%s\n", info.Addr.Str(), sep, info.AddReason, sep,
+				tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, info.HelpStr, sep, info.OnOff)
+			if err != nil {
+				return err
+			}
 		}
-	}
-	file.Close()
-
-	err = os.Rename(tmp, path)
+		return nil
+	})
 	if err != nil {
-		panic(fmt.Errorf("[WriteReposInfoFile] rename file '%s' to '%s' failed: %v",
-			tmp, path, err))
+		panic(fmt.Errorf("[WriteReposInfoFile] write file '%s' failed: %v", path, err))
 	}
 }
 
diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index f4c7a74..0beb38f 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -7,6 +7,8 @@ import (
 	"io/ioutil"
 	"os"
 	"strings"
+
+	"github.com/innerr/ticat/pkg/utils"
 )
 
 type VirtualMetaFile struct {
@@ -257,19 +259,17 @@ func (self *MetaFile) parse(lines []string) {
 
 func (self *MetaFile) Save() {
 	// Write to a temporary file then rename, or a crash in the middle will lose the old content
-	tmp := self.path + ".tmp"
 	mode := os.FileMode(0644)
 	if info, err := os.Stat(self.path); err == nil {
 		mode = info.Mode().Perm()
 	}
 	content := &bytes.Buffer{}
 	self.save(content)
-	err := ioutil.WriteFile(tmp, content.Bytes(), mode)
-	if err == nil {
-		err = os.Rename(tmp, self.path)
-	}
+	err := utils.WriteFileAtomic(self.path, mode, func(file io.Writer) error {
+		_, err := file.Write(content.Bytes())
+		return err
+	})
 	if err != nil {
-		os.Remove(tmp)
 		panic(fmt.Errorf("[MetaFile.Save] save mod meta file '%s' failed: %v",
 			self.path, err))
 	}
diff --git a/pkg/utils/misc.go b/pkg/utils/misc.go
index 8ffa3fd..a655445 100644
--- a/pkg/utils/misc.go
+++ b/pkg/utils/misc.go
@@ -12,6 +12,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"syscall"
 	"time"
 	"unsafe"
@@ -106,6 +107,28 @@ func MoveFile(src string, dest string) error {
 	return err
 }
 
+// WriteFileAtomic writes to a temporary file then renames it, the temporary file is not shared with any other writing
+func WriteFileAtomic(path string, mode os.FileMode, write func(io.Writer) error) (err error) {
+	tmp := fmt.Sprintf("%s.%d-%d.tmp", path, os.Getpid(), atomic.AddInt64(&tmpFileCount, 1))
+	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, mode)
+	if err != nil {
+		return err
+	}
+	err = write(file)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmp, path)
+	}
+	if err != nil {
+		os.Remove(tmp)
+	}
+	return err
+}
+
+var tmpFileCount int64
+
 func GoRoutineId() int {
 	var buf [64]byte
 	n := runtime.Stack(buf[:], false)
-- 
2.43.0


From a99a5ed2b3105c0734eeae50c52095bcded10c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:03 +0000
Subject: [PATCH 67/84] fix: a tail-mode call of a command not supporting it
 with more than one command in front executed it first instead of being
 refused, and '::' at the end was one

---
 pkg/core/execute/executor.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 8a8780a..30c9946 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -376,17 +376,9 @@ func checkTailModeCalls(flow *model.ParsedCmds) {
 	}
 }
 
-// TODO: trim the empty cmds at tail, like: '<cmd> : <cmd> ::'
 func moveLastPriorityCmdToFront(
 	flow []model.ParsedCmd) (reordered []model.ParsedCmd, doMove bool, tailModeCall bool, attempTailModeCall bool) {
 
-	cnt := len(flow)
-	if cnt <= 1 {
-		return flow, false, false, false
-	}
-
-	last := flow[cnt-1]
-
 	trim := func(flow []model.ParsedCmd) []model.ParsedCmd {
 		for {
 			if len(flow) == 0 {
@@ -400,6 +392,14 @@ func moveLastPriorityCmdToFront(
 		return flow
 	}
 
+	flow = trim(flow)
+	cnt := len(flow)
+	if cnt <= 1 {
+		return flow, false, false, false
+	}
+
+	last := flow[cnt-1]
+
 	if cnt >= 2 && len(flow[cnt-2].ParseResult.Input) == 0 {
 		lead := trim(flow[:cnt-2])
 		if len(lead) == 0 && !last.IsPriority() && !last.AllowTailModeCall() {
@@ -413,12 +413,14 @@ func moveLastPriorityCmdToFront(
 		return flow, false, false, false
 	}
 
-	flow, _, _, _ = moveLastPriorityCmdToFront(flow)
+	flow, _, _, attempTailModeCall = moveLastPriorityCmdToFront(flow)
 
 	last.TailMode = true
 	reordered = append([]model.ParsedCmd{last}, flow...)
-	attempTailModeCall = !last.IsPriority() && !last.AllowTailModeCall() && len(reordered) == 2
 	tailModeCall = last.AllowTailModeCall() && len(reordered) <= 2
+	if !last.IsPriority() && !tailModeCall {
+		attempTailModeCall = true
+	}
 	doMove = true
 	return
 }
-- 
2.43.0


From a35c4e5dc9201164ba9dd4d94e72acad4a34fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:03 +0000
Subject: [PATCH 68/84] fix: cmds.tree and the session commands ignored the
 input of a tail-mode call

---
 pkg/mods/builtin/help.go     |  2 +-
 pkg/mods/builtin/sessions.go | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/mods/builtin/help.go b/pkg/mods/builtin/help.go
index a85327e..fa51469 100644
--- a/pkg/mods/builtin/help.go
+++ b/pkg/mods/builtin/help.go
@@ -132,7 +132,7 @@ func DumpCmdsTree(
 
 	cmdPath := ""
 	cmds := cc.Cmds
-	if len(argv.GetRaw("cmd-path")) != 0 {
+	if flow.TailModeCall || len(argv.GetRaw("cmd-path")) != 0 {
 		cmdPath = tailModeCallArg(flow, currCmdIdx, argv, "cmd-path")
 		cmds = cmds.GetSubByPath(cmdPath, true)
 	}
diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index 00be1ba..e185aa1 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -57,7 +57,7 @@ func SessionStatus(
 
 	assertNotTailMode(flow, currCmdIdx)
 
-	id := getAndCheckArg(argv, flow.Cmds[currCmdIdx], "session-id")
+	id := tailModeCallArg(flow, currCmdIdx, argv, "session-id")
 	sessions, _ := findSessions(nil, id, cc, env, 1, true, true, true)
 	if len(sessions) == 0 {
 		return currCmdIdx, true
@@ -320,7 +320,7 @@ func RemoveSession(
 	currCmdIdx int) (int, bool) {
 
 	force := argv.GetBool("remove-running")
-	id := getAndCheckArg(argv, flow.Cmds[currCmdIdx], "session-id")
+	id := tailModeCallArg(flow, currCmdIdx, argv, "session-id")
 	sessions, _ := findSessions(nil, id, cc, env, 1, true, true, true)
 	if len(sessions) == 0 {
 		return currCmdIdx, true
@@ -382,7 +382,7 @@ func SessionDescLess(
 	flow *model.ParsedCmds,
 	currCmdIdx int) (int, bool) {
 
-	id := getAndCheckArg(argv, flow.Cmds[currCmdIdx], "session-id")
+	id := tailModeCallArg(flow, currCmdIdx, argv, "session-id")
 	sessions, _ := findSessions(nil, id, cc, env, 1, true, true, true)
 	if len(sessions) == 0 {
 		return currCmdIdx, true
@@ -398,7 +398,7 @@ func SessionDescMore(
 	flow *model.ParsedCmds,
 	currCmdIdx int) (int, bool) {
 
-	id := getAndCheckArg(argv, flow.Cmds[currCmdIdx], "session-id")
+	id := tailModeCallArg(flow, currCmdIdx, argv, "session-id")
 	sessions, _ := findSessions(nil, id, cc, env, 1, true, true, true)
 	if len(sessions) == 0 {
 		return currCmdIdx, true
@@ -414,7 +414,7 @@ func SessionDescMonitor(
 	flow *model.ParsedCmds,
 	currCmdIdx int) (int, bool) {
 
-	id := getAndCheckArg(argv, flow.Cmds[currCmdIdx], "session-id")
+	id := tailModeCallArg(flow, currCmdIdx, argv, "session-id")
 	sessions, _ := findSessions(nil, id, cc, env, 1, true, true, true)
 	if len(sessions) == 0 {
 		return currCmdIdx, true
@@ -430,7 +430,7 @@ func SessionDescFull(
 	flow *model.ParsedCmds,
 	currCmdIdx int) (int, bool) {
 
-	id := getAndCheckArg(argv, flow.Cmds[currCmdIdx], "session-id")
+	id := tailModeCallArg(flow, currCmdIdx, argv, "session-id")
 	sessions, _ := findSessions(nil, id, cc, env, 1, true, true, true)
 	if len(sessions) == 0 {
 		return currCmdIdx, true
-- 
2.43.0


From 8082f212fb52856dd93469b87c530788ead1ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:53 +0000
Subject: [PATCH 69/84] fix: a repository listed by more than one repository,
 or by itself, was added to the hub several times

---
 pkg/mods/builtin/hub.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 92a6d28..a344944 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -314,6 +314,7 @@ func UpdateHub(
 			if oldList[addr.Str()] {
 				continue
 			}
+			oldList[addr.Str()] = true
 			repoPath := meta.GetRepoPath(path, addr)
 			infos = append(infos, meta.RepoInfo{addr, info.Addr.Str(), repoPath, helpStrs[i], "on"})
 		}
@@ -832,6 +833,7 @@ func addRepoToHubAndLoadMods(
 		if oldList[addr.Str()] {
 			continue
 		}
+		oldList[addr.Str()] = true
 		repoPath := meta.GetRepoPath(path, addr)
 		info := meta.RepoInfo{addr, gitAddr.Str(), repoPath, helpStrs[i], "on"}
 		loadRepoMods(cc, env, info)
-- 
2.43.0


From c0382f60d1297bf6c69c6b3733c697752adf73de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:53 +0000
Subject: [PATCH 70/84] fix: purging by the address of an enabled repository
 removed it from the hub and stored the last one twice

---
 pkg/mods/builtin/hub.go               | 4 +++-
 pkg/mods/persist/hub_meta/hub_meta.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index a344944..3fdf102 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -646,7 +646,9 @@ func exactMatchHubRepo(infos []meta.RepoInfo, findStrs ...string) (info meta.Rep
 	}
 	for i, info := range infos {
 		if info.Addr.Str() == findStr {
-			return info, append(infos[:i], infos[i+1:]...), true
+			// Copy, the caller still needs the original list
+			rest = append(append([]meta.RepoInfo{}, infos[:i]...), infos[i+1:]...)
+			return info, rest, true
 		}
 	}
 	return
diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index 685553f..a452a4b 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -142,7 +142,9 @@ func ExtractAddrFromList(
 			findInStr = info.Path
 		}
 		if findInStr == findStr {
-			return []RepoInfo{info}, append(infos[:i], infos[i+1:]...)
+			// Copy, do not modify the original list
+			rest = append(append([]RepoInfo{}, infos[:i]...), infos[i+1:]...)
+			return []RepoInfo{info}, rest
 		}
 		if strings.Index(findInStr, findStr) >= 0 {
 			extracted = append(extracted, info)
-- 
2.43.0


From a57411e7dd1871120d25fa1a433916ef39dc7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:53 +0000
Subject: [PATCH 71/84] fix: purging a repository deleted a clone another
 address of it still uses

---
 pkg/mods/builtin/hub.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 3fdf102..f853869 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -721,9 +721,17 @@ func purgeInactiveRepoFromHub(findStr string, cc *model.Cli, env *model.Env, cmd
 	var unlinkeds int
 	var removeds int
 
+	// Different addresses could share one cloned dir, keep it if it's still in use
+	inUse := map[string]bool{}
+	for _, info := range rest {
+		inUse[info.Path] = true
+	}
+
 	for _, info := range extracted {
 		if !info.IsLocal() {
-			osRemoveDir(info.Path, cmd)
+			if !inUse[info.Path] {
+				osRemoveDir(info.Path, cmd)
+			}
 			removeds += 1
 		} else {
 			unlinkeds += 1
-- 
2.43.0


From c1ddf3ef8fdb35e67e92cab5f120b94e5ca2cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:53 +0000
Subject: [PATCH 72/84] fix: a tab or line break in the help string of a
 repository made the hub file unreadable

---
 pkg/mods/persist/hub_meta/hub_meta.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index a452a4b..7e9c456 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -54,11 +54,20 @@ func WriteReposInfoFile(
 	path string,
 	infos []RepoInfo, sep string) {
 
+	for _, info := range infos {
+		for _, field := range []string{info.Addr.Str(), info.AddReason, info.Path} {
+			if strings.Contains(field, sep) || strings.ContainsAny(field, "\n\r") {
+				panic(fmt.Errorf("[WriteReposInfoFile] can't store '%s', it has a field separator or a line break",
+					field))
+			}
+		}
+	}
+
 	os.MkdirAll(filepath.Dir(path), os.ModePerm)
 	err := utils.WriteFileAtomic(path, 0644, func(file io.Writer) error {
 		for _, info := range infos {
 			_, err := fmt.Fprintf(file, "%s%s%s%s%s%s%s%s%s\n", info.Addr.Str(), sep, info.AddReason, sep,
-				tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, info.HelpStr, sep, info.OnOff)
+				tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, oneLineHelpStr(info.HelpStr, sep), sep, info.OnOff)
 			if err != nil {
 				return err
 			}
@@ -70,6 +79,11 @@ func WriteReposInfoFile(
 	}
 }
 
+// A help string comes from a repo, it could be multi-line or have a field separator
+func oneLineHelpStr(helpStr string, sep string) string {
+	return strings.NewReplacer(sep, " ", "\n", " ", "\r", " ").Replace(helpStr)
+}
+
 func ReadReposInfoFile(
 	hubRootPath string,
 	path string,
-- 
2.43.0


From 0ce898b82c4f4eaddc4ce98a90ccf5d1be0c8dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:01 +0000
Subject: [PATCH 73/84] fix: retry the delayed commands that had not succeeded,
 not all of them

---
 pkg/core/model/executed.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index c6372a3..5fbb80e 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -129,7 +129,13 @@ func ParseExecutedFlow(path ExecutedStatusFilePath) (lastActiveTs time.Time, exe
 }
 
 func (self *ExecutedFlow) GenExecMasks() (masks []*ExecuteMask) {
-	for _, cmd := range self.Cmds {
+	for i, cmd := range self.Cmds {
+		if cmd.IsDelay {
+			// The record of a delayed cmd is the one made when it's executing
+			if delayed := self.GetCmd(i); delayed != nil {
+				cmd = delayed
+			}
+		}
 		var subMasks []*ExecuteMask
 		if cmd.SubFlow != nil {
 			subMasks = cmd.SubFlow.GenExecMasks()
-- 
2.43.0


From 873f3568a47ac317c5363d8282adb7143db7eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:34 +0000
Subject: [PATCH 74/84] fix: blanks next to a separator in one word were taken
 as an empty argument

---
 pkg/core/parser/sequence.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/core/parser/sequence.go b/pkg/core/parser/sequence.go
index 6bab99c..54f6ead 100644
--- a/pkg/core/parser/sequence.go
+++ b/pkg/core/parser/sequence.go
@@ -41,7 +41,10 @@ func (self *SequenceParser) normalize(argv []string) (res []string, seps map[int
 		for ; handledIdx < len(arg); searchIdx += sepN {
 			i := strings.Index(arg[searchIdx:], self.sep)
 			if i < 0 {
-				res = append(res, arg[handledIdx:])
+				// Blanks next to a sep are not an arg, a blank arg of its own is
+				if handledIdx == 0 || len(strings.TrimSpace(arg[handledIdx:])) != 0 {
+					res = append(res, arg[handledIdx:])
+				}
 				break
 			}
 			searchIdx += i
@@ -75,7 +78,7 @@ func (self *SequenceParser) normalize(argv []string) (res []string, seps map[int
 			if unbreakable {
 				continue
 			}
-			if handledIdx != searchIdx {
+			if len(strings.TrimSpace(arg[handledIdx:searchIdx])) != 0 {
 				res = append(res, arg[handledIdx:searchIdx])
 			}
 			seps[len(res)] = true
-- 
2.43.0


From bc36dceaf735a1df95002fb0a389cf88a4f118e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:13 +0000
Subject: [PATCH 75/84] fix: nothing was loaded from a directory of the hub
 that is hidden or a symbolic link

---
 pkg/mods/builtin/mod.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index f654b61..d77c97f 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -42,14 +42,22 @@ func loadLocalMods(
 	if len(root) > 0 && root[len(root)-1] == filepath.Separator {
 		root = root[:len(root)-1]
 	}
+	if len(root) == 0 {
+		return
+	}
+	// The root itself could be a symbolic link, with the trailing separator it will be followed
+	walkRoot := root + string(filepath.Separator)
 
 	// TODO: return filepath.SkipDir to avoid some non-sense scanning
-	filepath.Walk(root, func(metaPath string, info fs.FileInfo, err error) error {
+	filepath.Walk(walkRoot, func(metaPath string, info fs.FileInfo, err error) error {
 		if info == nil {
 			// The root is not accessible
 			return nil
 		}
 		if info.IsDir() {
+			if metaPath == walkRoot {
+				return nil
+			}
 			// Skip hidden file or dir
 			base := filepath.Base(metaPath)
 			if len(base) > 0 && base[0] == '.' {
-- 
2.43.0


From 645058874c9532daa48c7f97589a6a63e827cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:30 +0000
Subject: [PATCH 76/84] fix: hidden files in a hub directory were loaded as
 commands with an empty name

---
 pkg/mods/builtin/mod.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index d77c97f..73d1c19 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -54,17 +54,19 @@ func loadLocalMods(
 			// The root is not accessible
 			return nil
 		}
-		if info.IsDir() {
-			if metaPath == walkRoot {
-				return nil
-			}
-			// Skip hidden file or dir
-			base := filepath.Base(metaPath)
-			if len(base) > 0 && base[0] == '.' {
+		if metaPath == walkRoot {
+			return nil
+		}
+		// Skip hidden file or dir
+		if filepath.Base(metaPath)[0] == '.' {
+			if info.IsDir() {
 				return filepath.SkipDir
 			}
 			return nil
 		}
+		if info.IsDir() {
+			return nil
+		}
 		if metaPath == filepath.Join(root, reposFileName) {
 			return nil
 		}
-- 
2.43.0


From 052a74a9a9a5fea84b4f4b8793120f9b76651f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:32 +0000
Subject: [PATCH 77/84] fix: a range of decimals missed its end because of
 rounding

---
 pkg/mods/builtin/join.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index ca4bb1b..691f80e 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -144,8 +144,9 @@ func joinRangeVals(startStr string, endStr string, stepStr string) (vals []strin
 		if !(step > 0) || !(start <= end) || !((end-start)/step < joinRangeMaxSize) {
 			return nil, fmt.Errorf("should be increasing, and not bigger than %d", joinRangeMaxSize)
 		}
-		for ; start <= end; start += step {
-			vals = append(vals, fmt.Sprintf("%f", start))
+		// The end could be slightly exceeded because of rounding, eg: '[0.1, 0.3, 0.1]'
+		for i, last := 0, int((end-start)/step+1e-9); i <= last; i++ {
+			vals = append(vals, fmt.Sprintf("%f", start+float64(i)*step))
 		}
 		return vals, nil
 	}
-- 
2.43.0


From 8920ed256885be672fdfdaef8a943b691915ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:32 +0000
Subject: [PATCH 78/84] fix: overwriting a flow quietly was refused when
 confirming is off

---
 pkg/mods/builtin/flow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 89a375f..836d47d 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -505,7 +505,7 @@ func getFlowCmdPath(
 
 	filePath = filepath.Join(root, cmdPath) + flowExt
 	if !expectExists && fileExists(filePath) {
-		if !env.GetBool("sys.confirm.ask") {
+		if !env.GetBool("sys.confirm.ask") && !argv.GetBoolEx("quiet-overwrite", false) {
 			panic(model.NewCmdError(flow.Cmds[currCmdIdx],
 				fmt.Sprintf("flow '%s' file '%s' exists", cmdPath, filePath)))
 		} else {
-- 
2.43.0


From 99deb74fe417a5c80070404b96b9917e7eb57b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:46 +0000
Subject: [PATCH 79/84] fix: a sys arg like %err=ok was inherited by a nested
 call of the same command

---
 pkg/core/model/env.go     | 14 +++-----------
 pkg/core/model/parsing.go |  2 ++
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/pkg/core/model/env.go b/pkg/core/model/env.go
index 93f2b2f..656f993 100644
--- a/pkg/core/model/env.go
+++ b/pkg/core/model/env.go
@@ -225,24 +225,16 @@ func (self *Env) GetSysArgv(cmdPath []string, sep string) SysArgVals {
 	sysArgv := SysArgVals{}
 	keyPrefix := strings.Join(cmdPath, sep) + sep
 	sysArgPrefix := self.GetRaw("strs.sys-arg-prefix")
-	self.getSysArgv(keyPrefix, sysArgPrefix, sysArgv)
-	return sysArgv
-}
-
-func (self *Env) getSysArgv(keyPrefix string, sysArgPrefix string, sysArgv SysArgVals) {
 	prefixLen := len(keyPrefix) + len(sysArgPrefix)
+	// Sys args belong to one call only, a same-name cmd called by the subflow should not get them from the upper layers
 	for k, v := range self.pairs {
 		if !v.IsSysArg || len(k) <= prefixLen || !strings.HasPrefix(k, keyPrefix) {
 			continue
 		}
 		key := k[prefixLen:]
-		if _, ok := sysArgv[key]; !ok {
-			sysArgv[key] = v.Raw
-		}
-	}
-	if self.parent != nil {
-		self.parent.getSysArgv(keyPrefix, sysArgPrefix, sysArgv)
+		sysArgv[key] = v.Raw
 	}
+	return sysArgv
 }
 
 func (self Env) Get(name string) EnvVal {
diff --git a/pkg/core/model/parsing.go b/pkg/core/model/parsing.go
index f8c891b..47be099 100644
--- a/pkg/core/model/parsing.go
+++ b/pkg/core/model/parsing.go
@@ -431,6 +431,8 @@ func (self ParsedEnv) WriteTo(env *Env, valDelAllMark string) {
 	for k, v := range self {
 		if v.Val == valDelAllMark {
 			env.Delete(k)
+		} else if v.IsSysArg {
+			env.SetInSelfLayer(k, v.Val, v.IsArg, v.IsSysArg)
 		} else {
 			env.SetEx(k, v.Val, v.IsArg, v.IsSysArg)
 		}
-- 
2.43.0


From f53587b41de013a85f394cc3a84a3158162c7acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:08 +0000
Subject: [PATCH 80/84] fix: setting a flow's help showed the new help as the
 old one

---
 pkg/mods/builtin/flow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 836d47d..1d78e78 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -324,7 +324,7 @@ func SetFlowHelpStr(
 	cc.Screen.Print(fmt.Sprintf("        %s\n", filePath))
 	if len(oldHelp) != 0 {
 		cc.Screen.Print("    " + display.ColorProp("- old-help:", env) + "\n")
-		cc.Screen.Print("       " + display.ColorHelp("'"+help+"'", env) + "\n")
+		cc.Screen.Print("       " + display.ColorHelp("'"+oldHelp+"'", env) + "\n")
 	}
 	return currCmdIdx, true
 }
-- 
2.43.0


From 0ea13b0d02842dd9c291627daf15114750854400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:08 +0000
Subject: [PATCH 81/84] fix: env-ops check refused a file-n-flow command
 reading its own timer begin key in its flow

---
 pkg/core/model/env_ops.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/core/model/env_ops.go b/pkg/core/model/env_ops.go
index 27e06b0..1cd0eb3 100644
--- a/pkg/core/model/env_ops.go
+++ b/pkg/core/model/env_ops.go
@@ -291,6 +291,9 @@ func checkEnvOps(
 		}
 		if !checkAfterSubFlow {
 			checkCmd()
+		} else if begin := last.GetAutoTimerKeys().Begin; len(begin) != 0 {
+			// This key is set before executing the subflow
+			checker.SetKeyWritten(begin)
 		}
 
 		TryExeEnvOpCmds(argv, cc, cmdEnv, flow, i, envOpCmds, checker,
-- 
2.43.0


From f20abde0306a272f77c033a3f450e0df7dc9a614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:08 +0000
Subject: [PATCH 82/84] fix: a tolerated error in a packed subflow left the
 display of executing off

---
 pkg/core/model/cmd.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 8add90a..7c78be5 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -289,14 +289,12 @@ func (self *Cmd) execute(
 	shouldQuietSubFlow := self.HasSubFlow(true) && self.flags.quietSubFlow
 	if shouldQuietSubFlow {
 		envSession.SetBool(disableQuietKey, false)
+		// The subflow may panic, and the panic may be tolerated
+		defer envSession.Set(disableQuietKey, originQuiet)
 	}
 
 	newCurrCmdIdx, succeeded = self.executeByType(argv, cc, env, mask, flow,
 		allowError, currCmdIdx, logFilePath, tryBreakInsideFileNFlow)
-
-	if shouldQuietSubFlow {
-		envSession.Set(disableQuietKey, originQuiet)
-	}
 	return
 }
 
-- 
2.43.0


From 454a4064c26d040e77ab9184de69f2bdc63035cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:08 +0000
Subject: [PATCH 83/84] fix: an arg named like another with the command's path
 before it was lost at random

---
 pkg/core/model/parsing.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/parsing.go b/pkg/core/model/parsing.go
index 47be099..03f97b1 100644
--- a/pkg/core/model/parsing.go
+++ b/pkg/core/model/parsing.go
@@ -383,6 +383,10 @@ func (self ParsedEnv) AddPrefix(prefix []string, sep string) {
 		keys = append(keys, k)
 		vals = append(vals, v)
 	}
+	// A key with prefix could be the same as another key without prefix, so remove all before adding any
+	for _, k := range keys {
+		delete(self, k)
+	}
 
 	prefixPath := strings.Join(prefix, sep) + sep
 	for i, k := range keys {
@@ -395,7 +399,6 @@ func (self ParsedEnv) AddPrefix(prefix []string, sep string) {
 		}
 		matchedPath := append(prefixClone, v.MatchedPath...)
 		self[prefixPath+k] = ParsedEnvVal{v.Val, v.IsArg, v.IsSysArg, matchedPath, strings.Join(matchedPath, sep)}
-		delete(self, k)
 		v = self[prefixPath+k]
 
 		// If not deep copy, the v.MatchedPath will be the last value of this loop
-- 
2.43.0


From 9cc8052952cb64ed4f2791338feabd79f3e5d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:08 +0000
Subject: [PATCH 84/84] fix: setting a flow's help dropped what else its file
 declares

---
 pkg/mods/builtin/flow.go                |  4 ++--
 pkg/mods/persist/flow_file/flow_file.go | 11 +++++++++++
 pkg/mods/persist/meta_file/meta_file.go | 12 ++++++++++--
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 1d78e78..d58847f 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -304,8 +304,8 @@ func SetFlowHelpStr(
 
 	help := argv.GetRaw("help-str")
 	argCmdPath, cmdPath, filePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, true, "cmd-path")
-	flowStrs, oldHelp, abbrsStr, trivial, autoArgs, packSub := flow_file.LoadFlowFile(filePath)
-	flow_file.SaveFlowFile(filePath, flowStrs, help, abbrsStr, trivial, autoArgs, packSub)
+	flowStrs, oldHelp, _, _, _, _ := flow_file.LoadFlowFile(filePath)
+	flow_file.SaveFlowFileHelp(filePath, help)
 
 	realCmdStr := ""
 	if argCmdPath != cmdPath {
diff --git a/pkg/mods/persist/flow_file/flow_file.go b/pkg/mods/persist/flow_file/flow_file.go
index 4a74455..632300d 100644
--- a/pkg/mods/persist/flow_file/flow_file.go
+++ b/pkg/mods/persist/flow_file/flow_file.go
@@ -59,3 +59,14 @@ func SaveFlowFile(path string, flow []string, help string, abbrs string,
 	}
 	meta.Save()
 }
+
+// Change the help only, a flow file could have more than what SaveFlowFile writes
+func SaveFlowFileHelp(path string, help string) {
+	metas := meta_file.NewMetaFile(path)
+	if len(metas) != 1 || !metas[0].NotVirtual {
+		panic(fmt.Errorf("can't load content for edit from a combined flow file"))
+	}
+	meta := metas[0].Meta
+	meta.GetGlobalSection().Set("help", help)
+	meta.Save()
+}
diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 0beb38f..2f313b0 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -143,6 +143,14 @@ func (self *MetaFile) NewOrGetSection(key string) *Section {
 	return section
 }
 
+func (self *MetaFile) setSection(name string, section *Section) {
+	_, ok := self.sections[name]
+	if !ok {
+		self.orderedKeys = append(self.orderedKeys, name)
+	}
+	self.sections[name] = section
+}
+
 func (self *MetaFile) GetAll() SectionMap {
 	return self.sections
 }
@@ -151,7 +159,7 @@ func (self *MetaFile) parse(lines []string) {
 	var sectionName string
 	section := NewSection()
 	global := section
-	self.sections[sectionName] = section
+	self.setSection(sectionName, section)
 
 	var multiLineKey string
 	var multiLineValue []string
@@ -238,7 +246,7 @@ func (self *MetaFile) parse(lines []string) {
 			} else {
 				sectionName = line[1 : size-1]
 				section = NewSection()
-				self.sections[sectionName] = section
+				self.setSection(sectionName, section)
 			}
 			continue
 		}
-- 
2.43.0

