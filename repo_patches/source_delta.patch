From f2fb933fa383891f77b40893d0deb23896bde765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 01/36] fix: dag: release every ready task, not only every
 other one

DependencyGraph.Next skipped the task that follows one it had just
unlinked, so two adjacent ready tasks were not released together.
---
 internal/dag/dependency.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index 00df408..783e032 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -75,9 +75,10 @@ func (g *DependencyGraph) Next(completed string) []string {
 
 	for head = g.pending; head != nil && head.next != nil; head = head.next {
 		p := head.next
-		if g.dependencies[p.id].Size() < 1 {
+		for p != nil && g.dependencies[p.id].Size() < 1 {
 			ready = append(ready, p.id)
 			head.next = p.next
+			p = head.next
 		}
 	}
 	return ready
-- 
2.43.0


From 2ecd9771c158f7f1240d80693fc3ace426ddf7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 02/36] fix: dag: handle a task whose ID is the empty string

The scheduler asks for the initially ready tasks with Next(""), which was
taken for the completion of a task named "", so its dependents could start
before it. A cycle through it was reported without its members.
---
 internal/dag/dependency.go | 11 +++++++++--
 internal/dag/tsort.go      |  6 ++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index 783e032..d72d41f 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -5,6 +5,7 @@ type DependencyGraph struct {
 	dependencies map[string]NodeSet
 	dependents   map[string]NodeSet
 	pending      *pendingTask
+	released     NodeSet
 }
 
 type pendingTask struct {
@@ -22,6 +23,7 @@ func NewDependencyGraph(nodes map[string][]string) (*DependencyGraph, error) {
 	g := &DependencyGraph{
 		dependencies: map[string]NodeSet{},
 		dependents:   map[string]NodeSet{},
+		released:     NodeSet{},
 	}
 	nodeOrder, cycle := TSort(digraph)
 	if cycle != nil {
@@ -62,8 +64,10 @@ func (g *DependencyGraph) HasPending() bool {
 // that can be started given previously completed tasks
 func (g *DependencyGraph) Next(completed string) []string {
 	var ready []string
-	for id := range g.dependents[completed] {
-		g.dependencies[id].Remove(completed)
+	if g.released.Contains(completed) {
+		for id := range g.dependents[completed] {
+			g.dependencies[id].Remove(completed)
+		}
 	}
 
 	head := g.pending
@@ -81,5 +85,8 @@ func (g *DependencyGraph) Next(completed string) []string {
 			p = head.next
 		}
 	}
+	for _, id := range ready {
+		g.released.Add(id)
+	}
 	return ready
 }
diff --git a/internal/dag/tsort.go b/internal/dag/tsort.go
index faafd19..d268d7a 100644
--- a/internal/dag/tsort.go
+++ b/internal/dag/tsort.go
@@ -43,6 +43,7 @@ type visitor struct {
 	visited  map[string]struct{}
 	visiting map[string]struct{}
 	cycle    []string
+	open     bool // the start of the cycle hasn't been reached yet
 	sorted   []string
 }
 
@@ -50,6 +51,7 @@ func (v *visitor) visit(n string) (cycleStart string) {
 	if _, ok := v.visiting[n]; ok {
 		if v.cycle == nil {
 			v.cycle = make([]string, 0)
+			v.open = true
 		}
 		return n
 	} else if _, ok := v.visited[n]; ok {
@@ -59,9 +61,9 @@ func (v *visitor) visit(n string) (cycleStart string) {
 	for _, m := range v.graph[n] {
 		cycleStart := v.visit(m)
 		if v.cycle != nil {
-			if cycleStart != "" {
+			if v.open {
 				if n == cycleStart {
-					cycleStart = ""
+					v.open = false
 				}
 				v.cycle = append(v.cycle, n)
 			}
-- 
2.43.0


From b0f4d0cb801da6475fab7e6e0dc750867adc4d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:20 +0000
Subject: [PATCH 03/36] fix: runbook: report circular and unknown dependencies

The error from the scheduler was dropped, so running a runbook with a
dependency cycle did nothing and reported success.
---
 internal/runbook/runner.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index fa46adb..041baff 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -31,6 +31,8 @@ type runner struct {
 	done  chan TaskID    // tasks that ended without an error
 	ended chan *endedMsg // tasks that ended, possibly with an error
 	ready chan *readyMsg // tasks that can be started
+
+	invalid error // why the tasks can't be scheduled, valid when ended is closed
 }
 
 func newRunner(log sys.Logger, targets types.Targets, tasks types.Tasks) *runner {
@@ -86,6 +88,10 @@ func (r *runner) run() error {
 		r.log.Debugw("runner: task ended", "task", x.taskID, "err", x.err != nil)
 	}
 
+	if err == nil {
+		err = r.invalid
+	}
+
 	r.log.Debug("runner: stopped")
 	return err
 }
@@ -96,6 +102,9 @@ func (r *runner) startScheduler() {
 
 		r.log.Debug("scheduler: started")
 		s, ready, err := scheduler.New(r.targets, r.tasks)
+		if err != nil {
+			r.invalid = err
+		}
 		for {
 			if err != nil {
 				break
-- 
2.43.0


From 39106f751b666064021a717d5cb3bfae06cb7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 04/36] fix: runbook: don't wait forever when there are no
 tasks

---
 internal/runbook/runner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 041baff..e44b6de 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -104,6 +104,8 @@ func (r *runner) startScheduler() {
 		s, ready, err := scheduler.New(r.targets, r.tasks)
 		if err != nil {
 			r.invalid = err
+		} else if len(r.tasks) < 1 {
+			err = scheduler.ErrNoPendingTasks
 		}
 		for {
 			if err != nil {
-- 
2.43.0


From 574cc16948d50bd71e3f67a6dcf7218e2087b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 05/36] fix: runbook: don't block the router on a busy or
 failed target

With a concurrency limit above one the router could wait for a target that
was busy, delaying other targets, or that had stopped after a failure, in
which case the run never ended.
---
 internal/runbook/runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index e44b6de..7453311 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -145,7 +145,7 @@ func (r *runner) startTargets() (err error) {
 		}
 
 		wg.Add(1)
-		ch := make(chan *readyMsg)
+		ch := make(chan *readyMsg, target.ConcurrencyLimit())
 		startTargetGoroutine(r.ctx, r.log, wg, target, ch, r.ended)
 		channels[TargetID(targetID)] = ch
 		r.log.Debugf("target started:  %s", targetID)
-- 
2.43.0


From 88692fa430a64c5aa28b0b41980328bb437b2a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 06/36] fix: runbook: stop cleanly when a target can't be
 started

Tasks of the other targets were still executed, in the background, the
started targets were not stopped and goroutines were left behind.
---
 internal/runbook/runner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 7453311..d334f2d 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -68,6 +68,10 @@ func (r *runner) run() error {
 	r.startScheduler()
 	err := r.startTargets()
 	if err != nil {
+		r.closeDone()
+		for range r.ended {
+			// wait for the started targets to stop
+		}
 		return err
 	}
 
@@ -153,9 +157,13 @@ func (r *runner) startTargets() (err error) {
 
 	// start goroutine, even if there's an error, because it's
 	// responsible for closing channels
+	failed := err != nil
 	go func() {
 		r.log.Debug("router: started")
 		for x := range r.ready {
+			if failed {
+				continue
+			}
 			r.log.Debugw("router: task ready", "task", x.taskID, "target", x.target)
 			ch := channels[x.target]
 			ch <- x
-- 
2.43.0


From 07f8c06e643d9b0a69fce92fad7f9fa00152eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:19 +0000
Subject: [PATCH 07/36] fix: ddl: show the place where a definition can not be
 parsed

---
 internal/ddl/check_parser.go       | 2 +-
 internal/ddl/check_parser.rl       | 2 +-
 internal/ddl/foreign_key_parser.go | 2 +-
 internal/ddl/foreign_key_parser.rl | 2 +-
 internal/ddl/index_parser.go       | 2 +-
 internal/ddl/index_parser.rl       | 2 +-
 internal/ddl/parser_utils.go       | 5 +++--
 internal/ddl/trigger_parser.go     | 2 +-
 internal/ddl/trigger_parser.rl     | 2 +-
 9 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index 83d0ae7..6805e32 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -1114,7 +1114,7 @@ tr39:
 
 	if cs < check_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index 44f37ba..d6d475c 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -46,7 +46,7 @@ func ParseCheck(data string) (*Check, error) {
 
 	if cs < check_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/foreign_key_parser.go b/internal/ddl/foreign_key_parser.go
index 1b19665..b974cfa 100644
--- a/internal/ddl/foreign_key_parser.go
+++ b/internal/ddl/foreign_key_parser.go
@@ -3975,7 +3975,7 @@ tr193:
 
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/foreign_key_parser.rl b/internal/ddl/foreign_key_parser.rl
index 17a6cfe..cc88f1c 100644
--- a/internal/ddl/foreign_key_parser.rl
+++ b/internal/ddl/foreign_key_parser.rl
@@ -83,7 +83,7 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/index_parser.go b/internal/ddl/index_parser.go
index 3b6e1bc..4514246 100644
--- a/internal/ddl/index_parser.go
+++ b/internal/ddl/index_parser.go
@@ -1269,7 +1269,7 @@ tr64:
 
 	if cs < index_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/index_parser.rl b/internal/ddl/index_parser.rl
index d6d98c5..f853b34 100644
--- a/internal/ddl/index_parser.rl
+++ b/internal/ddl/index_parser.rl
@@ -84,7 +84,7 @@ func ParseIndex(data string) (*Index, error) {
 
 	if cs < index_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index 51cfee7..bfa0add 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 var whitespace = regexp.MustCompile(`\s+`)
@@ -39,7 +40,7 @@ OUTER:
 		switch {
 		case idx == -1:
 			break OUTER
-		case idx > cs:
+		case idx >= cs:
 			data = data[:idx]
 			break OUTER
 		default:
@@ -49,5 +50,5 @@ OUTER:
 		}
 	}
 
-	return fmt.Sprintf("%s\n%*s", data, cs+1, "^")
+	return fmt.Sprintf("%s\n%*s", data, utf8.RuneCountInString(data[:cs])+1, "^")
 }
diff --git a/internal/ddl/trigger_parser.go b/internal/ddl/trigger_parser.go
index 8b8cc35..d24e58a 100644
--- a/internal/ddl/trigger_parser.go
+++ b/internal/ddl/trigger_parser.go
@@ -3378,7 +3378,7 @@ tr195:
 
 	if cs < trigger_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/trigger_parser.rl b/internal/ddl/trigger_parser.rl
index 0922ff0..b914b35 100644
--- a/internal/ddl/trigger_parser.rl
+++ b/internal/ddl/trigger_parser.rl
@@ -91,7 +91,7 @@ func ParseTrigger(data string) (*Trigger, error) {
 
 	if cs < trigger_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
-- 
2.43.0


From 5fe4e892ec77b69bca5892d7b0c52c30de215888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 08/36] fix: ddl: accept DEFERRABLE at the end of a constraint

---
 internal/ddl/check_parser.go       | 6 +++++-
 internal/ddl/check_parser.rl       | 6 +++++-
 internal/ddl/foreign_key_parser.go | 6 +++++-
 internal/ddl/foreign_key_parser.rl | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index 6805e32..d0b497f 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -21,6 +21,10 @@ func ParseCheck(data string) (*Check, error) {
 
 	var mark1, mark2 int
 
+	// the grammar expects white space after DEFERRABLE
+	src := data
+	data += "\n"
+
 	cs, eof := 0, len(data);
 	p, pe := 0, eof;
 	
@@ -1115,7 +1119,7 @@ tr39:
 	if cs < check_first_final {
 		return nil, &parseError{
 		    cs: p,
-		    data: data,
+		    data: src,
 		}
 	}
 
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index d6d475c..3024f4e 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -12,6 +12,10 @@ func ParseCheck(data string) (*Check, error) {
 
 	var mark1, mark2 int
 
+	// the grammar expects white space after DEFERRABLE
+	src := data
+	data += "\n"
+
 	cs, eof := 0, len(data);
 	p, pe := 0, eof;
 	%%{
@@ -47,7 +51,7 @@ func ParseCheck(data string) (*Check, error) {
 	if cs < check_first_final {
 		return nil, &parseError{
 		    cs: p,
-		    data: data,
+		    data: src,
 		}
 	}
 
diff --git a/internal/ddl/foreign_key_parser.go b/internal/ddl/foreign_key_parser.go
index b974cfa..47f19cd 100644
--- a/internal/ddl/foreign_key_parser.go
+++ b/internal/ddl/foreign_key_parser.go
@@ -24,6 +24,10 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 	fk := &ForeignKey{}
 
 	buffer := &bytes.Buffer{}
+	// the grammar expects white space after DEFERRABLE
+	src := data
+	data += "\n"
+
 	cs, eof := 0, len(data);
 	p, pe := 0, eof;
 	
@@ -3976,7 +3980,7 @@ tr193:
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
 		    cs: p,
-		    data: data,
+		    data: src,
 		}
 	}
 
diff --git a/internal/ddl/foreign_key_parser.rl b/internal/ddl/foreign_key_parser.rl
index cc88f1c..4dd405e 100644
--- a/internal/ddl/foreign_key_parser.rl
+++ b/internal/ddl/foreign_key_parser.rl
@@ -15,6 +15,10 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 	fk := &ForeignKey{}
 
 	buffer := &bytes.Buffer{}
+	// the grammar expects white space after DEFERRABLE
+	src := data
+	data += "\n"
+
 	cs, eof := 0, len(data);
 	p, pe := 0, eof;
 	%%{
@@ -84,7 +88,7 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
 		    cs: p,
-		    data: data,
+		    data: src,
 		}
 	}
 
-- 
2.43.0


From 489ea6130fcc7ed4a8517fdb0346f1522d4cd1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 09/36] fix: ddl: ignore deferral clauses inside of a check
 expression

---
 internal/ddl/check_parser.go | 4 ++++
 internal/ddl/check_parser.rl | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index d0b497f..73fa437 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -278,12 +278,16 @@ tr9:
 //line check_parser.rl:22
 
 		mark2 = p
+		check.Deferrable = false
+		check.InitiallyDeferred = false
 	
 	goto st56
 tr11:
 //line check_parser.rl:22
 
 		mark2 = p
+		check.Deferrable = false
+		check.InitiallyDeferred = false
 	
 	goto st56
 	st56:
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index 3024f4e..ed019a1 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -25,6 +25,8 @@ func ParseCheck(data string) (*Check, error) {
 	}
 	action setMark2 {
 		mark2 = fpc
+		check.Deferrable = false
+		check.InitiallyDeferred = false
 	}
 
 	action matchDeferrable        { check.Deferrable = true }
-- 
2.43.0


From d7c6cb0dc0d50af2e73a98c78228e6680fa6ad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:49 +0000
Subject: [PATCH 10/36] fix: ddl: don't mistake the order of an index key for
 its operator class

---
 internal/ddl/index.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/index.go b/internal/ddl/index.go
index 0d6c2da..0e7a728 100644
--- a/internal/ddl/index.go
+++ b/internal/ddl/index.go
@@ -40,7 +40,14 @@ func (idx *Index) setName(name string) {
 
 func (idx *Index) setOpClass(opclass string) {
 	key := idx.Keys[len(idx.Keys)-1]
-	key.OpClass = opclass
+	switch upper(opclass) {
+	case "ASC":
+		key.Descending = false
+	case "DESC":
+		key.Descending = true
+	default:
+		key.OpClass = opclass
+	}
 }
 
 func (idx *Index) setTable(table string) {
-- 
2.43.0


From 63dc7d7d787cea04e0e7c5b52f8a58e29b003ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:51 +0000
Subject: [PATCH 11/36] fix: ddl: keep white space in the literals of an index
 condition

---
 internal/ddl/index.go        |  2 +-
 internal/ddl/parser_utils.go | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/index.go b/internal/ddl/index.go
index 0e7a728..69dd6ca 100644
--- a/internal/ddl/index.go
+++ b/internal/ddl/index.go
@@ -59,7 +59,7 @@ func (idx *Index) setUsing(s string) {
 }
 
 func (idx *Index) setWhere(s string) {
-	idx.Where = collapseWhitespace(trim(s))
+	idx.Where = collapseUnquoted(trim(s))
 }
 
 func (idx *Index) ToSQL() (string, error) {
diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index bfa0add..0a4ca06 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -8,12 +8,24 @@ import (
 )
 
 var whitespace = regexp.MustCompile(`\s+`)
+var quotedOrSpace = regexp.MustCompile(`'[^']*'|"[^"]*"|\s+`)
 
 func collapseWhitespace(before string) string {
 	after := whitespace.ReplaceAllString(before, " ")
 	return after
 }
 
+// collapseUnquoted leaves string literals and quoted names as they are
+func collapseUnquoted(before string) string {
+	after := quotedOrSpace.ReplaceAllStringFunc(before, func(s string) string {
+		if s[0] == '\'' || s[0] == '"' {
+			return s
+		}
+		return " "
+	})
+	return after
+}
+
 func trim(s string) string {
 	return strings.TrimSpace(s)
 }
-- 
2.43.0


From 34c013fd5b9174d1f0839dc95ad4d249340740c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:53 +0000
Subject: [PATCH 12/36] fix: ddl: reject an index definition that ends after
 WHERE

---
 internal/ddl/index_parser.go | 6 ++++++
 internal/ddl/index_parser.rl | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/index_parser.go b/internal/ddl/index_parser.go
index 4514246..02df6bc 100644
--- a/internal/ddl/index_parser.go
+++ b/internal/ddl/index_parser.go
@@ -753,6 +753,12 @@ tr49:
 			goto _test_eof32
 		}
 	st_case_32:
+		if data[p] == 32 {
+			goto st32
+		}
+		if 9 <= data[p] && data[p] <= 13 {
+			goto st32
+		}
 		goto tr43
 tr43:
 //line index_parser.rl:22
diff --git a/internal/ddl/index_parser.rl b/internal/ddl/index_parser.rl
index f853b34..a006332 100644
--- a/internal/ddl/index_parser.rl
+++ b/internal/ddl/index_parser.rl
@@ -74,7 +74,7 @@ func ParseIndex(data string) (*Index, error) {
 		    (ws ident $ addToBuffer % setOpClass )?
 		  )*
 		ws? ')'
-		(ws 'WHERE'i ws ( any+ $ addToBuffer % setWhere )
+		(ws 'WHERE'i ws ( (any - space) any* ) $ addToBuffer % setWhere
 		| space* )
 		;
 
-- 
2.43.0


From 9cee597912e0a55148941edc3d47664ce59f7bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 13/36] fix: ddl: collapse vertical tabs like other white space

---
 internal/ddl/parser_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index 0a4ca06..64b944c 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -7,8 +7,8 @@ import (
 	"unicode/utf8"
 )
 
-var whitespace = regexp.MustCompile(`\s+`)
-var quotedOrSpace = regexp.MustCompile(`'[^']*'|"[^"]*"|\s+`)
+var whitespace = regexp.MustCompile(`[\s\v]+`)
+var quotedOrSpace = regexp.MustCompile(`'[^']*'|"[^"]*"|[\s\v]+`)
 
 func collapseWhitespace(before string) string {
 	after := whitespace.ReplaceAllString(before, " ")
-- 
2.43.0


From 751ba1c5755f9a7c65c85aeadfe50816afbfc8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 14/36] fix: ddl: accept every deferral clause of a trigger

---
 internal/ddl/trigger_parser.go | 245 +++++++++++++++++++++++++++++++--
 internal/ddl/trigger_parser.rl |   8 +-
 2 files changed, 238 insertions(+), 15 deletions(-)

diff --git a/internal/ddl/trigger_parser.go b/internal/ddl/trigger_parser.go
index d24e58a..b9d574d 100644
--- a/internal/ddl/trigger_parser.go
+++ b/internal/ddl/trigger_parser.go
@@ -11,7 +11,7 @@ import (
 
 //line trigger_parser.go:13
 const trigger_start int = 1
-const trigger_first_final int = 186
+const trigger_first_final int = 199
 const trigger_error int = 0
 
 const trigger_en_main int = 1
@@ -196,8 +196,8 @@ func ParseTrigger(data string) (*Trigger, error) {
 		goto st_case_77
 	case 78:
 		goto st_case_78
-	case 186:
-		goto st_case_186
+	case 199:
+		goto st_case_199
 	case 79:
 		goto st_case_79
 	case 80:
@@ -334,6 +334,32 @@ func ParseTrigger(data string) (*Trigger, error) {
 		goto st_case_145
 	case 146:
 		goto st_case_146
+	case 186:
+		goto st_case_186
+	case 187:
+		goto st_case_187
+	case 188:
+		goto st_case_188
+	case 189:
+		goto st_case_189
+	case 190:
+		goto st_case_190
+	case 191:
+		goto st_case_191
+	case 192:
+		goto st_case_192
+	case 193:
+		goto st_case_193
+	case 194:
+		goto st_case_194
+	case 195:
+		goto st_case_195
+	case 196:
+		goto st_case_196
+	case 197:
+		goto st_case_197
+	case 198:
+		goto st_case_198
 	case 147:
 		goto st_case_147
 	case 148:
@@ -1337,8 +1363,16 @@ tr71:
 		switch data[p] {
 		case 32:
 			goto tr72
+		case 69:
+			goto st60
+		case 70:
+			goto st87
 		case 73:
 			goto st108
+		case 101:
+			goto st60
+		case 102:
+			goto st87
 		case 105:
 			goto st108
 		}
@@ -1643,19 +1677,19 @@ tr91:
 	st_case_78:
 //line trigger_parser.go:1645
 		if data[p] == 41 {
-			goto st186
+			goto st199
 		}
 		goto st0
-	st186:
+	st199:
 		if p++; p == pe {
-			goto _test_eof186
+			goto _test_eof199
 		}
-	st_case_186:
+	st_case_199:
 		if data[p] == 32 {
-			goto st186
+			goto st199
 		}
 		if 9 <= data[p] && data[p] <= 13 {
-			goto st186
+			goto st199
 		}
 		goto st0
 	st79:
@@ -2529,9 +2563,183 @@ tr138:
 	st_case_146:
 		switch data[p] {
 		case 76:
-			goto st134
+			goto st186
 		case 108:
-			goto st134
+			goto st186
+		}
+		goto st0
+	st186:
+		if p++; p == pe {
+			goto _test_eof186
+		}
+	st_case_186:
+		switch data[p] {
+		case 69:
+			goto st187
+		case 101:
+			goto st187
+		}
+		goto st0
+	st187:
+		if p++; p == pe {
+			goto _test_eof187
+		}
+	st_case_187:
+		if data[p] == 32 {
+			goto st188
+		}
+		if 9 <= data[p] && data[p] <= 13 {
+			goto st188
+		}
+		goto st0
+	st188:
+		if p++; p == pe {
+			goto _test_eof188
+		}
+	st_case_188:
+		switch data[p] {
+		case 32:
+			goto st188
+		case 69:
+			goto st60
+		case 70:
+			goto st87
+		case 73:
+			goto st189
+		case 101:
+			goto st60
+		case 102:
+			goto st87
+		case 105:
+			goto st189
+		}
+		if 9 <= data[p] && data[p] <= 13 {
+			goto st188
+		}
+		goto st0
+	st189:
+		if p++; p == pe {
+			goto _test_eof189
+		}
+	st_case_189:
+		switch data[p] {
+		case 78:
+			goto st190
+		case 110:
+			goto st190
+		}
+		goto st0
+	st190:
+		if p++; p == pe {
+			goto _test_eof190
+		}
+	st_case_190:
+		switch data[p] {
+		case 73:
+			goto st191
+		case 105:
+			goto st191
+		}
+		goto st0
+	st191:
+		if p++; p == pe {
+			goto _test_eof191
+		}
+	st_case_191:
+		switch data[p] {
+		case 84:
+			goto st192
+		case 116:
+			goto st192
+		}
+		goto st0
+	st192:
+		if p++; p == pe {
+			goto _test_eof192
+		}
+	st_case_192:
+		switch data[p] {
+		case 73:
+			goto st193
+		case 105:
+			goto st193
+		}
+		goto st0
+	st193:
+		if p++; p == pe {
+			goto _test_eof193
+		}
+	st_case_193:
+		switch data[p] {
+		case 65:
+			goto st194
+		case 97:
+			goto st194
+		}
+		goto st0
+	st194:
+		if p++; p == pe {
+			goto _test_eof194
+		}
+	st_case_194:
+		switch data[p] {
+		case 76:
+			goto st195
+		case 108:
+			goto st195
+		}
+		goto st0
+	st195:
+		if p++; p == pe {
+			goto _test_eof195
+		}
+	st_case_195:
+		switch data[p] {
+		case 76:
+			goto st196
+		case 108:
+			goto st196
+		}
+		goto st0
+	st196:
+		if p++; p == pe {
+			goto _test_eof196
+		}
+	st_case_196:
+		switch data[p] {
+		case 89:
+			goto st197
+		case 121:
+			goto st197
+		}
+		goto st0
+	st197:
+		if p++; p == pe {
+			goto _test_eof197
+		}
+	st_case_197:
+		if data[p] == 32 {
+			goto st198
+		}
+		if 9 <= data[p] && data[p] <= 13 {
+			goto st198
+		}
+		goto st0
+	st198:
+		if p++; p == pe {
+			goto _test_eof198
+		}
+	st_case_198:
+		switch data[p] {
+		case 32:
+			goto st198
+		case 73:
+			goto st127
+		case 105:
+			goto st127
+		}
+		if 9 <= data[p] && data[p] <= 13 {
+			goto st198
 		}
 		goto st0
 	st147:
@@ -3260,7 +3468,7 @@ tr195:
 	_test_eof76: cs = 76; goto _test_eof
 	_test_eof77: cs = 77; goto _test_eof
 	_test_eof78: cs = 78; goto _test_eof
-	_test_eof186: cs = 186; goto _test_eof
+	_test_eof199: cs = 199; goto _test_eof
 	_test_eof79: cs = 79; goto _test_eof
 	_test_eof80: cs = 80; goto _test_eof
 	_test_eof81: cs = 81; goto _test_eof
@@ -3329,6 +3537,19 @@ tr195:
 	_test_eof144: cs = 144; goto _test_eof
 	_test_eof145: cs = 145; goto _test_eof
 	_test_eof146: cs = 146; goto _test_eof
+	_test_eof186: cs = 186; goto _test_eof
+	_test_eof187: cs = 187; goto _test_eof
+	_test_eof188: cs = 188; goto _test_eof
+	_test_eof189: cs = 189; goto _test_eof
+	_test_eof190: cs = 190; goto _test_eof
+	_test_eof191: cs = 191; goto _test_eof
+	_test_eof192: cs = 192; goto _test_eof
+	_test_eof193: cs = 193; goto _test_eof
+	_test_eof194: cs = 194; goto _test_eof
+	_test_eof195: cs = 195; goto _test_eof
+	_test_eof196: cs = 196; goto _test_eof
+	_test_eof197: cs = 197; goto _test_eof
+	_test_eof198: cs = 198; goto _test_eof
 	_test_eof147: cs = 147; goto _test_eof
 	_test_eof148: cs = 148; goto _test_eof
 	_test_eof149: cs = 149; goto _test_eof
diff --git a/internal/ddl/trigger_parser.rl b/internal/ddl/trigger_parser.rl
index b914b35..0ca2375 100644
--- a/internal/ddl/trigger_parser.rl
+++ b/internal/ddl/trigger_parser.rl
@@ -74,11 +74,13 @@ func ParseTrigger(data string) (*Trigger, error) {
 		   ( insert | update | delete | truncate )
 		)*
 		ws 'ON'i ws ( ident $ addToBuffer % setTable )
-		( ws ( 'NOT'i ws 'DEFERRABLE'i )
-		| ws ( 'DEFERRABLE'i ws @ matchDeferrable )?
+		( ws ( 'NOT'i ws 'DEFERRABLE'i ( ws 'INITIALLY'i ws 'IMMEDIATE'i )? )
+		| ws ( 'DEFERRABLE'i % matchDeferrable )
+		| ( ws ( 'DEFERRABLE'i % matchDeferrable ) )?
+		  ws
 		  ( 'INITIALLY'i ws 'IMMEDIATE'i
 		  | 'INITIALLY'i ws 'DEFERRED'i @ matchInitiallyDeferred
-		  )?
+		  )
 		)?
 		( ws 'FOR'i ws ('EACH'i ws)? ('ROW'i @ matchForEachRow | 'STATEMENT'i) )?
 		ws 'EXECUTE'i ws ('FUNCTION'i | 'PROCEDURE'i) ws ( ident $ addToBuffer % setFunction ) '()'
-- 
2.43.0


From b7132431b63aef78c067b15bdf0c8f14109aed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 15/36] fix: ddl: generate every event of a trigger, not only
 UPDATE

---
 internal/ddl/trigger.go | 43 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/internal/ddl/trigger.go b/internal/ddl/trigger.go
index 7a8d4c1..b60f0b0 100644
--- a/internal/ddl/trigger.go
+++ b/internal/ddl/trigger.go
@@ -45,17 +45,52 @@ func (t *Trigger) setWhen(s string) {
 	)
 }
 
+func (t *Trigger) events() []string {
+	var events []string
+	if t.Insert {
+		events = append(events, "INSERT")
+	}
+	if t.Update {
+		update := "UPDATE"
+		for i, col := range t.Columns {
+			if i < 1 {
+				update += " OF "
+			} else {
+				update += ", "
+			}
+			update += quoteName(col)
+		}
+		events = append(events, update)
+	}
+	if t.Delete {
+		events = append(events, "DELETE")
+	}
+	if t.Truncate {
+		events = append(events, "TRUNCATE")
+	}
+	return events
+}
+
 func (t *Trigger) ToSQL() (string, error) {
 	var sb strings.Builder
-	sb.WriteString("CREATE TRIGGER ")
+	sb.WriteString("CREATE ")
+	if t.Constraint {
+		sb.WriteString("CONSTRAINT ")
+	}
+	sb.WriteString("TRIGGER ")
 	sb.WriteString(quoteName(t.Name))
 	sb.WriteString("\n  ")
 	sb.WriteString(t.When)
-	if t.Update {
-		sb.WriteString(" UPDATE")
-	}
+	sb.WriteString(" ")
+	sb.WriteString(strings.Join(t.events(), " OR "))
 	sb.WriteString(" ON ")
 	sb.WriteString(quoteName(t.Table))
+	if t.Deferrable {
+		sb.WriteString("\n  DEFERRABLE")
+	}
+	if t.InitiallyDeferred {
+		sb.WriteString("\n  INITIALLY DEFERRED")
+	}
 	if t.ForEachRow {
 		sb.WriteString("\n  FOR EACH ROW")
 	}
-- 
2.43.0


From aff8f48dc35d20f71dfa0dde3d93fe5014eb4d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 16/36] fix: ddl: generate the names of checks, and tables
 without columns

---
 internal/ddl/table.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/ddl/table.go b/internal/ddl/table.go
index 3c0aef3..36bae34 100644
--- a/internal/ddl/table.go
+++ b/internal/ddl/table.go
@@ -48,8 +48,18 @@ func (t *Table) ToSQL() (string, error) {
 		}
 		sb.WriteString("\n")
 	}
-	for _, check := range t.Checks {
-		sb.WriteString(", CHECK(")
+	for i, check := range t.Checks {
+		if i < 1 && len(t.Columns) < 1 {
+			sb.WriteString("  ")
+		} else {
+			sb.WriteString(", ")
+		}
+		if check.Name != "" {
+			sb.WriteString("CONSTRAINT ")
+			sb.WriteString(quoteName(check.Name))
+			sb.WriteString(" ")
+		}
+		sb.WriteString("CHECK(")
 		sb.WriteString(check.Expression)
 		sb.WriteString(")\n")
 	}
-- 
2.43.0


From 650d2f5ba730ae8f35c58bdac34a687147186829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:21 +0000
Subject: [PATCH 17/36] fix: ddl: quote functions whatever their name and
 definition contain

---
 internal/ddl/function.go | 14 +++++++++-----
 internal/ddl/util.go     | 27 ++++++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/internal/ddl/function.go b/internal/ddl/function.go
index b609e3f..c34e695 100644
--- a/internal/ddl/function.go
+++ b/internal/ddl/function.go
@@ -17,14 +17,18 @@ type Function struct {
 func (f *Function) ToSQL() (string, error) {
 	var sb strings.Builder
 	sb.WriteString("CREATE OR REPLACE FUNCTION ")
-	sb.WriteString(f.Name)
+	sb.WriteString(quoteNameIfNeeded(f.Name))
 	sb.WriteString("()\n")
 	sb.WriteString("RETURNS ")
 	sb.WriteString(f.Returns)
-	sb.WriteString(" AS $$\n")
+	quote := dollarQuote(f.Definition)
+	sb.WriteString(" AS ")
+	sb.WriteString(quote)
+	sb.WriteString("\n")
 	sb.WriteString(f.Definition)
-	sb.WriteString("$$ LANGUAGE '")
-	sb.WriteString(f.Language)
-	sb.WriteString("'\n;\n")
+	sb.WriteString(quote)
+	sb.WriteString(" LANGUAGE ")
+	sb.WriteString(quoteLiteral(f.Language))
+	sb.WriteString("\n;\n")
 	return sb.String(), nil
 }
diff --git a/internal/ddl/util.go b/internal/ddl/util.go
index 0fe6ee6..375dc71 100644
--- a/internal/ddl/util.go
+++ b/internal/ddl/util.go
@@ -1,7 +1,32 @@
 package ddl
 
-import "strings"
+import (
+	"regexp"
+	"strings"
+)
+
+var plainName = regexp.MustCompile(`^[a-z_][a-z_0-9]*$`)
 
 func quoteName(s string) string {
 	return `"` + strings.Replace(s, `"`, `""`, -1) + `"`
 }
+
+func quoteNameIfNeeded(s string) string {
+	if plainName.MatchString(s) {
+		return s
+	}
+	return quoteName(s)
+}
+
+func quoteLiteral(s string) string {
+	return `'` + strings.Replace(s, `'`, `''`, -1) + `'`
+}
+
+// dollarQuote returns a delimiter that is safe to use around s
+func dollarQuote(s string) string {
+	tag := ""
+	for strings.Contains(s+"$", "$"+tag+"$") {
+		tag += "q"
+	}
+	return "$" + tag + "$"
+}
-- 
2.43.0


From 2fc2a64b540acf0735eaacfc36368a7b8122a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:56 +0000
Subject: [PATCH 18/36] fix: ddl: accept every spelling of a boolean storage
 parameter

---
 internal/ddl/table_storage_parameters.go | 25 +++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/ddl/table_storage_parameters.go b/internal/ddl/table_storage_parameters.go
index b3c9bc9..0570a0e 100644
--- a/internal/ddl/table_storage_parameters.go
+++ b/internal/ddl/table_storage_parameters.go
@@ -1,6 +1,9 @@
 package ddl
 
-import "strconv"
+import (
+	"strconv"
+	"strings"
+)
 
 // TableStorageParameters influence how table data is stored and maintained
 type TableStorageParameters struct {
@@ -34,7 +37,7 @@ func (p *TableStorageParameters) Set(key, value string) error {
 		p.ParallelWorkers = &tmp
 		return err
 	case "autovacuum_enabled":
-		tmp, err := strconv.ParseBool(value)
+		tmp, err := parseBool(value)
 		p.AutovacuumEnabled = &tmp
 		return err
 	case "autovacuum_vacuum_threshold":
@@ -86,9 +89,25 @@ func (p *TableStorageParameters) Set(key, value string) error {
 		p.LogAutovacuumMinDuration = &tmp
 		return err
 	case "user_catalog_table":
-		tmp, err := strconv.ParseBool(value)
+		tmp, err := parseBool(value)
 		p.UserCatalogTable = &tmp
 		return err
 	}
 	return nil
 }
+
+// parseBool accepts the same spellings of a boolean as PostgreSQL,
+// which remembers a storage parameter the way it was written
+func parseBool(value string) (bool, error) {
+	v := strings.ToLower(value)
+	isPrefixOf := func(s string) bool {
+		return v != "" && strings.HasPrefix(s, v)
+	}
+	switch {
+	case v == "on", isPrefixOf("true"), isPrefixOf("yes"):
+		return true, nil
+	case v == "of", v == "off", isPrefixOf("false"), isPrefixOf("no"):
+		return false, nil
+	}
+	return strconv.ParseBool(value)
+}
-- 
2.43.0


From 3fd183a39539c17869e364795071b92c08a7db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 19/36] fix: pg: list the sequences that no column owns

---
 internal/pg/sequence.go | 48 ++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/internal/pg/sequence.go b/internal/pg/sequence.go
index ba46fd7..feb05ab 100644
--- a/internal/pg/sequence.go
+++ b/internal/pg/sequence.go
@@ -36,20 +36,20 @@ JOIN pg_catalog.pg_sequence s
   ON s.seqrelid = c.oid
 LEFT JOIN pg_catalog.pg_depend d
   ON d.objid = c.oid
-JOIN pg_catalog.pg_class c2
+  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
+  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
+  AND d.deptype IN ('a', 'i')
+LEFT JOIN pg_catalog.pg_class c2
   ON c2.oid = d.refobjid
-JOIN pg_catalog.pg_namespace n2
+LEFT JOIN pg_catalog.pg_namespace n2
   ON n2.oid = c2.relnamespace
-JOIN pg_catalog.pg_attribute a2
+LEFT JOIN pg_catalog.pg_attribute a2
   ON (a2.attrelid = c2.oid AND a2.attnum = d.refobjsubid)
 WHERE c.relkind = 'S'
   AND n.nspname <> 'pg_catalog'
   AND n.nspname <> 'information_schema'
   AND n.nspname !~ '^pg_toast'
   AND pg_catalog.pg_table_is_visible(c.oid)
-  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.deptype IN ('a', 'i')
 ORDER BY "Schema", "Name"
 `
 
@@ -67,20 +67,20 @@ JOIN pg_catalog.pg_namespace n
   ON n.oid = c.relnamespace
 LEFT JOIN pg_catalog.pg_depend d
   ON d.objid = c.oid
-JOIN pg_catalog.pg_class c2
+  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
+  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
+  AND d.deptype IN ('a', 'i')
+LEFT JOIN pg_catalog.pg_class c2
   ON c2.oid = d.refobjid
-JOIN pg_catalog.pg_namespace n2
+LEFT JOIN pg_catalog.pg_namespace n2
   ON n2.oid = c2.relnamespace
-JOIN pg_catalog.pg_attribute a2
+LEFT JOIN pg_catalog.pg_attribute a2
   ON (a2.attrelid = c2.oid AND a2.attnum = d.refobjsubid)
 WHERE c.relkind = 'S'
   AND n.nspname <> 'pg_catalog'
   AND n.nspname <> 'information_schema'
   AND n.nspname !~ '^pg_toast'
   AND pg_catalog.pg_table_is_visible(c.oid)
-  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.deptype IN ('a', 'i')
 ORDER BY "Schema", "Name"
 `
 
@@ -143,11 +143,7 @@ func (c *Conn) listSequences() ([]*ddl.Sequence, error) {
 			Increment: increment,
 			Cache:     cache,
 			Cycle:     cycle,
-			OwnedBy: &ddl.SequenceOwner{
-				Schema: String(ownerSchema),
-				Table:  String(ownerName),
-				Column: String(ownerColumn),
-			},
+			OwnedBy:   sequenceOwner(ownerSchema, ownerName, ownerColumn),
 		}
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
@@ -189,11 +185,7 @@ func (c *Conn) listSequencesLegacy() ([]*ddl.Sequence, error) {
 			Comment: String(comment),
 
 			DataType: "bigint",
-			OwnedBy: &ddl.SequenceOwner{
-				Schema: String(ownerSchema),
-				Table:  String(ownerName),
-				Column: String(ownerColumn),
-			},
+			OwnedBy:  sequenceOwner(ownerSchema, ownerName, ownerColumn),
 		}
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
@@ -234,3 +226,15 @@ FROM ` + Identifier(seq.Schema, seq.Name)
 
 	return sequences, nil
 }
+
+// sequenceOwner describes the column that a sequence depends on, if any
+func sequenceOwner(schema, table, column *string) *ddl.SequenceOwner {
+	if table == nil {
+		return nil
+	}
+	return &ddl.SequenceOwner{
+		Schema: String(schema),
+		Table:  String(table),
+		Column: String(column),
+	}
+}
-- 
2.43.0


From 24997dfa8a318d640b6c3605131cc933ecd5ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:40 +0000
Subject: [PATCH 20/36] fix: pg: report errors that end a list early

---
 internal/pg/check.go                    | 3 +++
 internal/pg/columns.go                  | 3 +++
 internal/pg/foreign_key.go              | 3 +++
 internal/pg/functions.go                | 3 +++
 internal/pg/index.go                    | 3 +++
 internal/pg/schemas.go                  | 3 +++
 internal/pg/sequence.go                 | 6 ++++++
 internal/pg/table_storage_parameters.go | 3 +++
 internal/pg/tables.go                   | 3 +++
 internal/pg/triggers.go                 | 3 +++
 10 files changed, 33 insertions(+)

diff --git a/internal/pg/check.go b/internal/pg/check.go
index d5fd7d1..ed3d7e7 100644
--- a/internal/pg/check.go
+++ b/internal/pg/check.go
@@ -46,6 +46,9 @@ func (c *Conn) ListChecks(schema, table string) ([]*ddl.Check, error) {
 		check.Name = name
 		checks = append(checks, check)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/columns.go b/internal/pg/columns.go
index 81e3ada..bb3f0a2 100644
--- a/internal/pg/columns.go
+++ b/internal/pg/columns.go
@@ -52,6 +52,9 @@ func (c *Conn) ListColumns(schema, table string) ([]*ddl.Column, error) {
 		c.log.Debugw("row scanned", "column", col.Name, "type", col.Type)
 		columns = append(columns, col)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/foreign_key.go b/internal/pg/foreign_key.go
index 03f76d8..d232ff7 100644
--- a/internal/pg/foreign_key.go
+++ b/internal/pg/foreign_key.go
@@ -48,6 +48,9 @@ func (c *Conn) ListForeignKeys(schema, table string) ([]*ddl.ForeignKey, error)
 		fk.Name = name
 		fks = append(fks, fk)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/functions.go b/internal/pg/functions.go
index c452dcc..4d955a7 100644
--- a/internal/pg/functions.go
+++ b/internal/pg/functions.go
@@ -109,6 +109,9 @@ func (c *Conn) ListFunctions() ([]*ddl.Function, error) {
 		c.log.Debugw("scanned", "function", function)
 		functions = append(functions, function)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/index.go b/internal/pg/index.go
index 18752e0..d913353 100644
--- a/internal/pg/index.go
+++ b/internal/pg/index.go
@@ -53,6 +53,9 @@ func (c *Conn) ListIndexes(schema, table string) ([]*ddl.Index, error) {
 		index.Primary = isPrimary
 		indexes = append(indexes, index)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/schemas.go b/internal/pg/schemas.go
index 7e6a3b0..9d0f9ae 100644
--- a/internal/pg/schemas.go
+++ b/internal/pg/schemas.go
@@ -41,6 +41,9 @@ func (c *Conn) ListSchemas() ([]*ddl.Schema, error) {
 		c.log.Debugw("row scanned", "schema", schema)
 		schemas = append(schemas, schema)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/sequence.go b/internal/pg/sequence.go
index feb05ab..e8c3991 100644
--- a/internal/pg/sequence.go
+++ b/internal/pg/sequence.go
@@ -148,6 +148,9 @@ func (c *Conn) listSequences() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -190,6 +193,9 @@ func (c *Conn) listSequencesLegacy() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/table_storage_parameters.go b/internal/pg/table_storage_parameters.go
index cbc4d7e..51941e0 100644
--- a/internal/pg/table_storage_parameters.go
+++ b/internal/pg/table_storage_parameters.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTableStorageParameters(schema, table string) (*ddl.TableStora
 			return nil, err
 		}
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/tables.go b/internal/pg/tables.go
index e3084b8..022f579 100644
--- a/internal/pg/tables.go
+++ b/internal/pg/tables.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTables() ([]*ddl.Table, error) {
 		c.log.Debugw("row scanned", "table", table)
 		tables = append(tables, table)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/triggers.go b/internal/pg/triggers.go
index 492f7a7..6e80ecf 100644
--- a/internal/pg/triggers.go
+++ b/internal/pg/triggers.go
@@ -89,6 +89,9 @@ func (c *Conn) ListTriggers(schema, table string) ([]*ddl.Trigger, error) {
 		trigger.Schema = schema
 		triggers = append(triggers, trigger)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fb79e824c0d09e01c14d676235124f572cbac5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:09 +0000
Subject: [PATCH 21/36] fix: pg: sort the checks of a table when asked to

---
 internal/pg/inspect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/pg/inspect.go b/internal/pg/inspect.go
index 028722b..9803a5d 100644
--- a/internal/pg/inspect.go
+++ b/internal/pg/inspect.go
@@ -87,14 +87,14 @@ func (c *Conn) inspectTable(o *InspectOptions, db *ddl.Database, table *ddl.Tabl
 	if err != nil {
 		return err
 	}
-	if len(checks) > 0 {
-		table.Checks = append(table.Checks, checks...)
-	}
 	if o.SortChecks {
 		sort.Slice(checks, func(i, j int) bool {
 			return (checks[i].Expression < checks[j].Expression)
 		})
 	}
+	if len(checks) > 0 {
+		table.Checks = append(table.Checks, checks...)
+	}
 
 	fks, err := c.ListForeignKeys(table.Schema, table.Name)
 	if err != nil {
-- 
2.43.0


From 21878dbc56499f57ba0cea0beffaa6ff1707c392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:20 +0000
Subject: [PATCH 22/36] fix: pg: stop connecting after the first success

---
 internal/pg/pg.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index f42475f..69a7983 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -60,16 +60,16 @@ func New(o *Options) (*Conn, error) {
 
 	delay := 100 * time.Millisecond
 	var conn *pgx.Conn
-	for retries := 0; retries <= o.ConnectRetries; retries++ {
+	for retries := 0; ; retries++ {
 		conn, err = pgx.Connect(cfg)
-		if err != nil {
-			if retries < o.ConnectRetries {
-				time.Sleep(delay)
-				delay = time.Duration(2^retries) * 100 * time.Millisecond
-			} else {
-				return nil, err
-			}
+		if err == nil {
+			break
+		}
+		if retries >= o.ConnectRetries {
+			return nil, err
 		}
+		time.Sleep(delay)
+		delay = time.Duration(2^retries) * 100 * time.Millisecond
 	}
 
 	c := &Conn{
-- 
2.43.0


From 1f1e579d1c7eb95ea04994d2301664654c79a73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:40 +0000
Subject: [PATCH 23/36] fix: pg: let the pauses between attempts to connect
 grow

---
 internal/pg/pg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index 69a7983..c42d21e 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -69,7 +69,7 @@ func New(o *Options) (*Conn, error) {
 			return nil, err
 		}
 		time.Sleep(delay)
-		delay = time.Duration(2^retries) * 100 * time.Millisecond
+		delay *= 2
 	}
 
 	c := &Conn{
-- 
2.43.0


From aad4c387a91d3e7d8ed14ab89baf757a31fb9575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:19 +0000
Subject: [PATCH 24/36] fix: pg: verify the name of the host that is connected
 to

---
 internal/pg/pg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index c42d21e..f61673a 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -42,6 +42,10 @@ func New(o *Options) (*Conn, error) {
 	cfg.User = firstOfString(o.Username, cfg.User)
 	cfg.Password = firstOfString(o.Password, cfg.Password)
 	cfg.Database = firstOfString(o.Database, cfg.Database)
+	if cfg.TLSConfig != nil && !cfg.TLSConfig.InsecureSkipVerify {
+		// PGHOST may not be the host that will be connected to
+		cfg.TLSConfig.ServerName = cfg.Host
+	}
 
 	sslmode := o.SSLMode
 	if sslmode == "" && cfg.Password != "" {
-- 
2.43.0


From 22e3fd508c70c1dbd8ec4d828ee12a051437c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:19 +0000
Subject: [PATCH 25/36] fix: pg: keep the environment's certificates when
 verifying the server

---
 internal/pg/pg.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index f61673a..677d8da 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -118,7 +118,13 @@ func applySSLMode(cfg *pgx.ConnConfig, sslmode string) error {
 		cfg.FallbackTLSConfig = nil
 	case "verify-full":
 		cfg.UseFallbackTLS = false
-		cfg.TLSConfig = &tls.Config{ServerName: cfg.Host}
+		tlsConfig := &tls.Config{ServerName: cfg.Host}
+		if env := cfg.TLSConfig; env != nil {
+			// loaded from PGSSLROOTCERT, PGSSLCERT and PGSSLKEY
+			tlsConfig.RootCAs = env.RootCAs
+			tlsConfig.Certificates = env.Certificates
+		}
+		cfg.TLSConfig = tlsConfig
 		cfg.FallbackTLSConfig = nil
 	default:
 		return errors.New("invalid sslmode")
-- 
2.43.0


From 06d09f6f8eb44a361c4973b86cbb2abf57fb8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:56 +0000
Subject: [PATCH 26/36] fix: runbook: reject a target or a task that is null

---
 internal/runbook/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runbook/parser/parser.go b/internal/runbook/parser/parser.go
index 0478b30..a13e0e6 100644
--- a/internal/runbook/parser/parser.go
+++ b/internal/runbook/parser/parser.go
@@ -82,6 +82,9 @@ func (p *Parser) Parse(filename string) (*types.Runbook, error) {
 
 func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 	for targetID, wrapper := range tmp.Targets {
+		if wrapper == nil {
+			return errors.New("invalid target")
+		}
 		factory, ok := p.Targets[wrapper.Class]
 		if !ok {
 			return errors.New("invalid target class")
@@ -107,6 +110,9 @@ func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 
 func (p *Parser) loadTasks(tmp *runbook, book *types.Runbook) error {
 	for taskID, task := range tmp.Tasks {
+		if task == nil {
+			return errors.New("invalid task")
+		}
 		targetID := task.Target
 		taskClass := ""
 		if idx := strings.Index(task.Target, "/"); idx != -1 {
-- 
2.43.0


From 83b18a64139d79fb61183b532925f2f8da5280a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 27/36] fix: runbook: quote the names of targets and tasks in
 graphs

---
 internal/runbook/runbook.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 41d2c94..fb54240 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -2,8 +2,10 @@ package runbook
 
 import (
 	"encoding/json"
+	"fmt"
 	"io"
 	"path/filepath"
+	"strings"
 
 	dot "github.com/awalterschulze/gographviz"
 	"github.com/hokaccha/go-prettyjson"
@@ -56,7 +58,7 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 		return err
 	}
 
-	g := dot.NewEscape()
+	g := dot.NewGraph()
 	g.SetDir(true)
 	g.SetName("runbook")
 	g.AddAttr("runbook", "newrank", "true")
@@ -64,24 +66,34 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 		g.AddAttr("runbook", "splines", splines)
 	}
 
+	graphIDs := map[string]string{}
 	for targetID := range runbook.Targets {
-		graphID := "cluster_" + targetID
+		graphID := fmt.Sprintf("cluster_%d", len(graphIDs))
+		graphIDs[targetID] = graphID
 		g.AddSubGraph("runbook", graphID, nil)
-		g.AddAttr(graphID, "label", targetID)
+		g.AddAttr(graphID, "label", quoteDot(targetID))
 	}
 
 	for dstID, task := range runbook.Tasks {
-		graphID := "cluster_" + task.Target
-		g.AddNode(graphID, dstID, nil)
+		g.AddNode(graphIDs[task.Target], quoteDot(dstID), nil)
 		for _, srcID := range task.After {
-			g.AddEdge(srcID, dstID, true, nil)
+			g.AddEdge(quoteDot(srcID), quoteDot(dstID), true, nil)
 		}
 	}
 
-	w.Write([]byte(g.String()))
+	ast, err := g.WriteAst()
+	if err != nil {
+		return err
+	}
+	w.Write([]byte(ast.String()))
 	return nil
 }
 
+// quoteDot makes a name safe to use as an ID or a label, whatever it contains
+func quoteDot(name string) string {
+	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(name) + `"`
+}
+
 // Eval converts a runbook to JSON and pretty prints it
 func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 	p, err := newParser(sys, filepath.Dir(filename))
-- 
2.43.0


From ebfe53b56740ce6352dbb1f870b56ebce288c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:26 +0000
Subject: [PATCH 28/36] fix: runbook: escape the keys of objects when printing
 JSON

---
 internal/runbook/runbook.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index fb54240..452974a 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -114,7 +114,7 @@ func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 
 	formatter := prettyjson.NewFormatter()
 	formatter.DisabledColor = !color
-	formatted, err := formatter.Marshal(unformatted)
+	formatted, err := formatter.Marshal(escapeKeys(unformatted))
 	if err != nil {
 		return err
 	}
@@ -123,6 +123,29 @@ func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 	return err
 }
 
+// escapeKeys escapes the keys of objects, because the formatter
+// only escapes strings that are values
+func escapeKeys(v interface{}) interface{} {
+	switch x := v.(type) {
+	case []interface{}:
+		for i := range x {
+			x[i] = escapeKeys(x[i])
+		}
+	case map[string]interface{}:
+		escaped := make(map[string]interface{}, len(x))
+		for key, value := range x {
+			buf := &strings.Builder{}
+			encoder := json.NewEncoder(buf)
+			encoder.SetEscapeHTML(false)
+			encoder.Encode(key)
+			quoted := strings.TrimSuffix(buf.String(), "\n")
+			escaped[quoted[1:len(quoted)-1]] = escapeKeys(value)
+		}
+		return escaped
+	}
+	return v
+}
+
 // List enumerates a runbook's tasks and their targets
 func List(sys *sys.IO, filename string) (map[TaskID]TargetID, error) {
 	p, err := newParser(sys, filepath.Dir(filename))
-- 
2.43.0


From 257bcdeeb6912b4b913a7c9b45b362f35e11ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 29/36] fix: commands: report output that can not be written

---
 internal/commands/ping.go           |  2 +-
 internal/commands/runbook_list.go   |  9 +++++++--
 internal/commands/version.go        | 15 ++++++++++++---
 internal/commands/version_legacy.go |  4 ++--
 internal/runbook/runbook.go         |  4 ++--
 5 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/internal/commands/ping.go b/internal/commands/ping.go
index 85397cc..bf5dd69 100644
--- a/internal/commands/ping.go
+++ b/internal/commands/ping.go
@@ -33,7 +33,7 @@ func (c *PingCmd) Run(base *Base) error {
 
 	version, err := conn.ServerVersion()
 	if err == nil {
-		fmt.Fprintln(base.Stdout, version)
+		_, err = fmt.Fprintln(base.Stdout, version)
 	}
 	return err
 }
diff --git a/internal/commands/runbook_list.go b/internal/commands/runbook_list.go
index c8fbbe3..e62c8ae 100644
--- a/internal/commands/runbook_list.go
+++ b/internal/commands/runbook_list.go
@@ -30,10 +30,15 @@ func (c *RunBookListCmd) Run(base *Base) error {
 	}
 	sort.Strings(sorted)
 
-	fmt.Fprintln(base.Stdout, "Tasks & Targets:")
+	if _, err := fmt.Fprintln(base.Stdout, "Tasks & Targets:"); err != nil {
+		return err
+	}
 	for _, task := range sorted {
 		target := tasks[runbook.TaskID(task)]
-		fmt.Fprintf(base.Stdout, "  %-*s  %s\n", longest, task, target)
+		_, err := fmt.Fprintf(base.Stdout, "  %-*s  %s\n", longest, task, target)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/internal/commands/version.go b/internal/commands/version.go
index 50b1b1e..0256852 100644
--- a/internal/commands/version.go
+++ b/internal/commands/version.go
@@ -18,11 +18,20 @@ type VersionCmd struct {
 
 // Run executes the command
 func (c *VersionCmd) Run(base *Base) error {
-	fmt.Fprintln(base.Stdout, c.App, c.Build)
+	_, err := fmt.Fprintln(base.Stdout, c.App, c.Build)
+	if err != nil {
+		return err
+	}
 	if c.Verbose && c.BuildInfo != nil {
-		fmt.Println("")
+		_, err = fmt.Fprintln(base.Stdout, "")
+		if err != nil {
+			return err
+		}
 		for _, m := range c.BuildInfo.Deps {
-			fmt.Printf("%-40s %-35s\n", m.Path, m.Version)
+			_, err = fmt.Fprintf(base.Stdout, "%-40s %-35s\n", m.Path, m.Version)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	return nil
diff --git a/internal/commands/version_legacy.go b/internal/commands/version_legacy.go
index b6676bd..85dcea2 100644
--- a/internal/commands/version_legacy.go
+++ b/internal/commands/version_legacy.go
@@ -14,6 +14,6 @@ type VersionCmd struct {
 
 // Run executes the command
 func (c *VersionCmd) Run(base *Base) error {
-	fmt.Fprintln(base.Stdout, c.App, c.Build)
-	return nil
+	_, err := fmt.Fprintln(base.Stdout, c.App, c.Build)
+	return err
 }
diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 452974a..7987338 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -85,8 +85,8 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 	if err != nil {
 		return err
 	}
-	w.Write([]byte(ast.String()))
-	return nil
+	_, err = w.Write([]byte(ast.String()))
+	return err
 }
 
 // quoteDot makes a name safe to use as an ID or a label, whatever it contains
-- 
2.43.0


From 69859110ca6e76a9c99dab8fd5eaf2567e131dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 30/36] fix: taskset: let a queue end that has no tasks left

---
 internal/taskset/base/base.go | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 406910e..3b7087d 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -35,32 +35,23 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 		relay := make(chan types.TaskResults)
 		running := 0
 
-		for {
+		for queue != nil || running > 0 {
 			select {
 			case tasks, ok := <-queue:
-				if ok {
-					for id, task := range tasks {
-						fmt.Println(id)
-						fn(id, task, relay)
-						running++
-					}
-				} else {
-					goto shutdown
+				if !ok {
+					queue = nil
+				}
+				for id, task := range tasks {
+					fmt.Println(id)
+					fn(id, task, relay)
+					running++
 				}
 			case result := <-relay:
 				results <- result
 				running--
 			}
 		}
-	shutdown:
-		for result := range relay {
-			results <- result
-			running--
-			if running < 1 {
-				close(relay)
-				close(results)
-			}
-		}
+		close(results)
 	}(queue, results)
 
 	return queue, results
-- 
2.43.0


From 7dc43fbbc932179ded3bac817271072ef360abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 31/36] fix: taskset: keep to the limit of tasks executed at
 once

---
 internal/taskset/base/base.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 3b7087d..8e0f44e 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -33,6 +33,7 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 
 	go func(queue <-chan types.TaskBatch, results chan<- types.TaskResults) {
 		relay := make(chan types.TaskResults)
+		backlog := []func(){}
 		running := 0
 
 		for queue != nil || running > 0 {
@@ -42,14 +43,22 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 					queue = nil
 				}
 				for id, task := range tasks {
-					fmt.Println(id)
-					fn(id, task, relay)
-					running++
+					id, task := id, task
+					backlog = append(backlog, func() {
+						fmt.Println(id)
+						fn(id, task, relay)
+					})
 				}
 			case result := <-relay:
 				results <- result
 				running--
 			}
+			for len(backlog) > 0 && (running < 1 || running < maxConcurrency) {
+				start := backlog[0]
+				backlog = backlog[1:]
+				start()
+				running++
+			}
 		}
 		close(results)
 	}(queue, results)
-- 
2.43.0


From 5e414b43991ae11a5c89bff81023eb7a5839068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 32/36] fix: taskset: keep the dependencies of tasks

---
 internal/taskset/base/base.go     | 8 ++++++++
 internal/taskset/parser/parser.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 8e0f44e..651b780 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -25,6 +25,14 @@ func (t *Task) Provides() []string {
 	return t.Provide
 }
 
+// Relate records how the task is related to its target and other tasks
+func (t *Task) Relate(target string, after, provide, require []string) {
+	t.Target = target
+	t.After = after
+	t.Provide = provide
+	t.Require = require
+}
+
 type RunTask func(types.TaskID, types.Task, chan<- types.TaskResults)
 
 func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan types.TaskResults) {
diff --git a/internal/taskset/parser/parser.go b/internal/taskset/parser/parser.go
index 593b6b2..696c4fa 100644
--- a/internal/taskset/parser/parser.go
+++ b/internal/taskset/parser/parser.go
@@ -35,6 +35,10 @@ type task struct {
 	Config hcl.Body `hcl:",remain"`
 }
 
+type related interface {
+	Relate(target string, after, provide, require []string)
+}
+
 // Parser registers available targets and tasks
 type Parser struct {
 	Targets map[string]types.TargetFactory
@@ -129,6 +133,10 @@ func (p *Parser) loadTasks(raw *taskSet, ts *types.TaskSet) error {
 			return diag
 		}
 
+		if x, ok := task.(related); ok {
+			x.Relate(t.Target, t.After, t.Provide, t.Require)
+		}
+
 		ts.Tasks[types.TaskID(t.ID)] = task
 	}
 	return nil
-- 
2.43.0


From 3ce73db9e940b378eae33b309534678fce9e1047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 33/36] fix: taskset: reject targets and tasks that are
 declared twice

---
 internal/taskset/parser/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/taskset/parser/parser.go b/internal/taskset/parser/parser.go
index 696c4fa..088f013 100644
--- a/internal/taskset/parser/parser.go
+++ b/internal/taskset/parser/parser.go
@@ -90,7 +90,14 @@ func (p *Parser) loadDefaultTargets(ts *types.TaskSet) error {
 }
 
 func (p *Parser) loadExplicitTargets(raw *taskSet, ts *types.TaskSet) error {
+	explicit := map[[2]string]bool{}
 	for _, t := range raw.Targets {
+		key := [2]string{t.Type, t.ID}
+		if explicit[key] {
+			return errors.New("duplicate target: " + t.ID)
+		}
+		explicit[key] = true
+
 		factory, ok := p.Targets[t.Type]
 		if !ok {
 			return errors.New("invalid target type")
@@ -137,6 +144,9 @@ func (p *Parser) loadTasks(raw *taskSet, ts *types.TaskSet) error {
 			x.Relate(t.Target, t.After, t.Provide, t.Require)
 		}
 
+		if _, ok := ts.Tasks[types.TaskID(t.ID)]; ok {
+			return errors.New("duplicate task: " + t.ID)
+		}
 		ts.Tasks[types.TaskID(t.ID)] = task
 	}
 	return nil
-- 
2.43.0


From 2a04ef8f8bb94e840498b2967a2b2f5dd4a7ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 34/36] fix: taskset: reject unknown types of pg and sh tasks

---
 internal/taskset/pg/pg.go | 6 +++++-
 internal/taskset/sh/sh.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/taskset/pg/pg.go b/internal/taskset/pg/pg.go
index 7f48056..372b453 100644
--- a/internal/taskset/pg/pg.go
+++ b/internal/taskset/pg/pg.go
@@ -34,7 +34,11 @@ type Target struct {
 
 // NewTask creates a new Task of type typ with default settings
 func (t *Target) NewTask(typ string) (types.Task, error) {
-	return &Task{}, nil
+	switch typ {
+	case "", "exec":
+		return &Task{}, nil
+	}
+	return nil, errors.New("invalid task type")
 }
 
 // Ready verifies the target's settings are valid
diff --git a/internal/taskset/sh/sh.go b/internal/taskset/sh/sh.go
index 9714452..baf1b4a 100644
--- a/internal/taskset/sh/sh.go
+++ b/internal/taskset/sh/sh.go
@@ -34,7 +34,11 @@ type Target struct {
 
 // NewTask creates a new Task of type typ with default settings
 func (t *Target) NewTask(typ string) (types.Task, error) {
-	return &Task{}, nil
+	switch typ {
+	case "", "exec":
+		return &Task{}, nil
+	}
+	return nil, errors.New("invalid task type")
 }
 
 // Ready verifies the target's settings are valid
-- 
2.43.0


From 236bc1f5ecb2f93e067e8c27f76bea81c158ebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 35/36] fix: commands: dot keeps the output file until there is
 a graph, and the runbook always

---
 internal/commands/runbook_dot.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/commands/runbook_dot.go b/internal/commands/runbook_dot.go
index 4a4f9c7..a90ec6c 100644
--- a/internal/commands/runbook_dot.go
+++ b/internal/commands/runbook_dot.go
@@ -1,6 +1,8 @@
 package commands
 
 import (
+	"bytes"
+	"errors"
 	"os"
 	"path/filepath"
 
@@ -25,6 +27,15 @@ func (c *RunBookDotCmd) Run(base *Base) (err error) {
 		src := c.File
 		ext := filepath.Ext(src)
 		output = src[:len(src)-len(ext)] + ".dot"
+		if sameFile(src, output) {
+			return errors.New("output would replace the runbook: " + src)
+		}
+	}
+
+	result := &bytes.Buffer{}
+	err = runbook.Dot(&base.IO, c.File, result, c.Splines)
+	if err != nil {
+		return err
 	}
 
 	w := base.Stdout
@@ -34,5 +45,15 @@ func (c *RunBookDotCmd) Run(base *Base) (err error) {
 			return err
 		}
 	}
-	return runbook.Dot(&base.IO, c.File, w, c.Splines)
+	_, err = result.WriteTo(w)
+	return err
+}
+
+func sameFile(a, b string) bool {
+	x, err := os.Stat(a)
+	if err != nil {
+		return false
+	}
+	y, err := os.Stat(b)
+	return err == nil && os.SameFile(x, y)
 }
-- 
2.43.0


From 8280c297ad7239395cff15844a1ed6954f2f3469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:56 +0000
Subject: [PATCH 36/36] fix: commands: eval keeps the output file until there
 is a result

---
 internal/commands/runbook_eval.go | 42 ++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/internal/commands/runbook_eval.go b/internal/commands/runbook_eval.go
index 0e04c2b..41ffcda 100644
--- a/internal/commands/runbook_eval.go
+++ b/internal/commands/runbook_eval.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"bytes"
 	"os"
 
 	isatty "github.com/mattn/go-isatty"
@@ -22,6 +23,20 @@ func (c *RunBookEvalCmd) Run(base *Base) (err error) {
 		output = c.Output
 	}
 
+	color := false
+	switch c.Color {
+	case "auto":
+		color = isTerminal(base, output)
+	case "true":
+		color = true
+	}
+
+	result := &bytes.Buffer{}
+	err = runbook.Eval(&base.IO, c.File, result, color)
+	if err != nil {
+		return err
+	}
+
 	w := base.Stdout
 	if output != "-" {
 		w, err = os.OpenFile(output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
@@ -29,15 +44,24 @@ func (c *RunBookEvalCmd) Run(base *Base) (err error) {
 			return err
 		}
 	}
+	_, err = result.WriteTo(w)
+	return err
+}
 
-	color := false
-	switch c.Color {
-	case "auto":
-		if x, ok := w.(interface{ Fd() uintptr }); ok {
-			color = isatty.IsTerminal(x.Fd())
-		}
-	case "true":
-		color = true
+func isTerminal(base *Base, output string) bool {
+	if output == "-" {
+		x, ok := base.Stdout.(interface{ Fd() uintptr })
+		return ok && isatty.IsTerminal(x.Fd())
+	}
+	// opening anything else might change it
+	info, err := os.Stat(output)
+	if err != nil || info.Mode()&os.ModeCharDevice == 0 {
+		return false
+	}
+	f, err := os.OpenFile(output, os.O_WRONLY, 0)
+	if err != nil {
+		return false
 	}
-	return runbook.Eval(&base.IO, c.File, w, color)
+	defer f.Close()
+	return isatty.IsTerminal(f.Fd())
 }
-- 
2.43.0

