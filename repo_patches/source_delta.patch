From 70e9a33a7963ce24ff5e4ee6830711aacdc97685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:56 +0000
Subject: [PATCH 01/19] fix: reject an empty sample instead of panicking

---
 sampler/sampler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 2f6e8a8..7c1893a 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -45,6 +45,9 @@ func (s *Sampler) Sample(sample []byte) error {
 	if sampleLen > 100 {
 		sampleLen = 100
 	}
+	if sampleLen == 0 {
+		return fmt.Errorf("sample is empty")
+	}
 	switch sample[0] {
 	case '{':
 		if sample[len(sample)-1] != '}' {
-- 
2.43.0


From ea7e6b63840e590ce28bbcb772b852dd0955ad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:56 +0000
Subject: [PATCH 02/19] fix: sample root arrays that contain scalars without
 panicking

---
 sampler/sampler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 7c1893a..9ce0bec 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -118,6 +118,10 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 	case jsonparser.Unknown:
 		return fmt.Errorf("unkown JSON value type: %v", string(current))
 	default:
+		// scalars directly in a root array have no key
+		if path.Len() == 0 {
+			return nil
+		}
 		// TODO Track types found for UI hinting
 		s.keys[path.String()[1:]]++
 	}
-- 
2.43.0


From c97582d5f7c28ce62aedff596263665a3077ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:56 +0000
Subject: [PATCH 03/19] fix: treat a negative sampling depth as no limit, as
 documented

---
 sampler/sampler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 9ce0bec..c085135 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -76,7 +76,7 @@ func (s *Sampler) Sample(sample []byte) error {
 }
 
 func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
-	if depth > s.maxDepth {
+	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
 	switch valType {
-- 
2.43.0


From 4b2dc260b30f01d54aadb2a0477ada0576e2a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:56 +0000
Subject: [PATCH 04/19] fix: keep the sampler usable and its keys intact after
 a rejected sample

---
 sampler/sampler.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index c085135..4c6ae75 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -65,17 +65,22 @@ func (s *Sampler) Sample(sample []byte) error {
 	// prep initial sampling state
 	depth := 0
 	path := &bytes.Buffer{} // todo: share
-	err := s.sample(sample, path, depth, rootObj)
+	// collect the keys of this sample on their own, so that a sample which turns
+	// out to be bad leaves nothing behind
+	docKeys := make(map[string]uint)
+	err := s.sample(sample, path, depth, rootObj, docKeys)
 	if err != nil {
-		s.keys = nil
 		return err
 	}
+	for key, count := range docKeys {
+		s.keys[key] += count
+	}
 
 	s.totalDocs++
 	return nil
 }
 
-func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
+func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType, keys map[string]uint) error {
 	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
@@ -91,7 +96,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			} else {
 				path.Write(key)
 			}
-			if err := s.sample(value, path, depth+1, dataType); err != nil {
+			if err := s.sample(value, path, depth+1, dataType, keys); err != nil {
 				return err
 			}
 			path.Truncate(pl)
@@ -109,7 +114,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			if dataType == jsonparser.Array {
 				return
 			}
-			aerr = s.sample(value, path, depth, dataType)
+			aerr = s.sample(value, path, depth, dataType, keys)
 		})
 		if err == nil {
 			err = aerr
@@ -123,7 +128,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			return nil
 		}
 		// TODO Track types found for UI hinting
-		s.keys[path.String()[1:]]++
+		keys[path.String()[1:]]++
 	}
 	return nil
 }
-- 
2.43.0


From 7163106641309d7b937d9dd266e11da88126d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:56 +0000
Subject: [PATCH 05/19] fix: return the first error recorded on a message tape

---
 parser/visitors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/visitors.go b/parser/visitors.go
index 4128a75..e8ed4a2 100644
--- a/parser/visitors.go
+++ b/parser/visitors.go
@@ -166,7 +166,7 @@ func (mt *MessageTape) ErrorAt(where ast.Pos, msg string, v ...any) {
 
 func (mt *MessageTape) addMsg(msgType MessageType, where ast.Pos, msg string, v ...any) {
 	pmsg := newMessage(msgType, where, fmt.Sprintf(msg, v...))
-	if msgType == MsgError && mt.firstErr != nil {
+	if msgType == MsgError && mt.firstErr == nil {
 		mt.firstErr = pmsg
 	}
 	mt.messages = append(mt.messages, newMessage(msgType, where, fmt.Sprintf(msg, v...)))
-- 
2.43.0


From a6b414f1c04a0609ae62335b5cc99970e9161b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:56 +0000
Subject: [PATCH 06/19] fix: never report more matches than checks in a stats
 snapshot

---
 jsonmatcher/node_stats.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonmatcher/node_stats.go b/jsonmatcher/node_stats.go
index 1d5fa92..a22344a 100644
--- a/jsonmatcher/node_stats.go
+++ b/jsonmatcher/node_stats.go
@@ -27,10 +27,13 @@ func (ns *nodeStats) mark(matched bool) {
 }
 
 func (ns *nodeStats) toStatsNode(children ...boolNode) *MatchStats {
+	// matched is read before checked (and written after it), so that a snapshot
+	// taken during matching never has more matches than checks
+	timesMatched := ns.timesMatched.Load()
 	sn := &MatchStats{
 		NodeName:     ns.nodeName,
 		TimesChecked: ns.timesChecked.Load(),
-		TimesMatched: ns.timesMatched.Load(),
+		TimesMatched: timesMatched,
 	}
 	if len(children) > 0 {
 		sn.Children = make([]*MatchStats, 0, len(children))
-- 
2.43.0


From ae6f142ec3197ac8e6994f9e1122a0eab60f6379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:56 +0000
Subject: [PATCH 07/19] fix: report the stats of operands below AND, OR and NOT

---
 jsonmatcher/nodes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonmatcher/nodes.go b/jsonmatcher/nodes.go
index 1aff22c..eeaf500 100644
--- a/jsonmatcher/nodes.go
+++ b/jsonmatcher/nodes.go
@@ -24,7 +24,7 @@ func (a *andNode) result(root []byte) bool {
 }
 
 func (a *andNode) stats() *MatchStats {
-	return a.nodeStats.toStatsNode()
+	return a.nodeStats.toStatsNode(a.left, a.right)
 }
 
 type orNode struct {
@@ -41,7 +41,7 @@ func (o *orNode) result(root []byte) bool {
 }
 
 func (o *orNode) stats() *MatchStats {
-	return o.nodeStats.toStatsNode()
+	return o.nodeStats.toStatsNode(o.left, o.right)
 }
 
 type notNode struct {
@@ -58,7 +58,7 @@ func (n *notNode) result(root []byte) bool {
 }
 
 func (n *notNode) stats() *MatchStats {
-	return n.nodeStats.toStatsNode()
+	return n.nodeStats.toStatsNode(n.sub)
 }
 
 // type subdocNode struct {
-- 
2.43.0


From 86e8772ce583e14ebdc33f82f917f9db89c65c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:26 +0000
Subject: [PATCH 08/19] fix: reject fields made only of stars, which made
 matching panic

---
 internal/grammar/aql.peg       | 6 +++++-
 internal/grammar/parser_gen.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 963e117..cbf1af5 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -264,7 +264,11 @@ Field <- pieces:(FieldPiece ('.' FieldPiece)*) {
         field = append(field, vSl[1].(string))
     }
 
-    return removeStars(field), nil
+    field = removeStars(field)
+    if len(field) == 0 {
+        return field, fmt.Errorf("empty field")
+    }
+    return field, nil
 }
 
 FieldPiece <- QuotedFieldPiece / UnquotedFieldPiece / Star
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index b02745d..55bf4f0 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -1998,7 +1998,11 @@ func (c *current) onField1(pieces interface{}) (interface{}, error) {
 		field = append(field, vSl[1].(string))
 	}
 
-	return removeStars(field), nil
+	field = removeStars(field)
+	if len(field) == 0 {
+		return field, fmt.Errorf("empty field")
+	}
+	return field, nil
 }
 
 func (p *parser) callonField1() (interface{}, error) {
-- 
2.43.0


From 911153efac8cd874ee102c8aba226baaec087238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:44 +0000
Subject: [PATCH 09/19] fix: match an empty field name against an array without
 panicking

---
 jsonmatcher/json_values.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 547400a..7c18044 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -1,6 +1,7 @@
 package jsonmatcher
 
 import (
+	"bytes"
 	"math"
 	"regexp"
 	"strconv"
@@ -21,6 +22,10 @@ type field struct {
 
 // TODO: cache paths
 func getField(path []string, root []byte) *field {
+	// the lookup cannot deal with an empty key if the root is an array
+	if path[0] == "" && bytes.HasPrefix(bytes.TrimLeft(root, " \t\r\n"), []byte("[")) {
+		return &field{}
+	}
 	values := getValues(path, root, jsonparser.Object)
 	return &field{
 		values: values,
-- 
2.43.0


From b52078402b15f7824a8e402a6c0d926de4da3aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:44 +0000
Subject: [PATCH 10/19] fix: close index.html after serving it

---
 wasm/aqlparse/server/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wasm/aqlparse/server/main.go b/wasm/aqlparse/server/main.go
index f18204a..a23fed9 100644
--- a/wasm/aqlparse/server/main.go
+++ b/wasm/aqlparse/server/main.go
@@ -50,6 +50,7 @@ func main() {
 			if err != nil {
 				panic("error opening index.html: " + err.Error())
 			}
+			defer f.Close()
 			http.ServeContent(w, r, "index.html", time.Now(), f)
 			return
 		}
-- 
2.43.0


From 3a4505e3865186b3fde2dc1e3848cb02bc05f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:45 +0000
Subject: [PATCH 11/19] fix: never report a changed index.html as not modified

---
 wasm/aqlparse/server/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wasm/aqlparse/server/main.go b/wasm/aqlparse/server/main.go
index a23fed9..92104c1 100644
--- a/wasm/aqlparse/server/main.go
+++ b/wasm/aqlparse/server/main.go
@@ -51,7 +51,9 @@ func main() {
 				panic("error opening index.html: " + err.Error())
 			}
 			defer f.Close()
-			http.ServeContent(w, r, "index.html", time.Now(), f)
+			// no modification time: with the time of the request, a page changed in
+			// between could be reported as not modified
+			http.ServeContent(w, r, "index.html", time.Time{}, f)
 			return
 		}
 		fserv.ServeHTTP(w, r)
-- 
2.43.0


From f03ad4b94719b0f18461f75b6d9da164c5c01a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:07 +0000
Subject: [PATCH 12/19] fix: report failures to write a graph file instead of
 exiting

---
 aqlgraph/graph.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index caa39aa..c137f71 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -2,6 +2,7 @@ package aqlgraph
 
 import (
 	"bytes"
+	"os"
 	"strconv"
 	"strings"
 
@@ -18,11 +19,21 @@ type Graph struct {
 }
 
 func (g *Graph) OutputSVG(filename string) error {
-	return g.gv.RenderFilename(g.g, graphviz.SVG, filename)
+	return g.output(graphviz.SVG, filename)
 }
 
 func (g *Graph) OutputDOT(filename string) error {
-	return g.gv.RenderFilename(g.g, "dot", filename)
+	return g.output("dot", filename)
+}
+
+// output renders to memory first: if graphviz itself cannot write the file, it
+// either exits the process or keeps failing for later graphs.
+func (g *Graph) output(format graphviz.Format, filename string) error {
+	var buf bytes.Buffer
+	if err := g.gv.Render(g.g, format, &buf); err != nil {
+		return err
+	}
+	return os.WriteFile(filename, buf.Bytes(), 0o666)
 }
 
 type namegraph struct {
-- 
2.43.0


From fdf4c464afbc300c838fb759b37d746a5ec77304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:07 +0000
Subject: [PATCH 13/19] fix: check that the graph was created before using it

---
 aqlgraph/graph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index c137f71..07ec1df 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -74,11 +74,11 @@ func QueryGraph(query string) (*Graph, error) {
 	}
 	gv := graphviz.New()
 	g, err := gv.Graph(graphviz.Name("query"), graphviz.Directed)
-	g.SafeSet("fontname", "Courier", "")
-	g.SafeSet("fontsize", "10px", "")
 	if err != nil {
 		return nil, err
 	}
+	g.SafeSet("fontname", "Courier", "")
+	g.SafeSet("fontsize", "10px", "")
 	ng := &namegraph{
 		Graph: g,
 	}
-- 
2.43.0


From 2c9d0729bd6c2225dd44eb4c54df1f7e7414309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:26 +0000
Subject: [PATCH 14/19] fix: escape fields and values in graph labels

---
 aqlgraph/node_html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aqlgraph/node_html.go b/aqlgraph/node_html.go
index f91df89..e03a9a4 100644
--- a/aqlgraph/node_html.go
+++ b/aqlgraph/node_html.go
@@ -38,7 +38,7 @@ type NodeVal struct {
 
 var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
 <TR>
-	<TD COLSPAN="2" CELLPADDING="8">{{ .Field }}</TD>
+	<TD COLSPAN="2" CELLPADDING="8">{{ .Field|html }}</TD>
 </TR>
 {{- range .Props}}
 <TR>
@@ -53,7 +53,7 @@ var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORD
 {{- range .Values}}
 <TR>
 	<TD BORDER="1" BGCOLOR="{{ .Color }}"><I>{{ .ValType }}</I></TD>
-	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr }}</TD>
+	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr|html }}</TD>
 </TR>
 {{- end }}
 {{- end }}
-- 
2.43.0


From d4e53d790420631905dbf061779f1ef052a22237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:52 +0000
Subject: [PATCH 15/19] fix: keep control characters in values from breaking
 graph labels

---
 aqlgraph/graph.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index 07ec1df..ec14aa0 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -184,7 +184,7 @@ func visitNodes(graph *namegraph, anode ast.Node) *cgraph.Node {
 			panic("template error: " + err.Error())
 		}
 
-		n.SetLabel(graph.StrdupHTML(lb.String()))
+		n.SetLabel(graph.StrdupHTML(strings.Map(labelRune, lb.String())))
 		// case *ast.SubdocNode:
 	}
 	if left != nil {
@@ -198,3 +198,12 @@ func visitNodes(graph *namegraph, anode ast.Node) *cgraph.Node {
 	}
 	return n
 }
+
+// labelRune replaces the control characters that graphviz cannot read in a
+// label.
+func labelRune(r rune) rune {
+	if r < ' ' && r != '\t' && r != '\n' && r != '\r' {
+		return '\uFFFD'
+	}
+	return r
+}
-- 
2.43.0


From 3f538fd9a8b4a844939a8f36f0a3e6f23905f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:59 +0000
Subject: [PATCH 16/19] fix: serialise the use of graphviz, which crashes when
 used concurrently

---
 aqlgraph/graph.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index ec14aa0..bc2d071 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/flowchartsman/aql/parser"
 	"github.com/flowchartsman/aql/parser/ast"
@@ -12,6 +13,9 @@ import (
 	"github.com/goccy/go-graphviz/cgraph"
 )
 
+// graphviz keeps global state, so only one goroutine may use it at a time.
+var gvMu sync.Mutex
+
 // Graph represents the graphical representation of an AQL query.
 type Graph struct {
 	gv *graphviz.Graphviz
@@ -30,12 +34,18 @@ func (g *Graph) OutputDOT(filename string) error {
 // either exits the process or keeps failing for later graphs.
 func (g *Graph) output(format graphviz.Format, filename string) error {
 	var buf bytes.Buffer
-	if err := g.gv.Render(g.g, format, &buf); err != nil {
+	if err := g.render(format, &buf); err != nil {
 		return err
 	}
 	return os.WriteFile(filename, buf.Bytes(), 0o666)
 }
 
+func (g *Graph) render(format graphviz.Format, buf *bytes.Buffer) error {
+	gvMu.Lock()
+	defer gvMu.Unlock()
+	return g.gv.Render(g.g, format, buf)
+}
+
 type namegraph struct {
 	*cgraph.Graph
 	n namer
@@ -72,6 +82,8 @@ func QueryGraph(query string) (*Graph, error) {
 	if err != nil {
 		return nil, err
 	}
+	gvMu.Lock()
+	defer gvMu.Unlock()
 	gv := graphviz.New()
 	g, err := gv.Graph(graphviz.Name("query"), graphviz.Directed)
 	if err != nil {
-- 
2.43.0


From 09d71d4062a197a7d84d9cee38fb21355904e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:57 +0000
Subject: [PATCH 17/19] fix: report a failure to print the verdict or
 statistics

The test command ignored errors from writing to standard output, so with a
full device it exited with success although nothing had been printed.
---
 cmd/aqltest/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/aqltest/main.go b/cmd/aqltest/main.go
index abf3ba8..57bd11c 100644
--- a/cmd/aqltest/main.go
+++ b/cmd/aqltest/main.go
@@ -52,12 +52,16 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
-	fmt.Println(result)
+	if _, err := fmt.Println(result); err != nil {
+		log.Fatal(err)
+	}
 	if stats := m.Stats(); stats != nil {
 		statsB, err := json.MarshalIndent(stats, "", "  ")
 		if err != nil {
 			log.Fatalf("error marshalling stats: %s", err)
 		}
-		fmt.Println(string(statsB))
+		if _, err := fmt.Println(string(statsB)); err != nil {
+			log.Fatal(err)
+		}
 	}
 }
-- 
2.43.0


From 2cc6ccb1d716f3b7ea1387882d113c8627b5c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:49 +0000
Subject: [PATCH 18/19] fix: read zone names in timestamps independently of the
 host's zone

A timestamp with a zone name, like "2020-06-15 10:00:00 CET", was read
differently on hosts whose own zone uses that name.
---
 jsonmatcher/json_values.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 7c18044..459f760 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"regexp"
 	"strconv"
+	"time"
 
 	"github.com/araddon/dateparse"
 	"github.com/buger/jsonparser"
@@ -167,7 +168,8 @@ func getDatetimeVal(v jsonValue) (intVal int64, found bool) {
 	if !ok {
 		return 0, false
 	}
-	t, err := dateparse.ParseAny(sv)
+	// in UTC, so that zone names do not get their meaning from the host's zone
+	t, err := dateparse.ParseIn(sv, time.UTC)
 	if err != nil {
 		return 0, false
 	}
-- 
2.43.0


From 7c091e10fecc8de7bdc9a9919d79b103c76ed37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:16 +0000
Subject: [PATCH 19/19] fix: do not let a call without arguments end the
 browser bridge

---
 wasm/aqlparse/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wasm/aqlparse/main.go b/wasm/aqlparse/main.go
index 49e22cb..a6a45d5 100644
--- a/wasm/aqlparse/main.go
+++ b/wasm/aqlparse/main.go
@@ -64,6 +64,10 @@ func msgConvert(msg *parser.ParserMessage, input string) map[string]any {
 }
 
 func pWrap(this js.Value, args []js.Value) any {
+	if len(args) == 0 {
+		// taken for an empty query, as a panic would end the bridge for good
+		args = []js.Value{js.ValueOf("")}
+	}
 	input := args[0].String()
 	result := map[string]any{
 		"ast": "",
-- 
2.43.0

