From 899bddc482a5aaef39778132049ab2e9d4445e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 01/39] fix: give opening brackets the line they stand on

An opening parenthesis or curly bracket that follows only separators got the
line of the last flushed text instead of its own, so its line number was wrong
and ParseScope mistook the next token for the first one of a new line.
---
 extractor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index 88ef608..da5d286 100755
--- a/extractor.go
+++ b/extractor.go
@@ -177,7 +177,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			if ee != nil && ee.IncludeOpen { // /* // " `
 				buf.WriteByte(char)
 			} else { // ( {
-				insertNode(NewNode(bufLine, string(char)))
+				insertNode(NewNode(*line, string(char)))
 			}
 			*i++
 			ns, err := ee.Run(text, buf, i, line)
-- 
2.43.0


From 91f1e6d98c23c323cc70e86b2644d5a21fe10b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 02/39] fix: end a string literal at a quote after an escaped
 backslash

"C:\\" was read as unterminated, because the quote was taken to be escaped by
a backslash which is itself escaped, and the code after it became string text.
---
 extractor.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/extractor.go b/extractor.go
index da5d286..8934eb7 100755
--- a/extractor.go
+++ b/extractor.go
@@ -189,7 +189,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 		}
 
 		trailing := text[:*i+1]
-		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) {
+		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) && isEscaped(trailing) {
 			// skip return
 			buf.WriteByte(char)
 			lineStep()
@@ -223,6 +223,17 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 	return head, nil
 }
 
+// isEscaped reports whether the last byte of text is escaped by a backslash
+// which is not escaped itself.
+func isEscaped(text []byte) bool {
+	count := 0
+	for i := len(text) - 2; i >= 0 && text[i] == '\\'; i-- {
+		count++
+	}
+
+	return count%2 == 1
+}
+
 func (e *extractor) Kind() []kind.Kind {
 	if e == nil || e.kind == kind.Raw {
 		return nil
-- 
2.43.0


From 39464a2cde43cc297a2009fd7b2de5c96fc17256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 03/39] fix: read a rune literal as one token

A quote, bracket, slash or blank inside a rune literal ('"', '{', ' ') was read
as code: '"' opened a string that swallowed the following declarations.
---
 extractor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/extractor.go b/extractor.go
index 8934eb7..75fb02a 100755
--- a/extractor.go
+++ b/extractor.go
@@ -78,6 +78,15 @@ var (
 		SkipReturnKeyword: "",
 	}
 
+	_runeExtractor = &extractor{
+		kind:              kind.Raw,
+		IncludeOpen:       true,
+		IncludeClose:      true,
+		SeparatorCharset:  nil,
+		ReturnKeyword:     "'",
+		SkipReturnKeyword: "\\'",
+	}
+
 	_deeperExtractTable = map[*extractor]deeperExtract{
 		_commonExtractor:       _commonDeeperExtract,
 		_parenthesisExtractor:  _commonDeeperExtract,
@@ -90,6 +99,7 @@ var (
 		"/*": _innerCommentExtractor,
 		"\"": _stringExtractor,
 		"`":  _multilineStringExtractor,
+		"'":  _runeExtractor,
 	}
 )
 
-- 
2.43.0


From 041b712232751adaac2e46dff2fd002351d12025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 04/39] fix: do not close a block comment with its own opening

The star of the opening was taken for the one of the closing, so /*/ was read as
a whole comment and the text commented out behind it as code.
---
 extractor.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/extractor.go b/extractor.go
index 75fb02a..7608dd1 100755
--- a/extractor.go
+++ b/extractor.go
@@ -105,17 +105,17 @@ var (
 
 type deeperExtract map[string]*extractor
 
-func (de deeperExtract) PrefixFit(s []byte) (*extractor, bool) {
+func (de deeperExtract) PrefixFit(s []byte) (string, *extractor, bool) {
 	if de == nil {
-		return nil, false
+		return "", nil, false
 	}
 
 	for k, v := range de {
 		if helper.HasPrefix(s, k) {
-			return v, true
+			return k, v, true
 		}
 	}
-	return nil, false
+	return "", nil, false
 }
 
 type extractor struct {
@@ -137,7 +137,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 		head, cur *Node
 	)
 
-	bufLine := *line
+	start, bufLine := *i, *line
 
 	insertNode := func(n *Node) {
 		if n == nil {
@@ -181,15 +181,15 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 	for ; *i < len(text); *i++ {
 		char = text[*i]
 
-		if ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
+		if open, ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
 			// () {} /**/ "" `` //\n
 			pushNode(true)
 			if ee != nil && ee.IncludeOpen { // /* // " `
-				buf.WriteByte(char)
+				buf.WriteString(open)
 			} else { // ( {
-				insertNode(NewNode(*line, string(char)))
+				insertNode(NewNode(*line, open))
 			}
-			*i++
+			*i += len(open)
 			ns, err := ee.Run(text, buf, i, line)
 			if err != nil {
 				return nil, err
@@ -198,7 +198,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 			continue
 		}
 
-		trailing := text[:*i+1]
+		trailing := text[start : *i+1] // without the opening keyword
 		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) && isEscaped(trailing) {
 			// skip return
 			buf.WriteByte(char)
-- 
2.43.0


From 457c1f73c56afc378542e916f3258deacd00cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 05/39] fix: keep kind and line of a token that ends with the
 text

A comment without a newline at the end of the text got kind Raw instead of
Comment, and an unterminated one the line it ends on instead of its first.
---
 extractor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extractor.go b/extractor.go
index 7608dd1..3661097 100755
--- a/extractor.go
+++ b/extractor.go
@@ -229,7 +229,7 @@ func (e *extractor) Run(text []byte, buf *strings.Builder, i *int, line *int) (*
 
 		lineStep()
 	}
-	pushNode(true)
+	pushNode(!e.IncludeClose, e.Kind()...)
 	return head, nil
 }
 
@@ -245,7 +245,7 @@ func isEscaped(text []byte) bool {
 }
 
 func (e *extractor) Kind() []kind.Kind {
-	if e == nil || e.kind == kind.Raw {
+	if e == nil || e.kind == kind.None || e.kind == kind.Raw {
 		return nil
 	}
 
-- 
2.43.0


From 91ad4679ae3d11a01df3166c603a8e4731ade82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 06/39] fix: start a scope only at a whole keyword

A label at the beginning of a line whose name merely begins with a keyword
(typeLoop:, function:, variable:) ended its function's scope and started a bogus
one.
---
 scope.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scope.go b/scope.go
index 4e10c51..583ba03 100755
--- a/scope.go
+++ b/scope.go
@@ -176,6 +176,10 @@ func newScopeKind(s string) scope.Kind {
 
 func isScopeKind(s string, k scope.Kind) bool {
 	ks := string(k)
+	if k != scope.Comment && k != scope.InnerComment {
+		return s == ks
+	}
+
 	if len(s) < len(ks) {
 		return false
 	}
-- 
2.43.0


From a246a11006cf81c051e3b2abd9953fa7e3afd8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 07/39] fix: do not start a scope inside the brackets of
 another one

A scope is a first level declaration, but a line inside a body that begins with
a comment or keyword split it: gofmt leaves //line directives unindented.
---
 scope.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/scope.go b/scope.go
index 583ba03..d233ff4 100755
--- a/scope.go
+++ b/scope.go
@@ -88,12 +88,26 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 		}
 	}
 
+	depth := 0
+
 	_ = node.IterNext(func(n *Node) bool {
+		nested := depth != 0
+		switch n.Kind() {
+		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
+			depth++
+		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
+			depth = max(depth-1, 0)
+		}
+
 		if n.Line() == line {
 			return true
 		}
 
 		line = n.Line()
+		if nested {
+			return true
+		}
+
 		nk := newScopeKind(n.Text())
 		if nk == scope.Unknown {
 			return true
-- 
2.43.0


From 986ab385c833650155b4d1765e71342336baee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 08/39] fix: count the lines of ParseScope from its start line

Nodes and scopes were numbered from 0 whatever the start line, and with a start
line of 1 the first line's declaration was not found at all.
---
 scope.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scope.go b/scope.go
index d233ff4..87d5706 100755
--- a/scope.go
+++ b/scope.go
@@ -69,6 +69,11 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 	scs := []Scope{}
 	nodesToResetKind := []*Node{}
 
+	_ = node.IterNext(func(n *Node) bool {
+		n.line += startLine
+		return true
+	})
+
 	head := node
 	k := scope.Unknown
 	line := startLine - 1
-- 
2.43.0


From 5bca37e273daad4f68da684585e9354c56d4c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 09/39] fix: start a scope at a declaration behind a block
 comment

Only the first token of a line was looked at, so a declaration after a block
comment (/* c */ func f() {}) became part of the comment's scope, and parsing
/* c */ package p failed with ErrNoPackage.
---
 scope.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scope.go b/scope.go
index 87d5706..19e0a7e 100755
--- a/scope.go
+++ b/scope.go
@@ -94,6 +94,7 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 	}
 
 	depth := 0
+	leading := false // only comments and spaces in this line so far
 
 	_ = node.IterNext(func(n *Node) bool {
 		nested := depth != 0
@@ -104,16 +105,22 @@ func ParseScope(startLine int, text []byte) ([]Scope, error) {
 			depth = max(depth-1, 0)
 		}
 
-		if n.Line() == line {
+		if n.Line() == line && !leading {
 			return true
 		}
 
 		line = n.Line()
 		if nested {
+			leading = false
 			return true
 		}
 
 		nk := newScopeKind(n.Text())
+		if leading && (n.Kind() == kind.Space || nk == scope.InnerComment || nk == scope.Comment) {
+			return true
+		}
+
+		leading = nk == scope.InnerComment
 		if nk == scope.Unknown {
 			return true
 		}
-- 
2.43.0


From 29e74d8ba77537c6b2a1e58193a438def30dc08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 10/39] fix: do not lose comments when type nodes are combined

Combining the nodes of a type isolated them one by one and reconnected only what
followed the last one, so everything in between that was not part of the type
vanished from the tree: saving 'type X Foo /* a */ /* b */' dropped /* a */.
---
 kind_resetter_all.go  | 46 +++++++++++++++++++++++++++++++++++--------
 kind_resetter_func.go |  9 +--------
 2 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/kind_resetter_all.go b/kind_resetter_all.go
index 5938780..30f0aab 100755
--- a/kind_resetter_all.go
+++ b/kind_resetter_all.go
@@ -105,6 +105,43 @@ func handleHook(n *Node, hooks ...func(*Node)) {
 // 	})
 // }
 
+// combineSpan combines the given nodes, which follow each other, into the first one
+// along with every node in between, and keeps the nodes behind connected.
+func combineSpan(k kind.Kind, nodes []*Node) {
+	for len(nodes) > 1 {
+		tail := nodes[len(nodes)-1].Kind()
+		if tail != kind.Space && tail != kind.Tab {
+			break
+		}
+		nodes = nodes[:len(nodes)-1]
+	}
+
+	if len(nodes) == 0 {
+		return
+	}
+
+	head := nodes[0]
+	rest := charset.New(nodes...)
+	delete(rest, head)
+
+	var span, passed []*Node
+	for n := head.Next(); n != nil && len(rest) != 0; n = n.Next() {
+		passed = append(passed, n)
+		if rest.Contain(n) {
+			delete(rest, n)
+			span, passed = append(span, passed...), nil
+		}
+	}
+
+	if len(span) == 0 {
+		head.SetKind(k)
+		return
+	}
+
+	next := span[len(span)-1].Next()
+	head.CombineNext(k, span...).ReplaceNext(next)
+}
+
 type paramResetter struct {
 	skip        bool
 	resetKind   kind.Kind
@@ -128,14 +165,7 @@ func (r paramResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 
 	returnKindSet := charset.New(r.returnKinds...)
 
-	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(r.resetKind, buf[1:]...)
-			n.ReplaceNext(next)
-		}
-	}()
+	defer func() { combineSpan(r.resetKind, buf) }()
 
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 4c6484c..00fe5a3 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -248,14 +248,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 		buf []*Node
 	)
 
-	defer func() {
-		if len(buf) != 0 {
-			n := buf[0]
-			next := buf[len(buf)-1].Next()
-			n = n.CombineNext(kind.ParamType, buf[1:]...)
-			n.ReplaceNext(next)
-		}
-	}()
+	defer func() { combineSpan(kind.ParamType, buf) }()
 
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
-- 
2.43.0


From c399a28349057d1a10a216cc8559aefbc14eae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 11/39] fix: classify the blank identifier as a name, not a
 symbol

Names spelled _ were skipped, so the next identifier took their place: the
receiver type of func (_ *T) M() was reported missing, the type of a parameter
_ T was marked as its name, and type _ [n]T was named after a word in n.
---
 charset/charset.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/charset/charset.go b/charset/charset.go
index 124da74..d53d053 100755
--- a/charset/charset.go
+++ b/charset/charset.go
@@ -114,7 +114,6 @@ var (
 		[]byte("&^"),
 		[]byte("&^="),
 		[]byte("~"),
-		[]byte("_"),
 	)
 
 	GolangBasicType = New(
-- 
2.43.0


From e03019569a885adffb9f97563d7281f2bd327e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 12/39] fix: find declared names that equal the name of a basic
 type

func (b *buf) uint8() and type string string are valid declarations, but their
names were taken for types and not reported.
---
 kind_resetter_func.go | 8 +++++++-
 kind_resetter_type.go | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 00fe5a3..d32e440 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -85,7 +85,7 @@ func (r funcResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		// determine func or method
 		if !foundFuncOrMethod {
 			switch n.Kind() {
-			case kind.Raw:
+			case kind.Raw, kind.Basic /* name of a basic type */ :
 				foundFuncOrMethod = true
 			case kind.ParenthesisLeft:
 				foundFuncOrMethod = true
@@ -166,6 +166,12 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 				isFuncNameAssigned = true
 			}
 			return true
+		case kind.Basic: // declared name equal to the name of a basic type
+			if !isFuncNameAssigned && (r.isFuncKeywordLeading || r.isInterfaceDefinition) {
+				n.SetKind(kind.FuncName)
+				isFuncNameAssigned = true
+			}
+			return true
 		case kind.Space:
 			if isFuncNameAssigned && isFuncParamHandled {
 				jumpTo = r.handleSingleReturnType(n, hooks...)
diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index c703357..fc51dd6 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -43,7 +43,7 @@ func (r typeResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 			switch n.Kind() {
 			case kind.CurlyBracketRight, kind.NewLine: // return kind
 				return false
-			case kind.Raw:
+			case kind.Raw, kind.Basic /* name of a basic type */ :
 				n.SetKind(kind.TypeName)
 				isTypeNameAssigned = true
 				return true
-- 
2.43.0


From bca2f35e355a34dfb8fcc5394a4c43d9adbbd358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 13/39] fix: find the type of an unnamed generic receiver

The type parameters were counted as further words of the receiver, so the type
in func (*T[K]) M() was taken for the receiver's name and M for no method.
---
 kind_resetter_parenthesis.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 7b19243..6544b8e 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -81,6 +81,12 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 			return false
 		case kind.Space, kind.Tab, kind.Comment, kind.NewLine:
 			return true
+		case kind.SquareBracketLeft: // type parameters of the receiver
+			if isReceiver {
+				return false
+			}
+			validParamCount++
+			return true
 		default:
 			validParamCount++
 			return true
-- 
2.43.0


From 07ed2e70cf8cee3484d63f9149c6469b244d1bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 14/39] fix: count the lines of the first text in NewNodes

---
 node.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node.go b/node.go
index dee965b..5118795 100755
--- a/node.go
+++ b/node.go
@@ -31,6 +31,7 @@ func NewNodes(startLine int, texts ...string) *Node {
 
 	head := NewNode(startLine, texts[0])
 	cur := head
+	startLine += strings.Count(texts[0], "\n")
 	for _, text := range texts[1:] {
 		cur.InsertNext(NewNode(startLine, text))
 		cur = cur.Next()
-- 
2.43.0


From 49757d38b6a458c947508de57aa282ab95d643ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 15/39] fix: set the kind of nodes combined into a nil node

---
 node.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/node.go b/node.go
index 5118795..5c78303 100755
--- a/node.go
+++ b/node.go
@@ -281,17 +281,17 @@ func (n *Node) RemoveNext() *Node {
 //
 // e.g. (nn3 - nn2 - nn1 - n)
 func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
+	if n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
@@ -316,17 +316,17 @@ func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
 //
 // e.g. (n - nn1 - nn2 - nn3)
 func (n *Node) CombineNext(k kind.Kind, nns ...*Node) *Node {
+	if n == nil && len(nns) != 0 {
+		n = nns[0]
+		nns = nns[1:]
+	}
+
 	n.SetKind(k)
 
 	if len(nns) == 0 {
 		return n
 	}
 
-	if n == nil {
-		n = nns[0]
-		nns = nns[1:]
-	}
-
 	buf := make([]string, 0, len(nns)+1)
 	buf = append(buf, n.Text())
 	for _, nn := range nns {
-- 
2.43.0


From 625b9db73c640fc8636b099d423244a76ca06a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 16/39] fix: do not write appended scopes into a shared slice

---
 ast.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 586f659..c7aa5fd 100755
--- a/ast.go
+++ b/ast.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"os"
 	"path/filepath"
+	"slices"
 	"strings"
 
 	"github.com/yanun0323/goast/helper"
@@ -205,7 +206,7 @@ func (f *ast) SetScope(scope []Scope) Ast {
 }
 
 func (f *ast) AppendScope(scs ...Scope) {
-	f.scope = append(f.scope, scs...)
+	f.scope = append(slices.Clip(f.scope), scs...)
 }
 
 func (f *ast) Description() string {
-- 
2.43.0


From dd468dc216a837b55c2e648428bfd464c4ecf7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 17/39] fix: describe a scope with its own line

---
 scope.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scope.go b/scope.go
index 19e0a7e..0c46e68 100755
--- a/scope.go
+++ b/scope.go
@@ -172,7 +172,7 @@ func (d *scopeStruct) Description() string {
 		return ""
 	}
 
-	return fmt.Sprintf("%d .... *Scope.%s", d.Line()+1, d.kind.String())
+	return fmt.Sprintf("%d .... *Scope.%s", d.Line(), d.kind.String())
 }
 
 func (d *scopeStruct) Print() {
-- 
2.43.0


From 4b0cc324a2ced20525b519ef81853844c06d6a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 18/39] fix: keep the values of prefixes when a text is added
 to the trie

---
 trie.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie.go b/trie.go
index 50be38f..32458f1 100755
--- a/trie.go
+++ b/trie.go
@@ -24,7 +24,11 @@ func (t *trie_[T]) AddText(s string, value T) *trie_[T] {
 	var zero T
 	n := t
 	for i := range s {
-		n = n.Insert(s[i], zero)
+		next, ok := n.Next(s[i])
+		if !ok {
+			next = n.Insert(s[i], zero)
+		}
+		n = next
 	}
 	n.value = value
 	return n
-- 
2.43.0


From fa1f38064a8cc89546fe980bce66d150334fa2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 19/39] fix: skip nil nodes when nodes are combined into a nil
 node

---
 node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 5c78303..0d9fb89 100755
--- a/node.go
+++ b/node.go
@@ -281,7 +281,7 @@ func (n *Node) RemoveNext() *Node {
 //
 // e.g. (nn3 - nn2 - nn1 - n)
 func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
-	if n == nil && len(nns) != 0 {
+	for n == nil && len(nns) != 0 {
 		n = nns[0]
 		nns = nns[1:]
 	}
@@ -316,7 +316,7 @@ func (n *Node) CombinePrev(k kind.Kind, nns ...*Node) *Node {
 //
 // e.g. (n - nn1 - nn2 - nn3)
 func (n *Node) CombineNext(k kind.Kind, nns ...*Node) *Node {
-	if n == nil && len(nns) != 0 {
+	for n == nil && len(nns) != 0 {
 		n = nns[0]
 		nns = nns[1:]
 	}
-- 
2.43.0


From 42b9015e03fc1e6ab86a9bd2f9b882f39939191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 20/39] fix: find package names that equal the name of a basic
 type and report missing ones

---
 ast.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index c7aa5fd..fc71a4c 100755
--- a/ast.go
+++ b/ast.go
@@ -110,7 +110,7 @@ func findPackageName(scs []Scope) (string, error) {
 
 	packageKeywordAppeared := false
 	result := packageScope.Node().IterNext(func(n *Node) bool {
-		if packageKeywordAppeared && n.Kind() == kind.Raw {
+		if packageKeywordAppeared && (n.Kind() == kind.Raw || n.Kind() == kind.Basic /* name of a basic type */) {
 			return false
 		}
 
@@ -121,6 +121,10 @@ func findPackageName(scs []Scope) (string, error) {
 		return true
 	})
 
+	if result == nil {
+		return "", ErrNoPackage
+	}
+
 	return result.Text(), nil
 }
 
-- 
2.43.0


From cd9119d345d0630fa3e42f06fbabf07c39539784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 21/39] fix: report a struct or interface name only if the type
 itself is one

---
 scope.go | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/scope.go b/scope.go
index 0c46e68..67b5393 100755
--- a/scope.go
+++ b/scope.go
@@ -260,16 +260,9 @@ func (d *scopeStruct) GetStructName() (string, bool) {
 		return "", false
 	}
 
-	isStruct := false
-
-	d.Node().IterNext(func(n *Node) bool {
-		isStruct = n.Kind() == kind.Struct
-		return !isStruct
-	})
-
 	typeName, _ := d.GetTypeName()
 
-	return typeName, isStruct
+	return typeName, d.declaredKind() == kind.Struct
 }
 
 func (d *scopeStruct) GetInterfaceName() (string, bool) {
@@ -277,16 +270,29 @@ func (d *scopeStruct) GetInterfaceName() (string, bool) {
 		return "", false
 	}
 
-	isInterface := false
+	typeName, _ := d.GetTypeName()
 
-	d.Node().IterNext(func(n *Node) bool {
-		isInterface = n.Kind() == kind.Interface
-		return !isInterface
-	})
+	return typeName, d.declaredKind() == kind.Interface
+}
 
-	typeName, _ := d.GetTypeName()
+// declaredKind returns the kind of the first node of the type the scope declares.
+func (d *scopeStruct) declaredKind() kind.Kind {
+	n := d.Node().IterNext(func(n *Node) bool {
+		return n.Kind() != kind.TypeName
+	}).Next()
+
+	if n.Kind() == kind.SquareBracketLeft { // type parameters
+		n = n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next()
+	}
 
-	return typeName, isInterface
+	return n.IterNext(func(n *Node) bool {
+		switch n.Kind() {
+		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
+			return true
+		default:
+			return n.Text() == "=" // alias
+		}
+	}).Kind()
 }
 
 func (d *scopeStruct) GetMethodName() (string, bool) {
-- 
2.43.0


From a2cf0818cdb62871fc19eb1f5ecbdd2f995a1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 22/39] fix: tell param names from param types by the whole
 param list

---
 kind_resetter_parenthesis.go | 82 +++++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 29 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 6544b8e..e5a627f 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -1,6 +1,8 @@
 package goast
 
 import (
+	"strings"
+
 	"github.com/yanun0323/goast/helper"
 	"github.com/yanun0323/goast/kind"
 )
@@ -27,6 +29,8 @@ func (r parenthesisResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	var (
 		skipAll bool
 		jumpTo  *Node
+
+		named = r.isNamed(head)
 	)
 
 	return head.IterNext(func(n *Node) bool {
@@ -48,15 +52,59 @@ func (r parenthesisResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		case kind.Comment, kind.Comma, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
 			return true
 		default:
-			jumpTo = r.handleParenthesisParam(n, r.isReceiver, hooks...)
+			jumpTo = r.handleParenthesisParam(n, r.isReceiver, named, hooks...)
 			skipAll = jumpTo == nil
 			return true
 		}
 	})
 }
 
+// isNamed starts with '(', it reports whether any param in the parenthesis is a name followed by a type
+func (r parenthesisResetter) isNamed(head *Node) bool {
+	var (
+		depth  int
+		count  int  // nodes of the current param
+		isName bool // the first node of the current param could be a name
+		named  bool
+	)
+
+	_ = head.IterNext(func(n *Node) bool {
+		switch n.Kind() {
+		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
+			return true
+		case kind.Comma:
+			if depth == 1 {
+				count = 0
+			}
+			return true
+		case kind.ParenthesisRight, kind.CurlyBracketRight, kind.SquareBracketRight:
+			depth--
+			return depth > 0
+		}
+
+		if depth == 1 {
+			count++
+			switch {
+			case count == 1:
+				isName = kind.New(n.Text()) == kind.Raw && !strings.ContainsAny(n.Text(), "*.<")
+			case count == 2: // type arguments follow directly
+				named = isName && (n.Kind() != kind.SquareBracketLeft || n.Prev().Kind() == kind.Space)
+			}
+		}
+
+		switch n.Kind() {
+		case kind.ParenthesisLeft, kind.CurlyBracketLeft, kind.SquareBracketLeft:
+			depth++
+		}
+
+		return !named
+	})
+
+	return named
+}
+
 // handleParenthesisParam starts with next of '(' and ',', ends with ',' and ')'
-func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool, hooks ...func(*Node)) *Node {
+func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, named bool, hooks ...func(*Node)) *Node {
 	helper.DebugPrint("parenthesisResetter.handleParenthesisParam", "\t\t....", head.debugText(5))
 	defer helper.DebugPrint("parenthesisResetter.handleParenthesisParam.Returned")
 
@@ -64,7 +112,7 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 		skipAll bool
 		jumpTo  *Node
 
-		named bool
+		nameAssigned bool
 	)
 
 	nameKind := kind.ParamName
@@ -74,25 +122,6 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 		typeKind = kind.MethodReceiverType
 	}
 
-	validParamCount := 0
-	head.IterNext(func(n *Node) bool {
-		switch n.Kind() {
-		case kind.Comma, kind.ParenthesisRight:
-			return false
-		case kind.Space, kind.Tab, kind.Comment, kind.NewLine:
-			return true
-		case kind.SquareBracketLeft: // type parameters of the receiver
-			if isReceiver {
-				return false
-			}
-			validParamCount++
-			return true
-		default:
-			validParamCount++
-			return true
-		}
-	})
-
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		if skipAll {
@@ -120,14 +149,9 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver bool,
 			skipAll = jumpTo == nil
 			return true
 		case kind.Raw, kind.ParamType /* for struct resetter */, kind.ParamName /* for struct resetter */ :
-			if validParamCount == 1 {
-				n.SetKind(typeKind)
-				return true
-			}
-
-			if !named {
+			if named && !nameAssigned {
 				n.SetKind(nameKind)
-				named = true
+				nameAssigned = true
 				return true
 			}
 			n.SetKind(typeKind)
-- 
2.43.0


From c46f8c697689afcaa51a2d1fc7bb1d10b38cc36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 23/39] fix: skip nested brackets when params are read

---
 kind_resetter_parenthesis.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index e5a627f..cf0de03 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -46,10 +46,14 @@ func (r parenthesisResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 			jumpTo = nil
 		}
 
+		if n == head {
+			return true
+		}
+
 		switch n.Kind() {
 		case kind.ParenthesisRight: // return kind
 			return false
-		case kind.Comment, kind.Comma, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
+		case kind.Comment, kind.Comma, kind.Tab, kind.NewLine, kind.Space:
 			return true
 		default:
 			jumpTo = r.handleParenthesisParam(n, r.isReceiver, named, hooks...)
@@ -142,7 +146,15 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, name
 			jumpTo = squareBracketResetter{}.Run(n, hooks...)
 			skipAll = jumpTo == nil
 			return true
-		case kind.Comment, kind.ParenthesisLeft, kind.Tab, kind.NewLine, kind.Space:
+		case kind.ParenthesisLeft: // results of a func or a type in parenthesis
+			jumpTo = parenthesisResetter{}.Run(n, hooks...).Next()
+			skipAll = jumpTo == nil
+			return true
+		case kind.CurlyBracketLeft: // fields of a struct or methods of an interface
+			jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...)
+			skipAll = jumpTo == nil
+			return true
+		case kind.Comment, kind.Tab, kind.NewLine, kind.Space:
 			return true
 		case kind.Func:
 			jumpTo = funcResetter{isParameter: true}.Run(n, hooks...)
-- 
2.43.0


From 05db3f31107106365ca6ef9da99a7a51071da1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 24/39] fix: do not take the result of a func type as a func
 name

---
 kind_resetter_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index d32e440..c5ef147 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -123,7 +123,7 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 		skipAll bool
 		jumpTo  *Node
 
-		isFuncNameAssigned bool
+		isFuncNameAssigned = head.Kind() == kind.Func // a func type has no name
 		isFuncParamHandled bool
 		isReturnKind       charset.Set[kind.Kind]
 	)
-- 
2.43.0


From 2cdb670c900ec3158c0c2bc943878c005b961612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 25/39] fix: read the results of func fields

---
 kind_resetter_type.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index fc51dd6..5d26f43 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -263,6 +263,10 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			})
 			skipAll = jumpTo == nil
 			return true
+		case kind.ParenthesisLeft: // results of a func or a type in parenthesis
+			jumpTo = parenthesisResetter{}.Run(n, hooks...).Next()
+			skipAll = jumpTo == nil
+			return true
 		default:
 			// jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)
 			// skipAll = jumpTo == nil
-- 
2.43.0


From 6f82c8d546ec2bc5272b55e6e73d717f3ff76bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 26/39] fix: let the trie follow every byte of a text, not the
 first of each rune

---
 trie.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trie.go b/trie.go
index 32458f1..0c67e22 100755
--- a/trie.go
+++ b/trie.go
@@ -23,7 +23,7 @@ func (t *trie_[T]) AddText(s string, value T) *trie_[T] {
 
 	var zero T
 	n := t
-	for i := range s {
+	for i := 0; i < len(s); i++ {
 		next, ok := n.Next(s[i])
 		if !ok {
 			next = n.Insert(s[i], zero)
@@ -59,7 +59,7 @@ func (t *trie_[T]) FindText(s string) (T, bool) {
 
 	n := t
 	ok := false
-	for i := range s {
+	for i := 0; i < len(s); i++ {
 		n, ok = n.Next(s[i])
 		if !ok {
 			return n.Value(), false
-- 
2.43.0


From a540b64e64d22d6b850737a7dffd22830f187786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 27/39] fix: let HasPrefix compare every byte, not the first of
 each rune

---
 helper/helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helper/helper.go b/helper/helper.go
index a1cda9a..054dc42 100755
--- a/helper/helper.go
+++ b/helper/helper.go
@@ -109,7 +109,7 @@ func HasPrefix(s []byte, prefix string) bool {
 		return false
 	}
 
-	for i := range prefix {
+	for i := 0; i < len(prefix); i++ {
 		if s[i] != prefix[i] {
 			return false
 		}
-- 
2.43.0


From fc0c3648ceea42f27534777a20ddd57d3330ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 28/39] fix: label an embedded field with a tag or a comment,
 or on the line of its braces, as a type

---
 kind_resetter_type.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 5d26f43..9990149 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -286,8 +286,8 @@ func (r structResetter) getRowNameCount(head *Node) int {
 
 	_ = head.IterNext(func(n *Node) bool {
 		switch n.Kind() {
-		case kind.NewLine: // return kind
-			if hasSpaceOrAfterRaw {
+		case kind.NewLine, kind.CurlyBracketRight, kind.String: // return kind
+			if rawCount > 1 { // one word alone is an embedded field
 				nameCount = cacheNameCount
 			}
 			return false
-- 
2.43.0


From 1f9f2a5a146b0dd69e813fcaef14468add085fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 29/39] fix: do not take the closing brace of a one-line
 interface for a result

---
 kind_resetter_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index c5ef147..c33e0c5 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -259,7 +259,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		switch n.Kind() {
-		case kind.NewLine, kind.Space, kind.CurlyBracketLeft: // return kind
+		case kind.NewLine, kind.Space, kind.CurlyBracketLeft, kind.CurlyBracketRight: // return kind
 			return false
 		case kind.Comment:
 			return true
-- 
2.43.0


From ba4c17e4b7591c495900179243c7d73a2366702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 30/39] fix: tell type arguments after a comment from an array
 type

---
 kind_resetter_parenthesis.go | 20 +++++++++++++++++++-
 kind_resetter_type.go        |  2 +-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index cf0de03..08f35bf 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -92,7 +92,7 @@ func (r parenthesisResetter) isNamed(head *Node) bool {
 			case count == 1:
 				isName = kind.New(n.Text()) == kind.Raw && !strings.ContainsAny(n.Text(), "*.<")
 			case count == 2: // type arguments follow directly
-				named = isName && (n.Kind() != kind.SquareBracketLeft || n.Prev().Kind() == kind.Space)
+				named = isName && !isTypeArguments(n)
 			}
 		}
 
@@ -107,6 +107,24 @@ func (r parenthesisResetter) isNamed(head *Node) bool {
 	return named
 }
 
+// isTypeArguments starts with '[', it reports whether the brackets end their param or field
+func isTypeArguments(head *Node) bool {
+	if head.Kind() != kind.SquareBracketLeft {
+		return false
+	}
+
+	next := head.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next().IterNext(func(n *Node) bool {
+		return n.Kind() == kind.Space || n.Kind() == kind.Tab || n.Kind() == kind.Comment
+	})
+
+	switch next.Kind() {
+	case kind.Comma, kind.NewLine, kind.String, kind.ParenthesisRight, kind.CurlyBracketRight:
+		return true
+	default:
+		return false
+	}
+}
+
 // handleParenthesisParam starts with next of '(' and ',', ends with ',' and ')'
 func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, named bool, hooks ...func(*Node)) *Node {
 	helper.DebugPrint("parenthesisResetter.handleParenthesisParam", "\t\t....", head.debugText(5))
diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 9990149..6ea0397 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -313,7 +313,7 @@ func (r structResetter) getRowNameCount(head *Node) int {
 			nameCount = cacheNameCount
 			return true
 		default:
-			if hasSpaceOrAfterRaw {
+			if rawCount > 1 || (hasSpaceOrAfterRaw && !isTypeArguments(n)) {
 				nameCount = cacheNameCount
 			}
 			return false
-- 
2.43.0


From 07623ec77ce9c3009a7be7309aa71efdb3358b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 31/39] fix: find the declared type after a comment before the
 type parameters

---
 scope.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/scope.go b/scope.go
index 67b5393..c913f30 100755
--- a/scope.go
+++ b/scope.go
@@ -281,20 +281,42 @@ func (d *scopeStruct) declaredKind() kind.Kind {
 		return n.Kind() != kind.TypeName
 	}).Next()
 
-	if n.Kind() == kind.SquareBracketLeft { // type parameters
-		n = n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next()
+	brackets := n.IterNext(isBlankNode)
+	if brackets.Kind() == kind.SquareBracketLeft && (brackets == n || isTypeParameters(brackets)) {
+		n = brackets.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next()
 	}
 
 	return n.IterNext(func(n *Node) bool {
-		switch n.Kind() {
-		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
-			return true
-		default:
-			return n.Text() == "=" // alias
-		}
+		return isBlankNode(n) || n.Text() == "=" // alias
 	}).Kind()
 }
 
+// isTypeParameters starts with '[', it reports whether a name and its constraint or a second name follow.
+func isTypeParameters(head *Node) bool {
+	name := head.Next().IterNext(isBlankNode)
+	if kind.New(name.Text()) != kind.Raw && kind.New(name.Text()) != kind.Basic {
+		return false
+	}
+
+	switch n := name.Next().IterNext(isBlankNode); n.Kind() {
+	case kind.SquareBracketRight, kind.ParenthesisLeft:
+		return false
+	case kind.Symbol: // an operator makes it a length
+		return n.Text() == "~"
+	default:
+		return n != nil
+	}
+}
+
+func isBlankNode(n *Node) bool {
+	switch n.Kind() {
+	case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
+		return true
+	default:
+		return false
+	}
+}
+
 func (d *scopeStruct) GetMethodName() (string, bool) {
 	if d.Kind() != scope.Func {
 		return "", false
-- 
2.43.0


From 20d2bee3eb7de1ba73cf40f34520f7b527e38668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 32/39] fix: take a tab before a result for a blank, not for a
 part of its type

---
 kind_resetter_func.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index c33e0c5..4425856 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -172,7 +172,7 @@ func (r funcResetter) handleGeneralFunc(head *Node, returnKinds []kind.Kind, hoo
 				isFuncNameAssigned = true
 			}
 			return true
-		case kind.Space:
+		case kind.Space, kind.Tab:
 			if isFuncNameAssigned && isFuncParamHandled {
 				jumpTo = r.handleSingleReturnType(n, hooks...)
 				skipAll = jumpTo == nil
@@ -235,12 +235,14 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	helper.DebugPrint("funcResetter.handleSingleReturnType", "\t\t....", head.debugText(5))
 	defer helper.DebugPrint("funcResetter.handleSingleReturnType.Returned")
 
-	if head.Kind() != kind.Space {
+	if head.Kind() != kind.Space && head.Kind() != kind.Tab {
 		handleHook(head, hooks...)
 		return head.Next()
 	}
 
-	head = head.Next() // skip first space
+	for head.Kind() == kind.Space || head.Kind() == kind.Tab { // skip first spaces
+		head = head.Next()
+	}
 
 	found := head.findNext([]kind.Kind{kind.Comment}, findNodeOption{TargetReverse: true}, hooks...)
 	switch found.Kind() {
@@ -259,7 +261,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		switch n.Kind() {
-		case kind.NewLine, kind.Space, kind.CurlyBracketLeft, kind.CurlyBracketRight: // return kind
+		case kind.NewLine, kind.Space, kind.Tab, kind.CurlyBracketLeft, kind.CurlyBracketRight: // return kind
 			return false
 		case kind.Comment:
 			return true
-- 
2.43.0


From 04c3f71418d478f77fbd9311cf4efccb9facc1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 33/39] fix: end a struct inside a struct at its own brace,
 however it is indented

---
 kind_resetter_type.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 6ea0397..3a71708 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -1,6 +1,8 @@
 package goast
 
 import (
+	"strings"
+
 	"github.com/yanun0323/goast/helper"
 	"github.com/yanun0323/goast/kind"
 )
@@ -223,6 +225,7 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 		skipAll bool
 		jumpTo  *Node
 
+		isInterface    bool // the last type literal of the row
 		paramNameCount = r.getRowNameCount(head)
 	)
 
@@ -240,9 +243,20 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 		}
 
 		switch n.Kind() {
-		case kind.NewLine: // return kind
+		case kind.NewLine, kind.CurlyBracketRight: // return kind
 			return false
-		case kind.Comment, kind.NewLine, kind.Tab, kind.Space, kind.Comma:
+		case kind.Comment, kind.Tab, kind.Space, kind.Comma:
+			return true
+		case kind.CurlyBracketLeft: // fields of a struct or methods of an interface
+			if isInterface {
+				jumpTo = curlyBracketResetter{skip: true}.Run(n, hooks...).Next()
+			} else {
+				jumpTo = structResetter{}.Run(n, hooks...).Next()
+			}
+			skipAll = jumpTo == nil
+			return true
+		case kind.Struct, kind.Interface:
+			isInterface = n.Kind() == kind.Interface
 			return true
 		case kind.Raw:
 			if paramNameCount != 0 {
@@ -252,6 +266,7 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			}
 
 			n.SetKind(kind.ParamType)
+			isInterface = strings.HasSuffix(n.Text(), "*interface")
 			// jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)
 			// skipAll = jumpTo == nil
 			return true
-- 
2.43.0


From 8a796a8623be978af33d5e24f980219b1c2e6f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 34/39] fix: label parameters and receivers that are named like
 a basic type

---
 kind_resetter_parenthesis.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 08f35bf..7df23fb 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -90,7 +90,8 @@ func (r parenthesisResetter) isNamed(head *Node) bool {
 			count++
 			switch {
 			case count == 1:
-				isName = kind.New(n.Text()) == kind.Raw && !strings.ContainsAny(n.Text(), "*.<")
+				k := kind.New(n.Text())
+				isName = (k == kind.Raw || k == kind.Basic) && !strings.ContainsAny(n.Text(), "*.<")
 			case count == 2: // type arguments follow directly
 				named = isName && !isTypeArguments(n)
 			}
@@ -186,6 +187,14 @@ func (r parenthesisResetter) handleParenthesisParam(head *Node, isReceiver, name
 			}
 			n.SetKind(typeKind)
 			return true
+		case kind.Basic: // name equal to the name of a basic type
+			if named && !nameAssigned {
+				n.SetKind(nameKind)
+				nameAssigned = true
+			} else if isReceiver {
+				n.SetKind(typeKind)
+			}
+			return true
 		default:
 			return true
 		}
-- 
2.43.0


From b1d821f7e51ac85c2fc04cbd45408804c103da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:55 +0000
Subject: [PATCH 35/39] fix: label struct fields that are named like a basic
 type

---
 kind_resetter_type.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 3a71708..5634ce1 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -270,6 +270,12 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 			// jumpTo = paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)
 			// skipAll = jumpTo == nil
 			return true
+		case kind.Basic: // name equal to the name of a basic type
+			if paramNameCount != 0 {
+				paramNameCount--
+				n.SetKind(kind.ParamName)
+			}
+			return true
 		case kind.Func:
 			jumpTo = funcResetter{isParameter: true}.Run(n, func(n *Node) {
 				if n.Kind() == kind.Raw {
@@ -308,7 +314,7 @@ func (r structResetter) getRowNameCount(head *Node) int {
 			return false
 		case kind.Comment, kind.Tab:
 			return true
-		case kind.Raw:
+		case kind.Raw, kind.Basic:
 			rawCount++
 			return true
 		case kind.Space:
-- 
2.43.0


From d4a549fd75ea87baef3fdc4c4a9c5421475d9ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:41 +0000
Subject: [PATCH 36/39] fix: copy a chain of nodes without recursion, so that
 its length is not bounded by the stack

---
 node.go | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/node.go b/node.go
index 0d9fb89..00c6005 100755
--- a/node.go
+++ b/node.go
@@ -61,7 +61,7 @@ func (n *Node) Copy(copyRelativeNode ...bool) *Node {
 	}
 
 	if len(copyRelativeNode) != 0 && copyRelativeNode[0] {
-		return n.deepCopy(nil, nil)
+		return n.deepCopy()
 	}
 
 	return &Node{
@@ -71,29 +71,26 @@ func (n *Node) Copy(copyRelativeNode ...bool) *Node {
 	}
 }
 
-func (n *Node) deepCopy(prev, next *Node) *Node {
-	if n == nil {
-		return nil
-	}
+func (n *Node) deepCopy() *Node {
+	result := n.Copy()
 
-	nn := &Node{
-		line: n.line,
-		kind: n.kind,
-		text: n.text,
-	}
-
-	if prev == nil {
-		prev = n.Prev().deepCopy(nil, nn)
-	}
-
-	if next == nil {
-		next = n.Next().deepCopy(nn, nil)
-	}
+	cur := result
+	n.Prev().IterPrev(func(n *Node) bool {
+		nn := n.Copy()
+		cur.prev, nn.next = nn, cur
+		cur = nn
+		return true
+	})
 
-	nn.prev = prev
-	nn.next = next
+	cur = result
+	n.Next().IterNext(func(n *Node) bool {
+		nn := n.Copy()
+		cur.next, nn.prev = nn, cur
+		cur = nn
+		return true
+	})
 
-	return nn
+	return result
 }
 
 func (n *Node) loop(iter func(*Node) *Node, fn func(*Node) bool) *Node {
-- 
2.43.0


From 6cde07850b276cc15557d74f277a58cbbaad985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:29 +0000
Subject: [PATCH 37/39] fix: label elements of an interface that hold
 parentheses as types, not as methods

---
 kind_resetter_type.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 5634ce1..ee84ae6 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -152,20 +152,13 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	})
 }
 
+// isThisLineFunction reports whether head is a name which parameters follow
 func (interfaceResetter) isThisLineFunction(head *Node) bool {
-	result := false
-	_ = head.IterNext(func(n *Node) bool {
-		switch n.Kind() {
-		case kind.ParenthesisLeft:
-			result = true
-			return false
-		case kind.NewLine:
-			return false
-		default:
-			return true
-		}
-	})
-	return result
+	if head.Kind() != kind.Raw && head.Kind() != kind.Basic {
+		return false
+	}
+
+	return head.Next().findNext([]kind.Kind{kind.Space, kind.Tab, kind.Comment}, findNodeOption{TargetReverse: true}).Kind() == kind.ParenthesisLeft
 }
 
 // structResetter starts with 'struct'
-- 
2.43.0


From 0a85549ef46d5faf9534a64ff1bc1ec3f6f29835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:30 +0000
Subject: [PATCH 38/39] fix: label what follows an element with braces in an
 interface

---
 kind_resetter_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index ee84ae6..584ffbe 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -141,7 +141,7 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 				n.SetKind(kind.TypeName)
 			}
 
-			jumpTo = n.findNext([]kind.Kind{kind.NewLine, kind.CurlyBracketRight}, findNodeOption{
+			jumpTo = n.findNext([]kind.Kind{kind.NewLine}, findNodeOption{
 				IsOutsideParenthesis:   true,
 				IsOutsideCurlyBracket:  true,
 				IsOutsideSquareBracket: true,
-- 
2.43.0


From 9b03e797749efdff926af3ab2cea0333ce598a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:32 +0000
Subject: [PATCH 39/39] fix: end fields, methods and results at a semicolon

---
 kind_resetter_func.go        |  6 +++---
 kind_resetter_parenthesis.go |  2 +-
 kind_resetter_type.go        | 10 +++++-----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/kind_resetter_func.go b/kind_resetter_func.go
index 4425856..106da92 100755
--- a/kind_resetter_func.go
+++ b/kind_resetter_func.go
@@ -39,7 +39,7 @@ func (r funcResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 	}
 
 	if r.isInterfaceDefinition {
-		return r.handleGeneralFunc(head, []kind.Kind{kind.NewLine}, hooks...)
+		return r.handleGeneralFunc(head, []kind.Kind{kind.NewLine, kind.Semicolon}, hooks...)
 	}
 
 	if r.isTemporaryFunc(head) {
@@ -222,7 +222,7 @@ func (r funcResetter) handleParameterFunc(head *Node, hooks ...func(*Node)) *Nod
 	helper.DebugPrint("funcResetter.handleParameterFunc", "\t\t....", head.debugText(5))
 	defer helper.DebugPrint("funcResetter.handleParameterFunc.Returned")
 
-	n := r.handleGeneralFunc(head, []kind.Kind{kind.Comma, kind.ParenthesisRight, kind.NewLine}, hooks...)
+	n := r.handleGeneralFunc(head, []kind.Kind{kind.Comma, kind.ParenthesisRight, kind.NewLine, kind.Semicolon}, hooks...)
 	if n.Kind() == kind.ParenthesisRight {
 		handleHook(n, hooks...)
 		return n.Next()
@@ -261,7 +261,7 @@ func (r funcResetter) handleSingleReturnType(head *Node, hooks ...func(*Node)) *
 	return head.IterNext(func(n *Node) bool {
 		handleHook(n, hooks...)
 		switch n.Kind() {
-		case kind.NewLine, kind.Space, kind.Tab, kind.CurlyBracketLeft, kind.CurlyBracketRight: // return kind
+		case kind.NewLine, kind.Semicolon, kind.Space, kind.Tab, kind.CurlyBracketLeft, kind.CurlyBracketRight: // return kind
 			return false
 		case kind.Comment:
 			return true
diff --git a/kind_resetter_parenthesis.go b/kind_resetter_parenthesis.go
index 7df23fb..34a2604 100755
--- a/kind_resetter_parenthesis.go
+++ b/kind_resetter_parenthesis.go
@@ -119,7 +119,7 @@ func isTypeArguments(head *Node) bool {
 	})
 
 	switch next.Kind() {
-	case kind.Comma, kind.NewLine, kind.String, kind.ParenthesisRight, kind.CurlyBracketRight:
+	case kind.Comma, kind.NewLine, kind.Semicolon, kind.String, kind.ParenthesisRight, kind.CurlyBracketRight:
 		return true
 	default:
 		return false
diff --git a/kind_resetter_type.go b/kind_resetter_type.go
index 584ffbe..1c1fddd 100755
--- a/kind_resetter_type.go
+++ b/kind_resetter_type.go
@@ -126,7 +126,7 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		switch n.Kind() {
 		case kind.CurlyBracketRight: // return kind
 			return false
-		case kind.Tab, kind.Comment, kind.NewLine, kind.Space, kind.CurlyBracketLeft:
+		case kind.Tab, kind.Comment, kind.NewLine, kind.Semicolon, kind.Space, kind.CurlyBracketLeft:
 			return true
 		default:
 			if r.isThisLineFunction(n) {
@@ -141,7 +141,7 @@ func (r interfaceResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 				n.SetKind(kind.TypeName)
 			}
 
-			jumpTo = n.findNext([]kind.Kind{kind.NewLine}, findNodeOption{
+			jumpTo = n.findNext([]kind.Kind{kind.NewLine, kind.Semicolon}, findNodeOption{
 				IsOutsideParenthesis:   true,
 				IsOutsideCurlyBracket:  true,
 				IsOutsideSquareBracket: true,
@@ -193,7 +193,7 @@ func (r structResetter) Run(head *Node, hooks ...func(*Node)) *Node {
 		switch n.Kind() {
 		case kind.CurlyBracketRight: // return kind
 			return false
-		case kind.Comment, kind.CurlyBracketLeft, kind.NewLine:
+		case kind.Comment, kind.CurlyBracketLeft, kind.NewLine, kind.Semicolon:
 			return true
 		default:
 			jumpTo = r.handleStructRow(n, hooks...)
@@ -236,7 +236,7 @@ func (r structResetter) handleStructRow(head *Node, hooks ...func(*Node)) *Node
 		}
 
 		switch n.Kind() {
-		case kind.NewLine, kind.CurlyBracketRight: // return kind
+		case kind.NewLine, kind.Semicolon, kind.CurlyBracketRight: // return kind
 			return false
 		case kind.Comment, kind.Tab, kind.Space, kind.Comma:
 			return true
@@ -300,7 +300,7 @@ func (r structResetter) getRowNameCount(head *Node) int {
 
 	_ = head.IterNext(func(n *Node) bool {
 		switch n.Kind() {
-		case kind.NewLine, kind.CurlyBracketRight, kind.String: // return kind
+		case kind.NewLine, kind.Semicolon, kind.CurlyBracketRight, kind.String: // return kind
 			if rawCount > 1 { // one word alone is an embedded field
 				nameCount = cacheNameCount
 			}
-- 
2.43.0

