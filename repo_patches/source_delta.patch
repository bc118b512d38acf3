From 77fee5e3e3557b5529f0ccac587ae847ddfbe0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 1/7] fix: tell a NUL byte in the input from the end of input

---
 pkg/parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f462f08..4e0ee6e 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -214,6 +214,10 @@ func (s *ll1parserScanner) next() {
 	s.offset++
 }
 
+func (s *ll1parserScanner) atEnd() bool {
+	return s.offset >= len(s.src)
+}
+
 func (s *ll1parserScanner) aPos() int {
 	return s.offset
 }
@@ -350,7 +354,7 @@ func (p *realParser) processFunction(f function_t) {
 }
 
 func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
-	if p.scanner.peek() != byte(0) {
+	if !p.scanner.atEnd() {
 		// fmt.Println("expected end of input got: ", in.Peek())
 		// Parsing error Unexpected EOF
 		return nil, nil, fmt.Errorf("expected end of input got %s",
@@ -372,7 +376,7 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 }
 
 func (p *realParser) processChar(c opChar_t) error {
-	if c.Value() != p.scanner.peek() {
+	if p.scanner.atEnd() || c.Value() != p.scanner.peek() {
 		// Parsing error
 		return fmt.Errorf("expected char %s, got %s",
 		                  charCode(c.Value()),
-- 
2.43.0


From dd6b7cf2d5b309e3e53bf073be19473f4f245113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 2/7] fix: return an own copy of the names map from every parse

---
 pkg/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 4e0ee6e..84f5c57 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -368,7 +368,11 @@ func (p *realParser) processEOS() (cst.Node, *map[int]string, error) {
 		return nil, nil, fmt.Errorf("prod stack empty")
 	}
 
-	ret_names := p.names
+	// own copy: p.names belongs to the caller and is shared between parses
+	ret_names := make(map[int]string, len(p.names) + 2)
+	for nodeType, name := range p.names {
+		ret_names[nodeType] = name
+	}
 	ret_names[builtinTerminal] = "_literal"
 	ret_names[builtinNothing]  = "_nothing"
 
-- 
2.43.0


From 2122fbd34ec978d4a6b1276bf9e938d591ea3fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 3/7] fix: refuse every grammar with two productions for one
 table cell

---
 pkg/bnf/tablegen/tablegen.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 049b9ce..417ce7a 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -333,8 +333,7 @@ func (tg *tableGenerator,
 			seqFollows := tg.follows[ruleIndex]
 
 			for _, followTerm := range seqFollows.Bytes() {
-				if v, ok := res[byte(followTerm)]; ok {
-					fmt.Println(v)
+				if _, ok := res[byte(followTerm)]; ok {
 					return res,
 						fmt.Errorf("grammar lead to multiple parser op " +
 							"sets per table cell")
@@ -346,6 +345,11 @@ func (tg *tableGenerator,
 		}
 
 		for _, term := range seqFirsts.Bytes() {
+			if _, ok := res[byte(term)]; ok {
+				return res,
+					fmt.Errorf("grammar lead to multiple parser op " +
+						"sets per table cell")
+			}
 			for _, symbol := range sequence.Symbols {
 				switch v := symbol.(type) {
 				case bnf.SymbolTerminal:
-- 
2.43.0


From c15010363cd6f41abeab7c1666fbb5c82b1e7ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 4/7] fix: look past nullable symbols when collecting follows

---
 pkg/bnf/tablegen/tablegen.go | 35 ++++-------------------------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index 417ce7a..da4a351 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -143,34 +143,6 @@ func (tg *tableGenerator) findFirsts() error {
 	return nil
 }
 
-// symbolFirsts
-// Helper function to get firsts for symbol assuming
-// firsts sets already calculated
-func (tg *tableGenerator) symbolFirsts(symbol *bnf.Symbol) (bs.ByteSet, error) {
-	var ret bs.ByteSet
-	switch v := (*symbol).(type) {
-	case bnf.SymbolTerminal:
-		if len(v.Name) == 0 {
-			return ret, fmt.Errorf("terminal with empty string check grammar")
-		}
-		return terminalFirsts(v), nil
-
-	case bnf.SymbolNothing:
-		return bs.New(EOS), nil
-
-	case bnf.SymbolNonTerminal:
-		ruleIndex, ok := tg.ruleMap[v.Name]
-		if !ok {
-			return ret,
-				fmt.Errorf("no rules defined for non terminal <%s>", v.Name)
-		}
-		return tg.firsts[ruleIndex], nil
-
-	default:
-		return ret, fmt.Errorf("symbol of unknown type: %T", v)
-	}
-}
-
 func (tg *tableGenerator,
 ) ruleFollowsInSequence(
 	ruleIndex int,
@@ -229,14 +201,15 @@ func (tg *tableGenerator,
 		}
 
 		// rule 2
-		// get firsts for next symbol in sequance (can be itself)
-		nextFirsts, err := tg.symbolFirsts(&(*sequence).Symbols[i+1])
+		// get firsts for the rest of sequance (can start with itself)
+		nextFirsts, err := tg.sequenceFirsts(
+			&bnf.Sequence{Symbols: (*sequence).Symbols[i+1:]})
 		if err != nil {
 			return err
 		}
 
 		// rule 4
-		// if next symbol (q) 's firsts contain empty string (Є)
+		// if firsts of the rest (q) contain empty string (Є)
 		// add to target rule's follows it's firsts w/o empty
 		// and follow set for sequence's rule (A)
 		//
-- 
2.43.0


From a458669fad4bf19960542cb2a0c6b88108511678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 5/7] fix: refuse malformed grammars with an error

---
 pkg/bnf/tablegen/tablegen.go | 58 ++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/pkg/bnf/tablegen/tablegen.go b/pkg/bnf/tablegen/tablegen.go
index da4a351..579239a 100644
--- a/pkg/bnf/tablegen/tablegen.go
+++ b/pkg/bnf/tablegen/tablegen.go
@@ -387,10 +387,68 @@ func (tg *tableGenerator) Run() (table *map[int]map[byte][]parser.ParserOp,
 	return tg.makeTable()
 }
 
+// validate
+// Refuses grammars no table can be generated for
+func validate(g bnf.Grammar) error {
+	if len(g.Rules) == 0 {
+		return errors.New("grammar has no rules")
+	}
+
+	ruleMap := enumerate(collectRuleHeads(g))
+	for ruleIndex, rule := range g.Rules {
+		// enumerate keeps the last index of a repeated name
+		if ruleMap[rule.Head.Name] != ruleIndex {
+			return fmt.Errorf("multiple rules for <%s>", rule.Head.Name)
+		}
+
+		for _, sequence := range rule.Tail.Sequences {
+			if len(sequence.Symbols) == 0 {
+				return fmt.Errorf("empty sequence in <%s>", rule.Head.Name)
+			}
+
+			for _, symbol := range sequence.Symbols {
+				switch v := symbol.(type) {
+				case bnf.SymbolTerminal:
+					if len(v.Name) == 0 {
+						return fmt.Errorf("terminal with empty string in <%s>",
+							rule.Head.Name)
+					}
+					if v.Name[0] == EOS {
+						return fmt.Errorf("terminal starting with end of "+
+							"input mark in <%s>", rule.Head.Name)
+					}
+
+				case bnf.SymbolNothing:
+					if len(sequence.Symbols) > 1 {
+						return errors.New(
+							"empty string is not a single sequence symbol")
+					}
+
+				case bnf.SymbolNonTerminal:
+					if _, ok := ruleMap[v.Name]; !ok {
+						return fmt.Errorf(
+							"no rules defined for non terminal <%s>", v.Name)
+					}
+
+				default:
+					return fmt.Errorf("symbol of unknown type %T", v)
+				}
+			}
+		}
+	}
+
+	return nil
+}
+
 func FromGrammar(g bnf.Grammar) (table *map[int]map[byte][]parser.ParserOp,
 	rowNames *map[int]string,
 	err error) {
 
+	err = validate(g)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	ruleHeads := collectRuleHeads(g)
 
 	var tablegen tableGenerator
-- 
2.43.0


From 6434d9134b9ff758e01e87d3e2399db560bc4cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 6/7] fix: find escape sequences by the bindings, not by a
 fixed rule number

---
 pkg/bnf/fromcst/fromcst.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index bb03b31..2409c5a 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -13,7 +13,7 @@ import (
 
 type flexVisitor struct {
 	isTypeIgnored  func(int) bool
-	isSearchedType func(int) bool
+	isSearched     func(cst.Node) bool
 	fOnNode        func(cst.Node) error
 	err            *error
 }
@@ -27,7 +27,7 @@ func (v flexVisitor) Visit(node cst.Node) (w cst.Visitor) {
 		return nil
 	}
 
-	if v.isSearchedType(node.Type()) {
+	if v.isSearched(node) {
 		(*v.err) = v.fOnNode(node)
 		return nil
 	}
@@ -36,7 +36,7 @@ func (v flexVisitor) Visit(node cst.Node) (w cst.Visitor) {
 }
 
 // depth-first cst search
-// When meets isSearchedType(Node.type) == true executes fOnNode on node
+// When meets isSearched(Node) == true executes fOnNode on node
 // If fOnNode returned error immediately returns with fOnNode's error
 // Childs of node on which fOnNode executed are ignored
 // When Traverse complete returns nil
@@ -44,14 +44,14 @@ func (v flexVisitor) Visit(node cst.Node) (w cst.Visitor) {
 // This function used by all functions in chain from ToAST
 func lrTraverse(root cst.Node,
                 isTypeIgnored func(int) bool,
-                isSearchedType func(int) bool,
+                isSearched func(cst.Node) bool,
                 fOnNode func(cst.Node) error) error {
 
 	var err error = nil
 	var v flexVisitor
 	v.err = &err
 	v.isTypeIgnored = isTypeIgnored
-	v.isSearchedType = isSearchedType
+	v.isSearched = isSearched
 	v.fOnNode = fOnNode
 
 	cst.Walk(v, root)
@@ -113,11 +113,11 @@ func (b BNFCSTtoASTBindings) lrTraverse(root cst.Node,
 		return (sr < len(b.IgnoreNodeTypes) && b.IgnoreNodeTypes[sr] == nodeType)
 	}
 
-	isSearchedType := func(nodeType int) bool {
-		return nodeType == untilType
+	isSearched := func(node cst.Node) bool {
+		return node.Type() == untilType
 	}
 
-	return lrTraverse(root, isNodeIgnored, isSearchedType, f)
+	return lrTraverse(root, isNodeIgnored, isSearched, f)
 }
 
 func (b BNFCSTtoASTBindings) parseEscape(escSeq cst.Node, str string) ([]byte, error) {
@@ -161,10 +161,22 @@ func (b BNFCSTtoASTBindings) parseTerminalName(symbol cst.Node, str string) (str
 		return nil
 	}
 
+	// escape sequence: parent of escaped character
+	isEscape := func(node cst.Node) bool {
+		for _, child := range node.Childs() {
+			if child.Type() == b.EscapeCharacterType {
+				return true
+			}
+		}
+		return false
+	}
+
 	err := lrTraverse(
 		symbol,
 		func(int) bool { return false },
-		func(n int) bool { return n == 16 || n == parser.BuiltinTerminal },
+		func(node cst.Node) bool {
+			return isEscape(node) || node.Type() == parser.BuiltinTerminal
+		},
 		fOnNode)
 
 	return sb.String(), err
-- 
2.43.0


From a52f4a06bd35741ba4d60e4986d1f8ae5b86aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 7/7] fix: leave the order of IgnoreNodeTypes to the caller

---
 pkg/bnf/fromcst/fromcst.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bnf/fromcst/fromcst.go b/pkg/bnf/fromcst/fromcst.go
index 2409c5a..2cb79d4 100644
--- a/pkg/bnf/fromcst/fromcst.go
+++ b/pkg/bnf/fromcst/fromcst.go
@@ -313,6 +313,8 @@ func (b BNFCSTtoASTBindings) parseRule(rule cst.Node, str string) (*bnf.Rule, er
 
 func (b BNFCSTtoASTBindings) ToAST(root cst.Node, str string) (*bnf.Grammar, error) {
 
+	// sort own copy: the slice belongs to the caller
+	b.IgnoreNodeTypes = append([]int{}, b.IgnoreNodeTypes...)
 	sort.Sort(sort.IntSlice(b.IgnoreNodeTypes))
 
 	var res bnf.Grammar
-- 
2.43.0

