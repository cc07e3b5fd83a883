From 17ecca769c81925531540d10df716f4565d905a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 01/34] fix: keep indentation handling of nested preformatted
 blocks independent

---
 ast/booklit.peg    |  40 ++--
 ast/booklit.peg.go | 468 +++++++++++++++++++++++----------------------
 2 files changed, 258 insertions(+), 250 deletions(-)

diff --git a/ast/booklit.peg b/ast/booklit.peg
index dc0c4dc..5fa8a36 100644
--- a/ast/booklit.peg
+++ b/ast/booklit.peg
@@ -29,6 +29,25 @@
 
     return nodes
   }
+
+  // dedent drops the indentation of the block's first line from every line.
+  func dedent(lines []Sequence) Preformatted {
+    skip := 0
+    for i, line := range lines {
+      indent := line[0].(String)
+      if i == 0 {
+        skip = len(indent)
+      }
+
+      if skip <= len(indent) {
+        line[0] = indent[skip:]
+      } else {
+        line[0] = String("")
+      }
+    }
+
+    return Preformatted(lines)
+  }
 }
 
 Booklit <- node:Paragraphs !. {
@@ -87,8 +106,7 @@ PreformattedBlockLine <- indent:Indent words:Word* LineBreak {
 }
 
 PreformattedBlock <- LineBreak lines:PreformattedBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
-  return Preformatted(ifaceSequences(lines)), nil
+  return dedent(ifaceSequences(lines)), nil
 }
 
 VerbatimLine <- words:VerbatimString* {
@@ -102,8 +120,7 @@ VerbatimBlockLine <- indent:Indent words:VerbatimString* LineBreak {
 }
 
 VerbatimBlock <- LineBreak lines:VerbatimBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
-  return Preformatted(ifaceSequences(lines)), nil
+  return dedent(ifaceSequences(lines)), nil
 }
 
 Invoke <- '\\' name:([a-z-]+) args:(Argument*) {
@@ -144,18 +161,5 @@ ParaArg <- paras:Paragraphs [ \t]* {
 Argument <- VerbatimArg / PreformattedArg / Arg
 
 Indent <- [ \t]* {
-  skip := len(c.text)
-
-  i, found := c.globalStore["indent-skip"]
-  if found {
-    skip = i.(int)
-  } else {
-    c.globalStore["indent-skip"] = skip
-  }
-
-  if skip <= len(c.text) {
-    return string(c.text[skip:]), nil
-  } else {
-    return "", nil
-  }
+  return string(c.text), nil
 }
diff --git a/ast/booklit.peg.go b/ast/booklit.peg.go
index d2bd5be..6e1a90e 100644
--- a/ast/booklit.peg.go
+++ b/ast/booklit.peg.go
@@ -45,29 +45,48 @@ func ifaceNodes(val interface{}) []Node {
 	return nodes
 }
 
+// dedent drops the indentation of the block's first line from every line.
+func dedent(lines []Sequence) Preformatted {
+	skip := 0
+	for i, line := range lines {
+		indent := line[0].(String)
+		if i == 0 {
+			skip = len(indent)
+		}
+
+		if skip <= len(indent) {
+			line[0] = indent[skip:]
+		} else {
+			line[0] = String("")
+		}
+	}
+
+	return Preformatted(lines)
+}
+
 var g = &grammar{
 	rules: []*rule{
 		{
 			name: "Booklit",
-			pos:  position{line: 34, col: 1, offset: 581},
+			pos:  position{line: 53, col: 1, offset: 997},
 			expr: &actionExpr{
-				pos: position{line: 34, col: 12, offset: 592},
+				pos: position{line: 53, col: 12, offset: 1008},
 				run: (*parser).callonBooklit1,
 				expr: &seqExpr{
-					pos: position{line: 34, col: 12, offset: 592},
+					pos: position{line: 53, col: 12, offset: 1008},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 34, col: 12, offset: 592},
+							pos:   position{line: 53, col: 12, offset: 1008},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 34, col: 17, offset: 597},
+								pos:  position{line: 53, col: 17, offset: 1013},
 								name: "Paragraphs",
 							},
 						},
 						&notExpr{
-							pos: position{line: 34, col: 28, offset: 608},
+							pos: position{line: 53, col: 28, offset: 1024},
 							expr: &anyMatcher{
-								line: 34, col: 29, offset: 609,
+								line: 53, col: 29, offset: 1025,
 							},
 						},
 					},
@@ -76,43 +95,43 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraphs",
-			pos:  position{line: 38, col: 1, offset: 635},
+			pos:  position{line: 57, col: 1, offset: 1051},
 			expr: &actionExpr{
-				pos: position{line: 38, col: 15, offset: 649},
+				pos: position{line: 57, col: 15, offset: 1065},
 				run: (*parser).callonParagraphs1,
 				expr: &seqExpr{
-					pos: position{line: 38, col: 15, offset: 649},
+					pos: position{line: 57, col: 15, offset: 1065},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 38, col: 15, offset: 649},
+							pos: position{line: 57, col: 15, offset: 1065},
 							expr: &ruleRefExpr{
-								pos:  position{line: 38, col: 15, offset: 649},
+								pos:  position{line: 57, col: 15, offset: 1065},
 								name: "CommentSpacing",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 38, col: 31, offset: 665},
+							pos:   position{line: 57, col: 31, offset: 1081},
 							label: "paragraphs",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 38, col: 42, offset: 676},
+								pos: position{line: 57, col: 42, offset: 1092},
 								expr: &actionExpr{
-									pos: position{line: 38, col: 43, offset: 677},
+									pos: position{line: 57, col: 43, offset: 1093},
 									run: (*parser).callonParagraphs7,
 									expr: &seqExpr{
-										pos: position{line: 38, col: 43, offset: 677},
+										pos: position{line: 57, col: 43, offset: 1093},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 38, col: 43, offset: 677},
+												pos:   position{line: 57, col: 43, offset: 1093},
 												label: "p",
 												expr: &ruleRefExpr{
-													pos:  position{line: 38, col: 45, offset: 679},
+													pos:  position{line: 57, col: 45, offset: 1095},
 													name: "Paragraph",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 38, col: 55, offset: 689},
+												pos: position{line: 57, col: 55, offset: 1105},
 												expr: &ruleRefExpr{
-													pos:  position{line: 38, col: 55, offset: 689},
+													pos:  position{line: 57, col: 55, offset: 1105},
 													name: "CommentSpacing",
 												},
 											},
@@ -127,18 +146,18 @@ var g = &grammar{
 		},
 		{
 			name: "LineBreak",
-			pos:  position{line: 42, col: 1, offset: 777},
+			pos:  position{line: 61, col: 1, offset: 1193},
 			expr: &choiceExpr{
-				pos: position{line: 42, col: 14, offset: 790},
+				pos: position{line: 61, col: 14, offset: 1206},
 				alternatives: []interface{}{
 					&litMatcher{
-						pos:        position{line: 42, col: 14, offset: 790},
+						pos:        position{line: 61, col: 14, offset: 1206},
 						val:        "\n",
 						ignoreCase: false,
 						want:       "\"\\n\"",
 					},
 					&litMatcher{
-						pos:        position{line: 42, col: 21, offset: 797},
+						pos:        position{line: 61, col: 21, offset: 1213},
 						val:        "\r\n",
 						ignoreCase: false,
 						want:       "\"\\r\\n\"",
@@ -148,16 +167,16 @@ var g = &grammar{
 		},
 		{
 			name: "CommentSpacing",
-			pos:  position{line: 44, col: 1, offset: 805},
+			pos:  position{line: 63, col: 1, offset: 1221},
 			expr: &choiceExpr{
-				pos: position{line: 44, col: 19, offset: 823},
+				pos: position{line: 63, col: 19, offset: 1239},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 44, col: 19, offset: 823},
+						pos:  position{line: 63, col: 19, offset: 1239},
 						name: "LineBreak",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 44, col: 31, offset: 835},
+						pos:  position{line: 63, col: 31, offset: 1251},
 						name: "Comment",
 					},
 				},
@@ -165,33 +184,33 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 46, col: 1, offset: 844},
+			pos:  position{line: 65, col: 1, offset: 1260},
 			expr: &actionExpr{
-				pos: position{line: 46, col: 14, offset: 857},
+				pos: position{line: 65, col: 14, offset: 1273},
 				run: (*parser).callonParagraph1,
 				expr: &labeledExpr{
-					pos:   position{line: 46, col: 14, offset: 857},
+					pos:   position{line: 65, col: 14, offset: 1273},
 					label: "lines",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 46, col: 20, offset: 863},
+						pos: position{line: 65, col: 20, offset: 1279},
 						expr: &actionExpr{
-							pos: position{line: 46, col: 21, offset: 864},
+							pos: position{line: 65, col: 21, offset: 1280},
 							run: (*parser).callonParagraph4,
 							expr: &seqExpr{
-								pos: position{line: 46, col: 21, offset: 864},
+								pos: position{line: 65, col: 21, offset: 1280},
 								exprs: []interface{}{
 									&labeledExpr{
-										pos:   position{line: 46, col: 21, offset: 864},
+										pos:   position{line: 65, col: 21, offset: 1280},
 										label: "l",
 										expr: &ruleRefExpr{
-											pos:  position{line: 46, col: 23, offset: 866},
+											pos:  position{line: 65, col: 23, offset: 1282},
 											name: "Line",
 										},
 									},
 									&zeroOrOneExpr{
-										pos: position{line: 46, col: 28, offset: 871},
+										pos: position{line: 65, col: 28, offset: 1287},
 										expr: &ruleRefExpr{
-											pos:  position{line: 46, col: 28, offset: 871},
+											pos:  position{line: 65, col: 28, offset: 1287},
 											name: "LineBreak",
 										},
 									},
@@ -204,17 +223,17 @@ var g = &grammar{
 		},
 		{
 			name: "Line",
-			pos:  position{line: 50, col: 1, offset: 954},
+			pos:  position{line: 69, col: 1, offset: 1370},
 			expr: &actionExpr{
-				pos: position{line: 50, col: 9, offset: 962},
+				pos: position{line: 69, col: 9, offset: 1378},
 				run: (*parser).callonLine1,
 				expr: &seqExpr{
-					pos: position{line: 50, col: 9, offset: 962},
+					pos: position{line: 69, col: 9, offset: 1378},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 50, col: 9, offset: 962},
+							pos: position{line: 69, col: 9, offset: 1378},
 							expr: &charClassMatcher{
-								pos:        position{line: 50, col: 9, offset: 962},
+								pos:        position{line: 69, col: 9, offset: 1378},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -222,12 +241,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 50, col: 16, offset: 969},
+							pos:   position{line: 69, col: 16, offset: 1385},
 							label: "words",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 50, col: 22, offset: 975},
+								pos: position{line: 69, col: 22, offset: 1391},
 								expr: &ruleRefExpr{
-									pos:  position{line: 50, col: 23, offset: 976},
+									pos:  position{line: 69, col: 23, offset: 1392},
 									name: "Word",
 								},
 							},
@@ -238,45 +257,45 @@ var g = &grammar{
 		},
 		{
 			name: "Word",
-			pos:  position{line: 54, col: 1, offset: 1030},
+			pos:  position{line: 73, col: 1, offset: 1446},
 			expr: &actionExpr{
-				pos: position{line: 54, col: 9, offset: 1038},
+				pos: position{line: 73, col: 9, offset: 1454},
 				run: (*parser).callonWord1,
 				expr: &seqExpr{
-					pos: position{line: 54, col: 9, offset: 1038},
+					pos: position{line: 73, col: 9, offset: 1454},
 					exprs: []interface{}{
 						&zeroOrOneExpr{
-							pos: position{line: 54, col: 9, offset: 1038},
+							pos: position{line: 73, col: 9, offset: 1454},
 							expr: &ruleRefExpr{
-								pos:  position{line: 54, col: 9, offset: 1038},
+								pos:  position{line: 73, col: 9, offset: 1454},
 								name: "Comment",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 54, col: 18, offset: 1047},
+							pos:   position{line: 73, col: 18, offset: 1463},
 							label: "val",
 							expr: &choiceExpr{
-								pos: position{line: 54, col: 23, offset: 1052},
+								pos: position{line: 73, col: 23, offset: 1468},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 23, offset: 1052},
+										pos:  position{line: 73, col: 23, offset: 1468},
 										name: "String",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 32, offset: 1061},
+										pos:  position{line: 73, col: 32, offset: 1477},
 										name: "Invoke",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 41, offset: 1070},
+										pos:  position{line: 73, col: 41, offset: 1486},
 										name: "Interpolated",
 									},
 								},
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 54, col: 55, offset: 1084},
+							pos: position{line: 73, col: 55, offset: 1500},
 							expr: &ruleRefExpr{
-								pos:  position{line: 54, col: 55, offset: 1084},
+								pos:  position{line: 73, col: 55, offset: 1500},
 								name: "Comment",
 							},
 						},
@@ -286,14 +305,14 @@ var g = &grammar{
 		},
 		{
 			name: "Comment",
-			pos:  position{line: 58, col: 1, offset: 1116},
+			pos:  position{line: 77, col: 1, offset: 1532},
 			expr: &seqExpr{
-				pos: position{line: 58, col: 12, offset: 1127},
+				pos: position{line: 77, col: 12, offset: 1543},
 				exprs: []interface{}{
 					&zeroOrMoreExpr{
-						pos: position{line: 58, col: 12, offset: 1127},
+						pos: position{line: 77, col: 12, offset: 1543},
 						expr: &charClassMatcher{
-							pos:        position{line: 58, col: 12, offset: 1127},
+							pos:        position{line: 77, col: 12, offset: 1543},
 							val:        "[ \\t]",
 							chars:      []rune{' ', '\t'},
 							ignoreCase: false,
@@ -301,34 +320,34 @@ var g = &grammar{
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 58, col: 19, offset: 1134},
+						pos:        position{line: 77, col: 19, offset: 1550},
 						val:        "{-",
 						ignoreCase: false,
 						want:       "\"{-\"",
 					},
 					&zeroOrMoreExpr{
-						pos: position{line: 58, col: 24, offset: 1139},
+						pos: position{line: 77, col: 24, offset: 1555},
 						expr: &choiceExpr{
-							pos: position{line: 58, col: 25, offset: 1140},
+							pos: position{line: 77, col: 25, offset: 1556},
 							alternatives: []interface{}{
 								&ruleRefExpr{
-									pos:  position{line: 58, col: 25, offset: 1140},
+									pos:  position{line: 77, col: 25, offset: 1556},
 									name: "Comment",
 								},
 								&seqExpr{
-									pos: position{line: 58, col: 35, offset: 1150},
+									pos: position{line: 77, col: 35, offset: 1566},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 58, col: 35, offset: 1150},
+											pos: position{line: 77, col: 35, offset: 1566},
 											expr: &litMatcher{
-												pos:        position{line: 58, col: 36, offset: 1151},
+												pos:        position{line: 77, col: 36, offset: 1567},
 												val:        "-}",
 												ignoreCase: false,
 												want:       "\"-}\"",
 											},
 										},
 										&anyMatcher{
-											line: 58, col: 41, offset: 1156,
+											line: 77, col: 41, offset: 1572,
 										},
 									},
 								},
@@ -336,7 +355,7 @@ var g = &grammar{
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 58, col: 45, offset: 1160},
+						pos:        position{line: 77, col: 45, offset: 1576},
 						val:        "-}",
 						ignoreCase: false,
 						want:       "\"-}\"",
@@ -346,32 +365,32 @@ var g = &grammar{
 		},
 		{
 			name: "Interpolated",
-			pos:  position{line: 60, col: 1, offset: 1166},
+			pos:  position{line: 79, col: 1, offset: 1582},
 			expr: &actionExpr{
-				pos: position{line: 60, col: 17, offset: 1182},
+				pos: position{line: 79, col: 17, offset: 1598},
 				run: (*parser).callonInterpolated1,
 				expr: &seqExpr{
-					pos: position{line: 60, col: 17, offset: 1182},
+					pos: position{line: 79, col: 17, offset: 1598},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 60, col: 17, offset: 1182},
+							pos:        position{line: 79, col: 17, offset: 1598},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 60, col: 21, offset: 1186},
+							pos:   position{line: 79, col: 21, offset: 1602},
 							label: "word",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 60, col: 26, offset: 1191},
+								pos: position{line: 79, col: 26, offset: 1607},
 								expr: &ruleRefExpr{
-									pos:  position{line: 60, col: 26, offset: 1191},
+									pos:  position{line: 79, col: 26, offset: 1607},
 									name: "Word",
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 60, col: 32, offset: 1197},
+							pos:        position{line: 79, col: 32, offset: 1613},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -382,35 +401,35 @@ var g = &grammar{
 		},
 		{
 			name: "WrappedLine",
-			pos:  position{line: 68, col: 1, offset: 1288},
+			pos:  position{line: 87, col: 1, offset: 1704},
 			expr: &actionExpr{
-				pos: position{line: 68, col: 16, offset: 1303},
+				pos: position{line: 87, col: 16, offset: 1719},
 				run: (*parser).callonWrappedLine1,
 				expr: &seqExpr{
-					pos: position{line: 68, col: 16, offset: 1303},
+					pos: position{line: 87, col: 16, offset: 1719},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 68, col: 16, offset: 1303},
+							pos:   position{line: 87, col: 16, offset: 1719},
 							label: "firstWord",
 							expr: &ruleRefExpr{
-								pos:  position{line: 68, col: 26, offset: 1313},
+								pos:  position{line: 87, col: 26, offset: 1729},
 								name: "Word",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 68, col: 31, offset: 1318},
+							pos:   position{line: 87, col: 31, offset: 1734},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 68, col: 37, offset: 1324},
+								pos: position{line: 87, col: 37, offset: 1740},
 								expr: &choiceExpr{
-									pos: position{line: 68, col: 38, offset: 1325},
+									pos: position{line: 87, col: 38, offset: 1741},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 68, col: 38, offset: 1325},
+											pos:  position{line: 87, col: 38, offset: 1741},
 											name: "Word",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 68, col: 45, offset: 1332},
+											pos:  position{line: 87, col: 45, offset: 1748},
 											name: "Split",
 										},
 									},
@@ -423,21 +442,21 @@ var g = &grammar{
 		},
 		{
 			name: "Split",
-			pos:  position{line: 73, col: 1, offset: 1463},
+			pos:  position{line: 92, col: 1, offset: 1879},
 			expr: &actionExpr{
-				pos: position{line: 73, col: 10, offset: 1472},
+				pos: position{line: 92, col: 10, offset: 1888},
 				run: (*parser).callonSplit1,
 				expr: &seqExpr{
-					pos: position{line: 73, col: 10, offset: 1472},
+					pos: position{line: 92, col: 10, offset: 1888},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 73, col: 10, offset: 1472},
+							pos:  position{line: 92, col: 10, offset: 1888},
 							name: "LineBreak",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 73, col: 20, offset: 1482},
+							pos: position{line: 92, col: 20, offset: 1898},
 							expr: &charClassMatcher{
-								pos:        position{line: 73, col: 20, offset: 1482},
+								pos:        position{line: 92, col: 20, offset: 1898},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -450,20 +469,20 @@ var g = &grammar{
 		},
 		{
 			name: "String",
-			pos:  position{line: 75, col: 1, offset: 1518},
+			pos:  position{line: 94, col: 1, offset: 1934},
 			expr: &choiceExpr{
-				pos: position{line: 75, col: 11, offset: 1528},
+				pos: position{line: 94, col: 11, offset: 1944},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 75, col: 11, offset: 1528},
+						pos: position{line: 94, col: 11, offset: 1944},
 						run: (*parser).callonString2,
 						expr: &labeledExpr{
-							pos:   position{line: 75, col: 11, offset: 1528},
+							pos:   position{line: 94, col: 11, offset: 1944},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 75, col: 15, offset: 1532},
+								pos: position{line: 94, col: 15, offset: 1948},
 								expr: &charClassMatcher{
-									pos:        position{line: 75, col: 15, offset: 1532},
+									pos:        position{line: 94, col: 15, offset: 1948},
 									val:        "[^\\\\{}\\r\\n]",
 									chars:      []rune{'\\', '{', '}', '\r', '\n'},
 									ignoreCase: false,
@@ -473,19 +492,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 75, col: 61, offset: 1578},
+						pos: position{line: 94, col: 61, offset: 1994},
 						run: (*parser).callonString6,
 						expr: &seqExpr{
-							pos: position{line: 75, col: 61, offset: 1578},
+							pos: position{line: 94, col: 61, offset: 1994},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 75, col: 61, offset: 1578},
+									pos:        position{line: 94, col: 61, offset: 1994},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&charClassMatcher{
-									pos:        position{line: 75, col: 66, offset: 1583},
+									pos:        position{line: 94, col: 66, offset: 1999},
 									val:        "[\\\\{}]",
 									chars:      []rune{'\\', '{', '}'},
 									ignoreCase: false,
@@ -499,20 +518,20 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimString",
-			pos:  position{line: 77, col: 1, offset: 1626},
+			pos:  position{line: 96, col: 1, offset: 2042},
 			expr: &choiceExpr{
-				pos: position{line: 77, col: 19, offset: 1644},
+				pos: position{line: 96, col: 19, offset: 2060},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 77, col: 19, offset: 1644},
+						pos: position{line: 96, col: 19, offset: 2060},
 						run: (*parser).callonVerbatimString2,
 						expr: &labeledExpr{
-							pos:   position{line: 77, col: 19, offset: 1644},
+							pos:   position{line: 96, col: 19, offset: 2060},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 77, col: 23, offset: 1648},
+								pos: position{line: 96, col: 23, offset: 2064},
 								expr: &charClassMatcher{
-									pos:        position{line: 77, col: 23, offset: 1648},
+									pos:        position{line: 96, col: 23, offset: 2064},
 									val:        "[^\\r\\n}]",
 									chars:      []rune{'\r', '\n', '}'},
 									ignoreCase: false,
@@ -522,21 +541,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 79, col: 5, offset: 1693},
+						pos: position{line: 98, col: 5, offset: 2109},
 						run: (*parser).callonVerbatimString6,
 						expr: &seqExpr{
-							pos: position{line: 79, col: 5, offset: 1693},
+							pos: position{line: 98, col: 5, offset: 2109},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 79, col: 5, offset: 1693},
+									pos:        position{line: 98, col: 5, offset: 2109},
 									val:        "}",
 									ignoreCase: false,
 									want:       "\"}\"",
 								},
 								&notExpr{
-									pos: position{line: 79, col: 9, offset: 1697},
+									pos: position{line: 98, col: 9, offset: 2113},
 									expr: &litMatcher{
-										pos:        position{line: 79, col: 10, offset: 1698},
+										pos:        position{line: 98, col: 10, offset: 2114},
 										val:        "}}",
 										ignoreCase: false,
 										want:       "\"}}\"",
@@ -550,34 +569,34 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlockLine",
-			pos:  position{line: 83, col: 1, offset: 1737},
+			pos:  position{line: 102, col: 1, offset: 2153},
 			expr: &actionExpr{
-				pos: position{line: 83, col: 26, offset: 1762},
+				pos: position{line: 102, col: 26, offset: 2178},
 				run: (*parser).callonPreformattedBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 83, col: 26, offset: 1762},
+					pos: position{line: 102, col: 26, offset: 2178},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 83, col: 26, offset: 1762},
+							pos:   position{line: 102, col: 26, offset: 2178},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 83, col: 33, offset: 1769},
+								pos:  position{line: 102, col: 33, offset: 2185},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 83, col: 40, offset: 1776},
+							pos:   position{line: 102, col: 40, offset: 2192},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 83, col: 46, offset: 1782},
+								pos: position{line: 102, col: 46, offset: 2198},
 								expr: &ruleRefExpr{
-									pos:  position{line: 83, col: 46, offset: 1782},
+									pos:  position{line: 102, col: 46, offset: 2198},
 									name: "Word",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 83, col: 52, offset: 1788},
+							pos:  position{line: 102, col: 52, offset: 2204},
 							name: "LineBreak",
 						},
 					},
@@ -586,32 +605,32 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlock",
-			pos:  position{line: 89, col: 1, offset: 1918},
+			pos:  position{line: 108, col: 1, offset: 2334},
 			expr: &actionExpr{
-				pos: position{line: 89, col: 22, offset: 1939},
+				pos: position{line: 108, col: 22, offset: 2355},
 				run: (*parser).callonPreformattedBlock1,
 				expr: &seqExpr{
-					pos: position{line: 89, col: 22, offset: 1939},
+					pos: position{line: 108, col: 22, offset: 2355},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 89, col: 22, offset: 1939},
+							pos:  position{line: 108, col: 22, offset: 2355},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 89, col: 32, offset: 1949},
+							pos:   position{line: 108, col: 32, offset: 2365},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 89, col: 38, offset: 1955},
+								pos: position{line: 108, col: 38, offset: 2371},
 								expr: &ruleRefExpr{
-									pos:  position{line: 89, col: 38, offset: 1955},
+									pos:  position{line: 108, col: 38, offset: 2371},
 									name: "PreformattedBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 89, col: 61, offset: 1978},
+							pos: position{line: 108, col: 61, offset: 2394},
 							expr: &charClassMatcher{
-								pos:        position{line: 89, col: 61, offset: 1978},
+								pos:        position{line: 108, col: 61, offset: 2394},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -624,17 +643,17 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimLine",
-			pos:  position{line: 94, col: 1, offset: 2079},
+			pos:  position{line: 112, col: 1, offset: 2450},
 			expr: &actionExpr{
-				pos: position{line: 94, col: 17, offset: 2095},
+				pos: position{line: 112, col: 17, offset: 2466},
 				run: (*parser).callonVerbatimLine1,
 				expr: &labeledExpr{
-					pos:   position{line: 94, col: 17, offset: 2095},
+					pos:   position{line: 112, col: 17, offset: 2466},
 					label: "words",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 94, col: 23, offset: 2101},
+						pos: position{line: 112, col: 23, offset: 2472},
 						expr: &ruleRefExpr{
-							pos:  position{line: 94, col: 23, offset: 2101},
+							pos:  position{line: 112, col: 23, offset: 2472},
 							name: "VerbatimString",
 						},
 					},
@@ -643,34 +662,34 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlockLine",
-			pos:  position{line: 98, col: 1, offset: 2164},
+			pos:  position{line: 116, col: 1, offset: 2535},
 			expr: &actionExpr{
-				pos: position{line: 98, col: 22, offset: 2185},
+				pos: position{line: 116, col: 22, offset: 2556},
 				run: (*parser).callonVerbatimBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 98, col: 22, offset: 2185},
+					pos: position{line: 116, col: 22, offset: 2556},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 98, col: 22, offset: 2185},
+							pos:   position{line: 116, col: 22, offset: 2556},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 98, col: 29, offset: 2192},
+								pos:  position{line: 116, col: 29, offset: 2563},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 98, col: 36, offset: 2199},
+							pos:   position{line: 116, col: 36, offset: 2570},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 98, col: 42, offset: 2205},
+								pos: position{line: 116, col: 42, offset: 2576},
 								expr: &ruleRefExpr{
-									pos:  position{line: 98, col: 42, offset: 2205},
+									pos:  position{line: 116, col: 42, offset: 2576},
 									name: "VerbatimString",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 98, col: 58, offset: 2221},
+							pos:  position{line: 116, col: 58, offset: 2592},
 							name: "LineBreak",
 						},
 					},
@@ -679,32 +698,32 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlock",
-			pos:  position{line: 104, col: 1, offset: 2351},
+			pos:  position{line: 122, col: 1, offset: 2722},
 			expr: &actionExpr{
-				pos: position{line: 104, col: 18, offset: 2368},
+				pos: position{line: 122, col: 18, offset: 2739},
 				run: (*parser).callonVerbatimBlock1,
 				expr: &seqExpr{
-					pos: position{line: 104, col: 18, offset: 2368},
+					pos: position{line: 122, col: 18, offset: 2739},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 104, col: 18, offset: 2368},
+							pos:  position{line: 122, col: 18, offset: 2739},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 104, col: 28, offset: 2378},
+							pos:   position{line: 122, col: 28, offset: 2749},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 104, col: 34, offset: 2384},
+								pos: position{line: 122, col: 34, offset: 2755},
 								expr: &ruleRefExpr{
-									pos:  position{line: 104, col: 34, offset: 2384},
+									pos:  position{line: 122, col: 34, offset: 2755},
 									name: "VerbatimBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 104, col: 53, offset: 2403},
+							pos: position{line: 122, col: 53, offset: 2774},
 							expr: &charClassMatcher{
-								pos:        position{line: 104, col: 53, offset: 2403},
+								pos:        position{line: 122, col: 53, offset: 2774},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -717,26 +736,26 @@ var g = &grammar{
 		},
 		{
 			name: "Invoke",
-			pos:  position{line: 109, col: 1, offset: 2504},
+			pos:  position{line: 126, col: 1, offset: 2830},
 			expr: &actionExpr{
-				pos: position{line: 109, col: 11, offset: 2514},
+				pos: position{line: 126, col: 11, offset: 2840},
 				run: (*parser).callonInvoke1,
 				expr: &seqExpr{
-					pos: position{line: 109, col: 11, offset: 2514},
+					pos: position{line: 126, col: 11, offset: 2840},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 109, col: 11, offset: 2514},
+							pos:        position{line: 126, col: 11, offset: 2840},
 							val:        "\\",
 							ignoreCase: false,
 							want:       "\"\\\\\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 16, offset: 2519},
+							pos:   position{line: 126, col: 16, offset: 2845},
 							label: "name",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 109, col: 22, offset: 2525},
+								pos: position{line: 126, col: 22, offset: 2851},
 								expr: &charClassMatcher{
-									pos:        position{line: 109, col: 22, offset: 2525},
+									pos:        position{line: 126, col: 22, offset: 2851},
 									val:        "[a-z-]",
 									chars:      []rune{'-'},
 									ranges:     []rune{'a', 'z'},
@@ -746,12 +765,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 31, offset: 2534},
+							pos:   position{line: 126, col: 31, offset: 2860},
 							label: "args",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 109, col: 37, offset: 2540},
+								pos: position{line: 126, col: 37, offset: 2866},
 								expr: &ruleRefExpr{
-									pos:  position{line: 109, col: 37, offset: 2540},
+									pos:  position{line: 126, col: 37, offset: 2866},
 									name: "Argument",
 								},
 							},
@@ -762,38 +781,38 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimArg",
-			pos:  position{line: 122, col: 1, offset: 2756},
+			pos:  position{line: 139, col: 1, offset: 3082},
 			expr: &actionExpr{
-				pos: position{line: 122, col: 16, offset: 2771},
+				pos: position{line: 139, col: 16, offset: 3097},
 				run: (*parser).callonVerbatimArg1,
 				expr: &seqExpr{
-					pos: position{line: 122, col: 16, offset: 2771},
+					pos: position{line: 139, col: 16, offset: 3097},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 122, col: 16, offset: 2771},
+							pos:        position{line: 139, col: 16, offset: 3097},
 							val:        "{{{",
 							ignoreCase: false,
 							want:       "\"{{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 122, col: 22, offset: 2777},
+							pos:   position{line: 139, col: 22, offset: 3103},
 							label: "node",
 							expr: &choiceExpr{
-								pos: position{line: 122, col: 28, offset: 2783},
+								pos: position{line: 139, col: 28, offset: 3109},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 28, offset: 2783},
+										pos:  position{line: 139, col: 28, offset: 3109},
 										name: "VerbatimBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 44, offset: 2799},
+										pos:  position{line: 139, col: 44, offset: 3125},
 										name: "VerbatimLine",
 									},
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 122, col: 58, offset: 2813},
+							pos:        position{line: 139, col: 58, offset: 3139},
 							val:        "}}}",
 							ignoreCase: false,
 							want:       "\"}}}\"",
@@ -804,29 +823,29 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedArg",
-			pos:  position{line: 126, col: 1, offset: 2843},
+			pos:  position{line: 143, col: 1, offset: 3169},
 			expr: &actionExpr{
-				pos: position{line: 126, col: 20, offset: 2862},
+				pos: position{line: 143, col: 20, offset: 3188},
 				run: (*parser).callonPreformattedArg1,
 				expr: &seqExpr{
-					pos: position{line: 126, col: 20, offset: 2862},
+					pos: position{line: 143, col: 20, offset: 3188},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 126, col: 20, offset: 2862},
+							pos:        position{line: 143, col: 20, offset: 3188},
 							val:        "{{",
 							ignoreCase: false,
 							want:       "\"{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 126, col: 25, offset: 2867},
+							pos:   position{line: 143, col: 25, offset: 3193},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 126, col: 30, offset: 2872},
+								pos:  position{line: 143, col: 30, offset: 3198},
 								name: "PreformattedBlock",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 126, col: 48, offset: 2890},
+							pos:        position{line: 143, col: 48, offset: 3216},
 							val:        "}}",
 							ignoreCase: false,
 							want:       "\"}}\"",
@@ -837,14 +856,14 @@ var g = &grammar{
 		},
 		{
 			name: "EmptyArg",
-			pos:  position{line: 130, col: 1, offset: 2919},
+			pos:  position{line: 147, col: 1, offset: 3245},
 			expr: &actionExpr{
-				pos: position{line: 130, col: 13, offset: 2931},
+				pos: position{line: 147, col: 13, offset: 3257},
 				run: (*parser).callonEmptyArg1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 130, col: 13, offset: 2931},
+					pos: position{line: 147, col: 13, offset: 3257},
 					expr: &ruleRefExpr{
-						pos:  position{line: 130, col: 13, offset: 2931},
+						pos:  position{line: 147, col: 13, offset: 3257},
 						name: "CommentSpacing",
 					},
 				},
@@ -852,37 +871,37 @@ var g = &grammar{
 		},
 		{
 			name: "Arg",
-			pos:  position{line: 132, col: 1, offset: 2968},
+			pos:  position{line: 149, col: 1, offset: 3294},
 			expr: &actionExpr{
-				pos: position{line: 132, col: 8, offset: 2975},
+				pos: position{line: 149, col: 8, offset: 3301},
 				run: (*parser).callonArg1,
 				expr: &seqExpr{
-					pos: position{line: 132, col: 8, offset: 2975},
+					pos: position{line: 149, col: 8, offset: 3301},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 132, col: 8, offset: 2975},
+							pos:        position{line: 149, col: 8, offset: 3301},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 132, col: 12, offset: 2979},
+							pos:   position{line: 149, col: 12, offset: 3305},
 							label: "node",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 132, col: 17, offset: 2984},
+								pos: position{line: 149, col: 17, offset: 3310},
 								expr: &choiceExpr{
-									pos: position{line: 132, col: 18, offset: 2985},
+									pos: position{line: 149, col: 18, offset: 3311},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 18, offset: 2985},
+											pos:  position{line: 149, col: 18, offset: 3311},
 											name: "WrappedLine",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 32, offset: 2999},
+											pos:  position{line: 149, col: 32, offset: 3325},
 											name: "ParaArg",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 42, offset: 3009},
+											pos:  position{line: 149, col: 42, offset: 3335},
 											name: "EmptyArg",
 										},
 									},
@@ -890,7 +909,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 132, col: 53, offset: 3020},
+							pos:        position{line: 149, col: 53, offset: 3346},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -901,25 +920,25 @@ var g = &grammar{
 		},
 		{
 			name: "ParaArg",
-			pos:  position{line: 140, col: 1, offset: 3111},
+			pos:  position{line: 157, col: 1, offset: 3437},
 			expr: &actionExpr{
-				pos: position{line: 140, col: 12, offset: 3122},
+				pos: position{line: 157, col: 12, offset: 3448},
 				run: (*parser).callonParaArg1,
 				expr: &seqExpr{
-					pos: position{line: 140, col: 12, offset: 3122},
+					pos: position{line: 157, col: 12, offset: 3448},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 140, col: 12, offset: 3122},
+							pos:   position{line: 157, col: 12, offset: 3448},
 							label: "paras",
 							expr: &ruleRefExpr{
-								pos:  position{line: 140, col: 18, offset: 3128},
+								pos:  position{line: 157, col: 18, offset: 3454},
 								name: "Paragraphs",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 140, col: 29, offset: 3139},
+							pos: position{line: 157, col: 29, offset: 3465},
 							expr: &charClassMatcher{
-								pos:        position{line: 140, col: 29, offset: 3139},
+								pos:        position{line: 157, col: 29, offset: 3465},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -932,20 +951,20 @@ var g = &grammar{
 		},
 		{
 			name: "Argument",
-			pos:  position{line: 144, col: 1, offset: 3171},
+			pos:  position{line: 161, col: 1, offset: 3497},
 			expr: &choiceExpr{
-				pos: position{line: 144, col: 13, offset: 3183},
+				pos: position{line: 161, col: 13, offset: 3509},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 13, offset: 3183},
+						pos:  position{line: 161, col: 13, offset: 3509},
 						name: "VerbatimArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 27, offset: 3197},
+						pos:  position{line: 161, col: 27, offset: 3523},
 						name: "PreformattedArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 45, offset: 3215},
+						pos:  position{line: 161, col: 45, offset: 3541},
 						name: "Arg",
 					},
 				},
@@ -953,14 +972,14 @@ var g = &grammar{
 		},
 		{
 			name: "Indent",
-			pos:  position{line: 146, col: 1, offset: 3220},
+			pos:  position{line: 163, col: 1, offset: 3546},
 			expr: &actionExpr{
-				pos: position{line: 146, col: 11, offset: 3230},
+				pos: position{line: 163, col: 11, offset: 3556},
 				run: (*parser).callonIndent1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 146, col: 11, offset: 3230},
+					pos: position{line: 163, col: 11, offset: 3556},
 					expr: &charClassMatcher{
-						pos:        position{line: 146, col: 11, offset: 3230},
+						pos:        position{line: 163, col: 11, offset: 3556},
 						val:        "[ \\t]",
 						chars:      []rune{' ', '\t'},
 						ignoreCase: false,
@@ -1130,8 +1149,7 @@ func (p *parser) callonPreformattedBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onPreformattedBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
-	return Preformatted(ifaceSequences(lines)), nil
+	return dedent(ifaceSequences(lines)), nil
 }
 
 func (p *parser) callonPreformattedBlock1() (interface{}, error) {
@@ -1163,8 +1181,7 @@ func (p *parser) callonVerbatimBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onVerbatimBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
-	return Preformatted(ifaceSequences(lines)), nil
+	return dedent(ifaceSequences(lines)), nil
 }
 
 func (p *parser) callonVerbatimBlock1() (interface{}, error) {
@@ -1247,20 +1264,7 @@ func (p *parser) callonParaArg1() (interface{}, error) {
 }
 
 func (c *current) onIndent1() (interface{}, error) {
-	skip := len(c.text)
-
-	i, found := c.globalStore["indent-skip"]
-	if found {
-		skip = i.(int)
-	} else {
-		c.globalStore["indent-skip"] = skip
-	}
-
-	if skip <= len(c.text) {
-		return string(c.text[skip:]), nil
-	} else {
-		return "", nil
-	}
+	return string(c.text), nil
 }
 
 func (p *parser) callonIndent1() (interface{}, error) {
-- 
2.43.0


From 13a2bf781055e85260f3dfd29dd3364f858790cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 02/34] fix: accept comments next to each other and on their
 own line everywhere

---
 ast/booklit.peg    |  10 +-
 ast/booklit.peg.go | 336 +++++++++++++++++++++++++--------------------
 2 files changed, 195 insertions(+), 151 deletions(-)

diff --git a/ast/booklit.peg b/ast/booklit.peg
index 5fa8a36..5935d50 100644
--- a/ast/booklit.peg
+++ b/ast/booklit.peg
@@ -70,13 +70,15 @@ Line <- [ \t]* words:(Word)+ {
   return Sequence(ifaceNodes(words)), nil
 }
 
-Word <- Comment? val:(String / Invoke / Interpolated) Comment? {
+Word <- Comment* val:(String / Invoke / Interpolated) Comment* {
   return val, nil
 }
 
 Comment <- [ \t]* "{-" (Comment / !"-}" .)* "-}"
 
-Interpolated <- '{' word:Word? '}' {
+CommentWord <- Comment { return Sequence{}, nil }
+
+Interpolated <- '{' word:Word? Comment* '}' {
   if word == nil {
     return Sequence{}, nil
   } else {
@@ -84,7 +86,7 @@ Interpolated <- '{' word:Word? '}' {
   }
 }
 
-WrappedLine <- firstWord:Word words:(Word / Split)* {
+WrappedLine <- firstWord:Word words:(Word / Split / CommentWord)* {
   allWords := append([]interface{}{firstWord}, words.([]interface{})...)
   return Sequence(ifaceNodes(allWords)), nil
 }
@@ -99,7 +101,7 @@ VerbatimString <- str:[^\r\n}]+ {
   return String(c.text), nil
 }
 
-PreformattedBlockLine <- indent:Indent words:Word* LineBreak {
+PreformattedBlockLine <- indent:Indent words:(Word / CommentWord)* LineBreak {
   line := []Node{String(indent.(string))}
   line = append(line, ifaceNodes(words)...)
   return Sequence(line), nil
diff --git a/ast/booklit.peg.go b/ast/booklit.peg.go
index 6e1a90e..05ab41e 100644
--- a/ast/booklit.peg.go
+++ b/ast/booklit.peg.go
@@ -264,7 +264,7 @@ var g = &grammar{
 				expr: &seqExpr{
 					pos: position{line: 73, col: 9, offset: 1454},
 					exprs: []interface{}{
-						&zeroOrOneExpr{
+						&zeroOrMoreExpr{
 							pos: position{line: 73, col: 9, offset: 1454},
 							expr: &ruleRefExpr{
 								pos:  position{line: 73, col: 9, offset: 1454},
@@ -292,7 +292,7 @@ var g = &grammar{
 								},
 							},
 						},
-						&zeroOrOneExpr{
+						&zeroOrMoreExpr{
 							pos: position{line: 73, col: 55, offset: 1500},
 							expr: &ruleRefExpr{
 								pos:  position{line: 73, col: 55, offset: 1500},
@@ -364,33 +364,52 @@ var g = &grammar{
 			},
 		},
 		{
-			name: "Interpolated",
+			name: "CommentWord",
 			pos:  position{line: 79, col: 1, offset: 1582},
 			expr: &actionExpr{
-				pos: position{line: 79, col: 17, offset: 1598},
+				pos: position{line: 79, col: 16, offset: 1597},
+				run: (*parser).callonCommentWord1,
+				expr: &ruleRefExpr{
+					pos:  position{line: 79, col: 16, offset: 1597},
+					name: "Comment",
+				},
+			},
+		},
+		{
+			name: "Interpolated",
+			pos:  position{line: 81, col: 1, offset: 1633},
+			expr: &actionExpr{
+				pos: position{line: 81, col: 17, offset: 1649},
 				run: (*parser).callonInterpolated1,
 				expr: &seqExpr{
-					pos: position{line: 79, col: 17, offset: 1598},
+					pos: position{line: 81, col: 17, offset: 1649},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 79, col: 17, offset: 1598},
+							pos:        position{line: 81, col: 17, offset: 1649},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 79, col: 21, offset: 1602},
+							pos:   position{line: 81, col: 21, offset: 1653},
 							label: "word",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 79, col: 26, offset: 1607},
+								pos: position{line: 81, col: 26, offset: 1658},
 								expr: &ruleRefExpr{
-									pos:  position{line: 79, col: 26, offset: 1607},
+									pos:  position{line: 81, col: 26, offset: 1658},
 									name: "Word",
 								},
 							},
 						},
+						&zeroOrMoreExpr{
+							pos: position{line: 81, col: 32, offset: 1664},
+							expr: &ruleRefExpr{
+								pos:  position{line: 81, col: 32, offset: 1664},
+								name: "Comment",
+							},
+						},
 						&litMatcher{
-							pos:        position{line: 79, col: 32, offset: 1613},
+							pos:        position{line: 81, col: 41, offset: 1673},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -401,37 +420,41 @@ var g = &grammar{
 		},
 		{
 			name: "WrappedLine",
-			pos:  position{line: 87, col: 1, offset: 1704},
+			pos:  position{line: 89, col: 1, offset: 1764},
 			expr: &actionExpr{
-				pos: position{line: 87, col: 16, offset: 1719},
+				pos: position{line: 89, col: 16, offset: 1779},
 				run: (*parser).callonWrappedLine1,
 				expr: &seqExpr{
-					pos: position{line: 87, col: 16, offset: 1719},
+					pos: position{line: 89, col: 16, offset: 1779},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 87, col: 16, offset: 1719},
+							pos:   position{line: 89, col: 16, offset: 1779},
 							label: "firstWord",
 							expr: &ruleRefExpr{
-								pos:  position{line: 87, col: 26, offset: 1729},
+								pos:  position{line: 89, col: 26, offset: 1789},
 								name: "Word",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 87, col: 31, offset: 1734},
+							pos:   position{line: 89, col: 31, offset: 1794},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 87, col: 37, offset: 1740},
+								pos: position{line: 89, col: 37, offset: 1800},
 								expr: &choiceExpr{
-									pos: position{line: 87, col: 38, offset: 1741},
+									pos: position{line: 89, col: 38, offset: 1801},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 87, col: 38, offset: 1741},
+											pos:  position{line: 89, col: 38, offset: 1801},
 											name: "Word",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 87, col: 45, offset: 1748},
+											pos:  position{line: 89, col: 45, offset: 1808},
 											name: "Split",
 										},
+										&ruleRefExpr{
+											pos:  position{line: 89, col: 53, offset: 1816},
+											name: "CommentWord",
+										},
 									},
 								},
 							},
@@ -442,21 +465,21 @@ var g = &grammar{
 		},
 		{
 			name: "Split",
-			pos:  position{line: 92, col: 1, offset: 1879},
+			pos:  position{line: 94, col: 1, offset: 1953},
 			expr: &actionExpr{
-				pos: position{line: 92, col: 10, offset: 1888},
+				pos: position{line: 94, col: 10, offset: 1962},
 				run: (*parser).callonSplit1,
 				expr: &seqExpr{
-					pos: position{line: 92, col: 10, offset: 1888},
+					pos: position{line: 94, col: 10, offset: 1962},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 92, col: 10, offset: 1888},
+							pos:  position{line: 94, col: 10, offset: 1962},
 							name: "LineBreak",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 92, col: 20, offset: 1898},
+							pos: position{line: 94, col: 20, offset: 1972},
 							expr: &charClassMatcher{
-								pos:        position{line: 92, col: 20, offset: 1898},
+								pos:        position{line: 94, col: 20, offset: 1972},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -469,20 +492,20 @@ var g = &grammar{
 		},
 		{
 			name: "String",
-			pos:  position{line: 94, col: 1, offset: 1934},
+			pos:  position{line: 96, col: 1, offset: 2008},
 			expr: &choiceExpr{
-				pos: position{line: 94, col: 11, offset: 1944},
+				pos: position{line: 96, col: 11, offset: 2018},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 94, col: 11, offset: 1944},
+						pos: position{line: 96, col: 11, offset: 2018},
 						run: (*parser).callonString2,
 						expr: &labeledExpr{
-							pos:   position{line: 94, col: 11, offset: 1944},
+							pos:   position{line: 96, col: 11, offset: 2018},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 94, col: 15, offset: 1948},
+								pos: position{line: 96, col: 15, offset: 2022},
 								expr: &charClassMatcher{
-									pos:        position{line: 94, col: 15, offset: 1948},
+									pos:        position{line: 96, col: 15, offset: 2022},
 									val:        "[^\\\\{}\\r\\n]",
 									chars:      []rune{'\\', '{', '}', '\r', '\n'},
 									ignoreCase: false,
@@ -492,19 +515,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 94, col: 61, offset: 1994},
+						pos: position{line: 96, col: 61, offset: 2068},
 						run: (*parser).callonString6,
 						expr: &seqExpr{
-							pos: position{line: 94, col: 61, offset: 1994},
+							pos: position{line: 96, col: 61, offset: 2068},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 94, col: 61, offset: 1994},
+									pos:        position{line: 96, col: 61, offset: 2068},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&charClassMatcher{
-									pos:        position{line: 94, col: 66, offset: 1999},
+									pos:        position{line: 96, col: 66, offset: 2073},
 									val:        "[\\\\{}]",
 									chars:      []rune{'\\', '{', '}'},
 									ignoreCase: false,
@@ -518,20 +541,20 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimString",
-			pos:  position{line: 96, col: 1, offset: 2042},
+			pos:  position{line: 98, col: 1, offset: 2116},
 			expr: &choiceExpr{
-				pos: position{line: 96, col: 19, offset: 2060},
+				pos: position{line: 98, col: 19, offset: 2134},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 96, col: 19, offset: 2060},
+						pos: position{line: 98, col: 19, offset: 2134},
 						run: (*parser).callonVerbatimString2,
 						expr: &labeledExpr{
-							pos:   position{line: 96, col: 19, offset: 2060},
+							pos:   position{line: 98, col: 19, offset: 2134},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 96, col: 23, offset: 2064},
+								pos: position{line: 98, col: 23, offset: 2138},
 								expr: &charClassMatcher{
-									pos:        position{line: 96, col: 23, offset: 2064},
+									pos:        position{line: 98, col: 23, offset: 2138},
 									val:        "[^\\r\\n}]",
 									chars:      []rune{'\r', '\n', '}'},
 									ignoreCase: false,
@@ -541,21 +564,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 98, col: 5, offset: 2109},
+						pos: position{line: 100, col: 5, offset: 2183},
 						run: (*parser).callonVerbatimString6,
 						expr: &seqExpr{
-							pos: position{line: 98, col: 5, offset: 2109},
+							pos: position{line: 100, col: 5, offset: 2183},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 98, col: 5, offset: 2109},
+									pos:        position{line: 100, col: 5, offset: 2183},
 									val:        "}",
 									ignoreCase: false,
 									want:       "\"}\"",
 								},
 								&notExpr{
-									pos: position{line: 98, col: 9, offset: 2113},
+									pos: position{line: 100, col: 9, offset: 2187},
 									expr: &litMatcher{
-										pos:        position{line: 98, col: 10, offset: 2114},
+										pos:        position{line: 100, col: 10, offset: 2188},
 										val:        "}}",
 										ignoreCase: false,
 										want:       "\"}}\"",
@@ -569,34 +592,43 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlockLine",
-			pos:  position{line: 102, col: 1, offset: 2153},
+			pos:  position{line: 104, col: 1, offset: 2227},
 			expr: &actionExpr{
-				pos: position{line: 102, col: 26, offset: 2178},
+				pos: position{line: 104, col: 26, offset: 2252},
 				run: (*parser).callonPreformattedBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 102, col: 26, offset: 2178},
+					pos: position{line: 104, col: 26, offset: 2252},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 102, col: 26, offset: 2178},
+							pos:   position{line: 104, col: 26, offset: 2252},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 102, col: 33, offset: 2185},
+								pos:  position{line: 104, col: 33, offset: 2259},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 102, col: 40, offset: 2192},
+							pos:   position{line: 104, col: 40, offset: 2266},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 102, col: 46, offset: 2198},
-								expr: &ruleRefExpr{
-									pos:  position{line: 102, col: 46, offset: 2198},
-									name: "Word",
+								pos: position{line: 104, col: 46, offset: 2272},
+								expr: &choiceExpr{
+									pos: position{line: 104, col: 47, offset: 2273},
+									alternatives: []interface{}{
+										&ruleRefExpr{
+											pos:  position{line: 104, col: 47, offset: 2273},
+											name: "Word",
+										},
+										&ruleRefExpr{
+											pos:  position{line: 104, col: 54, offset: 2280},
+											name: "CommentWord",
+										},
+									},
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 102, col: 52, offset: 2204},
+							pos:  position{line: 104, col: 68, offset: 2294},
 							name: "LineBreak",
 						},
 					},
@@ -605,32 +637,32 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlock",
-			pos:  position{line: 108, col: 1, offset: 2334},
+			pos:  position{line: 110, col: 1, offset: 2424},
 			expr: &actionExpr{
-				pos: position{line: 108, col: 22, offset: 2355},
+				pos: position{line: 110, col: 22, offset: 2445},
 				run: (*parser).callonPreformattedBlock1,
 				expr: &seqExpr{
-					pos: position{line: 108, col: 22, offset: 2355},
+					pos: position{line: 110, col: 22, offset: 2445},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 108, col: 22, offset: 2355},
+							pos:  position{line: 110, col: 22, offset: 2445},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 108, col: 32, offset: 2365},
+							pos:   position{line: 110, col: 32, offset: 2455},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 108, col: 38, offset: 2371},
+								pos: position{line: 110, col: 38, offset: 2461},
 								expr: &ruleRefExpr{
-									pos:  position{line: 108, col: 38, offset: 2371},
+									pos:  position{line: 110, col: 38, offset: 2461},
 									name: "PreformattedBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 108, col: 61, offset: 2394},
+							pos: position{line: 110, col: 61, offset: 2484},
 							expr: &charClassMatcher{
-								pos:        position{line: 108, col: 61, offset: 2394},
+								pos:        position{line: 110, col: 61, offset: 2484},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -643,17 +675,17 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimLine",
-			pos:  position{line: 112, col: 1, offset: 2450},
+			pos:  position{line: 114, col: 1, offset: 2540},
 			expr: &actionExpr{
-				pos: position{line: 112, col: 17, offset: 2466},
+				pos: position{line: 114, col: 17, offset: 2556},
 				run: (*parser).callonVerbatimLine1,
 				expr: &labeledExpr{
-					pos:   position{line: 112, col: 17, offset: 2466},
+					pos:   position{line: 114, col: 17, offset: 2556},
 					label: "words",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 112, col: 23, offset: 2472},
+						pos: position{line: 114, col: 23, offset: 2562},
 						expr: &ruleRefExpr{
-							pos:  position{line: 112, col: 23, offset: 2472},
+							pos:  position{line: 114, col: 23, offset: 2562},
 							name: "VerbatimString",
 						},
 					},
@@ -662,34 +694,34 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlockLine",
-			pos:  position{line: 116, col: 1, offset: 2535},
+			pos:  position{line: 118, col: 1, offset: 2625},
 			expr: &actionExpr{
-				pos: position{line: 116, col: 22, offset: 2556},
+				pos: position{line: 118, col: 22, offset: 2646},
 				run: (*parser).callonVerbatimBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 116, col: 22, offset: 2556},
+					pos: position{line: 118, col: 22, offset: 2646},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 116, col: 22, offset: 2556},
+							pos:   position{line: 118, col: 22, offset: 2646},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 116, col: 29, offset: 2563},
+								pos:  position{line: 118, col: 29, offset: 2653},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 116, col: 36, offset: 2570},
+							pos:   position{line: 118, col: 36, offset: 2660},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 116, col: 42, offset: 2576},
+								pos: position{line: 118, col: 42, offset: 2666},
 								expr: &ruleRefExpr{
-									pos:  position{line: 116, col: 42, offset: 2576},
+									pos:  position{line: 118, col: 42, offset: 2666},
 									name: "VerbatimString",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 116, col: 58, offset: 2592},
+							pos:  position{line: 118, col: 58, offset: 2682},
 							name: "LineBreak",
 						},
 					},
@@ -698,32 +730,32 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlock",
-			pos:  position{line: 122, col: 1, offset: 2722},
+			pos:  position{line: 124, col: 1, offset: 2812},
 			expr: &actionExpr{
-				pos: position{line: 122, col: 18, offset: 2739},
+				pos: position{line: 124, col: 18, offset: 2829},
 				run: (*parser).callonVerbatimBlock1,
 				expr: &seqExpr{
-					pos: position{line: 122, col: 18, offset: 2739},
+					pos: position{line: 124, col: 18, offset: 2829},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 122, col: 18, offset: 2739},
+							pos:  position{line: 124, col: 18, offset: 2829},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 122, col: 28, offset: 2749},
+							pos:   position{line: 124, col: 28, offset: 2839},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 122, col: 34, offset: 2755},
+								pos: position{line: 124, col: 34, offset: 2845},
 								expr: &ruleRefExpr{
-									pos:  position{line: 122, col: 34, offset: 2755},
+									pos:  position{line: 124, col: 34, offset: 2845},
 									name: "VerbatimBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 122, col: 53, offset: 2774},
+							pos: position{line: 124, col: 53, offset: 2864},
 							expr: &charClassMatcher{
-								pos:        position{line: 122, col: 53, offset: 2774},
+								pos:        position{line: 124, col: 53, offset: 2864},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -736,26 +768,26 @@ var g = &grammar{
 		},
 		{
 			name: "Invoke",
-			pos:  position{line: 126, col: 1, offset: 2830},
+			pos:  position{line: 128, col: 1, offset: 2920},
 			expr: &actionExpr{
-				pos: position{line: 126, col: 11, offset: 2840},
+				pos: position{line: 128, col: 11, offset: 2930},
 				run: (*parser).callonInvoke1,
 				expr: &seqExpr{
-					pos: position{line: 126, col: 11, offset: 2840},
+					pos: position{line: 128, col: 11, offset: 2930},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 126, col: 11, offset: 2840},
+							pos:        position{line: 128, col: 11, offset: 2930},
 							val:        "\\",
 							ignoreCase: false,
 							want:       "\"\\\\\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 126, col: 16, offset: 2845},
+							pos:   position{line: 128, col: 16, offset: 2935},
 							label: "name",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 126, col: 22, offset: 2851},
+								pos: position{line: 128, col: 22, offset: 2941},
 								expr: &charClassMatcher{
-									pos:        position{line: 126, col: 22, offset: 2851},
+									pos:        position{line: 128, col: 22, offset: 2941},
 									val:        "[a-z-]",
 									chars:      []rune{'-'},
 									ranges:     []rune{'a', 'z'},
@@ -765,12 +797,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 126, col: 31, offset: 2860},
+							pos:   position{line: 128, col: 31, offset: 2950},
 							label: "args",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 126, col: 37, offset: 2866},
+								pos: position{line: 128, col: 37, offset: 2956},
 								expr: &ruleRefExpr{
-									pos:  position{line: 126, col: 37, offset: 2866},
+									pos:  position{line: 128, col: 37, offset: 2956},
 									name: "Argument",
 								},
 							},
@@ -781,38 +813,38 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimArg",
-			pos:  position{line: 139, col: 1, offset: 3082},
+			pos:  position{line: 141, col: 1, offset: 3172},
 			expr: &actionExpr{
-				pos: position{line: 139, col: 16, offset: 3097},
+				pos: position{line: 141, col: 16, offset: 3187},
 				run: (*parser).callonVerbatimArg1,
 				expr: &seqExpr{
-					pos: position{line: 139, col: 16, offset: 3097},
+					pos: position{line: 141, col: 16, offset: 3187},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 139, col: 16, offset: 3097},
+							pos:        position{line: 141, col: 16, offset: 3187},
 							val:        "{{{",
 							ignoreCase: false,
 							want:       "\"{{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 139, col: 22, offset: 3103},
+							pos:   position{line: 141, col: 22, offset: 3193},
 							label: "node",
 							expr: &choiceExpr{
-								pos: position{line: 139, col: 28, offset: 3109},
+								pos: position{line: 141, col: 28, offset: 3199},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 139, col: 28, offset: 3109},
+										pos:  position{line: 141, col: 28, offset: 3199},
 										name: "VerbatimBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 139, col: 44, offset: 3125},
+										pos:  position{line: 141, col: 44, offset: 3215},
 										name: "VerbatimLine",
 									},
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 139, col: 58, offset: 3139},
+							pos:        position{line: 141, col: 58, offset: 3229},
 							val:        "}}}",
 							ignoreCase: false,
 							want:       "\"}}}\"",
@@ -823,29 +855,29 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedArg",
-			pos:  position{line: 143, col: 1, offset: 3169},
+			pos:  position{line: 145, col: 1, offset: 3259},
 			expr: &actionExpr{
-				pos: position{line: 143, col: 20, offset: 3188},
+				pos: position{line: 145, col: 20, offset: 3278},
 				run: (*parser).callonPreformattedArg1,
 				expr: &seqExpr{
-					pos: position{line: 143, col: 20, offset: 3188},
+					pos: position{line: 145, col: 20, offset: 3278},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 143, col: 20, offset: 3188},
+							pos:        position{line: 145, col: 20, offset: 3278},
 							val:        "{{",
 							ignoreCase: false,
 							want:       "\"{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 143, col: 25, offset: 3193},
+							pos:   position{line: 145, col: 25, offset: 3283},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 143, col: 30, offset: 3198},
+								pos:  position{line: 145, col: 30, offset: 3288},
 								name: "PreformattedBlock",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 143, col: 48, offset: 3216},
+							pos:        position{line: 145, col: 48, offset: 3306},
 							val:        "}}",
 							ignoreCase: false,
 							want:       "\"}}\"",
@@ -856,14 +888,14 @@ var g = &grammar{
 		},
 		{
 			name: "EmptyArg",
-			pos:  position{line: 147, col: 1, offset: 3245},
+			pos:  position{line: 149, col: 1, offset: 3335},
 			expr: &actionExpr{
-				pos: position{line: 147, col: 13, offset: 3257},
+				pos: position{line: 149, col: 13, offset: 3347},
 				run: (*parser).callonEmptyArg1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 147, col: 13, offset: 3257},
+					pos: position{line: 149, col: 13, offset: 3347},
 					expr: &ruleRefExpr{
-						pos:  position{line: 147, col: 13, offset: 3257},
+						pos:  position{line: 149, col: 13, offset: 3347},
 						name: "CommentSpacing",
 					},
 				},
@@ -871,37 +903,37 @@ var g = &grammar{
 		},
 		{
 			name: "Arg",
-			pos:  position{line: 149, col: 1, offset: 3294},
+			pos:  position{line: 151, col: 1, offset: 3384},
 			expr: &actionExpr{
-				pos: position{line: 149, col: 8, offset: 3301},
+				pos: position{line: 151, col: 8, offset: 3391},
 				run: (*parser).callonArg1,
 				expr: &seqExpr{
-					pos: position{line: 149, col: 8, offset: 3301},
+					pos: position{line: 151, col: 8, offset: 3391},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 149, col: 8, offset: 3301},
+							pos:        position{line: 151, col: 8, offset: 3391},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 149, col: 12, offset: 3305},
+							pos:   position{line: 151, col: 12, offset: 3395},
 							label: "node",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 149, col: 17, offset: 3310},
+								pos: position{line: 151, col: 17, offset: 3400},
 								expr: &choiceExpr{
-									pos: position{line: 149, col: 18, offset: 3311},
+									pos: position{line: 151, col: 18, offset: 3401},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 149, col: 18, offset: 3311},
+											pos:  position{line: 151, col: 18, offset: 3401},
 											name: "WrappedLine",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 149, col: 32, offset: 3325},
+											pos:  position{line: 151, col: 32, offset: 3415},
 											name: "ParaArg",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 149, col: 42, offset: 3335},
+											pos:  position{line: 151, col: 42, offset: 3425},
 											name: "EmptyArg",
 										},
 									},
@@ -909,7 +941,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 149, col: 53, offset: 3346},
+							pos:        position{line: 151, col: 53, offset: 3436},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -920,25 +952,25 @@ var g = &grammar{
 		},
 		{
 			name: "ParaArg",
-			pos:  position{line: 157, col: 1, offset: 3437},
+			pos:  position{line: 159, col: 1, offset: 3527},
 			expr: &actionExpr{
-				pos: position{line: 157, col: 12, offset: 3448},
+				pos: position{line: 159, col: 12, offset: 3538},
 				run: (*parser).callonParaArg1,
 				expr: &seqExpr{
-					pos: position{line: 157, col: 12, offset: 3448},
+					pos: position{line: 159, col: 12, offset: 3538},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 157, col: 12, offset: 3448},
+							pos:   position{line: 159, col: 12, offset: 3538},
 							label: "paras",
 							expr: &ruleRefExpr{
-								pos:  position{line: 157, col: 18, offset: 3454},
+								pos:  position{line: 159, col: 18, offset: 3544},
 								name: "Paragraphs",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 157, col: 29, offset: 3465},
+							pos: position{line: 159, col: 29, offset: 3555},
 							expr: &charClassMatcher{
-								pos:        position{line: 157, col: 29, offset: 3465},
+								pos:        position{line: 159, col: 29, offset: 3555},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -951,20 +983,20 @@ var g = &grammar{
 		},
 		{
 			name: "Argument",
-			pos:  position{line: 161, col: 1, offset: 3497},
+			pos:  position{line: 163, col: 1, offset: 3587},
 			expr: &choiceExpr{
-				pos: position{line: 161, col: 13, offset: 3509},
+				pos: position{line: 163, col: 13, offset: 3599},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 161, col: 13, offset: 3509},
+						pos:  position{line: 163, col: 13, offset: 3599},
 						name: "VerbatimArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 161, col: 27, offset: 3523},
+						pos:  position{line: 163, col: 27, offset: 3613},
 						name: "PreformattedArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 161, col: 45, offset: 3541},
+						pos:  position{line: 163, col: 45, offset: 3631},
 						name: "Arg",
 					},
 				},
@@ -972,14 +1004,14 @@ var g = &grammar{
 		},
 		{
 			name: "Indent",
-			pos:  position{line: 163, col: 1, offset: 3546},
+			pos:  position{line: 165, col: 1, offset: 3636},
 			expr: &actionExpr{
-				pos: position{line: 163, col: 11, offset: 3556},
+				pos: position{line: 165, col: 11, offset: 3646},
 				run: (*parser).callonIndent1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 163, col: 11, offset: 3556},
+					pos: position{line: 165, col: 11, offset: 3646},
 					expr: &charClassMatcher{
-						pos:        position{line: 163, col: 11, offset: 3556},
+						pos:        position{line: 165, col: 11, offset: 3646},
 						val:        "[ \\t]",
 						chars:      []rune{' ', '\t'},
 						ignoreCase: false,
@@ -1061,6 +1093,16 @@ func (p *parser) callonWord1() (interface{}, error) {
 	return p.cur.onWord1(stack["val"])
 }
 
+func (c *current) onCommentWord1() (interface{}, error) {
+	return Sequence{}, nil
+}
+
+func (p *parser) callonCommentWord1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCommentWord1()
+}
+
 func (c *current) onInterpolated1(word interface{}) (interface{}, error) {
 	if word == nil {
 		return Sequence{}, nil
-- 
2.43.0


From 7d686062b8ef9439230fa5474e9d0e9e72385ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 03/34] fix: pass empty content for arguments that evaluate to
 nothing

---
 stages/evaluate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index ac0f986..6f85b64 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -327,5 +327,9 @@ func (eval Evaluate) evalArg(node ast.Node) (booklit.Content, error) {
 		return nil, err
 	}
 
+	if subEval.Result == nil {
+		return booklit.Empty, nil
+	}
+
 	return subEval.Result, nil
 }
-- 
2.43.0


From d52e21757ba700b318143f9fc2bf63612f6f64fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 04/34] fix: set a call's own location after evaluating its
 arguments

---
 stages/evaluate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 6f85b64..7c7bcba 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -226,6 +226,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		}
 	}
 
+	// evaluating arguments may have invoked other functions
+	eval.Section.InvokeLocation = invoke.Location
+
 	result := method.Call(argv)
 
 	switch methodType.NumOut() {
-- 
2.43.0


From 740da0b875b8ab77cb74c54d093a78df1b21acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 05/34] fix: allow functions to return nil content

---
 stages/evaluate.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 7c7bcba..07b0018 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -252,7 +252,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 				}
 			}
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			if val != nil {
+				eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			}
 		default:
 			return fmt.Errorf("unknown return type: %s", valType)
 		}
@@ -280,7 +282,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		firstType := methodType.Out(0)
 		switch reflect.New(firstType).Interface().(type) {
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			if first != nil {
+				eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			}
 		default:
 			return fmt.Errorf("unknown first return type: %s", firstType)
 		}
-- 
2.43.0


From c15ec4f841e517db04e9c9200605c7a79df22084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 06/34] fix: append every given content without sharing the
 operand

---
 append.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/append.go b/append.go
index bfe65bf..c8303e8 100644
--- a/append.go
+++ b/append.go
@@ -16,9 +16,9 @@ func Append(first Content, rest ...Content) Content {
 		case nil:
 			appended = content
 		case Sequence:
-			return Sequence(append(v, content))
+			appended = append(v[:len(v):len(v)], content)
 		default:
-			return Sequence([]Content{appended, content})
+			appended = Sequence([]Content{appended, content})
 		}
 	}
 
-- 
2.43.0


From 6aa3924803f0f32e9ac39564f2f602222cd8b6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 07/34] fix: strip auxiliary content that is not in a sequence,
 and allow absent content

---
 aux_.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aux_.go b/aux_.go
index a480908..4865125 100644
--- a/aux_.go
+++ b/aux_.go
@@ -13,6 +13,14 @@ type Aux struct {
 // StripAux recurses through Content and removes any Aux content from any
 // nested sequences.
 func StripAux(content Content) Content {
+	if content == nil {
+		return nil
+	}
+
+	if _, isAux := content.(Aux); isAux {
+		return Empty
+	}
+
 	visitor := &stripAuxVisitor{}
 
 	_ = content.Visit(visitor)
-- 
2.43.0


From db2ae0ec8cd4780c18d6c1b440c93471ea19c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 08/34] fix: collect targets in partials in a fixed order

---
 stages/collect.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/stages/collect.go b/stages/collect.go
index 05708e2..a3c7d11 100644
--- a/stages/collect.go
+++ b/stages/collect.go
@@ -1,6 +1,10 @@
 package stages
 
-import "github.com/vito/booklit"
+import (
+	"sort"
+
+	"github.com/vito/booklit"
+)
 
 // Collect is a booklit.Visitor that collects all tag targets and sets them on
 // the section.
@@ -67,11 +71,9 @@ func (collect *Collect) VisitSection(con *booklit.Section) error {
 		return err
 	}
 
-	for _, p := range con.Partials {
-		err = p.Visit(collect)
-		if err != nil {
-			return err
-		}
+	err = collect.visitPartials(con.Partials)
+	if err != nil {
+		return err
 	}
 
 	for _, child := range con.Children {
@@ -100,12 +102,25 @@ func (collect *Collect) VisitStyled(con booklit.Styled) error {
 		return err
 	}
 
-	for _, v := range con.Partials {
-		if v == nil {
+	return collect.visitPartials(con.Partials)
+}
+
+// visitPartials visits each partial, ordered by name.
+func (collect *Collect) visitPartials(partials booklit.Partials) error {
+	names := []string{}
+	for name := range partials {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
+		p := partials[name]
+		if p == nil {
 			continue
 		}
 
-		err := v.Visit(collect)
+		err := p.Visit(collect)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a3a2767cae9a1fe3d3138c461f933c05d77528ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 09/34] fix: let single-page overrule split-sections regardless
 of order

---
 baselit/plugin.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index d78d873..7eb0bf2 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -94,6 +94,18 @@ func (plugin Plugin) IncludeSection(path string) error {
 
 func (plugin Plugin) SinglePage() {
 	plugin.section.PreventSplitSections = true
+
+	joinSections(plugin.section)
+}
+
+// joinSections overrules any earlier SplitSections in the section and its
+// children.
+func joinSections(section *booklit.Section) {
+	section.SplitSections = false
+
+	for _, child := range section.Children {
+		joinSections(child)
+	}
 }
 
 func (plugin Plugin) SplitSections() {
-- 
2.43.0


From fb10e8e5243e366b9d67b98a7c2a61bc94142f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 10/34] fix: report sections including themselves instead of
 overflowing the stack

---
 baselit/plugin.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index 7eb0bf2..ce42ed5 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -82,6 +82,12 @@ func (plugin Plugin) Section(node ast.Node) error {
 func (plugin Plugin) IncludeSection(path string) error {
 	sectionPath := filepath.Join(filepath.Dir(plugin.section.FilePath()), path)
 
+	for parent := plugin.section; parent != nil; parent = parent.Parent {
+		if parent.Path == sectionPath {
+			return fmt.Errorf("section includes itself: %s", sectionPath)
+		}
+	}
+
 	section, err := plugin.section.Processor.EvaluateFile(plugin.section, sectionPath, []booklit.PluginFactory{NewPlugin})
 	if err != nil {
 		return err
-- 
2.43.0


From 25179063a50cdce7ba24bfb51e62394dad88938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 11/34] fix: reparse documents whose file was replaced by an
 older one

---
 load/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/load/processor.go b/load/processor.go
index 315da94..4d1411e 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -76,7 +76,7 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 	})
 
 	var node ast.Node
-	if found && !modTime.After(parsed.ModTime) {
+	if found && modTime.Equal(parsed.ModTime) {
 		log.Debug("already parsed section")
 		node = parsed.Node
 	} else {
-- 
2.43.0


From 784dcc41becb687179d402ca9002023d9be8e421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 12/34] fix: close documents that fail to parse

---
 load/processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/load/processor.go b/load/processor.go
index 4d1411e..d331ce9 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -89,6 +89,8 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 
 		result, err := ast.ParseReader(path, file)
 		if err != nil {
+			_ = file.Close()
+
 			astErr, ok := ast.UnpackError(err)
 			if !ok {
 				return nil, err
-- 
2.43.0


From ef3daa1b7aacd41fe855e075074b0847ede2ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 13/34] fix: let untitled sections be linked to their page

---
 load/processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/load/processor.go b/load/processor.go
index d331ce9..9068ed3 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -163,6 +163,8 @@ func (processor *Processor) EvaluateNode(parent *booklit.Section, node ast.Node,
 }
 
 func (processor *Processor) evaluateSection(section *booklit.Section, node ast.Node, pluginFactories []booklit.PluginFactory) error {
+	section.PrimaryTag.Section = section
+
 	for _, pf := range pluginFactories {
 		section.UsePlugin(pf)
 	}
-- 
2.43.0


From 6a69e1c75dcc3dac571d4c88097578fc2067ce08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 14/34] fix: never warn about a slow call after it has finished

---
 stages/evaluate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index 07b0018..c53c719 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -164,9 +164,13 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 
 	if eval.SlowInvokeThreshold > 0 {
 		start := time.Now()
+		finished := false
 		complain := time.AfterFunc(eval.SlowInvokeThreshold, func() {
 			complainL.Lock()
 			defer complainL.Unlock()
+			if finished {
+				return
+			}
 			logrus.WithField("elapsed", time.Since(start)).
 				Warn(loc.Annotate("slow invoke: \\%s (still running)", invoke.Function))
 			loc.AnnotateLocation(os.Stderr)
@@ -175,6 +179,7 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		defer func() {
 			complainL.Lock()
 			defer complainL.Unlock()
+			finished = true
 			if complain.Stop() {
 				logrus.WithField("duration", time.Since(start)).
 					Debug(loc.Annotate("fast invoke: \\%s", invoke.Function))
-- 
2.43.0


From 270c1962375f9c5d06bb9abb54229dcf781d4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 15/34] fix: report errors closing rendered pages

---
 render/writer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/render/writer.go b/render/writer.go
index db1b627..7ab3520 100644
--- a/render/writer.go
+++ b/render/writer.go
@@ -125,8 +125,6 @@ func (writer Writer) writeSingleSection(section *booklit.Section) error {
 		return err
 	}
 
-	defer file.Close()
-
 	logrus.WithFields(logrus.Fields{
 		"section":  section.Path,
 		"rendered": path,
@@ -134,8 +132,9 @@ func (writer Writer) writeSingleSection(section *booklit.Section) error {
 
 	err = writer.Engine.RenderSection(file, section)
 	if err != nil {
+		_ = file.Close()
 		return err
 	}
 
-	return nil
+	return file.Close()
 }
-- 
2.43.0


From d5305c63720c0931d9c0485de628ae3b5b255e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 16/34] fix: escape characters with a meaning in URLs in links
 to pages

---
 render/common.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/render/common.go b/render/common.go
index 4af1648..7d7e1c2 100644
--- a/render/common.go
+++ b/render/common.go
@@ -1,6 +1,10 @@
 package render
 
-import "github.com/vito/booklit"
+import (
+	"strings"
+
+	"github.com/vito/booklit"
+)
 
 // WalkContext is a utility type constructed via the walkContext template
 // function.
@@ -21,6 +25,10 @@ func sectionPageOwner(section *booklit.Section) *booklit.Section {
 	return sectionPageOwner(section.Parent)
 }
 
+// fileNameEscaper escapes characters which would otherwise end the path, start
+// a URL scheme, or be taken for an escape.
+var fileNameEscaper = strings.NewReplacer("%", "%25", "#", "%23", "?", "%3F", ":", "%3A")
+
 func sectionURL(ext string, section *booklit.Section, anchor string) string {
 	owner := sectionPageOwner(section)
 
@@ -32,7 +40,7 @@ func sectionURL(ext string, section *booklit.Section, anchor string) string {
 		return sectionURL(ext, owner, anchor)
 	}
 
-	filename := section.PrimaryTag.Name + "." + ext
+	filename := fileNameEscaper.Replace(section.PrimaryTag.Name + "." + ext)
 
 	if anchor != "" {
 		filename += "#" + anchor
-- 
2.43.0


From 64e0fb0107ad22ebbfe19f64d411073087140de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:33 +0000
Subject: [PATCH 17/34] fix: keep loaded templates in step with removed, older,
 and broken files

---
 render/html.go | 12 +++++++++---
 render/text.go | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/render/html.go b/render/html.go
index 8c83a19..b2e8dd6 100644
--- a/render/html.go
+++ b/render/html.go
@@ -112,7 +112,10 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	modTimes := map[string]time.Time{}
+
+	// templates may have been removed, or failed to load the last time
+	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -122,11 +125,11 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
@@ -134,6 +137,7 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 	}
 
 	engine.resetTmpl()
+	engine.tmplModTimes = nil
 
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
@@ -149,6 +153,8 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		}
 	}
 
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
diff --git a/render/text.go b/render/text.go
index 04a1f0c..93c354f 100644
--- a/render/text.go
+++ b/render/text.go
@@ -104,7 +104,10 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	modTimes := map[string]time.Time{}
+
+	// templates may have been removed, or failed to load the last time
+	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -114,11 +117,11 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
@@ -126,6 +129,7 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 	}
 
 	engine.resetTmpl()
+	engine.tmplModTimes = nil
 
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
@@ -141,6 +145,8 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		}
 	}
 
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
-- 
2.43.0


From 4fed2a77dd325969e3531063c3632ca1c2b41e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 18/34] fix: fall back to page.tmpl for styled text pages

---
 render/text.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/render/text.go b/render/text.go
index 93c354f..871fadf 100644
--- a/render/text.go
+++ b/render/text.go
@@ -166,14 +166,23 @@ func (engine *TextEngine) URL(tag booklit.Tag) string {
 // If the section has Style set and a template named (Style)-page.tmpl exists
 // it will be used instead.
 func (engine *TextEngine) RenderSection(out io.Writer, con *booklit.Section) error {
-	tmpl := "page"
+	engine.data = con
+
+	try := []string{}
+
 	if con.Style != "" {
-		tmpl = con.Style + "-page"
+		try = append(try, con.Style+"-page")
 	}
 
-	engine.data = con
+	try = append(try, "page")
 
-	err := engine.setTmpl(tmpl)
+	var err error
+	for _, tmpl := range try {
+		err = engine.setTmpl(tmpl)
+		if err == nil {
+			break
+		}
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 659c5c033b133a02c4c8684940eae9d3a96a6913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 19/34] fix: close the search index when writing it fails

---
 render/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/render/writer.go b/render/writer.go
index 7ab3520..f0bd7da 100644
--- a/render/writer.go
+++ b/render/writer.go
@@ -82,6 +82,7 @@ func (writer Writer) WriteSearchIndex(section *booklit.Section, path string) err
 
 	err = json.NewEncoder(indexFile).Encode(index)
 	if err != nil {
+		_ = indexFile.Close()
 		return err
 	}
 
-- 
2.43.0


From a6e3c9d02cd71d6591c1d4701a338e9db932a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 20/34] fix: quote and mark the right text in error reports

---
 errors.go | 55 ++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/errors.go b/errors.go
index 1dd3bb0..d762f63 100644
--- a/errors.go
+++ b/errors.go
@@ -339,7 +339,7 @@ func (loc ErrorLocation) AnnotateLocation(out io.Writer) {
 		return
 	}
 
-	line, err := loc.lineInQuestion()
+	line, _, err := loc.lineInQuestion()
 	if err != nil {
 		fmt.Fprintln(out, err)
 		return
@@ -368,7 +368,7 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 		return nil
 	}
 
-	line, err := loc.lineInQuestion()
+	line, eof, err := loc.lineInQuestion()
 	if err != nil {
 		return err
 	}
@@ -378,24 +378,39 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 		Lineno:   fmt.Sprintf("% 4d", loc.NodeLocation.Line),
 	}
 
-	if line == "" {
+	if eof {
 		data.EOF = true
 	}
 
-	offset := loc.NodeLocation.Col - 1
-	if len(line) >= offset+loc.Length {
-		data.Prefix = line[0:offset]
-		data.Annotated = line[offset : offset+loc.Length]
-		data.Suffix = line[offset+loc.Length:]
-	}
+	start := columnOffset(line, loc.NodeLocation.Col)
+	end := columnOffset(line, loc.NodeLocation.Col+loc.Length)
+	data.Prefix = line[:start]
+	data.Annotated = line[start:end]
+	data.Suffix = line[end:]
 
 	return errorTmpl.Lookup("annotated-line.tmpl").Execute(out, data)
 }
 
-func (loc ErrorLocation) lineInQuestion() (string, error) {
+// columnOffset returns the offset of the 1-based column, counted in characters
+// and limited to the line. Column 0 is the line break before the line.
+func columnOffset(line string, col int) int {
+	for offset := range line {
+		if col <= 1 {
+			return offset
+		}
+
+		col--
+	}
+
+	return len(line)
+}
+
+// lineInQuestion returns the line without its line break, and whether it is
+// beyond the end of the file.
+func (loc ErrorLocation) lineInQuestion() (string, bool, error) {
 	file, err := os.Open(loc.FilePath)
 	if err != nil {
-		return "", err
+		return "", false, err
 	}
 
 	defer file.Close()
@@ -403,20 +418,18 @@ func (loc ErrorLocation) lineInQuestion() (string, error) {
 	buf := bufio.NewReader(file)
 
 	for i := 0; i < loc.NodeLocation.Line-1; i++ {
-		_, _, err := buf.ReadLine()
+		_, err := buf.ReadString('\n')
 		if err != nil {
-			return "", err
+			return "", false, err
 		}
 	}
 
-	lineInQuestion, _, err := buf.ReadLine()
-	if err != nil {
-		if err == io.EOF {
-			return "", nil
-		}
-
-		return "", err
+	line, err := buf.ReadString('\n')
+	if err != nil && err != io.EOF {
+		return "", false, err
 	}
 
-	return string(lineInQuestion), nil
+	eof := err == io.EOF && line == ""
+
+	return strings.TrimSuffix(strings.TrimSuffix(line, "\n"), "\r"), eof, nil
 }
-- 
2.43.0


From f7ccbd571f92ba2cc1634c2ed0c55c79afd01ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 21/34] fix: stop references in titles that refer to each other
 from recursing forever

---
 reference.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reference.go b/reference.go
index b026c3e..684013a 100644
--- a/reference.go
+++ b/reference.go
@@ -34,6 +34,9 @@ type Reference struct {
 
 	// The result of Resolving the reference.
 	tag *Tag
+
+	// Set while String summarizes the tag's title, which may refer back.
+	summarizing bool
 }
 
 // IsFlow returns true.
@@ -47,11 +50,18 @@ func (con *Reference) String() string {
 		return con.Content.String()
 	}
 
+	if con.summarizing {
+		return fmt.Sprintf("{circular reference: %s}", con.TagName)
+	}
+
 	tag, err := con.Tag()
 	if err != nil {
 		return fmt.Sprintf("{broken reference: %s: %s}", con.TagName, err)
 	}
 
+	con.summarizing = true
+	defer func() { con.summarizing = false }()
+
 	return tag.Title.String()
 }
 
-- 
2.43.0


From daa68841f522b152c0992dcd4d2bfe817cdfd79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:57 +0000
Subject: [PATCH 22/34] fix: report content that contains itself instead of
 overflowing the stack

---
 render/common.go |  6 ++++++
 render/html.go   | 14 ++++++++++++++
 render/text.go   | 14 ++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/render/common.go b/render/common.go
index 7d7e1c2..e0ce4eb 100644
--- a/render/common.go
+++ b/render/common.go
@@ -1,6 +1,7 @@
 package render
 
 import (
+	"errors"
 	"strings"
 
 	"github.com/vito/booklit"
@@ -13,6 +14,11 @@ type WalkContext struct {
 	Section *booklit.Section
 }
 
+// maxRenderDepth limits how deeply content may be nested when rendering it.
+const maxRenderDepth = 10000
+
+var errRenderDepth = errors.New("content is nested too deeply; it may contain itself")
+
 func sectionPageOwner(section *booklit.Section) *booklit.Section {
 	if section.Parent == nil {
 		return section
diff --git a/render/html.go b/render/html.go
index b2e8dd6..68b848c 100644
--- a/render/html.go
+++ b/render/html.go
@@ -84,6 +84,9 @@ type HTMLEngine struct {
 
 	template *template.Template
 	data     interface{}
+
+	// how many nested calls to subRender are in progress
+	depth int
 }
 
 // NewHTMLEngine constructs a new HTMLEngine with the basic set of HTML
@@ -320,6 +323,13 @@ func (engine *HTMLEngine) render(out io.Writer) error {
 }
 
 func (engine *HTMLEngine) subRender(content booklit.Content) (template.HTML, error) {
+	if engine.depth >= maxRenderDepth {
+		return "", errRenderDepth
+	}
+
+	engine.depth++
+	defer func() { engine.depth-- }()
+
 	buf := new(bytes.Buffer)
 
 	subEngine := NewHTMLEngine()
@@ -331,6 +341,10 @@ func (engine *HTMLEngine) subRender(content booklit.Content) (template.HTML, err
 	}
 
 	err = subEngine.render(buf)
+	if errors.Is(err, errRenderDepth) {
+		// don't repeat the location of every level
+		return "", errRenderDepth
+	}
 	if err != nil {
 		return "", err
 	}
diff --git a/render/text.go b/render/text.go
index 871fadf..2ddf274 100644
--- a/render/text.go
+++ b/render/text.go
@@ -69,6 +69,9 @@ type TextEngine struct {
 
 	template *template.Template
 	data     interface{}
+
+	// how many nested calls to subRender are in progress
+	depth int
 }
 
 // NewTextEngine constructs a new TextEngine with the basic set of text
@@ -313,6 +316,13 @@ func (engine *TextEngine) render(out io.Writer) error {
 }
 
 func (engine *TextEngine) subRender(content booklit.Content) (string, error) {
+	if engine.depth >= maxRenderDepth {
+		return "", errRenderDepth
+	}
+
+	engine.depth++
+	defer func() { engine.depth-- }()
+
 	buf := new(bytes.Buffer)
 
 	subEngine := NewTextEngine(engine.fileExtension)
@@ -324,6 +334,10 @@ func (engine *TextEngine) subRender(content booklit.Content) (string, error) {
 	}
 
 	err = subEngine.render(buf)
+	if errors.Is(err, errRenderDepth) {
+		// don't repeat the location of every level
+		return "", errRenderDepth
+	}
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 7d8625c715b842eff88e7f36b37c4a6ff8dde3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:58 +0000
Subject: [PATCH 23/34] fix: report errors in documents that were truncated
 since

---
 errors.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errors.go b/errors.go
index d762f63..c2e61d5 100644
--- a/errors.go
+++ b/errors.go
@@ -419,6 +419,9 @@ func (loc ErrorLocation) lineInQuestion() (string, bool, error) {
 
 	for i := 0; i < loc.NodeLocation.Line-1; i++ {
 		_, err := buf.ReadString('\n')
+		if err == io.EOF {
+			return "", true, nil
+		}
 		if err != nil {
 			return "", false, err
 		}
-- 
2.43.0


From e0fcbac9a00156ced6461276e96f893e3f649e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:45 +0000
Subject: [PATCH 24/34] fix: escape colons and percent signs in links to
 anchors

---
 render/common.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/render/common.go b/render/common.go
index e0ce4eb..eb7d255 100644
--- a/render/common.go
+++ b/render/common.go
@@ -35,6 +35,10 @@ func sectionPageOwner(section *booklit.Section) *booklit.Section {
 // a URL scheme, or be taken for an escape.
 var fileNameEscaper = strings.NewReplacer("%", "%25", "#", "%23", "?", "%3F", ":", "%3A")
 
+// anchorEscaper escapes characters in fragments which would otherwise make the
+// URL be taken for one with a scheme, or be taken for an escape.
+var anchorEscaper = strings.NewReplacer("%", "%25", ":", "%3A")
+
 func sectionURL(ext string, section *booklit.Section, anchor string) string {
 	owner := sectionPageOwner(section)
 
@@ -49,7 +53,7 @@ func sectionURL(ext string, section *booklit.Section, anchor string) string {
 	filename := fileNameEscaper.Replace(section.PrimaryTag.Name + "." + ext)
 
 	if anchor != "" {
-		filename += "#" + anchor
+		filename += "#" + anchorEscaper.Replace(anchor)
 	}
 
 	return filename
-- 
2.43.0


From d76b9c875b2f3f920cecd3802782874295d49bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:13 +0000
Subject: [PATCH 25/34] fix: don't take exponential time to parse nested braces
 that are left open

---
 ast/parse.go      | 44 ++++++++++++++++++++++++++++++++++++++++++++
 load/processor.go |  2 +-
 2 files changed, 45 insertions(+), 1 deletion(-)
 create mode 100644 ast/parse.go

diff --git a/ast/parse.go b/ast/parse.go
new file mode 100644
index 0000000..4e05568
--- /dev/null
+++ b/ast/parse.go
@@ -0,0 +1,44 @@
+package ast
+
+import (
+	"io"
+)
+
+// maxExpressionsPerByte is far more than it takes to parse a typical document.
+const maxExpressionsPerByte = 200
+
+// ParseDocument parses a Booklit document.
+//
+// Typically this is fastest without memoizing, but takes exponential time for
+// e.g. deeply nested braces with one of them left open. Such documents are
+// parsed with memoization instead.
+func ParseDocument(filename string, r io.Reader) (interface{}, error) {
+	source, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+
+	limit := uint64(len(source)+100) * maxExpressionsPerByte
+
+	node, err := Parse(filename, source, MaxExpressions(limit))
+	if isMaxExpressions(err) {
+		return Parse(filename, source, Memoize(true))
+	}
+
+	return node, err
+}
+
+func isMaxExpressions(err error) bool {
+	list, ok := err.(errList)
+	if !ok {
+		return false
+	}
+
+	for _, e := range list {
+		if perr, ok := e.(*parserError); ok && perr.Inner == errMaxExprCnt {
+			return true
+		}
+	}
+
+	return false
+}
diff --git a/load/processor.go b/load/processor.go
index 9068ed3..e5806d7 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -87,7 +87,7 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 			return nil, err
 		}
 
-		result, err := ast.ParseReader(path, file)
+		result, err := ast.ParseDocument(path, file)
 		if err != nil {
 			_ = file.Close()
 
-- 
2.43.0


From 007fb2956feb4c458ad943e596830e1b1aba1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 26/34] fix: show the error when its source file can't be read

---
 errors.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/errors.go b/errors.go
index c2e61d5..73d18aa 100644
--- a/errors.go
+++ b/errors.go
@@ -370,6 +370,7 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 
 	line, eof, err := loc.lineInQuestion()
 	if err != nil {
+		_, err = fmt.Fprintf(out, `<pre class="raw-error">%s</pre>`, template.HTMLEscapeString(err.Error()))
 		return err
 	}
 
-- 
2.43.0


From 61b30db5b175e21dd1b4d6f2f38fc9457ab7f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 27/34] fix: write the selected section even when it is not a
 page of its own

--section-tag and --section-path together with --out wrote nothing, and
reported success, when the selected section's parent does not split.
---
 render/writer.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/render/writer.go b/render/writer.go
index f0bd7da..40d0b2a 100644
--- a/render/writer.go
+++ b/render/writer.go
@@ -41,20 +41,29 @@ type SearchDocument struct {
 	SectionTag string `json:"section_tag"`
 }
 
-// WriteSection renders the given section to disk if it has no
-// parent or if its parent is configured with SplitSections.
+// WriteSection renders the given section to disk.
 //
-// After rendering, WriteSection recurses to the section's Children.
+// After rendering, WriteSection recurses to the section's Children, rendering
+// each one whose parent is configured with SplitSections.
 func (writer Writer) WriteSection(section *booklit.Section) error {
-	if section.Parent == nil || section.Parent.SplitSections {
-		err := writer.writeSingleSection(section)
-		if err != nil {
-			return err
-		}
+	err := writer.writeSingleSection(section)
+	if err != nil {
+		return err
 	}
 
+	return writer.writeChildren(section)
+}
+
+func (writer Writer) writeChildren(section *booklit.Section) error {
 	for _, child := range section.Children {
-		err := writer.WriteSection(child)
+		if section.SplitSections {
+			err := writer.writeSingleSection(child)
+			if err != nil {
+				return err
+			}
+		}
+
+		err := writer.writeChildren(child)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 51fc2056f31c03b0c71b46d44a368fd689d44c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 28/34] fix: report an error to those asking again for deferred
 content that panicked

sync.Once counts a panicking function as done, so later calls of Force
returned neither content nor an error, which crashed renderers.
---
 lazy.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lazy.go b/lazy.go
index 497bcdb..cd07fd0 100644
--- a/lazy.go
+++ b/lazy.go
@@ -1,6 +1,9 @@
 package booklit
 
-import "sync"
+import (
+	"errors"
+	"sync"
+)
 
 type Lazy struct {
 	Block bool
@@ -50,6 +53,9 @@ func (lazy *Lazy) Visit(visitor Visitor) error {
 // Force generates the deferred content if needed and returns it.
 func (lazy *Lazy) Force() (Content, error) {
 	lazy.once.Do(func() {
+		// returned to everyone asking later if fn panics
+		lazy.err = errors.New("deferred content panicked")
+
 		lazy.result, lazy.err = lazy.fn()
 	})
 
-- 
2.43.0


From 98f231eff26d1bb3c5921520a7d9744fa7fc7ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 29/34] fix: tolerate templates removed or replaced while they
 are loaded

---
 render/html.go      | 17 +++++++++++++----
 render/templates.go | 30 ++++++++++++++++++++++++++++++
 render/text.go      | 17 +++++++++++++----
 3 files changed, 56 insertions(+), 8 deletions(-)
 create mode 100644 render/templates.go

diff --git a/render/html.go b/render/html.go
index 68b848c..30dd71e 100644
--- a/render/html.go
+++ b/render/html.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"html/template"
 	"io"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -118,9 +117,13 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 	modTimes := map[string]time.Time{}
 
 	// templates may have been removed, or failed to load the last time
-	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
+	shouldReload := engine.tmplModTimes == nil
 	for _, path := range templates {
 		info, err := os.Stat(path)
+		if os.IsNotExist(err) {
+			// removed since it was listed
+			continue
+		}
 		if err != nil {
 			return err
 		}
@@ -135,7 +138,7 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		modTimes[path] = modTime
 	}
 
-	if !shouldReload {
+	if !shouldReload && len(modTimes) == len(engine.tmplModTimes) {
 		return nil
 	}
 
@@ -143,11 +146,17 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 	engine.tmplModTimes = nil
 
 	for _, path := range templates {
-		content, err := ioutil.ReadFile(path)
+		content, modTime, err := readTemplate(path)
+		if os.IsNotExist(err) {
+			delete(modTimes, path)
+			continue
+		}
 		if err != nil {
 			return err
 		}
 
+		modTimes[path] = modTime
+
 		trimmed := strings.TrimRight(string(content), "\n")
 
 		_, err = engine.tmpl.New(filepath.Base(path)).Parse(trimmed)
diff --git a/render/templates.go b/render/templates.go
new file mode 100644
index 0000000..4326acd
--- /dev/null
+++ b/render/templates.go
@@ -0,0 +1,30 @@
+package render
+
+import (
+	"io/ioutil"
+	"os"
+	"time"
+)
+
+// readTemplate reads a template, along with the modification time of what it
+// read.
+func readTemplate(path string) ([]byte, time.Time, error) {
+	file, err := os.Open(path)
+	if err != nil {
+		return nil, time.Time{}, err
+	}
+
+	defer file.Close()
+
+	info, err := file.Stat()
+	if err != nil {
+		return nil, time.Time{}, err
+	}
+
+	content, err := ioutil.ReadAll(file)
+	if err != nil {
+		return nil, time.Time{}, err
+	}
+
+	return content, info.ModTime(), nil
+}
diff --git a/render/text.go b/render/text.go
index 2ddf274..7987593 100644
--- a/render/text.go
+++ b/render/text.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -110,9 +109,13 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 	modTimes := map[string]time.Time{}
 
 	// templates may have been removed, or failed to load the last time
-	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
+	shouldReload := engine.tmplModTimes == nil
 	for _, path := range templates {
 		info, err := os.Stat(path)
+		if os.IsNotExist(err) {
+			// removed since it was listed
+			continue
+		}
 		if err != nil {
 			return err
 		}
@@ -127,7 +130,7 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		modTimes[path] = modTime
 	}
 
-	if !shouldReload {
+	if !shouldReload && len(modTimes) == len(engine.tmplModTimes) {
 		return nil
 	}
 
@@ -135,11 +138,17 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 	engine.tmplModTimes = nil
 
 	for _, path := range templates {
-		content, err := ioutil.ReadFile(path)
+		content, modTime, err := readTemplate(path)
+		if os.IsNotExist(err) {
+			delete(modTimes, path)
+			continue
+		}
 		if err != nil {
 			return err
 		}
 
+		modTimes[path] = modTime
+
 		trimmed := strings.TrimRight(string(content), "\n")
 
 		_, err = engine.tmpl.New(filepath.Base(path)).Parse(trimmed)
-- 
2.43.0


From 9fbc4fbe373beea1a6f7ef19a8d2b586eff912d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 30/34] fix: list templates in directories with unusual names,
 and report unreadable ones

---
 render/html.go      |  2 +-
 render/templates.go | 22 ++++++++++++++++++++++
 render/text.go      |  2 +-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/render/html.go b/render/html.go
index 30dd71e..bf33c8f 100644
--- a/render/html.go
+++ b/render/html.go
@@ -109,7 +109,7 @@ func (engine *HTMLEngine) resetTmpl() {
 
 // LoadTemplates loads all *.tmpl files in the specified directory.
 func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
-	templates, err := filepath.Glob(filepath.Join(templatesDir, "*.tmpl"))
+	templates, err := listTemplates(templatesDir)
 	if err != nil {
 		return err
 	}
diff --git a/render/templates.go b/render/templates.go
index 4326acd..f4e3db8 100644
--- a/render/templates.go
+++ b/render/templates.go
@@ -3,9 +3,31 @@ package render
 import (
 	"io/ioutil"
 	"os"
+	"path/filepath"
+	"strings"
 	"time"
 )
 
+// listTemplates lists all *.tmpl files in a directory, which need not exist.
+func listTemplates(dir string) ([]string, error) {
+	files, err := os.ReadDir(filepath.Join(dir, "."))
+	if os.IsNotExist(err) {
+		return nil, nil
+	}
+	if err != nil {
+		return nil, err
+	}
+
+	var templates []string
+	for _, file := range files {
+		if strings.HasSuffix(file.Name(), ".tmpl") {
+			templates = append(templates, filepath.Join(dir, file.Name()))
+		}
+	}
+
+	return templates, nil
+}
+
 // readTemplate reads a template, along with the modification time of what it
 // read.
 func readTemplate(path string) ([]byte, time.Time, error) {
diff --git a/render/text.go b/render/text.go
index 7987593..d89b804 100644
--- a/render/text.go
+++ b/render/text.go
@@ -101,7 +101,7 @@ func (engine *TextEngine) resetTmpl() {
 
 // LoadTemplates loads all *.tmpl files in the specified directory.
 func (engine *TextEngine) LoadTemplates(templatesDir string) error {
-	templates, err := filepath.Glob(filepath.Join(templatesDir, "*.tmpl"))
+	templates, err := listTemplates(templatesDir)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 28f2d589c507984a535a184b74cc3c05c4de89fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 31/34] fix: remember the modification time of the file that
 was parsed

---
 load/processor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/load/processor.go b/load/processor.go
index e5806d7..8e4181c 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -87,6 +87,15 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 			return nil, err
 		}
 
+		// it may have been replaced in the meantime
+		info, err := file.Stat()
+		if err != nil {
+			_ = file.Close()
+			return nil, err
+		}
+
+		modTime = info.ModTime()
+
 		result, err := ast.ParseDocument(path, file)
 		if err != nil {
 			_ = file.Close()
-- 
2.43.0


From bce6acf01d2e943f34e155a6ed69c7159cd3d808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 32/34] fix: an empty title did not count as the section's
 title

---
 baselit/plugin.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index ce42ed5..1e76411 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -41,7 +41,8 @@ func (plugin Plugin) Styled(name string) {
 }
 
 func (plugin Plugin) Title(title booklit.Content, tags ...string) error {
-	if plugin.section.Title != booklit.Empty {
+	titled := plugin.section.TitleLocation != ast.Location{}
+	if titled || plugin.section.Title != booklit.Empty {
 		return booklit.TitleTwiceError{
 			TitleLocation: booklit.ErrorLocation{
 				FilePath:     plugin.section.FilePath(),
-- 
2.43.0


From 195d12d836163cb2268d107f0b913e84e3ed692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 33/34] fix: rendering deferred content that turned out to be
 nil crashed

---
 render/html.go | 4 ++++
 render/text.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/render/html.go b/render/html.go
index bf33c8f..7e98db0 100644
--- a/render/html.go
+++ b/render/html.go
@@ -308,6 +308,10 @@ func (engine *HTMLEngine) VisitLazy(con *booklit.Lazy) error {
 		return fmt.Errorf("lazy render: %w", err)
 	}
 
+	if content == nil {
+		content = booklit.Empty
+	}
+
 	return content.Visit(engine)
 }
 
diff --git a/render/text.go b/render/text.go
index d89b804..43e9b40 100644
--- a/render/text.go
+++ b/render/text.go
@@ -301,6 +301,10 @@ func (engine *TextEngine) VisitLazy(con *booklit.Lazy) error {
 		return fmt.Errorf("lazy render: %w", err)
 	}
 
+	if content == nil {
+		content = booklit.Empty
+	}
+
 	return content.Visit(engine)
 }
 
-- 
2.43.0


From e81f4b4aeed811e88b9bb96895abf997a9575c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 34/34] fix: optional references without content crashed

---
 reference.go   | 9 +++++++++
 render/html.go | 5 +++++
 render/text.go | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/reference.go b/reference.go
index 684013a..3e12b61 100644
--- a/reference.go
+++ b/reference.go
@@ -59,6 +59,11 @@ func (con *Reference) String() string {
 		return fmt.Sprintf("{broken reference: %s: %s}", con.TagName, err)
 	}
 
+	if tag == nil {
+		// optional, with no content to show instead
+		return ""
+	}
+
 	con.summarizing = true
 	defer func() { con.summarizing = false }()
 
@@ -82,6 +87,10 @@ func (con *Reference) Display() (Content, error) {
 		return nil, err
 	}
 
+	if tag == nil {
+		return nil, nil
+	}
+
 	return tag.Title, nil
 }
 
diff --git a/render/html.go b/render/html.go
index 7e98db0..a234ec5 100644
--- a/render/html.go
+++ b/render/html.go
@@ -336,6 +336,11 @@ func (engine *HTMLEngine) render(out io.Writer) error {
 }
 
 func (engine *HTMLEngine) subRender(content booklit.Content) (template.HTML, error) {
+	if content == nil {
+		// e.g. an optional reference without content
+		return "", nil
+	}
+
 	if engine.depth >= maxRenderDepth {
 		return "", errRenderDepth
 	}
diff --git a/render/text.go b/render/text.go
index 43e9b40..b306f4c 100644
--- a/render/text.go
+++ b/render/text.go
@@ -329,6 +329,11 @@ func (engine *TextEngine) render(out io.Writer) error {
 }
 
 func (engine *TextEngine) subRender(content booklit.Content) (string, error) {
+	if content == nil {
+		// e.g. an optional reference without content
+		return "", nil
+	}
+
 	if engine.depth >= maxRenderDepth {
 		return "", errRenderDepth
 	}
-- 
2.43.0

