From 61ed5063a9640e65b8f5d9dac102d0829559727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 01/18] fix: EvalRaw lost or duplicated look-ahead chars
 between nodes

Every root rule of every node must start at the same char. Nesting a prepended
stream inside the previous one repeated chars that were still pending there,
and lost those one root rule had read when the next one read fewer.
---
 grammar.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/grammar.go b/grammar.go
index c39d380..2962ba2 100644
--- a/grammar.go
+++ b/grammar.go
@@ -331,15 +331,17 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 	var charsUnused []rune
 	flagLeadingSpaces := SUGGEST_SKIP
 	for {
-		cs = newCharstreamPrepend(cs, charsUnused)
+		cs = newCharstreamPrepend(charstream, charsUnused)
 		if cs.Peek() == EOFChar {
 			break
 		}
 		resultsMatched := make(map[string]*EvalResult)
 		resultsError := make(map[string]*EvalResult)
-		var maxCharsRead []rune
+		// every root rule starts at the same char: all chars taken from the charstream and not
+		// used yet, ie. the unused chars of the previous node and what the other root rules read
+		maxCharsRead := charsUnused
 		for name, ruleRecord := range inst.rootRules {
-			cs = newCharstreamPrepend(cs, maxCharsRead)
+			cs = newCharstreamPrepend(charstream, maxCharsRead)
 			result := ruleRecord.rule.Eval(inst, cs, flagLeadingSpaces)
 			if len(maxCharsRead) < len(result.CharsRead) {
 				maxCharsRead = result.CharsRead
@@ -394,7 +396,6 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[maxResult.countCharsUsed():]
 		}
-		cs = charstream
 	}
 	if len(ast.Nodes) == 0 {
 		return nil, fmt.Errorf("no AST node found")
-- 
2.43.0


From 459abd478b7d5b25d5252aa183a82fbb75104752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 02/18] fix: sequences and repetitions repeated or lost
 look-ahead chars

The prepended stream was nested in the previous one, which may still hold part
of the same unused chars, and the unused chars of an element were taken instead
of the sequence's own when fewer were left than the element used.
---
 rule_concatenate.go | 7 ++-----
 rule_repetition.go  | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/rule_concatenate.go b/rule_concatenate.go
index ab32e3b..263e1cc 100644
--- a/rule_concatenate.go
+++ b/rule_concatenate.go
@@ -35,9 +35,9 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 	}
-	cs := charstream
 	for _, rule := range inst.rules {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		// CharsUnused has all chars taken from the charstream and not used yet
+		cs := newCharstreamPrepend(charstream, evalResult.CharsUnused)
 		result := rule.Eval(grammar, cs, flagLeadingSpaces)
 		//
 		// Update evalResult.CharsRead and evalResult.CharsUnused
@@ -56,9 +56,6 @@ func (inst *ConcatenateRule) Eval(grammar *Grammar, charstream ICharstream, flag
 		} else {
 			resultCharsUsed := result.charsUsed()
 			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
 		}
 
 		if !result.Sticky {
diff --git a/rule_repetition.go b/rule_repetition.go
index 758767a..02652a0 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -43,11 +43,11 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 	}
-	cs := charstream
 	var nodes []*Node // all found matched nodes
 	rule := inst.rule
 	for {
-		cs = newCharstreamPrepend(cs, evalResult.CharsUnused)
+		// CharsUnused has all chars taken from the charstream and not used yet
+		cs := newCharstreamPrepend(charstream, evalResult.CharsUnused)
 		if cs.Peek() == EOFChar {
 			break
 		}
@@ -69,9 +69,6 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 		} else {
 			resultCharsUsed := result.charsUsed()
 			evalResult.CharsUnused = evalResult.CharsUnused[len(resultCharsUsed):] // unusedLeft
-			if len(evalResult.CharsUnused) < len(resultCharsUsed) {
-				evalResult.CharsUnused = result.CharsUnused
-			}
 		}
 
 		if !result.Sticky {
-- 
2.43.0


From d8fa5a4f07372c7e0cddb5b79fba8334829b55c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 03/18] fix: an ambiguous choice swallowed the chars it had
 read

The result of an ambiguity is no match, so all chars read must be returned as
unused for the next alternative.
---
 rule.go        | 2 ++
 rule_choice.go | 1 +
 2 files changed, 3 insertions(+)

diff --git a/rule.go b/rule.go
index 6a413d8..bd521ce 100644
--- a/rule.go
+++ b/rule.go
@@ -310,6 +310,8 @@ func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int,
 				buf.WriteString(fmt.Sprintf("\t\n%s", string(maxResult.Node.Text())))
 				buf.WriteString(fmt.Sprintf("\t\n%s", string(result.Node.Text())))
 				evalResult.Error = errors.New(buf.String())
+				evalResult.CharsRead = maxCharsRead
+				evalResult.CharsUnused = evalResult.CharsRead
 				return evalResult
 			}
 			maxUsed = countCharsUsed
diff --git a/rule_choice.go b/rule_choice.go
index b7683bf..2614d29 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -99,6 +99,7 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 					buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
 					buf.WriteString(fmt.Sprintf("\t\n%s: %s", result.Node.RuleName, string(result.Node.Text())))
 					evalResult.Error = errors.New(buf.String())
+					evalResult.CharsUnused = evalResult.CharsRead
 					return evalResult
 				}
 				maxUsed = countCharsUsed
-- 
2.43.0


From 7e2ff7ff947bd7451b1b6b4d2bfd91c238f0c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 04/18] fix: a char range matched skipped spaces above its end

---
 rule_terminal_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index 18f02e8..c5a14a5 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -42,7 +42,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		skippedWSpaces := charstream.SkipSpaces()
 		evalResult.CharsRead = append(evalResult.CharsRead, skippedWSpaces...)
 		for i, char := range skippedWSpaces {
-			if inst.begin <= char && char >= inst.end {
+			if inst.begin <= char && char <= inst.end {
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
 				node.Chars = append(node.Chars, char)
-- 
2.43.0


From 086871b42157c87e66f59f336c38554002ece336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 05/18] fix: a char range node had the position of the char
 before it

---
 rule_terminal_range.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_range.go b/rule_terminal_range.go
index c5a14a5..71d660b 100644
--- a/rule_terminal_range.go
+++ b/rule_terminal_range.go
@@ -35,7 +35,6 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 		Virtual:   inst.virtual,
 		NonData:   inst.nondata,
 		Sticky:    true,
-		Position:  charstream.PositionLookup(charstream.Cursor() - 1),
 	}
 
 	if flagLeadingSpaces == SUGGEST_SKIP {
@@ -45,6 +44,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 			if inst.begin <= char && char <= inst.end {
 				// matched
 				evalResult.CharsUnused = skippedWSpaces[i+1:]
+				node.Position = charstream.PositionLookup(charstream.Cursor() - len(skippedWSpaces) + i)
 				node.Chars = append(node.Chars, char)
 				evalResult.Node = node
 				return evalResult
@@ -57,6 +57,7 @@ func (inst *TerminalRangeRule) Eval(grammar *Grammar, charstream ICharstream, fl
 	char := charstream.Peek()
 	if inst.begin <= char && char <= inst.end {
 		// matched
+		node.Position = startPos
 		char = charstream.Next()
 		evalResult.CharsRead = append(evalResult.CharsRead, char)
 		node.Chars = append(node.Chars, char)
-- 
2.43.0


From 1d5ce0b3a2825f990d51bbfe5e5c13bf0b8bd3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 06/18] fix: positions on the first line were wrong once a
 newline was read

---
 charstream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/charstream.go b/charstream.go
index c92c025..153bc8d 100644
--- a/charstream.go
+++ b/charstream.go
@@ -97,6 +97,9 @@ func (inst *positionMap) lookup(idx int) *Position {
 	} else if maxLineIdx == 0 {
 		// only 1 line read
 		return &Position{Line: 1, Col: idx + 1}
+	} else if idx < inst.lines[0] {
+		// on the 1st line, before its '\n'
+		return &Position{Line: 1, Col: idx + 1}
 	}
 
 	// the case of "last read char is '\n'"
-- 
2.43.0


From dc740ae4e975f753d6e4bb6569df0d26bd7b0962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 07/18] fix: CharstreamString.Position wrote the position map
 under a read lock

---
 charstream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/charstream.go b/charstream.go
index 153bc8d..9abd84b 100644
--- a/charstream.go
+++ b/charstream.go
@@ -290,8 +290,8 @@ type CharstreamString struct {
 }
 
 func (inst *CharstreamString) Position() *Position {
-	inst.lock.RLock()
-	defer inst.lock.RUnlock()
+	inst.lock.Lock() // the position map is updated
+	defer inst.lock.Unlock()
 
 	if inst.cursor >= len(inst.chars) {
 		// cursor is at EOF
-- 
2.43.0


From cdf9ce73fe1edcfd4d47f50016ddf309059a585f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 08/18] fix: group nodes had no position

---
 rule_group.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_group.go b/rule_group.go
index a6405f2..e4cdecc 100644
--- a/rule_group.go
+++ b/rule_group.go
@@ -32,8 +32,8 @@ func (inst *GroupRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 	}
 	node.Sticky = evalResult.Sticky
 	node.ChildNodes = append(node.ChildNodes, evalResult.Node)
-	evalResult.Node = node
 	node.Position = evalResult.Node.Position
+	evalResult.Node = node
 	return evalResult
 }
 
-- 
2.43.0


From 8f9a475a70597c269e0b497632284dc808c125c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 09/18] fix: chars node position ignored the leading spaces of
 its own text

---
 rule_terminal_chars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rule_terminal_chars.go b/rule_terminal_chars.go
index b2ad7cb..0bcaba8 100644
--- a/rule_terminal_chars.go
+++ b/rule_terminal_chars.go
@@ -51,7 +51,7 @@ func (inst *TerminalCharsRule) Eval(grammar *Grammar, charstream ICharstream, fl
 			evalResult.ErrIdx = charstream.Cursor()
 			return evalResult
 		}
-		startCursor = startCursor + len(skippedWSpaces)
+		startCursor = startCursor + len(skippedWSpaces) - len(leadingWSpaces)
 		// now we need to check if the leadingWSpace matches the end of skippedWSpace
 		skippedWSpaces = skippedWSpaces[len(skippedWSpaces)-len(leadingWSpaces):]
 		for i, skippedWSpace := range skippedWSpaces {
-- 
2.43.0


From 33c99425409702fc9a31abef12ad7491b8eb2f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 10/18] fix: block rules lost or repeated chars around open,
 escape, exclude and close

The chars after the open rule were prepended once more before the close rule,
those after an escaped close or exclude were dropped, look-ahead of the open
rule was not given back, and charsUsed held content and escapes out of order.
---
 rule_block.go | 95 +++++++++++++++++++--------------------------------
 1 file changed, 36 insertions(+), 59 deletions(-)

diff --git a/rule_block.go b/rule_block.go
index cb40c07..cad98b2 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -70,16 +70,28 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		Sticky:    false, // block of text is always non-sticky,
 	}
 
-	cs := charstream
-	var charsUsed []rune
-	var charsUnused []rune
+	var charsUsed []rune   // chars of the block so far
+	var charsUnused []rune // all chars taken from the charstream after charsUsed
+	// the chars right after charsUsed
+	next := func() ICharstream { return newCharstreamPrepend(charstream, charsUnused) }
+	// take over the chars that were read to evaluate a rule on next()
+	read := func(result *EvalResult) *EvalResult {
+		if len(charsUnused) < len(result.CharsRead) {
+			charsUnused = result.CharsRead
+		}
+		return result
+	}
+	// the next count of chars belong to the block
+	use := func(count int) {
+		charsUsed = append(charsUsed, charsUnused[:count]...)
+		charsUnused = charsUnused[count:]
+	}
 
 	// check the open chars of the block text
-	result := inst.open.Eval(grammar, cs, flagLeadingSpaces)
+	result := read(inst.open.Eval(grammar, next(), flagLeadingSpaces))
 	if result.Node != nil {
 		node.ChildNodes = append(node.ChildNodes, result.Node) // the 1st child of block node is always open node
-		charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-		charsUnused = result.CharsUnused
+		use(result.countCharsUsed())
 		node.Position = result.Node.Position
 	} else {
 		evalResult.Error = result.Error
@@ -95,112 +107,77 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		Sticky:   true,
 	}
 	node.ChildNodes = append(node.ChildNodes, content)
-	cs = newCharstreamPrepend(cs, charsUnused)
-	content.Position = cs.Position()
-	var closeResult *EvalResult
+	content.Position = next().Position()
 	var escapeChars []rune
 	for {
 		// check if we have an escape as next match
 		escaped := false
 		escapeChars = nil
 		if inst.escape != nil { // evaluation escape
-			result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
+			// do not skip space chars
+			result = read(inst.escape.Eval(grammar, next(), NOT_SKIP))
 			if result.Node != nil {
-				charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-				charsUnused = result.CharsUnused
+				use(result.countCharsUsed())
 				escaped = true
 				escapeChars = result.charsUsed() // save the escapeChars so we can decide later whether to include them in the result content
-				// content.Chars = append(content.Chars, result.charsUsed()...) // the escape char should NOT be preserved
-				// check if there is an escape token after escape token
-				/**
-				cs = newCharstreamPrepend(cs, charsUnused)
-				result = inst.escape.Eval(grammar, cs, NOT_SKIP) // do not skip space chars
-				if result.Node != nil {
-					// see an escape token after an escape token
-					charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
-					charsUnused = result.CharsUnused
-					content.Chars = append(content.Chars, result.charsUsed()...)
-					continue
-				} else {
-					escaped = true
-					charsUnused = result.CharsRead
-				}
-				*/
-			} else {
-				charsUnused = result.CharsRead
 			}
 		}
 
 		// find exclude match(es)
-		cs = newCharstreamPrepend(cs, charsUnused)
 		if len(inst.excludes) > 0 {
-			resultExclude := mostGreedy(grammar, cs, NOT_SKIP, inst.excludes)
+			resultExclude := read(mostGreedy(grammar, next(), NOT_SKIP, inst.excludes))
 			if resultExclude.Node != nil { // found one
 				if escaped {
-					charsUsed = append(charsUsed, resultExclude.charsUsed()...)
-					charsUnused = resultExclude.CharsUnused
+					use(resultExclude.countCharsUsed())
 					content.Chars = append(content.Chars, resultExclude.charsUsed()...)
 					continue
 				}
 				evalResult.Error = fmt.Errorf("text `%s` is not allowed in text block", string(resultExclude.charsUsed()))
 				evalResult.ErrIdx = charstream.Cursor()
-				evalResult.CharsRead = append(charsUsed, content.Chars...)
-				evalResult.CharsRead = append(evalResult.CharsRead, resultExclude.CharsRead...)
-				evalResult.CharsUnused = evalResult.CharsRead
-				return evalResult
+				break
 			}
-			charsUnused = resultExclude.CharsRead
 		}
 
-		// check close rule
-		cs = newCharstreamPrepend(cs, charsUnused)
-		result := inst.close.Eval(grammar, cs, NOT_SKIP) // do not skip space
-		charsUnused = result.CharsUnused
+		// check close rule, do not skip space
+		result = read(inst.close.Eval(grammar, next(), NOT_SKIP))
 		if result.Node != nil {
 			if escaped {
-				charsUsed = append(charsUsed, result.charsUsed()...)
+				use(result.countCharsUsed())
 				content.Chars = append(content.Chars, result.charsUsed()...)
 				continue
 			}
-			closeResult = result
-			if !inst.virtualClose {
+			if !inst.virtualClose { // the chars of a virtual close are not used
 				node.ChildNodes = append(node.ChildNodes, result.Node) // the 3rd child of block node is always close node
+				use(result.countCharsUsed())
 			}
-			charsUsed = append(charsUsed, content.Chars...)
-			charsUsed = append(charsUsed, result.CharsRead[:result.countCharsUsed()]...)
 			break
 		} else {
 			content.Chars = append(content.Chars, escapeChars...)
 		}
-		cs = newCharstreamPrepend(cs, charsUnused)
-		char := cs.Peek()
+		char := next().Peek()
 		if char == EOFChar {
-			charsUsed = append(charsUsed, content.Chars...)
 			evalResult.Error = fmt.Errorf("missing %s at EOF", inst.close.desc())
 			evalResult.ErrIdx = charstream.Cursor()
 			break
 		}
-		char = cs.Next()
+		if len(charsUnused) == 0 {
+			charsUnused = []rune{charstream.Next()}
+		}
+		use(1)
 		content.Chars = append(content.Chars, escapeChars...)
 		content.Chars = append(content.Chars, char)
-		charsUnused = nil
 	}
 	evalResult.CharsRead = append(charsUsed, charsUnused...)
 	if evalResult.Error != nil {
 		evalResult.CharsUnused = evalResult.CharsRead
 	} else {
-		if inst.virtualClose {
-			evalResult.CharsUnused = closeResult.CharsRead
-		} else {
-			evalResult.CharsUnused = charsUnused
-		}
+		evalResult.CharsUnused = charsUnused
 		evalResult.Node = node
 	}
 
 	return evalResult
 }
 
-// This function expects '<' as the 1st char in the input charstream.
 func inBlock(grammar *Grammar, name string, charstream ICharstream) (*BlockRule, error) {
 	block := &BlockRule{}
 	cs := charstream
-- 
2.43.0


From 7517f354143c2844723c3c3abf27f74bad218e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 11/18] fix: empty matches were repeated forever

A repetition, a block escape, an embedded scan or a root rule that matches
without using a char matches the same empty text again and again.
---
 grammar.go         | 6 +++++-
 rule_block.go      | 2 +-
 rule_repetition.go | 5 +++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 2962ba2..d7ffa55 100644
--- a/grammar.go
+++ b/grammar.go
@@ -261,7 +261,7 @@ func (inst *Grammar) EvalEmbed(ruleName string, sample string) *EvalResult {
 	for {
 		result = rule.Eval(inst, cs, NOT_SKIP)
 		cs = newCharstreamPrepend(cs, result.CharsUnused)
-		if result.Node == nil { // no match
+		if result.Node == nil || result.countCharsUsed() == 0 { // no match, or an empty match
 			char := cs.Next()
 			if char == EOFChar {
 				if len(text) > 0 {
@@ -396,6 +396,10 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[maxResult.countCharsUsed():]
 		}
+		if len(charsUnused) == len(maxCharsRead) {
+			// the same match would be found forever
+			return nil, fmt.Errorf("rule %s matches an empty text", ast.Nodes[len(ast.Nodes)-1].RuleName)
+		}
 	}
 	if len(ast.Nodes) == 0 {
 		return nil, fmt.Errorf("no AST node found")
diff --git a/rule_block.go b/rule_block.go
index cad98b2..baeeb98 100644
--- a/rule_block.go
+++ b/rule_block.go
@@ -116,7 +116,7 @@ func (inst *BlockRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadin
 		if inst.escape != nil { // evaluation escape
 			// do not skip space chars
 			result = read(inst.escape.Eval(grammar, next(), NOT_SKIP))
-			if result.Node != nil {
+			if result.Node != nil && result.countCharsUsed() > 0 { // an empty match escapes nothing
 				use(result.countCharsUsed())
 				escaped = true
 				escapeChars = result.charsUsed() // save the escapeChars so we can decide later whether to include them in the result content
diff --git a/rule_repetition.go b/rule_repetition.go
index 02652a0..5207864 100644
--- a/rule_repetition.go
+++ b/rule_repetition.go
@@ -82,6 +82,11 @@ func (inst *RepetitionRule) Eval(grammar *Grammar, charstream ICharstream, flagL
 			break
 		}
 
+		if result.countCharsUsed() == 0 && len(nodes) >= int(inst.min) {
+			// an empty match would repeat forever
+			break
+		}
+
 		if node.Position == nil {
 			node.Position = result.Node.Position
 		}
-- 
2.43.0


From 7613c353f9eaad785ddb86feed65d76ebea767ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:49 +0000
Subject: [PATCH 12/18] fix: which root rule wins depended on the order of a
 map

Two short matches of equal length were reported as an ambiguity, or not,
depending on whether the longest match was visited before them. Root rules are
visited in the order of their names, so that error messages are stable too.
---
 grammar.go | 50 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/grammar.go b/grammar.go
index d7ffa55..5e8d7f0 100644
--- a/grammar.go
+++ b/grammar.go
@@ -59,11 +59,22 @@ type Grammar struct {
 	validated bool
 }
 
+// sortedNames returns the names of the rules in order
+func sortedNames(records map[string]*RuleRecord) []string {
+	names := make([]string, 0, len(records))
+	for name := range records {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func (inst *Grammar) desc() string {
 	var buf strings.Builder
 	i := 0
 	total := len(inst.rootRules)
-	for _, record := range inst.rootRules {
+	for _, name := range sortedNames(inst.rootRules) {
+		record := inst.rootRules[name]
 		if i > 0 {
 			if i == total-1 && total > 1 {
 				buf.WriteString(" or " + record.rule.desc())
@@ -330,6 +341,7 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 	cs := charstream
 	var charsUnused []rune
 	flagLeadingSpaces := SUGGEST_SKIP
+	rootNames := sortedNames(inst.rootRules) // the result must not depend on the order of the map
 	for {
 		cs = newCharstreamPrepend(charstream, charsUnused)
 		if cs.Peek() == EOFChar {
@@ -340,9 +352,9 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		// every root rule starts at the same char: all chars taken from the charstream and not
 		// used yet, ie. the unused chars of the previous node and what the other root rules read
 		maxCharsRead := charsUnused
-		for name, ruleRecord := range inst.rootRules {
+		for _, name := range rootNames {
 			cs = newCharstreamPrepend(charstream, maxCharsRead)
-			result := ruleRecord.rule.Eval(inst, cs, flagLeadingSpaces)
+			result := inst.rootRules[name].rule.Eval(inst, cs, flagLeadingSpaces)
 			if len(maxCharsRead) < len(result.CharsRead) {
 				maxCharsRead = result.CharsRead
 			}
@@ -357,8 +369,10 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 		switch matches {
 		case 0:
 			var buf strings.Builder
-			for _, result := range resultsError {
-				buf.WriteString(fmt.Sprintf("%s; ", result.Error))
+			for _, name := range rootNames {
+				if result, exists := resultsError[name]; exists {
+					buf.WriteString(fmt.Sprintf("%s; ", result.Error))
+				}
 			}
 			return nil, fmt.Errorf("must be %s: %s", inst.desc(), buf.String())
 		case 1:
@@ -374,20 +388,26 @@ func (inst *Grammar) EvalRaw(charstream ICharstream) (*AST, error) {
 			}
 			charsUnused = maxCharsRead[result.countCharsUsed():]
 		default: // we found more than 1 matches, the most greedy one wins
-			maxCountCharsUsed := 0
-			var maxResult *EvalResult
-			for _, result := range resultsMatched {
-				countCharsUsed := result.countCharsUsed()
-				if countCharsUsed == maxCountCharsUsed && maxResult != nil {
-					return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
-						result.Node.RuleName, string(result.CharsRead),
-						maxResult.Node.RuleName, string(maxResult.CharsRead))
+			maxCountCharsUsed := -1
+			var maxResult, sameResult *EvalResult
+			for _, name := range rootNames {
+				result, matched := resultsMatched[name]
+				if !matched {
+					continue
 				}
-				if countCharsUsed >= maxCountCharsUsed {
-					maxResult = result
+				countCharsUsed := result.countCharsUsed()
+				if countCharsUsed > maxCountCharsUsed {
+					maxResult, sameResult = result, nil
 					maxCountCharsUsed = countCharsUsed
+				} else if countCharsUsed == maxCountCharsUsed && sameResult == nil {
+					sameResult = result
 				}
 			}
+			if sameResult != nil {
+				return nil, fmt.Errorf("ambiguity found: %s(\"%s\") vs %s(\"%s\")",
+					sameResult.Node.RuleName, string(sameResult.CharsRead),
+					maxResult.Node.RuleName, string(maxResult.CharsRead))
+			}
 			ast.Nodes = append(ast.Nodes, maxResult.Node)
 			if maxResult.Sticky {
 				flagLeadingSpaces = SUGGEST_NOT_SKIP
-- 
2.43.0


From 00db58c313bfdb0f991e9abca236c5f3f489379a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 13/18] fix: Serialize and Validate followed the order of a map

The listed root rules and references, and which undefined rule is reported,
changed from run to run.
---
 grammar.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 5e8d7f0..3d961c3 100644
--- a/grammar.go
+++ b/grammar.go
@@ -201,7 +201,7 @@ func (inst *Grammar) StringRuleRelation(nameFmtStr string) string {
 	var bufUsage strings.Builder
 	bufRoot.WriteString("Root Rules: ")
 	bufUsage.WriteString("Rule Reference Map: \n")
-	for name := range inst.ruleRecords {
+	for _, name := range sortedNames(inst.ruleRecords) {
 		children, exists := inst.nonRoots[name]
 		if exists {
 			bufUsage.WriteString(fmt.Sprintf("    "+nameFmtStr+": ", name))
@@ -226,7 +226,13 @@ func (inst *Grammar) Validate() error {
 	//inst.lock.Lock()
 	//defer inst.lock.Unlock()
 	nonTerminals := make(map[string]byte)
-	for name, children := range inst.nonRoots {
+	names := make([]string, 0, len(inst.nonRoots))
+	for name := range inst.nonRoots {
+		names = append(names, name)
+	}
+	sort.Strings(names) // always report the same undefined rule
+	for _, name := range names {
+		children := inst.nonRoots[name]
 		_, exists := inst.ruleRecords[name]
 		if !exists {
 			return fmt.Errorf("rule name '%s' referenced but not defined", name)
-- 
2.43.0


From e0f8897d937c8b7bc21bdd00f86ae21c0cc75939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 14/18] fix: Validate kept root and terminal rules that no
 longer are

A rule that another rule added later refers to stayed a root rule.
---
 grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grammar.go b/grammar.go
index 3d961c3..261dfad 100644
--- a/grammar.go
+++ b/grammar.go
@@ -241,6 +241,9 @@ func (inst *Grammar) Validate() error {
 			nonTerminals[child] = 0
 		}
 	}
+	// forget the result of an earlier validation
+	inst.terminals = make(map[string]*RuleRecord)
+	inst.rootRules = make(map[string]*RuleRecord)
 	for name, record := range inst.ruleRecords {
 		_, exists := nonTerminals[name]
 		if exists {
-- 
2.43.0


From 8935a9d45a6e2f07a92d6f85a0db95080752f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 15/18] fix: a rejected rule left its references behind

The rules it named stayed non-root, and Validate failed on names that only the
rejected rule had used.
---
 grammar.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/grammar.go b/grammar.go
index 261dfad..028ea69 100644
--- a/grammar.go
+++ b/grammar.go
@@ -122,8 +122,20 @@ func (inst *Grammar) ParseRule(name string, ruleStr string) (IRule, error) {
 	if err != nil {
 		return nil, err
 	}
+	countUsages := make(map[string]int, len(inst.nonRoots))
+	for name, users := range inst.nonRoots {
+		countUsages[name] = len(users)
+	}
 	r, err := inst.parse(ruleName, cs, []rune{EOFChar})
 	if err != nil {
+		// a rejected rule doesn't use any rule
+		for name, users := range inst.nonRoots {
+			if count := countUsages[name]; count > 0 {
+				inst.nonRoots[name] = users[:count]
+			} else {
+				delete(inst.nonRoots, name)
+			}
+		}
 		return nil, err
 	}
 	rule = r
-- 
2.43.0


From 1f43ffa76cccb99b721f5a09f5c4447a282629ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 16/18] fix: the position of an empty string depended on what
 was read ahead

The char after it may not have been read yet, and had no position then.
---
 rule_terminal_string.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rule_terminal_string.go b/rule_terminal_string.go
index 18de378..2ea511b 100644
--- a/rule_terminal_string.go
+++ b/rule_terminal_string.go
@@ -74,7 +74,11 @@ func (inst *TerminalStringRule) Eval(grammar *Grammar, charstream ICharstream, f
 		evalResult.ErrIdx = charstream.Cursor()
 		return evalResult
 	}
-	node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
+	if len(inst.text) == 0 {
+		node.Position = charstream.Position()
+	} else {
+		node.Position = charstream.PositionLookup(charstream.Cursor() - len(inst.text))
+	}
 	node.Chars = append(node.Chars, inst.text...)
 	evalResult.Node = node
 	return evalResult
-- 
2.43.0


From 25f7c55d1d69f81fdd9fb55801c8ac467253906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 17/18] fix: SkipSpaces returned a slice of the stream's own
 chars

Appending to the returned spaces overwrote the chars not read yet.
---
 charstream.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/charstream.go b/charstream.go
index 9abd84b..c026a79 100644
--- a/charstream.go
+++ b/charstream.go
@@ -384,7 +384,8 @@ func (inst *CharstreamString) SkipSpaces() []rune {
 	}
 
 	if inst.cursor > beginCur {
-		spaces := inst.chars[beginCur:inst.cursor]
+		// the caller may append to the slice, it must not share the chars of the stream
+		spaces := append([]rune(nil), inst.chars[beginCur:inst.cursor]...)
 		inst.positionMap.update(beginCur, spaces...)
 		return spaces
 	}
-- 
2.43.0


From 71100bdcaa51b5a8ea75373aa5da073890864963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 18/18] fix: a tie of shorter alternatives hid a longer one

---
 rule.go        | 35 ++++++++++++++++++-----------------
 rule_choice.go | 42 ++++++++++++++++++++----------------------
 2 files changed, 38 insertions(+), 39 deletions(-)

diff --git a/rule.go b/rule.go
index bd521ce..4aa61ed 100644
--- a/rule.go
+++ b/rule.go
@@ -296,26 +296,27 @@ func mostGreedy(grammar *Grammar, charStream ICharstream, flagLeadingSpaces int,
 	} else if matches == 1 {
 		resultFound = resultsMatched[0]
 	} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
-		maxUsed := 0
-		var maxResult *EvalResult
+		maxUsed := -1
+		var maxResult, sameResult *EvalResult // sameResult uses as many chars as maxResult
 		for _, result := range resultsMatched {
 			countCharsUsed := result.countCharsUsed()
-			if countCharsUsed < maxUsed {
-				continue
+			if countCharsUsed > maxUsed {
+				maxUsed = countCharsUsed
+				maxResult, sameResult = result, nil
+			} else if countCharsUsed == maxUsed && sameResult == nil {
+				sameResult = result
 			}
-			if countCharsUsed == maxUsed && maxResult != nil {
-				// we found ambiguity
-				var buf strings.Builder
-				buf.WriteString("ambiguity found:")
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(maxResult.Node.Text())))
-				buf.WriteString(fmt.Sprintf("\t\n%s", string(result.Node.Text())))
-				evalResult.Error = errors.New(buf.String())
-				evalResult.CharsRead = maxCharsRead
-				evalResult.CharsUnused = evalResult.CharsRead
-				return evalResult
-			}
-			maxUsed = countCharsUsed
-			maxResult = result
+		}
+		if sameResult != nil {
+			// we found ambiguity
+			var buf strings.Builder
+			buf.WriteString("ambiguity found:")
+			buf.WriteString(fmt.Sprintf("\t\n%s", string(maxResult.Node.Text())))
+			buf.WriteString(fmt.Sprintf("\t\n%s", string(sameResult.Node.Text())))
+			evalResult.Error = errors.New(buf.String())
+			evalResult.CharsRead = maxCharsRead
+			evalResult.CharsUnused = evalResult.CharsRead
+			return evalResult
 		}
 		resultFound = maxResult
 	}
diff --git a/rule_choice.go b/rule_choice.go
index 2614d29..aae7e4a 100644
--- a/rule_choice.go
+++ b/rule_choice.go
@@ -78,32 +78,30 @@ func (inst *ChoiceRule) Eval(grammar *Grammar, charstream ICharstream, flagLeadi
 			resultFound = resultsMatched[0]
 			break
 		} else { // we found multiple matches, get the one that is most greedy, ie. uses most chars
-			maxUsed := 0
+			maxUsed := -1
+			var resultSame *EvalResult // another result that uses as many chars as resultFound
 			for _, result := range resultsMatched {
 				countCharsUsed := result.countCharsUsed()
-				if countCharsUsed < maxUsed {
-					continue
+				if countCharsUsed > maxUsed {
+					maxUsed = countCharsUsed
+					resultFound, resultSame = result, nil
+				} else if countCharsUsed == maxUsed && resultSame == nil {
+					resultSame = result
 				}
-				if countCharsUsed == maxUsed {
-					if resultFound == nil {
-						resultFound = result
-						continue
-					}
-					// we found ambiguity
-					var buf strings.Builder
-					if inst.name == "" {
-						buf.WriteString("ambiguity found:")
-					} else {
-						buf.WriteString(fmt.Sprintf("rule %s: ambiguity found", inst.name))
-					}
-					buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
-					buf.WriteString(fmt.Sprintf("\t\n%s: %s", result.Node.RuleName, string(result.Node.Text())))
-					evalResult.Error = errors.New(buf.String())
-					evalResult.CharsUnused = evalResult.CharsRead
-					return evalResult
+			}
+			if resultSame != nil {
+				// we found ambiguity
+				var buf strings.Builder
+				if inst.name == "" {
+					buf.WriteString("ambiguity found:")
+				} else {
+					buf.WriteString(fmt.Sprintf("rule %s: ambiguity found", inst.name))
 				}
-				maxUsed = countCharsUsed
-				resultFound = result
+				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultFound.Node.RuleName, string(resultFound.Node.Text())))
+				buf.WriteString(fmt.Sprintf("\t\n%s: %s", resultSame.Node.RuleName, string(resultSame.Node.Text())))
+				evalResult.Error = errors.New(buf.String())
+				evalResult.CharsUnused = evalResult.CharsRead
+				return evalResult
 			}
 			break
 		}
-- 
2.43.0

