From 296d8bafa4e807d7ac67171ae4477aeed2b3867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 01/61] fix: grapheme rule GB9b glues Prepend to the following
 code-point

Prepend put its join penalty after a position that was already decided, so
Prepend x Any never had an effect.
---
 grapheme/grapheme.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/grapheme/grapheme.go b/grapheme/grapheme.go
index 46e34eb..81b46fa 100644
--- a/grapheme/grapheme.go
+++ b/grapheme/grapheme.go
@@ -314,7 +314,17 @@ func rule_GB9a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func rule_GB9b(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := GraphemeClass(cpClass)
 	tracer().P("class", c).Debugf("fire rule Preprend")
-	return uax.DoAccept(rec, GlueJOIN)
+	rec.MatchLen++
+	return rule_GB9bFinish
+}
+
+// ... x Any, except for controls (GB5) and end of text
+func rule_GB9bFinish(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	switch GraphemeClass(cpClass) {
+	case eot, CRClass, LFClass, ControlClass:
+		return uax.DoAbort(rec)
+	}
+	return uax.DoAccept(rec, 0, GlueJOIN)
 }
 
 func rule_GB11(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
-- 
2.43.0


From e8093542b16b46625cb93b6a4178f7affb740378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 02/61] fix: word rule WB3c joins ZWJ with pictographs which
 are letters, too

Code-points like U+24C2 are Extended_Pictographic with word class ALetter.
---
 uax29/uax29.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index bca8c2e..2d5d269 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -262,7 +262,7 @@ func rule_WB3c(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 
 func rule_Pictography(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX29Class(cpClass)
-	if c == emojiPictographic {
+	if c == emojiPictographic || unicode.Is(emoji.Extended_Pictographic, r) {
 		//tracer().Debugf("ACCEPT of Rule for Emoji")
 		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak)
 	}
-- 
2.43.0


From cf60259c1695a4ebbc9d9fd35c3591b4545beb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 03/61] fix: word rule WB7b/c with ignored characters after the
 double quote

Hebrew_Letter Double_Quote Extend Hebrew_Letter must not be broken before
the double quote.
---
 uax29/uax29.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index 2d5d269..e1a1451 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -385,6 +385,7 @@ func cont_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Double_QuoteClass {
 		rec.MatchLen++
+		rec.Expect = rec.MatchLen // misuse of expect field: mark position of double quote
 		return finish_WB7bc
 	}
 	return uax.DoAbort(rec)
@@ -397,7 +398,10 @@ func finish_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Hebrew_LetterClass {
 		//tracer().Debugf("ACCEPT of Rule WB 7b,c")
-		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak, PenaltyToSuppressBreak)
+		p := make([]int, rec.MatchLen-rec.Expect+1+2)
+		p[len(p)-1] = PenaltyToSuppressBreak
+		p[1] = PenaltyToSuppressBreak
+		return uax.DoAccept(rec, p...)
 	}
 	return uax.DoAbort(rec)
 }
-- 
2.43.0


From cd50fdca8eff988b174482417b9cf91e62397f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 04/61] fix: bidi rule W7 replaces just the number it matched

---
 bidi/actions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index d22f252..d2769f2 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -142,7 +142,7 @@ func ruleW7() (*bidiRule, []byte) {
 				L[0].bidiclz = bidi.L
 				return L, 0, true // replace EN with L, start again with L
 			}
-			return match, 1, true // step over EN
+			return match[:1], 1, true // step over EN
 		},
 	}, lhs
 }
-- 
2.43.0


From 52a82140b55c375b6d8f26e08bc6172d34f0c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 05/61] fix: bidi rule N1 for numbers replaces just the scraps
 it matched

---
 bidi/actions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index d2769f2..89a3231 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -322,7 +322,7 @@ func makeMidSwapRule(name string, lhs []byte, c bidi.Class, jmp int) *bidiRule {
 		pass:   2, // all mid-swap rules are Nx rules ⇒ pass 2
 		action: func(match []scrap) ([]scrap, int, bool) {
 			match[1].bidiclz = c // change class of middle interval
-			return match, jmp, false
+			return match[:len(lhs)], jmp, false
 		},
 	}
 }
-- 
2.43.0


From 7df6c4861d7777ea6f5971c15c777f21183995dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 06/61] fix: bidi rule N1 keeps all text when merging neutrals
 with R

---
 bidi/actions.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 89a3231..29ddfe5 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -187,9 +187,8 @@ func ruleN1_3() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.AN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2]
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -202,9 +201,8 @@ func ruleN1_4() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.EN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2]
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -217,7 +215,7 @@ func ruleN1_5() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -240,7 +238,7 @@ func ruleN1_8() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
-- 
2.43.0


From 7aab2bc8f7a8d0d3e55cbc5c7281f45d0e6d1bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 07/61] fix: bidi scanner tracks the most recent strong type
 per character (sos, W2, W7, isolates)

---
 bidi/resolver.go |  1 +
 bidi/scanner.go  | 70 ++++++++++++++++++++----------------------------
 2 files changed, 30 insertions(+), 41 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 9bc664e..29b9b3e 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -327,6 +327,7 @@ func (p *parser) parseIRS(startIRS int) ([]scrap, int, int, bool) {
 	if ok && len(p.spIRS) > 1 { // if not at top level isolating run sequence
 		ni := scrap{ // prepare a reduce action [IRS scraps] ⇒ [cNI]
 			bidiclz:  cNI,
+			context:  p.stack[startIRS].context,
 			l:        p.stack[startIRS].l,
 			r:        p.stack[startIRS+runlen-1].r,
 			children: [][]scrap{copyStackSegm(p.stack, startIRS, runlen)},
diff --git a/bidi/scanner.go b/bidi/scanner.go
index ca64101..9642fdc 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -146,7 +146,7 @@ func makeScrap(r rune, clz bidi.Class, pos charpos, length int) scrap {
 func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 	var lookahead scrap
 	current := sc.initialOuterScrap(false)
-	lastAL := int64(-1) // position of last AL character-run in input
+	ctx := current.context // directional context for the next input rune
 	for {
 		r, length, bidiclz, ok := sc.nextRune(current.r) // read the next input rune
 		if !ok {                                         // if EOF, drain lookahead and quit
@@ -166,10 +166,11 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				bidiclz = setTestingIRSDelimiter(r, bidiclz)
 			}
 		}
-		isAL := bidiclz == bidi.AL                     // AL will be changed by rule W3
-		bidiclz = applyRulesW1to3(r, bidiclz, current) // UAX#9 W1–3 handled by scanner
+		original := bidiclz                                 // AL will be changed by rule W3
+		bidiclz = applyRulesW1to3(r, bidiclz, current, ctx) // UAX#9 W1–3 handled by scanner
 		//lookahead = makeScrap(r, bidiclz, lapos, length)
 		lookahead = makeScrap(r, bidiclz, current.r, length)
+		lookahead.context, ctx = sc.nextContext(original, ctx)
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
 
 		// the current scrap is finished if the lookahead cannot extend it
@@ -181,17 +182,7 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 				sc.post(current, pipe) // put current on channel
 			}
 			// proceed ahead, making lookahead the current scrap
-			if isisolate(lookahead) && lookahead.bidiclz != bidi.PDI {
-				sc.ctxstack = append(sc.ctxstack, current.context)
-			} else if current.bidiclz == bidi.PDI && len(sc.ctxstack) > 0 {
-				current.context = sc.ctxstack[len(sc.ctxstack)-1]
-				sc.ctxstack = sc.ctxstack[:len(sc.ctxstack)-1]
-			}
-			lookahead = inheritStrongTypes(lookahead, current, lastAL)
 			current = sc.prepareRuleBD16(r, lookahead)
-			if isAL {
-				lastAL = int64(current.l)
-			}
 		} else { // otherwise the current scrap grows
 			current = collapse(current, lookahead, current.bidiclz) // meld LA with current
 			tracer().Debugf("current bidi scanner scrap = %s, next iteration", current)
@@ -228,13 +219,14 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 			current.bidiclz = bidi.LRI
 		}
 	}
+	current.context.strong = current.context.embeddingDir // sos
 	return current
 }
 
 // applyRulesW1to3 returns the Bidi_Class for a rune. It will apply certain UAX#9
 // rules immediately to relief the parser.
 //
-func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
+func applyRulesW1to3(r rune, clz bidi.Class, current scrap, ctx dirContext) bidi.Class {
 	currclz := current.bidiclz
 	switch clz { // do some pre-processing
 	case bidi.NSM: // rule W1, handle accents
@@ -248,8 +240,7 @@ func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
 		}
 		return currclz
 	case bidi.EN: // rule W2
-		if current.context.IsAL() {
-			tracer().Errorf("========= context: %v", current.context)
+		if ctx.IsAL() {
 			return bidi.AN
 		}
 	case bidi.AL: // rule W3
@@ -284,34 +275,31 @@ func (sc *bidiScanner) prepareRuleBD16(r rune, s scrap) scrap {
 	return s
 }
 
-// lastAL is the position of the last AL character that has occured (before
-// UAX#9 rule W3 changed it)
-func inheritStrongTypes(dest, src scrap, lastAL int64) scrap {
-	tracer().Debugf("bidi scanner: inherit %s => %s     %v", src, dest, src.context)
-	dest.context = src.context
-	switch dest.bidiclz {
-	case bidi.LRI:
-		dest.context.embeddingDir = bidi.L
-	case bidi.RLI:
-		dest.context.embeddingDir = bidi.R
-		//panic("R2")
-	default:
-		if lastAL >= 0 {
-			dest.context.SetStrongType(bidi.AL, charpos(lastAL))
+// nextContext returns the directional context for a rune of class clz (with clz before
+// application of rules W1–3), and the context for the rune following it.
+//
+// An isolating run sequence starts with a context of its own (sos), a closing PDI will
+// re-establish the context of the outer sequence.
+func (sc *bidiScanner) nextContext(clz bidi.Class, ctx dirContext) (dirContext, dirContext) {
+	context := ctx
+	switch clz {
+	case bidi.L, bidi.R, bidi.AL:
+		ctx.strong = clz
+	case bidi.LRI, bidi.RLI, bidi.FSI:
+		sc.ctxstack = append(sc.ctxstack, ctx)
+		if clz == bidi.LRI {
+			ctx.SetEmbedding(bidi.LeftToRight)
+		} else if clz == bidi.RLI {
+			ctx.SetEmbedding(bidi.RightToLeft)
 		}
-		switch src.bidiclz {
-		case bidi.L, bidi.LRI:
-			dest.context.SetStrongType(bidi.L, src.l)
-			tracer().Debugf("bidi scanner LA has L context=%v from %v", dest.context, src.context)
-		case bidi.R, bidi.RLI:
-			dest.context.SetStrongType(bidi.R, src.l)
-			tracer().Debugf("bidi scanner LA has R context=%v from %v", dest.context, src.context)
-		case bidi.AL:
-			dest.context.SetStrongType(bidi.AL, src.l)
-			tracer().Debugf("bidi scanner lA has AL context=%v from %v", dest.context, src.context)
+		ctx.strong = ctx.embeddingDir
+	case bidi.PDI:
+		if n := len(sc.ctxstack); n > 0 {
+			ctx, sc.ctxstack = sc.ctxstack[n-1], sc.ctxstack[:n-1]
+			context = ctx
 		}
 	}
-	return dest
+	return context, ctx
 }
 
 // --- Nesting isolating run sequences ---------------------------------------
-- 
2.43.0


From 28c592ee26c3ea2115c6abb89dc721729fc62cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 08/61] fix: bidi rules W1, W4, W5 with marks, boundary
 neutrals and runs of separators

---
 bidi/actions.go | 17 +++++++++++++----
 bidi/scanner.go | 23 +++++++++++++++++------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 29ddfe5..3eb234b 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -95,7 +95,16 @@ func ruleW5_1() (*bidiRule, []byte) { // W5-1 and W5-3
 
 func ruleW5_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.EN, bidi.ET)
-	return makeSquashRule("W5-2", lhs, bidi.EN, -2), lhs
+	rule := makeSquashRule("W5-2", lhs, bidi.EN, -2)
+	squash := rule.action
+	rule.action = func(match []scrap) ([]scrap, int, bool) {
+		// a separator following a terminator is not between two numbers (W4) ⇒ W6
+		if len(match) > 2 && isseparator(match[2]) {
+			match[2].bidiclz = cNI
+		}
+		return squash(match)
+	}
+	return rule, lhs
 }
 
 // W6. Otherwise, separators and terminators change to Other Neutral.
@@ -106,17 +115,17 @@ func ruleW5_2() (*bidiRule, []byte) {
 
 func ruleW6_1() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.ET)
-	return makeSquashRule("W6-1", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-1", lhs, cNI, -1), lhs
 }
 
 func ruleW6_2() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.ES)
-	return makeSquashRule("W6-2", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-2", lhs, cNI, -1), lhs
 }
 
 func ruleW6_3() (*bidiRule, []byte) {
 	lhs := makeLHS(bidi.CS)
-	return makeSquashRule("W6-3", lhs, cNI, 0), lhs
+	return makeSquashRule("W6-3", lhs, cNI, -1), lhs
 }
 
 func ruleW6x() (*bidiRule, []byte) {
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 9642fdc..6a0fb28 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -173,8 +173,15 @@ func (sc *bidiScanner) Scan(pipe chan<- scrap) {
 		lookahead.context, ctx = sc.nextContext(original, ctx)
 		tracer().Debugf("bidi scanner lookahead = %v", lookahead) // finally a new lookahead
 
+		// marks after a bracket and boundary neutrals belong to the preceding character
+		if original == bidi.BN && current.bidiclz != cNULL && !isisolate(current) ||
+			original == bidi.NSM && isbracket(current) {
+			current.r = lookahead.r
+			continue
+		}
+
 		// the current scrap is finished if the lookahead cannot extend it
-		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || isbracket(current) || isisolate(current) {
+		if current.bidiclz == cNULL || current.bidiclz != lookahead.bidiclz || isbracket(current) || isisolate(current) || isseparator(current) {
 			if current.bidiclz != cNULL { // if the current scrap is not the initial null scrap
 				if isisolate(current) {
 					sc.handleIsolatingRunSwitch(current)
@@ -229,12 +236,10 @@ func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
 func applyRulesW1to3(r rune, clz bidi.Class, current scrap, ctx dirContext) bidi.Class {
 	currclz := current.bidiclz
 	switch clz { // do some pre-processing
-	case bidi.NSM: // rule W1, handle accents
+	case bidi.NSM, bidi.BN: // rule W1, handle accents
 		switch currclz {
-		case bidi.LRI:
-			return bidi.L
-		case bidi.RLI:
-			return bidi.R
+		case cNULL, bidi.LRI, bidi.RLI, bidi.FSI: // start of isolating run sequence
+			return ctx.embeddingDir
 		case bidi.PDI:
 			return cNI
 		}
@@ -357,6 +362,12 @@ func (sc *bidiScanner) findBD16ForPos(pos charpos) *bracketPairHandler {
 	return bd16
 }
 
+// isseparator is true for number separators. Rule W4 applies to single separators only,
+// therefore the scanner does not collect runs of them.
+func isseparator(s scrap) bool {
+	return s.bidiclz == bidi.ES || s.bidiclz == bidi.CS
+}
+
 // As explained for option TestingMode(…), certain characters are interpreted as
 // isolating run sequence delimiters during testing.
 func setTestingIRSDelimiter(r rune, clz bidi.Class) bidi.Class {
-- 
2.43.0


From df4fd85c20a30d3a007e33f2f324408856ec7faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 09/61] fix: bidi rules are stored at their final position in
 the trie (N1 for AN was lost)

---
 bidi/actions.go  |  1 +
 bidi/resolver.go | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 3eb234b..75105ca 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -27,6 +27,7 @@ import (
 type bidiRule struct {
 	name   string     // name of the rule according to UAX#9
 	lhsLen int        // number of symbols in the left hand side (LHS)
+	lhs    []byte     // the left hand side
 	pass   int        // this is a 2-pass system, every rule is active during just one phase
 	action ruleAction // action to perform on match of LHS
 }
diff --git a/bidi/resolver.go b/bidi/resolver.go
index 29b9b3e..7d24933 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -490,6 +490,7 @@ func (p *parser) changeBracketBidiClass(s scrap) {
 const dictsize = 103 // must be a prime; found through experiments
 
 var rules [dictsize]*bidiRule    // has a smaller memory footprint than a map?!
+var allocated []*bidiRule        // rules in order of their allocation
 var rulesTrie *trie.TinyHashTrie // global dictionary for rules
 var prepareTrieOnce sync.Once    // all parsers will share a single rules dictionary
 
@@ -555,6 +556,7 @@ func prepareRulesTrie() *trie.TinyHashTrie {
 		allocRule(trie, r, lhs)
 		// ------------------------------
 		trie.Freeze()
+		placeRules(trie)
 		tracer().SetTraceLevel(tracelevel)
 		tracer().Debugf("--- freeze trie -------------")
 		trie.Stats()
@@ -565,9 +567,19 @@ func prepareRulesTrie() *trie.TinyHashTrie {
 
 func allocRule(trie *trie.TinyHashTrie, rule *bidiRule, lhs []byte) {
 	tracer().Debugf("storing rule %s for LHS=%v", rule.name, lhs)
-	pointer := trie.AllocPositionForWord(lhs)
-	//T().Debugf("  -> %d", pointer)
-	rules[pointer] = rule
+	trie.AllocPositionForWord(lhs)
+	rule.lhs = lhs
+	allocated = append(allocated, rule)
+}
+
+// placeRules enters all the allocated rules at their position in the trie. This cannot be
+// done before the trie is complete, as inserting a LHS may move LHSs already inserted.
+func placeRules(trie *trie.TinyHashTrie) {
+	for _, rule := range allocated {
+		pointer := trie.AllocPositionForWord(rule.lhs)
+		//T().Debugf("  -> %d", pointer)
+		rules[pointer] = rule
+	}
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From b6cd55ae8e2e5a7e1f7ed5c27b638b6a50532997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 10/61] fix: bidi rule N0 resolves bracket pairs before
 neutrals, without racing with the scanner

Bracket pairs have been resolved while rules N1 and N2 had already been
applied to parts of the text, with strong contexts recorded by the scanner
before rule W7. Unpaired opening brackets never became neutrals. The parser
looked up pair handlers in a list the scanner was modifying concurrently.
---
 bidi/brackets.go |  41 +-----------
 bidi/resolver.go | 169 ++++++++++++++++++++++++++---------------------
 bidi/scanner.go  |  47 +++----------
 bidi/scrap.go    |  60 ++---------------
 4 files changed, 109 insertions(+), 208 deletions(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 28bc499..d63b3dd 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -68,9 +68,7 @@ type bracketPairHandler struct {
 	stack    bracketStack        // stack to trace bracket nesting
 	pairings pairingsList        // result list of matching bracket pairings
 	mx       sync.Mutex          // guards pairings, as parser will access them, too
-	next     *bracketPairHandler // handlers will be stacked for nested isolate runs
 	firstpos charpos             // text position of first character in isolating run sequence
-	lastpos  charpos             // text position of PDI
 }
 
 // This is the stack to perform the algorithm described above
@@ -88,16 +86,12 @@ type pairing struct {
 	closing scrap // closing bracket represented as a scrap
 }
 
-func makeBracketPairHandler(first charpos, previous *bracketPairHandler) *bracketPairHandler {
-	h := &bracketPairHandler{
+func makeBracketPairHandler(first charpos) *bracketPairHandler {
+	return &bracketPairHandler{
 		stack:    make(bracketStack, 0, BD16MaxNesting),
 		pairings: make(pairingsList, 0, 8),
 		firstpos: first,
 	}
-	if previous != nil {
-		previous.next = h
-	}
-	return h
 }
 
 func (pr pairing) String() string {
@@ -188,37 +182,6 @@ func (bph *bracketPairHandler) FindBracketPairing(s scrap) (pairing, bool) {
 	return pairing{}, false
 }
 
-// Rule N0 may change the bidi class of bracket scraps to a strong type.
-// The parser rule for N0 will call changeOpeningBracketClass in such
-// cases.
-func (bph *bracketPairHandler) changeOpeningBracketClass(s scrap) {
-	bph.mx.Lock()
-	defer bph.mx.Unlock()
-	for i, pair := range bph.pairings {
-		if pair.opening.l == s.l {
-			bph.pairings[i].opening.bidiclz = s.bidiclz
-		}
-	}
-}
-
-// UAX#9 rule W7 may change scraps of class EN to class L. However, the
-// matching of brackets further down the input may already have been stored
-// with a context. As soon as W7 pops up a new strong type L, those contexts
-// may be invalid. The parser will detect such situations and then call this
-// function to update the contexts of bracket pairs already found.
-func (bph *bracketPairHandler) UpdateClosingBrackets(s scrap) {
-	bph.mx.Lock()
-	defer bph.mx.Unlock()
-	for _, pair := range bph.pairings {
-		if s.l < pair.opening.l {
-			pair.opening.context.SetStrongType(s.bidiclz, s.l)
-		}
-		if s.l < pair.closing.l {
-			pair.closing.context.SetStrongType(s.bidiclz, s.l)
-		}
-	}
-}
-
 func (bph *bracketPairHandler) dump() {
 	if len(bph.stack) == 0 {
 		tracer().Debugf("BD16: Bracket Stack is empty")
diff --git a/bidi/resolver.go b/bidi/resolver.go
index 7d24933..5a5afcc 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -215,12 +215,8 @@ func (p *parser) pass1(startIRS int) bool {
 			}
 		}
 		tracer().Debugf("applying UAX#9 rule %s", rule.name)
-		rhs, jmp, newL := rule.action(p.stack[p.sp:len(p.stack)])
+		rhs, jmp, _ := rule.action(p.stack[p.sp:len(p.stack)])
 		p.reduce(rule.lhsLen, rhs, startIRS)
-		if newL {
-			bd16 := p.sc.findBD16ForPos(p.stack[p.sp].l)
-			bd16.UpdateClosingBrackets(p.stack[p.sp])
-		}
 		p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
 		walk = false
 	}
@@ -261,16 +257,11 @@ func (p *parser) applySubIRS(startIRS int) int {
 // there should be only a single scrap on the stack with bidi class L.
 //
 func (p *parser) pass2(startIRS int) {
+	p.resolveBrackets(startIRS)
 	p.sp = startIRS
 	for !p.passed(bidi.PDI) && p.sp < len(p.stack) {
 		e := min(len(p.stack), p.sp+3)
 		tracer().Debugf("trying to match %v at %d", p.stack[p.sp:e], p.sp)
-		//if p.stack[p.sp].bidiclz == cBRACKC {
-		if isbracket(p.stack[p.sp]) {
-			jmp := p.performRuleN0()
-			p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
-			continue
-		}
 		rule, shortrule := p.matchRulesLHS(p.stack[p.sp:len(p.stack)], 2)
 		if rule == nil || rule.pass < 2 {
 			if shortrule == nil || shortrule.pass < 2 {
@@ -405,84 +396,110 @@ func (p *parser) matchRulesLHS(scraps []scrap, minlen int) (*bidiRule, *bidiRule
 //     order of the text positions of the opening paired brackets using the logic
 //     given below. Within this scope, bidirectional types EN and AN are treated as R.
 //
-func (p *parser) performRuleN0() (jmp int) {
-	tracer().Debugf("applying UAX#9 rule N0 (bracket pairs) with %s", p.stack[p.sp])
-	jmp = 1 // default is to walk over the bracket
-	if p.stack[p.sp].bidiclz == cBRACKO {
-		// Identify the bracket pairs in the current isolating run sequence according to BD16.
-		openBr := p.stack[p.sp]
-		closeBr, found := p.findCorrespondingBracket(openBr)
-		if !found {
-			tracer().Debugf("Did not find closing bracket for %s", openBr)
-			closeBr.bidiclz = cNI
-			return
+// resolveBrackets has to be called before any of the rules N1 and N2 is applied. Brackets
+// not being resolved to a direction will be neutral afterwards and will be merged with
+// adjacent neutrals.
+//
+func (p *parser) resolveBrackets(startIRS int) {
+	end := startIRS + 1 // end of isolating run sequence
+	for end < len(p.stack) && p.stack[end].bidiclz != bidi.PDI {
+		end++
+	}
+	irs := p.stack[startIRS:end]
+	for i, s := range irs {
+		if isbracket(s) {
+			p.performRuleN0(irs, i)
+		}
+	}
+	k := startIRS // now merge neutrals
+	for i, s := range p.stack[startIRS:] {
+		if 0 < i && i < len(irs) && s.bidiclz == cNI && p.stack[k-1].bidiclz == cNI {
+			p.stack[k-1] = collapse(p.stack[k-1], s, cNI)
+			continue
 		}
-		tracer().Debugf("closing bracket for %s is %s", openBr, closeBr)
-		tracer().Debugf("closing bracket has context=%v", closeBr.context)
-		tracer().Debugf("closing bracket has match pos=%d", closeBr.context.matchPos)
-		// a. Inspect the bidirectional types of the characters enclosed within the
-		//    bracket pair.
-		if closeBr.HasEmbeddingMatchAfter(openBr) {
+		p.stack[k] = s
+		k++
+	}
+	p.stack = p.stack[:k]
+}
+
+// performRuleN0 applies rule N0 to the bracket at position i of an isolating run sequence.
+func (p *parser) performRuleN0(irs []scrap, i int) {
+	openBr := irs[i]
+	irs[i].bidiclz = cNI // default is for a bracket to be neutral
+	if openBr.bidiclz == cBRACKC {
+		return // closing brackets of pairs are treated together with the opening one
+	}
+	// Identify the bracket pairs in the current isolating run sequence according to BD16.
+	closing := p.findClosingBracket(openBr, irs, i)
+	if closing < 0 {
+		tracer().Debugf("Did not find closing bracket for %s", openBr)
+		return
+	}
+	// a. Inspect the bidirectional types of the characters enclosed within the
+	//    bracket pair.
+	e, o := openBr.e(), openBr.o()
+	foundOpposite := false
+	for _, s := range irs[i+1 : closing] {
+		switch strongTypeN0(s) {
+		case e:
 			// b. If any strong type (either L or R) matching the embedding direction
 			//    is found, set the type for both brackets in the pair to match the
 			//    embedding direction.
-			openBr.bidiclz = openBr.context.embeddingDir
-			jmp = -2
-		} else if closeBr.HasOppositeAfter(openBr) {
-			// c. Otherwise, if there is a strong type it must be opposite the embedding
-			//    direction. Therefore, test for an established context with a preceding
-			//    strong type by checking backwards before the opening paired bracket
-			//    until the first strong type (L, R, or sos) is found.
-			if openBr.StrongContext() == openBr.o() {
-				// c.1. If the preceding strong type is also opposite the embedding
-				//      direction, context is established, so set the type for both
-				//      brackets in the pair to that direction.
-				openBr.bidiclz = opposite(openBr.context.embeddingDir)
-			} else {
-				// c.2. Otherwise set the type for both brackets in the pair to the
-				//      embedding direction.
-				openBr.bidiclz = openBr.context.embeddingDir
-			}
-			jmp = -2
-		} else {
-			tracer().Debugf("no strong types found within bracket pair")
-			// d. Otherwise, there are no strong types within the bracket pair.
-			//    Therefore, do not set the type for that bracket pair.
-			openBr.bidiclz = cNI
-			jmp = -1
-		}
-		p.changeBracketBidiClass(openBr)
-		p.stack[p.sp] = openBr
-	} else {
-		closeBr := p.stack[p.sp]
-		if openBr, found := p.findCorrespondingBracket(closeBr); found {
-			closeBr.bidiclz = openBr.bidiclz
-		} else {
-			closeBr.bidiclz = cNI
+			irs[i].bidiclz, irs[closing].bidiclz = e, e
+			return
+		case o:
+			foundOpposite = true
 		}
-		p.stack[p.sp] = closeBr
-		if closeBr.bidiclz != cNI {
-			jmp = -2
+	}
+	if !foundOpposite {
+		// d. Otherwise, there are no strong types within the bracket pair.
+		//    Therefore, do not set the type for that bracket pair.
+		return
+	}
+	// c. Otherwise, if there is a strong type it must be opposite the embedding
+	//    direction. Therefore, test for an established context with a preceding
+	//    strong type by checking backwards before the opening paired bracket
+	//    until the first strong type (L, R, or sos) is found.
+	//    c.1. If the preceding strong type is also opposite the embedding
+	//         direction, context is established, so set the type for both
+	//         brackets in the pair to that direction.
+	//    c.2. Otherwise set the type for both brackets in the pair to the
+	//         embedding direction.
+	dir := e // sos
+	for j := i - 1; j >= 0; j-- {
+		if strong := strongTypeN0(irs[j]); strong != cNI {
+			dir = strong
+			break
 		}
 	}
-	return
+	irs[i].bidiclz, irs[closing].bidiclz = dir, dir
 }
 
-func (p *parser) findCorrespondingBracket(s scrap) (scrap, bool) {
-	bd16 := p.sc.findBD16ForPos(s.l)
-	pair, found := bd16.FindBracketPairing(s)
-	if found {
-		if s.bidiclz == cBRACKO {
-			return pair.closing, true
+// findClosingBracket returns the position of the closing bracket for an opening one at
+// position i, or -1.
+func (p *parser) findClosingBracket(openBr scrap, irs []scrap, i int) int {
+	pair, found := openBr.bd16.FindBracketPairing(openBr)
+	if !found {
+		return -1
+	}
+	for j := i + 1; j < len(irs); j++ {
+		if irs[j].bidiclz == cBRACKC && irs[j].l == pair.closing.l {
+			return j
 		}
-		return pair.opening, true
 	}
-	return s, false
+	return -1
 }
 
-func (p *parser) changeBracketBidiClass(s scrap) {
-	bd16 := p.sc.findBD16ForPos(s.l)
-	bd16.changeOpeningBracketClass(s)
+// strongTypeN0 returns either L or R for strong scraps, cNI otherwise.
+func strongTypeN0(s scrap) bidi.Class {
+	switch s.bidiclz {
+	case bidi.L:
+		return bidi.L
+	case bidi.R, bidi.EN, bidi.AN:
+		return bidi.R
+	}
+	return cNI
 }
 
 // --- Rules trie ------------------------------------------------------------
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 6a0fb28..552e3d3 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -13,7 +13,6 @@ package bidi
 
 import (
 	"bufio"
-	"fmt"
 	"io"
 	"strconv"
 	"unicode"
@@ -31,8 +30,7 @@ type bidiScanner struct {
 	markup        OutOfLineBidiMarkup             // markup for isolating run sequence delimiting
 	lastMarkupPos int64                           // last position of out-of-line markup
 	lastMarkup    int                             // last / remaining markup
-	IRS           map[charpos]*bracketPairHandler // isolating run sequences and their pair handlers
-	IRSStack      []charpos                       // start positions of IRSs
+	IRSStack      []*bracketPairHandler           // pair handlers of open isolating run sequences
 	ctxstack      []dirContext                    // context stack for IRSs
 }
 
@@ -48,11 +46,9 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.runeScanner.Split(bufio.ScanRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
-	sc.bd16 = makeBracketPairHandler(0, nil)
-	sc.IRS = make(map[charpos]*bracketPairHandler)
-	sc.IRS[0] = sc.bd16
-	sc.IRSStack = make([]charpos, 0, 16)
-	sc.IRSStack = append(sc.IRSStack, 0)
+	sc.bd16 = makeBracketPairHandler(0)
+	sc.IRSStack = make([]*bracketPairHandler, 0, 16)
+	sc.IRSStack = append(sc.IRSStack, sc.bd16)
 	for _, opt := range opts {
 		if opt != nil {
 			opt(sc)
@@ -263,6 +259,7 @@ func (sc *bidiScanner) prepareRuleBD16(r rune, s scrap) scrap {
 	if !isbracket(s) {
 		return s
 	}
+	s.bd16 = sc.bd16
 	if s.bidiclz == cBRACKO {
 		// is LA not just a bracket, but part of a UAX#9 bracket pair?
 		isbr := sc.bd16.pushOpening(r, s)
@@ -320,48 +317,22 @@ func isisolate(s scrap) bool {
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 	if s.bidiclz == bidi.PDI {
 		// re-establish outer BD16 handler
-		if len(sc.IRSStack) == 0 {
+		if len(sc.IRSStack) <= 1 {
 			tracer().Debugf("bidi scanner found non-paired PDI at position %d", s.l)
 			return
 		}
-		sc.bd16.lastpos = s.l
 		sc.IRSStack = sc.IRSStack[:len(sc.IRSStack)-1] // pop current IRS level
-		if len(sc.IRSStack) > 0 {
-			tos := sc.IRSStack[len(sc.IRSStack)-1]
-			sc.bd16 = sc.IRS[tos]
-		}
+		sc.bd16 = sc.IRSStack[len(sc.IRSStack)-1]
 		tracer().Debugf("bidi scanner read PDI, switch back to outer IRS at %d", sc.bd16.firstpos)
 		return
 	}
 	tracer().Debugf("bidi scanner handleIsolatingRunSwitch(%v | %v)", s, s.context)
 	// establish new BD16 handler
-	irs := sc.IRS[0]
-	for irs.next != nil { // find most rightward isolating run sequence
-		irs = irs.next
-	}
-	sc.bd16 = makeBracketPairHandler(s.l, irs)
-	sc.IRS[s.l] = sc.bd16
-	sc.IRSStack = append(sc.IRSStack, s.l)
+	sc.bd16 = makeBracketPairHandler(s.l)
+	sc.IRSStack = append(sc.IRSStack, sc.bd16)
 	tracer().Debugf("bidi scanner: new IRS with position %d, nesting level is %d", sc.bd16.firstpos, len(sc.IRSStack)-1)
 }
 
-func (sc *bidiScanner) findBD16ForPos(pos charpos) *bracketPairHandler {
-	irs := sc.IRS[0]
-	bd16 := irs
-	for irs.next != nil { // find most rightward isolating run sequence
-		if irs.firstpos <= pos {
-			if irs.lastpos == 0 || irs.lastpos >= pos {
-				bd16 = irs
-			}
-		}
-		irs = irs.next
-	}
-	if bd16 == nil {
-		panic(fmt.Sprintf("bidi scanner: could not find IRS for position %d", pos))
-	}
-	return bd16
-}
-
 // isseparator is true for number separators. Rule W4 applies to single separators only,
 // therefore the scanner does not collect runs of them.
 func isseparator(s scrap) bool {
diff --git a/bidi/scrap.go b/bidi/scrap.go
index 47095fa..ed4f006 100644
--- a/bidi/scrap.go
+++ b/bidi/scrap.go
@@ -35,6 +35,8 @@ type scrap struct {
 	l, r     charpos    // left and right bounds, r not included
 	context  dirContext // directional context
 	children [][]scrap  // may build up a tree of isolating run sequences
+
+	bd16 *bracketPairHandler // brackets only: pairings of the isolating run sequence
 }
 
 func (s scrap) String() string {
@@ -131,44 +133,21 @@ func (s scrap) Context() bidi.Class {
 	return s.context.Context()
 }
 
-func (s scrap) StrongContext() bidi.Class {
-	return s.context.StrongContext()
-}
-
-func (s scrap) HasEmbeddingMatchAfter(other scrap) bool {
-	return s.context.matchPos >= other.l
-}
-
-func (s scrap) HasOppositeAfter(other scrap) bool {
-	pos := s.context.matchPos + charpos(s.context.odist)
-	return pos >= other.l
-}
-
 // --- Strong types context --------------------------------------------------
 
-// dirContext is a helper type to store positions of strong types within the
-// input text. Various UAX#9 rules require to find preceding occurences of strong types
+// dirContext is a helper type to store the most recent strong type within the
+// input text. Some UAX#9 rules require to find preceding occurences of strong types
 // (L, R, sos, AL) to determine context. In order to avoid travelling the text backwards
-// we save the positions of strong types.
-//
-// This is quite a memory invest. We have to strike a balanced trade-off between
-// speed and space efficiency. The information stored in dirContext is mainly used
+// we save the strong type. The information stored in dirContext is used
 // for the following rules:
 //
 // * Rule W2, which changes numbers to arabic numbers if there is a recent strong
 //   type of AL (arabic letter)
 // * Rule W7, which changes numbers to type L if there is a recent strong type of L
-// * Rule N0, the handling of bracket pairings, which uses information about recent
-//   strong types L or R to decide the embedding level of brackets
-//
-// Rule W2 could be handled by a boolean flag, but the combination of W7 and N0 is
-// more tricky (see the code dealing with bracket pairs).
 //
 type dirContext struct {
 	embeddingDir bidi.Class // embedding context
 	strong       bidi.Class // current strong context
-	odist        uint16     // distance between matchPos and occurrence of recent o scrap
-	matchPos     charpos    // most recent position matching the embedding dir
 }
 
 func (dc dirContext) String() string {
@@ -186,40 +165,11 @@ func (dc dirContext) Context() bidi.Class {
 	return dc.strong
 }
 
-// Has the last strong type been L or R?
-func (dc dirContext) StrongContext() bidi.Class {
-	if dc.strong == bidi.AL {
-		return bidi.R
-	}
-	return dc.strong
-}
-
 // Embedding direction, as determined by the last LRI or RLI.
 func (dc dirContext) EmbeddingDir() bidi.Class {
 	return dc.embeddingDir
 }
 
-// Set position of recent strong type. If it matches the embedding direction
-// and at > the previous matching position, the matching position is updated.
-func (dc *dirContext) SetStrongType(c bidi.Class, at charpos) dirContext {
-	if c != bidi.L && c != bidi.R && c != bidi.AL && c != cNI {
-		return *dc
-	}
-	dc.strong = c
-	if c == dc.embeddingDir && at > dc.matchPos {
-		dc.matchPos = at
-	} else if c == opposite(dc.embeddingDir) && at > dc.matchPos {
-		d := at - dc.matchPos
-		if d > 65535 {
-			tracer().Errorf("overflow for opposite-char distance: %d", d)
-			d = 65535
-		}
-		dc.odist = uint16(d)
-	}
-	//T().Debugf("setting strong type %s at pos=%d, context=%v", classString(c), at, dc)
-	return *dc
-}
-
 // Has the currently last strong type been an AL?
 func (dc dirContext) IsAL() bool {
 	return dc.strong == bidi.AL
-- 
2.43.0


From 3e1c2f6ed747a6365bbc4c19653c7ff1ee773517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 11/61] fix: bidi isolates at end of text, unmatched PDI,
 neutrals in front of isolates

---
 bidi/resolver.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 5a5afcc..938dacd 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -172,7 +172,8 @@ func (p *parser) reduce(n int, rhs []scrap, startIRS int) {
 func (p *parser) pass1(startIRS int) bool {
 	p.sp = startIRS              // start at beginning of isolating run sequence
 	la := 0                      // length of lookahead LA
-	if _, ok := p.read(3); !ok { // initially load 3 scraps
+	p.read(3 - (len(p.stack) - p.sp)) // initially load 3 scraps
+	if p.sp >= len(p.stack) {
 		return false // no input to read
 	}
 	var rule, shortrule *bidiRule
@@ -196,6 +197,12 @@ func (p *parser) pass1(startIRS int) bool {
 			if rule == nil || rule.pass > 1 {
 				tracer().Debugf("walking over %s", p.stack[p.sp])
 				if p.stack[p.sp].bidiclz == bidi.PDI {
+					if len(p.spIRS) == 1 { // PDI without an isolate initiator is neutral
+						p.stack[p.sp].bidiclz = cNI
+						p.sp = max(startIRS, p.sp-1) // may extend preceding neutrals
+						walk = false
+						continue
+					}
 					p.sp++ // walk over PDI
 					pdi = true
 					break
@@ -242,7 +249,7 @@ func (p *parser) applySubIRS(startIRS int) int {
 	p.sp = startSubIRS // jump back to start of “IRS match”
 	p.reduce(runlen, rhs, startIRS)
 	//return p.sp + 1 // walk over cNI just produced
-	return p.sp
+	return max(startIRS, p.sp-1) // cNI just produced may extend preceding neutrals
 }
 
 // pass 2 operates on the scraps laying on the stack, starting at the
-- 
2.43.0


From 6c97c39ba792e60411617ce9286aa744a5d755e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 12/61] fix: bidi bracket pairs respect canonical equivalents
 of angle brackets

---
 bidi/brackets.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index d63b3dd..7c14354 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -154,7 +154,7 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	}
 	i := len(bs) - 1
 	for i >= 0 { // start at TOS, possible skip unclosed opening brackets
-		if bs[i].pair.c == b {
+		if canonicalBracket(bs[i].pair.c) == canonicalBracket(b) {
 			open := bs[i] //.pos
 			bs = bs[:i]
 			return true, open, bs
@@ -164,6 +164,17 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	return false, brktpos{}, bs
 }
 
+// canonicalBracket maps brackets to their canonical equivalent (see rule BD14/15 of UAX#9).
+func canonicalBracket(b rune) rune {
+	switch b {
+	case 0x2329:
+		return 0x3008
+	case 0x232a:
+		return 0x3009
+	}
+	return b
+}
+
 //func (bph *bracketPairHandler) FindBracketPairing(s scrap, open bool) (pairing, bool) {
 func (bph *bracketPairHandler) FindBracketPairing(s scrap) (pairing, bool) {
 	bph.mx.Lock()
-- 
2.43.0


From afa9d83fb75c62fec669f8b21445c24afd07d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 13/61] fix: bidi reordering keeps the order of adjacent number
 runs

---
 bidi/reordering.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index f2f81c6..2e0865e 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -237,11 +237,11 @@ func reorder(scraps []scrap, i, j int, embedded Direction) []scrap {
 			if level(s, embedded) == 0 {
 				state = 0
 				tracer().Debugf("reverse(%d, %d)", startRunR, pos)
-				reverse(scraps, startRunR, pos)
+				reverseRun(scraps, startRunR, pos, embedded)
 				startRunR = 0
 			} else if pos == j {
 				tracer().Debugf("EOF reverse(%d, %d)", startRunR, pos+1)
-				reverse(scraps, startRunR, pos+1)
+				reverseRun(scraps, startRunR, pos+1, embedded)
 			}
 		}
 		if pos == j || s.bidiclz == cNULL {
@@ -262,6 +262,22 @@ func level(s scrap, embedded Direction) int {
 	return 0
 }
 
+// reverseRun reverses a run [i,j) of o, EN, AN. In L2R context, numbers have a level of 2 and
+// sequences of numbers are therefore reversed twice.
+func reverseRun(scraps []scrap, i, j int, embedded Direction) {
+	reverse(scraps, i, j)
+	if embedded == RightToLeft {
+		return
+	}
+	for k := i; k < j; k++ {
+		start := k
+		for k < j && level(scraps[k], embedded) == 2 {
+			k++
+		}
+		reverse(scraps, start, k)
+	}
+}
+
 // reverse ordering of [i,j)
 func reverse(scraps []scrap, i, j int) []scrap {
 	if i > j {
-- 
2.43.0


From d45e97de0bdb9e7a232e1e6b81914d6a4c9948dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 14/61] fix: bidi reordering of isolates at run boundaries and
 within runs of opposite direction

---
 bidi/reordering.go | 177 +++++++++++++++++++++++++--------------------
 1 file changed, 97 insertions(+), 80 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 2e0865e..3e86627 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -223,7 +223,7 @@ func reorder(scraps []scrap, i, j int, embedded Direction) []scrap {
 			tracer().Debugf("reordered child = %v", ch)
 			if dir != embedded {
 				tracer().Debugf("reversing total child %v", ch)
-				reverseWithoutIsolates(ch, 0, len(ch))
+				reverseIsolate(ch)
 				tracer().Debugf("                child = %v", ch)
 			}
 		}
@@ -308,6 +308,16 @@ func reverseWithoutIsolates(scraps []scrap, i, j int) []scrap {
 	return reverse(scraps, i, j)
 }
 
+// reverseIsolate reverses an isolating run sequence, including nested ones.
+func reverseIsolate(scraps []scrap) {
+	reverseWithoutIsolates(scraps, 0, len(scraps))
+	for _, s := range scraps {
+		for _, ch := range s.children {
+			reverseIsolate(ch)
+		}
+	}
+}
+
 func findEmbeddingDir(scraps []scrap, inherited Direction) Direction {
 	if len(scraps) == 0 {
 		return inherited
@@ -329,111 +339,118 @@ func findEmbeddingDir(scraps []scrap, inherited Direction) Direction {
 
 func flatten(scraps []scrap, embedding Direction) []Run {
 	tracer().Debugf("will flatten( %v ), emb=%v", scraps, embedding)
+	embedding = findEmbeddingDir(scraps, embedding)
+	return flattenFor(scraps, embedding, embedding)
+}
+
+// flattenFor flattens scraps which have already been reordered to be output in direction
+// device.
+func flattenFor(scraps []scrap, embedding, device Direction) []Run {
 	var runs []Run
-	var last Run
-	if len(scraps) > 0 && isisolate(scraps[0]) {
-		embedding = directionFromBidiClass(scraps[0], embedding)
-	}
 	for _, s := range scraps {
-		tracer().Debugf("s=%v, |ch|=%d, last=%v", s, len(s.children), last)
-		if len(s.children) == 0 {
-			last, runs = extendRuns(s, last, runs, embedding)
-			tracer().Debugf("runs = %v", runs)
-			continue
-		}
-		var cut scrap
-		for _, ch := range s.children {
-			if len(ch) == 0 {
+		opposite := directionFromBidiClass(s, embedding) != device
+		for _, piece := range pieces(s, opposite) {
+			if len(piece.children) == 0 {
+				runs = extendRuns(piece, runs, embedding, device)
 				continue
 			}
-			tracer().Debugf("scrap has child = %v ------------------", ch)
-			cut, s = cutScrapAt(s, ch)
-			last, runs = extendRuns(cut, last, runs, embedding)
-			//chrun := flatten(ch, embedding) // TODO embedding -> last.Dir ?
-			chruns := flatten(ch, last.Dir) // TODO embedding -> last.Dir ?
-			tracer().Debugf("flattened child = %v", chruns)
-			tracer().Debugf("----------------------------------------------------------------")
-			last, runs = appendRuns(chruns, last, runs)
-			tracer().Debugf("runs+child=%v, last=%v", runs, last)
+			ch := piece.children[0]
+			dir := findEmbeddingDir(ch, embedding)
+			if opposite {
+				ch = swapIsolates(ch)
+			}
+			for _, r := range flattenFor(ch, dir, device) {
+				runs = appendRun(runs, r, device)
+			}
 		}
-		tracer().Debugf("after children: s=%v, runs=%v", s, runs)
-		last, runs = extendRuns(s, last, runs, embedding)
-		tracer().Debugf("runs = %v", runs)
 	}
 	return runs
 }
 
-func extendRuns(s scrap, last Run, runs []Run, embedding Direction) (Run, []Run) {
-	tracer().Debugf("extendRuns(%v), last=%v, runs=%v", s, last, runs)
-	if s.len() == 0 { // important. must correlate to semantics of runappend()
-		return last, runs
-	}
-	dir := directionFromBidiClass(s, embedding)
-	if last.Length == 0 { // we are at the start of a sequence
-		// last.L = uint64(s.l)
-		// last.R = uint64(s.r)
-		last = run(s, embedding)
-		//last.concat(last)
-		//last.Length = int64(s.len())
-		runs = runappend(runs, last)
-	} else if last.Dir == dir { // just extend last with s
-		//last.R = uint64(s.r)
-		last.concat(run(s, embedding))
-		tracer().Debugf("extending %v with %v", runs, last)
-		runs[len(runs)-1] = last
-	} else { // have to switch directions
-		tracer().Debugf("switching dir")
-		last = run(s, embedding)
-		// last = Run{
-		// 	// L:   uint64(s.l),
-		// 	// R:   uint64(s.r),
-		// 	Dir:    dir,
-		// 	Length: int64(s.len()),
-		// }
-		runs = runappend(runs, last)
-	}
-	return last, runs
+// pieces cuts a scrap into sections without children and sections with exactly
+// one child, spanning the child.
+func pieces(s scrap, reversed bool) []scrap {
+	var p []scrap
+	for _, ch := range s.children {
+		if len(ch) == 0 {
+			continue
+		}
+		var cut scrap
+		cut, s = cutScrapAt(s, ch)
+		p = append(p, cut, scrap{bidiclz: s.bidiclz, l: cut.r, r: s.l, children: [][]scrap{ch}})
+	}
+	s.children = nil
+	p = append(p, s)
+	if reversed {
+		reverse(p, 0, len(p))
+	}
+	return p
+}
+
+// swapIsolates moves the delimiters of an isolating run sequence to the opposite end.
+func swapIsolates(scraps []scrap) []scrap {
+	var start, rest, end []scrap
+	for i, s := range scraps {
+		if isisolate(s) && i == 0 {
+			end = append(end, s)
+		} else if isisolate(s) {
+			start = append(start, s)
+		} else {
+			rest = append(rest, s)
+		}
+	}
+	return append(append(start, rest...), end...)
+}
+
+func extendRuns(s scrap, runs []Run, embedding, device Direction) []Run {
+	if s.len() == 0 {
+		return runs
+	}
+	return appendRun(runs, run(s, embedding), device)
+}
+
+// appendRun appends a run to a list of runs. A run of the same direction as the last
+// one of the list will be concatenated with it.
+func appendRun(runs []Run, r Run, device Direction) []Run {
+	if len(runs) == 0 || runs[len(runs)-1].Dir != r.Dir {
+		return append(runs, r)
+	}
+	last := &runs[len(runs)-1]
+	if r.Dir == device {
+		last.concat(r)
+	} else { // segments are in visual order, must not be merged
+		last.Length += r.Length
+		last.scraps = append(last.scraps, r.scraps...)
+	}
+	return runs
 }
 
 func cutScrapAt(s scrap, ch []scrap) (scrap, scrap) {
 	if len(ch) == 0 {
 		panic("internal inconsistency: ch may not be empty")
 	}
+	l, r := ch[0].l, ch[0].r
+	for _, c := range ch { // ch may have been re-ordered
+		if c.l < l {
+			l = c.l
+		}
+		if c.r > r {
+			r = c.r
+		}
+	}
 	cut := scrap{
 		l:       s.l,
-		r:       ch[0].l,
+		r:       l,
 		bidiclz: s.bidiclz,
 	}
 	rest := scrap{
-		l:       ch[len(ch)-1].r,
+		l:       r,
 		r:       s.r,
 		bidiclz: s.bidiclz,
 	}
 	return cut, rest
 }
 
-func appendRuns(childRuns []Run, last Run, runs []Run) (Run, []Run) {
-	if len(childRuns) == 0 {
-		return last, runs
-	}
-	if childRuns[0].Dir == last.Dir {
-		//last.Length = childRuns[0].Length
-		last.concat(childRuns[0])
-		runs = append(runs, childRuns[1:]...)
-	} else {
-		runs = append(runs, childRuns...)
-	}
-	last = runs[len(runs)-1]
-	return last, runs
-}
-
-func runappend(runs []Run, r Run) []Run {
-	if r.Length > 0 {
-		runs = append(runs, r)
-	}
-	return runs
-}
-
 func directionFromBidiClass(s scrap, embedding Direction) Direction {
 	switch s.bidiclz {
 	case bidi.L, bidi.LRI:
-- 
2.43.0


From 82a6de2f1d2f22f4396d3e64af1a3d4b3092aefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 15/61] fix: bidi Reorder and SegmentIterator do not modify
 their receiver

---
 bidi/reordering.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 3e86627..2529cda 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -476,12 +476,25 @@ func (rl *ResolvedLevels) Reorder() *Ordering {
 	if len(rl.scraps) == 0 {
 		return &Ordering{}
 	}
-	rscr := reorder(rl.scraps, 0, len(rl.scraps), rl.embedding)
+	rscr := copyScraps(rl.scraps) // re-ordering is destructive
+	rscr = reorder(rscr, 0, len(rscr), rl.embedding)
 	tracer().Debugf("=====reorder done, flatten ========")
 	r := flatten(rscr, rl.embedding)
 	return &Ordering{Runs: r}
 }
 
+// copyScraps makes a deep copy of scraps.
+func copyScraps(scraps []scrap) []scrap {
+	c := copyStackSegm(scraps, 0, len(scraps))
+	for i := range c {
+		c[i].children = nil
+		for _, ch := range scraps[i].children {
+			c[i].appendChild(copyScraps(ch))
+		}
+	}
+	return c
+}
+
 // DirectionAt returns the text direction at byte position pos.
 func (rl *ResolvedLevels) DirectionAt(pos uint64) Direction {
 	for _, s := range rl.scraps {
@@ -535,6 +548,7 @@ func (r *Run) SegmentIterator(reverse bool) *SegmentIterator {
 		reverse: reverse,
 	}
 	if reverse {
+		it.scraps = copyStackSegm(r.scraps, 0, len(r.scraps)) // leave run unchanged
 		mid := len(it.scraps) / 2
 		for i := 0; i < mid; i++ {
 			j := len(it.scraps) - i - 1
-- 
2.43.0


From 3df7875c9e4b5176501080a3f70b5014682d93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 16/61] fix: bidi Split keeps embedding direction and nested
 isolates, leaves its receiver unchanged

---
 bidi/reordering.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 2529cda..c651714 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -50,13 +50,14 @@ func (rl *ResolvedLevels) String() string {
 // and characters are therefore “re-positioned”.
 //
 func (rl *ResolvedLevels) Split(at uint64, shift0 bool) (*ResolvedLevels, *ResolvedLevels) {
-	prefix, suffix := split(rl.scraps, charpos(at))
+	prefix, suffix := split(copyScraps(rl.scraps), charpos(at)) // split is destructive
 	if shift0 {
 		//suffix = shiftzero(suffix, charpos(at))
 		shiftzero(&suffix, charpos(at))
 		tracer().Debugf("resolved levels: shifted suffix levels = %v", suffix)
 	}
-	return &ResolvedLevels{scraps: prefix}, &ResolvedLevels{scraps: suffix}
+	return &ResolvedLevels{scraps: prefix, embedding: rl.embedding},
+		&ResolvedLevels{scraps: suffix, embedding: rl.embedding}
 }
 
 func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
@@ -75,6 +76,11 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 		if len(s.children) > 0 { // TODO omit this
 			tracer().Debugf("split in %v with |ch|=%d", s, len(s.children))
 			for j, ch := range s.children {
+				if len(ch) > 0 && ch[0].l >= at { // this child and all following are right of the cut
+					restch = s.children[j:]
+					s.children = s.children[:j]
+					break
+				}
 				if irsContains(ch, at) {
 					prefix, suffix := split(ch, at)
 					restch = [][]scrap{suffix}
@@ -95,6 +101,7 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 		rseg := make([]scrap, len(scraps)-i+1)
 		if isisolate(scraps[0]) {
 			rseg[0] = scraps[0] // copy IRS start
+			rseg[0].l, rseg[0].r = at, at
 			copy(rseg[1:], scraps[i:])
 			scraps[i], rseg[1] = s, rest
 		} else {
@@ -111,7 +118,7 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 }
 
 func irsContains(scraps []scrap, pos charpos) bool {
-	return scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
+	return len(scraps) > 0 && scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
 }
 
 func shiftzero(scraps *[]scrap, offset charpos) { //[]scrap {
@@ -119,6 +126,9 @@ func shiftzero(scraps *[]scrap, offset charpos) { //[]scrap {
 		s.l = validcharpos(s.l, offset)
 		s.r = validcharpos(s.r, offset)
 		(*scraps)[i] = s
+		for j := range s.children {
+			shiftzero(&s.children[j], offset)
+		}
 		//T().Errorf("scrap = %v", s)
 	}
 	//T().Errorf("shifted = %v", scraps)
-- 
2.43.0


From 9fa5fea304ac7582973fdb20f51d6ea02ea3b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 17/61] fix: bidi DirectionAt returns the direction within
 isolates

---
 bidi/reordering.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index c651714..3455df5 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -507,10 +507,22 @@ func copyScraps(scraps []scrap) []scrap {
 
 // DirectionAt returns the text direction at byte position pos.
 func (rl *ResolvedLevels) DirectionAt(pos uint64) Direction {
-	for _, s := range rl.scraps {
-		if uint64(s.l) <= pos && pos < uint64(s.r) {
-			return directionFromBidiClass(s, LeftToRight)
+	return directionAt(rl.scraps, charpos(pos), rl.embedding)
+}
+
+func directionAt(scraps []scrap, pos charpos, embedding Direction) Direction {
+	for _, s := range scraps {
+		if !s.contains(pos) {
+			continue
+		}
+		for _, ch := range s.children {
+			for _, c := range ch { // delimiters belong to the outer run
+				if c.contains(pos) && !isisolate(c) {
+					return directionAt(ch, pos, findEmbeddingDir(ch, embedding))
+				}
+			}
 		}
+		return directionFromBidiClass(s, embedding)
 	}
 	return LeftToRight
 }
-- 
2.43.0


From d12541827d53949fa58f816e5e6d4f4ee30143ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 18/61] fix: bidi out-of-line markup at the start of the text

---
 bidi/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 552e3d3..1021774 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -46,6 +46,7 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.runeScanner.Split(bufio.ScanRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
+	sc.lastMarkupPos = -1
 	sc.bd16 = makeBracketPairHandler(0)
 	sc.IRSStack = make([]*bracketPairHandler, 0, 16)
 	sc.IRSStack = append(sc.IRSStack, sc.bd16)
-- 
2.43.0


From 7ad1d59357a763c2ca307cbbc97b0d5630e94c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 19/61] fix: bidi options may be switched off again

---
 bidi/scanner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 1021774..63d3293 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -432,7 +432,7 @@ func RecognizeLegacy(b bool) Option {
 	return func(sc *bidiScanner) {
 		if !sc.hasMode(optionRecognizeLegacy) && b ||
 			sc.hasMode(optionRecognizeLegacy) && !b {
-			sc.mode |= optionRecognizeLegacy
+			sc.mode ^= optionRecognizeLegacy
 		}
 	}
 }
@@ -465,7 +465,7 @@ func TestMode(b bool) Option {
 	return func(sc *bidiScanner) {
 		if !sc.hasMode(optionTesting) && b ||
 			sc.hasMode(optionTesting) && !b {
-			sc.mode |= optionTesting
+			sc.mode ^= optionTesting
 		}
 	}
 }
@@ -479,7 +479,7 @@ func IgnoreParagraphSeparators(b bool) Option {
 	return func(sc *bidiScanner) {
 		if !sc.hasMode(optionIgnoreParSep) && b ||
 			sc.hasMode(optionIgnoreParSep) && !b {
-			sc.mode |= optionIgnoreParSep
+			sc.mode ^= optionIgnoreParSep
 		}
 	}
 }
-- 
2.43.0


From decfead086ff4b6cee4fe9b7f93c2d8e2e16a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 20/61] fix: bidi text positions for input with illegal UTF-8

---
 bidi/scanner.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 63d3293..e20f160 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -43,7 +43,7 @@ type bidiScanner struct {
 func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bidiScanner {
 	sc := &bidiScanner{}
 	sc.runeScanner = bufio.NewScanner(input)
-	sc.runeScanner.Split(bufio.ScanRunes)
+	sc.runeScanner.Split(scanRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
 	sc.lastMarkupPos = -1
@@ -58,6 +58,16 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	return sc
 }
 
+// scanRunes is bufio.ScanRunes, except that bytes which are not legal UTF-8 are left as they
+// are. Text positions have to count bytes of the input.
+func scanRunes(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	advance, token, err = bufio.ScanRunes(data, atEOF)
+	if advance > 0 {
+		token = data[:advance]
+	}
+	return
+}
+
 func markupToBidi(m int) bidi.Class {
 	switch m {
 	case MarkupLRI, MarkupPDILRI:
@@ -97,7 +107,7 @@ func (sc *bidiScanner) nextRune(pos charpos) (rune, int, bidi.Class, bool) {
 	b := sc.runeScanner.Bytes()
 	r, length := utf8.DecodeRune(b)
 	props, sz := bidi.LookupRune(r)
-	if sz == 0 || sz != length {
+	if sz == 0 || (sz != length && r != utf8.RuneError) {
 		panic("bidi package differs in rune interpretation from scanner package")
 	}
 	bidiclz := props.Class()
-- 
2.43.0


From 82043ced63e27ffc4d0ca1d63fe09cd6351b1b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 21/61] fix: segmenter forgets errors on Init, Next without
 Init does not panic

---
 segment/segment.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index d7c44f4..3d1a024 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -157,6 +157,7 @@ func (s *Segmenter) init() {
 		s.pos = 0
 	}
 	s.positionOfBreakOpportunity = -1
+	s.err = nil
 }
 
 // Buffer sets the initial buffer to use when scanning and the maximum size of
@@ -352,6 +353,7 @@ func (s *Segmenter) setErr(err error) {
 func (s *Segmenter) next(bound int) bool {
 	if s.reader == nil {
 		s.setErr(ErrNotInitialized)
+		return false
 	}
 	//
 	s.inUse = true
-- 
2.43.0


From c411eb4767504249534f94d17048ce83ba98dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 22/61] fix: segmenter ends matches of its breakers if
 re-initialized amid a text

---
 segment/segment.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index 3d1a024..5971559 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -87,6 +87,7 @@ type Segmenter struct {
 	longestActiveMatch         int                  // bookkeeping for matching
 	positionOfBreakOpportunity int                  // bookkeeping for matching
 	atEOF                      bool                 // at end of input buffer
+	eotRead                    bool                 // end-of-text is in the queue and known to the breakers
 	inUse                      bool                 // Next() has been called; buffer is in use.
 	err                        error                // collects the first error occured
 }
@@ -149,6 +150,9 @@ func (s *Segmenter) init() {
 		s.deque = &deque{} // Q of atoms
 		s.maxSegmentLen = MaxSegmentSize
 	} else {
+		if s.inUse && !s.eotRead {
+			s.abandonInput()
+		}
 		s.deque.Clear()
 		s.longestActiveMatch = 0
 		s.atEOF = false
@@ -157,9 +161,20 @@ func (s *Segmenter) init() {
 		s.pos = 0
 	}
 	s.positionOfBreakOpportunity = -1
+	s.eotRead = false
 	s.err = nil
 }
 
+// abandonInput signals end-of-text to the breakers, as the previous input has not
+// been read up to its end. The breakers may not carry over active matches to the next input.
+func (s *Segmenter) abandonInput() {
+	for _, breaker := range s.breakers {
+		cpClass := breaker.CodePointClassFor(eotAtom.r)
+		breaker.StartRulesFor(eotAtom.r, cpClass)
+		breaker.ProceedWithRune(eotAtom.r, cpClass)
+	}
+}
+
 // Buffer sets the initial buffer to use when scanning and the maximum size of
 // buffer that may be allocated during segmenting.
 // The maximum segment size is the larger of max and cap(buf).
@@ -405,6 +420,7 @@ func (s *Segmenter) readRune() error {
 	if err == io.EOF {
 		s.deque.PushBack(eotAtom.r, eotAtom.penalty0, eotAtom.penalty1)
 		s.atEOF = true
+		s.eotRead = true
 		err = nil
 	} else { // error case, err is non-nil
 		tracer().P("rune", r).Errorf("ReadRune() error: %s", err)
-- 
2.43.0


From 0f4fddda0ebb36c2d184a7112e2e479e79eb9a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 23/61] fix: BoundedNext counts code-points, never delivers
 end-of-text, continues with any bound

---
 segment/segment.go | 63 +++++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 5971559..170fb8d 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -310,6 +310,10 @@ func (s *Segmenter) Next() bool {
 // of infinite penalties. If the client does not want this break, it is up to the
 // client to merge this fragment with the next one, if any.
 //
+// The bound is a position in the input text, counted in code-points. If there is text left
+// at the bound, Err() will return ErrBoundReached, until segmenting is continued with
+// another call to Next() or BoundedNext().
+//
 // See also method `Next`.
 //
 func (s *Segmenter) BoundedNext(bound int) bool {
@@ -318,7 +322,7 @@ func (s *Segmenter) BoundedNext(bound int) bool {
 
 // setErr() records the first error encountered.
 func (s *Segmenter) setErr(err error) {
-	if s.err == nil || s.err == io.EOF {
+	if s.err == nil || s.err == io.EOF || s.err == ErrBoundReached {
 		s.err = err
 	}
 }
@@ -372,21 +376,26 @@ func (s *Segmenter) next(bound int) bool {
 	}
 	//
 	s.inUse = true
+	if s.err == ErrBoundReached { // client continues behind the previous bound
+		s.err = nil
+	}
+	// the bound may differ from the previous one, thus re-consider the runes in the Q
+	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
+		s.distanceTo(bound))
 	if !s.atEOF {
 		err := s.readEnoughInputAndFindBreak(bound)
 		if err != nil && err != io.EOF {
 			s.setErr(err)
-			s.runesBuf = s.runesBuf.Reset(nil)
-			return false
-		}
-		if s.pos-s.deque.Len() > bound {
-			tracer().Debugf("exiting because of bound reached: %d-%d>%d", s.pos, s.deque.Len(), bound)
+			s.runesBuf = s.runesBuf.SetMark()
 			return false
 		}
 	}
 	//
 	if s.positionOfBreakOpportunity < 0 { // didn't find a break opportunity
-		s.runesBuf = s.runesBuf.Reset(nil)
+		if s.queuedRunes() > 0 && s.distanceTo(bound) < 0 {
+			s.setErr(ErrBoundReached)
+		}
+		s.runesBuf = s.runesBuf.SetMark()
 		return false
 	}
 	//l, _ := s.getFrontSegment(bound)
@@ -396,13 +405,29 @@ func (s *Segmenter) next(bound int) bool {
 	return true
 }
 
+// queuedRunes returns the count of runes in the Q, without the artificial end-of-text.
+func (s *Segmenter) queuedRunes() int {
+	if s.eotRead {
+		return s.deque.Len() - 1
+	}
+	return s.deque.Len()
+}
+
+// distanceTo returns the distance of a bound from the front of the Q (in runes).
+func (s *Segmenter) distanceTo(bound int) int {
+	if bound < math.MaxInt64 {
+		return bound - s.pos + s.queuedRunes()
+	}
+	return bound
+}
+
 // readRune reads in the next rune and appends it at the end of the Q.
 // If EOF is encountered, s.atEOF is set and an artificial EOF atom is appended to the Q.
 // If an error occurs during read, it is returned and s.atEOF is set
 // (EOF is not considered an error in itself in this context).
 // For all subsequent calls to readRune where s.atEOF is true, io.EOF is returned.
 //
-// s.pos is incremented according to the byte size of the input rune.
+// s.pos is incremented for every rune of the input text.
 //
 // readRune _must_ grow the Q or return an error or EOF.
 //
@@ -410,10 +435,10 @@ func (s *Segmenter) readRune() error {
 	if s.atEOF {
 		return io.EOF
 	}
-	r, sz, err := s.reader.ReadRune()
-	s.pos += sz
+	r, _, err := s.reader.ReadRune()
 	//tracer().P("rune", r).Debugf("--------------------------------------")
 	if err == nil {
+		s.pos++
 		s.deque.PushBack(r, 0, 0)
 		return nil
 	}
@@ -487,13 +512,8 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 		// The Q is updated. The longest active match may have been changed and
 		// we have to scan from the start of the Q to the new position of active match.
 		// If we find a breaking opportunity, we're done.
-		boundDist := bound
-		if bound < math.MaxInt64 {
-			//boundDist = bound - s.pos + s.deque.Len()
-			boundDist = bound - s.pos + qlen
-		}
 		s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen-s.longestActiveMatch,
-			boundDist)
+			s.distanceTo(bound))
 		//s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen - 1 - s.longestActiveMatch)
 		// tracer().Debugf("segmenter: breakpos=%d, Q-len=%d, active match=%d",
 		// 	s.positionOfBreakOpportunity, s.deque.Len(), s.longestActiveMatch)
@@ -519,6 +539,7 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 //
 // Returns the Q-position to break or -1.
 func (s *Segmenter) findBreakOpportunity(to int, boundDist int) int {
+	to = min(to, s.queuedRunes()) // end-of-text is never part of a segment
 	if to-1 < 0 || boundDist < 0 {
 		return -1
 	}
@@ -604,11 +625,11 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 		//return 0, true
 	}
 	var isCutOff bool
-	start := s.pos - s.deque.Len()
+	start := s.pos - s.queuedRunes()
 	if start+l >= bound { // front segment would extend bound
 		tracer().Debugf("segmenter: bound reached")
 		isCutOff = true // we truncate l to Q-start---->|bound
-		if l = int(bound) - int(s.pos) + s.deque.Len(); l < 0 {
+		if l = int(bound) - start; l < 0 {
 			return 0, true
 		}
 	}
@@ -621,12 +642,8 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 	//tracer().Debugf("cutting front segment of length 0..%d: '%v'", l, s.runesBuf)
 	// There may be further break opportunities between this break and the start of the
 	// current longest match. Advance the pointer to the next break opportunity, if any.
-	boundDist := bound
-	if bound < math.MaxInt64 {
-		boundDist = bound - s.pos + s.deque.Len()
-	}
 	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
-		boundDist)
+		s.distanceTo(bound))
 	//s.printQ()
 	return seglen, isCutOff
 }
-- 
2.43.0


From 28886726a85625c5d721ac61c63b50d480d272cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 24/61] fix: word breaker has an active match of at least one
 code-point, as penalties are set belatedly

---
 uax29/uax29.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index e1a1451..70429a5 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -211,6 +211,11 @@ func (gb *WordBreaker) ProceedWithRune(r rune, cpClass int) {
 // and return the longest one for all still active recognizers.
 // (Interface uax.UnicodeBreaker)
 func (gb *WordBreaker) LongestActiveMatch() int {
+	// The penalty for a break after the current rune will be set with the next rune, thus
+	// we return a value of at least 1.
+	if gb.longestMatch < 1 {
+		return 1
+	}
 	return gb.longestMatch
 }
 
-- 
2.43.0


From b7753e3c182903b0185312e673262cdf6cd32e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 25/61] fix: segmenter enforces and reports the maximum length
 of segments

---
 segment/segment.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 170fb8d..43ab101 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -160,6 +160,9 @@ func (s *Segmenter) init() {
 		s.lastPenalties[0], s.lastPenalties[1] = 0, 0
 		s.pos = 0
 	}
+	if s.runesBuf.maxSegLen == 0 {
+		s.runesBuf.maxSegLen = s.maxSegmentLen
+	}
 	s.positionOfBreakOpportunity = -1
 	s.eotRead = false
 	s.err = nil
@@ -207,7 +210,7 @@ func (s *Segmenter) RuneBuffer(buf []rune, max int) {
 	if s.inUse {
 		panic("segment.Buffer: buffer already in use; cannot be re-set")
 	}
-	if len(buf) > 0 {
+	if cap(buf) > 0 {
 		s.runesBuf.output = buf
 		s.runesBuf.maxSegLen = max
 	}
@@ -400,6 +403,14 @@ func (s *Segmenter) next(bound int) bool {
 	}
 	//l, _ := s.getFrontSegment(bound)
 	s.getFrontSegment(bound)
+	if s.err == ErrTooLong { // there is no way to continue
+		s.atEOF = true
+		s.deque.Clear()
+		s.eotRead = false
+		s.positionOfBreakOpportunity = -1
+		s.runesBuf = s.runesBuf.SetMark()
+		return false
+	}
 	// tracer().Debugf("s.positionOfBreakOpp=%d", s.positionOfBreakOpportunity)
 	//tracer().P("length", strconv.Itoa(l)).Debugf("Next() = \"%s\"", s.runesBuf)
 	return true
@@ -635,7 +646,11 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 	}
 	for i := 0; i <= l; i++ {
 		r, p0, p1 := s.deque.PopFront()
-		written, _ := (&s.runesBuf).WriteRune(r)
+		written, err := (&s.runesBuf).WriteRune(r)
+		if err != nil {
+			s.setErr(err)
+			return seglen, isCutOff
+		}
 		seglen += written
 		s.lastPenalties[0], s.lastPenalties[1] = p0, p1
 	}
-- 
2.43.0


From 41f6f8f917b5df5594482f64073b524011059a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 26/61] fix: simple word breaker delivers texts of NULs only

---
 segment/simplewordbreak.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segment/simplewordbreak.go b/segment/simplewordbreak.go
index afe5d1c..ba4e4ed 100644
--- a/segment/simplewordbreak.go
+++ b/segment/simplewordbreak.go
@@ -84,6 +84,9 @@ func (swb *SimpleWordBreaker) ProceedWithRune(r rune, cpClass int) {
 		swb.matchLen[swb.matchType] = 1
 	} else if r == 0 {
 		swb.matchType = eofType
+		if len(swb.penalties) == 0 { // nothing to close, e.g. in a text of NUL code-points only
+			swb.penalties = append(swb.penalties, 0, PenaltyBeforeWhitespace)
+		}
 	}
 }
 
-- 
2.43.0


From 040657cce00e8d02d0dd6f517e67ba9fb10df52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 27/61] fix: segmenter tells primary from secondary breakers by
 position

---
 segment/segment.go | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 43ab101..d8a8232 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -508,14 +508,14 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 			qlen = s.deque.Len()
 			s.longestActiveMatch = 0
 			r := s.deque.LastRune()
-			for _, breaker := range s.breakers {
+			for i, breaker := range s.breakers {
 				cpClass := breaker.CodePointClassFor(r)
 				breaker.StartRulesFor(r, cpClass)
 				breaker.ProceedWithRune(r, cpClass)
 				if lam := breaker.LongestActiveMatch(); lam > s.longestActiveMatch {
 					s.longestActiveMatch = lam
 				}
-				s.insertPenalties(s.inxForBreaker(breaker), breaker.Penalties())
+				s.insertPenalties(min(i, 1), breaker.Penalties()) // 0 = primary, 1 = secondary
 			}
 			//s.printQ()
 			//tracer().Debugf("-- all breakers done --")
@@ -578,15 +578,6 @@ func (s *Segmenter) findBreakOpportunity(to int, boundDist int) int {
 	return breakopp
 }
 
-// find out if the UnicodeBreaker b is the primary breaker. If yes, return index 0,
-// 1 otherwise.
-func (s *Segmenter) inxForBreaker(b uax.UnicodeBreaker) int {
-	if b == s.breakers[0] {
-		return 0
-	}
-	return 1
-}
-
 // insertPenalties distributes penalties from the current breaker cycle
 // between the Q atoms. Penalties may be located after the fact between
 // runes of the current longest match.
-- 
2.43.0


From 8249bf0579bf693f85d9963ef6d760ff6e10b6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 28/61] fix: grapheme strings from empty, illegal and U+FFFD
 input

---
 grapheme/string.go | 23 +++++++++++++----------
 uax.go             |  7 ++++---
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/grapheme/string.go b/grapheme/string.go
index 6ba77dc..7b991a6 100644
--- a/grapheme/string.go
+++ b/grapheme/string.go
@@ -75,13 +75,13 @@ type shortString struct {
 
 func makeShortString(s string) String {
 	gstr := &shortString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, text := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
 	gstr.breaks = make([]uint8, 1, len(s)/4+1)
-	gstr.breaks[0] = 0
-	br := 0
+	br := len(s) - len(text) // illegal prefix is cut off
+	gstr.breaks[0] = uint8(br)
 	for breaker.Next() {
 		br += len(breaker.Bytes())
 		tracer().Debugf("next grapheme = '%s'", breaker.Text())
@@ -124,13 +124,13 @@ type midString struct {
 
 func makeMidString(s string) String {
 	gstr := &midString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, text := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
 	gstr.breaks = make([]uint16, 1, len(s)/4)
-	gstr.breaks[0] = 0
-	br := 0
+	br := len(s) - len(text) // illegal prefix is cut off
+	gstr.breaks[0] = uint16(br)
 	for breaker.Next() {
 		br += len(breaker.Bytes())
 		tracer().Debugf("next grapheme = '%s'", breaker.Text())
@@ -166,14 +166,17 @@ func (gstr *midString) String() string {
 
 // ---------------------------------------------------------------------------
 
-func prepareBreaking(s string) *segment.Segmenter {
+// prepareBreaking returns a segmenter for s without illegal prefix, together with the
+// text it will operate on. It returns nil if s does not contain any legal runes.
+func prepareBreaking(s string) (*segment.Segmenter, string) {
 	breaker := makeGraphemeBreaker()
 	start, _ := uax.PositionOfFirstLegalRune(s)
 	if start < 0 {
-		tracer().Errorf("cannot create grapheme string from invalid rune input")
+		tracer().Infof("grapheme string is without legal runes")
+		return nil, ""
 	}
 	breaker.Init(&rr{input: s[start:], pos: 0})
-	return breaker
+	return breaker, s[start:]
 }
 
 func makeGraphemeBreaker() *segment.Segmenter {
@@ -190,7 +193,7 @@ type rr struct {
 func (reader *rr) ReadRune() (r rune, size int, err error) {
 	r, size = utf8.DecodeRuneInString(reader.input)
 	tracer().Debugf("read rune %v with size %d", r, size)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && size <= 1 { // end of input or illegal, but not U+FFFD itself
 		err = io.EOF
 		return
 	}
diff --git a/uax.go b/uax.go
index f7656cd..b6348cf 100644
--- a/uax.go
+++ b/uax.go
@@ -8,12 +8,13 @@ func PositionOfFirstLegalRune(s string) (int, []byte) {
 	i, l, start := 0, len(s), -1
 	for i < l {
 		if utf8.RuneStart(s[i]) {
-			r, _ := utf8.DecodeRuneInString(s[i:])
-			if r != utf8.RuneError {
+			r, sz := utf8.DecodeRuneInString(s[i:])
+			if r != utf8.RuneError || sz > 1 { // U+FFFD itself is legal
 				start = i
+				break
 			}
-			break
 		}
+		i++
 	}
 	//CT().Debugf("start index = %d", start)
 	return start, []byte(s[:i])
-- 
2.43.0


From 19ffa3b93e8f68977837bd01ac92c9404fd1fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 29/61] fix: width of digits, zero width runes; emoji set up by
 width package

---
 uax11/width.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/uax11/width.go b/uax11/width.go
index 0dc55cc..2d6a0d0 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -28,6 +28,9 @@ func Width(grphm []byte, context *Context) int {
 		//T().Debugf("start = %d, rest = %v", start, rest)
 		return 0
 	}
+	if isZeroWidth(grphm) {
+		return 0
+	}
 	if context == nil {
 		context = makeLatinContext()
 	} else if context.resolve == nil {
@@ -58,16 +61,31 @@ func StringWidth(s grapheme.String, context *Context) int {
 	w := 0
 	for i := 0; i < l; i++ {
 		nth := []byte(s.Nth(i))
+		if isZeroWidth(nth) {
+			continue
+		}
 		w += graphemeWidth(nth, context)
 	}
 	return w
 }
 
+// isZeroWidth is true if a grapheme is just a single zero width rune.
+func isZeroWidth(grphm []byte) bool {
+	r, sz := utf8.DecodeRune(grphm)
+	switch r {
+	case '\u200b', '\u200c', '\u200d', '\u2060', '\ufeff':
+		return sz == len(grphm)
+	}
+	return false
+}
+
 // width of a single grapheme in context
 func graphemeWidth(grphm []byte, context *Context) int {
 	r, _ := utf8.DecodeRune(grphm)
 	//T().Debugf("grapheme '%v' => rune %#U", grphm, r)
-	if emoji.EmojisClassForRune(r) >= 0 {
+	emoji.SetupEmojisClasses()
+	// digits, '#' and '*' are members of an emoji class (for keycaps), but are narrow
+	if r >= utf8.RuneSelf && emoji.EmojisClassForRune(r) >= 0 {
 		//T().Debugf("%#U is emoji", r)
 		return 2
 	}
-- 
2.43.0


From c5a47ed5dbaa9724e806bf3ed74e30927d37ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 30/61] fix: grapheme breaks after NUL, as for any control
 character

---
 grapheme/grapheme.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/grapheme/grapheme.go b/grapheme/grapheme.go
index 81b46fa..ea2470d 100644
--- a/grapheme/grapheme.go
+++ b/grapheme/grapheme.go
@@ -81,6 +81,7 @@ type Breaker struct {
 	emojirules   map[int][]uax.NfaStateFn
 	blocked      map[GraphemeClass]bool
 	weight       int
+	afterNUL     bool // previous code-point has been NUL
 }
 
 // NewBreaker creates a new UAX#29 line breaker.
@@ -143,6 +144,9 @@ func (gb *Breaker) CodePointClassFor(r rune) int {
 // TODO merge this with ProceedWithRune(), it is unnecessary
 func (gb *Breaker) StartRulesFor(r rune, cpClass int) {
 	c := GraphemeClass(cpClass)
+	if gb.afterNUL && (c == ExtendClass || c == ZWJClass || c == SpacingMarkClass) {
+		return // NUL is a control character, rule GB4 forces a break
+	}
 	if !gb.blocked[c] {
 		if rules := gb.rules[c]; len(rules) > 0 {
 			tracer().P("class", c).Debugf("starting %d rule(s)", c)
@@ -186,6 +190,7 @@ func (gb *Breaker) ProceedWithRune(r rune, cpClass int) {
 		}
 	*/
 	setPenalty1(gb, penalty999) //gb.penalties[1] = penalty999, if empty
+	gb.afterNUL = (r == 0)
 }
 
 // LongestActiveMatch collects information from
-- 
2.43.0


From ea41c9c5cb26599a8b07691bd1349227f2c19b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:29 +0000
Subject: [PATCH 31/61] fix: simple word breaker does not carry over penalties
 to texts starting with NUL

---
 segment/simplewordbreak.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segment/simplewordbreak.go b/segment/simplewordbreak.go
index ba4e4ed..762074f 100644
--- a/segment/simplewordbreak.go
+++ b/segment/simplewordbreak.go
@@ -83,10 +83,10 @@ func (swb *SimpleWordBreaker) ProceedWithRune(r rune, cpClass int) {
 		swb.matchType = cpClass
 		swb.matchLen[swb.matchType] = 1
 	} else if r == 0 {
-		swb.matchType = eofType
-		if len(swb.penalties) == 0 { // nothing to close, e.g. in a text of NUL code-points only
-			swb.penalties = append(swb.penalties, 0, PenaltyBeforeWhitespace)
+		if swb.matchLen[swb.matchType] == 0 { // nothing to close, e.g. in a text of NUL code-points only
+			swb.penalties = append(swb.penalties[:0], 0, PenaltyBeforeWhitespace)
 		}
+		swb.matchType = eofType
 	}
 }
 
-- 
2.43.0


From 69c344972ff0a6809305dead75494209343f746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 32/61] fix: segmenter's RuneBuffer may be longer than max, its
 contents are never delivered

---
 segment/segment.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segment/segment.go b/segment/segment.go
index d8a8232..1565968 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -211,8 +211,11 @@ func (s *Segmenter) RuneBuffer(buf []rune, max int) {
 		panic("segment.Buffer: buffer already in use; cannot be re-set")
 	}
 	if cap(buf) > 0 {
-		s.runesBuf.output = buf
+		s.runesBuf.output = buf[:0]
 		s.runesBuf.maxSegLen = max
+		if cap(buf) > max {
+			s.runesBuf.maxSegLen = cap(buf)
+		}
 	}
 }
 
-- 
2.43.0


From 9ad6bb9cfbb01183b047af20c208aada70cd0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 33/61] fix: segments of a bidi run are in the run's direction,
 as documented for SegmentIterator

---
 bidi/reordering.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 3455df5..9d7d93f 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -428,9 +428,9 @@ func appendRun(runs []Run, r Run, device Direction) []Run {
 	last := &runs[len(runs)-1]
 	if r.Dir == device {
 		last.concat(r)
-	} else { // segments are in visual order, must not be merged
-		last.Length += r.Length
-		last.scraps = append(last.scraps, r.scraps...)
+	} else { // segments are ordered in the direction of the run
+		r.concat(*last)
+		*last = r
 	}
 	return runs
 }
-- 
2.43.0


From 07b5d210ca4521158ff2b497928f398854d8a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 34/61] fix: bidi Reorder does not panic for texts with FSI

---
 bidi/reordering.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 9d7d93f..cc75ecf 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -340,8 +340,8 @@ func findEmbeddingDir(scraps []scrap, inherited Direction) Direction {
 			return RightToLeft
 		case bidi.PDI:
 			panic("PDI is first scrap in child run, strange")
-		case bidi.FSI:
-			panic("bidi.FSI not yet supported")
+		case bidi.FSI: // detection of the first strong character is not yet supported
+			return inherited
 		}
 	}
 	return inherited
-- 
2.43.0


From aa2200e56c6acafbf7616999d1bacdb6b9e3af91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 35/61] fix: bidi option DefaultDirection(LeftToRight)
 overrides a previous one

---
 bidi/scanner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index e20f160..4cc1f71 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -450,12 +450,12 @@ func RecognizeLegacy(b bool) Option {
 // DefaultDirection sets outer embedding level for a paragraph
 // (LeftToRight is the normal default).
 func DefaultDirection(dir Direction) Option {
-	if dir == RightToLeft {
-		return func(sc *bidiScanner) {
+	return func(sc *bidiScanner) {
+		sc.mode &^= optionOuterR2L
+		if dir == RightToLeft {
 			sc.mode |= optionOuterR2L
 		}
 	}
-	return nil
 }
 
 // TestMode will set up the scanner to recognize UPPERCASE letters as having R2L class.
-- 
2.43.0


From 463c8013eab1a4a0639294c0bf9f2ab54b15cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 36/61] fix: bidi bracket pairing stops if the bracket stack
 overflows (BD16)

---
 bidi/brackets.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 7c14354..4f44182 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -69,6 +69,7 @@ type bracketPairHandler struct {
 	pairings pairingsList        // result list of matching bracket pairings
 	mx       sync.Mutex          // guards pairings, as parser will access them, too
 	firstpos charpos             // text position of first character in isolating run sequence
+	overflow bool                // no room in the stack, processing of BD16 has been stopped
 }
 
 // This is the stack to perform the algorithm described above
@@ -100,6 +101,10 @@ func (pr pairing) String() string {
 
 // pushOpening pushes an opening bracket and its position onto the stack.
 func (bph *bracketPairHandler) pushOpening(r rune, s scrap) bool {
+	if bph.overflow || len(bph.stack) >= BD16MaxNesting {
+		bph.overflow, bph.stack = true, bph.stack[:0]
+		return false
+	}
 	var ok bool
 	ok, bph.stack = bph.stack.push(r, s)
 	return ok
-- 
2.43.0


From 90fb0ca20464ae3b6b5dddfbc34483e7a069da70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 37/61] fix: bidi resolver waits for its scanner, which does
 nothing after the final scrap

---
 bidi/resolver.go | 2 ++
 bidi/scanner.go  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 938dacd..54acd7a 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -102,6 +102,8 @@ func (p *parser) ResolveLevels() *ResolvedLevels {
 	tracer().Infof("bidi resolver: initial run starts with %v, context = %v", initial, initial.context)
 	p.stack = append(p.stack, initial) // start outer-most stack with syntetic IRS delimiter
 	runs, _, _, _ := p.parseIRS(0)     // parse paragraph as outer isolating run sequence
+	for range p.pipe {                 // wait until the scanner is done
+	}
 	end := runs[len(runs)-1].r         // we append a PDI at the end of the result
 	runs = append(runs, scrap{
 		l:       end,
diff --git a/bidi/scanner.go b/bidi/scanner.go
index 4cc1f71..a0581a1 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -151,6 +151,7 @@ func makeScrap(r rune, clz bidi.Class, pos charpos, length int) scrap {
 // uint32.
 //
 func (sc *bidiScanner) Scan(pipe chan<- scrap) {
+	defer close(pipe) // has to be the last thing to do
 	var lookahead scrap
 	current := sc.initialOuterScrap(false)
 	ctx := current.context // directional context for the next input rune
@@ -214,7 +215,6 @@ func (sc *bidiScanner) stop(pipe chan<- scrap) {
 	tracer().Debugf("stopping bidi scanner, sending final scrap (stopper)")
 	s := scrap{bidiclz: cNULL}
 	pipe <- s
-	close(pipe)
 }
 
 func (sc *bidiScanner) initialOuterScrap(setIRS bool) scrap {
-- 
2.43.0


From 65262ae2830d1de62db9c8b03888a446aeaad98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 38/61] fix: pooled recognizers do not carry over UserData of
 their previous use

---
 automata.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/automata.go b/automata.go
index f5e31a0..f61cce5 100644
--- a/automata.go
+++ b/automata.go
@@ -109,6 +109,7 @@ func (rec *Recognizer) releaseIntoPool() {
 	rec.penalties = nil
 	rec.Expect = 0
 	rec.MatchLen = 0
+	rec.UserData = nil
 	rec.nextStep = nil
 	_ = globalRecognizerPool.opool.ReturnObject(globalRecognizerPool.ctx, rec)
 }
-- 
2.43.0


From 279eae52865ca2eef2b1c1837adf10a92874ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 39/61] fix: table generator writes all ranges, and none for
 NUL, split into R16 and R32 correctly

---
 internal/ucdparse/gentables.go | 56 +++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/internal/ucdparse/gentables.go b/internal/ucdparse/gentables.go
index 6b2a0ea..4d0291d 100644
--- a/internal/ucdparse/gentables.go
+++ b/internal/ucdparse/gentables.go
@@ -19,50 +19,56 @@ var rangeTables map[string]*RangeTableCollector // one for each range table to g
 // RangeTableCollector is a type to collect character ranges during iteration of
 // UCD files, and later output them to Go source code.
 type RangeTableCollector struct {
-	Cat              string // character category
-	cnt, latinOffset int    // range count and unicode.RangeTable.LatinOffset
-	switch32         int    // range item where to switch to int32 size
-	ranges           [][2]rune
-	lo, hi           rune // low and high bound of current range
+	Cat         string // character category
+	latinOffset int    // unicode.RangeTable.LatinOffset
+	ranges      [][2]rune
 }
 
 // Append a range of runes to a range table collector. A single
 // character is denoted by l == r.
 //
 func (rt *RangeTableCollector) Append(l, r rune) {
-	if l == rt.hi+1 {
-		rt.hi = r // range extends previous range
+	if n := len(rt.ranges); n > 0 && l == rt.ranges[n-1][1]+1 {
+		rt.ranges[n-1][1] = r // range extends previous range
 		return
 	}
-	// check for switch points in range list
-	if rt.latinOffset == 0 && rt.hi > unicode.MaxLatin1 {
-		rt.latinOffset = rt.cnt
-	}
-	if rt.switch32 == 0 && (rt.lo > (1<<16) || rt.hi > (1<<16)) {
-		// switch to range32
-		rt.switch32 = rt.cnt
-	}
-	// append current range lo…hi to ranges
-	rt.ranges = append(rt.ranges, [2]rune{rt.lo, rt.hi})
-	rt.cnt++
-	rt.lo, rt.hi = l, r
+	rt.ranges = append(rt.ranges, [2]rune{l, r})
 }
 
 // Output creates Go source code for a range table.
 func (rt *RangeTableCollector) Output(buf *bytes.Buffer) {
-	printRangePreamble(buf, rt)
-	for i, r := range rt.ranges {
-		if rt.switch32 > 0 && i == rt.switch32 {
-			fmt.Fprintf(buf, "\t},\n\tR32: []unicode.Range32{\n")
+	var r16, r32 [][2]rune
+	rt.latinOffset = 0
+	for _, r := range rt.ranges {
+		if r[0] > 0xffff {
+			r32 = append(r32, r)
+			continue
+		}
+		if r[1] > 0xffff { // split range, part of it has to go to R32
+			r32 = append(r32, [2]rune{0x10000, r[1]})
+			r[1] = 0xffff
+		}
+		r16 = append(r16, r)
+		if r[1] <= unicode.MaxLatin1 {
+			rt.latinOffset++
 		}
+	}
+	printRangePreamble(buf, rt, len(r16)+len(r32))
+	for _, r := range r16 {
 		fmt.Fprintf(buf, "\t\t{%#04x, %#04x, 1},\n", r[0], r[1])
 	}
+	if len(r32) > 0 {
+		fmt.Fprintf(buf, "\t},\n\tR32: []unicode.Range32{\n")
+		for _, r := range r32 {
+			fmt.Fprintf(buf, "\t\t{%#04x, %#04x, 1},\n", r[0], r[1])
+		}
+	}
 	printRangePostamble(buf, rt)
 }
 
-func printRangePreamble(buf *bytes.Buffer, t *RangeTableCollector) {
+func printRangePreamble(buf *bytes.Buffer, t *RangeTableCollector, cnt int) {
 	fmt.Fprintf(buf, "var _%s = &unicode.RangeTable{ ", t.Cat)
-	fmt.Fprintf(buf, "// %d entries", t.cnt)
+	fmt.Fprintf(buf, "// %d entries", cnt)
 	fmt.Fprintf(buf, `
 	R16: []unicode.Range16{
 `)
-- 
2.43.0


From eda5a54a49c12a2b07cd58c72c6a172dbd991aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 40/61] fix: shaping tables include their last range and not
 U+0000

---
 shaping/arabictables.go |  20 +++-----
 shaping/uipctables.go   |  51 +++++++++----------
 shaping/uisctables.go   | 108 +++++++++++++++++-----------------------
 3 files changed, 77 insertions(+), 102 deletions(-)

diff --git a/shaping/arabictables.go b/shaping/arabictables.go
index 320fc5a..1530022 100644
--- a/shaping/arabictables.go
+++ b/shaping/arabictables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _ARAB_D = &unicode.RangeTable{ // 72 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0620, 0x0620, 1},
 		{0x0626, 0x0626, 1},
 		{0x0628, 0x0628, 1},
@@ -80,13 +79,12 @@ var _ARAB_D = &unicode.RangeTable{ // 72 entries
 		{0x10fc1, 0x10fc1, 1},
 		{0x10fc4, 0x10fc4, 1},
 		{0x10fca, 0x10fca, 1},
+		{0x1e900, 0x1e943, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_R = &unicode.RangeTable{ // 62 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0622, 0x0625, 1},
 		{0x0627, 0x0627, 1},
 		{0x0629, 0x0629, 1},
@@ -150,45 +148,43 @@ var _ARAB_R = &unicode.RangeTable{ // 62 entries
 		{0x10fb9, 0x10fba, 1},
 		{0x10fbd, 0x10fbd, 1},
 		{0x10fc2, 0x10fc3, 1},
+		{0x10fc9, 0x10fc9, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_C = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0640, 0x0640, 1},
 		{0x07fa, 0x07fa, 1},
 		{0x180a, 0x180a, 1},
+		{0x200d, 0x200d, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_T = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x070f, 0x070f, 1},
 		{0x1885, 0x1886, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1e94b, 0x1e94b, 1},
+	},
 }
 
 var _ARAB_L = &unicode.RangeTable{ // 5 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0xa872, 0xa872, 1},
 	},
 	R32: []unicode.Range32{
 		{0x10acd, 0x10acd, 1},
 		{0x10ad7, 0x10ad7, 1},
 		{0x10d00, 0x10d00, 1},
+		{0x10fcb, 0x10fcb, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _ARAB_U = &unicode.RangeTable{ // 29 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0600, 0x0605, 1},
 		{0x0608, 0x0608, 1},
 		{0x060b, 0x060b, 1},
@@ -219,8 +215,8 @@ var _ARAB_U = &unicode.RangeTable{ // 29 entries
 		{0x10fc0, 0x10fc0, 1},
 		{0x10fc5, 0x10fc8, 1},
 		{0x110bd, 0x110bd, 1},
+		{0x110cd, 0x110cd, 1},
 	},
-	LatinOffset: 1,
 }
 
 var (
diff --git a/shaping/uipctables.go b/shaping/uipctables.go
index 786df75..d403bb2 100644
--- a/shaping/uipctables.go
+++ b/shaping/uipctables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _UIPC_Bottom = &unicode.RangeTable{ // 143 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093c, 0x093c, 1},
 		{0x0941, 0x0944, 1},
 		{0x094d, 0x094d, 1},
@@ -151,55 +150,56 @@ var _UIPC_Bottom = &unicode.RangeTable{ // 143 entries
 		{0x11d42, 0x11d42, 1},
 		{0x11d44, 0x11d44, 1},
 		{0x11d47, 0x11d47, 1},
+		{0x11ef4, 0x11ef4, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Bottom = &unicode.RangeTable{ // 6 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0c48, 0x0c48, 1},
 		{0x0f73, 0x0f73, 1},
 		{0x0f76, 0x0f79, 1},
 		{0x0f81, 0x0f81, 1},
 		{0x1b3c, 0x1b3c, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1112e, 0x1112f, 1},
+	},
 }
 
 var _UIPC_Bottom_And_Right = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1b3b, 0x1b3b, 1},
 		{0xa9be, 0xa9be, 1},
 		{0xa9c0, 0xa9c0, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11942, 0x11942, 1},
+	},
 }
 
 var _UIPC_Top_And_Bottom_And_Left = &unicode.RangeTable{ // 2 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x103c, 0x103c, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x1171e, 0x1171e, 1},
+	},
 }
 
 var _UIPC_Overstruck = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1cd4, 0x1cd4, 1},
 		{0x1ce2, 0x1ce8, 1},
 	},
 	R32: []unicode.Range32{
 		{0x10a01, 0x10a01, 1},
+		{0x10a06, 0x10a06, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Left = &unicode.RangeTable{ // 47 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093f, 0x093f, 1},
 		{0x094e, 0x094e, 1},
 		{0x09bf, 0x09bf, 1},
@@ -248,13 +248,12 @@ var _UIPC_Left = &unicode.RangeTable{ // 47 entries
 		{0x119d2, 0x119d2, 1},
 		{0x119e4, 0x119e4, 1},
 		{0x11cb1, 0x11cb1, 1},
+		{0x11ef5, 0x11ef5, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Left_And_Right = &unicode.RangeTable{ // 14 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x09cb, 0x09cc, 1},
 		{0x0b4b, 0x0b4b, 1},
 		{0x0bca, 0x0bcc, 1},
@@ -270,13 +269,12 @@ var _UIPC_Left_And_Right = &unicode.RangeTable{ // 14 entries
 		{0x114bc, 0x114bc, 1},
 		{0x114be, 0x114be, 1},
 		{0x115ba, 0x115ba, 1},
+		{0x11938, 0x11938, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top = &unicode.RangeTable{ // 193 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0900, 0x0902, 1},
 		{0x093a, 0x093a, 1},
 		{0x0945, 0x0948, 1},
@@ -471,13 +469,12 @@ var _UIPC_Top = &unicode.RangeTable{ // 193 entries
 		{0x11d43, 0x11d43, 1},
 		{0x11d90, 0x11d91, 1},
 		{0x11d95, 0x11d95, 1},
+		{0x11ef3, 0x11ef3, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Right = &unicode.RangeTable{ // 164 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0903, 0x0903, 1},
 		{0x093b, 0x093b, 1},
 		{0x093e, 0x093e, 1},
@@ -643,42 +640,41 @@ var _UIPC_Right = &unicode.RangeTable{ // 164 entries
 		{0x11d8a, 0x11d8e, 1},
 		{0x11d93, 0x11d94, 1},
 		{0x11d96, 0x11d96, 1},
+		{0x11ef6, 0x11ef6, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Left_And_Right = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0b4c, 0x0b4c, 1},
 		{0x0ddd, 0x0ddd, 1},
 		{0x17bf, 0x17bf, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x115bb, 0x115bb, 1},
+	},
 }
 
 var _UIPC_Top_And_Bottom_And_Right = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x1b3d, 0x1b3d, 1},
 	},
 }
 
 var _UIPC_Visual_Order_Left = &unicode.RangeTable{ // 7 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e40, 0x0e44, 1},
 		{0x0ec0, 0x0ec4, 1},
 		{0x19b5, 0x19b7, 1},
 		{0x19ba, 0x19ba, 1},
 		{0xaab5, 0xaab6, 1},
 		{0xaab9, 0xaab9, 1},
+		{0xaabb, 0xaabc, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Right = &unicode.RangeTable{ // 9 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0ac9, 0x0ac9, 1},
 		{0x0b57, 0x0b57, 1},
 		{0x0cc0, 0x0cc0, 1},
@@ -689,13 +685,12 @@ var _UIPC_Top_And_Right = &unicode.RangeTable{ // 9 entries
 	},
 	R32: []unicode.Range32{
 		{0x111bf, 0x111bf, 1},
+		{0x11232, 0x11233, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Top_And_Left = &unicode.RangeTable{ // 6 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0b48, 0x0b48, 1},
 		{0x0dda, 0x0dda, 1},
 		{0x17be, 0x17be, 1},
@@ -703,13 +698,13 @@ var _UIPC_Top_And_Left = &unicode.RangeTable{ // 6 entries
 	},
 	R32: []unicode.Range32{
 		{0x114bb, 0x114bb, 1},
+		{0x115b9, 0x115b9, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UIPC_Bottom_And_Left = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0xa9bf, 0xa9bf, 1},
 	},
 }
 
diff --git a/shaping/uisctables.go b/shaping/uisctables.go
index bb8ae4f..da55bb3 100644
--- a/shaping/uisctables.go
+++ b/shaping/uisctables.go
@@ -6,7 +6,6 @@ import "unicode"
 
 var _UISC_Nukta = &unicode.RangeTable{ // 26 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093c, 0x093c, 1},
 		{0x09bc, 0x09bc, 1},
 		{0x0a3c, 0x0a3c, 1},
@@ -34,31 +33,29 @@ var _UISC_Nukta = &unicode.RangeTable{ // 26 entries
 		{0x116b7, 0x116b7, 1},
 		{0x1183a, 0x1183a, 1},
 		{0x11943, 0x11943, 1},
+		{0x11d42, 0x11d42, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Prefixed = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 	},
 	R32: []unicode.Range32{
 		{0x111c2, 0x111c3, 1},
 		{0x1193f, 0x1193f, 1},
 		{0x11a3a, 0x11a3a, 1},
+		{0x11a84, 0x11a89, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Modifying_Letter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x0b83, 0x0b83, 1},
 	},
 }
 
 var _UISC_Tone_Mark = &unicode.RangeTable{ // 15 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e48, 0x0e4b, 1},
 		{0x0ec8, 0x0ecb, 1},
 		{0x1037, 0x1037, 1},
@@ -73,24 +70,22 @@ var _UISC_Tone_Mark = &unicode.RangeTable{ // 15 entries
 		{0xaa7b, 0xaa7d, 1},
 		{0xaabf, 0xaabf, 1},
 		{0xaac1, 0xaac1, 1},
+		{0xabec, 0xabec, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Gemination_Mark = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0a71, 0x0a71, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11237, 0x11237, 1},
+		{0x11a98, 0x11a98, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Visarga = &unicode.RangeTable{ // 35 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0903, 0x0903, 1},
 		{0x0983, 0x0983, 1},
 		{0x0a03, 0x0a03, 1},
@@ -127,13 +122,12 @@ var _UISC_Visarga = &unicode.RangeTable{ // 35 entries
 		{0x11a97, 0x11a97, 1},
 		{0x11c3e, 0x11c3e, 1},
 		{0x11d41, 0x11d41, 1},
+		{0x11d96, 0x11d96, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Final = &unicode.RangeTable{ // 11 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1930, 0x1931, 1},
 		{0x1933, 0x1939, 1},
 		{0x19c1, 0x19c7, 1},
@@ -145,12 +139,13 @@ var _UISC_Consonant_Final = &unicode.RangeTable{ // 11 entries
 		{0xaa40, 0xaa4d, 1},
 		{0xabdb, 0xabe2, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11a8a, 0x11a95, 1},
+	},
 }
 
 var _UISC_Number = &unicode.RangeTable{ // 45 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0030, 0x0039, 1},
 		{0x0966, 0x096f, 1},
 		{0x09e6, 0x09ef, 1},
@@ -197,13 +192,13 @@ var _UISC_Number = &unicode.RangeTable{ // 45 entries
 		{0x11950, 0x11959, 1},
 		{0x11c50, 0x11c6c, 1},
 		{0x11d50, 0x11d59, 1},
+		{0x11da0, 0x11da9, 1},
 	},
-	LatinOffset: 2,
+	LatinOffset: 1,
 }
 
 var _UISC_Pure_Killer = &unicode.RangeTable{ // 21 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0d3b, 0x0d3c, 1},
 		{0x0e3a, 0x0e3a, 1},
 		{0x0e4e, 0x0e4e, 1},
@@ -226,13 +221,12 @@ var _UISC_Pure_Killer = &unicode.RangeTable{ // 21 entries
 		{0x1172b, 0x1172b, 1},
 		{0x1193d, 0x1193d, 1},
 		{0x11a34, 0x11a34, 1},
+		{0x11d44, 0x11d44, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel_Independent = &unicode.RangeTable{ // 87 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0904, 0x0914, 1},
 		{0x0960, 0x0961, 1},
 		{0x0972, 0x0977, 1},
@@ -321,13 +315,12 @@ var _UISC_Vowel_Independent = &unicode.RangeTable{ // 87 entries
 		{0x11d0b, 0x11d0b, 1},
 		{0x11d60, 0x11d65, 1},
 		{0x11d67, 0x11d68, 1},
+		{0x11d6a, 0x11d6b, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Placeholder = &unicode.RangeTable{ // 15 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x002d, 0x002d, 1},
 		{0x00a0, 0x00a0, 1},
 		{0x00d7, 0x00d7, 1},
@@ -344,25 +337,25 @@ var _UISC_Consonant_Placeholder = &unicode.RangeTable{ // 15 entries
 	R32: []unicode.Range32{
 		{0x11a3f, 0x11a3f, 1},
 		{0x11a45, 0x11a45, 1},
+		{0x11ef2, 0x11ef2, 1},
 	},
-	LatinOffset: 4,
+	LatinOffset: 3,
 }
 
 var _UISC_Consonant_Head_Letter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x0f88, 0x0f8c, 1},
 	},
 }
 
 var _UISC_Non_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x200c, 0x200c, 1},
 	},
 }
 
 var _UISC_Invisible_Stacker = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1039, 0x1039, 1},
 		{0x17d2, 0x17d2, 1},
 		{0x1a60, 0x1a60, 1},
@@ -376,25 +369,24 @@ var _UISC_Invisible_Stacker = &unicode.RangeTable{ // 12 entries
 		{0x11a47, 0x11a47, 1},
 		{0x11a99, 0x11a99, 1},
 		{0x11d45, 0x11d45, 1},
+		{0x11d97, 0x11d97, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Initial_Postfixed = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x1a5a, 0x1a5a, 1},
 	},
 }
 
 var _UISC_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x200d, 0x200d, 1},
 	},
 }
 
 var _UISC_Bindu = &unicode.RangeTable{ // 56 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0900, 0x0902, 1},
 		{0x0981, 0x0982, 1},
 		{0x09fc, 0x09fc, 1},
@@ -452,13 +444,12 @@ var _UISC_Bindu = &unicode.RangeTable{ // 56 entries
 		{0x11c3c, 0x11c3d, 1},
 		{0x11cb5, 0x11cb6, 1},
 		{0x11d40, 0x11d40, 1},
+		{0x11d95, 0x11d95, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Virama = &unicode.RangeTable{ // 27 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x094d, 0x094d, 1},
 		{0x09cd, 0x09cd, 1},
 		{0x0a4d, 0x0a4d, 1},
@@ -487,13 +478,12 @@ var _UISC_Virama = &unicode.RangeTable{ // 27 entries
 		{0x116b6, 0x116b6, 1},
 		{0x11839, 0x11839, 1},
 		{0x119e0, 0x119e0, 1},
+		{0x11c3f, 0x11c3f, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel_Dependent = &unicode.RangeTable{ // 132 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093a, 0x093b, 1},
 		{0x093e, 0x094c, 1},
 		{0x094e, 0x094f, 1},
@@ -627,13 +617,12 @@ var _UISC_Vowel_Dependent = &unicode.RangeTable{ // 132 entries
 		{0x11d8a, 0x11d8e, 1},
 		{0x11d90, 0x11d91, 1},
 		{0x11d93, 0x11d94, 1},
+		{0x11ef3, 0x11ef6, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant = &unicode.RangeTable{ // 153 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0915, 0x0939, 1},
 		{0x0958, 0x095f, 1},
 		{0x0978, 0x097f, 1},
@@ -788,24 +777,24 @@ var _UISC_Consonant = &unicode.RangeTable{ // 153 entries
 		{0x11c72, 0x11c8f, 1},
 		{0x11d0c, 0x11d30, 1},
 		{0x11d6c, 0x11d89, 1},
+		{0x11ee0, 0x11ef1, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Vowel = &unicode.RangeTable{ // 5 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1963, 0x196d, 1},
 		{0xa85e, 0xa861, 1},
 		{0xa866, 0xa866, 1},
 		{0xa922, 0xa92a, 1},
 	},
-	LatinOffset: 1,
+	R32: []unicode.Range32{
+		{0x11150, 0x11154, 1},
+	},
 }
 
 var _UISC_Consonant_Subjoined = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0f8d, 0x0f97, 1},
 		{0x0f99, 0x0fbc, 1},
 		{0x1929, 0x192b, 1},
@@ -819,13 +808,12 @@ var _UISC_Consonant_Subjoined = &unicode.RangeTable{ // 12 entries
 	},
 	R32: []unicode.Range32{
 		{0x11c92, 0x11ca7, 1},
+		{0x11ca9, 0x11caf, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Cantillation_Mark = &unicode.RangeTable{ // 12 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0951, 0x0952, 1},
 		{0x0a51, 0x0a51, 1},
 		{0x0afa, 0x0afc, 1},
@@ -839,19 +827,18 @@ var _UISC_Cantillation_Mark = &unicode.RangeTable{ // 12 entries
 	R32: []unicode.Range32{
 		{0x1123e, 0x1123e, 1},
 		{0x11366, 0x1136c, 1},
+		{0x11370, 0x11374, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Register_Shifter = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+		{0x17c9, 0x17ca, 1},
 	},
 }
 
 var _UISC_Syllable_Modifier = &unicode.RangeTable{ // 19 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x00b2, 0x00b3, 1},
 		{0x09fe, 0x09fe, 1},
 		{0x0f35, 0x0f35, 1},
@@ -872,19 +859,21 @@ var _UISC_Syllable_Modifier = &unicode.RangeTable{ // 19 entries
 	R32: []unicode.Range32{
 		{0x111c9, 0x111c9, 1},
 		{0x1145e, 0x1145e, 1},
+		{0x11a33, 0x11a33, 1},
 	},
-	LatinOffset: 2,
+	LatinOffset: 1,
 }
 
 var _UISC_Number_Joiner = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+	},
+	R32: []unicode.Range32{
+		{0x1107f, 0x1107f, 1},
 	},
 }
 
 var _UISC_Avagraha = &unicode.RangeTable{ // 17 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x093d, 0x093d, 1},
 		{0x09bd, 0x09bd, 1},
 		{0x0abd, 0x0abd, 1},
@@ -903,34 +892,31 @@ var _UISC_Avagraha = &unicode.RangeTable{ // 17 entries
 		{0x114c4, 0x114c4, 1},
 		{0x119e1, 0x119e1, 1},
 		{0x11a9d, 0x11a9d, 1},
+		{0x11c40, 0x11c40, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Dead = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x09ce, 0x09ce, 1},
 		{0x0d54, 0x0d56, 1},
 		{0x0d7a, 0x0d7f, 1},
+		{0x1cf2, 0x1cf3, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Preceding_Repha = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0d4e, 0x0d4e, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11941, 0x11941, 1},
+		{0x11d46, 0x11d46, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Medial = &unicode.RangeTable{ // 14 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0a75, 0x0a75, 1},
 		{0x0ebc, 0x0ebd, 1},
 		{0x103b, 0x103e, 1},
@@ -946,53 +932,51 @@ var _UISC_Consonant_Medial = &unicode.RangeTable{ // 14 entries
 		{0x11940, 0x11940, 1},
 		{0x11942, 0x11942, 1},
 		{0x11a3b, 0x11a3e, 1},
+		{0x11d47, 0x11d47, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Killer = &unicode.RangeTable{ // 2 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0e4c, 0x0e4c, 1},
+		{0x17cd, 0x17cd, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Brahmi_Joining_Number = &unicode.RangeTable{ // 1 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
+	},
+	R32: []unicode.Range32{
+		{0x11052, 0x11065, 1},
 	},
 }
 
 var _UISC_Consonant_With_Stacker = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x0cf1, 0x0cf2, 1},
 		{0x1cf5, 0x1cf6, 1},
 	},
 	R32: []unicode.Range32{
 		{0x11003, 0x11004, 1},
+		{0x11460, 0x11461, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Consonant_Succeeding_Repha = &unicode.RangeTable{ // 4 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x17cc, 0x17cc, 1},
 		{0x1b03, 0x1b03, 1},
 		{0x1b81, 0x1b81, 1},
+		{0xa982, 0xa982, 1},
 	},
-	LatinOffset: 1,
 }
 
 var _UISC_Tone_Letter = &unicode.RangeTable{ // 3 entries
 	R16: []unicode.Range16{
-		{0x0000, 0x0000, 1},
 		{0x1970, 0x1974, 1},
 		{0xaac0, 0xaac0, 1},
+		{0xaac2, 0xaac2, 1},
 	},
-	LatinOffset: 1,
 }
 
 var (
-- 
2.43.0


From 1ba18b3a43bfd76cbd92f87c81b0e3e3ab7401ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 41/61] fix: ucdparse splits long documents at CR, too

---
 internal/ucdparse/linebuf.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/internal/ucdparse/linebuf.go b/internal/ucdparse/linebuf.go
index d4dc643..0cb3087 100644
--- a/internal/ucdparse/linebuf.go
+++ b/internal/ucdparse/linebuf.go
@@ -34,20 +34,24 @@ func newLineBuffer(inputDoc io.Reader) *lineBuffer {
 	// CR LF, CR, or LF where CR and LF are the ASCII carriage return and line feed characters.
 	// A single document may employ any or all of these ways of splitting lines.
 	split := func(data []byte, atEOF bool) (advance int, token []byte, err error) {
-		advance, token, err = bufio.ScanLines(data, atEOF)
 		for i, ch := range data {
+			if ch == '\n' {
+				return i + 1, data[:i], nil
+			}
 			if ch == '\r' {
-				if i < len(data)-1 && i < len(token) {
-					if data[i+1] != '\n' {
-						advance = i + 1
-						token = data[:i]
-						err = nil
-						return
-					}
+				if i == len(data)-1 && !atEOF {
+					return 0, nil, nil // need to know if LF follows
+				}
+				if i < len(data)-1 && data[i+1] == '\n' {
+					return i + 2, data[:i], nil
 				}
+				return i + 1, data[:i], nil
 			}
 		}
-		return
+		if atEOF && len(data) > 0 {
+			return len(data), data, nil
+		}
+		return 0, nil, nil
 	}
 	input.Split(split)
 	buf := &lineBuffer{Input: input}
-- 
2.43.0


From 50156725f4b5e35d9e52d30a03f756e0564f4497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 42/61] fix: ucdparse.Parse stops at errors of its reader and
 returns them

---
 internal/ucdparse/linebuf.go | 4 ++--
 internal/ucdparse/scan.go    | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/ucdparse/linebuf.go b/internal/ucdparse/linebuf.go
index 0cb3087..130802e 100644
--- a/internal/ucdparse/linebuf.go
+++ b/internal/ucdparse/linebuf.go
@@ -120,12 +120,12 @@ func (buf *lineBuffer) AdvanceLine() error {
 		buf.CurrentLine++
 		//fmt.Printf("===> reading line #%d\n", buf.CurrentLine)
 		if !buf.Input.Scan() { // could not read a new line: either I/O-error or EOF
+			buf.isEof = 1
+			buf.Line = strings.NewReader("")
 			if err := buf.Input.Err(); err != nil {
 				return fmt.Errorf("I/O error (%w) while reading input", err)
 			}
 			//fmt.Println("===> EOF !")
-			buf.isEof = 1
-			buf.Line = strings.NewReader("")
 			return errAtEof
 		}
 		buf.Text = buf.Input.Text()
diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index 7a616ab..cdeaa1f 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -50,6 +50,9 @@ func Parse(r io.Reader, f func(token *Token)) error {
 	for sc.Next() {
 		f(sc.Token)
 	}
+	if sc.LastError == nil && sc.Buf.LastError != errAtEof {
+		return sc.Buf.LastError
+	}
 	return sc.LastError
 }
 
-- 
2.43.0


From 5f82e360872897be829f210bb7de309cfee7951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 43/61] fix: ucdparse recognizes code-points at the end of a
 line

---
 internal/ucdparse/scan.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index cdeaa1f..f691b29 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -133,7 +133,10 @@ func (sc *scanner) ScanRuneRange(token *Token) (*Token, scannerStep) {
 		sc.Buf.match(singleRune(la))
 		la = sc.Buf.Lookahead
 	}
-	pos := sc.Buf.ByteCursor - 1
+	pos := sc.Buf.ByteCursor
+	if la != eolMarker {
+		pos--
+	}
 	if pos > marker {
 		fmt.Printf("hex word %s\n", sc.Buf.Text[marker:pos])
 		hex := sc.Buf.Text[marker:pos]
@@ -164,7 +167,10 @@ func (sc *scanner) ScanRuneRange(token *Token) (*Token, scannerStep) {
 		sc.Buf.match(singleRune(la))
 		la = sc.Buf.Lookahead
 	}
-	pos = sc.Buf.ByteCursor - 1
+	pos = sc.Buf.ByteCursor
+	if la != eolMarker {
+		pos--
+	}
 	if pos > marker {
 		fmt.Printf("hex word %s\n", sc.Buf.Text[marker:pos])
 		hex := sc.Buf.Text[marker:pos]
-- 
2.43.0


From 5cd52d618d2dd5477d51c062ce599cb865d6d224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 44/61] fix: ucdparse does not drop empty fields following the
 code-point

---
 internal/ucdparse/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ucdparse/scan.go b/internal/ucdparse/scan.go
index f691b29..49b0c95 100644
--- a/internal/ucdparse/scan.go
+++ b/internal/ucdparse/scan.go
@@ -201,7 +201,7 @@ func (sc *scanner) ScanItemBody(token *Token) (*Token, scannerStep) {
 		fmt.Printf("@ comment = %q\n", token.Comment)
 	}
 	a[0] = strings.TrimSpace(a[0])
-	a[0] = strings.TrimLeft(a[0], ";")
+	a[0] = strings.TrimPrefix(a[0], ";")
 	token.Fields = strings.Split(a[0], ";")
 	return token, nil
 }
-- 
2.43.0


From 7ceb7fede2a03a3ab5300d036d2421762d55037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:29 +0000
Subject: [PATCH 45/61] fix: tablegen writes no tables if the UCD file cannot
 be read completely

---
 internal/tablegen/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/tablegen/main.go b/internal/tablegen/main.go
index 77b6916..cf6e07c 100644
--- a/internal/tablegen/main.go
+++ b/internal/tablegen/main.go
@@ -81,10 +81,13 @@ func main() {
 	if err != nil {
 		log.Fatal(err)
 	}
+	if resp.StatusCode != http.StatusOK {
+		log.Fatalf("cannot read %s: %s", *ucdurl, resp.Status)
+	}
 	printPreamble(buf, *packageNameFlag)
 
 	// parse UCD file and collect ranges
-	ucdparse.Parse(resp.Body, func(p *ucdparse.Token) {
+	err = ucdparse.Parse(resp.Body, func(p *ucdparse.Token) {
 		l, r := p.Range()             // char range in field 0
 		t := p.Field(categoryFieldNo) // character category
 		t = strings.TrimSpace(t)
@@ -93,6 +96,9 @@ func main() {
 		}
 		append(ranges, t, l, r)
 	})
+	if err != nil {
+		log.Fatal(err)
+	}
 
 	// output range information per category
 	for _, rt := range ranges {
-- 
2.43.0


From b1bb68f7287e5605558e97d7f92c8a5aac7c8c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 46/61] fix: segmenter does not continue after an error of the
 reader

---
 segment/segment.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index 1565968..c1dc33a 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -385,6 +385,9 @@ func (s *Segmenter) next(bound int) bool {
 	if s.err == ErrBoundReached { // client continues behind the previous bound
 		s.err = nil
 	}
+	if s.Err() != nil { // there is no way to continue after an error
+		return false
+	}
 	// the bound may differ from the previous one, thus re-consider the runes in the Q
 	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
 		s.distanceTo(bound))
-- 
2.43.0


From de7e9cd1ae15095ef4b09c5a3aaff60227b41b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 47/61] fix: class generators do not write a class for the
 start of the document, and fail if it cannot be read

---
 emoji/internal/generator/generator.go    | 19 +++++++++----------
 grapheme/internal/generator/generator.go | 16 +++++++++-------
 uax14/internal/generator/generator.go    | 19 +++++++++----------
 uax29/internal/generator/generator.go    | 19 +++++++++----------
 4 files changed, 36 insertions(+), 37 deletions(-)

diff --git a/emoji/internal/generator/generator.go b/emoji/internal/generator/generator.go
index 0656966..fea6cef 100644
--- a/emoji/internal/generator/generator.go
+++ b/emoji/internal/generator/generator.go
@@ -36,6 +36,7 @@ import (
 	"fmt"
 	"log"
 	"runtime"
+	"strings"
 	"text/template"
 	"time"
 
@@ -72,14 +73,13 @@ func loadUnicodeEmojiBreakFile() (map[string][]rune, error) {
 		return nil, err
 	}
 	defer f.Close()
-	parser, err := ucdparse.New(f)
-	if err != nil {
-		return nil, err
-	}
 	gcls := make(map[string]*arraylist.List, len(emojiClassnames))
-	for parser.Next() {
-		from, to := parser.Token.Range()
-		clstr := parser.Token.Field(1)
+	err = ucdparse.Parse(f, func(token *ucdparse.Token) {
+		from, to := token.Range()
+		clstr := strings.TrimSpace(token.Field(1))
+		if clstr == "" { // not a data item
+			return
+		}
 		list := gcls[clstr]
 		if list == nil {
 			list = arraylist.New()
@@ -88,10 +88,9 @@ func loadUnicodeEmojiBreakFile() (map[string][]rune, error) {
 			list.Add(r)
 		}
 		gcls[clstr] = list
-	}
-	err = parser.Token.Error
+	})
 	if err != nil {
-		log.Fatal(err)
+		return nil, err
 	}
 	runeranges := make(map[string][]rune)
 	for k, v := range gcls {
diff --git a/grapheme/internal/generator/generator.go b/grapheme/internal/generator/generator.go
index f89db0c..df8c966 100644
--- a/grapheme/internal/generator/generator.go
+++ b/grapheme/internal/generator/generator.go
@@ -37,6 +37,7 @@ import (
 	"fmt"
 	"log"
 	"runtime"
+	"strings"
 	"text/template"
 	"time"
 
@@ -80,11 +81,13 @@ func loadUnicodeGraphemeBreakFile() (map[string][]rune, error) {
 		return nil, err
 	}
 	defer f.Close()
-	parser, err := ucdparse.New(f)
 	gcls := make(map[string]*arraylist.List, len(graphemeClassnames))
-	for parser.Next() {
-		from, to := parser.Token.Range()
-		clstr := parser.Token.Field(1)
+	err = ucdparse.Parse(f, func(token *ucdparse.Token) {
+		from, to := token.Range()
+		clstr := strings.TrimSpace(token.Field(1))
+		if clstr == "" { // not a data item
+			return
+		}
 		list := gcls[clstr]
 		if list == nil {
 			list = arraylist.New()
@@ -93,10 +96,9 @@ func loadUnicodeGraphemeBreakFile() (map[string][]rune, error) {
 			list.Add(r)
 		}
 		gcls[clstr] = list
-	}
-	err = parser.Token.Error
+	})
 	if err != nil {
-		log.Fatal(err)
+		return nil, err
 	}
 	runeranges := make(map[string][]rune)
 	for k, v := range gcls {
diff --git a/uax14/internal/generator/generator.go b/uax14/internal/generator/generator.go
index 79a2b94..6e9d1b8 100644
--- a/uax14/internal/generator/generator.go
+++ b/uax14/internal/generator/generator.go
@@ -36,6 +36,7 @@ import (
 	"fmt"
 	"log"
 	"runtime"
+	"strings"
 	"text/template"
 	"time"
 
@@ -68,14 +69,13 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 		return nil, err
 	}
 	defer f.Close()
-	p, err := ucdparse.New(f)
-	if err != nil {
-		return nil, err
-	}
 	lbcs := make(map[string]*arraylist.List, len(uax14classnames))
-	for p.Next() {
-		from, to := p.Token.Range()
-		brclzstr := p.Token.Field(1)
+	err = ucdparse.Parse(f, func(token *ucdparse.Token) {
+		from, to := token.Range()
+		brclzstr := strings.TrimSpace(token.Field(1))
+		if brclzstr == "" { // not a data item
+			return
+		}
 		list := lbcs[brclzstr]
 		if list == nil {
 			list = arraylist.New()
@@ -84,10 +84,9 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 			list.Add(r)
 		}
 		lbcs[brclzstr] = list
-	}
-	err = p.Token.Error
+	})
 	if err != nil {
-		log.Fatal(err)
+		return nil, err
 	}
 	runeranges := make(map[string][]rune)
 	for k, v := range lbcs {
diff --git a/uax29/internal/generator/generator.go b/uax29/internal/generator/generator.go
index b115119..f8aa3fe 100644
--- a/uax29/internal/generator/generator.go
+++ b/uax29/internal/generator/generator.go
@@ -42,6 +42,7 @@ import (
 	"fmt"
 	"log"
 	"runtime"
+	"strings"
 	"text/template"
 	"time"
 
@@ -74,14 +75,13 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 		return nil, err
 	}
 	defer f.Close()
-	p, err := ucdparse.New(f)
-	if err != nil {
-		return nil, err
-	}
 	lbcs := make(map[string]*arraylist.List, len(uax29classnames))
-	for p.Next() {
-		from, to := p.Token.Range()
-		brclzstr := p.Token.Field(1)
+	err = ucdparse.Parse(f, func(token *ucdparse.Token) {
+		from, to := token.Range()
+		brclzstr := strings.TrimSpace(token.Field(1))
+		if brclzstr == "" { // not a data item
+			return
+		}
 		list := lbcs[brclzstr]
 		if list == nil {
 			list = arraylist.New()
@@ -90,10 +90,9 @@ func loadUnicodeLineBreakFile() (map[string][]rune, error) {
 			list.Add(r)
 		}
 		lbcs[brclzstr] = list
-	}
-	err = p.Token.Error
+	})
 	if err != nil {
-		log.Fatal(err)
+		return nil, err
 	}
 	runeranges := make(map[string][]rune)
 	for k, v := range lbcs {
-- 
2.43.0


From 703c6b665af40b713d21d0728cf47d2e72ea41f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 48/61] fix: class generators write surrogates as they are, not
 as U+FFFD

---
 emoji/internal/generator/generator.go    | 2 +-
 grapheme/internal/generator/generator.go | 2 +-
 uax14/internal/generator/generator.go    | 2 +-
 uax29/internal/generator/generator.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/emoji/internal/generator/generator.go b/emoji/internal/generator/generator.go
index fea6cef..41c1a84 100644
--- a/emoji/internal/generator/generator.go
+++ b/emoji/internal/generator/generator.go
@@ -163,7 +163,7 @@ func (c EmojisClass) String() string {
 `
 
 var templateRangeForClass = `{{$i:=0}}{{range .}}{{if notfirst $i}}, {{if modeight $i}}
-    {{end}}{{end}}{{$i = inc $i}}{{printf "%+q" .}}{{end}}`
+    {{end}}{{end}}{{$i = inc $i}}{{printf "%#x" .}}{{end}}`
 
 // Helper functions for templates
 var funcMap = template.FuncMap{
diff --git a/grapheme/internal/generator/generator.go b/grapheme/internal/generator/generator.go
index df8c966..23b74b4 100644
--- a/grapheme/internal/generator/generator.go
+++ b/grapheme/internal/generator/generator.go
@@ -181,7 +181,7 @@ func (c GraphemeClass) String() string {
 `
 
 var templateRangeForClass = `{{$i:=0}}{{range .}}{{if notfirst $i}}, {{if modeight $i}}
-    {{end}}{{end}}{{$i = inc $i}}{{printf "%+q" .}}{{end}}`
+    {{end}}{{end}}{{$i = inc $i}}{{printf "%#x" .}}{{end}}`
 
 // Helper functions for templates
 var funcMap = template.FuncMap{
diff --git a/uax14/internal/generator/generator.go b/uax14/internal/generator/generator.go
index 6e9d1b8..4934e7c 100644
--- a/uax14/internal/generator/generator.go
+++ b/uax14/internal/generator/generator.go
@@ -163,7 +163,7 @@ func (c UAX14Class) String() string {
 `
 
 var templateRangeForClass = `{{$i:=0}}{{range .}}{{if notfirst $i}}, {{if modeight $i}}
-    {{end}}{{end}}{{$i = inc $i}}{{printf "%+q" .}}{{end}}`
+    {{end}}{{end}}{{$i = inc $i}}{{printf "%#x" .}}{{end}}`
 
 // Helper functions for templates
 var funcMap = template.FuncMap{
diff --git a/uax29/internal/generator/generator.go b/uax29/internal/generator/generator.go
index f8aa3fe..815e27d 100644
--- a/uax29/internal/generator/generator.go
+++ b/uax29/internal/generator/generator.go
@@ -173,7 +173,7 @@ func (c UAX29Class) String() string {
 `
 
 var templateRangeForClass = `{{$i:=0}}{{range .}}{{if notfirst $i}}, {{if modeight $i}}
-    {{end}}{{end}}{{$i = inc $i}}{{printf "%+q" .}}{{end}}`
+    {{end}}{{end}}{{$i = inc $i}}{{printf "%#x" .}}{{end}}`
 
 // Helper functions for templates
 var funcMap = template.FuncMap{
-- 
2.43.0


From 5f0877b67df4b8ec93bc8d385514634ecf3ac0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 49/61] fix: class generators fail if their output cannot be
 written

---
 emoji/internal/generator/generator.go    | 2 +-
 grapheme/internal/generator/generator.go | 2 +-
 uax14/internal/generator/generator.go    | 2 +-
 uax29/internal/generator/generator.go    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/emoji/internal/generator/generator.go b/emoji/internal/generator/generator.go
index 41c1a84..6ca20bb 100644
--- a/emoji/internal/generator/generator.go
+++ b/emoji/internal/generator/generator.go
@@ -242,7 +242,7 @@ func main() {
 	t = makeTemplate("Emoji classes stringer", templateClassStringer)
 	checkFatal(t.Execute(w, emojiClassnames))
 	generateRanges(w, codePointLists)
-	w.Flush()
+	checkFatal(w.Flush())
 }
 
 // --- Util -------------------------------------------------------------
diff --git a/grapheme/internal/generator/generator.go b/grapheme/internal/generator/generator.go
index 23b74b4..d51ce12 100644
--- a/grapheme/internal/generator/generator.go
+++ b/grapheme/internal/generator/generator.go
@@ -260,7 +260,7 @@ func main() {
 	t = makeTemplate("Grapheme classes stringer", templateClassStringer)
 	checkFatal(t.Execute(w, graphemeClassnames))
 	generateRanges(w, codePointLists)
-	w.Flush()
+	checkFatal(w.Flush())
 }
 
 // --- Util -------------------------------------------------------------
diff --git a/uax14/internal/generator/generator.go b/uax14/internal/generator/generator.go
index 4934e7c..e52b55d 100644
--- a/uax14/internal/generator/generator.go
+++ b/uax14/internal/generator/generator.go
@@ -242,7 +242,7 @@ func main() {
 	t = makeTemplate("UAX#14 classes stringer", templateClassStringer)
 	checkFatal(t.Execute(w, uax14classnames))
 	generateRanges(w, codePointLists)
-	w.Flush()
+	checkFatal(w.Flush())
 }
 
 // --- Util -------------------------------------------------------------
diff --git a/uax29/internal/generator/generator.go b/uax29/internal/generator/generator.go
index 815e27d..6e18fe4 100644
--- a/uax29/internal/generator/generator.go
+++ b/uax29/internal/generator/generator.go
@@ -252,7 +252,7 @@ func main() {
 	t = makeTemplate("UAX#29 classes stringer", templateClassStringer)
 	checkFatal(t.Execute(w, uax29classnames))
 	generateRanges(w, codePointLists)
-	w.Flush()
+	checkFatal(w.Flush())
 }
 
 // --- Util -------------------------------------------------------------
-- 
2.43.0


From 4b130782ccbb9535cd05ae154dbb4b388a1ae928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 50/61] fix: line breaker does not break emoji ZWJ sequences
 (LB8a)

---
 uax14/rules.go | 10 +++++-----
 uax14/uax14.go |  5 ++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/uax14/rules.go b/uax14/rules.go
index fb2a324..b43c7a0 100644
--- a/uax14/rules.go
+++ b/uax14/rules.go
@@ -179,12 +179,12 @@ func finish_LB8(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	return uax.DoAccept(rec, 0, -p(8))
 }
 
-// LB8a Do not break after a zero width joiner.
+// LB8a Do not break between a zero width joiner and an ideograph, emoji base or
+// emoji modifier.
 //
-// ZWJ x
-func rule_LB8a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
-	return uax.DoAccept(rec, p(8))
-}
+// ZWJ x (ID | EB | EM)
+//
+// As ZWJ is substituted (rules LB9 and LB10), this is done by ProceedWithRune.
 
 // LB11 Do not break before or after Word joiner and related characters.
 //
diff --git a/uax14/uax14.go b/uax14/uax14.go
index 5478687..c02e40d 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -114,6 +114,7 @@ type LineWrap struct {
 	blockedRI    bool       // are rules for Regional_Indicator currently blocked?
 	substituted  bool       // has the code-point class been substituted?
 	shadow       UAX14Class // class before substitution
+	afterZWJ     bool       // is the previous code-point a ZWJ?
 }
 
 // NewLineWrap creates a new UAX#14 line breaker.
@@ -167,7 +168,6 @@ func NewLineWrap() *LineWrap {
 		H2Class:  {rule_LB26_2, rule_LB27},
 		JTClass:  {rule_LB26_3, rule_LB27},
 		H3Class:  {rule_LB26_3, rule_LB27},
-		ZWJClass: {rule_LB8a},
 	}
 	if rangeFromUAX14Class == nil {
 		tracer().Infof("UAX#14 classes not yet initialized -> initializing")
@@ -322,6 +322,8 @@ func (uax14 *LineWrap) ProceedWithRune(r rune, cpClass int) {
 			x = make([]int, 2)
 			x[1] = noBreak
 		}
+	} else if uax14.afterZWJ && (c == IDClass || c == EBClass || c == EMClass) { // rule 8a
+		x = setPenalty1(x, noBreak)
 	} else {
 		x = setPenalty1(x, DefaultPenalty)
 	}
@@ -337,6 +339,7 @@ func (uax14 *LineWrap) ProceedWithRune(r rune, cpClass int) {
 		c = sot
 	}
 	uax14.lastClass = c
+	uax14.afterZWJ = uax14.shadow == ZWJClass
 }
 
 // LongestActiveMatch is part of interface unicode.UnicodeBreaker
-- 
2.43.0


From 06688e4da91b8aedadf84f6c98583cd2224f3ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 51/61] fix: line breaker skips combining marks within LB21a,
 LB25 and LB30a

---
 uax14/rules.go | 18 +++++++++++++++++-
 uax14/uax14.go |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/uax14/rules.go b/uax14/rules.go
index b43c7a0..6cec95d 100644
--- a/uax14/rules.go
+++ b/uax14/rules.go
@@ -353,11 +353,21 @@ func rule_LB21a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func finish_LB21a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX14Class(cpClass)
 	if c == HYClass || c == BAClass {
-		return uax.DoAccept(rec, p(21))
+		rec.MatchLen++
+		return after_LB21a
 	}
 	return uax.DoAbort(rec)
 }
 
+// .. x, with combining marks of (HY | BA) skipped
+func after_LB21a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	if rec.UserData.(*LineWrap).substituted {
+		rec.MatchLen++
+		return after_LB21a
+	}
+	return uax.DoAccept(rec, 0, p(21))
+}
+
 //  LB21b Don’t break between Solidus and Hebrew letters.
 //
 // SY x HL
@@ -524,6 +534,9 @@ func step3_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	if c == NUClass {
 		rec.MatchLen++
 		return step4_LB25
+	} else if rec.UserData.(*LineWrap).substituted { // combining mark of (OP | HY)
+		rec.MatchLen++
+		return step3_LB25
 	}
 	return uax.DoAbort(rec)
 }
@@ -546,6 +559,9 @@ func step5_LB25(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX14Class(cpClass)
 	if c == PRClass || c == POClass {
 		return uax.DoAccept(rec, ps(25, p(25), rec.MatchLen)...)
+	} else if rec.UserData.(*LineWrap).substituted { // combining mark of (CL | CP)
+		rec.MatchLen++
+		return step5_LB25
 	}
 	return uax.DoAccept(rec, ps(25, 0, rec.MatchLen)...)
 }
diff --git a/uax14/uax14.go b/uax14/uax14.go
index c02e40d..8d5547d 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -195,7 +195,7 @@ func (uax14 *LineWrap) CodePointClassFor(r rune) int {
 // Interface unicode.UnicodeBreaker
 func (uax14 *LineWrap) StartRulesFor(r rune, cpClass int) {
 	c := UAX14Class(cpClass)
-	if c != RIClass || !uax14.blockedRI {
+	if c != RIClass || !uax14.blockedRI && !uax14.substituted {
 		if rules := uax14.rules[c]; len(rules) > 0 {
 			tracer().P("class", c).Debugf("starting %d rule(s) for class %s", len(rules), c)
 			for _, rule := range rules {
-- 
2.43.0


From d33502fdf453223e29ca2f2d781a0b1308b157f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 52/61] fix: line breaker's penalty for a mandatory break is
 not cancelled out by that of the following character

---
 uax14/uax14.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/uax14/uax14.go b/uax14/uax14.go
index 8d5547d..64b84d6 100644
--- a/uax14/uax14.go
+++ b/uax14/uax14.go
@@ -313,6 +313,16 @@ func (uax14 *LineWrap) ProceedWithRune(r rune, cpClass int) {
 	uax14.longestMatch, uax14.penalties = uax14.publisher.PublishRuneEvent(r, int(c))
 	x := uax14.penalties
 	//fmt.Printf("   x = %v\n", x)
+	if len(x) > 1 && c != eot { // rules 4 and 5 take precedence over all the others
+		switch uax14.lastClass {
+		case BKClass, LFClass, NLClass: // rule 5 has inserted a penalty already
+			x[1] = 0
+		case CRClass:
+			if c != LFClass {
+				x[1] = PenaltyForMustBreak
+			}
+		}
+	}
 	if uax14.substituted && uax14.lastClass == c { // do not break between runes for rule 09
 		if len(x) > 1 && x[1] == 0 {
 			x[1] = noBreak
-- 
2.43.0


From 02e0ae6afffc3b9bd649d6de0d50790115bb1beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 53/61] fix: generator for bracket pairs fails if its output
 cannot be written

---
 bidi/internal/gen/brackgen.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bidi/internal/gen/brackgen.go b/bidi/internal/gen/brackgen.go
index 1446959..9eaef04 100644
--- a/bidi/internal/gen/brackgen.go
+++ b/bidi/internal/gen/brackgen.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bufio"
 	"flag"
 	"fmt"
 	"os"
@@ -34,14 +35,19 @@ func main() {
 		os.Exit(2)
 	}
 	defer f.Close()
-	f.WriteString("package " + *pkg + "\n\n")
-	f.WriteString("type BracketPair struct {\n    o rune\n    c rune\n}\n\n")
-	f.WriteString("var UAX9BracketPairs = []BracketPair{\n")
+	w := bufio.NewWriter(f)
+	w.WriteString("package " + *pkg + "\n\n")
+	w.WriteString("type BracketPair struct {\n    o rune\n    c rune\n}\n\n")
+	w.WriteString("var UAX9BracketPairs = []BracketPair{\n")
 	for _, p := range pairs {
-		//f.WriteString(fmt.Sprintf("    BracketPair{o: %q, c: %q},\n", p.o, p.c))
-		f.WriteString(fmt.Sprintf("    {o: %q, c: %q},\n", p.o, p.c))
+		//w.WriteString(fmt.Sprintf("    BracketPair{o: %q, c: %q},\n", p.o, p.c))
+		w.WriteString(fmt.Sprintf("    {o: %q, c: %q},\n", p.o, p.c))
+	}
+	w.WriteString("}\n")
+	if err := w.Flush(); err != nil {
+		tracing.Errorf(err.Error())
+		os.Exit(3)
 	}
-	f.WriteString("}\n")
 }
 
 type bracketPair struct {
-- 
2.43.0


From 3de063ed21073d74a0e2da366b59acdae31544f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:35 +0000
Subject: [PATCH 54/61] fix: breakers do not report penalties for positions
 before the carriage return they match

---
 grapheme/grapheme.go | 2 +-
 uax14/rules.go       | 4 ++--
 uax29/uax29.go       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/grapheme/grapheme.go b/grapheme/grapheme.go
index ea2470d..98a27d6 100644
--- a/grapheme/grapheme.go
+++ b/grapheme/grapheme.go
@@ -251,7 +251,7 @@ func rule_CRLF(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	if c == LFClass {
 		return uax.DoAccept(rec, GlueBANG, 3*GlueJOIN) // accept CR+LF
 	}
-	return uax.DoAccept(rec, 0, GlueBANG, GlueBANG) // accept CR
+	return uax.DoAccept(rec, 0, GlueBANG) // accept CR
 }
 
 func rule_Control(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
diff --git a/uax14/rules.go b/uax14/rules.go
index 6cec95d..eb52a07 100644
--- a/uax14/rules.go
+++ b/uax14/rules.go
@@ -142,9 +142,9 @@ func rule_05_NewLine(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func rule_05_CRLF(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX14Class(cpClass)
 	if c == LFClass {
-		return uax.DoAccept(rec, PenaltyForMustBreak, PenaltyToSuppressBreak, PenaltyToSuppressBreak)
+		return uax.DoAccept(rec, PenaltyForMustBreak, PenaltyToSuppressBreak)
 	}
-	return uax.DoAccept(rec, 0, PenaltyForMustBreak, PenaltyToSuppressBreak)
+	return uax.DoAccept(rec, 0, PenaltyForMustBreak)
 }
 
 func rule_06_HardBreak(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
diff --git a/uax29/uax29.go b/uax29/uax29.go
index 70429a5..fc20f92 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -257,7 +257,7 @@ func rule_CRLF(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 		return uax.DoAccept(rec, PenaltyForMustBreak, 3*PenaltyToSuppressBreak) // accept CR+LF
 	}
 	//tracer().Debugf("ACCEPT of Rule for CR")
-	return uax.DoAccept(rec, 0, PenaltyForMustBreak, PenaltyForMustBreak) // accept CR
+	return uax.DoAccept(rec, 0, PenaltyForMustBreak) // accept CR
 }
 
 func rule_WB3c(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
-- 
2.43.0


From 7e7840f8b8d8c1176907ba21cfef52fbffbf7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:20 +0000
Subject: [PATCH 55/61] fix: UCD test files: empty lines are skipped and a text
 without a final mark keeps its last segment

---
 internal/ucdparse/testfiles.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/ucdparse/testfiles.go b/internal/ucdparse/testfiles.go
index 8ec1a05..1e01252 100644
--- a/internal/ucdparse/testfiles.go
+++ b/internal/ucdparse/testfiles.go
@@ -38,8 +38,8 @@ func (tf *ucdTestFile) Scan() bool {
 	done := false
 	for !done {
 		ok = tf.scanner.Scan()
-		if ok && len(tf.scanner.Bytes()) > 0 {
-			if tf.scanner.Bytes()[0] == '#' {
+		if ok {
+			if len(tf.scanner.Bytes()) == 0 || tf.scanner.Bytes()[0] == '#' {
 				continue
 			}
 			done = true
@@ -49,7 +49,7 @@ func (tf *ucdTestFile) Scan() bool {
 			if len(parts) > 1 {
 				tf.text, tf.comment = parts[0], parts[1]
 			} else {
-				tf.text = parts[0]
+				tf.text, tf.comment = parts[0], ""
 			}
 		} else {
 			done = true // with error
@@ -96,6 +96,9 @@ func BreakTestInput(ti string) (string, []string) {
 			inp.WriteRune(rune(n))
 		}
 	}
+	if run.Len() > 0 { // no mark at the end
+		out = append(out, run.String())
+	}
 	//fmt.Printf("input = '%s'\n", inp.String())
 	//fmt.Printf("output = %#v\n", out)
 	return inp.String(), out
-- 
2.43.0


From 6f66ad4ca3b1ddf31acbba348571ce3fa61cf5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:20 +0000
Subject: [PATCH 56/61] fix: BoundedNext respects the smallest possible bound

---
 segment/segment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/segment/segment.go b/segment/segment.go
index c1dc33a..84a2072 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -323,6 +323,7 @@ func (s *Segmenter) Next() bool {
 // See also method `Next`.
 //
 func (s *Segmenter) BoundedNext(bound int) bool {
+	bound = max(bound, 0)    // bound-1 must not overflow
 	return s.next(bound - 1) // semantics in `next` is including, API is excluding bound
 }
 
-- 
2.43.0


From 633be9aa9fbbe38d29357893aa8f04ce84a1aaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:20 +0000
Subject: [PATCH 57/61] fix: bidi positions beyond 32 bits are behind the end
 of the text

---
 bidi/reordering.go |  4 ++--
 bidi/scrap.go      | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index cc75ecf..d65079f 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -50,7 +50,7 @@ func (rl *ResolvedLevels) String() string {
 // and characters are therefore “re-positioned”.
 //
 func (rl *ResolvedLevels) Split(at uint64, shift0 bool) (*ResolvedLevels, *ResolvedLevels) {
-	prefix, suffix := split(copyScraps(rl.scraps), charpos(at)) // split is destructive
+	prefix, suffix := split(copyScraps(rl.scraps), textpos(at)) // split is destructive
 	if shift0 {
 		//suffix = shiftzero(suffix, charpos(at))
 		shiftzero(&suffix, charpos(at))
@@ -507,7 +507,7 @@ func copyScraps(scraps []scrap) []scrap {
 
 // DirectionAt returns the text direction at byte position pos.
 func (rl *ResolvedLevels) DirectionAt(pos uint64) Direction {
-	return directionAt(rl.scraps, charpos(pos), rl.embedding)
+	return directionAt(rl.scraps, textpos(pos), rl.embedding)
 }
 
 func directionAt(scraps []scrap, pos charpos, embedding Direction) Direction {
diff --git a/bidi/scrap.go b/bidi/scrap.go
index ed4f006..39b7382 100644
--- a/bidi/scrap.go
+++ b/bidi/scrap.go
@@ -2,12 +2,22 @@ package bidi
 
 import (
 	"fmt"
+	"math"
 
 	"golang.org/x/text/unicode/bidi"
 )
 
 type charpos uint32 // position of a character within a paragraph
 
+// textpos converts a client's position. Positions which are too large for a charpos are
+// behind the end of any text.
+func textpos(pos uint64) charpos {
+	if pos > math.MaxUint32 {
+		return math.MaxUint32
+	}
+	return charpos(pos)
+}
+
 // --- Scraps ----------------------------------------------------------------
 
 // Our parser and the CSG actions resemble a system developed by Prof. Donald E. Knuth
-- 
2.43.0


From 3db41fe6250ef3078893d95fae4b0c7f185a1bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:50 +0000
Subject: [PATCH 58/61] fix: uax11: honour changes of a context which has been
 used, or copied from a predefined one

---
 uax11/width.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/uax11/width.go b/uax11/width.go
index 2d6a0d0..4e961f8 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -33,7 +33,7 @@ func Width(grphm []byte, context *Context) int {
 	}
 	if context == nil {
 		context = makeLatinContext()
-	} else if context.resolve == nil {
+	} else if !context.isEvaluated() {
 		context = evaluateContext(context)
 	}
 	return graphemeWidth(grphm, context)
@@ -55,7 +55,7 @@ func StringWidth(s grapheme.String, context *Context) int {
 	}
 	if context == nil {
 		context = makeLatinContext()
-	} else if context.resolve == nil {
+	} else if !context.isEvaluated() {
 		context = evaluateContext(context)
 	}
 	w := 0
@@ -124,6 +124,23 @@ type Context struct {
 	Script         language.Script // ISO 15924 script identifier
 	Locale         string          // ISO 639/3166 locale string
 	resolve        resolver
+	evaluated      contextFields // values of the fields resolve has been set for
+}
+
+// contextFields holds the fields of a context which are set by clients.
+type contextFields struct {
+	forceEastAsian bool
+	script         language.Script
+	locale         string
+}
+
+func (ctx *Context) fields() contextFields {
+	return contextFields{ctx.ForceEastAsian, ctx.Script, ctx.Locale}
+}
+
+// isEvaluated is true if a context has a resolver and clients did not change it since.
+func (ctx *Context) isEvaluated() bool {
+	return ctx.resolve != nil && ctx.evaluated == ctx.fields()
 }
 
 // EastAsianContext is a context for East Asian languages.
@@ -139,6 +156,7 @@ func makeEastAsianContext() *Context {
 		Locale:         "zh-Hant",
 		resolve:        resolveToWide,
 	}
+	ctx.evaluated = ctx.fields()
 	return ctx
 }
 
@@ -149,6 +167,7 @@ func makeLatinContext() *Context {
 		Locale:         "en-US",
 		resolve:        resolveToNarrow,
 	}
+	ctx.evaluated = ctx.fields()
 	return ctx
 }
 
@@ -180,6 +199,7 @@ func evaluateContext(ctx *Context) *Context {
 		lang := language.Make(ctx.Locale)
 		ctx = findResolver(lang, ctx)
 	}
+	ctx.evaluated = ctx.fields()
 	return ctx
 }
 
@@ -247,5 +267,6 @@ func ContextFromEnvironment() *Context {
 		Locale: userLocale,
 	}
 	ctx = findResolver(lang, ctx)
+	ctx.evaluated = ctx.fields()
 	return ctx
 }
-- 
2.43.0


From 7d2b6929cbb7e936b20b5a8b7381bece6a9fc1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:32 +0000
Subject: [PATCH 59/61] fix: segment: breakers abandoned by another segmenter
 carried over matches

---
 segment/segment.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/segment/segment.go b/segment/segment.go
index 84a2072..352a049 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -149,6 +149,7 @@ func (s *Segmenter) init() {
 	if s.deque == nil {
 		s.deque = &deque{} // Q of atoms
 		s.maxSegmentLen = MaxSegmentSize
+		s.abandonInput() // breakers may have been used by another segmenter
 	} else {
 		if s.inUse && !s.eotRead {
 			s.abandonInput()
-- 
2.43.0


From 5782f62fbe934f4cc6eb9053c66cb4de1323178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:32 +0000
Subject: [PATCH 60/61] fix: segment: RuneBuffer ignored the maximum if given
 no buffer

---
 segment/segment.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 352a049..a4d79bd 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -211,7 +211,7 @@ func (s *Segmenter) RuneBuffer(buf []rune, max int) {
 	if s.inUse {
 		panic("segment.Buffer: buffer already in use; cannot be re-set")
 	}
-	if cap(buf) > 0 {
+	if cap(buf) > 0 || max > 0 {
 		s.runesBuf.output = buf[:0]
 		s.runesBuf.maxSegLen = max
 		if cap(buf) > max {
@@ -783,7 +783,7 @@ func (rw runewrite) Reset(backingBuf []rune) runewrite {
 	if backingBuf == nil {
 		rw.isBacked = false
 		if rw.output == nil {
-			rw.output = make([]rune, 0, startBufSize)
+			rw.output = make([]rune, 0, rw.startSize())
 		}
 		rw.backing = nil
 	} else {
@@ -794,6 +794,14 @@ func (rw runewrite) Reset(backingBuf []rune) runewrite {
 	return rw
 }
 
+// startSize is the size of the initial allocation, which may not exceed the limit (if any).
+func (rw runewrite) startSize() int {
+	if rw.maxSegLen > 0 && rw.maxSegLen < startBufSize {
+		return rw.maxSegLen
+	}
+	return startBufSize
+}
+
 func (rw runewrite) String() string {
 	if rw.isBacked {
 		return string(rw.backing[rw.start:rw.end])
-- 
2.43.0


From b518c86cfffceb0bc81371438e8da03a160bc201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:47 +0000
Subject: [PATCH 61/61] fix: segment: no end-of-text for breakers of a new
 segmenter (reverts 7d2b692)

Breakers of clients need not expect an end-of-text in front of the first rune.
---
 segment/segment.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/segment/segment.go b/segment/segment.go
index a4d79bd..2d44077 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -149,7 +149,6 @@ func (s *Segmenter) init() {
 	if s.deque == nil {
 		s.deque = &deque{} // Q of atoms
 		s.maxSegmentLen = MaxSegmentSize
-		s.abandonInput() // breakers may have been used by another segmenter
 	} else {
 		if s.inUse && !s.eotRead {
 			s.abandonInput()
-- 
2.43.0

