A="bidi/actions.go"; R="bidi/reordering.go"; S="bidi/scanner.go"; P="bidi/resolver.go"; B="bidi/brackets.go"; C="bidi/scrap.go"
BUGS=[
("b02-w6-es-nojump","B02","more than one European separator between neutrals or other separators","a European separator turned to a neutral does not look back for a neutral to join",
 [(A,'return makeSquashRule("W6-2", lhs, cNI, -1), lhs','return makeSquashRule("W6-2", lhs, cNI, 0), lhs')]),
("b02-w5-jump","B02","a European terminator before a number which follows a separator","European terminators joining a number do not look back for a separator to join",
 [(A,'return makeSquashRule("W5-1", lhs, bidi.EN, -2), lhs','return makeSquashRule("W5-1", lhs, bidi.EN, 0), lhs')]),
("b02-w4-jump","B02","chains of numbers with separators and terminators","numbers joined by a common separator do not look back for a preceding terminator",
 [(A,'return makeSquashRule("W4-2", lhs, bidi.EN, -2), lhs','return makeSquashRule("W4-2", lhs, bidi.EN, 1), lhs')]),
("b02-n1-an-r","B02","Arabic number, neutral, right-to-left letter, neutral, right-to-left letter","right-to-left text joined with preceding neutrals is skipped, following neutrals are not joined",
 [(A,'''			match[1] = collapse(match[1], match[2], bidi.R)
			return match[:2], 1, false
		},
	}, lhs
}

func ruleN1_6() ''','''			match[1] = collapse(match[1], match[2], bidi.R)
			return match[:2], 2, false
		},
	}, lhs
}

func ruleN1_6() ''')]),
("b02-n2-context","B02","trailing neutrals in front of the end of a sequence, with the last strong type being opposite to the paragraph","N2 takes the direction of the preceding strong character instead of the embedding direction",
 [(A,"			ni.bidiclz = ni.e()","			ni.bidiclz = ni.Context()")]),
("b02-w7-sos","B02","a European number being the first strong type of a left-to-right sequence, after a neutral","W7 does not consider the start of the sequence",
 [(A,"			if match[0].Context() == bidi.L {","			if match[0].Context() == bidi.L && match[0].l > 0 {")]),
("b03-child-lost","B03","three isolates separated by neutrals, merged into one run","isolates are forgotten if a run with two or more of them is joined with another one",
 [(C,"	for _, ch := range other.children {","	if len(s.children) > 1 {\n		return\n	}\n	for _, ch := range other.children {")]),
("b03-pdi-after-isolate","B03","nested isolates, the inner one being closed directly before the outer one","directly adjacent closing controls: the inner one closes both of the isolates",
 [(P,"	return max(startIRS, p.sp-1) // cNI just produced may extend preceding neutrals","	return p.sp // cNI just produced may extend preceding neutrals")]),
("b04-run-start","B04","two reversed runs within the same sequence","a run to be reversed starts too early, if it is not the first one",
 [(R,"				startRunR = pos\n","				if startRunR == 0 {\n					startRunR = pos\n				}\n"),(R,"				startRunR = 0\n","")]),
("b04-concat-skip","B04","runs of the same direction with several scraps, of which the first ones are adjacent","concatenation of runs forgets all but the first segment of the run being appended",
 [(R,"		r.scraps = append(r.scraps, other.scraps[1:]...)\n","")]),
("b04-concat-adjacent","B04","two segments adjacent in memory order but reversed on display","segments are merged if they touch in either direction",
 [(R,"	if lscr.r == ofst.l {\n		lscr.r = ofst.r","	if lscr.r >= ofst.l {\n		lscr.r = ofst.r")]),
("b04-child-dir","B04","isolate nested in an isolate of another direction, which contains runs of both directions","isolates are reversed with regard to the paragraph's direction",
 [(R,"			reorder(ch, 0, len(ch), dir)\n","			reorder(ch, 0, len(ch), embedded)\n")]),
("b04-level-en","B04","European numbers within right-to-left text","European numbers end the reversal of a right-to-left run",
 [(R,"	if s.bidiclz == bidi.EN || s.bidiclz == bidi.AN {\n		return 2","	if s.bidiclz == bidi.AN {\n		return 2")]),
("b05-pop-top","B05","interleaved brackets: a closing bracket matching an opening one below the top of the stack, then a closing bracket for the one skipped","only the topmost opening bracket is popped if a deeper one matches",
 [(B,"			bs = bs[:i]\n			return true, open, bs","			bs = append(bs[:i:i], bs[i+1:]...)\n			return true, open, bs")]),
("b06-children-lost","B06","cutting within the first of several isolates of a run","isolates following the one which is cut are treated as plain text on the second line",
 [(R,"					if j < len(s.children)-1 {","					if j < len(s.children)-2 {")]),
("b06-rest-class","B06","a cut within a run with other runs following it","the rest of a run which is cut takes the class of the last run of the sequence",
 [(R,"		rest := scrap{r: s.r, bidiclz: s.bidiclz}","		rest := scrap{r: s.r, bidiclz: scraps[len(scraps)-1].bidiclz}")]),
("b06-prefix-child","B06","a cut within the second isolate of a run","isolates in front of the one which is cut are treated as plain text on the first line",
 [(R,"					s.children = s.children[:j]\n","					s.children = s.children[:0]\n")]),
("b06-irs-start","B06","a cut within an isolate","the second part of an isolate which is cut has no start of its own",
 [(R,"		if isisolate(scraps[0]) {\n			rseg[0] = scraps[0]","		if isisolate(scraps[0]) && i > 1 {\n			rseg[0] = scraps[0]")]),
("b07-cut-position","B07","a direction query at the first byte of a nested isolate","positions at the right boundary of a run belong to the run",
 [(C,"	return s.l <= pos && s.r > pos","	return s.l < pos && s.r >= pos || s.l == pos && s.r > pos && pos == 0")]),
("b08-rli-only","B08","markup for a right-to-left isolate alone (not the combined one)","markup RLI without a preceding PDI is taken for LRI",
 [(S,"	case MarkupRLI, MarkupPDIRLI:\n		return bidi.RLI","	case MarkupPDIRLI:\n		return bidi.RLI")]),
]
