package checks

// Reference returns the boundaries within a text: words (0), graphemes (1). For validation.
func Reference(kind int, rs []rune) []int {
	var cs []int
	for _, r := range rs {
		if kind == 0 {
			cs = append(cs, wordClass(r))
		} else {
			cs = append(cs, graphClass(r))
		}
	}
	if kind == 0 {
		return refWords(cs)
	}
	return refGraphemes(cs)
}
