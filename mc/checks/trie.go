package checks

import (
	"errors"
	"fmt"
	"strings"

	"github.com/npillmayer/uax/bidi/trie"
	"github.com/npillmayer/uax/verifmc/mc"
)

// --- T01: dictionary of bidi rules -----------------------------------------------------------

// trieConfig is the size of a trie and the letters words are made of.
type trieConfig struct {
	size    uint8
	catcnt  int8
	letters []byte
	full    int // number of words which may be too many, if not 0
}

var trieConfigs = []trieConfig{
	{139, 46, []byte{13, 20, 21}, 0},
	{139, 46, []byte{0, 1, 45}, 0},
	{251, 50, []byte{0, 49, 2}, 0},
	{61, 5, []byte{1, 2, 4}, 0},
	{61, 5, []byte{0, 3, 2, 1}, 0},
	{41, 3, []byte{0, 1, 2}, 0},
	{103, 12, []byte{11, 5, 6, 0}, 0},
	{227, 20, []byte{1, 2, 3, 4, 5, 6, 0}, 20},
}

// words are all words of minimum to maximum length.
func (c trieConfig) words(min, max int) (l [][]byte) {
	for n := min; n <= max; n++ {
		mc.Product(len(c.letters), n, func(idx []int) bool {
			w := make([]byte, n)
			for i, x := range idx {
				w[i] = c.letters[x]
			}
			l = append(l, w)
			return true
		})
	}
	return l
}

// judgeTrie allocates words in the order given, twice, freezes the trie, and looks up words.
func judgeTrie(c trieConfig, alloc, lookup [][]byte) (fail string) {
	allocated := 0
	defer func() {
		// the trie may refuse to hold more words
		if p := recover(); p != nil && (c.full == 0 || allocated < c.full || allocated == len(alloc)) {
			panic(p)
		}
	}()
	t, err := trie.NewTinyHashTrie(c.size, c.catcnt)
	if err != nil {
		return err.Error()
	}
	prefix := map[string]bool{}
	for _, w := range alloc {
		p := t.AllocPositionForWord(w)
		if p <= 0 || p >= int(c.size) {
			return fmt.Sprintf("position %d for word %v", p, w)
		}
		if q := t.AllocPositionForWord(w); q != p {
			return fmt.Sprintf("word %v has been allocated at %d, its position is %d now", w, p, q)
		}
		for i := 2; i <= len(w); i++ {
			prefix[string(w[:i])] = true
		}
		allocated++
	}
	t.Freeze()
	owner := map[int]string{}
	for pass := range 2 { // the second pass finds out if the first one changed something
		for _, w := range lookup {
			in := len(w) == 1 || prefix[string(w)]
			p := t.AllocPositionForWord(w)
			if (p != 0) != in {
				return fmt.Sprintf("words %v, position of %v is %d", alloc, w, p)
			}
			it := t.Iterator()
			for i := range w {
				q := it.Next(int8(w[i]))
				if i == 0 && q <= 0 {
					return fmt.Sprintf("words %v, first step for %v gives %d", alloc, w, q)
				}
				if i > 0 && (q != 0) != prefix[string(w[:i+1])] {
					return fmt.Sprintf("words %v, iterator gives %d for %v", alloc, q, w[:i+1])
				}
				if i > 0 && i == len(w)-1 && q != p {
					return fmt.Sprintf("words %v, iterator gives %d for %v, which is at %d", alloc, q, w, p)
				}
			}
			if p != 0 && len(w) > 1 {
				if o, is := owner[p]; is && o != string(w) {
					return fmt.Sprintf("words %v: %v and %v share position %d (pass %d)", alloc, []byte(o), w, p, pass)
				}
				owner[p] = string(w)
			}
		}
	}
	return ""
}

// trieCase is key "config max words…", words are indexes into all words of lengths 2…max.
func trieCase(cfg, max int, seq []int) string {
	if cfg >= len(trieConfigs) {
		return "unknown configuration"
	}
	c := trieConfigs[cfg]
	words := trieWords(cfg, 2, max)
	alloc := make([][]byte, len(seq))
	for i, s := range seq {
		alloc[i] = words[s%len(words)]
	}
	return judgeTrie(c, alloc, trieWords(cfg, 1, min(max+1, 4)))
}

var trieWordCache = map[[3]int][][]byte{}

func trieWords(cfg, min, max int) [][]byte {
	k := [3]int{cfg, min, max}
	if w, is := trieWordCache[k]; is {
		return w
	}
	w := trieConfigs[cfg].words(min, max)
	trieWordCache[k] = w
	return w
}

func exploreTrie(w *mc.Worker) {
	try := func(cfg, max int, seq []int) bool {
		ok := w.Case(fmt.Sprintf("%d %d %s", cfg, max, ints(seq)), func() string { return trieCase(cfg, max, seq) })
		w.States(1)
		w.Steps(len(seq))
		w.NonTrivial()
		return ok && !w.Stop()
	}
	for cfg, c := range trieConfigs {
		// all sequences of n words
		for _, x := range []struct{ max, n int }{{2, w.Pick(5, 6)}, {3, w.Pick(3, 4)}, {4, 2}} {
			if len(c.letters) > 3 {
				x.n--
			}
			if len(c.letters) > 4 {
				x.n--
			}
			k := len(trieWords(cfg, 2, x.max))
			if x.n < 1 {
				continue
			}
			seq := make([]int, x.n)
			if !mc.Product(k, x.n, func(idx []int) bool {
				if !w.Mine() {
					return true
				}
				copy(seq, idx)
				return try(cfg, x.max, seq)
			}) {
				return
			}
		}
		// all (short) words, starting with any of them and in steps coprime to their number
		k := len(trieWords(cfg, 2, 2))
		for n := 1; n <= k; n++ {
			for from := range k {
				for step := 1; step < k; step++ {
					if gcd(step, k) != 1 || !w.Mine() {
						continue
					}
					seq := make([]int, n)
					for i := range seq {
						seq[i] = (from + i*step) % k
					}
					if !try(cfg, 2, seq) {
						return
					}
				}
			}
		}
	}
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func init() {
	mc.Register(&mc.Check{ID: "T01", Level: "model_checking",
		Rule:    "all sequences of allocations of words of up to 4 letters, for several sizes of the dictionary; thereafter all words are looked up twice; the model is the set of prefixes of the words allocated",
		Explore: exploreTrie,
		Replay: func(key string) (string, error) {
			f := strings.Split(key, " ")
			if len(f) != 3 {
				return "", errors.New("unknown case")
			}
			cfg, max := parseInts(f[0]), parseInts(f[1])
			return trieCase(cfg[0], max[0], parseInts(f[2])), nil
		},
		Bound: func(tier string) string {
			return fmt.Sprintf("sequences of up to %d words (tier %s), %d configurations", map[bool]int{true: 6, false: 5}[tier == "thorough"], tier, len(trieConfigs))
		}})
}
