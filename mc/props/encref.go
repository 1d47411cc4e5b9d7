package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
)

// rtok is one token of the reference encoding: all per-token data in one record.
type rtok struct {
	id, typ int
	tok     string
	s, e    int
	sp, at  int
	w       int // word, -1: none
	seq     int // sequence, -1: none
}

func (r rtok) String() string {
	return fmt.Sprintf("%s#%d t%d [%d,%d) sp%d at%d w%d q%d", r.tok, r.id, r.typ, r.s, r.e, r.sp, r.at, r.w, r.seq)
}

// mkToks makes n distinct content tokens numbered from base.
func mkToks(base, n, typ, seq int) []rtok {
	var out []rtok
	for i := 0; i < n; i++ {
		out = append(out, rtok{id: base + i, typ: typ, tok: fmt.Sprintf("t%d", base+i), s: 3*i + 1, e: 3*i + 3, at: 1, w: i, seq: seq})
	}
	return out
}

// encOf builds an Encoding from records. spare > 0 gives every slice spare
// capacity filled with sentinels (see spareOK).
func encOf(rs []rtok, noWords bool, spare int) *tokenizer.Encoding {
	n := len(rs)
	e := &tokenizer.Encoding{
		Ids: make([]int, n, n+spare), TypeIds: make([]int, n, n+spare), Tokens: make([]string, n, n+spare),
		Offsets: make([][]int, n, n+spare), SpecialTokenMask: make([]int, n, n+spare), AttentionMask: make([]int, n, n+spare),
		Words: make([]int, n, n+spare), Overflowing: []tokenizer.Encoding{}, SequenceRanges: map[int]tokenizer.Range{},
	}
	for i, r := range rs {
		e.Ids[i], e.TypeIds[i], e.Tokens[i] = r.id, r.typ, r.tok
		e.Offsets[i] = []int{r.s, r.e}
		e.SpecialTokenMask[i], e.AttentionMask[i], e.Words[i] = r.sp, r.at, r.w
		if r.seq >= 0 {
			e.SequenceRanges[r.seq] = append(e.SequenceRanges[r.seq], i)
		}
	}
	for i := n; i < n+spare; i++ {
		e.Ids[:n+spare][i] = -77
		e.TypeIds[:n+spare][i] = -77
		e.Tokens[:n+spare][i] = "sentinel"
		e.Offsets[:n+spare][i] = []int{-77, -77}
		e.SpecialTokenMask[:n+spare][i] = -77
		e.AttentionMask[:n+spare][i] = -77
		e.Words[:n+spare][i] = -77
	}
	if noWords {
		e.Words = nil
	}
	return e
}

// spareOK tells whether the memory behind slices of an encoding made by encOf
// (kept as a shallow copy) still holds its sentinels.
func spareOK(e tokenizer.Encoding, spare int) bool {
	n := len(e.Ids)
	for i := n; i < n+spare; i++ {
		if e.Ids[:n+spare][i] != -77 || e.TypeIds[:n+spare][i] != -77 || e.Tokens[:n+spare][i] != "sentinel" ||
			e.Offsets[:n+spare][i][0] != -77 || e.SpecialTokenMask[:n+spare][i] != -77 || e.AttentionMask[:n+spare][i] != -77 {
			return false
		}
		if e.Words != nil && e.Words[:n+spare][i] != -77 {
			return false
		}
	}
	return true
}

// readEnc reads an encoding back into records; sequence membership is read off
// SequenceRanges. implicit gives the sequence when there are no ranges.
func readEnc(e *tokenizer.Encoding, noWords bool, implicit int) ([]rtok, error) {
	n := len(e.Ids)
	nw := len(e.Words)
	if noWords && nw == 0 {
		nw = n
	}
	if len(e.TypeIds) != n || len(e.Tokens) != n || len(e.Offsets) != n || len(e.SpecialTokenMask) != n || len(e.AttentionMask) != n || nw != n {
		return nil, fmt.Errorf("fields differ in length: ids %d type ids %d tokens %d offsets %d special %d attention %d words %d",
			n, len(e.TypeIds), len(e.Tokens), len(e.Offsets), len(e.SpecialTokenMask), len(e.AttentionMask), len(e.Words))
	}
	seq := make([]int, n)
	for i := range seq {
		seq[i] = -1
		if len(e.SequenceRanges) == 0 {
			seq[i] = implicit
		}
	}
	var ids []int
	for k := range e.SequenceRanges {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	for _, k := range ids {
		for _, i := range e.SequenceRanges[k] {
			if i < 0 || i >= n {
				return nil, fmt.Errorf("sequence %d has token %d of %d", k, i, n)
			}
			if seq[i] >= 0 {
				return nil, fmt.Errorf("token %d is in sequences %d and %d", i, seq[i], k)
			}
			seq[i] = k
		}
	}
	out := make([]rtok, n)
	for i := range out {
		if len(e.Offsets[i]) != 2 {
			return nil, fmt.Errorf("offsets of token %d: %v", i, e.Offsets[i])
		}
		w := -1
		if len(e.Words) == n {
			w = e.Words[i]
		}
		out[i] = rtok{e.Ids[i], e.TypeIds[i], e.Tokens[i], e.Offsets[i][0], e.Offsets[i][1], e.SpecialTokenMask[i], e.AttentionMask[i], w, seq[i]}
	}
	return out, nil
}

func eqToks(a, b []rtok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func showToks(a []rtok) string {
	var b strings.Builder
	for i, r := range a {
		if i > 0 {
			b.WriteString(" | ")
		}
		b.WriteString(r.String())
	}
	return "{" + b.String() + "}"
}

// noWordsIn blanks the words, for encodings made without them.
func noWordsIn(rs []rtok) []rtok {
	out := append([]rtok{}, rs...)
	for i := range out {
		out[i].w = -1
	}
	return out
}

// windows is the definition of truncation: consecutive windows of at most max
// tokens, each overlapping its predecessor by stride.
func windows(rs []rtok, max, stride int) [][]rtok {
	if len(rs) <= max {
		return [][]rtok{rs}
	}
	var out [][]rtok
	for s := 0; ; s += max - stride {
		e := s + max
		if e >= len(rs) {
			return append(out, rs[s:])
		}
		out = append(out, rs[s:e])
	}
}

// checkEnc compares an encoding with records.
func checkEnc(t *core.T, what string, e *tokenizer.Encoding, want []rtok, noWords bool, implicit int) {
	got, err := readEnc(e, noWords, implicit)
	if err != nil {
		t.Errorf("%s: %v", what, err)
		return
	}
	if !eqToks(got, want) {
		t.Errorf("%s:\n got  %s\n want %s", what, showToks(got), showToks(want))
	}
}

// checkParts compares the overflowing parts with the wanted ones, in any order.
func checkParts(t *core.T, what string, parts []tokenizer.Encoding, want [][]rtok, noWords bool, implicit int) {
	var g, w []string
	for i := range parts {
		got, err := readEnc(&parts[i], noWords, implicit)
		if err != nil {
			t.Errorf("%s: part %d: %v", what, i, err)
			return
		}
		g = append(g, showToks(got))
	}
	for _, x := range want {
		w = append(w, showToks(x))
	}
	sort.Strings(g)
	sort.Strings(w)
	if len(g) != len(w) {
		t.Errorf("%s: %d overflowing parts, want %d\n got  %v\n want %v", what, len(g), len(w), g, w)
		return
	}
	for i := range g {
		if g[i] != w[i] {
			t.Errorf("%s: overflowing part\n got  %s\n want %s", what, g[i], w[i])
			return
		}
	}
}
