package props

import (
	"fmt"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
)

func init() {
	core.Register(&core.Check{ID: "C09", Level: "model_checking",
		Rule:        "every encoding with up to N tokens, every assignment of sequences and words to its tokens (special tokens and padding anywhere between sequences, words of a sequence contiguous), several offset patterns (adjacent, gaps, empty, restarting per sequence), and on each the fields read by the getters, the effect of the setters and the answer of every lookup for every token, word, character and sequence index from -1 to past the end, compared with a linear scan. Non-trivial: the encoding has a token.",
		Run:         c09,
		Assumptions: []string{"A word index denotes the word of the first sequence that has it, as Word2Tokens takes no sequence.", "A character position denotes the first token containing it."}})
}

func c09(c *core.Ctx) {
	maxN := core.Pick(c, 8, 10)
	// per token: -1 special, or seq*4+word
	type tokv struct{ seq, word int }
	c.Par(6, func(w *core.W, pad int) {
		for _, n := range []int{17, 33, 64, 65, 130, 257, 300, 700} {
			for lay := 0; lay < 4; lay++ {
				w.Case(fmt.Sprintf("long n=%d layout=%d padding=%d", n, lay, pad), func(t *core.T) {
					rs := make([]rtok, 0, n)
					for i := 0; i < n; i++ {
						r := rtok{id: i, tok: fmt.Sprint(i), at: 1, w: i / 2, seq: 0, s: 3 * i, e: 3*i + 2}
						switch lay {
						case 1:
							if i >= n/3 {
								r.seq, r.w, r.s, r.e = 1, i-n/3, 3*(i-n/3), 3*(i-n/3)+2
							}
						case 2: // several tokens to a word, three sequences
							r.seq = i * 3 / n
							r.w, r.s, r.e = (i-(r.seq*n+2)/3)/7, i/4*4, i/4*4+4
						case 3: // no words, no ranges
							r.w, r.seq = -1, -1
						}
						rs = append(rs, r)
					}
					special := func(k int) (out []rtok) {
						for i := 0; i < k; i++ {
							out = append(out, rtok{id: 1, tok: "p", sp: 1, w: -1, seq: -1})
						}
						return
					}
					switch pad {
					case 1:
						rs = cat(special(1), rs)
					case 2:
						rs = cat(rs, special(2))
					case 3:
						rs = cat(special(70), rs)
					case 4:
						rs = cat(special(1), rs, special(300))
					case 5:
						rs = cat(special(1), rs[:n/2], special(1), rs[n/2:], special(1))
					}
					lookups(t, encOf(rs, false, 0), rs, lay != 3)
				})
			}
		}
	})
	vals := []tokv{{-1, -1}, {0, 0}, {0, 1}, {0, 2}, {0, -1}, {1, 0}, {1, 1}, {1, -1}}
	first := seqs(len(vals), 0, 2)
	c.Par(len(first), func(w *core.W, fi int) {
		var rec func(cur []int)
		try := func(cur []int) {
			// sequences in order, words of one sequence contiguous and in order
			lastSeq := -1
			last := map[int]int{}
			prev := map[int]int{}
			for i, x := range cur {
				v := vals[x]
				if v.seq >= 0 && v.seq < lastSeq {
					return
				}
				if v.seq >= 0 {
					lastSeq = v.seq
				}
				if v.word >= 0 {
					if p, ok := last[v.seq]; ok {
						if v.word < p || v.word == p && prev[v.seq] != i-1 {
							return
						}
					}
					last[v.seq], prev[v.seq] = v.word, i
				}
			}
			for mode := 0; mode < 14; mode++ {
				ranges, off := mode&1 == 0, mode/2
				if !ranges {
					for _, x := range cur {
						if vals[x].seq == 1 {
							return
						}
					}
				}
				key := fmt.Sprintf("lookups %v ranges=%v offsets=%d", cur, ranges, off)
				w.Case(key, func(t *core.T) {
					var rs []rtok
					pos := map[int]int{}
					for i, x := range cur {
						v := vals[x]
						r := rtok{id: i, tok: fmt.Sprint(i), at: 1, w: v.word, seq: v.seq}
						if v.seq < 0 {
							r.sp = 1
						} else {
							p := pos[v.seq]
							switch off {
							case 0:
								r.s, r.e = p, p+2
							case 1:
								r.s, r.e = p+1, p+2
							case 2: // empty tokens now and then
								r.s, r.e = p, p+i%2
							case 3: // several tokens of one character
								r.s, r.e = p, p+3
								if i%2 == 0 {
									r.e = p + 3
									p -= 3
								}
							case 5: // offsets of every word start again, the first after a gap
								if i > 0 && vals[cur[i-1]] != v || i == 0 {
									p = core.If(i%2 == 0, 2, 0)
								}
								r.s, r.e = p, p+2
								pos[v.seq] = p + 2
							case 6: // backwards
								p = 2 * (len(cur) - i)
								r.s, r.e = p, p+2
							case 4:
								p = i * 3
								r.s, r.e = p, p+2
							}
							if off < 5 {
								pos[v.seq] = max(r.e, p)
							}
						}
						if !ranges {
							r.seq = -1
						}
						rs = append(rs, r)
					}
					e := encOf(rs, false, 0)
					lookups(t, e, rs, ranges)
					t.State(key)
				})
			}
		}
		rec = func(cur []int) {
			try(cur)
			if len(cur) == maxN || len(cur) < 2 {
				return
			}
			for x := range vals {
				rec(append(append([]int{}, cur...), x))
			}
		}
		rec(first[fi])
	})
}

func lookups(t *core.T, e *tokenizer.Encoding, rs []rtok, ranges bool) {
	n := len(rs)
	has := false
	for _, r := range rs {
		has = has || r.seq >= 0
	}
	seqOf := func(i int) int {
		if !has {
			return 0
		}
		return rs[i].seq
	}
	if e.Len() != n || e.IsEmpty() != (n == 0) {
		t.Errorf("Len %d IsEmpty %v of %d tokens", e.Len(), e.IsEmpty(), n)
	}
	for i := 0; i < n; i++ {
		r := rs[i]
		if o := e.GetOffsets()[i]; e.GetIds()[i] != r.id || e.GetTypeIds()[i] != r.typ || e.GetTokens()[i] != r.tok || e.GetSpecialTokenMask()[i] != r.sp || e.GetAttentionMask()[i] != r.at || e.GetWords()[i] != r.w || len(o) != 2 || o[0] != r.s || o[1] != r.e {
			t.Errorf("token %d read by the getters is not %+v", i, r)
		}
	}
	if n > 0 && !has {
		// the setters, on a copy of its own
		c, want := encOf(rs, false, 0), append([]rtok{}, rs...)
		c.SequenceRanges = nil
		c.SetSequenceIds(1)
		ty := make([]int, n)
		for i := range want {
			want[i].seq, want[i].typ, ty[i] = 1, 7+i, 7+i
			if i == n/2 {
				want[i].w = 41
				c.SetWord(i, 41)
			}
		}
		c.SetTypeIds(ty)
		part := encOf(rs[:n/2], false, 0)
		c.SetOverflowing([]tokenizer.Encoding{*part, *part})
		checkEnc(t, "after the setters", c, want, false, -1)
		if o := c.GetOverflowing(); len(o) != 2 {
			t.Errorf("%d overflowing parts, 2 were set", len(o))
		} else {
			checkEnc(t, "part", &o[1], rs[:n/2], false, -1)
		}
		if o := c.TakeOverflowing(); len(o) != 2 || len(c.GetOverflowing()) != 0 {
			t.Errorf("%d overflowing parts taken, %d left", len(o), len(c.GetOverflowing()))
		}
	}
	if got := e.GetSequenceIds(); len(got) != n {
		t.Errorf("GetSequenceIds: %v", got)
	} else {
		for i := range got {
			if got[i] != seqOf(i) {
				t.Errorf("GetSequenceIds()[%d]=%d, want %d", i, got[i], seqOf(i))
			}
		}
	}
	nseq := 1
	if has {
		m := map[int]bool{}
		for _, r := range rs {
			if r.seq >= 0 {
				m[r.seq] = true
			}
		}
		nseq = len(m)
	}
	if g := e.NSequences(); g != nseq {
		t.Errorf("NSequences()=%d, want %d", g, nseq)
	}
	for i := -2; i <= n+2; i++ {
		in := i >= 0 && i < n
		if s, ok := e.Token2Sequence(i); ok != (in && seqOf(i) >= 0) || ok && s != seqOf(i) {
			t.Errorf("Token2Sequence(%d)=%d,%v", i, s, ok)
		}
		if o, ok := e.Token2Chars(i); ok != in || ok && (len(o) != 2 || o[0] != rs[i].s || o[1] != rs[i].e) {
			t.Errorf("Token2Chars(%d)=%v,%v", i, o, ok)
		}
		if v, ok := e.Token2Word(i); ok != (in && rs[i].w >= 0) || ok && v != rs[i].w {
			t.Errorf("Token2Word(%d)=%d,%v", i, v, ok)
		}
	}
	maxWord, maxChar := 0, 0
	for _, r := range rs {
		maxWord, maxChar = max(maxWord, r.w), max(maxChar, r.e)
	}
	for wd := -2; wd <= maxWord+2; wd++ {
		start, end := -1, -1
		for i, r := range rs {
			if wd >= 0 && r.w == wd && (start < 0 || end == i && seqOf(i) == seqOf(start)) {
				if start < 0 {
					start = i
				}
				end = i + 1
			}
		}
		if s, en, ok := e.Word2Tokens(wd); ok != (start >= 0) || ok && (s != start || en != end) {
			t.Errorf("Word2Tokens(%d)=%d,%d,%v, want %d,%d", wd, s, en, ok, start, end)
		}
		if ch, ok := e.Word2Chars(wd); ok != (start >= 0) || ok && (len(ch) != 2 || ch[0] != rs[start].s || ch[1] != rs[end-1].e) {
			t.Errorf("Word2Chars(%d)=%v,%v, want tokens %d,%d", wd, ch, ok, start, end)
		}
	}
	for p := -2; p <= maxChar+2; p++ {
		tok := -1
		for i, r := range rs {
			if tok < 0 && r.s <= p && p < r.e {
				tok = i
			}
		}
		if g, ok := e.Char2Token(p); ok != (tok >= 0) || ok && g != tok {
			t.Errorf("Char2Token(%d)=%d,%v, want %d", p, g, ok, tok)
		}
		if g, ok := e.Char2Word(p); ok != (tok >= 0 && rs[tok].w >= 0) || ok && g != rs[tok].w {
			t.Errorf("Char2Word(%d)=%d,%v, want token %d", p, g, ok, tok)
		}
	}
	for s := -2; s <= 3; s++ {
		var want []int
		for i := range rs {
			if s >= 0 && seqOf(i) == s {
				want = append(want, i)
			}
		}
		found := want != nil || !has && s == 0
		r, err := e.SequenceRange(s)
		if (err == nil) != found || found && !eqInts(r, want) {
			t.Errorf("SequenceRange(%d)=%v,%v, want %v", s, r, err, want)
		}
	}
	t.Op(4*(n+5) + 2*maxWord + 2*maxChar)
	if n > 0 {
		rs2, err := readEnc(e, false, -1)
		if err != nil || !eqToks(rs2, rs) {
			t.Errorf("lookups changed the encoding: %v", err)
		}
	}
}
