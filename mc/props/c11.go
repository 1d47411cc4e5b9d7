package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/util"
)

type refTok struct {
	id, s, e int
	v        string
}

// wpRef is the greedy longest-match-first definition, on bytes.
func wpRef(v map[string]int, unk, prefix string, max int, w string) (out []refTok, isErr bool) {
	if w == "" {
		return nil, false
	}
	bad := utf8.RuneCountInString(w) > max
	for s := 0; s < len(w) && !bad; {
		found := false
		for e := len(w); e > s; e-- {
			if e < len(w) && !utf8.RuneStart(w[e]) {
				continue
			}
			p := w[s:e]
			if s > 0 {
				p = prefix + p
			}
			if id, ok := v[p]; ok {
				out = append(out, refTok{id, s, e, p})
				s, found = e, true
				break
			}
		}
		bad = !found
	}
	if bad {
		id, ok := v[unk]
		if !ok {
			return nil, true
		}
		return []refTok{{id, 0, len(w), unk}}, false
	}
	return out, false
}

func sameToks(got []tokenizer.Token, want []refTok, byValue bool) bool {
	if len(got) != len(want) {
		return false
	}
	for i, g := range got {
		x := want[i]
		if g.Id != x.id || len(g.Offsets) != 2 || g.Offsets[0] != x.s || g.Offsets[1] != x.e || (byValue && g.Value != x.v) {
			return false
		}
	}
	return true
}

// c11Big: vocabularies of hundreds of pieces and long words.
func c11Big(c *core.Ctx) {
	sizes := core.Pick(c, []int{130, 300, 1100}, []int{130, 256, 300, 1100, 2500})
	limits := []int{100, 255, 256, 1000, 100000}
	c.Par(len(sizes)*len(limits), func(w *core.W, i int) {
		n, max := sizes[i/len(limits)], limits[i%len(limits)]
		pieces := bigPieces(n)
		vocab := model.Vocab{"[UNK]": 0}
		wl := map[string]int{"[UNK]": 0}
		for k, p := range pieces {
			if k%5 != 1 || k < 48 {
				vocab["##"+p] = len(vocab)
			}
			if k%7 != 1 || k < 48 {
				vocab[p] = len(vocab)
			}
			wl[p] = k + 1
		}
		wp := wordpiece.NewWordPieceBuilder().Vocab(&vocab).UnkToken("[UNK]").ContinuingSubwordPrefix("##").MaxInputCharsPerWord(max).Build()
		lb := wordlevel.NewWordLevelBuilder()
		lb.Vocab(wl)
		lb.UnkToken("[UNK]")
		lm := lb.Build()
		for _, s := range append(bigTexts(pieces, core.Pick(c, 60, 300)), pieces[max%40:max%40+40]...) {
			if len(s) > 2000 && max > 1000 {
				continue // quadratic in the length
			}
			name := s
			if len(name) > 100 {
				name = fmt.Sprintf("%d bytes %s", len(s), name[:90])
			}
			w.Case(fmt.Sprintf("%d pieces max=%d word=%q", n, max, name), func(t *core.T) {
				want, _ := wpRef(vocab, "[UNK]", "##", max, s)
				got, err := wp.Tokenize(s)
				if err != nil || !sameToks(got, want, true) {
					t.Fatalf("got %+v (%v) want %+v", got, err, want)
				}
				id := wl[s]
				got, err = lm.Tokenize(s)
				if err != nil || len(got) != 1 || got[0].Id != id || !eqInts(got[0].Offsets, []int{0, len(s)}) {
					t.Fatalf("word level: got %+v (%v) want id %d", got, err, id)
				}
				t.Op(2)
				t.State(fmt.Sprint(n, want))
			})
		}
	})
}

func c11(c *core.Ctx) {
	c11Big(c)
	type opt struct {
		prefix string
		max    int
		unk    string
		hasUnk bool
	}
	opts := []opt{{"##", 100, "[UNK]", true}, {"##", 100, "[UNK]", false}, {"##", 3, "[UNK]", true}, {"é", 100, "[UNK]", true}, {"", 100, "é", true}, {"##", 4, "aé", true}, {"##", 0, "[UNK]", true}}
	np := core.Pick(c, 8, 11)
	ws := words([]string{"a", "é", "日"}, 0, core.Pick(c, 5, 6))
	for _, n := range []int{7, 12, 20, 99, 100, 101, 102, 150} {
		ws = append(ws, strings.Repeat("a", n), strings.Repeat("é", n), strings.Repeat("aé", n/2), strings.Repeat("a", n-1)+"日")
	}
	for _, o := range opts {
		o := o
		pieces := []string{"a", o.prefix + "a", "é", o.prefix + "é", "aé", o.prefix + "éa", o.prefix + "aa", "aa", o.prefix + "aé", o.prefix + "éé", "aéa"}[:np]
		c.Par(1<<np, func(w *core.W, mask int) {
			vocab := model.Vocab{}
			var names []string
			if o.hasUnk {
				vocab[o.unk] = 0
			}
			for i, p := range pieces {
				if mask>>i&1 == 1 {
					if _, ok := vocab[p]; !ok {
						vocab[p] = len(vocab) + 3
						names = append(names, p)
					}
				}
			}
			wp := wordpiece.NewWordPieceBuilder().Vocab(&vocab).UnkToken(o.unk).ContinuingSubwordPrefix(o.prefix).MaxInputCharsPerWord(o.max).Build()
			p := util.NewParams(map[string]interface{}{"unk_token": o.unk, "continuing_subword_prefix": o.prefix, "max_input_chars_per_word": o.max})
			wp2, err2 := wordpiece.New(vocab, p)
			var wp3 wordpiece.WordPiece
			fromBpe := o.max == 100 // the limit a BPE model has no say in
			if fromBpe {
				b := bpe.NewBpeBuilder()
				bv := model.Vocab{}
				for k, id := range vocab {
					bv[k] = id
				}
				b.VocabAndMerges(bv, bpe.Merges{})
				if o.unk != "[UNK]" || mask&1 == 0 {
					b.UnkToken(o.unk)
				}
				if o.prefix != "##" || mask&2 == 0 {
					b.ContinuingSubwordPrefix(o.prefix)
				}
				m, err := b.Build()
				if err != nil {
					panic(err)
				}
				wp3 = wordpiece.NewWordPieceFromBPE(*m)
			}
			for _, s := range ws {
				key := fmt.Sprintf("vocab=%s %+v word=%q", js(names), o, s)
				w.Case(key, func(t *core.T) {
					want, wantErr := wpRef(vocab, o.unk, o.prefix, o.max, s)
					got, err := wp.Tokenize(s)
					if (err != nil) != wantErr {
						t.Fatalf("error %v, expected error: %v", err, wantErr)
					}
					if !wantErr && !sameToks(got, want, true) {
						t.Fatalf("got %+v want %+v", got, want)
					}
					if err2 != nil {
						t.Fatalf("New: %v", err2)
					}
					got, err = wp2.Tokenize(s)
					if (err != nil) != wantErr || (!wantErr && !sameToks(got, want, true)) {
						t.Fatalf("built from parameters: got %+v (%v) want %+v", got, err, want)
					}
					t.Op(2)
					if fromBpe {
						got, err = wp3.Tokenize(s)
						if (err != nil) != wantErr || (!wantErr && !sameToks(got, want, true)) {
							t.Fatalf("built from a BPE model: got %+v (%v) want %+v", got, err, want)
						}
						t.Op(1)
					}
					if !wantErr {
						t.State(fmt.Sprint(names, o, want))
					}
				})
			}
		})
	}
	// word level
	toks := []string{"a", "é", "aé", "", "日a", "<unk>", "a b"}
	c.Par(1<<len(toks), func(w *core.W, mask int) {
		for _, unk := range []string{"<unk>", "é", "zz"} {
			for build := 0; build < 3; build++ {
				vocab := map[string]int{}
				var names []string
				for i, p := range toks {
					if mask>>i&1 == 1 {
						vocab[p] = len(vocab)
						names = append(names, p)
					}
				}
				want := map[string]int{}
				for k, v := range vocab {
					want[k] = v
				}
				var m *wordlevel.WordLevel
				var err error
				switch build {
				case 0:
					m, err = wordlevel.New(vocab, unk)
				case 1:
					b := wordlevel.NewWordLevelBuilder()
					b.Vocab(vocab)
					b.UnkToken(unk)
					if _, ok := want[unk]; !ok {
						want[unk] = len(want)
					}
					m = b.Build()
				case 2:
					if unk != "<unk>" {
						continue
					}
					b := wordlevel.NewWordLevelBuilder()
					b.Vocab(vocab)
					m = b.Build()
				}
				for _, s := range append(words([]string{"a", "é", "日"}, 0, 3), "<unk>", "zz", "a b", "b") {
					w.Case(fmt.Sprintf("wordlevel vocab=%s unk=%q build=%d word=%q", js(names), unk, build, s), func(t *core.T) {
						if err != nil {
							t.Fatalf("%v", err)
						}
						id, ok := want[s]
						uid, uok := want[unk]
						got, err := m.Tokenize(s)
						if !ok && !uok {
							if err == nil {
								t.Fatalf("no error for unknown word without unknown token: %+v", got)
							}
							return
						}
						if err != nil {
							t.Fatalf("error %v", err)
						}
						if !ok {
							id = uid
						}
						if len(got) != 1 || got[0].Id != id || !eqInts(got[0].Offsets, []int{0, len(s)}) || (got[0].Value != s && (ok || got[0].Value != unk)) {
							t.Fatalf("got %+v want id %d over 0-%d", got, id, len(s))
						}
						gi, gok := m.TokenToId(s)
						if gok != ok || (ok && gi != id) {
							t.Fatalf("TokenToId(%q)=%d,%v want %d,%v", s, gi, gok, id, ok)
						}
						t.Op(2)
						t.State(fmt.Sprint("wl", names, unk, id, s))
					})
				}
				w.Case(fmt.Sprintf("wordlevel vocab=%s unk=%q build=%d lookups", js(names), unk, build), func(t *core.T) {
					for k, v := range want {
						if g, ok := m.IdToToken(v); !ok || g != k {
							t.Errorf("IdToToken(%d)=%q,%v want %q", v, g, ok, k)
						}
					}
					if m.GetVocabSize() != len(want) {
						t.Errorf("size %d want %d", m.GetVocabSize(), len(want))
					}
				})
			}
		}
	})
}

func init() {
	core.Register(&core.Check{ID: "C11", Level: "model_checking", Run: c11,
		Rule:        "every subset of the piece set as WordPiece vocabulary x every word up to the bound (and long words around the length limit) x prefix/limit/unknown options; every word-level vocabulary over 7 words x 3 ways to build it; vocabularies of 130-1100 pieces of up to 300 letters, five limits, words of up to 260 pieces; state = distinct (vocabulary, options, token sequence)",
		Assumptions: []string{"words are valid UTF-8"}})
}
