package props

import (
	"fmt"
	"strings"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

// blMerges is a list of merges over the byte alphabet.
type blMerges [][2]string

func (m blMerges) String() string {
	var s []string
	for _, p := range m {
		s = append(s, p[0]+"+"+p[1])
	}
	return strings.Join(s, " ")
}

// blTok builds a byte-level BPE tokenizer.
func blTok(ms blMerges, prefix, trim bool, post int, added []addedDef) (*tokenizer.Tokenizer, error) {
	vocab := map[string]int{}
	for b := 0; b < 256; b++ {
		vocab[string(byteChar(byte(b)))] = b
	}
	merges := bpe.Merges{}
	for i, m := range ms {
		r := m[0] + m[1]
		id, ok := vocab[r]
		if !ok {
			id = len(vocab)
			vocab[r] = id
		}
		merges[bpe.Pair{C1: vocab[m[0]], C2: vocab[m[1]]}] = bpe.PairVal{Rank: i, NewId: id}
	}
	b := bpe.NewBpeBuilder()
	b.VocabAndMerges(vocab, merges)
	m, err := b.Build()
	if err != nil {
		return nil, err
	}
	tk := tokenizer.NewTokenizer(m)
	bl := pretokenizer.NewByteLevel()
	bl.SetAddPrefixSpace(prefix)
	bl.SetTrimOffsets(trim)
	tk.WithPreTokenizer(bl)
	tk.WithDecoder(bl)
	switch post {
	case 1:
		tk.WithPostProcessor(processor.NewByteLevelProcessing(bl))
	case 2:
		tk.WithPostProcessor(processor.NewRobertaProcessing(processor.PostToken{Value: "</s>", Id: 9001}, processor.PostToken{Value: "<s>", Id: 9000}, trim, prefix))
	}
	for _, a := range added {
		if a.special {
			tk.AddSpecialTokens([]tokenizer.AddedToken{a.tok})
		} else {
			tk.AddTokens([]tokenizer.AddedToken{a.tok})
		}
	}
	return tk, nil
}

func c16Want(text string, prefix bool, added []addedDef) string {
	if text == "" {
		return ""
	}
	var ids []int
	for range added {
		ids = append(ids, 1)
	}
	var b strings.Builder
	for _, p := range c14Ref(text, added, ids, c14Norms()[0]) {
		if p.id < 0 && prefix && p.text[0] != ' ' {
			b.WriteByte(' ')
		}
		b.WriteString(p.text)
	}
	return b.String()
}

func c16Case(tk *tokenizer.Tokenizer, text, want string, t *core.T) {
	en, err := tk.EncodeSingle(text, false)
	if err != nil {
		t.Errorf("%q: %v", text, err)
		return
	}
	if got := tk.Decode(en.Ids, false); got != want {
		t.Errorf("%q: tokens %q decode to %q, want %q", text, en.Tokens, got, want)
	}
	if got := tk.Decode(en.Ids, true); len(en.Ids) > 0 && got != want && !strings.Contains(text, "<s>") {
		t.Errorf("%q: tokens %q decode to %q when special tokens are skipped, want %q", text, en.Tokens, got, want)
	}
	t.Op(2)
}

func c16(c *core.Ctx) {
	c.Par(1, func(w *core.W, _ int) {
		w.Case("byte alphabet", func(t *core.T) {
			seen := map[string]int{}
			al := pretokenizer.NewByteLevel().Alphabet()
			for b := 0; b < 256; b++ {
				s, ok := pretokenizer.BytesChar[uint8(b)]
				if !ok {
					t.Errorf("byte %d has no character", b)
				}
				if o, dup := seen[s]; dup {
					t.Errorf("bytes %d and %d are both %q", o, b, s)
				}
				seen[s] = b
				r := []rune(s)
				if len(r) != 1 || r[0] <= ' ' || (r[0] >= 0x7f && r[0] <= 0xa0) || r[0] == 0xad {
					t.Errorf("byte %d is %q, which is not one printable character", b, s)
				}
				if s != string(byteChar(byte(b))) {
					t.Errorf("byte %d is %q, want %q", b, s, string(byteChar(byte(b))))
				}
				if back, ok := pretokenizer.CharBytes[s]; !ok || int(back) != b {
					t.Errorf("byte %d is %q, which is back %d", b, s, back)
				}
				if _, ok := al[s]; !ok {
					t.Errorf("byte %d missing in the alphabet", b)
				}
				if g := pretokenizer.GenerateBytesChar()[uint8(b)]; g != s {
					t.Errorf("GenerateBytesChar of %d is %q", b, g)
				}
				t.Op(4)
			}
			if len(al) != 256 || len(pretokenizer.BytesChar) != 256 || len(pretokenizer.CharBytes) != 256 {
				t.Errorf("sizes %d %d %d", len(al), len(pretokenizer.BytesChar), len(pretokenizer.CharBytes))
			}
		})
	})
	// merge lists: every list of up to n merges whose parts exist at their time
	cand := [][2]string{{"a", "b"}, {"Ġ", "a"}, {"Ã", "©"}, {"a", "Ã"}, {"Ġa", "b"}, {"æ", "Ĺ"}, {"Ġ", "Ġ"}, {"ab", "Ã©"}, {"ð", "Ł"}, {"©", "Ġ"}, {"'", "s"}}
	var lists []blMerges
	var grow func(cur blMerges, n int)
	grow = func(cur blMerges, n int) {
		lists = append(lists, append(blMerges{}, cur...))
		if n == 0 {
			return
		}
	next:
		for _, m := range cand {
			have := map[string]bool{}
			for _, x := range cur {
				if x == m {
					continue next
				}
				have[x[0]+x[1]] = true
			}
			for _, p := range m {
				if len([]rune(p)) > 1 && !have[p] {
					continue next
				}
			}
			grow(append(cur, m), n-1)
		}
	}
	grow(nil, core.Pick(c, 2, 3))
	syms := []string{"a", "b", " ", "é", "日", "😀", "'s", "1", "\n", ".", "\u0301"}
	texts := words(syms, 0, core.Pick(c, 3, 4))
	short := words(syms, 0, core.Pick(c, 2, 3))
	longer := []string{"The quick  brown fox's   jumps\n\n over 12 lazy dogs. ", "  ", "\t\tfoo", "a\u00a0b\u3000c\u2028d", "né à l’été 日本語 テスト한국어 ру́сский עברית العربية हिन्दी ไทย", "👨‍👩‍👧‍👦🇫🇷", "\x00\x01\x7f\u0080\u00ad\u009f", "ĠÃ©Ġa", "x\r\ny", strings.Repeat("ab é", 40), strings.Repeat(" ", 50), strings.Repeat("aébab", 60), strings.Repeat("aé日😀", core.Pick(c, 130, 600))}
	added := [][]addedDef{nil, {{tokenizer.NewAddedToken("<s>", true), true}, {tokenizer.NewAddedToken("my tok", false), false}, {tokenizer.NewAddedToken("日", false), false}}}
	at := append(words([]string{"a", " ", "é", "<s>", "my tok", "日"}, 0, core.Pick(c, 4, 5)), longer...)
	c.Par(len(lists), func(w *core.W, i int) {
		if c.TimeUp() {
			return
		}
		for _, prefix := range []bool{false, true} {
			for post := 0; post < 3; post++ {
				if post > 0 && i%10 != 0 {
					continue
				}
				for _, trim := range []bool{false, true} {
					if trim && post == 0 {
						continue
					}
					for k, ad := range added {
						ts := append(short[:len(short):len(short)], longer...)
						if len(lists[i]) < core.Pick(c, 2, 3) && post == 0 {
							ts = append(texts[:len(texts):len(texts)], longer...)
						}
						if k > 0 {
							if i%10 != 0 {
								continue
							}
							ts = at
						}
						w.Case(fmt.Sprintf("merges [%v] prefix=%v trim=%v post=%d added=%d", lists[i], prefix, trim, post, k), func(t *core.T) {
							tk, err := blTok(lists[i], prefix, trim, post, ad)
							if err != nil {
								t.Fatalf("%v", err)
							}
							for _, tx := range ts {
								c16Case(tk, tx, c16Want(tx, prefix, ad), t)
							}
							t.State(fmt.Sprint(lists[i], prefix, trim, post, k))
						})
					}
				}
			}
		}
	})
	// every character there is, alone and after a letter
	const block = 1024
	c.Par(0x110000/block, func(w *core.W, i int) {
		if i*block >= 0xD800 && i*block < 0xE000 || c.TimeUp() {
			return
		}
		w.Case(fmt.Sprintf("characters %#x..%#x", i*block, (i+1)*block-1), func(t *core.T) {
			tk, err := blTok(blMerges{{"a", "b"}, {"Ġ", "a"}, {"Ã", "©"}}, i%2 == 0, false, 0, nil)
			if err != nil {
				t.Fatalf("%v", err)
			}
			for r := i * block; r < (i+1)*block; r++ {
				if r >= 0x3000 && !c.Thorough() {
					if r%32 != 0 {
						continue
					}
					var b strings.Builder
					for k := r; k < r+32; k++ {
						b.WriteRune(rune(k))
					}
					tx := b.String()
					c16Case(tk, tx, c16Want(tx, i%2 == 0, nil), t)
					continue
				}
				tx := string(rune(r))
				c16Case(tk, tx, c16Want(tx, i%2 == 0, nil), t)
				if c.Thorough() || r < 0x3000 {
					tx = "a" + tx + tx + " b"
					c16Case(tk, tx, c16Want(tx, i%2 == 0, nil), t)
				}
			}
			t.State(i)
		})
	})
}

func init() {
	core.Register(&core.Check{
		ID: "C16", Level: "model_checking",
		Rule:        "the byte alphabet on all 256 bytes; encode and decode with byte-level BPE for every list of merges up to the bound over 11 merges (including ones across character boundaries and of merged results), with and without prefix space, trimming, byte-level and Roberta post-processing and added tokens, on every text up to the length bound over 11 symbols of one to four bytes and on long texts; every Unicode character, below U+3000 (thorough: all) alone and between letters, otherwise in texts of 32 characters",
		Run:         c16,
		Assumptions: []string{"texts are valid UTF-8", "with a prefix space configured, one space stands before every stretch between added tokens that does not begin with one"},
	})
}
