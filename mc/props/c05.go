package props

import (
	"fmt"
	"strings"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

func init() {
	core.Register(&core.Check{ID: "C05", Level: "model_checking",
		Rule:        "part 1: Encoding.Truncate for every token count, maximum, stride and layout (words or none, sequence layouts, spare capacity) in bounds; part 2: Tokenizer.Encode with truncation for every pair of token counts (or single), maximum, stride, strategy, post-processor and special-token flag in bounds; every kept encoding and overflowing part is compared token by token, all fields, with the windows of the definition framed by the scheme. Non-trivial: something was truncated.",
		Run:         c05,
		Assumptions: []string{"Overflowing parts of a pair are the combinations of the windows of both sides; their order is not judged.", "When the strategy cannot meet the maximum (a side would get no tokens, or no more than the stride), an error is the required answer.", "LongestFirst may take from either side while both are equally long."}})
}

// c05tok makes a word-level tokenizer over words w0..wN (ids 10..) and x0.. (ids 100..).
func c05tok() *tokenizer.Tokenizer {
	v := map[string]int{"[UNK]": 0, "[CLS]": 1, "[SEP]": 2, "[PAD]": 3}
	for i := 0; i < 700; i++ {
		v[fmt.Sprintf("w%d", i)] = 10 + i
		v[fmt.Sprintf("x%d", i)] = 1000 + i
	}
	b := wordlevel.NewWordLevelBuilder()
	b.Vocab(v)
	b.UnkToken("[UNK]")
	tk := tokenizer.NewTokenizer(b.Build())
	tk.WithPreTokenizer(pretokenizer.NewWhitespaceSplit())
	return tk
}

// wordsText is the text of n words and the records of its tokens.
func wordsText(p string, base, n, typ, seq int) (string, []rtok) {
	var sb strings.Builder
	var out []rtok
	for i := 0; i < n; i++ {
		if i > 0 {
			sb.WriteByte(' ')
		}
		w := fmt.Sprintf("%s%d", p, i)
		s := sb.Len()
		sb.WriteString(w)
		out = append(out, rtok{id: base + i, typ: typ, tok: w, s: s, e: sb.Len(), at: 1, w: i, seq: seq})
	}
	return sb.String(), out
}

func special(tok string, id, typ int) rtok {
	return rtok{id: id, typ: typ, tok: tok, sp: 1, at: 1, w: -1, seq: -1}
}

// scheme frames content: b is nil for a single sequence.
type scheme struct {
	name  string
	proc  tokenizer.PostProcessor
	frame func(a, b []rtok, pair bool) []rtok
	added func(pair bool) int
}

func cat(parts ...[]rtok) []rtok {
	var out []rtok
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func plainFrame(a, b []rtok, pair bool) []rtok { return cat(a, b) }

func schemes() []scheme {
	cls, sep := processor.PostToken{Value: "[CLS]", Id: 1}, processor.PostToken{Value: "[SEP]", Id: 2}
	one := func(t string, id, typ int) []rtok { return []rtok{special(t, id, typ)} }
	bert := func(a, b []rtok, pair bool) []rtok {
		out := cat(one("[CLS]", 1, 0), a, one("[SEP]", 2, 0))
		if pair {
			out = cat(out, b, one("[SEP]", 2, 1))
		}
		return out
	}
	roberta := func(a, b []rtok, pair bool) []rtok {
		out := cat(one("[CLS]", 1, 0), a, one("[SEP]", 2, 0))
		if pair {
			out = cat(out, one("[SEP]", 2, 1), b, one("[SEP]", 2, 1))
		}
		return out
	}
	n := func(s, p int) func(bool) int {
		return func(pair bool) int { return core.If(pair, p, s) }
	}
	tpl := func(single, pair string) tokenizer.PostProcessor {
		s, err := processor.NewTemplateFromOne(single)
		if err != nil {
			panic(err)
		}
		p, err := processor.NewTemplateFromOne(pair)
		if err != nil {
			panic(err)
		}
		return processor.NewTemplateProcessing(s, p, processor.NewTokens([]tokenizer.Token{{Value: "[CLS]", Id: 1}, {Value: "[SEP]", Id: 2}}))
	}
	return []scheme{
		{"none", nil, plainFrame, n(0, 0)},
		{"bert", processor.NewBertProcessing(sep, cls), bert, n(2, 3)},
		{"roberta", processor.NewRobertaProcessing(sep, cls, false, false), roberta, n(2, 4)},
		{"template", tpl("[CLS] $A [SEP]", "[CLS] $A [SEP] $B:1 [SEP]:1"), bert, n(2, 3)},
		{"sequence", processor.NewSequence([]tokenizer.PostProcessor{processor.NewByteLevelProcessing(&pretokenizer.ByteLevel{TrimOffsets: true}), tpl("[CLS] $A [SEP]", "[CLS] $A [SEP] $B:1 [SEP]:1")}), bert, n(2, 3)},
		{"bytelevel", processor.NewByteLevelProcessing(&pretokenizer.ByteLevel{TrimOffsets: true}), plainFrame, n(0, 0)},
	}
}

// truncated gives the allowed outcomes (windows of a and of b) for a budget; no
// outcome means an error.
func truncated(a, b []rtok, pair bool, budget, stride int, st tokenizer.TruncationStrategy) (out [][2][][]rtok) {
	if budget < 0 {
		return nil
	}
	total := len(a) + len(b)
	if total <= budget {
		return [][2][][]rtok{{{a}, {b}}}
	}
	var lens [][2]int
	rm := total - budget
	switch st {
	case tokenizer.OnlyFirst:
		lens = append(lens, [2]int{len(a) - rm, len(b)})
	case tokenizer.OnlySecond:
		if pair {
			lens = append(lens, [2]int{len(a), len(b) - rm})
		}
	case tokenizer.LongestFirst:
		for _, firstOnTie := range []bool{false, true} {
			x, y := len(a), len(b)
			for i := 0; i < rm; i++ {
				if x > y || x == y && firstOnTie {
					x--
				} else {
					y--
				}
			}
			lens = append(lens, [2]int{x, y})
		}
	}
	for _, l := range lens {
		ok := true
		for i, n := range []int{len(a), len(b)} {
			if l[i] < n && (l[i] <= 0 || l[i] <= stride) {
				ok = false
			}
		}
		if ok {
			out = append(out, [2][][]rtok{windows(a, l[0], stride), windows(b, l[1], stride)})
		}
	}
	return out
}

func c05(c *core.Ctx) {
	// part 1: the operation itself
	maxN := core.Pick(c, 9, 16)
	var ns []int
	for n := 0; n <= maxN; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 33, 130, 300, 700)
	c.Par(len(ns), func(w *core.W, i int) {
		n := ns[i]
		for layout := 0; layout < 4; layout++ {
			for _, noWords := range []bool{false, true} {
				for _, spare := range []int{0, 4} {
					for max := -1; max <= n+2; max++ {
						if n > maxN && max > 3 && max < n-3 && max != n/2 && max != n/3 && max != n/2+1 && max != 128 {
							continue
						}
						for stride := -1; stride <= max+1; stride++ {
							if n > maxN && stride > 1 && stride < max-2 && stride != max/2 {
								continue
							}
							key := fmt.Sprintf("truncate n=%d layout=%d nowords=%v spare=%d max=%d stride=%d", n, layout, noWords, spare, max, stride)
							w.Case(key, func(t *core.T) {
								rs := mkToks(10, n, 0, -1)
								for k := range rs {
									switch layout {
									case 1:
										rs[k].seq = 0
									case 2: // special, first, special, second
										if k != 0 && k != (n+1)/2 {
											rs[k].seq = core.If(k < (n+1)/2, 0, 1)
										} else {
											rs[k].sp, rs[k].w = 1, -1
										}
									case 3:
										rs[k].seq, rs[k].at, rs[k].typ = core.If(k%3 == 2, 1, 0), core.If(k%2 == 0, 1, 0), k
									}
								}
								if noWords {
									rs = noWordsIn(rs)
								}
								e := encOf(rs, noWords, spare)
								before := *e
								implicit := -1
								got, err := e.Truncate(max, stride)
								t.Op(1)
								fits := n <= max
								bad := max <= 0 || stride < 0 || stride >= max
								t.State(key)
								if fits {
									if bad && err != nil { // invalid parameters may be refused
										return
									}
									if err != nil {
										t.Fatalf("fits, yet: %v", err)
									}
									checkEnc(t, "untouched", got, rs, noWords, implicit)
									if len(got.Overflowing) != 0 {
										t.Errorf("overflow of an encoding that fits")
									}
									// one that has overflowing parts already keeps them
									e.Overflowing = []tokenizer.Encoding{*encOf(rs, noWords, 0), *encOf(mkToks(50, 2, 0, -1), noWords, 0)}
									if got, err = e.Truncate(max, stride); err != nil {
										t.Fatalf("fits, yet: %v", err)
									}
									checkEnc(t, "untouched", got, rs, noWords, implicit)
									if len(got.Overflowing) != 2 {
										t.Fatalf("%d overflowing parts of an encoding that fits, it had 2", len(got.Overflowing))
									}
									checkEnc(t, "untouched part", &got.Overflowing[0], rs, noWords, implicit)
									return
								}
								if bad {
									if err == nil {
										t.Errorf("no error for max %d stride %d", max, stride)
									}
									return
								}
								if err != nil {
									t.Fatalf("error: %v", err)
								}
								win := windows(rs, max, stride)
								check := func(when string) {
									for k := range win {
										x := got
										if k > 0 {
											x = &got.Overflowing[k-1]
										}
										if layout > 0 && len(x.SequenceRanges) == 0 {
											// a window may hold no token of any sequence
											for _, r := range win[k] {
												if r.seq >= 0 {
													t.Errorf("%swindow %d lost its sequences", when, k)
												}
											}
										}
										checkEnc(t, fmt.Sprintf("%swindow %d", when, k), x, win[k], noWords, implicit)
									}
								}
								if len(got.Overflowing) != len(win)-1 {
									t.Fatalf("%d parts, want %d", len(got.Overflowing), len(win)-1)
								}
								check("")
								if !spareOK(before, spare) {
									t.Errorf("wrote behind the encoding")
								}
								// windows are independent of each other: growing any of them leaves the rest
								for k := range win {
									x := *got
									if k > 0 {
										x = got.Overflowing[k-1]
									}
									x.Ids = append(x.Ids, -1)
									x.TypeIds = append(x.TypeIds, -1)
									x.Tokens = append(x.Tokens, "grown")
									x.Offsets = append(x.Offsets, []int{-1, -1})
									x.SpecialTokenMask = append(x.SpecialTokenMask, -1)
									x.AttentionMask = append(x.AttentionMask, -1)
									x.Words = append(x.Words, -1)
								}
								check("after growing others: ")
							})
						}
					}
				}
			}
		}
	})

	// part 2: the pipeline
	sch := schemes()
	maxA, maxB := core.Pick(c, 5, 7), core.Pick(c, 4, 6)
	maxLen := core.Pick(c, 10, 14)
	type cfg struct{ s, na, nb int }
	var cfgs []cfg
	for s := range sch {
		for na := 0; na <= maxA; na++ {
			for nb := -1; nb <= maxB; nb++ {
				cfgs = append(cfgs, cfg{s, na, nb})
			}
		}
	}
	// long ones
	for s := range sch {
		cfgs = append(cfgs, cfg{s, 70, 40}, cfg{s, 20, 150}, cfg{s, 140, -1}, cfg{s, 300, 5})
	}
	tks := make([]*tokenizer.Tokenizer, len(cfgs))
	c.Par(len(cfgs), func(w *core.W, i int) {
		g := cfgs[i]
		sc := sch[g.s]
		tk := c05tok()
		tks[i] = tk
		if sc.proc != nil {
			tk.WithPostProcessor(sc.proc)
		}
		pair := g.nb >= 0
		ta, a := wordsText("w", 10, g.na, 0, 0)
		tb, b := wordsText("x", 1000, max(g.nb, 0), 1, 1)
		for _, st := range []tokenizer.TruncationStrategy{tokenizer.LongestFirst, tokenizer.OnlyFirst, tokenizer.OnlySecond} {
			long := g.na+g.nb > 100
			for ml := 1; ml <= core.If(long, 200, maxLen); ml++ {
				if long && !(ml == 8 || ml == 65 || ml == 100 || ml == 128 || ml == 200) {
					continue
				}
				for stride := 0; stride <= core.Pick(c, 3, 4); stride++ {
					for _, add := range []bool{true, false} {
						key := fmt.Sprintf("encode %s na=%d nb=%d strategy=%d max=%d stride=%d special=%v", sc.name, g.na, g.nb, st, ml, stride, add)
						w.Case(key, func(t *core.T) {
							tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: ml, Strategy: st, Stride: stride})
							var in tokenizer.EncodeInput = tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(ta))
							if pair {
								in = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(ta), tokenizer.NewInputSequence(tb))
							}
							en, err := tk.Encode(in, add)
							t.Op(1)
							budget, frame := ml, plainFrame
							if add {
								budget, frame = ml-sc.added(pair), sc.frame
							}
							outs := truncated(a, b, pair, budget, stride, st)
							t.State(key)
							if len(outs) == 0 {
								if err == nil {
									t.Errorf("no error, though the maximum cannot be met; got %d tokens", en.Len())
								}
								return
							}
							if err != nil {
								// with equally long sides one choice may fail where the other would not
								if len(outs) == 1 && len(truncLens(st)) == 2 {
									return
								}
								t.Fatalf("error: %v", err)
							}
							var msgs []string
							for _, o := range outs {
								m := diffPair(en, o[0], o[1], pair, frame)
								if m == "" {
									if g.na+max(g.nb, 0) > budget {
										c.Count("truncated", 1)
									}
									return
								}
								msgs = append(msgs, m)
							}
							t.Errorf("%s", msgs[0])
						})
					}
				}
			}
		}
	})
}

// truncLens: LongestFirst has two choices on ties.
func truncLens(st tokenizer.TruncationStrategy) []int {
	if st == tokenizer.LongestFirst {
		return []int{0, 1}
	}
	return []int{0}
}

// diffPair compares a processed encoding with all combinations of windows.
func diffPair(en *tokenizer.Encoding, wa, wb [][]rtok, pair bool, frame func(a, b []rtok, pair bool) []rtok) string {
	// without sequence ranges there is one sequence, unless there is no content at all
	implicit := core.If(pair || len(wa[0]) == 0, -1, 0)
	got, err := readEnc(en, false, implicit)
	if err != nil {
		return err.Error()
	}
	if want := frame(wa[0], wb[0], pair); !eqToks(got, want) {
		return fmt.Sprintf("encoding:\n got  %s\n want %s", showToks(got), showToks(want))
	}
	want := map[string]int{}
	n := 0
	for i := range wa {
		for j := range wb {
			if i+j > 0 {
				want[showToks(frame(wa[i], wb[j], pair))]++
				n++
			}
		}
	}
	for k := range en.Overflowing {
		p, err := readEnc(&en.Overflowing[k], false, implicit)
		if err != nil {
			return fmt.Sprintf("part %d: %v", k, err)
		}
		s := showToks(p)
		if want[s] == 0 {
			return fmt.Sprintf("unexpected overflowing part %s", s)
		}
		want[s]--
	}
	if len(en.Overflowing) != n {
		return fmt.Sprintf("%d overflowing parts, want %d", len(en.Overflowing), n)
	}
	return ""
}
