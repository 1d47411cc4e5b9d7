package props

import (
	"fmt"
	"strings"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

type backDef struct {
	name  string
	post  func(cls, sep, mid int) tokenizer.PostProcessor
	trunc *tokenizer.TruncationParams
	pad   func(id int) *tokenizer.PaddingParams
	room  bool // nothing can be too short to be truncated
}

func (b backDef) String() string { return b.name }

func c01Backs() []backDef {
	type N = tokenizer.PostProcessor
	var posts []struct {
		name string
		mk   func(cls, sep, mid int) N
	}
	addP := func(name string, mk func(cls, sep, mid int) N) {
		posts = append(posts, struct {
			name string
			mk   func(cls, sep, mid int) N
		}{name, mk})
	}
	pt := func(v string, id int) processor.PostToken { return processor.PostToken{Value: v, Id: id} }
	tpl := func(s, p string, cls, sep, mid int) N {
		a, err := processor.NewTemplateFromOne(s)
		if err != nil {
			panic(err)
		}
		b, err := processor.NewTemplateFromOne(p)
		if err != nil {
			panic(err)
		}
		return processor.NewTemplateProcessing(a, b, processor.NewTokens([]tokenizer.Token{{Value: "[CLS]", Id: cls}, {Value: "[SEP]", Id: sep}, {Value: "[MID]", Id: mid}}))
	}
	addP("none", func(cls, sep, mid int) N { return nil })
	addP("bert", func(cls, sep, mid int) N { return processor.NewBertProcessing(pt("[SEP]", sep), pt("[CLS]", cls)) })
	addP("roberta", func(cls, sep, mid int) N {
		return processor.NewRobertaProcessing(pt("[SEP]", sep), pt("[CLS]", cls), true, true)
	})
	addP("template", func(cls, sep, mid int) N {
		return tpl("[CLS] $A [SEP]", "[CLS] $A [SEP] $B:1 [MID]:1", cls, sep, mid)
	})
	addP("template2", func(cls, sep, mid int) N { return tpl("$A", "$B [MID] $A", cls, sep, mid) })
	addP("bytelevel", func(cls, sep, mid int) N { return processor.NewByteLevelProcessing(pretokenizer.NewByteLevel()) })
	addP("sequence", func(cls, sep, mid int) N {
		return processor.NewSequence([]tokenizer.PostProcessor{processor.NewByteLevelProcessing(pretokenizer.NewByteLevel()), tpl("[CLS] $A", "[CLS] $A [SEP] $B", cls, sep, mid)})
	})
	var out []backDef
	type tr struct {
		name string
		p    *tokenizer.TruncationParams
	}
	trs := []tr{{"-", nil}}
	for _, m := range []int{4, 5, 7} {
		for si, s := range []tokenizer.TruncationStrategy{tokenizer.LongestFirst, tokenizer.OnlyFirst, tokenizer.OnlySecond} {
			trs = append(trs, tr{fmt.Sprintf("%d/%d", m, si), &tokenizer.TruncationParams{MaxLength: m, Strategy: s, Stride: m % 2}})
		}
	}
	type pd struct {
		name string
		mk   func(id int) *tokenizer.PaddingParams
	}
	pads := []pd{{"-", func(int) *tokenizer.PaddingParams { return nil }}}
	for i := 0; i < 4; i++ {
		pads = append(pads, pd{fmt.Sprint(i), func(id int) *tokenizer.PaddingParams {
			st := tokenizer.PaddingStrategy(*tokenizer.NewPaddingStrategy())
			if i&1 != 0 {
				st = *tokenizer.NewPaddingStrategy(tokenizer.WithFixed(9))
			}
			return &tokenizer.PaddingParams{Strategy: st, Direction: core.If(i&2 != 0, tokenizer.Left, tokenizer.Right), PadId: id, PadTypeId: 3, PadToken: "[PAD]"}
		}})
	}
	for _, p := range posts {
		for _, t := range trs {
			for _, d := range pads {
				out = append(out, backDef{name: fmt.Sprintf("post=%s trunc=%s pad=%s", p.name, t.name, d.name), post: p.mk, trunc: t.p, pad: d.mk})
			}
		}
	}
	return out
}

// encShape checks that all per-token data have one entry per token, in the
// encoding and all its overflowing parts.
func encShape(t *core.T, what string, e *tokenizer.Encoding, tk *tokenizer.Tokenizer, free map[int]bool, depth int) {
	n := len(e.Ids)
	for _, x := range []struct {
		name string
		l    int
	}{{"tokens", len(e.Tokens)}, {"type ids", len(e.TypeIds)}, {"offsets", len(e.Offsets)}, {"special mask", len(e.SpecialTokenMask)}, {"attention mask", len(e.AttentionMask)}, {"words", len(e.Words)}} {
		if x.l != n {
			t.Errorf("%s: %d ids but %d %s (overflow depth %d)", what, n, x.l, x.name, depth)
			return
		}
	}
	if e.Len() != n || len(e.GetIds()) != n || len(e.GetTokens()) != n || len(e.GetTypeIds()) != n || len(e.GetOffsets()) != n || len(e.GetSpecialTokenMask()) != n || len(e.GetAttentionMask()) != n || len(e.GetWords()) != n {
		t.Errorf("%s: readers disagree on the length %d", what, n)
	}
	for i, o := range e.Offsets {
		if len(o) != 2 {
			t.Errorf("%s: offsets %v", what, o)
		}
		if m := e.SpecialTokenMask[i]; m != 0 && m != 1 {
			t.Errorf("%s: special mask %v", what, e.SpecialTokenMask)
		}
		if m := e.AttentionMask[i]; m != 0 && m != 1 {
			t.Errorf("%s: attention mask %v", what, e.AttentionMask)
		}
		if e.Words[i] < -1 {
			t.Errorf("%s: words %v", what, e.Words)
		}
		if free[e.Ids[i]] {
			continue
		}
		id, ok := tk.TokenToId(e.Tokens[i])
		tok, ok2 := tk.IdToToken(e.Ids[i])
		if !ok || !ok2 || id != e.Ids[i] || tok != e.Tokens[i] {
			t.Errorf("%s: token %q has id %d, but the lookups say %d %v and %q %v", what, e.Tokens[i], e.Ids[i], id, ok, tok, ok2)
		}
	}
	for s, r := range e.SequenceRanges {
		for _, i := range r {
			if i < 0 || i >= n {
				t.Errorf("%s: sequence %d has tokens %v of %d", what, s, r, n)
			}
		}
	}
	for i := range e.Overflowing {
		encShape(t, what, &e.Overflowing[i], tk, free, depth+1)
	}
}

// c01FromTokens builds encodings from all short lists of tokens, and from long ones.
func c01FromTokens(w *core.W) {
	pool := []tokenizer.Token{{Id: 0, Value: "", Offsets: []int{0, 0}}, {Id: 7, Value: "a", Offsets: []int{0, 1}}, {Id: 3, Value: "日本", Offsets: []int{1, 7}}, {Id: 3, Value: "日本", Offsets: []int{2, 8}}}
	lists := seqs(len(pool), 0, 4)
	for _, n := range []int{63, 64, 65, 1030} {
		l := make([]int, n)
		for i := range l {
			l[i] = i * i % len(pool)
		}
		lists = append(lists, l)
	}
	w.Case("encodings from tokens", func(t *core.T) {
		for _, l := range lists {
			for _, typeId := range []int{0, 1, 5} {
				var toks []tokenizer.Token
				for _, i := range l {
					toks = append(toks, pool[i])
				}
				en := tokenizer.NewEncodingFromTokens(toks, typeId)
				t.Op(1)
				what := fmt.Sprintf("%d tokens, type id %d, first %v", len(l), typeId, l[:min(len(l), 5)])
				n := len(toks)
				if len(en.Ids) != n || len(en.Tokens) != n || len(en.TypeIds) != n || len(en.Offsets) != n || len(en.SpecialTokenMask) != n || len(en.AttentionMask) != n || len(en.Overflowing) != 0 || en.Len() != n || en.IsEmpty() != (n == 0) {
					t.Errorf("%s: lengths of %+v", what, *en)
					continue
				}
				for i, tk := range toks {
					if en.Ids[i] != tk.Id || en.Tokens[i] != tk.Value || !eqInts(en.Offsets[i], tk.Offsets) || en.TypeIds[i] != typeId || en.SpecialTokenMask[i] != 0 || en.AttentionMask[i] != 1 {
						t.Errorf("%s: token %d is #%d %q %v type %d special %d attention %d", what, i, en.Ids[i], en.Tokens[i], en.Offsets[i], en.TypeIds[i], en.SpecialTokenMask[i], en.AttentionMask[i])
						break
					}
				}
			}
		}
		t.State("encodings from tokens")
	})
}

func c01(c *core.Ctx) {
	c01FromTokens(c.Seq())
	norms, pres, models, added := anorms(), pipePres(), pipeModels(), pipeAdded()
	backs := c01Backs()
	var pipes []pipe
	for _, n := range norms {
		for _, pr := range pres {
			for _, m := range models {
				for _, a := range added {
					pipes = append(pipes, pipe{n, a, pr, m})
				}
			}
		}
	}
	inputs := []any{"", " ", "a", "é", "aé 日b", "ab ab ab ab", "  B é ", "<s>a Bé É日", "日日日", "x\x00😀", "½.b, c!é1", []string{}, []string{""}, []string{"ab", "é 日"}, []string{"", "a", "", "<s>b"}}
	long := []any{strings.Repeat("abé 日B ", core.Pick(c, 20, 60)) + "<s>" + strings.Repeat("a", 150), strings.Fields(strings.Repeat("a é日 <s> bB ", 75)), strings.Repeat("日", 300)}
	type job struct {
		p pipe
		b []backDef
	}
	var jobs []job
	for i, p := range pipes {
		if !c.Thorough() && (i+i/3+i/21)%3 != 0 {
			continue // one of the three sets of added tokens, in turn
		}
		var bs []backDef
		for k := 0; k < core.Pick(c, 1, 12); k++ {
			bs = append(bs, backs[(i*131+k*37)%len(backs)])
		}
		if i%core.Pick(c, 756, 97) == 0 {
			bs = backs
		}
		for len(bs) > 0 {
			n := min(len(bs), 5)
			jobs = append(jobs, job{p, bs[:n]})
			bs = bs[n:]
		}
	}
	c.Par(len(jobs), func(w *core.W, i int) {
		if c.TimeUp() {
			return
		}
		j := jobs[i]
		w.Case(fmt.Sprintf("%v %v..", j.p, j.b[0]), func(t *core.T) {
			tk, ids := j.p.build()
			tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[CLS]", true), tokenizer.NewAddedToken("[SEP]", true), tokenizer.NewAddedToken("[MID]", true), tokenizer.NewAddedToken("[PAD]", true)})
			id := func(s string) int { k, _ := tk.TokenToId(s); return k }
			free := map[int]bool{}
			for _, x := range ids {
				free[x] = true // written as they stand in the text
			}
			for _, u := range []string{"[UNK]", "<u>", "<unk>"} {
				if k, ok := tk.TokenToId(u); ok {
					free[k] = true
				}
			}
			for _, b := range j.b {
				tk.WithPostProcessor(b.post(id("[CLS]"), id("[SEP]"), id("[MID]")))
				if p := b.post(1, 2, 3); p == nil {
					tk.WithPostProcessor(nil)
				}
				tk.WithTruncation(b.trunc)
				tk.WithPadding(b.pad(id("[PAD]")))
				var batch []tokenizer.EncodeInput
				ins := inputs
				if b.trunc == nil || b.trunc.MaxLength > 4 && i%7 == 0 {
					ins = append(inputs[:len(inputs):len(inputs)], long[i%len(long)])
				}
				for xi, x := range ins {
					ys := append([]any{nil}, inputs...)
					if xi == len(inputs) {
						ys = []any{nil, inputs[4]}
					} else if !c.Thorough() {
						ys = []any{nil, inputs[(xi+1)%len(inputs)], inputs[(xi+6)%len(inputs)]}
					}
					for _, y := range ys {
						in := tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(x))
						if y != nil {
							in = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(x), tokenizer.NewInputSequence(y))
						}
						for f := 0; f < 4; f++ {
							if f == 3 && b.trunc != nil {
								continue
							}
							var en *tokenizer.Encoding
							var err error
							if f < 2 {
								en, err = tk.Encode(in, f == 1)
							} else {
								en, err = tk.EncodeCharOffsets(in, f == 2)
							}
							what := fmt.Sprintf("%v: %q %q special=%v", b, x, y, f == 1 || f == 2)
							t.Op(1)
							if err != nil {
								if b.trunc == nil {
									t.Errorf("%s: %v", what, err)
								}
								continue
							}
							encShape(t, what, en, tk, free, 0)
						}
						batch = append(batch, in)
					}
				}
				if b.trunc == nil || b.trunc.Strategy == tokenizer.LongestFirst {
					es, err := tk.EncodeBatch(batch[:20], false)
					if err != nil {
						t.Errorf("%v batch: %v", b, err)
					}
					for k := range es {
						encShape(t, fmt.Sprintf("%v batch member %d", b, k), &es[k], tk, free, 0)
					}
				}
				t.State(fmt.Sprint(j.p, b))
			}
		})
	})
}

func init() {
	core.Register(&core.Check{
		ID: "C01", Level: "model_checking",
		Rule:        "combinations of 12 normalizers, 18 pre-tokenizers, 7 models, 3 sets of added tokens with (several of, or for some fronts all of) 350 back ends (7 post-processors x 10 truncations x 5 paddings), on 15 raw and pre-tokenized inputs and three of hundreds of characters or words, single and in pairs (thorough: all pairs), with and without special tokens, byte and character offsets, and batches: lengths of all per-token data of the encoding and of all (nested) overflowing parts, masks, token positions of sequences, agreement of ids and tokens with the tokenizer's lookups; and NewEncodingFromTokens on all lists of up to 4 of 4 tokens and four of 63-1030, three type ids: all fields",
		Run:         c01,
		Assumptions: []string{"unknown tokens carry the text or the unknown token's name, added tokens the text they matched: for both the id is not compared with the token's text"},
	})
}
