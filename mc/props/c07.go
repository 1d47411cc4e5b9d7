package props

import (
	"fmt"
	"strings"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

func init() {
	core.Register(&core.Check{ID: "C07", Level: "model_checking",
		Rule:        "part 1: every post-processor (Bert, Roberta, byte-level, templates from a grammar of pieces, sequences of them, none) on every single or pair encoding with content lengths and overflow shapes in bounds, special tokens asked for or not; main encoding and all overflowing parts compared token by token with the frame of the scheme, announced and actual number of added tokens compared. Framing and trimming members in sequences, nested too; contents of up to 1030 tokens, 300 parts, special pieces of 70 tokens. Part 2: offset trimming of byte-level and Roberta on every token list over an alphabet of space-carrying tokens. Non-trivial: special tokens were added or offsets trimmed.",
		Run:         c07,
		Assumptions: []string{"Bert: 0 for the first sequence with its special tokens, 1 for the second with its closing token; Roberta here: 1 for both special tokens around the second. Content keeps the type ids it came with, except where a template gives them.", "A template's type ids are not applied to overflowing parts (pinned by TestTemplateProcessingOverflowing); parts are checked for templates that give each sequence the type id it came with, the rest is a known finding.", "The first token of an overflowing part is trimmed like a first token."}})
}

// tplPiece is one piece of a template.
type tplPiece struct {
	kind int // 0 A, 1 B, 2 special
	name string
	typ  int
	toks []rtok
}

func (p tplPiece) String() string {
	switch p.kind {
	case 0:
		return fmt.Sprintf("$A:%d", p.typ)
	case 1:
		return fmt.Sprintf("$B:%d", p.typ)
	}
	return fmt.Sprintf("%s:%d", p.name, p.typ)
}

func tplFrame(ps []tplPiece, a, b []rtok, setTypes bool) []rtok {
	var out []rtok
	for _, p := range ps {
		switch p.kind {
		case 0, 1:
			src := a
			if p.kind == 1 {
				src = b
			}
			for _, r := range src {
				if setTypes {
					r.typ = p.typ
				}
				out = append(out, r)
			}
		default:
			for _, r := range p.toks {
				r.typ = p.typ
				out = append(out, r)
			}
		}
	}
	return out
}

func c07(c *core.Ctx) {
	sp := func(name string, typ int) tplPiece {
		m := map[string][]rtok{"[CLS]": {special("[CLS]", 1, 0)}, "[SEP]": {special("[SEP]", 2, 0)}, "<m>": {special("m1", 5, 0), special("m2", 6, 0)}}
		return tplPiece{2, name, typ, m[name]}
	}
	many := []rtok{}
	var mIds []int
	var mToks []string
	for i := 0; i < 70; i++ {
		many = append(many, special(fmt.Sprintf("m%d", i), 5000+i, 0))
		mIds, mToks = append(mIds, 5000+i), append(mToks, fmt.Sprintf("m%d", i))
	}
	tokens := processor.NewTokensFrom([]processor.SpecialToken{
		*processor.NewSpecialTokenFrom("[CLS]", 1), *processor.NewSpecialTokenFrom("[SEP]", 2),
		*processor.NewSpecialToken("<m>", []int{5, 6}, []string{"m1", "m2"}), *processor.NewSpecialToken("<70>", mIds, mToks)})
	type proc struct {
		name    string
		mk      func() tokenizer.PostProcessor
		frame   func(a, b []rtok, pair, main bool) []rtok
		added   func(pair bool) int
		partsOK func(pair bool) bool // parts follow the definition
	}
	always := func(bool) bool { return true }
	var procs []proc
	for _, s := range schemes() {
		s := s
		if s.proc == nil || s.name == "template" {
			continue
		}
		procs = append(procs, proc{s.name, func() tokenizer.PostProcessor { return s.proc }, func(a, b []rtok, pair, main bool) []rtok { return s.frame(a, b, pair) }, s.added, always})
	}
	cls, sep := processor.PostToken{Value: "[CLS]", Id: 1}, processor.PostToken{Value: "[SEP]", Id: 2}
	rob := schemes()[2]
	procs = append(procs, proc{"roberta-trim", func() tokenizer.PostProcessor { return processor.NewRobertaProcessing(sep, cls, true, true) }, func(a, b []rtok, pair, main bool) []rtok { return rob.frame(a, b, pair) }, rob.added, always})

	// sequences of one that frames and of those that only trim, nested too
	for _, s := range schemes() {
		if s.proc == nil || s.name == "bytelevel" || s.name == "sequence" {
			continue
		}
		bl := processor.NewByteLevelProcessing(&pretokenizer.ByteLevel{TrimOffsets: true})
		raw := processor.NewByteLevelProcessing(&pretokenizer.ByteLevel{AddPrefixSpace: true})
		seq := func(ps ...tokenizer.PostProcessor) tokenizer.PostProcessor { return processor.NewSequence(ps) }
		for k, l := range []tokenizer.PostProcessor{seq(s.proc), seq(bl, s.proc), seq(s.proc, bl), seq(raw, bl, s.proc, raw, bl), seq(seq(s.proc)), seq(bl, seq(bl, s.proc)), seq(seq(s.proc), bl)} {
			procs = append(procs, proc{fmt.Sprintf("sequence%d of %s", k, s.name), func() tokenizer.PostProcessor { return l }, func(a, b []rtok, pair, main bool) []rtok { return s.frame(a, b, pair) }, s.added, always})
		}
		if s.name == "bert" {
			for k, l := range []tokenizer.PostProcessor{seq(), seq(bl), seq(bl, raw), seq(raw, bl, bl), seq(seq(), bl)} {
				procs = append(procs, proc{fmt.Sprintf("sequence%d of trimming", k), func() tokenizer.PostProcessor { return l }, func(a, b []rtok, pair, main bool) []rtok { return plainFrame(a, b, pair) }, func(bool) int { return 0 }, always})
			}
		}
	}

	// templates: all arrangements of special pieces around the content
	slots := [][]tplPiece{{}, {sp("[CLS]", 0)}, {sp("[SEP]", 1)}, {sp("<m>", 2)}, {sp("[CLS]", 0), sp("<m>", 1)}}
	nz := 4
	if !c.Thorough() {
		slots, nz = [][]tplPiece{{}, {sp("[CLS]", 0)}, {sp("<m>", 2)}}, 2
	}
	var singles, pairs [][]tplPiece
	for _, x := range slots {
		for _, y := range slots {
			for _, ta := range []int{0, 3} {
				singles = append(singles, append(append(append([]tplPiece{}, x...), tplPiece{0, "", ta, nil}), y...))
			}
			for _, z := range slots[:nz] {
				for _, tt := range [][2]int{{0, 1}, {2, 0}, {1, 1}} {
					for _, swap := range []bool{false, true} {
						A, B := tplPiece{0, "", tt[0], nil}, tplPiece{1, "", tt[1], nil}
						if swap {
							A, B = B, A
						}
						p := append(append([]tplPiece{}, x...), A)
						p = append(append(p, y...), B)
						pairs = append(pairs, append(p, z...))
					}
				}
			}
		}
	}
	str := func(ps []tplPiece) string {
		var s []string
		for _, p := range ps {
			s = append(s, p.String())
		}
		return strings.Join(s, " ")
	}
	count := func(ps []tplPiece) (n int) {
		for _, p := range ps {
			n += len(p.toks)
		}
		return
	}
	native := func(ps []tplPiece) bool {
		for _, p := range ps {
			if p.kind < 2 && p.typ != p.kind {
				return false
			}
		}
		return true
	}
	addTpl := func(single, pair []tplPiece, way int) {
		name := fmt.Sprintf("template%d(%s / %s)", way, str(single), str(pair))
		procs = append(procs, proc{name, func() tokenizer.PostProcessor {
			s, err := processor.NewTemplate(str(single))
			if err != nil {
				panic(err)
			}
			p, err := processor.NewTemplate(strings.Split(str(pair), " "))
			if err != nil {
				panic(err)
			}
			if way == 1 { // pieces made one by one
				s, p = nil, nil
				mk := func(x tplPiece) processor.Piece {
					if x.kind == 2 {
						return processor.NewSpecialTokenPiece(x.name, x.typ)
					}
					return processor.NewSequencePiece(core.If(x.kind == 0, "A", "B"), x.typ)
				}
				for _, x := range single {
					s = append(s, mk(x))
				}
				for _, x := range pair {
					p = append(p, mk(x))
				}
			}
			if way == 2 { // built
				b := processor.DefaultTemplateProcessing().Builder()
				b.SpecialTokens = tokens
				b.NewSingle(str(single))
				b.NewPair(str(pair))
				return b.Build()
			}
			return processor.NewTemplateProcessing(s, p, tokens)
		}, func(a, b []rtok, isPair, main bool) []rtok {
			return tplFrame(core.If(isPair, pair, single), a, b, true)
		}, func(isPair bool) int { return count(core.If(isPair, pair, single)) },
			func(isPair bool) bool { return native(core.If(isPair, pair, single)) }})
	}
	for i, p := range pairs {
		addTpl(singles[i%len(singles)], p, i%3)
	}

	maxN := core.Pick(c, 2, 3)
	var shapes [][]int
	shapes = append(shapes, seqs(maxN+1, 0, 2)...)
	c.Par(len(procs), func(w *core.W, pi int) {
		pr := procs[pi]
		for na := 0; na <= maxN; na++ {
			for nb := -1; nb <= maxN; nb++ {
				for sa, pa := range shapes {
					for sb, pb := range shapes {
						if nb < 0 && len(pb) > 0 || ((strings.HasPrefix(pr.name, "template") || strings.HasPrefix(pr.name, "sequence")) && !c.Thorough() && (sa > 4 || sb > 4)) {
							continue
						}
						for _, add := range []bool{true, false} {
							for _, noWords := range []bool{false, true} {
								key := fmt.Sprintf("process %s na=%d nb=%d parts=%d,%d special=%v nowords=%v", pr.name, na, nb, sa, sb, add, noWords)
								w.Case(key, func(t *core.T) {
									pair := nb >= 0
									mk := func(n, base, seq int, parts []int) (node, *tokenizer.Encoding) {
										nd := node{rs: mkToks(base, n, seq, seq)}
										in := node{rs: mkToks(base, n, seq, -1)}
										for i, p := range parts {
											nd.kids = append(nd.kids, node{rs: mkToks(base+20*(i+1), p, seq, seq)})
											in.kids = append(in.kids, node{rs: mkToks(base+20*(i+1), p, seq, -1)})
										}
										if noWords {
											nd = nd.blank()
										}
										return nd, in.enc(noWords, 3)
									}
									a, ea := mk(na, 10, 0, pa)
									b, eb := node{}, (*tokenizer.Encoding)(nil)
									if pair {
										b, eb = mk(nb, 200, 1, pb)
									}
									p := pr.mk()
									if n := p.AddedTokens(pair); n != pr.added(pair) {
										t.Errorf("announces %d added tokens, its scheme has %d", n, pr.added(pair))
									}
									got := p.Process(ea, eb, add)
									t.Op(1)
									t.State(key)
									frame := pr.frame
									if !add && strings.HasPrefix(pr.name, "template") {
										// the content pieces stay, in the order of the template
										inner := pr.frame
										frame = func(a, b []rtok, pair, main bool) []rtok {
											var out []rtok
											for _, r := range inner(a, b, pair, main) {
												if r.sp == 0 {
													out = append(out, r)
												}
											}
											return out
										}
									} else if !add {
										frame = func(a, b []rtok, pair, main bool) []rtok { return cat(a, b) }
									}
									content := len(a.rs) + len(b.rs)
									implicit := core.If(pair || content == 0, -1, 0)
									want := frame(a.rs, b.rs, pair, true)
									checkEnc(t, "encoding", got, want, true, implicit)
									n := 0
									if add {
										n = pr.added(pair)
									}
									if got.Len() != content+n {
										t.Errorf("%d tokens, want %d", got.Len(), content+n)
									}
									if !pr.partsOK(pair) {
										if len(a.kids)+len(b.kids) > 0 {
											c.Count("parts not judged (type ids of templates)", 1)
										}
										return
									}
									var parts [][]rtok
									as, bs := append([]node{a}, a.kids...), append([]node{b}, b.kids...)
									for i := range as {
										for j := range bs {
											if i+j > 0 {
												parts = append(parts, frame(as[i].rs, bs[j].rs, pair, false))
											}
										}
									}
									imp := -1
									if !pair {
										imp = 0
										for _, p := range parts { // an empty part has no ranges
											if len(p) > 0 && p[0].seq < 0 && len(p) == n {
												imp = -1
											}
										}
									}
									if imp == 0 && !hasRanges(got) {
										imp = 0
									}
									checkParts(t, "parts", got.Overflowing, parts, true, imp)
								})
							}
						}
					}
				}
			}
		}
	})

	// long ones: many tokens, many parts, many special tokens
	mp := tplPiece{2, "<70>", 0, many}
	addTpl([]tplPiece{mp, {0, "", 0, nil}, mp}, []tplPiece{mp, {0, "", 0, nil}, mp, {1, "", 1, nil}, mp}, 1)
	c.Par(len(procs), func(w *core.W, pi int) {
		pr := procs[pi]
		if strings.HasPrefix(pr.name, "template") && pi%9 != 0 && pi != len(procs)-1 {
			return
		}
		for _, sh := range [][4]int{{300, -1, 0, 0}, {70, 130, 0, 0}, {513, 0, 2, 0}, {0, 1030, 0, 3}, {40, -1, 300, 0}, {3, 2, 40, 33}} {
			for _, add := range []bool{true, false} {
				w.Case(fmt.Sprintf("long %s %v special=%v", pr.name, sh, add), func(t *core.T) {
					pair := sh[1] >= 0
					mk := func(n, base, seq, parts int) (node, *tokenizer.Encoding) {
						nd := node{rs: mkToks(base, n, seq, seq)}
						in := node{rs: mkToks(base, n, seq, -1)}
						for i := 0; i < parts; i++ {
							nd.kids = append(nd.kids, node{rs: mkToks(base+2000*(i+1), 1+i%3, seq, seq)})
							in.kids = append(in.kids, node{rs: mkToks(base+2000*(i+1), 1+i%3, seq, -1)})
						}
						return nd, in.enc(false, 3)
					}
					a, ea := mk(sh[0], 10000, 0, sh[2])
					b, eb := node{}, (*tokenizer.Encoding)(nil)
					if pair {
						b, eb = mk(sh[1], 1000000, 1, sh[3])
					}
					got := pr.mk().Process(ea, eb, add)
					t.Op(1)
					frame := func(x, y []rtok) []rtok {
						var out []rtok
						for _, r := range pr.frame(x, y, pair, true) {
							if add || r.sp == 0 {
								out = append(out, r)
							}
						}
						return out
					}
					content := len(a.rs) + len(b.rs)
					checkEnc(t, "encoding", got, frame(a.rs, b.rs), true, core.If(pair || content == 0, -1, 0))
					if !pr.partsOK(pair) {
						return
					}
					var parts [][]rtok
					as, bs := append([]node{a}, a.kids...), append([]node{b}, b.kids...)
					for i := range as {
						for j := range bs {
							if i+j > 0 {
								parts = append(parts, frame(as[i].rs, bs[j].rs))
							}
						}
					}
					checkParts(t, "parts", got.Overflowing, parts, true, core.If(pair, -1, 0))
				})
			}
		}
	})

	// the known finding: type ids of templates and overflowing parts
	c.Par(1, func(w *core.W, _ int) {
		w.Case("template type ids on overflowing parts", func(t *core.T) {
			s, _ := processor.NewTemplate("[CLS] $A:1 [SEP]:1")
			p := processor.NewTemplateProcessing(s, s, tokens)
			a := node{rs: mkToks(10, 1, 0, -1), kids: []node{{rs: mkToks(30, 1, 0, -1)}}}
			got := p.Process(a.enc(false, 0), nil, true)
			if got.Overflowing[0].TypeIds[1] != 1 {
				t.Errorf("overflowing part has type ids %v, the template says 1 for the content", got.Overflowing[0].TypeIds)
			}
		})
	})

	// part 2: trimming
	alpha := []string{"a", "Ġa", "ĠĠab", "aĠ", "Ġ", "ĠĠ", "ĠaĠĠ", "é", "", "aĠb"}
	lists := seqs(len(alpha), 0, core.Pick(c, 4, 5))
	c.Par(len(lists), func(w *core.W, li int) {
		for mode := 0; mode < 8; mode++ {
			prefix, rob, pair := mode&1 > 0, mode&2 > 0, mode&4 > 0
			key := fmt.Sprintf("trim %v prefix=%v roberta=%v pair=%v", lists[li], prefix, rob, pair)
			w.Case(key, func(t *core.T) {
				mk := func(seq int) ([]rtok, []rtok) {
					var rs, want []rtok
					pos := 0
					for i, x := range lists[li] {
						tok := alpha[x]
						n := len(strings.ReplaceAll(tok, "Ġ", " "))
						if i == 0 && prefix && strings.HasPrefix(tok, "Ġ") && !strings.HasPrefix(tok, "ĠĠ") {
							n-- // the space was inserted
						}
						r := rtok{id: i, typ: seq, tok: tok, s: pos, e: pos + n, at: 1, w: i, seq: seq}
						pos += n
						x := r
						lead := 0
						for rest := tok; strings.HasPrefix(rest, "Ġ"); rest = rest[len("Ġ"):] {
							lead++
						}
						trail := 0
						for rest := tok; strings.HasSuffix(rest, "Ġ"); rest = rest[:len(rest)-len("Ġ")] {
							trail++
						}
						if !(i == 0 && prefix && lead == 1) {
							x.s = min(x.s+lead, x.e)
						}
						if trail > 0 && r.e >= trail {
							x.e = max(r.e-trail, x.s)
						}
						rs = append(rs, r)
						want = append(want, x)
					}
					return rs, want
				}
				ra, wa := mk(0)
				ea := encOf(ra, false, 0)
				ea.SequenceRanges = nil
				var eb *tokenizer.Encoding
				var wb []rtok
				if pair {
					var rb []rtok
					rb, wb = mk(1)
					eb = encOf(rb, false, 0)
					eb.SequenceRanges = nil
				}
				var p tokenizer.PostProcessor = processor.NewByteLevelProcessing(&pretokenizer.ByteLevel{AddPrefixSpace: prefix, TrimOffsets: true})
				frame := plainFrame
				if rob {
					r := processor.DefaultRobertaProcessing()
					r.AddPrefixSpace(prefix)
					p, frame = r, func(a, b []rtok, pair bool) []rtok {
						out := cat([]rtok{special("<s>", 0, 0)}, a, []rtok{special("</s>", 2, 0)})
						if pair {
							out = cat(out, []rtok{special("</s>", 2, 1)}, b, []rtok{special("</s>", 2, 1)})
						}
						return out
					}
				}
				got := p.Process(ea, eb, true)
				t.Op(1)
				t.State(key)
				checkEnc(t, "trimmed", got, frame(wa, wb, pair), false, core.If(pair || len(wa) == 0, -1, 0))
			})
		}
	})
}

func hasRanges(e *tokenizer.Encoding) bool { return len(e.SequenceRanges) > 0 }
