package props

import (
	"fmt"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
)

func init() {
	core.Register(&core.Check{ID: "C06", Level: "model_checking",
		Rule:        "part 1: Encoding.Pad for every token count, target, direction, layout (words, sequence ranges, spare capacity) and shape of overflowing parts in bounds; part 2: PadEncodings for every batch of lengths in bounds and both strategies; part 3: Encode and EncodeBatch of a pipeline with padding, with and without truncation. Every encoding and (nested) overflowing part is compared token by token with content plus padding on the configured side. Non-trivial: something was padded.",
		Run:         c06,
		Assumptions: []string{"Padding to a multiple is not an option of PaddingParams in this code base, so no such rounding is checked.", "Parts longer than the target stay as they are."}})
}

type padCfg struct {
	id, typ int
	tok     string
	dir     tokenizer.PaddingDirection
}

func padRef(rs []rtok, target int, p padCfg) []rtok {
	var pad []rtok
	for i := len(rs); i < target; i++ {
		pad = append(pad, rtok{id: p.id, typ: p.typ, tok: p.tok, sp: 1, at: 0, w: -1, seq: -1})
	}
	if p.dir == tokenizer.Left {
		return cat(pad, rs)
	}
	return cat(rs, pad)
}

type node struct {
	rs   []rtok
	kids []node
}

func (n node) enc(noWords bool, spare int) *tokenizer.Encoding {
	e := encOf(n.rs, noWords, spare)
	for _, k := range n.kids {
		e.Overflowing = append(e.Overflowing, *k.enc(noWords, spare))
	}
	return e
}

func (n node) padded(target int, p padCfg) node {
	out := node{rs: padRef(n.rs, target, p)}
	for _, k := range n.kids {
		out.kids = append(out.kids, k.padded(target, p))
	}
	return out
}

func (n node) check(t *core.T, what string, e *tokenizer.Encoding, noWords bool) {
	checkEnc(t, what, e, n.rs, noWords, -1)
	if len(e.Overflowing) != len(n.kids) {
		t.Errorf("%s: %d overflowing parts, want %d", what, len(e.Overflowing), len(n.kids))
		return
	}
	for i := range n.kids {
		n.kids[i].check(t, fmt.Sprintf("%s.part%d", what, i), &e.Overflowing[i], noWords)
	}
}

func layoutToks(n, layout int) []rtok {
	rs := mkToks(10, n, 0, -1)
	for k := range rs {
		switch layout {
		case 1:
			rs[k].seq = 0
		case 2:
			if k != 0 && k != (n+1)/2 {
				rs[k].seq = core.If(k < (n+1)/2, 0, 1)
			} else {
				rs[k].sp, rs[k].w, rs[k].s, rs[k].e = 1, -1, 0, 0
			}
		case 3:
			rs[k].seq, rs[k].at, rs[k].typ = core.If(k%3 == 2, 1, 0), core.If(k%2 == 0, 1, 0), k
		}
	}
	return rs
}

func c06(c *core.Ctx) {
	cfgs := []padCfg{}
	for _, d := range []tokenizer.PaddingDirection{tokenizer.Left, tokenizer.Right} {
		cfgs = append(cfgs, padCfg{0, 0, "[PAD]", d}, padCfg{7, 3, "<p>", d}, padCfg{10, 1, "", d})
	}
	maxN := core.Pick(c, 5, 8)
	maxT := core.Pick(c, 7, 11)
	// shapes of overflowing parts: lengths, nested
	var shapes [][]int
	shapes = append(shapes, seqs(maxN, 0, 2)...)
	c.Par(maxN+1, func(w *core.W, n int) {
		for layout := 0; layout < 4; layout++ {
			for _, noWords := range []bool{false, true} {
				for _, spare := range []int{0, 5} {
					for si, sh := range shapes {
						for nested := 0; nested < 2; nested++ {
							if nested == 1 && len(sh) == 0 {
								continue
							}
							for target := -1; target <= maxT; target++ {
								for ci, p := range cfgs {
									key := fmt.Sprintf("pad n=%d layout=%d nowords=%v spare=%d parts=%d nested=%d target=%d cfg=%d", n, layout, noWords, spare, si, nested, target, ci)
									w.Case(key, func(t *core.T) {
										root := node{rs: layoutToks(n, layout)}
										for _, l := range sh {
											k := node{rs: layoutToks(l, layout)}
											if nested == 1 {
												k.kids = append(k.kids, node{rs: layoutToks((l+1)/2, layout)})
											}
											root.kids = append(root.kids, k)
										}
										if noWords {
											root = root.blank()
										}
										e := root.enc(noWords, spare)
										before := *e
										got := e.Pad(target, p.id, p.typ, p.tok, p.dir)
										t.Op(1)
										t.State(key)
										root.padded(target, p).check(t, "encoding", got, noWords)
										if !spareOK(before, spare) {
											t.Errorf("wrote behind the encoding")
										}
									})
								}
							}
						}
					}
				}
			}
		}
	})

	// part 2: batches
	batches := seqs(core.Pick(c, 5, 6), 0, core.Pick(c, 3, 4))
	batches = append(batches, []int{1, 100}, []int{100, 1}, []int{3, 300, 70}, []int{600, 0, 599, 1}, []int{0, 20, 40, 80, 160, 320}, make([]int, 300))
	many := make([]int, 260)
	for i := range many {
		many[i] = i % 11
	}
	batches = append(batches, many)
	c.Par(len(batches), func(w *core.W, i int) {
		for _, overflow := range []bool{false, true} {
			for fixed := -1; fixed <= core.Pick(c, 6, 8)+1; fixed++ {
				if fixed == core.Pick(c, 6, 8)+1 {
					fixed = 513
				}
				for ci, p := range cfgs {
					key := fmt.Sprintf("batch %v overflow=%v fixed=%d cfg=%d", batches[i], overflow, fixed, ci)
					w.Case(key, func(t *core.T) {
						var in []tokenizer.Encoding
						var nodes []node
						longest := 0
						for _, n := range batches[i] {
							nd := node{rs: layoutToks(n, 2)}
							if overflow {
								nd.kids = []node{{rs: layoutToks(n, 2)}, {rs: layoutToks((n+1)/2, 1)}}
							}
							nodes = append(nodes, nd)
							in = append(in, *nd.enc(false, 3))
							longest = max(longest, n)
						}
						st := *tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest())
						target := longest
						if fixed >= 0 {
							st = *tokenizer.NewPaddingStrategy(tokenizer.WithFixed(fixed))
							target = fixed
						}
						out := tokenizer.PadEncodings(in, tokenizer.PaddingParams{Strategy: st, Direction: p.dir, PadId: p.id, PadTypeId: p.typ, PadToken: p.tok})
						t.Op(1)
						t.State(key)
						if len(out) != len(in) {
							t.Fatalf("%d encodings, want %d", len(out), len(in))
						}
						for k := range nodes {
							nodes[k].padded(target, p).check(t, fmt.Sprintf("encoding %d", k), &out[k], false)
						}
					})
				}
			}
		}
	})

	// part 3: pipelines
	sch := schemes()
	type cfg struct{ s, ml int }
	var ps []cfg
	for s := range sch {
		for _, ml := range []int{0, 5, 6, 8} {
			ps = append(ps, cfg{s, ml})
		}
	}
	c.Par(len(ps), func(w *core.W, i int) {
		sc := sch[ps[i].s]
		tk := c05tok()
		if sc.proc != nil {
			tk.WithPostProcessor(sc.proc)
		}
		ml := ps[i].ml
		if ml > 0 {
			tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: ml, Strategy: tokenizer.LongestFirst, Stride: 0})
		}
		type item struct{ na, nb int }
		var items []item
		for na := 0; na <= core.Pick(c, 3, 4); na++ {
			for nb := -1; nb <= 2; nb++ {
				items = append(items, item{na, nb})
			}
		}
		var lists [][]int
		lists = append(lists, seqs(len(items), 1, 2)...)
		for _, list := range lists {
			for fixed := -1; fixed <= 9; fixed += 5 {
				for ci, p := range cfgs[2:4] {
					key := fmt.Sprintf("pipeline %s max=%d items=%v fixed=%d cfg=%d", sc.name, ml, list, fixed, ci)
					w.Case(key, func(t *core.T) {
						tk.WithPadding(nil)
						var ins []tokenizer.EncodeInput
						for _, x := range list {
							it := items[x]
							ta, _ := wordsText("w", 10, it.na, 0, 0)
							if it.nb < 0 {
								ins = append(ins, tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(ta)))
							} else {
								tb, _ := wordsText("x", 1000, it.nb, 1, 1)
								ins = append(ins, tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(ta), tokenizer.NewInputSequence(tb)))
							}
						}
						var nodes []node
						longest := 0
						for _, in := range ins {
							e, err := tk.Encode(in, true)
							if err != nil {
								return // the maximum cannot be met
							}
							nd, err := nodeOf(e)
							if err != nil {
								t.Fatalf("unpadded: %v", err)
							}
							nodes = append(nodes, nd)
							longest = max(longest, e.Len())
						}
						target := core.If(fixed < 0, longest, fixed)
						st := tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest())
						if fixed >= 0 {
							st = tokenizer.NewPaddingStrategy(tokenizer.WithFixed(fixed))
						}
						tk.WithPadding(&tokenizer.PaddingParams{Strategy: *st, Direction: p.dir, PadId: p.id, PadTypeId: p.typ, PadToken: p.tok})
						out, err := tk.EncodeBatch(ins, true)
						t.Op(len(ins))
						if err != nil {
							t.Fatalf("EncodeBatch: %v", err)
						}
						for k := range nodes {
							nodes[k].padded(target, p).check(t, fmt.Sprintf("EncodeBatch[%d]", k), &out[k], false)
						}
						if len(ins) == 1 {
							e, err := tk.Encode(ins[0], true)
							if err != nil {
								t.Fatalf("Encode: %v", err)
							}
							nodes[0].padded(target, p).check(t, "Encode", e, false)
						}
						t.State(key)
					})
				}
			}
		}
	})
}

func (n node) blank() node {
	out := node{rs: noWordsIn(n.rs)}
	for _, k := range n.kids {
		out.kids = append(out.kids, k.blank())
	}
	return out
}

func nodeOf(e *tokenizer.Encoding) (n node, err error) {
	n.rs, err = readEnc(e, false, -1)
	for i := range e.Overflowing {
		if err != nil {
			return
		}
		var k node
		k, err = nodeOf(&e.Overflowing[i])
		n.kids = append(n.kids, k)
	}
	return
}
