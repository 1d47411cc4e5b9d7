package props

import (
	"fmt"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
)

func init() {
	core.Register(&core.Check{ID: "C08", Level: "model_checking",
		Rule:        "MergeWith, Merge and MergeEncodings (and, for up to two, DefaultProcess and MergeEncodings of what PrepareEncodings gives) for every list of up to three encodings (four in the deep tier) over lengths, layouts (sequence ranges, special tokens, no words) and overflow shapes in bounds, growing offsets on and off; result, all combinations of overflowing parts and the untouched operands are compared token by token with concatenation. Non-trivial: at least two encodings with tokens.",
		Run:         c08,
		Assumptions: []string{"The receiver of MergeWith/Merge and the first element given to MergeEncodings hold the result; all other operands must stay as they were.", "Tokens of an encoding without sequence ranges are in no explicit sequence after merging with one that has ranges.", "Parts of parts (the code nests them) are only required to be combinations too."}})
}

// refMerge is concatenation.
func refMerge(a, b []rtok, growing bool) []rtok {
	shift := 0
	if growing && len(a) > 0 {
		shift = a[len(a)-1].e
	}
	out := append([]rtok{}, a...)
	for _, r := range b {
		r.s += shift
		r.e += shift
		out = append(out, r)
	}
	return out
}

type mergeItem struct {
	n, layout int
	parts     []int
	noWords   bool
}

func (m mergeItem) node(base, seq int) node {
	mk := func(n, base int) []rtok {
		rs := mkToks(base, n, seq, -1)
		for k := range rs {
			switch m.layout {
			case 1:
				rs[k].seq = seq
			case 2:
				if k == 0 {
					rs[k].sp, rs[k].w, rs[k].s, rs[k].e = 1, -1, 0, 0
				} else {
					rs[k].seq = seq
				}
			case 3:
				rs[k].seq = k % 2
				rs[k].at = 0
			case 4: // a special token or padding at the end
				if k == n-1 {
					rs[k].sp, rs[k].w, rs[k].s, rs[k].e = 1, -1, 0, 0
				} else {
					rs[k].seq = seq
				}
			case 5: // offsets that start again with every word
				rs[k].seq = seq
				rs[k].s, rs[k].e = 1, 1+n-k
			}
			if m.noWords {
				rs[k].w = -1
			}
		}
		return rs
	}
	nd := node{rs: mk(m.n, base)}
	for i, p := range m.parts {
		nd.kids = append(nd.kids, node{rs: mk(p, base+20*(i+1))})
	}
	return nd
}

// asSeq is the node with all its tokens in one sequence and, if asked, the type ids of
// its own tokens too.
func (nd node) asSeq(k int, types bool) node {
	out := node{}
	for _, r := range nd.rs {
		r.seq = k
		if types {
			r.typ = k
		}
		out.rs = append(out.rs, r)
	}
	for _, kid := range nd.kids {
		out.kids = append(out.kids, kid.asSeq(k, false))
	}
	return out
}

func refMergeNodes(a, b node, growing bool) node {
	out := node{rs: refMerge(a.rs, b.rs, growing)}
	as := append([]node{{rs: a.rs}}, a.kids...)
	bs := append([]node{{rs: b.rs}}, b.kids...)
	for i := range as {
		for j := range bs {
			if i+j > 0 {
				out.kids = append(out.kids, node{rs: refMerge(as[i].rs, bs[j].rs, growing)})
			}
		}
	}
	return out
}

func c08(c *core.Ctx) {
	var items []mergeItem
	for n := 0; n <= core.Pick(c, 2, 3); n++ {
		for layout := 0; layout < 6; layout++ {
			for _, parts := range [][]int{nil, {1}, {2, 1}, {0}} {
				if layout > 3 && (n < 2 || len(parts) > 1) {
					continue
				}
				for _, nw := range []bool{false, true} {
					if (nw && layout == 2) || (n == 0 && layout > 0 && len(parts) == 0) {
						continue
					}
					items = append(items, mergeItem{n, layout, parts, nw})
				}
			}
		}
	}
	c.Count("operands", int64(len(items)))
	pairs := seqs(len(items), 1, 2)
	// three operands: a smaller set, plus every position of each special shape
	var small, tiny []int
	for i, m := range items {
		if m.n == 1 && m.layout == 2 || m.n == 0 && m.layout == 0 && !m.noWords && m.parts == nil || m.n == 1 && m.layout == 1 && len(m.parts) == 1 {
			tiny = append(tiny, i)
		}
		if (m.n == 1 || m.n == 2 && c.Thorough()) && len(m.parts) != 2 && (m.layout == 1 || m.layout == 2) || m.n == 0 && m.layout == 0 && !m.noWords && m.parts == nil {
			small = append(small, i)
		}
	}
	lists := func(from []int, n int) {
		for _, s := range seqs(len(from), n, n) {
			l := make([]int, len(s))
			for i := range s {
				l[i] = from[s[i]]
			}
			pairs = append(pairs, l)
		}
	}
	lists(small, 3)
	if c.Thorough() {
		lists(tiny, 4)
	}
	// copies of an encoding, merged with different ones
	var shapes []int
	for i, m := range items {
		if m.n > 0 && m.n <= 2 && len(m.parts) <= core.Pick(c, 0, 1) && !m.noWords {
			shapes = append(shapes, i)
		}
	}
	c.Par(len(items), func(w *core.W, i int) {
		for _, spare := range []int{0, 5} {
			for _, a := range shapes {
				for _, b := range shapes {
					w.Case(fmt.Sprintf("copies %d %d %d spare=%d", i, a, b, spare), func(t *core.T) {
						nd := items[i].node(10, 0)
						e := nd.enc(items[i].noWords, spare)
						for s, r := range e.SequenceRanges {
							e.SequenceRanges[s] = append(make(tokenizer.Range, 0, len(r)+spare), r...)
						}
						one, two := *e, *e
						na, nb := items[a].node(110, 0), items[b].node(210, 0)
						one.MergeWith(na.enc(items[a].noWords, 0), false)
						two.MergeWith(nb.enc(items[b].noWords, 0), false)
						t.Op(2)
						checkEnc(t, "first copy", &one, refMerge(nd.rs, na.rs, false), true, -1)
						checkEnc(t, "second copy", &two, refMerge(nd.rs, nb.rs, false), true, -1)
						nd.check(t, "original", e, items[i].noWords)
						t.State(fmt.Sprint(i, a, b, spare))
					})
				}
			}
		}
	})
	// long ones
	c.Par(1, func(w *core.W, _ int) {
		for _, ns := range [][]int{{300, 300}, {129, 1, 600}, {1, 1000}, {70, 0, 70, 70, 70}} {
			for _, growing := range []bool{false, true} {
				for layout := 0; layout < 6; layout++ {
					w.Case(fmt.Sprintf("long %v growing=%v layout=%d", ns, growing, layout), func(t *core.T) {
						var want node
						var encs []tokenizer.Encoding
						for k, n := range ns {
							nd := mergeItem{n: n, layout: layout, parts: core.If(n == 70 && k < 2, []int{40, 3}, nil)}.node(10+1000*k, k%2)
							encs = append(encs, *nd.enc(false, 0))
							want = core.If(k == 0, nd, refMergeNodes(want, nd, growing))
						}
						got := tokenizer.MergeEncodings(encs, growing)
						checkEnc(t, "merged", got, want.rs, true, -1)
						var parts [][]rtok
						for _, k := range want.kids {
							parts = append(parts, k.rs)
						}
						checkParts(t, "merged", got.Overflowing, parts, true, -1)
						t.Op(len(ns))
					})
				}
			}
		}
	})
	c.Par(len(pairs), func(w *core.W, pi int) {
		list := pairs[pi]
		for _, growing := range []bool{false, true} {
			for how := 0; how < 5; how++ {
				if how > 2 && len(list) > 2 || how == 4 && (growing || len(list) != 2) {
					continue
				}
				for _, spare := range []int{0, 6} {
					if spare > 0 && len(list) > 2 {
						continue
					}
					key := fmt.Sprintf("merge %v growing=%v how=%d spare=%d", list, growing, how, spare)
					w.Case(key, func(t *core.T) {
						var nodes []node
						var encs []tokenizer.Encoding
						anyWords := false
						for k, x := range list {
							nd := items[x].node(10+100*k, k%2)
							nodes = append(nodes, nd)
							encs = append(encs, *nd.enc(items[x].noWords, spare))
							anyWords = anyWords || (!items[x].noWords)
						}
						shallow := append([]tokenizer.Encoding{}, encs...)
						origs := append([]node{}, nodes...)
						if how > 2 { // the k-th encoding becomes the k-th sequence
							for k := range nodes {
								nodes[k] = nodes[k].asSeq(k, how == 3)
							}
						}
						want := nodes[0]
						for _, nd := range nodes[1:] {
							want = refMergeNodes(want, nd, growing)
						}
						var got *tokenizer.Encoding
						first := 0
						switch how {
						case 0: // MergeWith, one after the other
							got = &encs[0]
							for k := range encs[1:] {
								got = got.MergeWith(&encs[k+1], growing)
							}
						case 1:
							got = tokenizer.DefaultEncoding()
							first = -1
							got = got.Merge(encs, growing)
							want = nodes[0]
							want = refMergeNodes(node{}, want, growing)
							for _, nd := range nodes[1:] {
								want = refMergeNodes(want, nd, growing)
							}
						case 2:
							got = tokenizer.MergeEncodings(encs, growing)
						case 3, 4:
							var second *tokenizer.Encoding
							if len(encs) == 2 {
								second = &encs[1]
							}
							if how == 4 {
								got = tokenizer.DefaultProcess(&encs[0], second, growing)
								break
							}
							prep := tokenizer.PrepareEncodings(&encs[0], second)
							if len(prep) != len(encs) {
								t.Fatalf("%d encodings prepared", len(prep))
							}
							for k := range prep {
								nodes[k].check(t, fmt.Sprintf("prepared %d", k), &prep[k], items[list[k]].noWords)
							}
							got = tokenizer.MergeEncodings(prep, growing)
						}
						t.Op(len(encs))
						t.State(key)
						checkEnc(t, "merged", got, want.rs, true, -1)
						var parts [][]rtok
						for _, k := range want.kids {
							parts = append(parts, k.rs)
						}
						checkParts(t, "merged", got.Overflowing, parts, true, -1)
						set := map[string]bool{showToks(want.rs): true}
						for _, p := range parts {
							set[showToks(p)] = true
						}
						checkNested(t, got.Overflowing, set)
						for k := range encs {
							if k == first && how != 1 && how < 3 {
								continue
							}
							origs[k].check(t, fmt.Sprintf("operand %d afterwards", k), &encs[k], items[list[k]].noWords)
						}
						for k := range shallow {
							if !spareOK(shallow[k], spare) {
								t.Errorf("wrote behind operand %d", k)
							}
						}
					})
				}
			}
		}
	})
}

func checkNested(t *core.T, parts []tokenizer.Encoding, set map[string]bool) {
	for i := range parts {
		rs, err := readEnc(&parts[i], true, -1)
		if err != nil {
			t.Errorf("nested part: %v", err)
			return
		}
		if !set[showToks(rs)] {
			t.Errorf("nested part is no combination: %s", showToks(rs))
			return
		}
		checkNested(t, parts[i].Overflowing, set)
	}
}
