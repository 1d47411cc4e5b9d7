package props

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
)

// anormDef is a normalizer with its effect on characters and what they stand for.
type anormDef struct {
	name string
	mk   func() normalizer.Normalizer
	ref  func(*nsRef)
}

// eachChar replaces every character by some, all standing for what it stood for.
func (n *nsRef) eachChar(f func(rune) string) {
	var out []nsChar
	for _, c := range n.cs {
		for _, r := range f(c.r) {
			out = append(out, nsChar{r, c.s, c.e})
		}
	}
	n.cs = out
}

func anorms() []anormDef {
	type N = normalizer.Normalizer
	decomp := func(r rune) string {
		switch r {
		case 'é':
			return "e\u0301"
		case 'É':
			return "E\u0301"
		}
		return string(r)
	}
	noMark := func(n *nsRef) { n.filter(func(r rune) bool { return !unicode.Is(unicode.Mn, r) }) }
	lower := func(n *nsRef) { n.mapRunes(unicode.ToLower) }
	cjk := func(n *nsRef) {
		n.eachChar(func(r rune) string {
			if r == '日' {
				return " 日 "
			}
			return string(r)
		})
	}
	return []anormDef{
		{"none", func() N { return nil }, func(n *nsRef) {}},
		{"lower", func() N { return normalizer.Lowercase() }, lower},
		{"nfd", func() N { return normalizer.NewNFD() }, func(n *nsRef) { n.eachChar(decomp) }},
		{"nfc", func() N { return normalizer.NewNFC() }, func(n *nsRef) {
			var out []nsChar
			for _, c := range n.cs {
				if c.r == '\u0301' && len(out) > 0 && out[len(out)-1].r == 'e' {
					out[len(out)-1].r = 'é' // stands for the letter
					continue
				}
				out = append(out, c)
			}
			n.cs = out
		}},
		{"nfkd", func() N { return normalizer.NewNFKD() }, func(n *nsRef) {
			n.eachChar(func(r rune) string {
				switch r {
				case '½':
					return "1\u20442"
				case '\u3000':
					return " "
				case 'ﬁ':
					return "fi"
				}
				return decomp(r)
			})
		}},
		{"nfd+accents+lower", func() N {
			return normalizer.NewSequence([]normalizer.Normalizer{normalizer.NewNFD(), normalizer.NewStripAccents(), normalizer.Lowercase()})
		}, func(n *nsRef) { n.eachChar(decomp); noMark(n); lower(n) }},
		{"bert", func() N { return normalizer.NewBertNormalizer(true, true, true, true) }, func(n *nsRef) {
			n.filter(func(r rune) bool { return r != 0 && r != 0xfffd })
			n.mapRunes(func(r rune) rune { return core.If(strings.ContainsRune(" \t\n\r", r), ' ', r) })
			cjk(n)
			n.eachChar(decomp)
			noMark(n)
			lower(n)
		}},
		{"strip", func() N { return normalizer.NewStrip(true, true) }, func(n *nsRef) { n.strip(true, true) }},
		{"space", func() N { return normalizer.NewReplace(normalizer.String, " ", "▁") }, func(n *nsRef) { n.replace(n.matchStr(" "), "▁") }},
		{"grow", func() N { return normalizer.NewReplace(normalizer.String, "b", "a 1") }, func(n *nsRef) { n.replace(n.matchStr("b"), "a 1") }},
		{"drop", func() N { return normalizer.NewReplace(normalizer.String, "a", "") }, func(n *nsRef) { n.replace(n.matchStr("a"), "") }},
		{"llama", func() N {
			return normalizer.NewSequence([]normalizer.Normalizer{normalizer.NewPrepend("▁"), normalizer.NewReplace(normalizer.String, " ", "▁")})
		}, func(n *nsRef) { n.prepend("▁"); n.replace(n.matchStr(" "), "▁") }},
	}
}

// pipeModels are models that know some of the pieces over the texts' letters.
func pipeModels() []modelDef {
	var out []modelDef
	must := func(m tokenizer.Model, err error) tokenizer.Model {
		if err != nil {
			panic(err)
		}
		return m
	}
	vocabOf := func(toks ...string) model.Vocab {
		v := model.Vocab{}
		for i, t := range toks {
			v[t] = i
		}
		return v
	}
	out = append(out, modelDef{name: "wordlevel", mk: func() tokenizer.Model {
		m, err := wordlevel.New(vocabOf("[UNK]", "a", "b", "ab", "é", "日", "▁a", "e", " ", "a b"), "[UNK]")
		return must(m, err)
	}})
	out = append(out, modelDef{name: "wordpiece", mk: func() tokenizer.Model {
		v := vocabOf("[UNK]", "a", "##a", "##b", "b", "é", "##é", "##ab", "日", "##日", "▁", "##▁", "e", "##e", "##\u0301", "##1", "1", " ", "## ", "a ", "B", "##B")
		return wordpiece.NewWordPieceBuilder().Vocab(&v).UnkToken("[UNK]").Build()
	}})
	mkBpe := func(name, prefix, suffix string, base []string, steps [][2]int) {
		d := newBpeDef(base, steps, prefix, suffix)
		out = append(out, modelDef{name: name, mk: func() tokenizer.Model { m, err := d.build(100, nil); return must(m, err) }})
	}
	mkBpe("bpe", "", "", []string{"a", "b", "é", "▁", "日", " ", "e", "\u0301", "Ġ", "Ã", "©"}, [][2]int{{0, 1}, {3, 0}, {2, 4}, {0, 2}, {5, 0}, {6, 7}, {9, 10}, {8, 0}})
	mkBpe("bpe/affix", "##", "</w>", []string{"a", "##b", "##a", "##é</w>", "b", "##a</w>", "a</w>", "é"}, [][2]int{{0, 1}, {0, 2}, {4, 5}})
	mkUni := func(name string, unk int, fuse, fb bool) {
		v := []unigram.TokenScore{{Token: "<unk>", Score: 0}, {Token: "a", Score: -2}, {Token: "b", Score: -2.5}, {Token: "ab", Score: -3}, {Token: "▁", Score: -3}, {Token: "▁a", Score: -3.5}, {Token: "é", Score: -4}, {Token: "日a", Score: -5}, {Token: " ", Score: -2}, {Token: "e\u0301", Score: -3}}
		if fb {
			for i := 0; i < 256; i++ {
				v = append(v, unigram.TokenScore{Token: fmt.Sprintf("<0x%02X>", i), Score: -9})
			}
		}
		d := newUniDef(v, unk, fuse, fb)
		out = append(out, modelDef{name: name, mk: func() tokenizer.Model { m, err := d.build(false); return must(m, err) }})
	}
	mkUni("unigram", 0, false, false)
	mkUni("unigram/fuse", 0, true, false)
	mkUni("unigram/bytes", 0, false, true)
	return out
}

func pipePres() []*preDef {
	want := map[string]bool{"whitespace": true, "whitespacesplit": true, "bert": true, "punctuation/isolated": true, "digits/each": true, "delimiter/a": true, `split re"\\s+"/next/false`: true, `split str"a"/previous/false`: true, "metaspace/▁/first": true, "metaspace/▁/always": true, "metaspace/▁/never": true, "bytelevel/true": true, "bytelevel/false": true, "script": true}
	out := []*preDef{nil}
	by := map[string]*preDef{}
	for _, d := range c15Defs() {
		by[d.name] = d
		if want[d.name] {
			out = append(out, d)
		}
	}
	for _, s := range [][2]string{{"whitespacesplit", "bytelevel/false"}, {"digits/each", "metaspace/▁/always"}, {"bytelevel/true", "digits/each"}} {
		a, b := by[s[0]], by[s[1]]
		out = append(out, &preDef{name: s[0] + " | " + s[1], seq: []*preDef{a, b}, mk: func() tokenizer.PreTokenizer {
			return pretokenizer.NewSequence([]tokenizer.PreTokenizer{a.mk(), b.mk()})
		}})
	}
	return out
}

func pipeAdded() [][]addedDef {
	at := func(s string, special bool) addedDef { return addedDef{tokenizer.NewAddedToken(s, special), special} }
	x := tokenizer.AddedToken{Content: "日", LStrip: true, RStrip: true}
	y := tokenizer.AddedToken{Content: "É", Normalized: true}
	w := tokenizer.AddedToken{Content: "B", SingleWord: true}
	return [][]addedDef{nil, {at("<s>", true), at("Bé", false)}, {{x, true}, {w, true}, {y, false}}}
}

type pipe struct {
	nd    anormDef
	added []addedDef
	pre   *preDef
	md    modelDef
}

func (p pipe) String() string {
	s := "norm=" + p.nd.name + " pre="
	if p.pre == nil {
		s += "none"
	} else {
		s += p.pre.name
	}
	return fmt.Sprintf("%s model=%s added=%v", s, p.md.name, p.added)
}

func (p pipe) build() (*tokenizer.Tokenizer, []int) {
	tk := tokenizer.NewTokenizer(p.md.mk())
	tk.WithNormalizer(p.nd.mk())
	if p.pre != nil {
		tk.WithPreTokenizer(p.pre.mk())
	}
	var ids []int
	for _, a := range p.added {
		if a.special {
			tk.AddSpecialTokens([]tokenizer.AddedToken{a.tok})
		} else {
			tk.AddTokens([]tokenizer.AddedToken{a.tok})
		}
		id, ok := tk.TokenToId(a.tok.Content)
		if !ok {
			panic("added token has no id")
		}
		ids = append(ids, id)
	}
	return tk, ids
}

// pieces is the definition of what the model is handed.
func (p pipe) pieces(text string, ids []int) []pPiece {
	cutAt := func(n *nsRef, norm bool) []pPiece {
		var ds []addedDef
		var is []int
		var cs []string
		for _, sp := range []bool{true, false} {
			for i, a := range p.added {
				if a.special != sp || a.tok.Normalized != norm {
					continue
				}
				ct := a.tok.Content
				if norm {
					x := newNsRef(ct)
					p.nd.ref(x)
					ct = x.text()
				}
				ds, is, cs = append(ds, a), append(is, ids[i]), append(cs, ct)
			}
		}
		var in []nch
		for i, c := range n.cs {
			in = append(in, nch{c.r, i, i + 1})
		}
		var out []pPiece
		for _, r := range c14Cut(in, ds, is, cs) {
			out = append(out, pPiece{n.cut(r.s, r.e), r.id})
		}
		return out
	}
	var out []pPiece
	for _, x := range cutAt(newNsRef(text), false) {
		if x.tok >= 0 {
			out = append(out, x)
			continue
		}
		p.nd.ref(x.n)
		out = append(out, cutAt(x.n, true)...)
	}
	if p.pre != nil {
		out = p.pre.apply(out)
	}
	return out
}

// covered gives the original range of bytes [a,b) of the piece's text.
func (n *nsRef) covered(a, b int) (int, int) {
	pos, s, e := 0, -1, -1
	for _, c := range n.cs {
		l := utf8.RuneLen(c.r)
		if pos < b && pos+l > a {
			if s < 0 {
				s = c.s
			}
			e = c.e
		}
		pos += l
	}
	return n.shift + s, n.shift + e
}

// tokens is the definition of the whole encoding of one sequence.
func (p pipe) tokens(m tokenizer.Model, text string, ids []int, t *core.T) []rtok {
	var out []rtok
	for i, x := range p.pieces(text, ids) {
		tx := x.n.text()
		if x.tok >= 0 {
			out = append(out, rtok{id: x.tok, tok: tx, s: x.n.shift, e: x.n.shift + len(x.n.orig), at: 1, w: i})
			continue
		}
		toks, err := m.Tokenize(tx)
		if err != nil {
			t.Fatalf("model on %q: %v", tx, err)
		}
		for _, k := range toks {
			s, e := x.n.covered(k.Offsets[0], k.Offsets[1])
			out = append(out, rtok{id: k.Id, tok: k.Value, s: s, e: e, at: 1, w: i})
		}
	}
	return out
}

func showOff(en *tokenizer.Encoding) string {
	var b strings.Builder
	for i := range en.Ids {
		fmt.Fprintf(&b, "%q#%d%v w%d ", en.Tokens[i], en.Ids[i], en.Offsets[i], en.Words[i])
	}
	return b.String()
}

// showRest shows everything but the offsets.
func showRest(en *tokenizer.Encoding) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v %v %q %v %v %v %v [", en.Ids, en.TypeIds, en.Tokens, en.SpecialTokenMask, en.AttentionMask, en.Words, en.SequenceRanges)
	for i := range en.Overflowing {
		b.WriteString(showRest(&en.Overflowing[i]))
	}
	return b.String() + "]"
}

func showWant(r []rtok, text string, chars bool) string {
	var b strings.Builder
	for _, x := range r {
		s, e := x.s, x.e
		if chars {
			s, e = utf8.RuneCountInString(text[:s]), utf8.RuneCountInString(text[:e])
		}
		fmt.Fprintf(&b, "%q#%d[%d %d] w%d ", x.tok, x.id, s, e, x.w)
	}
	return b.String()
}

// offsetShape checks what needs no definition: inside the text, on character
// boundaries, never backwards.
func offsetShape(t *core.T, what, text string, en *tokenizer.Encoding) {
	ls, le := 0, 0
	for i, o := range en.Offsets {
		if len(o) != 2 || o[0] < 0 || o[1] < o[0] || o[1] > len(text) {
			t.Errorf("%s: offsets %v of token %q outside a text of %d bytes", what, o, en.Tokens[i], len(text))
			return
		}
		if !boundary(text, o[0]) || !boundary(text, o[1]) {
			t.Errorf("%s: offsets %v of token %q within a character of %q", what, o, en.Tokens[i], text)
		}
		if o[0] < ls || o[1] < le {
			t.Errorf("%s: offsets %v of token %q run backwards in %q: %v", what, o, en.Tokens[i], text, en.Offsets)
		}
		ls, le = o[0], o[1]
	}
}

func (p pipe) check(tk *tokenizer.Tokenizer, m tokenizer.Model, text string, ids []int, t *core.T) {
	want := p.tokens(m, text, ids, t)
	en, err := tk.EncodeSingle(text)
	if err != nil {
		t.Errorf("%q: %v", text, err)
		return
	}
	offsetShape(t, q(text), text, en)
	if g, w := showOff(en), showWant(want, text, false); g != w {
		t.Errorf("%q:\n    %s\nwant %s", text, g, w)
		return
	}
	ce, err := tk.EncodeCharOffsets(tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(text)), false)
	if err != nil {
		t.Errorf("%q in characters: %v", text, err)
		return
	}
	if g, w := showOff(ce), showWant(want, text, true); g != w {
		t.Errorf("%q in characters:\n    %s\nwant %s", text, g, w)
	}
	t.Op(2)
}

// trimmed is what a range becomes when surrounding spaces are left out of it.
func trimmed(text string, s, e int) (int, int) {
	for s < e {
		r, l := utf8.DecodeRuneInString(text[s:e])
		if !unicode.IsSpace(r) {
			break
		}
		s += l
	}
	for s < e {
		r, l := utf8.DecodeLastRuneInString(text[s:e])
		if !unicode.IsSpace(r) {
			break
		}
		e -= l
	}
	return s, e
}

func c02(c *core.Ctx) {
	norms, pres, models, added := anorms(), pipePres(), pipeModels(), pipeAdded()
	var pipes []pipe
	for _, a := range added {
		for _, n := range norms {
			for _, pr := range pres {
				for _, m := range models {
					pipes = append(pipes, pipe{n, a, pr, m})
				}
			}
		}
	}
	syms := []string{"a", "B", "é", " ", "日", "b"}
	short := words(syms, 0, core.Pick(c, 2, 3))
	extra := []string{"abé 日ab", "  a b  ", "ab\u3000b", "e\u0301a b", "ae\u0301", "½a ﬁ", "a1b2 3", "É aÉb", "<s>Bé <s> a", "Béa b<s>", "a\x00b", "B 日 B日", "日 日", "É", "a.b,é!", "aé.日 b", "▁a▁", "😀a😀 b", "aaaa bbbb", "ab ab ab"}
	texts := append(short, extra...)
	mid := words(syms, 3, core.Pick(c, 3, 4))
	var long []string
	for _, n := range []int{70, core.Pick(c, 150, 600)} {
		long = append(long, strings.Repeat("abé 日B ", n), strings.Repeat("é", n)+" <s>a"+strings.Repeat("日 ", n), strings.Repeat(" ", n)+"ab"+strings.Repeat("<s>", n)+"e\u0301 ½", strings.Repeat("a", n)+strings.Repeat(" b😀", n))
	}
	c.Par(len(pipes), func(w *core.W, i int) {
		if c.TimeUp() {
			return
		}
		p := pipes[i]
		ts := texts
		if i%core.Pick(c, 5, 1) == 0 {
			ts = append(ts[:len(ts):len(ts)], long...)
		}
		if (c.Thorough() || (len(p.added) == 0 && i%3 == 0)) && (p.md.name == "bpe" || p.md.name == "wordpiece" || p.md.name == "unigram/bytes") {
			ts = append(ts[:len(ts):len(ts)], mid...)
		}
		for len(ts) > 0 {
			n := min(len(ts), 400)
			cur := ts[:n]
			ts = ts[n:]
			w.Case(fmt.Sprintf("%v %q..", p, cur[0]), func(t *core.T) {
				tk, ids := p.build()
				m := p.md.mk()
				for _, tx := range cur {
					p.check(tk, m, tx, ids, t)
				}
				t.State(p.String() + cur[0])
			})
		}
	})
	// pairs and pre-tokenized inputs: every sequence, every word on its own
	var some []pipe
	for i, p := range pipes {
		if i%core.Pick(c, 5, 1) == 0 {
			some = append(some, p)
		}
	}
	wl := [][]string{{"a"}, {"ab", "é"}, {"日", "a b", "B"}, {"Bé", "<s>", "ab"}, {}, {"é日", ""}, {"", "a"}}
	c.Par(len(some), func(w *core.W, i int) {
		if c.TimeUp() {
			return
		}
		p := some[i]
		w.Case("sequences "+p.String(), func(t *core.T) {
			tk, ids := p.build()
			m := p.md.mk()
			ref := func(in any, typ int, chars bool) string {
				var b strings.Builder
				show := func(tx string, wi int) {
					rs := p.tokens(m, tx, ids, t)
					for k := range rs {
						if wi >= 0 {
							rs[k].w = wi
						}
					}
					b.WriteString(showWant(rs, tx, chars))
				}
				switch v := in.(type) {
				case string:
					show(v, -1)
				case []string:
					for k, x := range v {
						show(x, k)
					}
				}
				return b.String()
			}
			inputs := []any{"ab é", "日B b", "", "Bé<s>"}
			for _, x := range wl {
				inputs = append(inputs, x)
			}
			for _, a := range inputs {
				for _, b := range append([]any{nil}, inputs...) {
					for _, chars := range []bool{false, true} {
						want := ref(a, 0, chars)
						in := tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(a))
						if b != nil {
							in = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(a), tokenizer.NewInputSequence(b))
							want += ref(b, 1, chars)
						}
						var en *tokenizer.Encoding
						var err error
						if chars {
							en, err = tk.EncodeCharOffsets(in, false)
						} else {
							en, err = tk.Encode(in, false)
						}
						if err != nil {
							t.Errorf("%q %q: %v", a, b, err)
							continue
						}
						if g := showOff(en); g != want {
							t.Errorf("%q %q (characters %v):\n    %s\nwant %s", a, b, chars, g, want)
						}
						sec := 0 // where the second sequence begins
						if b != nil {
							first, err := tk.Encode(tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(a)), false)
							if err != nil {
								t.Fatalf("%q: %v", a, err)
							}
							sec = first.Len()
						} else {
							sec = en.Len()
						}
						for k := range en.Ids {
							if en.TypeIds[k] != core.If(k < sec, 0, 1) || en.AttentionMask[k] != 1 || en.SpecialTokenMask[k] != 0 {
								t.Errorf("%q %q (characters %v): type ids %v, attention %v, special %v; the second sequence begins at %d", a, b, chars, en.TypeIds, en.AttentionMask, en.SpecialTokenMask, sec)
								break
							}
						}
						t.Op(1)
					}
				}
			}
		})
	})
	// character offsets change nothing but the offsets, whatever comes after the model
	backs := c01Backs()
	c.Par(len(backs), func(w *core.W, i int) {
		if c.TimeUp() {
			return
		}
		w.Case("characters "+backs[i].name, func(t *core.T) {
			p := pipes[(i*131)%len(pipes)]
			p.added = added[1]
			tk, _ := p.build()
			tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[CLS]", true), tokenizer.NewAddedToken("[SEP]", true), tokenizer.NewAddedToken("[MID]", true), tokenizer.NewAddedToken("[PAD]", true)})
			id := func(s string) int { k, _ := tk.TokenToId(s); return k }
			if backs[i].post(1, 2, 3) != nil {
				tk.WithPostProcessor(backs[i].post(id("[CLS]"), id("[SEP]"), id("[MID]")))
			}
			tk.WithTruncation(backs[i].trunc)
			tk.WithPadding(backs[i].pad(id("[PAD]")))
			inputs := []any{"", "aé 日b", " <s>É a", []string{"ab", "é 日"}, []string{"", "b", "a日"}}
			for _, a := range inputs {
				for _, b := range append([]any{nil}, inputs...) {
					for _, special := range []bool{false, true} {
						in := tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(a))
						if b != nil {
							in = tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(a), tokenizer.NewInputSequence(b))
						}
						be, berr := tk.Encode(in, special)
						ce, cerr := tk.EncodeCharOffsets(in, special)
						t.Op(2)
						if (berr == nil) != (cerr == nil) {
							t.Errorf("%q %q special %v: error %v, with character offsets %v", a, b, special, berr, cerr)
						}
						if berr != nil || cerr != nil {
							continue
						}
						bs, cs := showRest(be), showRest(ce)
						if bs != cs {
							t.Errorf("%q %q special %v: with byte offsets %s, with character offsets %s", a, b, special, bs, cs)
						}
					}
				}
			}
			t.State(backs[i].name)
		})
	})
	c.Par(1, func(w *core.W, _ int) {
		w.Case("trimming after an added token", func(t *core.T) {
			tk, err := blTok(blMerges{{"Ġ", "a"}}, true, true, 1, []addedDef{{tokenizer.NewAddedToken("<s>", true), true}})
			if err != nil {
				t.Fatalf("%v", err)
			}
			en, err := tk.EncodeSingle("<s>ab")
			if err != nil {
				t.Fatalf("%v", err)
			}
			if !eqInts(en.Offsets[1], []int{3, 4}) {
				t.Errorf("<s>ab with a prefix space and trimming: the token made from the a has %v, want [3 4]", en.Offsets[1])
			}
		})
	})
	// trimming of byte-level offsets
	type trim struct {
		prefix bool
		post   int
		ad     []addedDef
	}
	var trims []trim
	for _, pf := range []bool{false, true} {
		for post := 1; post <= 2; post++ {
			trims = append(trims, trim{pf, post, nil}, trim{pf, post, []addedDef{{tokenizer.NewAddedToken("<s>", true), true}, {tokenizer.NewAddedToken("b b", false), false}}})
		}
	}
	merges := []blMerges{nil, {{"Ġ", "a"}}, {{"Ġ", "Ġ"}, {"Ġ", "a"}, {"Ã", "©"}}, {{"a", "Ġ"}, {"Ġ", "b"}, {"Ġb", "Ã"}}}
	tt := append(words([]string{"a", "b", " ", "é"}, 0, core.Pick(c, 5, 6)), "  <s>  a b b  ", "<s>", " <s> ", "a<s> b b b", "a \u3000b", "\ta\n b")
	c.Par(len(trims)*len(merges), func(w *core.W, i int) {
		if c.TimeUp() {
			return
		}
		tr, ms := trims[i/len(merges)], merges[i%len(merges)]
		w.Case(fmt.Sprintf("trim %+v [%v]", tr, ms), func(t *core.T) {
			plain, err := blTok(ms, tr.prefix, true, 0, tr.ad)
			if err != nil {
				t.Fatalf("%v", err)
			}
			trimTk, err := blTok(ms, tr.prefix, true, tr.post, tr.ad)
			if err != nil {
				t.Fatalf("%v", err)
			}
			p := pipe{nd: anorms()[0], added: tr.ad, pre: blDef(tr.prefix), md: modelDef{name: "bytelevel"}}
			var ids []int
			for _, a := range tr.ad {
				id, _ := plain.TokenToId(a.tok.Content)
				ids = append(ids, id)
			}
			for _, tx := range tt {
				want := p.tokens(plain.GetModel(), tx, ids, t)
				added := func(k int) bool {
					for _, id := range ids {
						if k >= 0 && want[k].id == id {
							return true
						}
					}
					return false
				}
				skip := false // a prefix space put in after an added token: a known finding, below
				for k := 1; tr.prefix && k < len(want); k++ {
					skip = skip || (added(k-1) && !added(k) && tx[want[k].s] != ' ')
				}
				if skip {
					continue
				}
				en, err := trimTk.EncodeSingle(tx)
				if err != nil {
					t.Fatalf("%q: %v", tx, err)
				}
				offsetShape(t, q(tx), tx, en)
				if len(en.Ids) != len(want) {
					t.Fatalf("%q: %d tokens, want %s", tx, len(en.Ids), showWant(want, tx, false))
				}
				for k, x := range want {
					s, e := x.s, x.e
					o := en.Offsets[k]
					if added(k) {
						// a special token is left alone, spaces included
						if !eqInts(o, []int{s, e}) {
							t.Errorf("%q: added token %q has %v, want [%d %d]", tx, x.tok, o, s, e)
						}
						continue
					}
					ts, te := trimmed(tx, s, e)
					if k == 0 && tr.prefix && tx[s] == ' ' && !strings.HasPrefix(tx[s:], "  ") && eqInts(o, []int{s, te}) {
						continue // one space in front may be one that was put there: it is kept
					}
					if ts == te || strings.Trim(x.tok, "Ġ") == "" {
						// nothing but spaces: an empty range or the space itself
						if o[0] < s || o[1] > e || (o[0] < o[1] && strings.TrimSpace(tx[o[0]:o[1]]) != "") {
							t.Errorf("%q: token %q has %v, want within [%d %d]", tx, x.tok, o, s, e)
						}
						continue
					}
					if !eqInts(o, []int{ts, te}) {
						t.Errorf("%q: token %q has %v, want [%d %d]; %s", tx, x.tok, o, ts, te, showOff(en))
					}
				}
				t.Op(1)
			}
		})
	})
}

func blDef(prefix bool) *preDef {
	for _, d := range c15Defs() {
		if d.name == fmt.Sprintf("bytelevel/%v", prefix) {
			return d
		}
	}
	return nil
}

func init() {
	core.Register(&core.Check{
		ID: "C02", Level: "model_checking",
		Rule:        "every combination of 12 normalizers, 18 pre-tokenizers, 7 models and 3 sets of added tokens on every text up to the length bound over six symbols of one to three bytes and on texts with decompositions, ligatures, control and wide characters, long texts: every token's id, text, word and byte and character offsets are compared with a character-level definition of the pipeline (model answers on a piece taken from the model itself); pairs and pre-tokenized inputs; offset trimming of byte-level pipelines",
		Run:         c02,
		Assumptions: []string{"texts are valid UTF-8", "offsets into a pair or a pre-tokenized input are relative to the sequence or word", "a composed character (NFC) stands for the first of its parts", "what a model answers on a piece is decided by C10, C11 and C12"},
	})
}
