package props

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
)

// preDef is a pre-tokenizer with its definition: what becomes of piece number
// idx of the text.
type preDef struct {
	name string
	mk   func() tokenizer.PreTokenizer
	seq  []*preDef // a sequence
	ref  func(idx int, n *nsRef) []*nsRef
}

// pPiece is a piece of a pre-tokenized text; tok >= 0: an added token.
type pPiece struct {
	n   *nsRef
	tok int
}

func (d *preDef) apply(in []pPiece) []pPiece {
	if d.seq != nil {
		for _, m := range d.seq {
			in = m.apply(in)
		}
		return in
	}
	var out []pPiece
	for i, p := range in {
		if p.tok >= 0 {
			out = append(out, p)
			continue
		}
		for _, m := range d.ref(i, p.n) {
			if len(m.cs) > 0 {
				out = append(out, pPiece{m, -1})
			}
		}
	}
	return out
}

func isAsciiSp(r rune) bool { return strings.ContainsRune("\t\n\f\r ", r) }
func isPunctR(r rune) bool {
	return unicode.IsPunct(r) || (r < 128 && r > 32 && !unicode.IsLetter(r) && !unicode.IsDigit(r) && r != 127)
}

// matchRe finds the matches of a regular expression.
func (n *nsRef) matchRe(re *regexp.Regexp) []nsMatch {
	at := map[int]int{}
	for i, p := range n.bytePos() {
		at[p] = i
	}
	var ms []nsMatch
	for _, m := range re.FindAllStringIndex(n.text(), -1) {
		ms = append(ms, nsMatch{at[m[0]], at[m[1]]})
	}
	return ms
}

// invertM turns the stretches between matches into the matches.
func (n *nsRef) invertM(ms []nsMatch) []nsMatch {
	var out []nsMatch
	last := 0
	for _, m := range ms {
		if m.a > last {
			out = append(out, nsMatch{last, m.a})
		}
		last = m.b
	}
	if last < len(n.cs) {
		out = append(out, nsMatch{last, len(n.cs)})
	}
	return out
}

var c15Beh = []normalizer.SplitDelimiterBehavior{normalizer.RemovedBehavior, normalizer.IsolatedBehavior, normalizer.MergedWithPreviousBehavior, normalizer.MergedWithNextBehavior, normalizer.ContiguousBehavior}
var c15BehName = []string{"removed", "isolated", "previous", "next", "contiguous"}

var gptRe = regexp.MustCompile(`'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+`)

// bytesOf replaces every character by the byte-level characters of its bytes.
func (n *nsRef) byteLevel() {
	var out []nsChar
	for _, c := range n.cs {
		for _, b := range []byte(string(c.r)) {
			out = append(out, nsChar{byteChar(b), c.s, c.e})
		}
	}
	n.cs = out
}

// byteChar is the GPT-2 byte alphabet.
func byteChar(b byte) rune {
	printable := func(b int) bool { return (b >= 33 && b <= 126) || (b >= 161 && b <= 172) || b >= 174 }
	if printable(int(b)) {
		return rune(b)
	}
	k := 0
	for i := 0; i < int(b); i++ {
		if !printable(i) {
			k++
		}
	}
	return rune(256 + k)
}

func scriptOf(r rune) string {
	if r == ' ' {
		return "Any"
	}
	if r == 0x30FC {
		return "Han"
	}
	for n, t := range unicode.Scripts {
		if unicode.Is(t, r) {
			if n == "Hiragana" || n == "Katakana" {
				return "Han"
			}
			return n
		}
	}
	return ""
}

func c15Defs() []*preDef {
	var out []*preDef
	add := func(name string, mk func() tokenizer.PreTokenizer, ref func(idx int, n *nsRef) []*nsRef) {
		out = append(out, &preDef{name: name, mk: mk, ref: ref})
	}
	add("whitespace", func() tokenizer.PreTokenizer { return pretokenizer.NewWhitespace() }, func(_ int, n *nsRef) []*nsRef {
		isW := func(r rune) bool {
			return unicode.In(r, unicode.L, unicode.M, unicode.Nl, unicode.Nd, unicode.Pc) || r == '\u200c' || r == '\u200d'
		}
		ms := n.matchRuns(isW)
		ms = append(ms, n.matchRuns(func(r rune) bool { return !isW(r) && !unicode.IsSpace(r) })...)
		var res []*nsRef
		for i := range n.cs { // in order of position
			for _, m := range ms {
				if m.a == i {
					res = append(res, n.cut(m.a, m.b))
				}
			}
		}
		return res
	})
	add("whitespacesplit", func() tokenizer.PreTokenizer { return pretokenizer.NewWhitespaceSplit() }, func(_ int, n *nsRef) []*nsRef {
		return n.split(n.matchEach(func(r rune) bool { return strings.ContainsRune(" \t\n\r", r) }), normalizer.RemovedBehavior)
	})
	add("bert", func() tokenizer.PreTokenizer { return pretokenizer.NewBertPreTokenizer() }, func(_ int, n *nsRef) []*nsRef {
		var res []*nsRef
		for _, p := range n.split(n.matchEach(isAsciiSp), normalizer.RemovedBehavior) {
			res = append(res, p.split(p.matchEach(isPunctR), normalizer.IsolatedBehavior)...)
		}
		return res
	})
	for i, b := range c15Beh {
		add("punctuation/"+c15BehName[i], func() tokenizer.PreTokenizer { return pretokenizer.NewPunctuation(b) }, func(_ int, n *nsRef) []*nsRef {
			return n.split(n.matchEach(isPunctR), b)
		})
	}
	add("digits/each", func() tokenizer.PreTokenizer { return pretokenizer.NewDigits(true) }, func(_ int, n *nsRef) []*nsRef {
		return n.split(n.matchEach(unicode.IsNumber), normalizer.IsolatedBehavior)
	})
	add("digits/runs", func() tokenizer.PreTokenizer { return pretokenizer.NewDigits(false) }, func(_ int, n *nsRef) []*nsRef {
		return n.split(n.matchRuns(unicode.IsNumber), normalizer.IsolatedBehavior)
	})
	for _, dl := range []rune{'-', 'é', ' ', 'a'} {
		add("delimiter/"+string(dl), func() tokenizer.PreTokenizer { return pretokenizer.NewCharDelimiterSplit(dl) }, func(_ int, n *nsRef) []*nsRef {
			return n.split(n.matchEach(func(r rune) bool { return r == dl }), normalizer.RemovedBehavior)
		})
	}
	type pat struct {
		name string
		p    func() normalizer.Pattern
		m    func(n *nsRef) []nsMatch
	}
	var pats []pat
	for _, s := range []string{"a", "é", "aa", ".", "", " a", "a."} {
		pats = append(pats, pat{"str" + q(s), func() normalizer.Pattern { return normalizer.NewStringPattern(s) }, func(n *nsRef) []nsMatch {
			if s == "" {
				return nil
			}
			return n.matchStr(s)
		}})
	}
	for _, s := range []string{`a+`, `\s+`, `a*`, `[é日]`, `^a`, `a$`, `.`, `(a)(b)?`, `\p{L}+|1`} {
		re := regexp.MustCompile(s)
		pats = append(pats, pat{"re" + q(s), func() normalizer.Pattern { return normalizer.NewRegexpPattern(s) }, func(n *nsRef) []nsMatch { return n.matchRe(re) }})
	}
	pats = append(pats, pat{"rune é", func() normalizer.Pattern { return normalizer.NewRunePattern('é') }, func(n *nsRef) []nsMatch { return n.matchStr("é") }})
	pats = append(pats, pat{"fn letter", func() normalizer.Pattern { return normalizer.NewFnPattern(unicode.IsLetter) }, func(n *nsRef) []nsMatch { return n.matchEach(unicode.IsLetter) }})
	for _, p := range pats {
		for i, b := range c15Beh {
			for _, inv := range []bool{false, true} {
				if p.name == `re"a*"` && inv {
					continue // whether an empty match is a piece of its own has no observable meaning
				}
				add(fmt.Sprintf("split %s/%s/%v", p.name, c15BehName[i], inv), func() tokenizer.PreTokenizer { return pretokenizer.NewSplit(p.p(), b, inv) }, func(_ int, n *nsRef) []*nsRef {
					ms := p.m(n)
					if inv {
						// what lies between matches is the delimiter, matches themselves are kept apart
						return n.splitInv(ms, b)
					}
					return n.split(ms, b)
				})
			}
		}
	}
	for _, rep := range []string{"▁", ".", "__", "é", "a"} {
		for sc, scn := range []string{"never", "first", "always"} {
			add("metaspace/"+rep+"/"+scn, func() tokenizer.PreTokenizer {
				return pretokenizer.NewMetaspaceWithScheme(rep, pretokenizer.PrependScheme(sc))
			}, func(idx int, n *nsRef) []*nsRef {
				n.replace(n.matchEach(isAsciiSp), rep)
				if (sc == 2 || (sc == 1 && idx == 0)) && !strings.HasPrefix(n.text(), rep) {
					n.prepend(rep)
				}
				return n.split(n.matchStr(rep), normalizer.MergedWithNextBehavior)
			})
		}
	}
	for _, pre := range []bool{false, true} {
		add(fmt.Sprintf("bytelevel/%v", pre), func() tokenizer.PreTokenizer {
			bl := pretokenizer.NewByteLevel()
			bl.SetAddPrefixSpace(pre)
			return bl
		}, func(_ int, n *nsRef) []*nsRef {
			if pre && !strings.HasPrefix(n.text(), " ") {
				n.prepend(" ")
			}
			res := n.split(n.matchRe(gptRe), normalizer.IsolatedBehavior)
			for _, r := range res {
				r.byteLevel()
			}
			return res
		})
	}
	add("script", func() tokenizer.PreTokenizer { return pretokenizer.NewUnicodeScript() }, func(_ int, n *nsRef) []*nsRef {
		var res []*nsRef
		start, last := 0, "Any"
		for i, c := range n.cs {
			s := scriptOf(c.r)
			if s == "Any" {
				continue
			}
			if last != "Any" && last != s {
				res = append(res, n.cut(start, i))
				start = i
			}
			last = s
		}
		return append(res, n.cut(start, len(n.cs)))
	})
	return out
}

// splitInv splits with the matches and the stretches between them swapped.
func (n *nsRef) splitInv(ms []nsMatch, b normalizer.SplitDelimiterBehavior) []*nsRef {
	var a, e []int
	var m []bool
	put := func(x, y int, f bool) { a, e, m = append(a, x), append(e, y), append(m, f) }
	last := 0
	for _, x := range ms {
		if x.a > last {
			put(last, x.a, true)
		}
		put(x.a, x.b, false)
		last = x.b
	}
	if last < len(n.cs) || len(a) == 0 {
		put(last, len(n.cs), true)
	}
	return n.splitSegs(func() ([]int, []int, []bool) { return a, e, m })(b)
}

// c15Start is the state before pre-tokenization: the text normalized, with
// occurrences of added tokens taken out.
func c15Start(text string, norm int) (*tokenizer.PreTokenizedString, []pPiece) {
	av := tokenizer.NewAddedVocabulary()
	mm := mapModel{v: map[string]int{}}
	av.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("§", true)}, mm, nil)
	var nz normalizer.Normalizer
	switch norm {
	case 1:
		nz = normalizer.NewNFD()
	case 2:
		nz = normalizer.NewReplace(normalizer.String, "b", "a 1")
	}
	pt := av.ExtractAndNormalize(text, nz)
	var ps []pPiece
	whole := newNsRef(text)
	ps = nil
	last := 0
	put := func(a, b int, tok int) {
		if a == b {
			return
		}
		p := whole.cut(a, b)
		if tok < 0 {
			var out []nsChar
			for _, c := range p.cs {
				switch {
				case norm == 1 && c.r == 'é':
					out = append(out, nsChar{'e', c.s, c.e}, nsChar{'\u0301', c.s, c.e})
				case norm == 2 && c.r == 'b':
					for _, r := range "a 1" {
						out = append(out, nsChar{r, c.s, c.e})
					}
				default:
					out = append(out, c)
				}
			}
			p.cs = out
		}
		ps = append(ps, pPiece{p, tok})
	}
	for _, m := range whole.matchStr("§") {
		put(last, m.a, -1)
		put(m.a, m.b, 0)
		last = m.b
	}
	put(last, len(whole.cs), -1)
	return pt, ps
}

func c15Case(d *preDef, pre tokenizer.PreTokenizer, text string, norm int, t *core.T) {
	pt, ps := c15Start(text, norm)
	want := d.apply(ps)
	var out *tokenizer.PreTokenizedString
	var err error
	out, err = pre.PreTokenize(pt)
	if err != nil {
		t.Errorf("%q: error %v", text, err)
		return
	}
	var w, g, wc, gc strings.Builder
	pos := 0
	wn, gn := "", ""
	for _, p := range want {
		s, e := p.n.shift, p.n.shift+len(p.n.orig)
		tx := p.n.text()
		fmt.Fprintf(&w, "%q[%d,%d)%v ", tx, s, e, p.tok >= 0)
		fmt.Fprintf(&wc, "%q[%d,%d) ", tx, utf8.RuneCountInString(text[:s]), utf8.RuneCountInString(text[:e]))
		wn += fmt.Sprintf("%q[%d,%d) ", tx, pos, pos+len(tx))
		pos += len(tx)
	}
	for _, p := range out.GetSplits(normalizer.OriginalTarget, tokenizer.Byte) {
		fmt.Fprintf(&g, "%q[%d,%d)%v ", p.Value, p.Offsets[0], p.Offsets[1], len(p.Tokens) == 1 && p.Tokens[0].Id == 0)
	}
	if g.String() != w.String() {
		t.Errorf("%q (norm %d):\n    %s\nwant %s", text, norm, g.String(), w.String())
		return
	}
	for _, p := range out.GetSplits(normalizer.OriginalTarget, tokenizer.Char) {
		fmt.Fprintf(&gc, "%q[%d,%d) ", p.Value, p.Offsets[0], p.Offsets[1])
	}
	if gc.String() != wc.String() {
		t.Errorf("%q (norm %d), in characters:\n    %s\nwant %s", text, norm, gc.String(), wc.String())
	}
	for _, p := range out.GetSplits(normalizer.NormalizedTarget, tokenizer.Byte) {
		gn += fmt.Sprintf("%q[%d,%d) ", p.Value, p.Offsets[0], p.Offsets[1])
	}
	if gn != wn {
		t.Errorf("%q (norm %d), in the normalized text:\n    %s\nwant %s", text, norm, gn, wn)
	}
	t.Op(1)
	t.State(w.String())
}

func c15(c *core.Ctx) {
	defs := c15Defs()
	by := map[string]*preDef{}
	for _, d := range defs {
		by[d.name] = d
	}
	// the other ways to make them
	for _, o := range []struct {
		name, as string
		mk       func() tokenizer.PreTokenizer
	}{
		{"whitespace/default", "whitespace", func() tokenizer.PreTokenizer { return pretokenizer.DefaultWhitespace() }},
		{"punctuation/default", "punctuation/isolated", func() tokenizer.PreTokenizer { return pretokenizer.DefaultPunctuation() }},
		{"digits/default", "digits/runs", func() tokenizer.PreTokenizer { return pretokenizer.DefaultDigits() }},
		{"script/default", "script", func() tokenizer.PreTokenizer { return pretokenizer.DefaultUnicodeScript() }},
		{"metaspace/default", "metaspace/▁/always", func() tokenizer.PreTokenizer { return pretokenizer.DefaultMetaspace() }},
		{"metaspace/new true", "metaspace/__/always", func() tokenizer.PreTokenizer { return pretokenizer.NewMetaspace("__", true) }},
		{"metaspace/new false", "metaspace/é/never", func() tokenizer.PreTokenizer { return pretokenizer.NewMetaspace("é", false) }},
		{"metaspace/set", "metaspace/./always", func() tokenizer.PreTokenizer {
			m := pretokenizer.DefaultMetaspace()
			m.SetReplacement(".")
			return m
		}},
		{"metaspace/set first", "metaspace/a/first", func() tokenizer.PreTokenizer {
			m := pretokenizer.NewMetaspaceWithScheme("▁", pretokenizer.First)
			m.SetReplacement("a")
			return m
		}},
		{"bytelevel/default", "bytelevel/true", func() tokenizer.PreTokenizer { return pretokenizer.NewByteLevel() }},
		{"bytelevel/set trim", "bytelevel/false", func() tokenizer.PreTokenizer {
			b := pretokenizer.NewByteLevel()
			b.SetTrimOffsets(false)
			b.SetAddPrefixSpace(false)
			return b
		}},
		{"sequence of one", "digits/each", func() tokenizer.PreTokenizer {
			return pretokenizer.NewSequence([]tokenizer.PreTokenizer{pretokenizer.NewDigits(true)})
		}},
	} {
		defs = append(defs, &preDef{name: o.name, mk: o.mk, ref: by[o.as].ref})
	}
	n1 := len(defs)
	// sequences of two (and a few of three)
	var subset []*preDef
	for _, d := range defs {
		switch d.name {
		case "whitespace", "whitespacesplit", "bert", "punctuation/isolated", "punctuation/next", "digits/each", "digits/runs", "delimiter/-", "metaspace/▁/first", "metaspace/▁/always", "bytelevel/false", "bytelevel/true", "script", `split re"\\s+"/next/false`, `split re"a+"/isolated/true`, "split fn letter/previous/false":
			subset = append(subset, d)
		}
	}
	mkSeq := func(ds ...*preDef) {
		var names []string
		for _, d := range ds {
			names = append(names, d.name)
		}
		defs = append(defs, &preDef{name: "[" + strings.Join(names, " | ") + "]", seq: ds, mk: func() tokenizer.PreTokenizer {
			var ps []tokenizer.PreTokenizer
			for _, d := range ds {
				ps = append(ps, d.mk())
			}
			return pretokenizer.NewSequence(ps)
		}})
	}
	for _, a := range subset {
		for _, b := range subset {
			mkSeq(a, b)
		}
	}
	n2 := len(defs)
	for _, a := range subset {
		for _, b := range subset {
			for _, d := range subset {
				mkSeq(a, b, d)
			}
		}
	}
	syms := []string{"a", "é", "1", " ", ".", "§", "日"}
	t1 := words(syms, 0, core.Pick(c, 4, 5))
	t2 := words(syms, 0, core.Pick(c, 3, 4))
	t3 := words([]string{"a", "1", " ", ".", "§"}, 0, core.Pick(c, 2, 4))
	extra := []string{"it's we're I'll  the'd", "b b", "bb", "b", "aab§b.b 1b", "\t\n\r \f", "\u3000a\u00a0b\u3000", "aいグー漢字 アb\u0301c$", "½Ⅳ²3٣", "-a-b--a-", " -é- ", "▁a▁ b", "a_a-_b_", "😀a 😀😀1", "e\u0301e\u0301 \u0301", "¿Qué?¡", "$+<=>^`|~", "\u0378a\u0378 b", "  ", "\u200d\u200ca", "§§", " § § ", "a§", "§a", "x", "aaaa", "a  b   a    "}
	// every character of interest on its own and between letters
	for _, r := range []rune{'\v', '\u0085', '\u00a0', '\u1680', '\u2000', '\u2028', '\u202f', '\u205f', '\u3000', '\ufeff', '\u200b', '‿', '_', 'ª', 'ʰ', '٣', '௧', 'Ⅷ', '㉈', '¼', '«', '〈', '£', '°', '\u0300', '\u20dd', '한', 'ー', 'ﾊ', '゛', 'Ω', 'ж', 'א', '٪', '\U0001F600', '\U00020000', '\x00', '\x7f', '\ufffd'} {
		extra = append(extra, string(r), "a"+string(r)+"b", string(r)+string(r)+" "+string(r))
	}
	// long ones: many pieces, long pieces
	var long []string
	for _, n := range []int{33, 70, core.Pick(c, 140, 520)} {
		for _, u := range []string{"a", "é", "a ", "1. ", "ab-é ", "日b§ ", "  \t", "it's. "} {
			long = append(long, strings.Repeat(u, n))
		}
		long = append(long, strings.Repeat("x", n)+" "+strings.Repeat("é.", 3)+strings.Repeat("1", n)+"§b"+strings.Repeat(" ", n)+"日")
	}
	type job struct {
		d     *preDef
		texts []string
	}
	var jobs []job
	chunk := func(d *preDef, ts []string) {
		for len(ts) > 0 {
			n := min(400, len(ts))
			jobs = append(jobs, job{d, ts[:n]})
			ts = ts[n:]
		}
	}
	for i, d := range defs {
		switch {
		case i < n1:
			chunk(d, t1)
		case i < n2:
			chunk(d, t2)
		default:
			chunk(d, t3)
		}
		if i < n2 {
			chunk(d, extra)
			chunk(d, long)
		}
	}
	c.Par(len(jobs), func(w *core.W, i int) {
		if c.TimeUp() {
			return
		}
		j := jobs[i]
		for nm := 0; nm < 3; nm++ {
			if nm == 2 && j.texts[0] == t1[0] {
				continue // no "b" in these texts
			}
			w.Case(fmt.Sprintf("%s n%d %q..", j.d.name, nm, j.texts[0]), func(t *core.T) {
				pre := j.d.mk() // one instance for all of them: what it did before must not show
				for _, tx := range j.texts {
					if nm == 1 && !strings.Contains(tx, "é") {
						continue
					}
					if nm == 2 && !strings.Contains(tx, "b") {
						continue
					}
					c15Case(j.d, pre, tx, nm, t)
				}
			})
		}
	})
	// the byte alphabet
	c.Par(1, func(w *core.W, _ int) {
		w.Case("byte alphabet", func(t *core.T) {
			for b := 0; b < 256; b++ {
				if g, w := pretokenizer.BytesChar[uint8(b)], string(byteChar(byte(b))); g != w {
					t.Errorf("byte %d is %q, want %q", b, g, w)
				}
			}
			ab := pretokenizer.NewByteLevel().Alphabet()
			for b := 0; b < 256; b++ {
				if _, ok := ab[string(byteChar(byte(b)))]; !ok {
					t.Errorf("the character of byte %d is not in the alphabet", b)
				}
			}
			if len(ab) != 256 {
				t.Errorf("the alphabet has %d characters", len(ab))
			}
		})
	})
}

func init() {
	core.Register(&core.Check{
		ID: "C15", Level: "model_checking",
		Rule:        "every pre-tokenizer and option (splitting on strings, regular expressions, characters and predicates with all five behaviours, inverted or not), every sequence of two of 16 and every sequence of three, on every text up to the length bound over letters of three scripts, digit, space, punctuation and an added token already extracted, plus texts around single characters of every relevant class, raw or normalized with expansion beforehand; the pieces, their original ranges in bytes and characters, their normalized ranges and the untouched token pieces are compared with definitions on characters",
		Run:         c15,
		Assumptions: []string{"Unicode tables of the Go library; Go's regexp decides what a configured regular expression matches", "whitespace of WhitespaceSplit is space, tab, newline, carriage return, that of Bert and Metaspace the regular expression's \\s (the definitions given in the code)", "byte-level splitting uses the pattern given in the code (without the look-ahead of GPT-2), runs of whitespace being pieces of their own"},
	})
}
