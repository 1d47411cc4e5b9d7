package props

import (
	"fmt"
	"strings"
	"unicode"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
)

// nch is one character of a normalized text with the original range it stands for.
type nch struct {
	r    rune
	s, e int
}

func nchOf(s string, base int) []nch {
	var out []nch
	for i, r := range s {
		out = append(out, nch{r, base + i, base + i + len(string(r))})
	}
	return out
}

func nchStr(n []nch) string {
	var b strings.Builder
	for _, c := range n {
		b.WriteRune(c.r)
	}
	return b.String()
}

// cnormDef is a normalizer together with its definition on characters.
type cnormDef struct {
	name string
	mk   func() normalizer.Normalizer
	ref  func([]nch) []nch
}

func c14Norms() []cnormDef {
	each := func(f func(rune) string) func([]nch) []nch {
		return func(in []nch) []nch {
			var out []nch
			for _, c := range in {
				for _, r := range f(c.r) {
					out = append(out, nch{r, c.s, c.e})
				}
			}
			return out
		}
	}
	return []cnormDef{
		{"none", func() normalizer.Normalizer { return nil }, func(n []nch) []nch { return n }},
		{"lower", func() normalizer.Normalizer { return normalizer.Lowercase() }, each(func(r rune) string { return strings.ToLower(string(r)) })},
		{"nfd", func() normalizer.Normalizer { return normalizer.NewNFD() }, each(func(r rune) string {
			if r == 'é' {
				return "e\u0301"
			}
			switch r {
			case 'É':
				return "E\u0301"
			case 'İ':
				return "I\u0307"
			}
			return string(r)
		})},
	}
}

type addedDef struct {
	tok     tokenizer.AddedToken
	special bool
}

func (a addedDef) String() string {
	f := ""
	for _, x := range []struct {
		b bool
		s string
	}{{a.special, "S"}, {a.tok.SingleWord, "w"}, {a.tok.LStrip, "l"}, {a.tok.RStrip, "r"}, {a.tok.Normalized, "n"}} {
		if x.b {
			f += x.s
		}
	}
	return fmt.Sprintf("%q/%s", a.tok.Content, f)
}

// made makes the token in one of three ways: its fields, options, setters.
func (a addedDef) made(how int) tokenizer.AddedToken {
	k := a.tok
	switch how % 3 {
	case 1:
		return tokenizer.NewAddedToken(k.Content, a.special, tokenizer.WithSingleWord(k.SingleWord), tokenizer.WithLStrip(k.LStrip), tokenizer.WithRStrip(k.RStrip), tokenizer.WithNormalized(k.Normalized))
	case 2:
		n := tokenizer.DefaultAddedToken()
		n.Content = k.Content
		if how&1 != 0 {
			n = tokenizer.NewAddedToken(k.Content, a.special)
		}
		if n.Normalized != k.Normalized {
			n = n.SetNormalized(k.Normalized)
		}
		for _, f := range []struct {
			v   bool
			set func(bool) tokenizer.AddedToken
		}{{k.SingleWord, func(b bool) tokenizer.AddedToken { return n.SetSingleWord(b) }}, {k.LStrip, func(b bool) tokenizer.AddedToken { return n.SetLStrip(b) }}, {k.RStrip, func(b bool) tokenizer.AddedToken { return n.SetRStrip(b) }}} {
			if f.v {
				n = f.set(true)
			}
		}
		return n
	}
	return k
}

type refPiece struct {
	text string
	s, e int
	id   int // -1: handed to the model
}

func isWordR(r rune) bool {
	return unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.Is(unicode.Pc, r) || r == '\u200c' || r == '\u200d'
}

// c14Cut cuts a text at the leftmost occurrences of the given tokens, the earlier
// registered of two that start at the same place.
func c14Cut(text []nch, toks []addedDef, ids []int, contents []string) []refPiece {
	var out []refPiece
	plain := 0
	flush := func(to int) {
		if plain < to {
			out = append(out, refPiece{nchStr(text[plain:to]), text[plain].s, text[to-1].e, -1})
		}
	}
	match := func(pos, k int) int {
		pat := []rune(contents[k])
		if len(pat) == 0 {
			return -1
		}
		a := toks[k].tok
		hi := pos
		if a.LStrip {
			for hi < len(text) && unicode.IsSpace(text[hi].r) {
				hi++
			}
		}
		for st := hi; st >= pos; st-- {
			if st+len(pat) > len(text) {
				continue
			}
			ok := true
			for i, r := range pat {
				ok = ok && text[st+i].r == r
			}
			if !ok {
				continue
			}
			en := st + len(pat)
			if a.SingleWord {
				if st > 0 && isWordR(pat[0]) && isWordR(text[st-1].r) {
					continue
				}
				if en < len(text) && isWordR(pat[len(pat)-1]) && isWordR(text[en].r) {
					continue
				}
			}
			if a.RStrip {
				for en < len(text) && unicode.IsSpace(text[en].r) {
					en++
				}
			}
			return en
		}
		return -1
	}
	for pos := 0; pos < len(text); {
		hit := -1
		for k := range toks {
			if en := match(pos, k); en >= 0 {
				flush(pos)
				out = append(out, refPiece{nchStr(text[pos:en]), text[pos].s, text[en-1].e, ids[k]})
				plain, hit = en, en
				break
			}
		}
		if hit >= 0 {
			pos = hit
		} else {
			pos++
		}
	}
	flush(len(text))
	return out
}

// c14Ref is the definition: tokens matched on the text as it is first, then, in
// what remains, tokens matched on the normalized text.
func c14Ref(text string, defs []addedDef, ids []int, nd cnormDef) []refPiece {
	pick := func(norm bool) (ds []addedDef, is []int, cs []string) {
		for _, sp := range []bool{true, false} {
			for i, d := range defs {
				if d.special != sp || d.tok.Normalized != norm {
					continue
				}
				ct := d.tok.Content
				if norm {
					ct = nchStr(nd.ref(nchOf(ct, 0)))
				}
				ds, is, cs = append(ds, d), append(is, ids[i]), append(cs, ct)
			}
		}
		return
	}
	var out []refPiece
	ds, is, cs := pick(false)
	ds2, is2, cs2 := pick(true)
	for _, p := range c14Cut(nchOf(text, 0), ds, is, cs) {
		if p.id >= 0 {
			out = append(out, p)
			continue
		}
		out = append(out, c14Cut(nd.ref(nchOf(text[p.s:p.e], p.s)), ds2, is2, cs2)...)
	}
	return out
}

func showPieces(p []refPiece) string {
	var b strings.Builder
	for _, x := range p {
		fmt.Fprintf(&b, "%q[%d,%d)#%d ", x.text, x.s, x.e, x.id)
	}
	return b.String()
}

// c14Tok builds a tokenizer with the tokens and returns their ids.
func c14Tok(defs []addedDef, nd cnormDef, normFirst bool, seen *[]string) (*tokenizer.Tokenizer, []int) {
	tk := tokenizer.NewTokenizer(mapModel{v: map[string]int{"known": 0}, seen: seen})
	if normFirst {
		tk.WithNormalizer(nd.mk())
	}
	var ids []int
	for i, d := range defs {
		tok := d.made(i + len(d.tok.Content))
		if d.special {
			tk.AddSpecialTokens([]tokenizer.AddedToken{tok})
		} else {
			tk.AddTokens([]tokenizer.AddedToken{tok})
		}
		id, _ := tk.TokenToId(d.tok.Content)
		ids = append(ids, id)
	}
	if !normFirst {
		tk.WithNormalizer(nd.mk())
	}
	return tk, ids
}

func c14Texts(tk *tokenizer.Tokenizer, defs []addedDef, ids []int, nd cnormDef, texts []string, seen *[]string, t *core.T) {
	av := tokenizer.NewAddedVocabulary()
	mm := mapModel{v: map[string]int{"known": 0}}
	for _, d := range defs {
		if d.special {
			av.AddSpecialTokens([]tokenizer.AddedToken{d.tok}, mm, nd.mk())
		} else {
			av.AddTokens([]tokenizer.AddedToken{d.tok}, mm, nd.mk())
		}
	}
	for _, text := range texts {
		want := c14Ref(text, defs, ids, nd)
		var got []refPiece
		for _, p := range av.ExtractAndNormalize(text, nd.mk()).GetSplits(normalizer.OriginalTarget, tokenizer.Byte) {
			if p.Value == "" && len(p.Tokens) == 0 {
				continue
			}
			x := refPiece{p.Value, p.Offsets[0], p.Offsets[1], -1}
			if len(p.Tokens) == 1 && eqInts(p.Tokens[0].Offsets, []int{0, len(p.Value)}) {
				x.id = p.Tokens[0].Id
			} else if len(p.Tokens) > 0 {
				x.id = -99
			}
			got = append(got, x)
		}
		if g, w := showPieces(got), showPieces(want); g != w {
			t.Errorf("text %q is cut into\n     %s\nwant %s", text, g, w)
			return
		}
		t.Op(1)
		// the whole pipeline: what the model is asked, what the encoding holds
		*seen = (*seen)[:0]
		var wantSeen []string
		for _, p := range want {
			if p.id < 0 {
				wantSeen = append(wantSeen, p.text)
			}
		}
		enc, err := tk.EncodeSingle(text, true)
		if err != nil {
			t.Errorf("text %q: %v", text, err)
			return
		}
		var gs []string
		for _, s := range *seen {
			if s != "" {
				gs = append(gs, s)
			}
		}
		if !eqStrs(gs, wantSeen) {
			t.Errorf("text %q: the model was asked for %q, want %q", text, gs, wantSeen)
		}
		if len(enc.Ids) != len(want) {
			t.Errorf("text %q: %d tokens %q, want %s", text, len(enc.Ids), enc.Tokens, showPieces(want))
			return
		}
		for i, p := range want {
			id := core.If(p.id < 0, 9999, p.id)
			if enc.Ids[i] != id || !eqInts(enc.Offsets[i], []int{p.s, p.e}) || enc.Tokens[i] != p.text {
				t.Errorf("text %q: token %d is %q#%d%v, want %s", text, i, enc.Tokens[i], enc.Ids[i], enc.Offsets[i], showPieces(want))
			}
		}
		t.Op(1)
	}
}

func c14(c *core.Ctx) {
	norms := c14Norms()
	var defs []addedDef
	contents := []string{"a", "ab", "é", "aé", "a b", "b-", "A", " a", "aa"}
	var small []addedDef
	for _, ct := range contents {
		for f := 0; f < 32; f++ {
			at := tokenizer.AddedToken{Content: ct, SingleWord: f&1 != 0, LStrip: f&2 != 0, RStrip: f&4 != 0, Normalized: f&8 != 0}
			d := addedDef{at, f&16 != 0}
			defs = append(defs, d)
		}
	}
	// the combinations used in sets of two and three: not special or special, one option at a time
	for _, ct := range []string{"a", "ab", "ba", "b", "aa", "é"} {
		for _, f := range []int{0, 1, 2, 4, 8, 8 + 6, 16, 16 + 4, 24} {
			small = append(small, addedDef{tokenizer.AddedToken{Content: ct, SingleWord: f&1 != 0, LStrip: f&2 != 0, RStrip: f&4 != 0, Normalized: f&8 != 0}, f&16 != 0})
		}
	}
	type job struct {
		ds    []addedDef
		nd    cnormDef
		first bool
		texts []string
	}
	var jobs []job
	t1 := words([]string{"a", "b", "é", " ", "-", "A"}, 0, core.Pick(c, 4, 5))
	t2 := words([]string{"a", "b", "é", " "}, 0, core.Pick(c, 4, 5))
	t3 := words([]string{"a", "b", " "}, 0, core.Pick(c, 4, 5))
	long := []string{"a a a a a a", "  a  b\t a\u3000", "ab-ab- aab aba", "aaaaaaaaa", "a-a_a é_a\u00a0a", strings.Repeat("ab ", 9)}
	t1 = append(t1, long...)
	t2 = append(t2, long...)
	for _, nd := range norms {
		for i, d := range defs {
			jobs = append(jobs, job{[]addedDef{d}, nd, i%2 == 0, t1})
		}
		for i, d := range small {
			for j, e := range small {
				if d.tok.Content != e.tok.Content {
					jobs = append(jobs, job{[]addedDef{d, e}, nd, (i+j)%2 == 0, t2})
				}
			}
		}
	}
	n3 := 0
	for i, d := range small {
		for j, e := range small {
			for k, f := range small {
				if d.tok.Content == e.tok.Content || d.tok.Content == f.tok.Content || e.tok.Content == f.tok.Content {
					continue
				}
				if !c.Thorough() && (i+j+k)%9 != 0 {
					continue
				}
				jobs = append(jobs, job{[]addedDef{d, e, f}, norms[1+n3%2], k%2 == 0, t3})
				n3++
			}
		}
	}
	at := func(ct string, f int) addedDef {
		return addedDef{tokenizer.AddedToken{Content: ct, SingleWord: f&1 != 0, LStrip: f&2 != 0, RStrip: f&4 != 0, Normalized: f&8 != 0}, f&16 != 0}
	}
	// contents with a meaning elsewhere, and characters next to a whole word
	for _, ct := range []string{"[M]", "a.b", "$", "^", "a*", "(", "\\", "|", "[", "a?", "\\b", "a+", "<s>", "%s", "\n", "日本", "İ", "ß", "K", "1", "_", "\u0301", "😀", strings.Repeat("ab", 60)} {
		var ts []string
		for _, x := range append([]string{"", ct, "ab", "a", " ", ".", "1", "٣", "_", "‿", "\u0301", "\u200d", "é", "日", "\u00ad", "😀", "²", "-", "\n", "\t ", "\r\n", "\v", "\u0085", "\u00a0", "\u2003", "\u200b", "\ufeff"}, strings.ToLower(ct), strings.ToUpper(ct)) {
			ts = append(ts, x+ct, ct+x, x+ct+x, x+ct+ct+x, x+x+ct+" "+ct+x+x+"q", ct+x+ct)
		}
		for _, nd := range norms {
			ts := ts
			if nd.name == "nfd" { // which of several characters composed together a mark belongs to is not defined here
				var l []string
				for _, x := range ts {
					if !strings.Contains(x, "é\u0301") && !strings.Contains(x, "İ\u0301") {
						l = append(l, x)
					}
				}
				ts = l
			}
			for f := 0; f < 32; f++ {
				jobs = append(jobs, job{[]addedDef{at(ct, f)}, nd, f%2 == 0, ts})
			}
		}
	}
	// long texts and many tokens
	var longT []string
	for _, n := range []int{65, 130, core.Pick(c, 260, 1030)} {
		for _, u := range []string{"a", "ab", "ab ", "ab  é", " ", "-", "ba-é\n", "Aé b日", "a\u3000\t"} {
			longT = append(longT, strings.Repeat(u, n), strings.Repeat(" -", n)+strings.Repeat(u, 3)+strings.Repeat("q é", n), strings.Repeat("q", n)+u+"z")
		}
	}
	for i, d := range small {
		jobs = append(jobs, job{[]addedDef{d, small[(i+11)%len(small)], at("b é", i%32)}, norms[i%3], i%2 == 0, longT})
	}
	for _, n := range []int{9, 33, 71, 300} {
		for f := 0; f < 32; f++ {
			var ds []addedDef
			var ts []string
			for k := 0; k < n; k++ {
				// names that are the beginning of others
				ct := strings.Repeat("t", 1+(k*7)%n%9) + fmt.Sprint((k*7)%n)
				ds = append(ds, at(ct, core.If(k%3 == 0, f, (f*5+k)%32)))
				if k%(1+n/40) == 0 {
					ts = append(ts, ct, "x"+ct+" ", " "+ct+fmt.Sprint(k), ct+ct+"t", strings.ToUpper(ct)+" é")
				}
			}
			ts = append(ts, strings.Join(ts, ""), strings.Join(ts, " "))
			jobs = append(jobs, job{ds, norms[f%3], f%2 == 0, ts})
		}
	}
	c.Par(len(jobs), func(w *core.W, i int) {
		if c.TimeUp() {
			return
		}
		j := jobs[i]
		w.Case(fmt.Sprintf("%s %.600s", j.nd.name, fmt.Sprint(j.ds)), func(t *core.T) {
			var seen []string
			tk, ids := c14Tok(j.ds, j.nd, j.first, &seen)
			c14Texts(tk, j.ds, ids, j.nd, j.texts, &seen, t)
			t.State(fmt.Sprintf("%s %v", j.nd.name, j.ds))
		})
	})
}

func init() {
	core.Register(&core.Check{
		ID: "C14", Level: "model_checking",
		Rule:        "every added token of 9 contents with all 32 combinations of special, whole-word, left-strip, right-strip and normalized, every ordered pair of tokens from 54 and (thorough: every, quick: every ninth) ordered triple, under no normalizer, lowercasing and canonical decomposition, set before or after the tokens; on every text up to the length bound over letters of both cases, an accented letter, space and hyphen; 24 contents with a meaning elsewhere (regular expression operators, format verbs, control and combining characters, 120 letters) with all 32 options beside characters of every class; texts of 65 to 260 (thorough 1030) repetitions; sets of 9 to 300 tokens, names beginning others; the pieces, their original ranges, ids, what the model is asked to tokenize and the final encoding are compared with a character-level definition",
		Run:         c14,
		Assumptions: []string{"tokens that start at the same place: special tokens first, then the one registered first (the documented order of precedence)", "token contents are distinct and unknown to the model", "a word character is a letter, mark, decimal digit, connector punctuation or join control"},
	})
}
