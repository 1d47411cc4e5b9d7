package props

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/mc/core"

	"github.com/sugarme/tokenizer/normalizer"
	"golang.org/x/text/unicode/norm"
)

// normDef is a normalizer with its textual definition.
type normDef struct {
	name string
	mk   func() normalizer.Normalizer
	def  func(string) string
	idem bool
}

func mapStr(f func(rune) rune) func(string) string {
	return func(s string) string {
		var b strings.Builder
		for _, r := range s {
			b.WriteRune(f(r))
		}
		return b.String()
	}
}

func keep(f func(rune) bool) func(string) string {
	return func(s string) string {
		var b strings.Builder
		for _, r := range s {
			if f(r) {
				b.WriteRune(r)
			}
		}
		return b.String()
	}
}

func isMark(r rune) bool { return unicode.Is(unicode.Mn, r) }

func refTrim(s string, l, r bool) string {
	rs := []rune(s)
	for l && len(rs) > 0 && unicode.IsSpace(rs[0]) {
		rs = rs[1:]
	}
	for r && len(rs) > 0 && unicode.IsSpace(rs[len(rs)-1]) {
		rs = rs[:len(rs)-1]
	}
	return string(rs)
}

var cjkRanges = [][2]rune{{0x4e00, 0x9fff}, {0x3400, 0x4dbf}, {0x20000, 0x2a6df}, {0x2a700, 0x2b73f}, {0x2b740, 0x2b81f}, {0x2b820, 0x2ceaf}, {0xf900, 0xfaff}, {0x2f800, 0x2fa1f}}

func refCJK(r rune) bool {
	for _, c := range cjkRanges {
		if r >= c[0] && r <= c[1] {
			return true
		}
	}
	return false
}

func refBert(clean, lower, cjk, accents bool) func(string) string {
	return func(s string) string {
		if clean {
			var b strings.Builder
			for _, r := range s {
				switch {
				case r == '\t' || r == '\n' || r == '\r':
					b.WriteByte(' ')
				case r == 0 || r == 0xfffd || unicode.Is(unicode.Cc, r) || unicode.Is(unicode.Cf, r):
				default:
					b.WriteRune(r)
				}
			}
			s = b.String()
		}
		if cjk {
			var b strings.Builder
			for _, r := range s {
				if refCJK(r) {
					b.WriteString(" " + string(r) + " ")
				} else {
					b.WriteRune(r)
				}
			}
			s = b.String()
		}
		if lower {
			s = mapStr(unicode.ToLower)(s)
		}
		if accents {
			s = keep(func(r rune) bool { return !isMark(r) })(formOf(norm.NFD)(s))
		}
		return s
	}
}

// refReplaceStr replaces non-overlapping occurrences, leftmost first.
func refReplaceStr(p, c string) func(string) string {
	return func(s string) string {
		if p == "" {
			return s
		}
		out := ""
		for {
			i := strings.Index(s, p)
			if i < 0 {
				return out + s
			}
			out += s[:i] + c
			s = s[i+len(p):]
		}
	}
}

// refReplaceRun replaces each maximal run of matching characters.
func refReplaceRun(f func(rune) bool, c string) func(string) string {
	return func(s string) string {
		out, in := "", false
		for _, r := range s {
			if f(r) {
				if !in {
					out += c
				}
				in = true
			} else {
				out += string(r)
				in = false
			}
		}
		return out
	}
}

// formOf is a normalization form, without the joiners x/text puts into more than 30 marks.
func formOf(f norm.Form) func(string) string {
	return func(s string) string {
		o := f.String(s)
		if !strings.ContainsRune(s, '\u034f') {
			o = strings.ReplaceAll(o, "\u034f", "")
		}
		return o
	}
}

func c04Defs() []normDef {
	var d []normDef
	add := func(name string, idem bool, def func(string) string, mk func() normalizer.Normalizer) {
		d = append(d, normDef{name, mk, def, idem})
	}
	type N = normalizer.Normalizer
	add("nfc", true, formOf(norm.NFC), func() N { return normalizer.NewNFC() })
	add("nfd", true, formOf(norm.NFD), func() N { return normalizer.NewNFD() })
	add("nfkc", true, formOf(norm.NFKC), func() N { return normalizer.NewNFKC() })
	add("nfkd", true, formOf(norm.NFKD), func() N { return normalizer.NewNFKD() })
	for _, f := range []norm.Form{norm.NFC, norm.NFD, norm.NFKC, norm.NFKD} {
		f := f
		add(fmt.Sprintf("unicode-%d", f), true, formOf(f), func() N { return normalizer.NewUnicodeNormalizer(f) })
	}
	low := mapStr(unicode.ToLower)
	add("lower", true, low, func() N { return normalizer.Lowercase() })
	acc := keep(func(r rune) bool { return !isMark(r) })
	add("accents", true, acc, func() N { return normalizer.NewStripAccents() })
	for i := 0; i < 4; i++ {
		l, r := i&1 != 0, i&2 != 0
		add(fmt.Sprintf("strip-%v-%v", l, r), true, func(s string) string { return refTrim(s, l, r) }, func() N { return normalizer.NewStrip(l, r) })
		add(fmt.Sprintf("default-%v-%v", l, r), true, func(s string) string {
			if l {
				s = low(s)
			}
			if r {
				s = refTrim(s, true, true)
			}
			return s
		}, func() N {
			return normalizer.NewDefaultNormalizer(normalizer.WithLowercase(l), normalizer.WithStrip(r))
		})
	}
	for i := 0; i < 16; i++ {
		a, b, c, e := i&1 != 0, i&2 != 0, i&4 != 0, i&8 != 0
		// spacing CJK characters again adds spaces again
		add(fmt.Sprintf("bert-%v-%v-%v-%v", a, b, c, e), !c, refBert(a, b, c, e), func() N { return normalizer.NewBertNormalizer(a, b, c, e) })
	}
	for _, p := range [][2]string{{" ", "▁"}, {"ab", "é"}, {"aa", "a"}, {"é", ""}, {".", "x"}, {"", "x"}, {"▁", "  "}, {"a", "aa"}} {
		p := p
		add(fmt.Sprintf("replace-%q-%q", p[0], p[1]), false, refReplaceStr(p[0], p[1]), func() N { return normalizer.NewReplace(normalizer.String, p[0], p[1]) })
	}
	add("replace-ws", false, refReplaceRun(func(r rune) bool {
		return r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == '\f'
	}, "_"), func() N { return normalizer.NewReplace(normalizer.Regex, `\s+`, "_") })
	add("replace-any2", false, func(s string) string {
		rs, out := []rune(s), ""
		for i := 0; i < len(rs); {
			if i+1 < len(rs) && rs[i] != '\n' && rs[i+1] != '\n' {
				out, i = out+"ü", i+2
			} else {
				out, i = out+string(rs[i]), i+1
			}
		}
		return out
	}, func() N { return normalizer.NewReplace(normalizer.Regex, `..`, "ü") })
	for _, p := range []string{"▁", "x é", ""} {
		p := p
		add(fmt.Sprintf("prepend-%q", p), p == "", func(s string) string {
			if s == "" {
				return s
			}
			return p + s
		}, func() N { return normalizer.NewPrepend(p) })
	}
	add("options-bert", false, refBert(true, true, true, true), func() N { return normalizer.NewNormalizer(normalizer.WithBertNormalizer(true, true, true, true)) })
	add("options-nfkd", true, formOf(norm.NFKD), func() N { return normalizer.NewNormalizer(normalizer.WithUnicodeNormalizer(norm.NFKD)) })
	return d
}

// shape checks the general invariants of a normalized string.
func nsShape(t *core.T, orig string, n *normalizer.NormalizedString) {
	if n.GetOriginal() != orig {
		t.Errorf("original changed to %q", n.GetOriginal())
	}
	al := n.Alignments()
	if len(al) != len(n.GetNormalized()) {
		t.Fatalf("%d ranges for %d bytes %q", len(al), len(n.GetNormalized()), n.GetNormalized())
	}
	last := []int{0, 0}
	for i, a := range al {
		if len(a) != 2 || a[0] < 0 || a[1] < a[0] || a[1] > len(orig) || a[0] < last[0] || a[1] < last[1] || !boundary(orig, a[0]) || !boundary(orig, a[1]) {
			t.Fatalf("byte %d of %q has range %v after %v", i, n.GetNormalized(), a, last)
		}
		last = a
	}
	if len(n.AlignmentsOriginal()) != len(orig) {
		t.Errorf("%d original ranges for %d bytes", len(n.AlignmentsOriginal()), len(orig))
	}
}

func c04(c *core.Ctx) {
	defs := c04Defs()
	al := []string{"a", "B", " ", "\t", "\n", "é", "\u0301", "世", "\x00", "\ufffd", "İ", "ﬁ", "\u200b", "▁", "각", "\u00a0"}
	texts := words(al, 0, core.Pick(c, 3, 4))
	texts = append(texts, words([]string{"a", "b", " ", "é"}, 4, core.Pick(c, 5, 7))...)
	texts = append(texts, words([]string{"e", "\u0301", "\u0323", "\u0327", "가", "\u11a8"}, 2, core.Pick(c, 4, 5))...)
	for _, n := range []int{33, 129, core.Pick(c, 300, 1100)} {
		for _, u := range append(al[:len(al):len(al)], "aé ", "e\u0301世 ", "ab\t", " B\x00", "ﬁİ", "ab") {
			texts = append(texts, strings.Repeat(u, n))
		}
		texts = append(texts, strings.Repeat(" ", n)+"a"+strings.Repeat(" ", n), strings.Repeat("é", n)+"\u0301", "a"+strings.Repeat("\u0301", n%30)+strings.Repeat("世", n))
	}
	one := func(w *core.W, name, s string, mk func() normalizer.Normalizer, def func(string) string, idem bool) {
		w.Case(name+" "+q(s), func(t *core.T) {
			m := mk()
			want := def(s)
			n, err := m.Normalize(normalizer.NewNormalizedFrom(s))
			if err != nil || n == nil {
				t.Fatalf("gave %v, %v", n, err)
			}
			if n.GetNormalized() != want {
				t.Fatalf("gave %q, want %q", n.GetNormalized(), want)
			}
			nsShape(t, s, n)
			t.State(name + "\x00" + want)
			// a second run of the same normalizer on fresh and on normalized text
			n2, err := m.Normalize(normalizer.NewNormalizedFrom(s))
			if err != nil || n2 == nil || n2.GetNormalized() != want {
				t.Errorf("second run gave %v %v", n2, err)
			}
			if idem && def(want) != want {
				t.Errorf("definition not idempotent on %q", s)
			}
			n3, err := m.Normalize(n)
			if err != nil || n3 == nil || n3.GetNormalized() != def(want) {
				t.Fatalf("applied again gave %v %v, want %q", n3, err, def(want))
			}
			nsShape(t, s, n3)
			t.Op(3)
		})
	}
	c.Par(len(texts), func(w *core.W, i int) {
		for _, d := range defs {
			one(w, d.name, texts[i], d.mk, d.def, d.idem)
		}
	})
	// every character, alone and inside text
	c.Par(0x110000/128, func(w *core.W, i int) {
		for cp := rune(i * 128); cp < rune(i*128+128); cp++ {
			edge := false
			for _, r := range cjkRanges {
				edge = edge || cp >= r[0]-1 && cp <= r[0]+1 || cp >= r[1]-1 && cp <= r[1]+1
			}
			if !utf8.ValidRune(cp) || !c.Thorough() && !interesting(cp) && !edge && cp > 0x3000 {
				continue
			}
			for _, d := range defs {
				if strings.HasPrefix(d.name, "replace") || strings.HasPrefix(d.name, "prepend") || strings.HasPrefix(d.name, "unicode") {
					continue
				}
				one(w, d.name, "a"+string(cp)+"é", d.mk, d.def, false)
			}
		}
	})
	// sequences are compositions
	st := words([]string{" ", "É", "ab", "世", "\t\u0301"}, 0, core.Pick(c, 2, 3))
	n := len(defs)
	c.Par(n*n, func(w *core.W, i int) {
		a, b := defs[i/n], defs[i%n]
		for _, s := range st {
			one(w, a.name+">"+b.name, s, func() normalizer.Normalizer {
				return normalizer.NewSequence([]normalizer.Normalizer{a.mk(), b.mk()})
			}, func(s string) string { return b.def(a.def(s)) }, false)
		}
		if i%n == 0 || c.Thorough() {
			for _, e := range defs {
				s := " É\u0301ab\t世"
				one(w, a.name+">"+b.name+">"+e.name, s, func() normalizer.Normalizer {
					return normalizer.NewSequence([]normalizer.Normalizer{normalizer.NewSequence([]normalizer.Normalizer{a.mk(), b.mk()}), e.mk()})
				}, func(s string) string { return e.def(b.def(a.def(s))) }, false)
			}
		}
	})
	one(c.Seq(), "empty-sequence", " Aé", func() normalizer.Normalizer { return normalizer.NewSequence(nil) }, func(s string) string { return s }, true)
	c.Count("normalizers", int64(n))
	c.Count("texts", int64(len(texts)))
}

func init() {
	core.Register(&core.Check{ID: "C04", Level: "model_checking", Run: c04,
		Rule:        "all texts up to a length bound over an alphabet of 16 special characters and texts of 33 to 300 (thorough 1100) repetitions, and every (thorough) or every specially treated (quick) Unicode character in context, x every normalizer with every option combination, and all sequences of two (quick) or three (thorough) of them; each result is compared with an independent textual definition, run twice and applied to its own result",
		Assumptions: []string{"texts are valid UTF-8", "BERT whitespace is space, tab, newline and carriage return; control characters are categories Cc and Cf (the definitions given in the code)", "golang.org/x/text and unicode tables are the definition of the Unicode forms and case mappings (without the joiner x/text puts after 30 combining marks in a row)"}})
}
