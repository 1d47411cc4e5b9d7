package props

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
)

type decDef struct {
	name string
	mk   func() tokenizer.Decoder
	ref  func([]string) []string
	toks []string // tokens that matter to it
}

func mapTok(f func(i int, s string) string) func([]string) []string {
	return func(in []string) []string {
		out := make([]string, 0, len(in))
		for i, s := range in {
			out = append(out, f(i, s))
		}
		return out
	}
}

// refReplaceAll substitutes non-overlapping occurrences, leftmost first.
func refReplaceAll(s, old, new string) string {
	var b strings.Builder
	for len(s) > 0 {
		if old != "" && strings.HasPrefix(s, old) {
			b.WriteString(new)
			s = s[len(old):]
			continue
		}
		_, n := utf8.DecodeRuneInString(s)
		b.WriteString(s[:n])
		s = s[n:]
	}
	return b.String()
}

func refCleanup(s string) string {
	for _, p := range [][2]string{{" .", "."}, {" ?", "?"}, {" !", "!"}, {" ,", ","}, {" ' ", "'"}, {" n't", "n't"}, {" 'm", "'m"}, {" do not", " don't"}, {" 's", "'s"}, {" 've", "'ve"}, {" 're", "'re"}} {
		s = refReplaceAll(s, p[0], p[1])
	}
	return s
}

func refByteLevelTok(s string) string {
	var b []byte
	for _, r := range s {
		found := false
		for x := 0; x < 256; x++ {
			if byteChar(byte(x)) == r {
				b = append(b, byte(x))
				found = true
			}
		}
		if !found {
			return s
		}
	}
	return string(b)
}

func refStrip(c string, start, stop int) func(int, string) string {
	return func(_ int, s string) string {
		for i := 0; i < start && strings.HasPrefix(s, c); i++ {
			s = s[len(c):]
		}
		for i := 0; i < stop && strings.HasSuffix(s, c); i++ {
			s = s[:len(s)-len(c)]
		}
		return s
	}
}

func refByteFallback(in []string) []string {
	out := []string{}
	var run []byte
	flush := func() {
		if len(run) == 0 {
			return
		}
		if utf8.Valid(run) {
			out = append(out, string(run))
		} else {
			for range run {
				out = append(out, "\ufffd")
			}
		}
		run = nil
	}
	for _, s := range in {
		isHex := func(c byte) bool { return (c >= '0' && c <= '9') || (c|0x20 >= 'a' && c|0x20 <= 'f') }
		if len(s) == 6 && s[:3] == "<0x" && s[5] == '>' && isHex(s[3]) && isHex(s[4]) {
			run = append(run, hx(s[3])<<4|hx(s[4]))
			continue
		}
		flush()
		out = append(out, s)
	}
	flush()
	return out
}

func hx(c byte) byte {
	if c <= '9' {
		return c - '0'
	}
	return (c | 0x20) - 'a' + 10
}

func c17Defs() []*decDef {
	var out []*decDef
	add := func(name string, toks []string, mk func() tokenizer.Decoder, ref func([]string) []string) {
		out = append(out, &decDef{name, mk, ref, toks})
	}
	bpeT := []string{"a", "ab</w>", "</w>", "</w>b</w>", "é</w", ""}
	for _, sfx := range []string{"</w>", "é"} {
		ref := func(in []string) []string {
			return mapTok(func(i int, s string) string { return refReplaceAll(s, sfx, core.If(i == len(in)-1, "", " ")) })(in)
		}
		if sfx == "</w>" {
			add("bpe/default", bpeT, func() tokenizer.Decoder { return decoder.DefaultBpeDecoder() }, ref)
		}
		add("bpe/"+sfx, bpeT, func() tokenizer.Decoder { return decoder.NewBpeDecoder(sfx) }, ref)
	}
	wpT := []string{"a", "##b", "##", ".", "'", "n't", "'m", "do not", "##a##b", "é .", " ", ""}
	for _, p := range []string{"##", "é"} {
		for _, cl := range []bool{true, false} {
			ref := mapTok(func(i int, s string) string {
				if i > 0 {
					if strings.HasPrefix(s, p) {
						s = s[len(p):]
					} else {
						s = " " + s
					}
				}
				if cl {
					s = refCleanup(s)
				}
				return s
			})
			add(fmt.Sprintf("wordpiece/%s/%v", p, cl), wpT, func() tokenizer.Decoder { return decoder.NewWordPieceDecoder(p, cl) }, ref)
			if p == "##" && cl {
				add("wordpiece/default", wpT, func() tokenizer.Decoder { return decoder.DefaultWordpieceDecoder() }, ref)
			}
		}
	}
	for _, rep := range []string{"▁", ".", "__"} {
		for _, sc := range []pretokenizer.PrependScheme{pretokenizer.Never, pretokenizer.First, pretokenizer.Always} {
			ref := mapTok(func(i int, s string) string {
				return refReplaceAll(s, rep, core.If(i == 0 && sc != pretokenizer.Never, "", " "))
			})
			mt := []string{"a", "▁", "▁b", "b▁▁", ".", "a.b", "__", "___é", ""}
			add(fmt.Sprintf("metaspace/%s/%d", rep, sc), mt, func() tokenizer.Decoder { return pretokenizer.NewMetaspaceWithScheme(rep, sc) }, ref)
			if sc != pretokenizer.First {
				add(fmt.Sprintf("metaspace/%s/%v", rep, sc == pretokenizer.Always), mt, func() tokenizer.Decoder { return pretokenizer.NewMetaspace(rep, sc == pretokenizer.Always) }, ref)
			}
		}
	}
	for _, o := range []struct {
		pad, wd string
		cl      bool
	}{{"<pad>", "|", true}, {"<pad>", "|", false}, {"é", "é", true}, {"p", "aa", true}} {
		ref := func(in []string) []string {
			out := []string{}
			for i, s := range in {
				if i > 0 && in[i-1] == s {
					continue
				}
				s = refReplaceAll(s, o.pad, "")
				if o.cl {
					s = refReplaceAll(refCleanup(s), o.wd, " ")
				}
				if s != "" {
					out = append(out, s)
				}
			}
			return out
		}
		ct := []string{"a", "<pad>", "|", "a|b", "<pad>b", " .", "é", "p", "aa", ""}
		add(fmt.Sprintf("ctc/%s/%s/%v", o.pad, o.wd, o.cl), ct, func() tokenizer.Decoder { return decoder.NewCTC(o.pad, o.wd, o.cl) }, ref)
		if o.pad == "<pad>" && o.cl {
			add("ctc/default", ct, func() tokenizer.Decoder { return decoder.DefaultCTC() }, ref)
		}
	}
	add("bytefallback", []string{"a", "<0x61>", "<0xE5>", "<0x8f>", "<0xab>", "<0xC3>", "<0xA9>", "<0x0G>", "<0x00>", "<0xé>", "<0x+1>", "<0x1>", "", "<0x61>>"}, func() tokenizer.Decoder { return decoder.NewByteFallback() }, refByteFallback)
	add("fuse", []string{"a", "é", "", " b"}, func() tokenizer.Decoder { return decoder.NewFuse() }, func(in []string) []string { return []string{strings.Join(in, "")} })
	for _, cc := range []string{" ", "é", "H"} {
		for _, n := range [][2]int{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 2}, {3, 0}, {0, 3}} {
			add(fmt.Sprintf("strip/%s/%d/%d", cc, n[0], n[1]), []string{"a", " a ", "  ", " ", "é", "éaé", "HHH", "HaH", "   a   ", ""}, func() tokenizer.Decoder { return decoder.NewStrip(cc, n[0], n[1]) }, mapTok(refStrip(cc, n[0], n[1])))
		}
	}
	rt := []string{"a", "aa", "b▁", "▁", ".", "", "aé"}
	for _, p := range [][2]string{{"▁", " "}, {"a", ""}, {"aa", "a"}, {".", "é"}, {"", "x"}} {
		add(fmt.Sprintf("replace/%q/%q", p[0], p[1]), rt, func() tokenizer.Decoder { return normalizer.NewReplace(normalizer.String, p[0], p[1]) }, mapTok(func(_ int, s string) string { return refReplaceAll(s, p[0], p[1]) }))
	}
	for _, p := range [][2]string{{"a+", "x"}, {"[▁.]", " "}, {"^a", ""}, {"é$", "yy"}} {
		re := regexp.MustCompile(p[0])
		add(fmt.Sprintf("replace/re%q/%q", p[0], p[1]), rt, func() tokenizer.Decoder { return normalizer.NewReplace(normalizer.Regex, p[0], p[1]) }, mapTok(func(_ int, s string) string { return re.ReplaceAllLiteralString(s, p[1]) }))
	}
	add("bytelevel", []string{"a", "Ġ", "Ã", "©", "ĠÃ©", "x y", "日", "Ã日", "ł", ""}, func() tokenizer.Decoder { return pretokenizer.NewByteLevel() }, mapTok(func(_ int, s string) string { return refByteLevelTok(s) }))
	return out
}

func c17Case(d tokenizer.Decoder, ref func([]string) []string, in []string, t *core.T) {
	cp := append([]string{}, in...)
	want := ref(cp)
	got := d.DecodeChain(in)
	if !eqStrs(got, want) {
		t.Errorf("DecodeChain(%q) = %q, want %q", cp, got, want)
	}
	if !eqStrs(in, cp) {
		t.Errorf("DecodeChain(%q) changed its argument to %q", cp, in)
	}
	if g, w := d.Decode(in), strings.Join(want, ""); g != w {
		t.Errorf("Decode(%q) = %q, want %q", cp, g, w)
	}
	t.Op(2)
}

func tokLists(toks []string, max int) [][]string {
	var out [][]string
	for _, ix := range seqs(len(toks), 0, max) {
		l := make([]string, 0, len(ix)+2)
		for _, i := range ix {
			l = append(l, toks[i])
		}
		out = append(out, l)
	}
	return out
}

func c17(c *core.Ctx) {
	defs := c17Defs()
	union := map[string]bool{}
	var common []string
	for _, d := range defs {
		for _, s := range d.toks {
			if !union[s] {
				union[s] = true
				common = append(common, s)
			}
		}
	}
	few := []string{"a", "##b", "▁b", "ab</w>", "<0xC3>", "<0xA9>", "Ġ", "<pad>", ""}
	type job struct {
		name string
		mk   func() tokenizer.Decoder
		ref  func([]string) []string
		in   [][]string
	}
	var jobs []job
	for _, d := range defs {
		jobs = append(jobs, job{d.name, d.mk, d.ref, append(tokLists(d.toks, 5), tokLists(common, core.Pick(c, 2, 3))...)})
	}
	// every short token over the characters that matter to the decoder, first and not first
	for _, d := range defs {
		var al []string
		seen := map[rune]bool{}
		for _, s := range d.toks {
			for _, r := range s {
				if !seen[r] {
					seen[r] = true
					al = append(al, string(r))
				}
			}
		}
		var in [][]string
		for _, s := range words(al, 0, core.Pick(c, 4, 5)) {
			in = append(in, []string{s}, []string{"a", s})
		}
		short := words(al, 0, 2)
		if len(short) > 130 {
			short = words(al[:11], 0, 2)
		}
		for _, s := range short {
			for _, u := range short {
				in = append(in, []string{s, u})
			}
		}
		jobs = append(jobs, job{d.name + " chars", d.mk, d.ref, in})
	}
	// long lists, long tokens
	for _, d := range defs {
		in := [][]string{}
		x := lcg(1)
		for _, n := range []int{17, 33, 63, 64, 65, 130, 257, 1030} {
			for _, tok := range d.toks {
				l := make([]string, n)
				m := make([]string, n)
				for i := range l {
					l[i] = tok
					m[i] = core.If(i%2 == 0, tok, d.toks[x.n(len(d.toks))])
				}
				s := strings.Repeat(tok, n)
				in = append(in, l, m, []string{s}, []string{"a", s}, []string{s, s, "a" + s}, []string{strings.Join(m, "")})
			}
			if d.name == "bytefallback" {
				if n == 17 { // all near misses of a byte token
					for i := 0; i <= 6; i++ {
						for ch := 1; ch < 128; ch++ {
							tok, c := "<0x4f>", string(rune(ch))
							for _, v := range []string{tok[:i] + c + tok[min(i+1, 6):], tok[:i] + c + tok[i:], tok[:i] + c} {
								in = append(in, []string{v}, []string{"<0xC3>", v, "<0xA9>"})
							}
						}
					}
				}
				for _, ch := range []string{"a", "é", "日", "😀"} {
					var l []string
					for i := 0; i < n; i++ {
						for _, b := range []byte(ch) {
							l = append(l, fmt.Sprintf("<0x%02X>", b))
						}
					}
					in = append(in, l, append([]string{"x"}, append(l, "x")...), append(append([]string{}, l...), "<0xC3>"), append([]string{"<0x80>"}, l...), append(append(append([]string{}, l...), "y"), l...))
				}
			}
		}
		jobs = append(jobs, job{d.name + " long", d.mk, d.ref, in})
		if strings.HasPrefix(d.name, "ctc") || strings.HasPrefix(d.name, "wordpiece") {
			var in [][]string
			for _, s := range words([]string{" .", " ?", " !", " ,", " ' ", " n't", " 'm", " do not", " 's", " 've", " 're", " ", "a", "'", "##"}, 1, core.Pick(c, 3, 4)) {
				in = append(in, []string{s}, []string{"a", s})
			}
			jobs = append(jobs, job{d.name + " cleanup", d.mk, d.ref, in})
		}
	}
	compose := func(ds ...*decDef) func([]string) []string {
		return func(in []string) []string {
			for _, d := range ds {
				in = d.ref(in)
			}
			return in
		}
	}
	mkSeq := func(ds ...*decDef) func() tokenizer.Decoder {
		return func() tokenizer.Decoder {
			var l []tokenizer.Decoder
			for _, d := range ds {
				l = append(l, d.mk())
			}
			return decoder.NewSequence(l)
		}
	}
	jobs = append(jobs, job{"sequence of none", mkSeq(), compose(), tokLists(few, 3)})
	in2 := tokLists(few, core.Pick(c, 2, 3))
	in3 := tokLists(few[:6], core.Pick(c, 2, 3))
	var some []*decDef
	for _, d := range defs {
		switch d.name {
		case "bpe/default", "wordpiece/##/true", "metaspace/▁/2", "ctc/default", "bytefallback", "fuse", "strip/ /1/0", "strip/é/1/1", `replace/"▁"/" "`, "bytelevel":
			some = append(some, d)
		}
	}
	for _, a := range defs {
		for _, b := range defs {
			jobs = append(jobs, job{a.name + " | " + b.name, mkSeq(a, b), compose(a, b), in2})
		}
	}
	for _, a := range some {
		for _, b := range some {
			for _, d := range some {
				jobs = append(jobs, job{a.name + " | " + b.name + " | " + d.name, mkSeq(a, b, d), compose(a, b, d), in3})
			}
			inner := &decDef{mk: mkSeq(a, b), ref: compose(a, b)}
			jobs = append(jobs, job{"[" + a.name + " | " + b.name + "] | " + a.name, mkSeq(inner, a), compose(inner, a), in3})
		}
	}
	c.Par(len(jobs), func(w *core.W, i int) {
		if c.TimeUp() {
			return
		}
		j := jobs[i]
		for at := 0; at < len(j.in); at += 20000 {
			w.Case(fmt.Sprintf("%s @%d", j.name, at), func(t *core.T) {
				d := j.mk()
				for k, in := range j.in[at:min(at+20000, len(j.in))] {
					if k%3 == 0 {
						d = j.mk() // also fresh ones: decoders have no memory
					}
					c17Case(d, j.ref, in, t)
				}
				t.State(j.name + fmt.Sprint(at))
			})
		}
	})
	// decoding ids
	voc := map[string]int{"a": 0, "##b": 1, "[CLS]": 2, "Ġx": 3, "[UNK]": 7, " <s> ": 20, "[cls]": 21, "CLS": 22}
	decs := append([]*decDef{nil}, some...)
	ids := []int{0, 1, 2, 3, 8, 9, 4, -1, 7, 100000, 20, 21, 22}
	lists := seqs(len(ids), 0, core.Pick(c, 4, 5))
	// long ones
	var many []int
	for i := 0; i < 2000; i++ {
		many = append(many, i*7%len(ids))
	}
	lists = append(lists, many, many[:300], many[:65])
	c.Par(len(decs)*2, func(w *core.W, i int) {
		d := decs[i/2]
		skip := i%2 == 1
		w.Case(fmt.Sprintf("ids %v skip=%v", core.If(d == nil, "none", "")+nameOf(d), skip), func(t *core.T) {
			tk := tokenizer.NewTokenizer(mapModel{v: voc})
			tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("my tok", false)}) // 5
			tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[CLS]", true), tokenizer.NewAddedToken("<s>", true)})
			byId := map[int]string{}
			for k, v := range voc {
				byId[v] = k
			}
			for _, s := range []string{"my tok", "<s>"} {
				id, _ := tk.TokenToId(s)
				byId[id] = s
			}
			a, _ := tk.TokenToId("my tok")
			b, _ := tk.TokenToId("<s>")
			ids := append([]int{}, ids...)
			ids[4], ids[5] = a, b
			if d != nil {
				tk.WithDecoder(d.mk())
			}
			for _, ix := range lists {
				var l []int
				toks := []string{}
				for _, x := range ix {
					l = append(l, ids[x])
					s, ok := byId[ids[x]]
					if ok && !(skip && (s == "[CLS]" || s == "<s>")) {
						toks = append(toks, s)
					}
				}
				want := strings.Join(toks, " ")
				if d != nil {
					want = strings.Join(d.ref(toks), "")
				}
				if got := tk.Decode(l, skip); got != want {
					t.Errorf("Decode(%v, %v) = %q, want %q", l, skip, got, want)
				}
				t.Op(1)
			}
		})
	})
}

func nameOf(d *decDef) string {
	if d == nil {
		return ""
	}
	return d.name
}

func init() {
	core.Register(&core.Check{
		ID: "C17", Level: "model_checking",
		Rule:        "every decoder and option (and the default constructors) on every list up to the length bound of the tokens that matter to it and of the tokens that matter to any decoder; long lists and long tokens (17-1030) for every decoder, byte runs of up to 1030 characters, every text of up to three of the phrases the clean-up knows; every sequence of two decoders, every sequence of three of ten, nested sequences; the token lists and the text are compared with the definitions; Tokenizer.Decode on every id list up to the bound over ordinary, added, special, model-known special and unknown ids, with and without skipping, with and without a decoder",
		Run:         c17,
		Assumptions: []string{"regular expressions are those of Go's regexp", "byte-level decoding of bytes that are not valid UTF-8 yields those bytes", "an empty BPE suffix or CTC delimiter is outside the domain"},
	})
}
