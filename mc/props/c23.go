package props

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/pretrained"
	"github.com/sugarme/tokenizer/processor"
	"github.com/sugarme/tokenizer/spm"
)

// part is the description of one component and the same component built through
// the programming interface. js "" stands for an absent section.
type part struct {
	js     string
	norm   normalizer.Normalizer
	pre    tokenizer.PreTokenizer
	post   tokenizer.PostProcessor
	dec    tokenizer.Decoder
	model  func() (tokenizer.Model, error)
	toks   []tokenizer.TokenConfig
	trunc  *tokenizer.TruncationParams
	pad    *tokenizer.PaddingParams
	need   string                       // the decoder a model without a type needs
	sample bool                         // used in combinations
	full   bool                         // corrupted field by field
	skip   func(path, what string) bool // corruptions that still are descriptions, or of options that are not read
	key    string                       // "vocab" keys below are data, not options
}

// opt is one option: the JSON values it may have and what they mean.
type opt struct {
	name string
	vals []optVal
}
type optVal struct {
	js  string // "" = absent
	val any
}

// obj renders options of a component.
func obj(typ string, opts []opt, pick []int) (string, []any) {
	var b strings.Builder
	var vals []any
	b.WriteString("{")
	n := 0
	if typ != "" {
		fmt.Fprintf(&b, `"type":%q`, typ)
		n++
	}
	for i, o := range opts {
		v := o.vals[pick[i]]
		vals = append(vals, v.val)
		if v.js == "" {
			continue
		}
		if n > 0 {
			b.WriteString(",")
		}
		n++
		fmt.Fprintf(&b, "%q:%s", o.name, v.js)
	}
	b.WriteString("}")
	return b.String(), vals
}

// allOpts calls f for every combination of option values.
func allOpts(typ string, opts []opt, f func(js string, v []any, last bool)) {
	pick := make([]int, len(opts))
	total := 1
	for _, o := range opts {
		total *= len(o.vals)
	}
	for n := 0; n < total; n++ {
		js, v := obj(typ, opts, pick)
		f(js, v, n == total-1)
		for i := range pick {
			pick[i]++
			if pick[i] < len(opts[i].vals) {
				break
			}
			pick[i] = 0
		}
	}
}

// flag is an option that is false, or def, unless set.
func flag(name string, def bool) opt {
	return opt{name, []optVal{{"", def}, {"null", def}, {"false", false}, {"true", true}}}
}
func must2(name string) opt { return opt{name, []optVal{{"false", false}, {"true", true}}} }

func strs(name string, def any, vals ...string) opt {
	o := opt{name: name}
	if def != nil {
		o.vals = []optVal{{"", def}, {"null", def}}
	}
	for _, v := range vals {
		b, _ := json.Marshal(v)
		o.vals = append(o.vals, optVal{string(b), v})
	}
	return o
}

func nums(name string, def any, vals ...int) opt {
	o := opt{name: name}
	if def != nil {
		o.vals = []optVal{{"", def}, {"null", def}}
	}
	for _, v := range vals {
		o.vals = append(o.vals, optVal{fmt.Sprint(v), v})
	}
	return o
}

func c23Blob() []byte {
	return buildMap("c23", map[string]string{"ﬁ": "fi", "A": "aa", "½": " ", "é": "e"}).blob
}

var c23Patterns = []struct {
	js  string
	pat normalizer.Pattern
	typ normalizer.ReplacePattern
	src string
}{
	{`{"String":"."}`, nil, normalizer.String, "."},
	{`{"String":"ab"}`, nil, normalizer.String, "ab"},
	{`{"String":" "}`, nil, normalizer.String, " "},
	{`{"String":"[ab]"}`, nil, normalizer.String, "[ab]"},
	{`{"Regex":"."}`, nil, normalizer.Regex, "."},
	{`{"Regex":"[0-9]+"}`, nil, normalizer.Regex, "[0-9]+"},
	{`{"Regex":"\\s"}`, nil, normalizer.Regex, `\s`},
}

func c23Norms() []part {
	var ps []part
	add := func(js string, n normalizer.Normalizer, marks ...string) {
		p := part{js: js, norm: n}
		for _, m := range marks {
			p.sample = p.sample || m == "s"
			p.full = p.full || m == "f"
		}
		ps = append(ps, p)
	}
	add("", nil, "s")
	add("null", nil)
	allOpts("BertNormalizer", []opt{flag("clean_text", false), flag("handle_chinese_chars", false), {"strip_accents", []optVal{{"", nil}, {"null", nil}, {"false", false}, {"true", true}}}, flag("lowercase", false)}, func(js string, v []any, last bool) {
		strip := v[3].(bool) // follows lowercase unless it is given
		if v[2] != nil {
			strip = v[2].(bool)
		}
		n := normalizer.NewBertNormalizer(v[0].(bool), v[3].(bool), v[1].(bool), strip)
		add(js, n, core.If(last, "f", ""), core.If(last, "s", ""))
	})
	for _, ty := range []string{"Strip", "StripNormalizer"} {
		allOpts(ty, []opt{flag("strip_left", false), flag("strip_right", false)}, func(js string, v []any, last bool) {
			add(js, normalizer.NewStrip(v[0].(bool), v[1].(bool)), core.If(last, "f", ""))
		})
	}
	add(`{"type":"StripAccents"}`, normalizer.NewStripAccents(), "f")
	add(`{"type":"NFC"}`, normalizer.NewNFC())
	add(`{"type":"NFD"}`, normalizer.NewNFD(), "s")
	add(`{"type":"NFKC"}`, normalizer.NewNFKC())
	add(`{"type":"NFKD"}`, normalizer.NewNFKD())
	add(`{"type":"Lowercase"}`, normalizer.Lowercase(), "s", "f")
	for i, p := range c23Patterns {
		for _, ct := range []string{"", "x", "X.y"} {
			b, _ := json.Marshal(ct)
			add(fmt.Sprintf(`{"type":"Replace","pattern":%s,"content":%s}`, p.js, b), normalizer.NewReplace(p.typ, p.src, ct), core.If(ct != "" && (i == 0 || i == 4), "f", ""), core.If(ct == "x" && i == 4, "s", ""))
		}
	}
	allOpts("Prepend", []opt{strs("prepend", "", "▁", "", "ab")}, func(js string, v []any, last bool) {
		add(js, normalizer.NewPrepend(v[0].(string)), core.If(last, "f", ""))
	})
	if pc, err := spm.NewPrecompiledFrom(c23Blob()); err == nil {
		add(fmt.Sprintf(`{"type":"Precompiled","precompiled_charsmap":%q}`, base64.StdEncoding.EncodeToString(c23Blob())), &normalizer.Precompiled{Precompiled: pc}, "s", "f")
	} else {
		panic(err)
	}
	// sequences: all pairs of some, and nested
	atoms := []part{
		{js: `{"type":"Lowercase"}`, norm: normalizer.Lowercase()},
		{js: `{"type":"NFD"}`, norm: normalizer.NewNFD()},
		{js: `{"type":"Replace","pattern":{"String":"a"},"content":"B"}`, norm: normalizer.NewReplace(normalizer.String, "a", "B")},
		{js: `{"type":"Prepend","prepend":"A"}`, norm: normalizer.NewPrepend("A")},
		{js: `{"type":"Strip","strip_left":true,"strip_right":true}`, norm: normalizer.NewStrip(true, true)},
	}
	add(`{"type":"Sequence"}`, normalizer.NewSequence(nil))
	add(`{"type":"Sequence","normalizers":null}`, normalizer.NewSequence(nil))
	add(`{"type":"Sequence","normalizers":[]}`, normalizer.NewSequence(nil))
	for i, a := range atoms {
		add(fmt.Sprintf(`{"type":"Sequence","normalizers":[%s]}`, a.js), normalizer.NewSequence([]normalizer.Normalizer{a.norm}))
		for j, b := range atoms {
			add(fmt.Sprintf(`{"type":"Sequence","normalizers":[%s,%s]}`, a.js, b.js), normalizer.NewSequence([]normalizer.Normalizer{a.norm, b.norm}), core.If(i == 2 && j == 0, "f", ""))
			add(fmt.Sprintf(`{"type":"Sequence","normalizers":[{"type":"Sequence","normalizers":[%s]},%s,%s]}`, b.js, a.js, b.js), normalizer.NewSequence([]normalizer.Normalizer{b.norm, a.norm, b.norm}))
		}
	}
	return ps
}

var c23Behaviors = []struct {
	name string
	b    normalizer.SplitDelimiterBehavior
}{{"Removed", normalizer.RemovedBehavior}, {"Isolated", normalizer.IsolatedBehavior}, {"MergedWithNext", normalizer.MergedWithNextBehavior}, {"MergedWithPrevious", normalizer.MergedWithPreviousBehavior}, {"Contiguous", normalizer.ContiguousBehavior}}

func c23Metaspace(f func(js string, m *pretokenizer.Metaspace, last bool)) {
	schemes := []optVal{{"", nil}, {"null", nil}, {`"never"`, pretokenizer.Never}, {`"First"`, pretokenizer.First}, {`"always"`, pretokenizer.Always}, {`"first"`, pretokenizer.First}}
	allOpts("Metaspace", []opt{flag("add_prefix_space", false), {"prepend_scheme", schemes}, strs("replacement", "", "_", "▁")}, func(js string, v []any, last bool) {
		m := pretokenizer.NewMetaspace(v[2].(string), v[0].(bool))
		if v[1] != nil {
			m = pretokenizer.NewMetaspaceWithScheme(v[2].(string), v[1].(pretokenizer.PrependScheme))
		}
		f(js, m, last)
	})
}

func c23ByteLevel(f func(js string, b *pretokenizer.ByteLevel, last bool)) {
	allOpts("ByteLevel", []opt{{"use_regex", []optVal{{"", nil}, {"true", nil}}}, flag("add_prefix_space", false), flag("trim_offsets", false)}, func(js string, v []any, last bool) {
		f(js, &pretokenizer.ByteLevel{AddPrefixSpace: v[1].(bool), TrimOffsets: v[2].(bool)}, last)
	})
}

func c23Pres() []part {
	var ps []part
	add := func(js string, p tokenizer.PreTokenizer, marks ...string) {
		pt := part{js: js, pre: p}
		for _, m := range marks {
			pt.sample = pt.sample || m == "s"
			pt.full = pt.full || m == "f"
		}
		ps = append(ps, pt)
	}
	add("", nil, "s")
	add("null", nil)
	add(`{"type":"BertPreTokenizer"}`, pretokenizer.NewBertPreTokenizer(), "s")
	add(`{"type":"Whitespace"}`, pretokenizer.NewWhitespace(), "f")
	add(`{"type":"WhitespaceSplit"}`, pretokenizer.NewWhitespaceSplit(), "s")
	add(`{"type":"UnicodeScripts"}`, pretokenizer.NewUnicodeScript())
	c23ByteLevel(func(js string, b *pretokenizer.ByteLevel, last bool) {
		add(js, b, core.If(last, "f", ""), core.If(last, "s", ""))
	})
	for _, d := range []rune{'-', ' ', 'é', 'a'} {
		add(fmt.Sprintf(`{"type":"Delimiter","delimiter":"%c"}`, d), pretokenizer.NewCharDelimiterSplit(d), core.If(d == '-', "f", ""))
	}
	c23Metaspace(func(js string, m *pretokenizer.Metaspace, last bool) {
		add(js, m, core.If(last, "f", ""), core.If(last, "s", ""))
	})
	for _, b := range c23Behaviors {
		add(fmt.Sprintf(`{"type":"Punctuation","behavior":%q}`, b.name), pretokenizer.NewPunctuation(b.b), core.If(b.name == "Contiguous", "f", ""))
	}
	for _, d := range []bool{false, true} {
		add(fmt.Sprintf(`{"type":"Digits","individual_digits":%v}`, d), pretokenizer.NewDigits(d), core.If(d, "f", ""), core.If(d, "s", ""))
	}
	for i, p := range c23Patterns {
		for j, b := range c23Behaviors {
			for _, inv := range []bool{false, true} {
				var pat normalizer.Pattern = normalizer.NewStringPattern(p.src)
				if p.typ == normalizer.Regex {
					pat = normalizer.NewRegexpPattern(p.src)
				}
				add(fmt.Sprintf(`{"type":"Split","pattern":%s,"behavior":%q,"invert":%v}`, p.js, b.name, inv), pretokenizer.NewSplit(pat, b.b, inv), core.If((i == 0 || i == 4) && j == 1 && inv, "f", ""), core.If(i == 5 && j == 2 && !inv, "s", ""))
			}
		}
	}
	atoms := []part{
		{js: `{"type":"WhitespaceSplit"}`, pre: pretokenizer.NewWhitespaceSplit()},
		{js: `{"type":"Metaspace","replacement":"▁","add_prefix_space":true}`, pre: pretokenizer.NewMetaspace("▁", true)},
		{js: `{"type":"Digits","individual_digits":true}`, pre: pretokenizer.NewDigits(true)},
		{js: `{"type":"Punctuation","behavior":"Removed"}`, pre: pretokenizer.NewPunctuation(normalizer.RemovedBehavior)},
	}
	add(`{"type":"Sequence","pretokenizers":[]}`, pretokenizer.NewSequence(nil))
	for i, a := range atoms {
		add(fmt.Sprintf(`{"type":"Sequence","pretokenizers":[%s]}`, a.js), pretokenizer.NewSequence([]tokenizer.PreTokenizer{a.pre}))
		for j, b := range atoms {
			add(fmt.Sprintf(`{"type":"Sequence","pretokenizers":[%s,%s]}`, a.js, b.js), pretokenizer.NewSequence([]tokenizer.PreTokenizer{a.pre, b.pre}), core.If(i == 0 && j == 3, "f", ""))
			add(fmt.Sprintf(`{"type":"Sequence","pretokenizers":[%s,{"type":"Sequence","pretokenizers":[%s,%s]}]}`, b.js, a.js, b.js), pretokenizer.NewSequence([]tokenizer.PreTokenizer{b.pre, a.pre, b.pre}))
		}
	}
	return ps
}

func c23Posts() []part {
	var ps []part
	add := func(js string, p tokenizer.PostProcessor, marks ...string) {
		pt := part{js: js, post: p}
		for _, m := range marks {
			pt.sample = pt.sample || m == "s"
			pt.full = pt.full || m == "f"
		}
		ps = append(ps, pt)
	}
	tok := func(js string, v string, id int) optVal { return optVal{js, processor.PostToken{Value: v, Id: id}} }
	sep := opt{"sep", []optVal{tok(`["</s>",2]`, "</s>", 2), tok(`["[SEP]",102]`, "[SEP]", 102)}}
	cls := opt{"cls", []optVal{tok(`["<s>",0]`, "<s>", 0), tok(`["[CLS]",101]`, "[CLS]", 101)}}
	add("", nil, "s")
	add("null", nil)
	allOpts("RobertaProcessing", []opt{sep, cls, must2("trim_offsets"), must2("add_prefix_space")}, func(js string, v []any, last bool) {
		add(js, processor.NewRobertaProcessing(v[0].(processor.PostToken), v[1].(processor.PostToken), v[2].(bool), v[3].(bool)), core.If(last, "f", ""), core.If(last, "s", ""))
	})
	allOpts("BertProcessing", []opt{sep, cls}, func(js string, v []any, last bool) {
		add(js, processor.NewBertProcessing(v[0].(processor.PostToken), v[1].(processor.PostToken)), core.If(last, "f", ""), core.If(last, "s", ""))
	})
	c23ByteLevel(func(js string, b *pretokenizer.ByteLevel, last bool) {
		add(js, processor.NewByteLevelProcessing(b), core.If(last, "f", ""))
	})
	// templates: every single of up to 3 pieces and some pairs
	type pc struct {
		js string
		mk func() processor.Piece
	}
	var pieces []pc
	for _, ty := range []int{0, 1} {
		ty := ty
		for _, s := range []string{"A", "B"} {
			s := s
			pieces = append(pieces, pc{fmt.Sprintf(`{"Sequence":{"id":%q,"type_id":%d}}`, s, ty), func() processor.Piece { return processor.NewSequencePiece(s, ty) }})
		}
		for _, s := range []string{"<s>", "sep"} {
			s := s
			pieces = append(pieces, pc{fmt.Sprintf(`{"SpecialToken":{"id":%q,"type_id":%d}}`, s, ty), func() processor.Piece { return processor.NewSpecialTokenPiece(s, ty) }})
		}
	}
	// 0:A0 1:B0 2:<s>0 3:sep0 4:A1 5:B1 6:<s>1 7:sep1
	special := `{"<s>":{"id":"<s>","ids":[7],"tokens":["<s>"]},"sep":{"id":"sep","ids":[8,9],"tokens":["<x>","<y>"]}}`
	specials := func() *processor.Tokens {
		return processor.NewTokensFrom([]processor.SpecialToken{*processor.NewSpecialToken("<s>", []int{7}, []string{"<s>"}), *processor.NewSpecialToken("sep", []int{8, 9}, []string{"<x>", "<y>"})})
	}
	tpl := func(single, pair []int, marks ...string) {
		list := func(x []int) (string, processor.Template) {
			var js []string
			var t processor.Template
			for _, i := range x {
				js = append(js, pieces[i].js)
				t = append(t, pieces[i].mk())
			}
			return "[" + strings.Join(js, ",") + "]", t
		}
		sj, st := list(single)
		pj, pt := list(pair)
		add(fmt.Sprintf(`{"type":"TemplateProcessing","single":%s,"pair":%s,"special_tokens":%s}`, sj, pj, special), processor.NewTemplateProcessing(st, pt, specials()), marks...)
	}
	for _, s := range [][]int{{0}, {4}, {2, 0}, {0, 3}, {6, 4, 7}, {3, 0, 2}, {2, 2, 0, 3}, {}} {
		for i, p := range [][]int{{0, 1}, {0, 5}, {1, 4}, {2, 0, 3, 5, 7}, {2, 1, 3, 0, 6}, {3, 3, 0, 5}} {
			tpl(s, p, core.If(len(s) == 3 && i == 3, "f", ""), core.If(len(s) == 4 && i == 3, "s", ""))
		}
	}
	add(`{"type":"TemplateProcessing","single":[{"Sequence":{"id":"A","type_id":0}}],"pair":[{"Sequence":{"id":"A","type_id":0}},{"Sequence":{"id":"B","type_id":1}}]}`, processor.NewTemplateProcessing(processor.Template{processor.NewSequencePiece("A", 0)}, processor.Template{processor.NewSequencePiece("A", 0), processor.NewSequencePiece("B", 1)}, processor.DefaultTokens()))
	bl := &pretokenizer.ByteLevel{AddPrefixSpace: false, TrimOffsets: true}
	bp := processor.NewBertProcessing(processor.PostToken{Value: "[SEP]", Id: 102}, processor.PostToken{Value: "[CLS]", Id: 101})
	blj, bpj := `{"type":"ByteLevel","trim_offsets":true}`, `{"type":"BertProcessing","sep":["[SEP]",102],"cls":["[CLS]",101]}`
	add(fmt.Sprintf(`{"type":"Sequence","processors":[%s]}`, blj), processor.NewSequence([]tokenizer.PostProcessor{processor.NewByteLevelProcessing(bl)}))
	add(fmt.Sprintf(`{"type":"Sequence","processors":[%s]}`, bpj), processor.NewSequence([]tokenizer.PostProcessor{bp}))
	add(fmt.Sprintf(`{"type":"Sequence","processors":[%s,%s]}`, blj, bpj), processor.NewSequence([]tokenizer.PostProcessor{processor.NewByteLevelProcessing(bl), bp}), "f")
	return ps
}

func c23Decs() []part {
	var ps []part
	add := func(js string, d tokenizer.Decoder, marks ...string) {
		p := part{js: js, dec: d}
		for _, m := range marks {
			p.sample = p.sample || m == "s"
			p.full = p.full || m == "f"
		}
		ps = append(ps, p)
	}
	add("", nil, "s")
	add("null", nil)
	for _, s := range []string{"</w>", "b", ""} {
		add(fmt.Sprintf(`{"type":"BPE","suffix":%q}`, s), decoder.NewBpeDecoder(s), core.If(s == "b", "f", ""))
	}
	c23ByteLevel(func(js string, b *pretokenizer.ByteLevel, last bool) { add(js, b, core.If(last, "f", "")) })
	for _, pre := range []string{"##", "a", ""} {
		for _, cl := range []bool{false, true} {
			add(fmt.Sprintf(`{"type":"WordPiece","prefix":%q,"cleanup":%v}`, pre, cl), decoder.NewWordPieceDecoder(pre, cl), core.If(pre == "##" && cl, "f", ""), core.If(pre == "##" && cl, "s", ""))
		}
	}
	c23Metaspace(func(js string, m *pretokenizer.Metaspace, last bool) {
		add(js, m, core.If(last, "f", ""), core.If(last, "s", ""))
	})
	for _, pad := range []string{"<pad>", "a"} {
		for _, wd := range []string{"|", "b"} {
			for _, cl := range []bool{false, true} {
				add(fmt.Sprintf(`{"type":"CTC","pad_token":%q,"word_delimiter":%q,"cleanup":%v}`, pad, wd, cl), decoder.NewCTC(pad, wd, cl), core.If(pad == "a" && wd == "b" && cl, "f", ""))
			}
		}
	}
	for i, p := range c23Patterns {
		for _, ct := range []string{"", "x"} {
			add(fmt.Sprintf(`{"type":"Replace","pattern":%s,"content":%q}`, p.js, ct), normalizer.NewReplace(p.typ, p.src, ct), core.If(ct == "x" && (i == 0 || i == 4), "f", ""))
		}
	}
	add(`{"type":"Fuse"}`, decoder.NewFuse(), "s")
	add(`{"type":"ByteFallback"}`, decoder.NewByteFallback())
	for _, ct := range []string{" ", "a", "b"} {
		for st := 0; st < 3; st++ {
			for sp := 0; sp < 3; sp++ {
				add(fmt.Sprintf(`{"type":"Strip","content":%q,"start":%d,"stop":%d}`, ct, st, sp), decoder.NewStrip(ct, st, sp), core.If(ct == "a" && st == 1 && sp == 2, "f", ""))
			}
		}
	}
	atoms := []part{
		{js: `{"type":"Replace","pattern":{"String":"▁"},"content":" "}`, dec: normalizer.NewReplace(normalizer.String, "▁", " ")},
		{js: `{"type":"ByteFallback"}`, dec: decoder.NewByteFallback()},
		{js: `{"type":"Fuse"}`, dec: decoder.NewFuse()},
		{js: `{"type":"Strip","content":" ","start":1,"stop":0}`, dec: decoder.NewStrip(" ", 1, 0)},
		{js: `{"type":"WordPiece","prefix":"##","cleanup":false}`, dec: decoder.NewWordPieceDecoder("##", false)},
	}
	seq := func(ids ...int) (string, []tokenizer.Decoder) {
		var js []string
		var ds []tokenizer.Decoder
		for _, i := range ids {
			js = append(js, atoms[i].js)
			ds = append(ds, atoms[i].dec)
		}
		return strings.Join(js, ","), ds
	}
	for _, s := range append(seqs(len(atoms), 0, 2), []int{0, 1, 2, 3}, []int{3, 2, 1, 0}) {
		js, ds := seq(s...)
		add(fmt.Sprintf(`{"type":"Sequence","decoders":[%s]}`, js), decoder.NewSequence(ds), core.If(len(s) == 4 && s[0] == 0, "f", ""), core.If(len(s) == 4 && s[0] == 0, "s", ""))
		if len(s) == 2 {
			j0, d0 := seq(s[0])
			j1, d1 := seq(s[1])
			add(fmt.Sprintf(`{"type":"Sequence","decoders":[{"type":"Sequence","decoders":[%s]},%s]}`, j0, j1), decoder.NewSequence([]tokenizer.Decoder{decoder.NewSequence(d0), d1[0]}))
		}
	}
	return ps
}

func vocabJS(toks []string) (string, func() model.Vocab) {
	var js []string
	for i, t := range toks {
		b, _ := json.Marshal(t)
		js = append(js, fmt.Sprintf("%s:%d", b, i))
	}
	return "{" + strings.Join(js, ",") + "}", func() model.Vocab {
		v := model.Vocab{}
		for i, t := range toks {
			v[t] = i
		}
		return v
	}
}

var c23Toks = []string{"[UNK]", "<unk>", "a", "b", "ab", "##a", "##b", "@@b", "a</w>", "b</w>", "##b</w>", "hello", "wor", "##ld", "▁a", "▁", "Ġ", "Ġa", ".", "-", "1", "日", "é", "<pad>", "|", " ", "x", "aa", "<0x41>", "abb", "Hello", "h", "e"}

func c23Models() []part {
	var ps []part
	add := func(js string, mk func() (tokenizer.Model, error), marks ...string) {
		p := part{js: js, model: mk, key: "vocab"}
		for _, m := range marks {
			p.sample = p.sample || m == "s"
			p.full = p.full || m == "f"
		}
		ps = append(ps, p)
	}
	vj, v := vocabJS(c23Toks)
	vocab := opt{"vocab", []optVal{{vj, nil}}}
	allOpts("WordLevel", []opt{vocab, strs("unk_token", "<unk>", "[UNK]", "hello", "gone")}, func(js string, o []any, last bool) {
		add(js, func() (tokenizer.Model, error) { return wordlevel.New(v(), o[1].(string)) }, core.If(o[1] == "[UNK]", "f", ""), core.If(o[1] == "[UNK]", "s", ""))
	})
	allOpts("WordPiece", []opt{vocab, strs("unk_token", "[UNK]", "<unk>", "gone"), strs("continuing_subword_prefix", "##", "@@", ""), nums("max_input_chars_per_word", 100, 1, 3, 5)}, func(js string, o []any, last bool) {
		isF := o[1] == "<unk>" && o[2] == "@@" && o[3] == 3
		add(js, func() (tokenizer.Model, error) {
			vv := v()
			return wordpiece.NewWordPieceBuilder().Vocab(&vv).UnkToken(o[1].(string)).ContinuingSubwordPrefix(o[2].(string)).MaxInputCharsPerWord(o[3].(int)).Build(), nil
		}, core.If(isF, "f", ""), core.If(isF, "s", ""))
	})
	for _, ms := range []struct {
		list   [][2]string
		prefix any
	}{{nil, nil}, {[][2]string{{"a", "b"}, {"a", "##b"}, {"a", "b</w>"}, {"Ġ", "a"}}, nil}, {[][2]string{{"Ġ", "a"}, {"a", "a"}, {"ab", "b"}, {"a", "b"}}, nil}} {
		var sl, ll []string
		for _, m := range ms.list {
			sl = append(sl, fmt.Sprintf("%q", m[0]+" "+m[1]))
			ll = append(ll, fmt.Sprintf("[%q,%q]", m[0], m[1]))
		}
		merges := opt{"merges", []optVal{{"[" + strings.Join(sl, ",") + "]", nil}, {"[" + strings.Join(ll, ",") + "]", nil}}}
		if len(ms.list) == 0 {
			merges.vals = merges.vals[:1]
		}
		none := opt{"dropout", []optVal{{"", nil}, {"1.0", float32(1)}, {"null", nil}}} // at 1 no merge is applied
		off := func(n string, js string) opt { return opt{n, []optVal{{js, nil}}} }
		nilable := func(n string, vals ...string) opt {
			o := opt{n, []optVal{{"", nil}, {"null", nil}}}
			for _, x := range vals {
				o.vals = append(o.vals, optVal{fmt.Sprintf("%q", x), x})
			}
			return o
		}
		opts := []opt{vocab, merges, none, nilable("unk_token", "<unk>", "[UNK]"), nilable("continuing_subword_prefix", "##"), nilable("end_of_word_suffix", "</w>"), off("fuse_unk", core.If(len(ms.list) == 0, "null", "false")), off("byte_fallback", core.If(len(ms.list) == 0, "", "false"))}
		allOpts("BPE", opts, func(js string, o []any, last bool) {
			mk := func() (tokenizer.Model, error) {
				b := bpe.NewBpeBuilder()
				m := bpe.Merges{}
				vv := v()
				pre := ""
				if o[4] != nil {
					pre = o[4].(string)
				}
				for r, p := range ms.list {
					i, ok1 := vv[p[0]]
					j, ok2 := vv[p[1]]
					k, ok3 := vv[p[0]+strings.TrimPrefix(p[1], pre)]
					if !ok1 || !ok2 {
						return nil, fmt.Errorf("harness: unknown part")
					}
					if !ok3 {
						return nil, fmt.Errorf("merged token is unknown")
					}
					m[bpe.Pair{C1: i, C2: j}] = bpe.PairVal{Rank: r, NewId: k}
				}
				b.VocabAndMerges(vv, m)
				if o[2] != nil {
					b.Dropout(o[2].(float32))
				}
				if o[3] != nil {
					b.UnkToken(o[3].(string))
				}
				if o[4] != nil {
					b.ContinuingSubwordPrefix(pre)
				}
				if o[5] != nil {
					b.EndOfWordSuffix(o[5].(string))
				}
				return b.Build()
			}
			isF := last && len(ms.list) > 0
			add(js, mk, core.If(isF, "f", ""), core.If(isF, "s", ""))
		})
	}
	// unigram
	uv := []unigram.TokenScore{{Token: "<unk>", Score: 0}, {Token: "a", Score: -1}, {Token: "b", Score: -1.5}, {Token: "ab", Score: -2.25}, {Token: "▁", Score: -3}, {Token: "▁a", Score: -3.5}, {Token: "hello", Score: -6}, {Token: "[UNK]", Score: -20}, {Token: " ", Score: -4}}
	for i := 0; i < 256; i++ {
		uv = append(uv, unigram.TokenScore{Token: fmt.Sprintf("<0x%02X>", i), Score: -50})
	}
	var uj []string
	for _, t := range uv {
		b, _ := json.Marshal(t.Token)
		uj = append(uj, fmt.Sprintf("[%s,%v]", b, t.Score))
	}
	for _, n := range []int{9, len(uv)} {
		n := n
		allOpts("Unigram", []opt{{"unk_id", []optVal{{"", nil}, {"null", nil}, {"0", 0}, {"7", 7}}}, flag("byte_fallback", false), flag("fuse_unk", true), {"vocab", []optVal{{"[" + strings.Join(uj[:n], ",") + "]", nil}}}}, func(js string, o []any, last bool) {
			add(js, func() (tokenizer.Model, error) {
				b := unigram.NewUnigramBuilder().Vocab(append([]unigram.TokenScore(nil), uv[:n]...))
				if o[0] != nil {
					b = b.UnkID(o[0].(int))
				}
				return b.BytesFallback(o[1].(bool)).FuseUnk(o[2].(bool)).Build()
			}, core.If(last && n == 9, "f", ""), core.If(last, "s", ""))
		})
	}
	return ps
}

func c23Untyped() []part {
	var ps []part
	for _, p := range c23Models() {
		if !p.sample {
			continue
		}
		var m map[string]json.RawMessage
		if err := json.Unmarshal([]byte(p.js), &m); err != nil {
			panic(err)
		}
		typ := string(m["type"])
		delete(m, "type")
		b, _ := json.Marshal(m)
		switch typ {
		case `"BPE"`:
			ps = append(ps, part{js: string(b), model: p.model, need: ""}, part{js: string(b), model: p.model, need: `{"type":"ByteLevel"}`})
		case `"WordPiece"`:
			ps = append(ps, part{js: string(b), model: p.model, need: `{"type":"WordPiece","prefix":"##","cleanup":true}`})
		}
	}
	return ps
}

func c23Added() []part {
	mk := func(s string) tokenizer.TokenConfig { return tokenizer.TokenConfig{Content: s} }
	var ps []part
	add := func(js bool, toks []tokenizer.TokenConfig, marks ...string) {
		p := part{toks: toks, js: "[]"}
		if !js {
			p.js = ""
		}
		for _, m := range marks {
			p.sample = p.sample || m == "s"
		}
		ps = append(ps, p)
	}
	add(false, nil, "s")
	add(true, nil)
	// every option of one token
	for bits := 0; bits < 32; bits++ {
		for _, s := range []string{"<n>", "Hello", "a"} {
			t := mk(s)
			t.SingleWord, t.Lstrip, t.Rstrip, t.Normalized, t.Special = bits&1 > 0, bits&2 > 0, bits&4 > 0, bits&8 > 0, bits&16 > 0
			add(true, []tokenizer.TokenConfig{t}, core.If(bits == 0 && s == "Hello", "s", ""))
		}
	}
	// every sequence of special and plain tokens
	for n := 2; n <= 4; n++ {
		for bits := 0; bits < 1<<n; bits++ {
			var ts []tokenizer.TokenConfig
			for i := 0; i < n; i++ {
				t := mk([]string{"<n>", "<m>", "[CLS]", "Hel"}[i])
				t.Special = bits>>i&1 > 0
				ts = append(ts, t)
			}
			add(true, ts, core.If(n == 4 && bits == 6, "s", ""))
			if n == 3 {
				k := mk("a") // known to the models
				add(true, append(append([]tokenizer.TokenConfig{}, ts[:1]...), k, ts[1], ts[2]))
			}
		}
	}
	return ps
}

func c23Truncs() []part {
	ps := []part{{sample: true}, {js: "null"}}
	for max := 1; max <= 6; max++ {
		for stride := 0; stride < 2 && stride < max; stride++ {
			for i, s := range []tokenizer.TruncationStrategy{tokenizer.LongestFirst, tokenizer.OnlyFirst, tokenizer.OnlySecond} {
				for _, dir := range []string{"", `,"direction":"Right"`, `,"direction":null`} {
					ps = append(ps, part{
						js:     fmt.Sprintf(`{"max_length":%d,"stride":%d,"strategy":%q%s}`, max, stride, []string{"LongestFirst", "OnlyFirst", "OnlySecond"}[i], dir),
						trunc:  &tokenizer.TruncationParams{MaxLength: max, Stride: stride, Strategy: s},
						sample: max == 5 && stride == 1 && i == 0 && dir == "",
						full:   max == 5 && stride == 1 && i == 1 && len(dir) == 20,
					})
				}
			}
		}
	}
	return ps
}

func c23Pads() []part {
	ps := []part{{sample: true}, {js: "null"}}
	strat := opt{"strategy", []optVal{{"", 512}, {"null", 512}, {`{"Fixed":3}`, 3}, {`"BatchLongest"`, 0}, {`{"BatchLongest":null}`, 0}, {`"Fixed"`, 512}, {`{"Fixed":9}`, 9}}}
	dir := opt{"direction", []optVal{{"", tokenizer.Right}, {"null", tokenizer.Right}, {`"Right"`, tokenizer.Right}, {`"right"`, tokenizer.Right}, {`"left"`, tokenizer.Left}, {`"Left"`, tokenizer.Left}}}
	allOpts("", []opt{{"pad_to_multiple_of", []optVal{{"null", nil}}}, nums("pad_id", 0, 5), {"pad_type_id", []optVal{{"", 0}, {"2", 2}}}, strs("pad_token", "[PAD]", "<p>"), strat, dir}, func(js string, v []any, last bool) {
		ps = append(ps, part{js: js, pad: c23Pad(v[4].(int), v[5].(tokenizer.PaddingDirection), v[1].(int), v[2].(int), v[3].(string)), sample: last, full: last})
	})
	dirs := dir
	dirs.vals = dir.vals[:1]
	sizes := opt{"size", []optVal{{"", 512}, {"null", 512}, {"2", 2}, {"10", 10}}}
	allOpts("", []opt{{"strategy", []optVal{{`"Fixed"`, nil}}}, nums("pad_id", 0, 1), nums("pad_type_id", 0, 3), strs("pad_token", "[PAD]", "x"), sizes, dirs}, func(js string, v []any, last bool) {
		ps = append(ps, part{js: js, pad: c23Pad(v[4].(int), tokenizer.Right, v[1].(int), v[2].(int), v[3].(string)), full: last})
	})
	return ps
}

func c23Pad(size int, dir tokenizer.PaddingDirection, id, typ int, tok string) *tokenizer.PaddingParams {
	st := tokenizer.NewPaddingStrategy(tokenizer.WithFixed(size))
	if size == 0 {
		st = tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest())
	}
	return &tokenizer.PaddingParams{Strategy: *st, Direction: dir, PadId: id, PadTypeId: typ, PadToken: tok}
}

// c23Config is one part per section, in the order of c23Sections.
type c23Config [8]*part

var c23Sections = [8]string{"normalizer", "pre_tokenizer", "post_processor", "decoder", "model", "added_tokens", "truncation", "padding"}

func (cf c23Config) json(order int) string {
	var b []string
	if order%2 == 0 {
		b = append(b, `"version":"1.0"`)
	}
	for k := range cf {
		i := k
		if order >= 2 {
			i = len(cf) - 1 - k
		}
		s := cf[i].js
		if i == 5 && len(cf[i].toks) > 0 {
			toks := append([]tokenizer.TokenConfig(nil), cf[i].toks...)
			if m, err := cf[4].model(); err == nil {
				next := m.GetVocabSize()
				for j := range toks {
					if id, ok := m.TokenToId(toks[j].Content); ok {
						toks[j].Id = int64(id)
					} else {
						toks[j].Id = int64(next)
						next++
					}
				}
			}
			j, _ := json.Marshal(toks)
			s = string(j)
		}
		if s != "" {
			b = append(b, fmt.Sprintf("%q:%s", c23Sections[i], s))
		}
	}
	return "{" + strings.Join(b, ",") + "}"
}

// build makes the pipeline through the programming interface.
func (cf c23Config) build() (*tokenizer.Tokenizer, error) {
	m, err := cf[4].model()
	if err != nil {
		return nil, err
	}
	tk := tokenizer.NewTokenizer(m)
	if cf[0].norm != nil {
		tk.WithNormalizer(cf[0].norm)
	}
	if cf[1].pre != nil {
		tk.WithPreTokenizer(cf[1].pre)
	}
	if cf[2].post != nil {
		tk.WithPostProcessor(cf[2].post)
	}
	if cf[3].dec != nil {
		tk.WithDecoder(cf[3].dec)
	}
	for _, tc := range cf[5].toks {
		at := tokenizer.NewAddedToken(tc.Content, tc.Special)
		at.SingleWord, at.LStrip, at.RStrip, at.Normalized = tc.SingleWord, tc.Lstrip, tc.Rstrip, tc.Normalized
		if tc.Special {
			tk.AddSpecialTokens([]tokenizer.AddedToken{at})
		} else {
			tk.AddTokens([]tokenizer.AddedToken{at})
		}
	}
	if cf[6].trunc != nil {
		p := *cf[6].trunc
		tk.WithTruncation(&p)
	}
	if cf[7].pad != nil {
		p := *cf[7].pad
		tk.WithPadding(&p)
	}
	return tk, nil
}

var c23Probes = []string{"", "a", " Hello wörld  a-b ", "ab12 3c.", "x.y,,z 'll", "▁a b_c", "日本é e\u0301 É", "[CLS] a<n>b Hello<m>", "A\tb\n", "hello world.", "½ﬁ a[ab]b", "abb ab aab|a"}

// c23LongProbes are for descriptions with many entries or large numbers.
var c23LongProbes = func() (out []string) {
	x := lcg(4)
	for _, n := range []int{40, 200, 700} {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString([]string{"hello", "ab", " ", " a-b ", "<n>", "abb", " tok" + fmt.Sprint(x.n(320)), "日本é", "{t" + fmt.Sprint(x.n(90)) + "}", letters48()[x.n(48)], ".", "1"}[x.n(12)])
		}
		out = append(out, b.String())
	}
	return append(out, strings.Repeat("a", 300), strings.Repeat("ab ", 520), strings.Join(bigPieces(400)[48:130], " "), strings.Join(bigPieces(400)[300:340], ""))
}()

// c23Large describes components with many entries, long strings and large numbers.
func c23Large() (secs [8][]part) {
	q := func(v any) string { b, _ := json.Marshal(v); return string(b) }
	long := strings.Repeat("é-", 150)
	for _, n := range []int{9, 33, 130} {
		var norms []normalizer.Normalizer
		var pres []tokenizer.PreTokenizer
		var posts []tokenizer.PostProcessor
		var decs []tokenizer.Decoder
		var nj, dj []string
		for i := 0; i < n; i++ {
			f, t := letters48()[i%48], string(rune(0x3b1+i))
			js := fmt.Sprintf(`{"type":"Replace","pattern":{"String":%q},"content":%q}`, f, t)
			nj, dj = append(nj, js), append(dj, js)
			r := normalizer.NewReplace(normalizer.String, f, t)
			norms, decs = append(norms, r), append(decs, r)
			pres = append(pres, core.If[tokenizer.PreTokenizer](i == n-1, pretokenizer.NewDigits(true), pretokenizer.NewCharDelimiterSplit(rune('a'+i%26))))
			posts = append(posts, processor.NewByteLevelProcessing(&pretokenizer.ByteLevel{TrimOffsets: i == n-1}))
		}
		var pj, oj []string
		for i := 0; i < n; i++ {
			pj = append(pj, core.If(i == n-1, `{"type":"Digits","individual_digits":true}`, fmt.Sprintf(`{"type":"Delimiter","delimiter":"%c"}`, 'a'+i%26)))
			oj = append(oj, fmt.Sprintf(`{"type":"ByteLevel","trim_offsets":%v}`, i == n-1))
		}
		j := func(l []string) string { return strings.Join(l, ",") }
		secs[0] = append(secs[0], part{js: `{"type":"Sequence","normalizers":[` + j(nj) + `]}`, norm: normalizer.NewSequence(norms)})
		secs[1] = append(secs[1], part{js: `{"type":"Sequence","pretokenizers":[` + j(pj) + `]}`, pre: pretokenizer.NewSequence(pres)})
		secs[2] = append(secs[2], part{js: `{"type":"Sequence","processors":[` + j(oj) + `]}`, post: processor.NewSequence(posts)})
		secs[3] = append(secs[3], part{js: `{"type":"Sequence","decoders":[` + j(dj) + `]}`, dec: decoder.NewSequence(decs)})
		// deep nesting
		nn, np, nd := normalizer.NewSequence(norms[:1]), tokenizer.PreTokenizer(pretokenizer.NewSequence(pres[:1])), tokenizer.Decoder(decoder.NewSequence(decs[:1]))
		nnj, npj, ndj := `{"type":"Sequence","normalizers":[`+nj[0]+`]}`, `{"type":"Sequence","pretokenizers":[`+pj[0]+`]}`, `{"type":"Sequence","decoders":[`+dj[0]+`]}`
		for i := 1; i < min(n, 40); i++ {
			nn, nnj = normalizer.NewSequence([]normalizer.Normalizer{nn, norms[i]}), `{"type":"Sequence","normalizers":[`+nnj+`,`+nj[i]+`]}`
			np, npj = pretokenizer.NewSequence([]tokenizer.PreTokenizer{np, pres[i]}), `{"type":"Sequence","pretokenizers":[`+npj+`,`+pj[i]+`]}`
			nd, ndj = decoder.NewSequence([]tokenizer.Decoder{nd, decs[i]}), `{"type":"Sequence","decoders":[`+ndj+`,`+dj[i]+`]}`
		}
		secs[0], secs[1], secs[3] = append(secs[0], part{js: nnj, norm: nn}), append(secs[1], part{js: npj, pre: np}), append(secs[3], part{js: ndj, dec: nd})
		// templates of many pieces
		var tpl processor.Template
		var tj, sj []string
		var toks []processor.SpecialToken
		var ids []int
		var names []string
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("s%d", i)
			ids, names = append(ids, 40000+i*7), append(names, fmt.Sprintf("t%d", i))
			m := 1 + i%5
			k := max(0, i+1-m)
			toks = append(toks, *processor.NewSpecialToken(name, append([]int{}, ids[k:]...), append([]string{}, names[k:]...)))
			sj = append(sj, fmt.Sprintf(`%q:{"id":%q,"ids":%s,"tokens":%s}`, name, name, q(ids[k:]), q(names[k:])))
			tpl = append(tpl, processor.NewSpecialTokenPiece(name, i))
			tj = append(tj, fmt.Sprintf(`{"SpecialToken":{"id":%q,"type_id":%d}}`, name, i))
		}
		A, aj := processor.NewSequencePiece("A", 300), `{"Sequence":{"id":"A","type_id":300}}`
		B, bj := processor.NewSequencePiece("B", 70), `{"Sequence":{"id":"B","type_id":70}}`
		single := append(append(append(processor.Template{}, tpl[:n/2]...), A), tpl[n/2:]...)
		pair := append(append(append(processor.Template{B}, tpl[:n/3]...), A), tpl[n/3:]...)
		singleJ := j(append(append(append([]string{}, tj[:n/2]...), aj), tj[n/2:]...))
		pairJ := j(append(append(append([]string{bj}, tj[:n/3]...), aj), tj[n/3:]...))
		secs[2] = append(secs[2], part{js: fmt.Sprintf(`{"type":"TemplateProcessing","single":[%s],"pair":[%s],"special_tokens":{%s}}`, singleJ, pairJ, j(sj)), post: processor.NewTemplateProcessing(single, pair, processor.NewTokensFrom(toks))})
		// added tokens
		var ats []tokenizer.TokenConfig
		for i := 0; i < n*3; i++ {
			a := tokenizer.TokenConfig{Content: []string{fmt.Sprintf("tok%d", i), fmt.Sprintf("{t%d}", i), fmt.Sprintf("<n>%d", i), fmt.Sprintf("日本é %d", i)}[i%4], Special: (i/5)%2 == 0 || i%7 == 0, SingleWord: i%3 == 0, Lstrip: i%4 == 1, Rstrip: i%5 == 1, Normalized: i%2 == 0}
			ats = append(ats, a)
		}
		secs[5] = append(secs[5], part{js: "[]", toks: ats})
	}
	secs[0] = append(secs[0], part{js: fmt.Sprintf(`{"type":"Replace","pattern":{"String":"b"},"content":%q}`, long), norm: normalizer.NewReplace(normalizer.String, "b", long)},
		part{js: fmt.Sprintf(`{"type":"Prepend","prepend":%q}`, long), norm: normalizer.NewPrepend(long)})
	for _, id := range []int{300, 50264, 70000, 2000000} {
		sep, cls := processor.PostToken{Value: "[SEP]", Id: id}, processor.PostToken{Value: long, Id: id + 1}
		js := fmt.Sprintf(`"sep":["[SEP]",%d],"cls":[%q,%d]`, id, long, id+1)
		secs[2] = append(secs[2], part{js: `{"type":"BertProcessing",` + js + `}`, post: processor.NewBertProcessing(sep, cls)},
			part{js: `{"type":"RobertaProcessing","trim_offsets":true,"add_prefix_space":false,` + js + `}`, post: processor.NewRobertaProcessing(sep, cls, true, false)})
		for _, dir := range []tokenizer.PaddingDirection{tokenizer.Left, tokenizer.Right} {
			secs[7] = append(secs[7], part{js: fmt.Sprintf(`{"strategy":{"Fixed":%d},"direction":%q,"pad_id":%d,"pad_type_id":%d,"pad_token":%q}`, 200+id%512, core.If(dir == tokenizer.Left, "Left", "Right"), id, id/10, long), pad: c23Pad(200+id%512, dir, id, id/10, long)})
		}
	}
	for _, n := range []int{8, 70, 300} {
		secs[3] = append(secs[3], part{js: fmt.Sprintf(`{"type":"Strip","content":"a","start":%d,"stop":%d}`, n, n/2), dec: decoder.NewStrip("a", n, n/2)})
		for i, st := range []tokenizer.TruncationStrategy{tokenizer.LongestFirst, tokenizer.OnlyFirst, tokenizer.OnlySecond} {
			for _, stride := range []int{0, 1, n / 2, n - 5} {
				secs[6] = append(secs[6], part{js: fmt.Sprintf(`{"max_length":%d,"stride":%d,"strategy":%q}`, n, stride, []string{"LongestFirst", "OnlyFirst", "OnlySecond"}[i]), trunc: &tokenizer.TruncationParams{MaxLength: n, Stride: stride, Strategy: st}})
			}
		}
	}
	secs[6] = append(secs[6], part{js: `{"max_length":100000,"stride":9000,"strategy":"LongestFirst"}`, trunc: &tokenizer.TruncationParams{MaxLength: 100000, Stride: 9000}})
	// models
	for _, n := range []int{130, 400} {
		pieces := bigPieces(n)
		vocab := model.Vocab{"[UNK]": 0}
		for i, p := range pieces {
			vocab[p] = 1 + i*core.If(n == 130, 1, 997)
			if i%2 == 0 {
				vocab["##"+p] = 500000 + i
			}
		}
		cp := func() model.Vocab {
			v := model.Vocab{}
			for k, i := range vocab {
				v[k] = i
			}
			return v
		}
		for _, mx := range []int{60, 255, 256, 1000} {
			secs[4] = append(secs[4], part{js: fmt.Sprintf(`{"type":"WordPiece","unk_token":"[UNK]","continuing_subword_prefix":"##","max_input_chars_per_word":%d,"vocab":%s}`, mx, q(vocab)), model: func() (tokenizer.Model, error) {
				v := cp()
				return wordpiece.NewWordPieceBuilder().Vocab(&v).UnkToken("[UNK]").ContinuingSubwordPrefix("##").MaxInputCharsPerWord(mx).Build(), nil
			}})
		}
		secs[4] = append(secs[4], part{js: fmt.Sprintf(`{"type":"WordLevel","unk_token":"[UNK]","vocab":%s}`, q(vocab)), model: func() (tokenizer.Model, error) { return wordlevel.New(cp(), "[UNK]") }})
		var us []unigram.TokenScore
		var uj []string
		x := lcg(6)
		for _, p := range pieces {
			us = append(us, unigram.TokenScore{Token: p, Score: -float64(x.n(1<<24)) / 1234567})
			uj = append(uj, fmt.Sprintf("[%q,%v]", p, us[len(us)-1].Score))
		}
		us = append(us, unigram.TokenScore{Token: "<unk>", Score: -1e2})
		uj = append(uj, `["<unk>",-1e2]`)
		secs[4] = append(secs[4], part{js: fmt.Sprintf(`{"type":"Unigram","unk_id":%d,"vocab":[%s]}`, len(us)-1, strings.Join(uj, ",")), model: func() (tokenizer.Model, error) {
			return unigram.NewUnigramBuilder().Vocab(append([]unigram.TokenScore(nil), us...)).UnkID(len(us) - 1).FuseUnk(true).Build()
		}})
		for _, flip := range []bool{false, true} {
			d := bigBpe(n, flip)
			var sl, ll []string
			for _, m := range d.merges {
				sl = append(sl, q(d.toks[m[0]]+" "+d.toks[m[1]]))
				ll = append(ll, q([]string{d.toks[m[0]], d.toks[m[1]]}))
			}
			for _, l := range [][]string{sl, ll} {
				secs[4] = append(secs[4], part{js: fmt.Sprintf(`{"type":"BPE","unk_token":"<u>","vocab":%s,"merges":[%s]}`, q(d.vocab()), strings.Join(l, ",")), model: func() (tokenizer.Model, error) {
					b := bpe.NewBpeBuilder()
					b.VocabAndMerges(d.vocab(), d.mergeMap())
					b.UnkToken("<u>")
					return b.Build()
				}})
			}
		}
	}
	return
}

// c23Watch is everything there is to see of a tokenizer.
func c23Watch(tk *tokenizer.Tokenizer, n int) []string {
	var out []string
	see := func(what string, f func() any) {
		var s string
		func() {
			defer func() {
				if r := recover(); r != nil {
					s, _, _ = strings.Cut(fmt.Sprintf("panic %v", r), "\n")
				}
			}()
			s = fmt.Sprintf("%+v", f())
		}()
		out = append(out, what+": "+s)
	}
	enc := func(e *tokenizer.Encoding, err error) any {
		if err != nil {
			return err
		}
		return *e
	}
	probes := c23Probes
	if n < 0 {
		probes = append(append([]string{}, c23Probes[:4]...), c23LongProbes...)
	}
	if n > 0 && n < len(probes) {
		probes = probes[len(probes)-n:]
	}
	var ins []tokenizer.EncodeInput
	for i, p := range probes {
		see(fmt.Sprintf("encode %q", p), func() any { return enc(tk.EncodeSingle(p, true)) })
		o := probes[(i+5)%len(probes)]
		if i%3 == 0 || n == 0 && i%3 == 1 {
			see(fmt.Sprintf("encode %q and %q", p, o), func() any { return enc(tk.EncodePair(p, o, i%4 != 0)) })
		}
		if i < 4 || i > 9 {
			ins = append(ins, tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(p)))
		}
		see(fmt.Sprintf("decode %q", p), func() any {
			e, err := tk.EncodeSingle(p, true)
			if err != nil {
				return err
			}
			return tk.Decode(e.Ids, i%3 == 0)
		})
	}
	if n == 0 {
		see("encode a batch", func() any {
			es, err := tk.EncodeBatch(ins[:3], true)
			if err != nil {
				return err
			}
			return es
		})
	}
	v := tk.GetVocab(true)
	keys := core.Keys(v)
	sort.Strings(keys)
	for _, k := range keys {
		if len(k) > 0 && k[0] == '<' && len(k) == 6 && k != "<0x41>" {
			continue
		}
		out = append(out, fmt.Sprintf("token %q: %d", k, v[k]))
	}
	ids := []int{}
	for i := 0; i < 40; i++ {
		ids = append(ids, i, (i*7)%37)
	}
	see("decode all", func() any { return tk.Decode(ids, false) })
	see("decode some", func() any { return tk.Decode([]int{2, 3, 3, 2, 23, 24, 25, 2, 28, 14, 18, 5}, false) })
	see("decode backwards", func() any { return tk.Decode([]int{18, 14, 14, 2, 2, 13, 9, 8, 3}, true) })
	return out
}

func c23Load(doc string) (tk *tokenizer.Tokenizer, err error) {
	return pretrained.FromReader(strings.NewReader(doc))
}

func c23Check(cf c23Config, order, probes int, t *core.T) {
	doc := cf.json(order)
	want, werr := cf.build()
	got, err := c23Load(doc)
	if (err != nil) != (werr != nil) {
		t.Fatalf("loading gives error %v; building the same gives error %v; %s", err, werr, doc)
	}
	if err != nil {
		t.Op(1)
		return
	}
	a, b := c23Watch(got, probes), c23Watch(want, probes)
	t.Op(len(a))
	t.State(strings.Join(a, "\n"))
	for i := range b {
		if i >= len(a) || a[i] != b[i] {
			g := "nothing"
			if i < len(a) {
				g = a[i]
			}
			t.Fatalf("loaded: %s; built: %s; configuration %s", g, b[i], doc)
		}
	}
	if len(a) != len(b) {
		t.Fatalf("loaded from %s: sees more: %s", doc, a[len(b)])
	}
}

// canon is JSON in one spelling.
func canon(s string) string {
	var v any
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return "?" + s
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// corruptions calls f with every corruption of one field of the value.
func corruptions(p *part, f func(what, js string)) {
	var root any
	if err := json.Unmarshal([]byte(p.js), &root); err != nil {
		panic(err)
	}
	clone := func() any {
		var v any
		json.Unmarshal([]byte(p.js), &v)
		return v
	}
	var set func(v any, path []any, val any, del bool) any
	set = func(v any, path []any, val any, del bool) any {
		if len(path) == 0 {
			return val
		}
		switch x := v.(type) {
		case map[string]any:
			k := path[0].(string)
			if len(path) == 1 && del {
				delete(x, k)
			} else {
				x[k] = set(x[k], path[1:], val, del)
			}
			return x
		case []any:
			k := path[0].(int)
			if len(path) == 1 && del {
				return append(append([]any{}, x[:k]...), x[k+1:]...)
			}
			x[k] = set(x[k], path[1:], val, del)
			return x
		}
		return v
	}
	put := func(path []any, val any, del bool, what string) {
		if p.skip != nil && p.skip(fmt.Sprint(path), what) {
			return
		}
		b, _ := json.Marshal(set(clone(), path, val, del))
		f(fmt.Sprintf("%v %s", path, what), string(b))
	}
	var walk func(v any, path []any, data bool)
	walk = func(v any, path []any, data bool) {
		np := func(k any) []any { return append(append([]any{}, path...), k) }
		if len(path) > 0 {
			if !data {
				put(path, nil, true, "removed")
			}
			put(path, nil, false, "null")
		}
		var wrong []any
		switch x := v.(type) {
		case string:
			wrong = []any{3, true, []any{}, map[string]any{}, []any{"x"}}
		case float64:
			wrong = []any{"3", true, []any{}, map[string]any{}}
		case bool:
			wrong = []any{"true", 1, []any{}, map[string]any{}}
		case []any:
			wrong = []any{"x", 3, true, map[string]any{}, map[string]any{"x": 1}}
			for i := range x {
				if i < 3 || i == len(x)-1 {
					// pieces, merges and components of a list are data; the two fields of a pair are not
					_, isStr := x[0].(string)
					walk(x[i], np(i), !(isStr && len(x) == 2))
				}
			}
		case map[string]any:
			wrong = []any{"x", 3, true, []any{}, []any{"x"}}
			n := 0
			keys := core.Keys(x)
			sort.Strings(keys)
			inData := len(path) > 0 && (path[len(path)-1] == "vocab" || path[len(path)-1] == "special_tokens")
			for _, k := range keys {
				if inData && n > 2 {
					break
				}
				n++
				walk(x[k], np(k), inData && path[len(path)-1] == "vocab")
			}
		}
		if len(path) > 0 {
			for _, w := range wrong {
				b, _ := json.Marshal(w)
				put(path, w, false, "= "+string(b))
			}
			switch path[len(path)-1] {
			case "type", "behavior", "prepend_scheme", "strategy", "direction":
				put(path, "Zzz", false, `= "Zzz"`)
			case "Regex":
				put(path, "(", false, `= "("`)
				put(path, "a**", false, `= "a**"`)
			case "precompiled_charsmap":
				put(path, "!!!!", false, `= "!!!!"`)
				put(path, "", false, `= ""`)
				put(path, "AAAA", false, `= "AAAA"`)
			case "delimiter":
				put(path, "", false, `= ""`)
				put(path, "ab", false, `= "ab"`)
			case "id":
				put(path, "Zzz", false, `= "Zzz"`)
			case "unk_id":
				put(path, 1000000, false, "= 1000000")
				put(path, -1, false, "= -1")
			case "merges":
				put(path, []any{"a"}, false, "= one word")
				put(path, []any{"a b b"}, false, "= three words")
				put(path, []any{[]any{"a"}}, false, "= a list of one")
				put(path, []any{"b a"}, false, "= a merge into an unknown token")
			}
		}
	}
	walk(root, nil, false)
}

func c23(c *core.Ctx) {
	secs := [8][]part{c23Norms(), c23Pres(), c23Posts(), c23Decs(), c23Models(), c23Added(), c23Truncs(), c23Pads()}
	find := func(sec int, js string) *part {
		for i := range secs[sec] {
			if secs[sec][i].js == js {
				return &secs[sec][i]
			}
		}
		panic("c23: no " + js)
	}
	samples := func(sec int) []*part {
		var out []*part
		for i := range secs[sec] {
			if secs[sec][i].sample {
				out = append(out, &secs[sec][i])
			}
		}
		return out
	}
	// bases: one per model family, everything else absent or simple
	wl := samples(4)
	base := func(m int) c23Config {
		var cf c23Config
		for s := range cf {
			cf[s] = &secs[s][0]
		}
		cf[4] = wl[m]
		return cf
	}
	type job struct {
		name  string
		cf    c23Config
		order int
		n     int
	}
	var jobs []job
	blp := find(1, `{"type":"ByteLevel"}`)
	// every description of every section, in several surroundings
	for s := range secs {
		for i := range secs[s] {
			p := &secs[s][i]
			for m := range wl {
				if s == 4 && m > 0 {
					break
				}
				if s == 7 && !c.Thorough() && m != i%len(wl) {
					continue
				}
				if s != 4 && s != 7 && !c.Thorough() && m != 0 && m != (i%(len(wl)-1))+1 {
					continue
				}
				cf := base(m)
				cf[s] = p
				jobs = append(jobs, job{fmt.Sprintf("%s %s on model %d", c23Sections[s], p.js, m), cf, i % 4, core.If(s >= 6 || s == 4, 5, 0)})
				if s != 1 && (s != 4 || strings.Contains(p.js, `"BPE"`)) {
					cf[1] = core.If(i%2 == 0, blp, find(1, `{"type":"WhitespaceSplit"}`))
					jobs = append(jobs, job{fmt.Sprintf("%s %s split, on model %d", c23Sections[s], p.js, m), cf, i % 4, core.If(s >= 6, 3, 6)})
				}
			}
		}
	}
	for i, p := range c23Untyped() {
		p := p
		for _, pre := range samples(1) {
			cf := base(0)
			cf[4], cf[1] = &p, pre
			if p.need != "" {
				cf[3] = find(3, core.If(p.need == `{"type":"ByteLevel"}`, `{"type":"ByteLevel"}`, p.need))
			}
			jobs = append(jobs, job{fmt.Sprintf("model without type %d, pre-tokenizer %s", i, pre.js), cf, i % 4, 0})
		}
	}
	// combinations of sections
	var sm [8][]*part
	for s := range sm {
		sm[s] = samples(s)
	}
	for s1 := range secs {
		for s2 := 0; s2 < s1; s2++ {
			l1, l2 := sm[s1], sm[s2]
			if c.Thorough() {
				for i := range secs[s1] {
					if i%5 == 0 {
						l1 = append(l1, &secs[s1][i])
					}
				}
				for i := range secs[s2] {
					if i%5 == 0 {
						l2 = append(l2, &secs[s2][i])
					}
				}
				if len(l1) > 120 {
					l1 = l1[:120]
				}
				if len(l2) > 120 {
					l2 = l2[:120]
				}
			}
			for i, p1 := range l1 {
				for j, p2 := range l2 {
					cf := base((i + j) % len(wl))
					cf[s1], cf[s2] = p1, p2
					jobs = append(jobs, job{fmt.Sprintf("%s %s with %s %s", c23Sections[s1], p1.js, c23Sections[s2], p2.js), cf, (i + j) % 4, 6})
				}
			}
		}
	}
	for s, l := range c23Large() {
		for i := range l {
			p := &l[i]
			name := p.js
			if len(name) > 100 {
				name = name[:100] + ".."
			}
			for m := range wl {
				if s == 4 && m > 0 || !c.Thorough() && m != i%len(wl) {
					continue
				}
				cf := base(m)
				cf[s] = p
				jobs = append(jobs, job{fmt.Sprintf("large %s %s on model %d", c23Sections[s], name, m), cf, i % 4, -1})
				if s != 1 {
					cf[1] = core.If(i%2 == 0, blp, find(1, `{"type":"WhitespaceSplit"}`))
					jobs = append(jobs, job{fmt.Sprintf("large %s %s split, on model %d", c23Sections[s], name, m), cf, i % 4, -1})
				}
			}
		}
	}
	c.Par(len(jobs), func(w *core.W, i int) {
		j := jobs[i]
		w.Case(fmt.Sprintf("load/%s/%d", j.name, i), func(t *core.T) { c23Check(j.cf, j.order, j.n, t) })
	})
	c.Count("configurations", int64(len(jobs)))
	// the product of the samples of all sections
	dims := sm
	if !c.Thorough() {
		dims[3], dims[6], dims[7] = dims[3][:2], dims[6][1:], dims[7][1:]
	}
	total := 1
	for s := range dims {
		total *= len(dims[s])
	}
	c.Par((total+49)/50, func(w *core.W, k int) {
		w.Case(fmt.Sprintf("product/%d", k), func(t *core.T) {
			for n := k * 50; n < (k+1)*50 && n < total; n++ {
				var cf c23Config
				m := n
				for s := range cf {
					cf[s] = dims[s][m%len(dims[s])]
					m /= len(dims[s])
				}
				c23Check(cf, n%4, 3, t)
			}
		})
	})
	c.Count("products", int64(total))

	// corrupted descriptions
	type bad struct {
		sec  int
		what string
		cf   c23Config
		js   string
		p    part
	}
	var bads []bad
	last := func(path, what string, names ...string) bool {
		for _, n := range names {
			if strings.HasSuffix(path, n+"]") {
				return true
			}
		}
		return false
	}
	def := func(what string) bool { return what == "null" || what == "removed" }
	for s := range secs {
		for i := range secs[s] {
			p := &secs[s][i]
			switch {
			case s == 7:
				p.skip = func(path, what string) bool {
					return last(path, what, "strategy", "pad_to_multiple_of", "pad_id", "pad_type_id", "pad_token") && def(what)
				}
			case strings.Contains(p.js, `"ByteLevel"`):
				p.skip = func(path, what string) bool {
					return last(path, what, "use_regex") || last(path, what, "trim_offsets", "add_prefix_space") && def(what)
				}
			case strings.Contains(p.js, `"Metaspace"`) && strings.Contains(p.js, "prepend_scheme"):
				p.skip = func(path, what string) bool { return last(path, what, "add_prefix_space") }
			case strings.Contains(p.js, `"BPE"`):
				// a model without type is taken for a BPE one
				p.skip = func(path, what string) bool {
					return last(path, what, "fuse_unk", "byte_fallback") || path == "[type]" && def(what)
				}
			}
		}
	}
	for s := range secs {
		valid := map[string]*part{}
		for i := range secs[s] {
			valid[canon(secs[s][i].js)] = &secs[s][i]
		}
		for i := range secs[s] {
			p := &secs[s][i]
			if !p.full {
				continue
			}
			corruptions(p, func(what, js string) {
				b := bad{sec: s, what: fmt.Sprintf("%s %s: %s", c23Sections[s], p.js, what), js: js}
				b.cf = base(0)
				if v := valid[canon(js)]; v != nil {
					b.p = *v
				}
				bads = append(bads, b)
			})
		}
		for _, js := range []string{`"x"`, `3`, `true`, `[]`, `["x"]`, `{}`, `{"type":null}`, `{"type":""}`, `{"type":3}`, `{"type":"Nmt"}`, `{"type":"Zzz"}`, `{"type":["BPE"]}`} {
			if s == 5 && js == "[]" || s == 7 && js[0] == '{' {
				continue
			}
			bads = append(bads, bad{sec: s, what: c23Sections[s] + " = " + js, js: js, cf: base(0)})
		}
		for _, js := range []string{`[{"content":3}]`, `[{"id":"x","content":"y"}]`, `[{"content":"y","special":"true"}]`, `[{"content":"y","lstrip":1}]`, `["y"]`, `[3]`} {
			if s == 5 {
				bads = append(bads, bad{sec: s, what: "added_tokens = " + js, js: js, cf: base(0)})
			}
		}
	}
	for _, js := range []string{`{"type":"BPE","vocab":{"a":0},"merges":[],"dropout":-0.5}`, `{"type":"BPE","vocab":{"a":0},"merges":[],"dropout":1.5}`, `{"type":"Unigram","unk_id":0,"vocab":[["a"]]}`, `{"type":"Unigram","unk_id":0,"vocab":[["a",0,1]]}`, `null`, ``} {
		bads = append(bads, bad{sec: 4, what: "model = " + js, js: js, cf: base(0)})
	}
	for _, js := range []string{
		`{"type":"TemplateProcessing","single":[{"Sequence":{"id":"B","type_id":0}}],"pair":[{"Sequence":{"id":"A","type_id":0}},{"Sequence":{"id":"B","type_id":0}}]}`,
		`{"type":"TemplateProcessing","single":[{}],"pair":[{"Sequence":{"id":"A","type_id":0}},{"Sequence":{"id":"B","type_id":0}}]}`,
		`{"type":"TemplateProcessing","single":[{"Sequence":{"id":"A","type_id":0}}],"pair":[{"Sequence":{"id":"A","type_id":0}},{"SpecialToken":{"id":"x","type_id":0}},{"Sequence":{"id":"B","type_id":0}}]}`,
		`{"type":"TemplateProcessing","single":[{"Sequence":{"id":"A","type_id":0}},{"SpecialToken":{"id":"x","type_id":0}}],"pair":[{"Sequence":{"id":"A","type_id":0}},{"Sequence":{"id":"B","type_id":0}}],"special_tokens":{}}`,
		`{"type":"TemplateProcessing","single":[{"Sequence":{"id":"A","type_id":0}},{"SpecialToken":{"id":"x","type_id":0}}],"pair":[{"Sequence":{"id":"A","type_id":0}},{"Sequence":{"id":"B","type_id":0}}],"special_tokens":{"x":{"id":"x","ids":[1,2],"tokens":["y"]}}}`,
	} {
		bads = append(bads, bad{sec: 2, what: "template " + js, js: js, cf: base(0)})
	}
	for _, js := range []string{`{"max_length":5,"stride":0,"strategy":"LongestFirst","direction":"Left"}`} {
		bads = append(bads, bad{sec: 6, what: js, js: js, cf: base(0)})
	}
	for _, js := range []string{`{"strategy":{"Fixed":3},"pad_to_multiple_of":8}`, `{"strategy":{"Fixed":3,"BatchLongest":null}}`, `{"strategy":{}}`, `{"strategy":{"Zzz":3}}`, `{"strategy":{"Fixed":"3"}}`, `{"strategy":{"Fixed":null}}`} {
		bads = append(bads, bad{sec: 7, what: js, js: js, cf: base(0)})
	}
	c.Par(len(bads), func(w *core.W, i int) {
		b := bads[i]
		w.Case(fmt.Sprintf("corrupt/%s/%d", b.what, i), func(t *core.T) {
			p := b.p
			p.js = b.js
			b.cf[b.sec] = &p
			if b.p.js != "" {
				// another description of the table: it builds that
				b.p.js = b.js
				c23Check(b.cf, 0, 0, t)
				return
			}
			if b.sec == 4 {
				p.model = wl[0].model
			}
			doc := b.cf.json(0)
			_, err := c23Load(doc)
			t.Op(1)
			t.State(fmt.Sprint(err))
			if err == nil {
				t.Errorf("loaded without an error from %s", doc)
			}
		})
	})
	c.Count("corrupted configurations", int64(len(bads)))

	// options of other implementations that change what a component does
	alts := []struct {
		sec     int
		js, txt string
	}{
		{1, `{"type":"ByteLevel","use_regex":false}`, "use_regex"},
		{1, `{"type":"Metaspace","replacement":"▁","split":false}`, "split"},
		{4, `{"type":"BPE","vocab":{"a":0,"<unk>":1},"merges":[],"unk_token":"<unk>","fuse_unk":true}`, "fuse_unk"},
		{4, `{"type":"BPE","vocab":{"a":0,"<0x62>":1,"<unk>":2},"merges":[],"unk_token":"<unk>","byte_fallback":true}`, "byte_fallback"},
		{4, `{"type":"BPE","vocab":{"a":0,"b":1,"ab":2},"merges":[],"ignore_merges":true}`, "ignore_merges"},
	}
	c.Par(len(alts), func(w *core.W, i int) {
		a := alts[i]
		w.Case("option/"+a.txt, func(t *core.T) {
			cf := base(0)
			p := part{js: a.js, model: wl[0].model}
			cf[a.sec] = &p
			tk, err := c23Load(cf.json(0))
			if err != nil {
				return // refused: fine
			}
			var got, want string
			e, err := tk.EncodeSingle(map[string]string{"use_regex": "a b", "split": "a b", "fuse_unk": "xx", "byte_fallback": "b", "ignore_merges": "ab"}[a.txt])
			if err != nil {
				t.Fatalf("%v", err)
			}
			switch a.txt {
			case "use_regex", "split":
				got, want = fmt.Sprint(len(e.Ids)), "1"
			case "fuse_unk":
				got, want = fmt.Sprint(e.Ids), "[1]"
			case "byte_fallback":
				got, want = fmt.Sprint(e.Ids), "[1]"
			case "ignore_merges":
				got, want = fmt.Sprint(e.Ids), "[2]"
			}
			t.Op(1)
			if got != want {
				t.Errorf("option %s is ignored: loaded from %s it gives %s, want %s or an error", a.txt, a.js, got, want)
			}
		})
	})

	// whole documents: truncated anywhere, not an object, from a file
	var cf c23Config
	for s := range cf {
		cf[s] = sm[s][len(sm[s])-1]
	}
	cf[4] = &part{js: `{"type":"WordLevel","unk_token":"[UNK]","vocab":{"a":0,"[UNK]":1}}`, model: func() (tokenizer.Model, error) {
		return wordlevel.New(map[string]int{"a": 0, "[UNK]": 1}, "[UNK]")
	}}
	doc := cf.json(0)
	c.Par(len(doc)/50+1, func(w *core.W, k int) {
		w.Case(fmt.Sprintf("cut/%d", k), func(t *core.T) {
			for n := k * 50; n < (k+1)*50 && n < len(doc); n++ {
				t.Op(1)
				if tk, err := c23Load(doc[:n]); err == nil || tk != nil {
					t.Fatalf("the first %d bytes of %s: got a tokenizer (%v), error %v", n, doc, tk != nil, err)
				}
			}
		})
	})
	for _, d := range []string{"", "null", "[]", "3", `"x"`, "{}", "true", `{"model":null}`, `{"model":{}}`, `{"version":"1.0"}`, `{"model":{"type":"WordLevel"}}`, `{"model":[]}`} {
		d := d
		c.Seq().Case("document/"+d, func(t *core.T) {
			tk, err := c23Load(d)
			t.Op(1)
			if err == nil || tk != nil {
				t.Fatalf("got a tokenizer (%v), error %v", tk != nil, err)
			}
		})
	}
	c.Seq().Case("file", func(t *core.T) {
		dir := scratchDir(t)
		defer os.RemoveAll(dir)
		f := filepath.Join(dir, "tokenizer.json")
		if tk, err := pretrained.FromFile(f); err == nil || tk != nil {
			t.Errorf("a missing file loads: %v", err)
		}
		if _, err := tokenizer.ConfigFromFile(f); err == nil {
			t.Errorf("a missing configuration file loads")
		}
		for i, s := range []string{doc, doc[:len(doc)-1], ""} {
			if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
				t.Fatalf("%v", err)
			}
			tk, err := pretrained.FromFile(f)
			cfg, cerr := tokenizer.ConfigFromFile(f)
			if i > 0 {
				if err == nil || tk != nil || cerr == nil {
					t.Errorf("a cut file loads: %v %v", err, cerr)
				}
				continue
			}
			if err != nil || cerr != nil {
				t.Fatalf("a file does not load: %v, %v", err, cerr)
			}
			want, _ := cf.build()
			if a, b := c23Watch(tk, 0), c23Watch(want, 0); !reflect.DeepEqual(a, b) {
				t.Errorf("loaded from a file it differs")
			}
			var all map[string]any
			if err := json.Unmarshal([]byte(doc), &all); err != nil {
				t.Fatalf("%v", err)
			}
			for k, v := range map[string]any{"normalizer": cfg.Normalizer, "pre_tokenizer": cfg.PreTokenizer, "post_processor": cfg.PostProcessor, "decoder": cfg.Decoder, "model": cfg.Model, "truncation": cfg.Truncation, "padding": cfg.Padding} {
				if !reflect.DeepEqual(v, all[k]) {
					t.Errorf("configuration section %s is %v, the file has %v", k, v, all[k])
				}
			}
		}
	})
}

func init() {
	core.Register(&core.Check{ID: "C23", Level: "model_checking", Run: c23,
		Rule: "for every configuration of the bounded space: the tokenizer loaded from its JSON behaves on all probes like the pipeline built through the programming interface; among them components with 130 members, 390 added tokens, vocabularies and merges of hundreds of entries, long strings and large numbers, on texts of up to 700 words; every single-field corruption, and every cut of a document, is an error (unless it is another description of the space)",
		Assumptions: []string{
			"the components themselves do what they should (C01-C17)",
			"ids in added_tokens are in order of addition (they are advisory)",
			"merges naming unknown parts are skipped (kept as it was designed)",
		}})
}
