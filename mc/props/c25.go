package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

func init() {
	core.Register(&core.Check{ID: "C25", Level: "model_checking",
		Rule:        "part 1: all histories up to the depth of read operations (encode single/pair/pre-tokenized/batch/char offsets, tokenize, decode, decode batch, vocabularies, lookups, special tokens, model and decoder calls) on every pipeline, each result either kept or overwritten in place by the caller (elements, map entries and spare capacity); after every step the result equals that of the same call on a fresh tokenizer, the call's inputs are unchanged and every kept value is unchanged. part 2: all histories of truncate/pad/merge/clone/post-process/prepare operations on a pool of encodings, results kept or overwritten; an operation gives what it gives on fresh copies and changes nothing but its receivers, now and later, unless the encodings were put together before. Non-trivial: some earlier value was overwritten or alive.",
		Run:         c25,
		Assumptions: []string{"A tokenizer's settings objects (GetTruncation, GetPadding, GetModel, ...) are handles on its configuration, not values that were read; changing them is configuring.", "Overflowing parts of one encoding belong to that encoding."}})
}

// snap renders a value completely.
func snap(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// digest identifies a value; equal digests of differing values are as good as impossible.
func digest(v any) uint64 {
	d := digester{14695981039346656037}
	d.any(v)
	return d.h
}

type digester struct{ h uint64 }

func (d *digester) num(n uint64) {
	d.h ^= n
	d.h *= 0x9E3779B97F4A7C15
	d.h ^= d.h >> 29
}
func (d *digester) str(s string) {
	d.num(uint64(len(s)))
	for i := 0; i < len(s); i++ {
		d.h = (d.h ^ uint64(s[i])) * 1099511628211
	}
}
func (d *digester) ints(v []int) {
	d.num(uint64(len(v)))
	for _, x := range v {
		d.num(uint64(x))
	}
}
func (d *digester) strs(v []string) {
	d.num(uint64(len(v)))
	for _, x := range v {
		d.str(x)
	}
}
func (d *digester) enc(e *tokenizer.Encoding) {
	d.ints(e.Ids)
	d.ints(e.TypeIds)
	d.strs(e.Tokens)
	d.num(uint64(len(e.Offsets)))
	for _, o := range e.Offsets {
		d.ints(o)
	}
	d.ints(e.SpecialTokenMask)
	d.ints(e.AttentionMask)
	d.ints(e.Words)
	d.num(uint64(len(e.Overflowing)))
	for i := range e.Overflowing {
		d.enc(&e.Overflowing[i])
	}
	var sum uint64
	for k, r := range e.SequenceRanges {
		x := digester{uint64(k) + 99}
		x.ints(r)
		x.num(1)
		sum += x.h
	}
	d.num(sum)
}
func (d *digester) any(v any) {
	switch v := v.(type) {
	case nil:
	case *tokenizer.Encoding:
		d.enc(v)
	case []tokenizer.Encoding:
		for i := range v {
			d.enc(&v[i])
		}
	case []string:
		d.strs(v)
	case []int:
		d.ints(v)
	case string:
		d.str(v)
	case int:
		d.num(uint64(v))
	case map[string]int:
		var sum uint64
		for k, n := range v {
			x := digester{uint64(n) + 7}
			x.str(k)
			x.num(3)
			sum += x.h
		}
		d.num(uint64(len(v)))
		d.num(sum)
	case []c25Lookup:
		for _, l := range v {
			d.num(uint64(l.Id))
			d.str(l.Tok)
			d.num(uint64(core.If(l.Ok, 1, 0)))
		}
	case []*tokenizer.Encoding:
		for _, e := range v {
			d.enc(e)
		}
	default:
		d.str(snap(v))
	}
}

// scribble overwrites everything reachable through a value, as its owner may.
func scribble(v any) { scribbleV(reflect.ValueOf(v), 0) }

func scribbleV(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribbleV(v.Elem(), depth)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribbleV(v.Field(i), depth)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribbleV(v.Index(i), depth+1)
		}
		full := v.Slice(0, v.Cap()) // what an append may overwrite
		for i := 0; i < full.Len(); i++ {
			e := full.Index(i)
			switch e.Kind() {
			case reflect.Int:
				e.SetInt(-77)
			case reflect.String:
				e.SetString("scribbled")
			default:
				e.Set(reflect.Zero(e.Type()))
			}
		}
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for i, k := range ks {
			scribbleV(v.MapIndex(k), depth+1)
			if i == 0 {
				v.SetMapIndex(k, reflect.Value{}) // delete
				continue
			}
			e := reflect.New(v.Type().Elem()).Elem()
			if e.Kind() == reflect.Int {
				e.SetInt(-77)
			}
			v.SetMapIndex(k, e)
		}
		if !v.IsNil() && v.Type().Key().Kind() == reflect.String {
			e := reflect.New(v.Type().Elem()).Elem()
			v.SetMapIndex(reflect.ValueOf("scribbled").Convert(v.Type().Key()), e)
		}
	}
}

type c25pipe struct {
	name string
	mk   func() *tokenizer.Tokenizer
}

// c25op is a read operation: its inputs and what it returns.
type c25op struct {
	name string
	in   func() any
	run  func(tk *tokenizer.Tokenizer, in any) any
}

type c25Lookup struct {
	Id  int
	Tok string
	Ok  bool
}

func c25Pipes(thorough bool) []c25pipe {
	models := map[string]modelDef{}
	for _, d := range pipeModels() {
		models[d.name] = d
	}
	norms := map[string]anormDef{}
	for _, d := range anorms() {
		norms[d.name] = d
	}
	pres := map[string]*preDef{}
	for _, d := range c15Defs() {
		pres[d.name] = d
	}
	added := pipeAdded()
	postTok := func(tk *tokenizer.Tokenizer, s string) processor.PostToken {
		id, _ := tk.TokenToId(s)
		return processor.PostToken{Value: s, Id: id}
	}
	specials := func(tk *tokenizer.Tokenizer) (tokenizer.Token, tokenizer.Token) {
		tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[CLS]", true), tokenizer.NewAddedToken("[SEP]", true)})
		c, s := postTok(tk, "[CLS]"), postTok(tk, "[SEP]")
		return tokenizer.NewToken(c.Id, "[CLS]", nil), tokenizer.NewToken(s.Id, "[SEP]", nil)
	}
	posts := map[string]func(tk *tokenizer.Tokenizer) tokenizer.PostProcessor{
		"": func(tk *tokenizer.Tokenizer) tokenizer.PostProcessor { return nil },
		"bert": func(tk *tokenizer.Tokenizer) tokenizer.PostProcessor {
			specials(tk)
			return processor.NewBertProcessing(postTok(tk, "[SEP]"), postTok(tk, "[CLS]"))
		},
		"roberta": func(tk *tokenizer.Tokenizer) tokenizer.PostProcessor {
			specials(tk)
			return processor.NewRobertaProcessing(postTok(tk, "[SEP]"), postTok(tk, "[CLS]"), true, false)
		},
		"bytelevel": func(tk *tokenizer.Tokenizer) tokenizer.PostProcessor {
			return processor.NewByteLevelProcessing(pretokenizer.NewByteLevel())
		},
	}
	tpl := func(single, pair string) func(tk *tokenizer.Tokenizer) tokenizer.PostProcessor {
		return func(tk *tokenizer.Tokenizer) tokenizer.PostProcessor {
			c, s := specials(tk)
			// [TWO] stands for two tokens
			two := processor.NewSpecialToken("[TWO]", append(make([]int, 0, 8), c.Id, s.Id), append(make([]string, 0, 8), "[CLS]", "[SEP]"))
			sp := processor.NewTokensFrom([]processor.SpecialToken{*processor.NewSpecialTokenFrom("[CLS]", c.Id), *processor.NewSpecialTokenFrom("[SEP]", s.Id), *two})
			one, err := processor.NewTemplate(single)
			if err != nil {
				panic(err)
			}
			dual, err := processor.NewTemplate(pair)
			if err != nil {
				panic(err)
			}
			return processor.NewTemplateProcessing(one, dual, sp)
		}
	}
	posts["template"] = tpl("[CLS] $A [TWO]", "[TWO] $A [SEP] $B:1 [SEP]:1")
	posts["template/special only"] = tpl("[TWO]", "[TWO] $B:1 $A")
	posts["template/repeat"] = tpl("$A $A", "$A $B:1 $A")
	posts["template/plain"] = tpl("$A", "$A")
	posts["sequence"] = func(tk *tokenizer.Tokenizer) tokenizer.PostProcessor {
		return processor.NewSequence([]tokenizer.PostProcessor{posts["bytelevel"](tk), posts["template"](tk)})
	}
	pad := func(fixed int, dir tokenizer.PaddingDirection) *tokenizer.PaddingParams {
		st := tokenizer.NewPaddingStrategy()
		if fixed > 0 {
			st = tokenizer.NewPaddingStrategy(tokenizer.WithFixed(fixed))
		}
		return &tokenizer.PaddingParams{Strategy: *st, Direction: dir, PadId: 0, PadTypeId: 2, PadToken: "[PAD]"}
	}
	trunc := func(n, stride int) *tokenizer.TruncationParams {
		return &tokenizer.TruncationParams{MaxLength: n, Stride: stride}
	}
	var out []c25pipe
	add := func(norm, pre, md string, na int, post string, tr *tokenizer.TruncationParams, pd *tokenizer.PaddingParams, dec func() tokenizer.Decoder) {
		p := pipe{nd: norms[norm], md: models[md], added: added[na]}
		if p.md.mk == nil || p.nd.mk == nil {
			panic(fmt.Sprintf("C25: no %q or %q", norm, md))
		}
		if pre != "" {
			if p.pre = pres[pre]; p.pre == nil {
				panic("C25: no pre-tokenizer " + pre)
			}
		}
		name := fmt.Sprintf("%s post=%s", p, post)
		if tr != nil {
			name += fmt.Sprintf(" truncation=%+v", *tr)
		}
		if pd != nil {
			name += fmt.Sprintf(" padding=%+v", *pd)
		}
		out = append(out, c25pipe{name, func() *tokenizer.Tokenizer {
			tk, _ := p.build()
			if pp := posts[post](tk); pp != nil {
				tk.WithPostProcessor(pp)
			}
			if tr != nil {
				x := *tr
				tk.WithTruncation(&x)
			}
			if pd != nil {
				x := *pd
				tk.WithPadding(&x)
			}
			if dec != nil {
				tk.WithDecoder(dec())
			}
			return tk
		}})
	}
	seqDec := func() tokenizer.Decoder {
		return decoder.NewSequence([]tokenizer.Decoder{decoder.NewStrip("s", 1, 1), decoder.NewFuse()})
	}
	add("none", "", "wordlevel", 0, "", nil, nil, nil)
	add("lower", "bert", "wordpiece", 2, "bert", trunc(4, 1), pad(6, tokenizer.Right), func() tokenizer.Decoder { return decoder.DefaultWordpieceDecoder() })
	add("space", "metaspace/▁/always", "unigram", 1, "template/special only", nil, nil, func() tokenizer.Decoder { return decoder.DefaultWordpieceDecoder() })
	add("none", "whitespacesplit", "wordlevel", 1, "template", trunc(6, 1), pad(0, tokenizer.Left), nil)
	add("nfc", "bytelevel/false", "bpe", 1, "roberta", trunc(5, 2), nil, func() tokenizer.Decoder { return decoder.NewByteFallback() })
	add("none", "bytelevel/true", "bpe", 0, "sequence", trunc(5, 0), pad(0, tokenizer.Right), nil)
	add("none", "", "unigram/bytes", 2, "template/repeat", nil, pad(0, tokenizer.Left), seqDec)
	add("nfd", "whitespace", "bpe/affix", 2, "template/plain", trunc(2, 0), nil, seqDec)
	if thorough {
		add("bert", "bert", "wordpiece", 1, "template", trunc(7, 2), pad(0, tokenizer.Right), nil)
		add("llama", "digits/each", "unigram", 2, "bytelevel", nil, pad(9, tokenizer.Left), nil)
		add("drop", "delimiter/a", "bpe/affix", 1, "", trunc(3, 2), pad(2, tokenizer.Left), nil)
		add("grow", "punctuation/isolated", "unigram/fuse", 2, "sequence", trunc(9, 3), nil, nil)
	}
	return out
}

func c25Ops() []c25op {
	must := func(v any, err error) any {
		if err != nil {
			return "error: " + err.Error()
		}
		return v
	}
	long := "ab é a<s> 日 b a1 ab"
	enc := func(name, a, b string, special bool) c25op {
		return c25op{"encode " + name, func() any { return nil }, func(tk *tokenizer.Tokenizer, _ any) any {
			if b == "" {
				return must(tk.EncodeSingle(a, special))
			}
			return must(tk.EncodePair(a, b, special))
		}}
	}
	words := func() any { return append(make([]string, 0, 6), "ab", "", "é b", "Bé日", "a") }
	type pair struct{ A, B []string }
	return []c25op{
		enc("long", long, "", true),
		enc("pair", "a b", long, true),
		enc("empty", "", "", true),
		enc("plain", "ab a", "", false),
		{"encode words", words, func(tk *tokenizer.Tokenizer, in any) any {
			return must(tk.Encode(tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(in.([]string))), true))
		}},
		{"encode char offsets", func() any { return &pair{words().([]string), []string{"é", "日"}} }, func(tk *tokenizer.Tokenizer, in any) any {
			p := in.(*pair)
			return must(tk.EncodeCharOffsets(tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(p.A), tokenizer.NewInputSequence(p.B)), true))
		}},
		{"encode batch", func() any { return nil }, func(tk *tokenizer.Tokenizer, _ any) any {
			in := func(s string) tokenizer.EncodeInput {
				return tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(s))
			}
			return must(tk.EncodeBatch([]tokenizer.EncodeInput{in("a"), in(long), in("a")}, true))
		}},
		{"encode sequence", func() any { return nil }, func(tk *tokenizer.Tokenizer, _ any) any {
			return must(tk.EncodeSingleSequence(tokenizer.NewInputSequence("é ab"), 1, tokenizer.Byte))
		}},
		{"tokenize", func() any { return nil }, func(tk *tokenizer.Tokenizer, _ any) any { return must(tk.Tokenize("a日 ab", true)) }},
		{"decode", func() any { return append(make([]int, 0, 20), 3, 1, 2, 99, 1, 12, 13) }, func(tk *tokenizer.Tokenizer, in any) any {
			return []string{tk.Decode(in.([]int), true), tk.Decode(in.([]int), false)}
		}},
		{"decode batch", func() any { return [][]int{{1, 2}, {}, {3, 1, 1, 12}} }, func(tk *tokenizer.Tokenizer, in any) any {
			return tk.DecodeBatch(in.([][]int), true)
		}},
		{"vocabulary", func() any { return nil }, func(tk *tokenizer.Tokenizer, _ any) any { return tk.GetVocab(true) }},
		{"model vocabulary", func() any { return nil }, func(tk *tokenizer.Tokenizer, _ any) any { return tk.GetVocab(false) }},
		{"vocabulary of the model", func() any { return nil }, func(tk *tokenizer.Tokenizer, _ any) any { return tk.GetModel().GetVocab() }},
		{"sizes and lookups", func() any { return nil }, func(tk *tokenizer.Tokenizer, _ any) any {
			var out []c25Lookup
			out = append(out, c25Lookup{Id: tk.GetVocabSize(true)}, c25Lookup{Id: tk.GetVocabSize(false)}, c25Lookup{Id: tk.GetModel().GetVocabSize()})
			for _, s := range []string{"a", "ab", "<s>", "[CLS]", "Bé", "scribbled", "é"} {
				id, ok := tk.TokenToId(s)
				out = append(out, c25Lookup{id, s, ok})
			}
			for id := -77; id < 20; id++ {
				if tok, ok := tk.IdToToken(id); ok {
					out = append(out, c25Lookup{id, tok, ok})
				}
				if id == -77 {
					id = -1
				}
			}
			return out
		}},
		{"special tokens", func() any { return nil }, func(tk *tokenizer.Tokenizer, _ any) any {
			s := tk.GetSpecialTokens()
			sort.Strings(s)
			return s
		}},
		{"model on a word", func() any { return nil }, func(tk *tokenizer.Tokenizer, _ any) any {
			// a word the encode operations also hand to it
			return must(tk.GetModel().Tokenize("ab"))
		}},
		{"decoder", func() any { return append(make([]string, 0, 9), "sab", "##b", "<0xC3>", "<0xA9>", "s", "a▁b", "日") }, func(tk *tokenizer.Tokenizer, in any) any {
			d := tk.GetDecoder()
			if d == nil {
				return []string{}
			}
			return append([]string{d.Decode(in.([]string))}, d.DecodeChain(in.([]string))...)
		}},
		{"pre-tokenize", func() any { return nil }, func(tk *tokenizer.Tokenizer, _ any) any {
			// the splits before the model
			pt := tokenizer.NewPreTokenizedString(long)
			if p := tk.GetPreTokenizer(); p != nil {
				var err error
				if pt, err = p.PreTokenize(pt); err != nil {
					return "error: " + err.Error()
				}
			}
			return pt.GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
		}},
	}
}

type c25held struct {
	who, is string
	digest  uint64
	val     any
}

type c25want struct {
	text   string
	digest uint64
}

func c25(c *core.Ctx) {
	c25reads(c)
	c25cousins(c)
	c25added(c)
	c25encodings(c)
}

func c25reads(c *core.Ctx) {
	pipes := c25Pipes(c.Thorough())
	ops := c25Ops()
	depth := core.Pick(c, 3, 4)
	c.Count("read operations", int64(len(ops)))
	c.Count("pipelines", int64(len(pipes)))
	c.Count("history depth", int64(depth))
	want := make([][]c25want, len(pipes))
	for i, p := range pipes {
		for _, op := range ops {
			v := op.run(p.mk(), op.in())
			want[i] = append(want[i], c25want{snap(v), digest(v)})
		}
	}
	n := len(ops) * 2
	prefix := seqs(n, 2, 2)
	c.Par(len(pipes)*len(prefix), func(w *core.W, i int) {
		if c.TimeUp() {
			return
		}
		p, pre := pipes[i/len(prefix)], prefix[i%len(prefix)]
		w.Case(fmt.Sprintf("reads/%s/%v", p.name, pre), func(t *core.T) {
			d := depth
			if i/len(prefix) >= 3 {
				d-- // the first three go one deeper
			}
			for _, rest := range seqs(n, 0, d-2) {
				h := append(append([]int{}, pre...), rest...)
				if len(rest) > 0 && h[len(h)-1]%2 == 1 {
					continue // the last result is looked at only once
				}
				t.Op(len(h))
				if !c25history(t, p, ops, h, want[i/len(prefix)]) {
					return
				}
			}
		})
	})
}

// c25cousins: texts that differ in what something that remembers texts may overlook, encoded and
// decoded one after the other.
func c25cousins(c *core.Ctx) {
	pipes := c25Pipes(true)
	fam := cousins(false)
	for _, n := range []int{33, 65, 129} {
		x := strings.Repeat("ab ", n)[:n]
		fam = append(fam, x, x+"b", "b"+x, x[:n/2]+"日"+x[n/2:])
	}
	c.Par(len(pipes), func(w *core.W, i int) {
		p := pipes[i]
		w.Case("cousins/"+p.name, func(t *core.T) {
			forgets(t, fam, func() func(string) string {
				tk := p.mk()
				return func(s string) string {
					e, err := tk.EncodeSingle(s, true)
					if err != nil {
						return err.Error()
					}
					q, err := tk.EncodePair(s, "a b", len(s)%2 == 0)
					if err != nil {
						return err.Error()
					}
					return fmt.Sprint(digest(e), digest(q), tk.Decode(e.Ids, false), tk.Decode(q.Ids, true))
				}
			})
			t.State("cousins " + p.name)
		})
	})
}

// c25history runs one history; it reports whether all was as it should be.
func c25history(t *core.T, p c25pipe, ops []c25op, h []int, want []c25want) bool {
	tk := p.mk()
	var held []c25held
	var trace []string
	for _, x := range h {
		op, over := ops[x/2], x%2 == 1
		in := op.in()
		before := digest(in)
		got := op.run(tk, in)
		s := digest(got)
		trace = append(trace, op.name+core.If(over, " (result then overwritten)", ""))
		if s != want[x/2].digest {
			t.Errorf("%q returns %s, on a fresh tokenizer %s. History %q of %s", op.name, snap(got), want[x/2].text, trace, p.name)
			return false
		}
		if after := digest(in); after != before {
			t.Errorf("%q changed its input %s to %s. History %q of %s", op.name, snap(op.in()), snap(in), trace, p.name)
			return false
		}
		if over {
			scribble(got)
			scribble(in)
		} else {
			held = append(held, c25held{op.name, want[x/2].text, s, got})
		}
		for _, k := range held {
			if digest(k.val) != k.digest {
				t.Errorf("the result of %q was %s and has become %s. History %q of %s", k.who, k.is, snap(k.val), trace, p.name)
				return false
			}
		}
		t.State(fmt.Sprint(s))
	}
	return true
}

// c25added is the same for a vocabulary of added tokens on its own.
func c25added(c *core.Ctx) {
	mk := func() (*tokenizer.AddedVocabulary, tokenizer.Model) {
		v := map[string]int{"a": 0, "[UNK]": 1}
		vv := model.Vocab{}
		for k, i := range v {
			vv[k] = i
		}
		m, err := wordlevel.New(vv, "[UNK]")
		if err != nil {
			panic(err)
		}
		av := tokenizer.NewAddedVocabulary()
		av.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("x", false)}, m, nil)
		av.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("y", true), tokenizer.NewAddedToken("a", true)}, m, nil)
		return &av, m
	}
	type op struct {
		name string
		run  func(av *tokenizer.AddedVocabulary, m tokenizer.Model) any
	}
	ops := []op{
		{"vocabulary", func(av *tokenizer.AddedVocabulary, m tokenizer.Model) any { return av.GetVocab() }},
		{"length", func(av *tokenizer.AddedVocabulary, m tokenizer.Model) any { return av.Len() }},
		{"lookups", func(av *tokenizer.AddedVocabulary, m tokenizer.Model) any {
			var out []c25Lookup
			for _, s := range []string{"a", "x", "y", "scribbled"} {
				id, ok := av.TokenToId(s, m)
				out = append(out, c25Lookup{id, s, ok}, c25Lookup{Ok: av.IsSpecialToken(s)})
			}
			for id := 0; id < 6; id++ {
				s, ok := av.IdToToken(id, m)
				out = append(out, c25Lookup{id, s, ok})
			}
			return out
		}},
		{"splits", func(av *tokenizer.AddedVocabulary, m tokenizer.Model) any {
			return av.ExtractAndNormalize("bxy ac", nil).GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
		}},
	}
	var want []string
	for _, o := range ops {
		av, m := mk()
		want = append(want, snap(o.run(av, m)))
	}
	w := c.Seq()
	for _, h := range seqs(len(ops)*2, 1, 3) {
		w.Case(fmt.Sprintf("added/%v", h), func(t *core.T) {
			av, m := mk()
			var trace []string
			for _, x := range h {
				o := ops[x/2]
				trace = append(trace, o.name)
				got := o.run(av, m)
				if s := snap(got); s != want[x/2] {
					t.Fatalf("added vocabulary: %q gives %s, when fresh %s. History %q (odd of %v: overwritten)", o.name, s, want[x/2], trace, h)
				}
				if x%2 == 1 {
					scribble(got)
				}
			}
			t.Op(len(h))
		})
	}
}

// c25enc is an operation on encodings of a pool: which it may change, and what it gives.
type c25enc struct {
	name   string
	args   int
	recv   int // bit set of arguments it may change
	run    func(a []*tokenizer.Encoding) []*tokenizer.Encoding
	place  bool // the first argument is replaced by the result
	setter bool // writes a field, and may be seen where memory is shared with an operand or result
}

func c25EncOps() []c25enc {
	type E = tokenizer.Encoding
	one := func(e *E) []*E { return []*E{e} }
	list := func(es []E) []*E {
		var out []*E
		for i := range es {
			out = append(out, &es[i])
		}
		return out
	}
	pt := func(s string, id int) processor.PostToken { return processor.PostToken{Value: s, Id: id} }
	bert := processor.NewBertProcessing(pt("[SEP]", 8), pt("[CLS]", 7))
	rob := processor.NewRobertaProcessing(pt("</s>", 8), pt("<s>", 7), true, false)
	bl := processor.NewByteLevelProcessing(pretokenizer.NewByteLevel())
	tpl := processor.DefaultTemplateProcessing()
	params := tokenizer.PaddingParams{Strategy: *tokenizer.NewPaddingStrategy(), Direction: tokenizer.Right, PadId: 0, PadToken: "[PAD]"}
	try := func(e *E, err error) []*E {
		if err != nil {
			return nil
		}
		return one(e)
	}
	return []c25enc{
		{"Truncate(2,1)", 1, 1, func(a []*E) []*E { return try(a[0].Truncate(2, 1)) }, true, false},
		{"Truncate(3,0)", 1, 1, func(a []*E) []*E { return try(a[0].Truncate(3, 0)) }, true, false},
		{"Pad(5,Right)", 1, 1, func(a []*E) []*E { return one(a[0].Pad(5, 0, 0, "[PAD]", tokenizer.Right)) }, true, false},
		{"Pad(6,Left)", 1, 1, func(a []*E) []*E { return one(a[0].Pad(6, 0, 0, "[PAD]", tokenizer.Left)) }, true, false},
		{"MergeWith", 2, 1, func(a []*E) []*E { return one(a[0].MergeWith(a[1], true)) }, true, false},
		{"Merge", 2, 1, func(a []*E) []*E { return one(a[0].Merge([]E{*a[1], *a[1]}, false)) }, true, false},
		{"MergeEncodings", 2, 0, func(a []*E) []*E { return one(tokenizer.MergeEncodings([]E{*a[0], *a[1]}, true)) }, true, false},
		{"Clone", 1, 0, func(a []*E) []*E { return one(a[0].Clone()) }, false, false},
		{"SetSequenceIds", 1, 1, func(a []*E) []*E { a[0].SetSequenceIds(1); return one(a[0]) }, true, true},
		{"PadEncodings", 2, 0, func(a []*E) []*E { return list(tokenizer.PadEncodings([]E{*a[0], *a[1]}, params)) }, true, false},
		{"TruncateEncodings", 2, 3, func(a []*E) []*E {
			if a[0].Len() < 4 || a[1].Len() < 4 {
				return nil
			}
			x, y := tokenizer.TruncateEncodings(a[0], a[1], &tokenizer.TruncationParams{MaxLength: 6, Stride: 1})
			return []*E{x, y}
		}, true, false},
		{"PrepareEncodings", 2, 0, func(a []*E) []*E { return list(tokenizer.PrepareEncodings(a[0], a[1])) }, true, false},
		{"DefaultProcess", 2, 0, func(a []*E) []*E { return one(tokenizer.DefaultProcess(a[0], a[1], true)) }, true, false},
		{"bert", 2, 0, func(a []*E) []*E { return one(bert.Process(a[0], a[1], true)) }, true, false},
		{"roberta", 2, 3, func(a []*E) []*E { return one(rob.Process(a[0], a[1], true)) }, true, false},
		{"byte level", 2, 3, func(a []*E) []*E { return one(bl.Process(a[0], a[1], true)) }, true, false},
		{"template", 2, 0, func(a []*E) []*E { return one(tpl.Process(a[0], a[1], true)) }, true, false},
		{"take overflowing", 1, 1, func(a []*E) []*E {
			o := a[0].TakeOverflowing()
			return append(one(a[0]), list(o)...)
		}, true, false},
		{"queries", 1, 0, func(a []*E) []*E {
			e := a[0]
			for i := -1; i <= e.Len(); i++ {
				e.Token2Sequence(i)
				e.Word2Tokens(i)
				e.Char2Token(i)
				if i >= 0 && i < e.Len() {
					e.Token2Chars(i)
					e.Token2Word(i)
				}
			}
			e.NSequences()
			scribble(e.GetSequenceIds())
			return one(e)
		}, true, false},
	}
}

// c25copy makes an encoding that shares nothing.
func c25copy(e *tokenizer.Encoding) *tokenizer.Encoding {
	if e == nil {
		return nil
	}
	o := *e
	o.Ids = append([]int(nil), e.Ids...)
	o.TypeIds = append([]int(nil), e.TypeIds...)
	o.Tokens = append([]string(nil), e.Tokens...)
	o.SpecialTokenMask = append([]int(nil), e.SpecialTokenMask...)
	o.AttentionMask = append([]int(nil), e.AttentionMask...)
	o.Words = append([]int(nil), e.Words...)
	o.Offsets = nil
	for _, x := range e.Offsets {
		o.Offsets = append(o.Offsets, append([]int(nil), x...))
	}
	o.Overflowing = nil
	for i := range e.Overflowing {
		o.Overflowing = append(o.Overflowing, *c25copy(&e.Overflowing[i]))
	}
	if e.SequenceRanges != nil {
		o.SequenceRanges = map[int]tokenizer.Range{}
		for k, r := range e.SequenceRanges {
			o.SequenceRanges[k] = append(tokenizer.Range(nil), r...)
		}
	}
	return &o
}

// c25parts counts an encoding and its parts at any depth.
func c25parts(e *tokenizer.Encoding) int {
	n := 1
	for i := range e.Overflowing {
		n += c25parts(&e.Overflowing[i])
	}
	return n
}

// encSnap renders an encoding; absent and empty lists are the same.
func encSnap(e *tokenizer.Encoding) string {
	return strings.ReplaceAll(strings.ReplaceAll(snap(e), ":null", ":[]"), ":{}", ":[]")
}

func encSnaps(es []*tokenizer.Encoding) string {
	var b strings.Builder
	for _, e := range es {
		b.WriteString(encSnap(e))
	}
	return b.String()
}

// c25Pool is a set of encodings to start from. group tells which belong together.
type c25Pool struct {
	name string
	mk   func() []*tokenizer.Encoding
}

func c25Pools() []c25Pool {
	toks := func(base, n, seq int) []rtok {
		rs := mkToks(base, n, 0, seq)
		for i := range rs {
			rs[i].tok = core.If(i%2 == 0, "Ġ", "") + rs[i].tok + "x"
			rs[i].s, rs[i].e = 4*i, 4*i+4
		}
		return rs
	}
	within := func(big *tokenizer.Encoding, a, b int) *tokenizer.Encoding {
		e := &tokenizer.Encoding{Ids: big.Ids[a:b], TypeIds: big.TypeIds[a:b], Tokens: big.Tokens[a:b], Offsets: big.Offsets[a:b], SpecialTokenMask: big.SpecialTokenMask[a:b], AttentionMask: big.AttentionMask[a:b], SequenceRanges: map[int]tokenizer.Range{0: tokenizer.NewRange(0, b-a)}}
		if big.Words != nil {
			e.Words = big.Words[a:b]
		}
		return e
	}
	return []c25Pool{
		{"own memory", func() []*tokenizer.Encoding {
			a := encOf(toks(10, 4, 0), false, 3)
			b := encOf(toks(20, 5, 0), false, 9)
			c := encOf(toks(30, 3, 1), true, 2)
			return []*tokenizer.Encoding{a, b, c}
		}},
		{"one array", func() []*tokenizer.Encoding { // each followed in memory by the next one
			big := encOf(toks(10, 12, -1), false, 6)
			return []*tokenizer.Encoding{within(big, 0, 4), within(big, 4, 9), within(big, 9, 12)}
		}},
		{"with parts", func() []*tokenizer.Encoding {
			big := encOf(toks(10, 6, 0), false, 2)
			a, err := big.Truncate(3, 1)
			if err != nil {
				panic(err)
			}
			b := encOf(toks(20, 4, 1), true, 5)
			b.Overflowing = append(make([]tokenizer.Encoding, 0, 4), *encOf(toks(40, 2, 1), false, 2))
			return []*tokenizer.Encoding{a, b, encOf(toks(30, 2, 0), false, 4)}
		}},
	}
}

type c25move struct {
	op   int
	args []int
	over bool
}

func c25encodings(c *core.Ctx) {
	ops := c25EncOps()
	pools := c25Pools()
	moves := func(pairs [][]int, ones []int, modes []bool) []c25move {
		var out []c25move
		for i, o := range ops {
			for _, m := range modes {
				if o.args == 1 {
					for _, a := range ones {
						out = append(out, c25move{i, []int{a}, m})
					}
					continue
				}
				for _, p := range pairs {
					out = append(out, c25move{i, p, m})
				}
			}
		}
		return out
	}
	all := [][]int{{0, 1}, {1, 0}, {0, 2}, {2, 0}, {1, 2}, {2, 1}}
	some := [][]int{{0, 1}, {1, 0}, {2, 0}}
	both, keep := []bool{false, true}, []bool{false}
	var hist [][][]c25move // per history, the choices of each step
	if c.Thorough() {
		hist = append(hist, [][]c25move{moves(all, []int{0, 1, 2}, both), moves(all, []int{0, 1, 2}, both)})
	} else {
		hist = append(hist, [][]c25move{moves(all, []int{0, 1, 2}, both), moves(all, []int{0, 1}, keep)})
	}
	if c.Thorough() {
		hist = append(hist, [][]c25move{moves(all, []int{0, 1, 2}, both), moves(all, []int{0, 1, 2}, keep), moves(some, []int{0, 1}, both)})
	} else {
		hist = append(hist, [][]c25move{moves(some[1:], []int{0, 1}, keep), moves(some[1:], []int{0, 1}, keep), moves(some[1:2], []int{0}, keep)})
	}
	c.Count("operations on encodings", int64(len(ops)))
	for hi, steps := range hist {
		first := steps[0]
		limit, pools := 7, pools
		if hi > 0 && !c.Thorough() {
			limit, pools = 3, pools[:2]
		}
		c.Par(len(pools)*len(first), func(w *core.W, i int) {
			pool, m := pools[i/len(first)], first[i%len(first)]
			w.Case(fmt.Sprintf("encodings/%s/%d/%d/%v/%v", pool.name, hi, m.op, m.args, m.over), func(t *core.T) {
				if c.TimeUp() {
					return
				}
				var rec func(h []c25move)
				bad := false
				rec = func(h []c25move) {
					if bad || c.Capped() {
						return
					}
					if len(h) == len(steps) {
						t.Op(len(h))
						bad = !c25encHistory(t, pool, ops, h, limit)
						return
					}
					for _, x := range steps[len(h)] {
						rec(append(h[:len(h):len(h)], x))
					}
				}
				rec([]c25move{m})
			})
		})
	}
}

func c25encHistory(t *core.T, pool c25Pool, ops []c25enc, h []c25move, limit int) bool {
	type obj struct {
		who   string
		e     *tokenizer.Encoding
		is    uint64
		group int
	}
	slot := pool.mk()
	var objs []*obj
	find := func(e *tokenizer.Encoding) *obj {
		for _, o := range objs {
			if o.e == e {
				return o
			}
		}
		return nil
	}
	for i, e := range slot {
		g := core.If(pool.name == "one array", 0, i)
		objs = append(objs, &obj{fmt.Sprintf("#%d", i), e, digest(e), g})
	}
	next := len(slot)
	var trace []string
	for _, m := range h {
		op := ops[m.op]
		for _, e := range slot {
			if c25parts(e) > limit { // merging multiplies parts
				return true
			}
		}
		var args, copies []*tokenizer.Encoding
		recv := map[*tokenizer.Encoding]bool{}
		for k, a := range m.args {
			args = append(args, slot[a])
			copies = append(copies, c25copy(slot[a]))
			if op.recv&(1<<k) != 0 {
				recv[slot[a]] = true
			}
		}
		trace = append(trace, fmt.Sprintf("%s%v", op.name, m.args)+core.If(m.over, " (result overwritten)", ""))
		fresh := op.run(copies)
		want, wantArgs := digest(fresh), digest(copies)
		res := op.run(args)
		if got := digest(res); got != want {
			t.Errorf("%s gives %s, on fresh copies %s. History %q, pool %q", op.name, encSnaps(res), encSnaps(fresh), trace, pool.name)
			return false
		}
		if got := digest(args); got != wantArgs {
			t.Errorf("%s leaves its operands as %s, fresh copies as %s. History %q, pool %q", op.name, encSnaps(args), encSnaps(copies), trace, pool.name)
			return false
		}
		home := find(args[0]).group
		for _, o := range objs {
			now := digest(o.e)
			if now != o.is && !recv[o.e] && !(op.setter && o.group == home) {
				t.Errorf("%s changed an encoding (%s), now %s. History %q, pool %q", op.name, o.who, encSnap(o.e), trace, pool.name)
				return false
			}
			o.is = now
		}
		// operands and results now may share memory
		next++
		join := map[int]bool{}
		for _, a := range args {
			join[find(a).group] = true
		}
		for _, o := range objs {
			if join[o.group] {
				o.group = next
			}
		}
		for _, r := range res {
			if find(r) == nil {
				objs = append(objs, &obj{"result of " + op.name, r, digest(r), next})
			}
		}
		if m.over && pool.name == "one array" {
			return true // its encodings lie in each other's spare capacity
		}
		if m.over {
			for _, r := range res {
				scribble(r)
			}
			for _, o := range objs {
				now := digest(o.e)
				if now != o.is && o.group != next {
					t.Errorf("changing the result of %s changed another encoding (%s), now %s. History %q, pool %q", op.name, o.who, encSnap(o.e), trace, pool.name)
					return false
				}
				o.is = now
			}
			// use fresh operands from here on
			for k, a := range m.args {
				slot[a] = copies[k]
				objs = append(objs, &obj{fmt.Sprintf("copy of #%d", a), copies[k], digest(copies[k]), -next*10 - k})
			}
			continue
		}
		if op.place && len(res) > 0 {
			slot[m.args[0]] = res[0]
		}
	}
	t.State(fmt.Sprint(trace))
	return true
}
