//go:build verifoverlay

package main

import (
	"fmt"
	"reflect"
	"sync"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
	"github.com/sugarme/tokenizer/util"
)

func vocabOf(toks ...string) model.Vocab {
	v := model.Vocab{}
	for i, t := range toks {
		v[t] = i
	}
	return v
}

func must[T any](x T, err error) T {
	if err != nil {
		panic(err)
	}
	return x
}

type tkDef struct {
	name string
	mk   func() *tokenizer.Tokenizer
}

var bare bool // no added tokens, which look things up when they are added

func addAll(tk *tokenizer.Tokenizer) *tokenizer.Tokenizer {
	if bare {
		return tk
	}
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("<s>", true)})
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("xy", false)})
	return tk
}

// newBPE is a model with a cache of the given capacity.
func newBPE(capacity int, dropout *float32) *bpe.BPE {
	v := vocabOf("[UNK]", "a", "b", "c", "Ġ", "ab", "abc", "Ġa", "bc")
	m := bpe.Merges{}
	for i, p := range [][3]string{{"a", "b", "ab"}, {"ab", "c", "abc"}, {"Ġ", "a", "Ġa"}, {"b", "c", "bc"}} {
		m[bpe.Pair{C1: v[p[0]], C2: v[p[1]]}] = bpe.PairVal{Rank: i, NewId: v[p[2]]}
	}
	bb := bpe.NewBpeBuilder()
	bb.VocabAndMerges(v, m)
	bb.UnkToken("[UNK]")
	bb.CacheCapacity(capacity)
	if dropout != nil {
		bb.Dropout(*dropout)
	}
	return must(bb.Build())
}

func tkDefs() []tkDef {
	pt := func(s string, id int) processor.PostToken { return processor.PostToken{Value: s, Id: id} }
	return []tkDef{
		{"wordlevel", func() *tokenizer.Tokenizer {
			tk := tokenizer.NewTokenizer(must(wordlevel.New(vocabOf("[UNK]", "a", "b", "ab", "c"), "[UNK]")))
			tk.WithNormalizer(normalizer.Lowercase())
			tk.WithPreTokenizer(pretokenizer.NewWhitespace())
			tk.WithPostProcessor(processor.NewBertProcessing(pt("[SEP]", 8), pt("[CLS]", 7)))
			return addAll(tk)
		}},
		{"bpe cached", func() *tokenizer.Tokenizer {
			tk := tokenizer.NewTokenizer(newBPE(2, nil))
			tk.WithPreTokenizer(pretokenizer.NewByteLevel())
			tk.WithPostProcessor(processor.NewByteLevelProcessing(pretokenizer.NewByteLevel()))
			tk.WithDecoder(pretokenizer.NewByteLevel())
			tk.WithPadding(&tokenizer.PaddingParams{Strategy: *tokenizer.NewPaddingStrategy(), Direction: tokenizer.Right, PadToken: "[PAD]"})
			return addAll(tk)
		}},
		{"unigram", func() *tokenizer.Tokenizer {
			u := must(unigram.New([]unigram.TokenScore{{Token: "<unk>", Score: 0}, {Token: "a", Score: -1}, {Token: "b", Score: -2}, {Token: "ab", Score: -2}, {Token: "▁", Score: -3}, {Token: "▁a", Score: -2.5}}, util.NewParams(map[string]any{"unk_id": 0})))
			tk := tokenizer.NewTokenizer(u)
			tk.WithPreTokenizer(pretokenizer.DefaultMetaspace())
			tk.WithDecoder(pretokenizer.DefaultMetaspace())
			tk.WithPostProcessor(processor.DefaultTemplateProcessing())
			return addAll(tk)
		}},
		{"wordpiece", func() *tokenizer.Tokenizer {
			v := vocabOf("[UNK]", "a", "##a", "##b", "b", "##ab", "c")
			tk := tokenizer.NewTokenizer(wordpiece.NewWordPieceBuilder().Vocab(&v).UnkToken("[UNK]").Build())
			tk.WithNormalizer(normalizer.NewBertNormalizer(true, true, true, true))
			tk.WithPreTokenizer(pretokenizer.NewBertPreTokenizer())
			tk.WithDecoder(decoder.DefaultWordpieceDecoder())
			tk.WithPostProcessor(processor.NewBertProcessing(pt("[SEP]", 8), pt("[CLS]", 7)))
			tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 4, Stride: 1})
			tk.WithPadding(&tokenizer.PaddingParams{Strategy: *tokenizer.NewPaddingStrategy(tokenizer.WithFixed(5)), Direction: tokenizer.Left, PadToken: "[PAD]", PadTypeId: 1})
			return addAll(tk)
		}},
		{"no unknown token", func() *tokenizer.Tokenizer { // items with other words are errors
			tk := tokenizer.NewTokenizer(must(wordlevel.New(vocabOf("a", "b"), "[UNK]")))
			tk.WithPreTokenizer(pretokenizer.NewWhitespaceSplit())
			return tk
		}},
	}
}

func pickStr(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

type single = tokenizer.EncodeInput

func inSingle(s string) single { return tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(s)) }
func inPair(a, b string) single {
	return tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence(a), tokenizer.NewInputSequence(b))
}
func inWords(w ...string) single {
	return tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(w))
}

// call is one call on a tokenizer; its value is comparable with DeepEqual.
type call struct {
	name string
	run  func(tk *tokenizer.Tokenizer) any
	// want is what the calls it stands for give one by one; nil: run itself
	want func(tk *tokenizer.Tokenizer) any
	okay func(got, want any) bool
}

type outcome struct {
	Encs []tokenizer.Encoding
	Err  string
}

// batchWant puts a batch together from single calls.
func batchWant(ins []single, sp bool) func(tk *tokenizer.Tokenizer) any {
	return func(tk *tokenizer.Tokenizer) any {
		var es []tokenizer.Encoding
		var errs []string
		for _, in := range ins {
			e, err := tk.Encode(in, sp)
			if err != nil {
				errs = append(errs, err.Error())
				continue
			}
			es = append(es, *e)
		}
		if len(errs) > 0 {
			return errs
		}
		if p := tk.GetPadding(); p != nil && len(es) > 0 {
			es = tokenizer.PadEncodings(es, *p)
		}
		return outcome{es, ""}
	}
}

func batchOkay(got, want any) bool {
	g := got.(outcome)
	if errs, bad := want.([]string); bad {
		for _, e := range errs {
			if g.Err == e && len(g.Encs) == 0 {
				return true
			}
		}
		return false
	}
	w := want.(outcome)
	return g.Err == w.Err && len(g.Encs) == len(w.Encs) && (len(g.Encs) == 0 || reflect.DeepEqual(g.Encs, w.Encs))
}

func encodeBatch(name string, sp bool, ins ...single) call {
	return call{"EncodeBatch " + name, func(tk *tokenizer.Tokenizer) any {
		es, err := tk.EncodeBatch(ins, sp)
		if err != nil {
			return outcome{es, err.Error()}
		}
		return outcome{es, ""}
	}, batchWant(ins, sp), batchOkay}
}

func decodeBatch(name string, skip bool, ids ...[]int) call {
	return call{"DecodeBatch " + name, func(tk *tokenizer.Tokenizer) any { return append([]string{}, tk.DecodeBatch(ids, skip)...) },
		func(tk *tokenizer.Tokenizer) any {
			out := []string{}
			for _, x := range ids {
				out = append(out, tk.Decode(x, skip))
			}
			return out
		}, nil}
}

func encode(name string, in single, sp bool) call {
	return call{"Encode " + name, func(tk *tokenizer.Tokenizer) any {
		e, err := tk.Encode(in, sp)
		if err != nil {
			return outcome{nil, err.Error()}
		}
		return outcome{[]tokenizer.Encoding{*e}, ""}
	}, nil, nil}
}

func init() { table["C18"] = c18 }

// components are tokenizers with one component each.
func components() []tkDef {
	var out []tkDef
	words := func() *tokenizer.Tokenizer {
		tk := tokenizer.NewTokenizer(must(wordlevel.New(vocabOf("[UNK]", "a", "b", "ab", "c"), "[UNK]")))
		tk.WithPreTokenizer(pretokenizer.NewWhitespaceSplit())
		return tk
	}
	norm := func(name string, mk func() normalizer.Normalizer) {
		out = append(out, tkDef{"normalizer " + name, func() *tokenizer.Tokenizer {
			tk := words()
			tk.WithNormalizer(mk())
			return tk
		}})
	}
	type N = normalizer.Normalizer
	norm("bert", func() N { return normalizer.NewBertNormalizer(true, true, true, true) })
	norm("lowercase", func() N { return normalizer.Lowercase() })
	norm("default", func() N { return normalizer.NewDefaultNormalizer() })
	norm("nfc", func() N { return normalizer.NewNFC() })
	norm("nfkc", func() N { return normalizer.NewNFKC() })
	norm("nfd", func() N { return normalizer.NewNFD() })
	norm("nfkd", func() N { return normalizer.NewNFKD() })
	norm("strip", func() N { return normalizer.NewStrip(true, true) })
	norm("strip accents", func() N { return normalizer.NewStripAccents() })
	norm("prepend", func() N { return normalizer.NewPrepend("a") })
	norm("replace text", func() N { return normalizer.NewReplace(normalizer.String, "a", "c") })
	norm("replace pattern", func() N { return normalizer.NewReplace(normalizer.Regex, "[ab]+", "c") })
	norm("sequence", func() N {
		return normalizer.NewSequence([]N{normalizer.NewNFD(), normalizer.NewStripAccents(), normalizer.Lowercase()})
	})
	pre := func(name string, mk func() tokenizer.PreTokenizer) {
		out = append(out, tkDef{"pre-tokenizer " + name, func() *tokenizer.Tokenizer {
			tk := words()
			tk.WithPreTokenizer(mk())
			return tk
		}})
	}
	type P = tokenizer.PreTokenizer
	pre("bert", func() P { return pretokenizer.NewBertPreTokenizer() })
	pre("bytes", func() P { return pretokenizer.NewByteLevel() })
	pre("delimiter", func() P { return pretokenizer.NewCharDelimiterSplit(' ') })
	pre("digits", func() P { return pretokenizer.NewDigits(true) })
	pre("metaspace", func() P { return pretokenizer.DefaultMetaspace() })
	pre("punctuation", func() P { return pretokenizer.DefaultPunctuation() })
	pre("scripts", func() P { return pretokenizer.DefaultUnicodeScript() })
	pre("whitespace", func() P { return pretokenizer.DefaultWhitespace() })
	pre("split by text", func() P {
		return pretokenizer.NewSplit(normalizer.NewStringPattern("a"), normalizer.IsolatedBehavior, false)
	})
	pre("split by pattern", func() P {
		return pretokenizer.NewSplit(normalizer.NewRegexpPattern("[a ]"), normalizer.RemovedBehavior, true)
	})
	pre("sequence", func() P {
		return pretokenizer.NewSequence([]P{pretokenizer.NewWhitespaceSplit(), pretokenizer.NewDigits(false)})
	})
	dec := func(name string, mk func() tokenizer.Decoder) {
		out = append(out, tkDef{"decoder " + name, func() *tokenizer.Tokenizer {
			tk := words()
			tk.WithDecoder(mk())
			return tk
		}})
	}
	type D = tokenizer.Decoder
	dec("bpe", func() D { return decoder.DefaultBpeDecoder() })
	dec("bytes", func() D { return pretokenizer.NewByteLevel() })
	dec("byte fallback", func() D { return decoder.NewByteFallback() })
	dec("ctc", func() D { return decoder.DefaultCTC() })
	dec("fuse", func() D { return decoder.NewFuse() })
	dec("metaspace", func() D { return pretokenizer.DefaultMetaspace() })
	dec("strip", func() D { return decoder.NewStrip("a", 1, 0) })
	dec("wordpiece", func() D { return decoder.NewWordPieceDecoder("##", true) })
	dec("replace", func() D { return normalizer.NewReplace(normalizer.String, "a", "c") })
	dec("sequence", func() D { return decoder.NewSequence([]D{decoder.NewByteFallback(), decoder.NewFuse()}) })
	post := func(name string, mk func() tokenizer.PostProcessor) {
		out = append(out, tkDef{"processor " + name, func() *tokenizer.Tokenizer {
			tk := words()
			tk.WithPostProcessor(mk())
			tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 5, Stride: 1})
			return tk
		}})
	}
	type R = tokenizer.PostProcessor
	sep, cls := processor.PostToken{Value: "[SEP]", Id: 8}, processor.PostToken{Value: "[CLS]", Id: 7}
	tmpl := func() R {
		return processor.NewTemplateProcessing(must(processor.NewTemplate("[CLS] $A [SEP]")), must(processor.NewTemplate("$A [SEP] $B:1")),
			processor.NewTokensFrom([]processor.SpecialToken{*processor.NewSpecialTokenFrom("[CLS]", 7), *processor.NewSpecialTokenFrom("[SEP]", 8)}))
	}
	post("bert", func() R { return processor.NewBertProcessing(sep, cls) })
	post("roberta", func() R { return processor.NewRobertaProcessing(sep, cls, true, true) })
	post("bytes", func() R { return processor.NewByteLevelProcessing(pretokenizer.NewByteLevel()) })
	post("template", tmpl)
	post("sequence", func() R {
		return processor.NewSequence([]R{processor.NewByteLevelProcessing(pretokenizer.NewByteLevel()), tmpl()})
	})
	return out
}

func c18(thorough bool) []scenario {
	b2 := encodeBatch("of 2", true, inSingle("ab a"), inSingle("b<s>xy"))
	same := encodeBatch("of 2 equal", true, inSingle("ab ab"), inSingle("ab ab"))
	b3 := encodeBatch("of 3", false, inSingle("abc"), inPair("a b", "ab"), inWords("ab", "c"))
	b0 := encodeBatch("of 0", true)
	b1 := encodeBatch("of 1", true, inPair("ab", "c ab"))
	bad1 := encodeBatch("of 2, the second an error", true, inSingle("a b"), inSingle("a q"))
	bad2 := encodeBatch("of 3, two errors", true, inSingle("z"), inSingle("b"), inWords("a", "w"))
	d2 := decodeBatch("of 2", true, []int{1, 2, 1}, []int{3, 0, 2})
	d3 := decodeBatch("of 3", false, []int{1, 2}, []int{}, []int{2, 9, 1})
	d0 := decodeBatch("of 0", true)
	e1 := encode("ab a", inSingle("ab a"), true)
	e2 := encode("pair", inPair("ab ab", "b"), true)
	e3 := encode("b xy", inSingle("b xy"), false)
	dec := call{"Decode", func(tk *tokenizer.Tokenizer) any { return tk.Decode([]int{1, 2, 3}, true) }, nil, nil}
	voc := call{"vocabulary", func(tk *tokenizer.Tokenizer) any {
		id, ok := tk.TokenToId("<s>")
		s, ok2 := tk.IdToToken(1)
		return fmt.Sprint(tk.GetVocab(true), tk.GetVocabSize(false), id, ok, s, ok2, tk.GetSpecialTokens())
	}, nil, nil}
	var out []scenario
	add := func(d tkDef, q, t int, calls ...call) {
		name := d.name + ":"
		for i, c := range calls {
			if i > 0 {
				name += " ||"
			}
			name += " " + c.name
		}
		b := q
		if thorough {
			b = t
		}
		var want []any
		free := b + 1
		if q == 0 && t == 0 {
			free = 0
		}
		out = append(out, scenario{name: name, bound: b, free: free, weight: b * len(name), prepare: func() func() string {
			if want == nil {
				for _, c := range calls {
					w := c.want
					if w == nil {
						w = c.run
					}
					want = append(want, w(d.mk()))
				}
			}
			tk := d.mk()
			return func() string { return together(tk, calls, want) }
		}})
	}
	for _, d := range tkDefs() {
		if d.name == "no unknown token" {
			add(d, 3, 5, bad1)
			add(d, 2, 3, bad2)
			add(d, 2, 3, bad1, e1)
			continue
		}
		add(d, 3, 5, b2)
		add(d, 3, 5, same)
		add(d, 2, 3, b3)
		add(d, 1, 1, b0)
		add(d, 1, 1, b1)
		add(d, 3, 5, d2)
		add(d, 2, 3, d3)
		add(d, 1, 1, d0)
		add(d, 3, 5, e1, e2)
		add(d, 2, 3, e1, e1, e3)
		add(d, 2, 3, e1, dec)
		add(d, 2, 4, e2, voc)
		add(d, 1, 2, b2, d2)
		add(d, 1, 2, same, e2)
		add(d, 2, 3, dec, voc, dec)
	}
	// long batches, in few schedules
	var long, longBad []single
	var ids [][]int
	for i := range 200 {
		w := []string{"a", "b", "ab", "c"}
		long = append(long, inSingle(w[i%4]+" "+w[i/4%4]+w[i/16%4]+" "+w[i/64%4]))
		longBad = append(longBad, inSingle(w[i%2]+pickStr(i == 150, " q", " a")))
		ids = append(ids, []int{i % 5, i / 5 % 5, i / 25 % 5})
	}
	for i, d := range tkDefs() {
		if d.name == "no unknown token" {
			add(d, 0, 0, encodeBatch("of 200, one an error", true, longBad...))
			continue
		}
		if i == 2 { // its processor makes thousands of switching points
			add(d, 0, 0, encodeBatch("of 40", true, long[:40]...))
		} else {
			add(d, 0, 0, encodeBatch("of 200", true, long...))
		}
		add(d, 0, 0, decodeBatch("of 200", true, ids...))
	}
	bareDefs := tkDefs()
	for _, d := range bareDefs[:4] {
		mk := d.mk
		d = tkDef{d.name + " without added tokens", func() *tokenizer.Tokenizer {
			bare = true
			defer func() { bare = false }()
			return mk()
		}}
		add(d, 1, 3, d2)
		add(d, 1, 3, e1, e1)
		add(d, 1, 3, dec, dec)
		add(d, 1, 2, voc, voc)
		add(d, 1, 2, e2, voc, dec)
	}
	n := len(out)
	odd := encode("odd text", inSingle("Ab, 1é a\u0301b. bAa "), true)
	for _, d := range components() {
		if d.name == "processor template" || d.name == "processor sequence" { // thousands of switching points in encoding/gob
			add(d, 0, 1, odd, e2)
			continue
		}
		add(d, 1, 2, odd, e2)
		add(d, 1, 2, dec, dec)
		add(d, 1, 1, odd, dec, e2)
	}
	parts := out[n:]
	out = out[:n:n]
	const size = 12
	for i := 0; i < len(parts); i += size {
		out = append(out, scenario{name: fmt.Sprintf("one component each, part %d", i/size), weight: 500, subs: parts[i:min(i+size, len(parts))]})
	}
	return out
}

// together runs the calls at once on one tokenizer.
func together(tk *tokenizer.Tokenizer, calls []call, want []any) string {
	got := make([]any, len(calls))
	if len(calls) == 1 {
		got[0] = calls[0].run(tk)
	} else {
		var wg sync.WaitGroup
		wg.Add(len(calls))
		for i := range calls {
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						got[i] = fmt.Sprintf("panic: %v", p)
					}
				}()
				got[i] = calls[i].run(tk)
			}()
		}
		wg.Wait()
	}
	for i, c := range calls {
		ok := c.okay
		if ok == nil {
			ok = func(g, w any) bool { return reflect.DeepEqual(g, w) }
		}
		if !safe(ok, got[i], want[i]) {
			return fmt.Sprintf("%s gives %+v, one by one %+v", c.name, got[i], want[i])
		}
	}
	return ""
}

func safe(ok func(a, b any) bool, a, b any) (res bool) {
	defer func() {
		if recover() != nil {
			res = false
		}
	}()
	return ok(a, b)
}
