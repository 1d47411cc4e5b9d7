//go:build verifoverlay

package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/pretokenizer"
)

func init() { table["C21"] = c21 }

type anyTrainer interface {
	Train(words map[string]int) (tokenizer.Model, []tokenizer.AddedToken)
}

// print of a model: its vocabulary by id and its merges by rank.
func printOf(m tokenizer.Model) string {
	v := m.GetVocab()
	var l []string
	for k, id := range v {
		l = append(l, fmt.Sprintf("%04d %q", id, k))
	}
	sort.Strings(l)
	if b, ok := m.(bpe.BPE); ok {
		var r []string
		for p, x := range *b.Merges {
			r = append(r, fmt.Sprintf("%04d %v %d", x.Rank, p, x.NewId))
		}
		sort.Strings(r)
		l = append(l, r...)
	}
	return strings.Join(l, ", ")
}

func trainer(kind string, size int) anyTrainer {
	sp := []tokenizer.AddedToken{tokenizer.NewAddedToken("[UNK]", true), tokenizer.NewAddedToken("ab", true)}
	switch kind {
	case "wordpiece":
		return wordpiece.NewWordPieceTrainerBuilder().VocabSize(size).SpecialTokens(sp).Build()
	}
	b := bpe.NewBPETrainerBuilder()
	b.VocabSize(size)
	b.SpecialTokens(sp)
	if kind == "limited" {
		b.LimitAlphabet(3)
		b.InitialAlphabet(bpe.CharSet{"z": {}, "y": {}})
		b.EndOfWordSuffix("</w>")
	}
	return b.Build()
}

// same trains again and again; the model never differs.
func same(kind string, size int, words map[string]int, maps bool, bound, free int) scenario {
	first := ""
	name := fmt.Sprintf("%s, size %d, words %v", kind, size, words)
	if len(words) > 20 {
		name = fmt.Sprintf("%s, size %d, %d words", kind, size, len(words))
	}
	return scenario{name: name, bound: bound, free: free, maps: maps, prepare: func() func() string {
		tr := trainer(kind, size)
		return func() string {
			m, _ := tr.Train(words)
			p := printOf(m)
			if first == "" {
				first = p
			}
			if p != first {
				return fmt.Sprintf("%s: a run makes %s, another one made %s", name, p, first)
			}
			return ""
		}
	}}
}

// whole trains a tokenizer from files; the model is that of the words in them.
func whole(kind string, files []string, bound, free int) scenario {
	var paths []string
	name := fmt.Sprintf("Tokenizer.Train, %s, files %q", kind, files)
	want := ""
	return scenario{name: name, bound: bound, free: free, weight: 100, prepare: func() func() string {
		tokenizer.SetTrainChunkSize(100 << 20)
		if paths == nil {
			dir := must(os.MkdirTemp("", "train-"))
			words := map[string]int{}
			for i, f := range files {
				at := fmt.Sprintf("%s/f%d", dir, i)
				if err := os.WriteFile(at, []byte(f), 0o600); err != nil {
					panic(err)
				}
				paths = append(paths, at)
				for _, w := range strings.Fields(f) {
					words[w]++
				}
			}
			m, _ := trainer(kind, 20).Train(words)
			want = printOf(m)
		}
		return func() string {
			tk := tokenizer.NewTokenizer(must(wordlevel.New(vocabOf("[UNK]", "z"), "[UNK]")))
			tk.WithPreTokenizer(pretokenizer.NewWhitespaceSplit())
			tr, ok := trainer(kind, 20).(tokenizer.Trainer)
			if !ok {
				return kind + ": the trainer does not fit Tokenizer.Train"
			}
			if err := tk.Train(tr, paths); err != nil {
				return fmt.Sprintf("%s: %v", name, err)
			}
			if p := printOf(tk.GetModel()); p != want {
				return fmt.Sprintf("%s: trained %s, the words give %s", name, p, want)
			}
			if e, err := tk.EncodeSingle("[UNK]ab"); err != nil || len(e.Ids) != 2 || e.Ids[0] != 0 || e.Ids[1] != 1 {
				return name + ": the special tokens are not used"
			}
			return ""
		}
	}}
}

func c21(thorough bool) []scenario {
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	var out []scenario
	kinds := []string{"bpe", "limited", "wordpiece"}
	for _, kind := range kinds {
		for _, tab := range []map[string]int{
			{"ab": 1, "ba": 1},
			{"abc": 1, "bca": 1, "cab": 1},
			{"aab": 2, "abb": 1, "baa": 1, "bba": 2},
			{"abcd": 1, "cdab": 1, "dc": 2},
			{"aaaa": 1, "bbbb": 1, "cccc": 1},
		} {
			out = append(out, same(kind, 40, tab, true, 0, pick(2, 3)))
		}
	}
	for _, n := range []int{10000, 10003} {
		tab := map[string]int{}
		for k := range n {
			w := fmt.Sprintf("%05d", k*7)
			tab[w] = k%3 + 1
			if k%2500 < 2 && k > 0 {
				// what the parts of the list share is followed by something of their own
				tab[w+"ab"+string(rune('c'+k/2500))] = 1_000_000
			}
		}
		for i, b := range [][2]int{{1, 0}, {0, pick(1, 2)}, {pick(1, 2), 0}, {1, 1}}[:pick(2, 4)] {
			s := same("bpe", 26, tab, false, b[0], b[1])
			s.weight = 10000
			s.name += fmt.Sprint(" ", i)
			out = append(out, s)
		}
	}
	for _, kind := range kinds {
		out = append(out, whole(kind, []string{"ab abc\nbab ab\n", "ba ab\n"}, pick(1, 2), pick(1, 2)))
		out = append(out, whole(kind, []string{"ab\nb a\n", "", "ab"}, pick(1, 2), pick(1, 2)))
	}
	return out
}
