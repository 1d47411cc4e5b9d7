//go:build verifoverlay

package main

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
)

func init() { table["C20"] = c20 }

// witness is a trainer that keeps what it is handed.
type witness struct {
	words    map[string]int
	trained  int
	model    tokenizer.Model
	specials []tokenizer.AddedToken
}

func (w *witness) WithProgressBar() bool { return false }
func (w *witness) Train(words map[string]int) (tokenizer.Model, []tokenizer.AddedToken) {
	w.trained++
	w.words = words
	return w.model, w.specials
}
func (w *witness) ProcessTokens(words map[string]int, tokens []string) {
	for _, t := range tokens {
		words[t]++
	}
}

// lines are the lines of a file: they end with a line feed, or a carriage
// return and a line feed, or the end of the file.
func lines(text string) []string {
	l := strings.Split(text, "\n")
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	for i := range l {
		l[i] = strings.TrimSuffix(l[i], "\r")
	}
	return l
}

type trainSetup struct {
	name string
	mk   func() *tokenizer.Tokenizer
	cut  func(line string) []string
}

func trainSetups() []trainSetup {
	m := func() *tokenizer.Tokenizer {
		return tokenizer.NewTokenizer(must(wordlevel.New(vocabOf("[UNK]", "z"), "[UNK]")))
	}
	return []trainSetup{
		{"lower case, whitespace", func() *tokenizer.Tokenizer {
			tk := m()
			tk.WithNormalizer(normalizer.Lowercase())
			tk.WithPreTokenizer(pretokenizer.NewWhitespaceSplit())
			return tk
		}, func(l string) []string { return strings.Fields(strings.ToLower(l)) }},
		{"punctuation", func() *tokenizer.Tokenizer {
			tk := m()
			tk.WithNormalizer(normalizer.NewBertNormalizer(true, true, true, true))
			tk.WithPreTokenizer(pretokenizer.NewBertPreTokenizer())
			return tk
		}, func(l string) []string { return strings.Fields(strings.ReplaceAll(strings.ToLower(l), ",", " , ")) }},
	}
}

// chunked reads files in chunks of the given size.
func chunked(size int64, s scenario) scenario {
	s.name = fmt.Sprintf("chunks of %d, %s", size, s.name)
	prepare := s.prepare
	s.prepare = func() func() string {
		body := prepare()
		tokenizer.SetTrainChunkSize(size)
		return func() string {
			if msg := body(); msg != "" {
				return fmt.Sprintf("chunks of %d: %s", size, msg)
			}
			return ""
		}
	}
	return s
}

type refuser struct{ bad string }

func (r refuser) Normalize(n *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	if n.GetOriginal() == r.bad {
		return nil, fmt.Errorf("refused")
	}
	return n, nil
}

// failing trains on files of which some cannot be used: training reports an
// error and leaves the tokenizer alone.
func failing(name string, files []string, mk func() *tokenizer.Tokenizer, bound, free int) scenario {
	var paths []string
	return scenario{name: name, bound: bound, free: free, prepare: func() func() string {
		tokenizer.SetTrainChunkSize(100 << 20)
		if paths == nil {
			dir := must(os.MkdirTemp("", "train-"))
			for i, f := range files {
				at := fmt.Sprintf("%s/f%d", dir, i)
				switch f {
				case "<missing>":
				case "<directory>":
					if err := os.MkdirAll(at+"/and something in it", 0o700); err != nil {
						panic(err)
					}
				default:
					if err := os.WriteFile(at, []byte(f), 0o600); err != nil {
						panic(err)
					}
				}
				paths = append(paths, at)
			}
		}
		return func() string {
			tk := mk()
			w := &witness{model: must(wordlevel.New(vocabOf("[UNK]", "a"), "[UNK]"))}
			if err := tk.Train(w, paths); err == nil {
				return name + ": Train reports no error"
			}
			if w.trained != 0 {
				return name + ": a model is trained on part of the text"
			}
			if _, ok := tk.TokenToId("z"); !ok {
				return name + ": the model is replaced"
			}
			return ""
		}
	}}
}

func train(set trainSetup, files []string, bound, free int) scenario {
	name := fmt.Sprintf("%s, files %q", set.name, files)
	if len(name) > 200 {
		name = fmt.Sprintf("%s, %d files of %d bytes %.40q..", set.name, len(files), len(strings.Join(files, "")), files[0])
	}
	var paths []string
	want := map[string]int{}
	for _, f := range files {
		for _, l := range lines(f) {
			for _, w := range set.cut(l) {
				want[w]++
			}
		}
	}
	return scenario{name: name, bound: bound, free: free, prepare: func() func() string {
		tokenizer.SetTrainChunkSize(100 << 20)
		if paths == nil {
			paths = []string{}
			at := map[string]string{}
			dir := must(os.MkdirTemp("", "train-"))
			for i, f := range files {
				if at[f] == "" { // equal texts are one file given twice
					at[f] = fmt.Sprintf("%s/f%d", dir, i)
					if err := os.WriteFile(at[f], []byte(f), 0o600); err != nil {
						panic(err)
					}
				}
				paths = append(paths, at[f])
			}
		}
		return func() string {
			tk := set.mk()
			next := must(wordlevel.New(vocabOf("[UNK]", "a", "<k>"), "[UNK]"))
			w := &witness{model: next, specials: []tokenizer.AddedToken{tokenizer.NewAddedToken("<n>", true), tokenizer.NewAddedToken("<k>", true)}}
			if err := tk.Train(w, paths); err != nil {
				return fmt.Sprintf("%s: Train fails: %v", name, err)
			}
			got := map[string]int{}
			for k, v := range w.words {
				if v != 0 {
					got[k] = v
				}
			}
			if !reflect.DeepEqual(got, want) {
				return fmt.Sprintf("%s: the trainer is handed %v, the files hold %v", name, show(got), show(want))
			}
			if w.trained != 1 {
				return fmt.Sprintf("%s: the trainer ran %d times", name, w.trained)
			}
			if a, ok := tk.TokenToId("a"); !ok || a != 1 {
				return name + ": afterwards the trained model is not used"
			}
			k, ok1 := tk.TokenToId("<k>")
			n, ok2 := tk.TokenToId("<n>")
			if !ok1 || !ok2 || k != 2 || n == k {
				return fmt.Sprintf("%s: the special tokens have ids %d %v, %d %v", name, k, ok1, n, ok2)
			}
			e, err := tk.EncodeSingle("a<n>a<k>")
			if err != nil || !reflect.DeepEqual(e.Ids, []int{1, n, 1, k}) {
				return fmt.Sprintf("%s: afterwards a<n>a<k> encodes to %v (%v)", name, e, err)
			}
			if s := tk.Decode([]int{1, n, 1, k}, true); strings.Contains(s, "<") {
				return fmt.Sprintf("%s: decoding keeps special tokens: %q", name, s)
			}
			return ""
		}
	}}
}

func show(m map[string]int) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q:%d", k, v))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

func textsUpTo(alphabet string, n int) []string {
	out := []string{""}
	last := out
	for range n {
		var next []string
		for _, l := range last {
			for _, c := range alphabet {
				next = append(next, l+string(c))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func c20(thorough bool) []scenario {
	var out []scenario
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	group := func(name string, subs []scenario) {
		for i := 0; i < len(subs); i += 100 { // one process each
			part := subs[i:min(i+100, len(subs))]
			out = append(out, scenario{name: fmt.Sprintf("%s, part %d", name, i/100), subs: part, weight: len(part)})
		}
	}
	for i, set := range trainSetups() {
		var subs []scenario
		for _, x := range textsUpTo([]string{"aB \n\r", "aB,\n "}[i], pick(4, 5)) {
			subs = append(subs, train(set, []string{x}, 0, 0))
		}
		group("one file, "+set.name, subs)
	}
	ws := trainSetups()[0]
	for size := range int64(pick(4, 6)) {
		var subs []scenario
		for _, x := range textsUpTo("ab\n", pick(4, 5)) {
			if int64(len(x)) > size+1 {
				subs = append(subs, chunked(size+1, train(ws, []string{x}, 0, 1)))
			}
		}
		group(fmt.Sprintf("one file in chunks of %d", size+1), subs)
	}
	var subs []scenario
	small := textsUpTo("a\n", 2)
	for _, x := range small {
		for _, y := range small {
			subs = append(subs, train(ws, []string{x, y}, 1, 1))
		}
	}
	group("two small files", subs)
	// every way to put the lines into up to three files
	text := []string{"a b", "b", "", "a B a", "c"}
	subs = nil
	n := pick(4, 5)
	var rec func(i int, fs []string)
	rec = func(i int, fs []string) {
		if i == n {
			subs = append(subs, train(ws, append([]string{}, fs...), 0, 1))
			return
		}
		for f := range 3 {
			old := fs[f]
			fs[f] += text[i] + "\n"
			rec(i+1, fs)
			fs[f] = old
		}
	}
	rec(0, make([]string, 3))
	group("lines over three files", subs)
	one := func(q, t int, files ...string) {
		b := pick(q, t)
		s := train(ws, files, b, b+1)
		s.weight = 1000
		out = append(out, s)
	}
	one(3, 4)
	one(3, 5, "")
	one(3, 5, "a b\nb\n")
	one(3, 4, "a\nb\nc\na\n")
	one(2, 3, "a b", "b")
	one(2, 3, "a\nb\n", "b\n")
	one(2, 3, "a\n", "a\n")
	one(2, 3, "a\nb", "")
	one(1, 2, "a", "a b\n", "b")
	one(1, 2, "a\nb", "b\nc", "c\na")
	one(1, 2, "", "a\n", "a")
	two := func(q, t int, size int64, files ...string) {
		b := pick(q, t)
		s := chunked(size, train(ws, files, b, b+1))
		s.weight = 1000
		out = append(out, s)
	}
	two(2, 3, 3, "a b\nb\n")
	two(1, 2, 3, "a\r\nb\r\na")
	two(1, 2, 4, "a\nb\n", "b\na\n")
	plain := trainSetups()[0].mk
	bare := func() *tokenizer.Tokenizer {
		return tokenizer.NewTokenizer(must(wordlevel.New(vocabOf("[UNK]", "z"), "[UNK]")))
	}
	refusing := func(bad string) func() *tokenizer.Tokenizer {
		return func() *tokenizer.Tokenizer {
			tk := plain()
			tk.WithNormalizer(refuser{bad})
			return tk
		}
	}
	for _, f := range [][]string{{"<missing>"}, {"<directory>"}, {"a\n", "<missing>"}, {"<missing>", "a\n"}, {"a\nb\n", "<directory>"}, {"<directory>", "a\n"}, {"<directory>", "<directory>"}, {"a", "<directory>", "b"}} {
		out = append(out, failing(fmt.Sprintf("unusable files %q", f), f, plain, pick(3, 4)-len(f), pick(3, 4)-len(f)))
	}
	for _, f := range [][]string{{"a"}, {"a\n", "b\n"}} {
		out = append(out, failing(fmt.Sprintf("no pre-tokenizer, files %q", f), f, bare, pick(2, 3), pick(2, 3)))
	}
	for _, f := range [][]string{{"b"}, {"a\nb\na\n"}, {"a\n", "b\n"}, {"b", "b"}, {"a\nb\n", "a\n"}} {
		out = append(out, failing(fmt.Sprintf("refused text, files %q", f), f, refusing("b"), pick(2, 3), pick(2, 3)))
	}
	// the same in chunks, the refused line in any of them
	subs = nil
	for _, f := range [][]string{{"b\na\na\n"}, {"a\nb\na\na\n"}, {"a\na\nb\n"}, {"a\na\nb"}, {"a\na\n", "b\na\na\n"}, {"aaa\na\nb\naaaaaa"}} {
		for size := range int64(pick(5, 8)) {
			subs = append(subs, chunked(size+1, failing(fmt.Sprintf("refused text, files %q", f), f, refusing("b"), pick(0, 1), 1)))
		}
	}
	group("refused text in chunks", subs)
	// long texts, many files, long lines; in few schedules
	subs = nil
	var text1 strings.Builder
	for i := range 1500 {
		fmt.Fprintf(&text1, "w%d aB w%d\n", i%700, i%3)
	}
	var many []string
	for i := range 150 {
		many = append(many, fmt.Sprintf("w%d\nc%d a\n", i%60, i))
	}
	wide := strings.Repeat("ab cd ", 30000)
	subs = append(subs, train(ws, []string{text1.String()}, 0, 0), train(ws, many, 0, 0),
		train(ws, []string{wide + "\nx\n" + wide}, 0, 0), train(ws, []string{"x\n" + strings.Repeat("y", 200000) + "\nx"}, 0, 0))
	for _, size := range []int64{100, 1000, 4096, 4097, 65536} {
		subs = append(subs, chunked(size, train(ws, []string{text1.String()}, 0, 0)), chunked(size, train(ws, []string{"x y\n" + wide[:9000] + "\r\nx"}, 0, 0)))
	}
	group("long texts", subs)
	return out
}
