package props

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordpiece"
)

func init() {
	core.Register(&core.Check{ID: "C21", Level: "model_checking", Hang: time.Hour,
		Rule:        "Every table of words and counts within the bounds is trained with every trainer setting within the bounds by BpeTrainer and WordPieceTrainer, twice each. The vocabulary must be the special tokens in order, the sorted alphabet of the most frequent characters within its limit, the prefixed and suffixed forms of the words, and the results of the merges in their order. The recorded merges are replayed on the words: each must be a most frequent pair at its time, counted afresh, and the last one must be where no pair is frequent enough or the vocabulary has its size. Training words must encode to what the replay ends with. Word.Merge is checked directly on all small words. Then a race-instrumented build trains under the controlled scheduler of C18: all map iteration orders of small tables within a bound of departures, all schedules of the counting workers of tables of 10000 words and of Tokenizer.Train with these trainers within a preemption bound must give the same model. A state is a trained model or a schedule. Non-trivial: at least one merge is recorded or at least one choice departs from the default.",
		Run:         c21,
		Assumptions: []string{"Counts are at least 1, sizes and limits not negative, the initial alphabet holds single characters.", "Pairs that are equally frequent, and characters at the limit of the alphabet that are, may be taken in any order, but always the same."}})
}

type c21Cfg struct {
	min, size int
	specials  []string
	limit     int // -1: none
	initial   []string
	prefix    string // "": none
	suffix    string
}

func (g c21Cfg) String() string {
	return fmt.Sprintf("minimum frequency %d, size %d, specials %q, alphabet limit %d, initial alphabet %q, prefix %q, suffix %q", g.min, g.size, g.specials, g.limit, g.initial, g.prefix, g.suffix)
}

type c21Trainer interface {
	Train(words map[string]int) (tokenizer.Model, []tokenizer.AddedToken)
}

func (g c21Cfg) added() []tokenizer.AddedToken {
	var out []tokenizer.AddedToken
	for _, s := range g.specials {
		out = append(out, tokenizer.NewAddedToken(s, true))
	}
	return out
}

func (g c21Cfg) chars() bpe.CharSet {
	cs := bpe.CharSet{}
	for _, s := range g.initial {
		cs[s] = struct{}{}
	}
	return cs
}

func (g c21Cfg) bpe() c21Trainer {
	b := bpe.NewBPETrainerBuilder()
	b.MinFrequency(g.min)
	b.VocabSize(g.size)
	b.SpecialTokens(g.added())
	if g.limit >= 0 {
		b.LimitAlphabet(g.limit)
	}
	if g.initial != nil {
		b.InitialAlphabet(g.chars())
	}
	if g.prefix != "" {
		b.ContinuingSubwordPrefix(g.prefix)
	}
	if g.suffix != "" {
		b.EndOfWordSuffix(g.suffix)
	}
	return b.Build()
}

func (g c21Cfg) wordpiece() c21Trainer {
	b := wordpiece.NewWordPieceTrainerBuilder().MinFrequency(g.min).VocabSize(g.size).SpecialTokens(g.added()).ShowProgress(false)
	if g.limit >= 0 {
		b = b.LimitAlphabet(g.limit)
	}
	if g.initial != nil {
		b = b.InitialAlphabet(g.chars())
	}
	if g.prefix != "##" {
		b = b.ContinuingSubwordPrefix(g.prefix)
	}
	if g.suffix != "" {
		b = b.EndOfWordSuffix(g.suffix)
	}
	return b.Build()
}

type c21Merge struct{ a, b, id int }

// c21Vocab lists the tokens of a model by id.
func c21Vocab(m tokenizer.Model) ([]string, error) {
	v := m.GetVocab()
	if n := m.GetVocabSize(); n != len(v) {
		return nil, fmt.Errorf("vocabulary size %d, entries %v", n, v)
	}
	out := make([]string, len(v))
	seen := make([]bool, len(v))
	for k, id := range v {
		if id < 0 || id >= len(v) || seen[id] {
			return nil, fmt.Errorf("ids are not contiguous and unique: %v", v)
		}
		seen[id] = true
		out[id] = k
		if s, ok := m.IdToToken(id); !ok || s != k {
			return nil, fmt.Errorf("IdToToken(%d) = %q %v, want %q", id, s, ok, k)
		}
		if i, ok := m.TokenToId(k); !ok || i != id {
			return nil, fmt.Errorf("TokenToId(%q) = %d %v, want %d", k, i, ok, id)
		}
	}
	return out, nil
}

func c21Merges(m bpe.BPE) ([]c21Merge, error) {
	out := make([]c21Merge, len(*m.Merges))
	seen := make([]bool, len(out))
	for p, v := range *m.Merges {
		if v.Rank < 0 || v.Rank >= len(out) || seen[v.Rank] {
			return nil, fmt.Errorf("ranks of merges are not contiguous and unique: %v", *m.Merges)
		}
		seen[v.Rank] = true
		out[v.Rank] = c21Merge{p.C1, p.C2, v.NewId}
	}
	return out, nil
}

// c21Alphabets are the alphabets that may be kept, each sorted.
func c21Alphabets(tab map[string]int, g c21Cfg) [][]string {
	freq := map[string]int{}
	for w, n := range tab {
		for _, r := range w {
			freq[string(r)] += n
		}
	}
	for _, c := range g.initial {
		freq[c] = math.MaxInt
	}
	all := core.Keys(freq)
	sort.Strings(all)
	if g.limit < 0 || len(all) <= g.limit {
		return [][]string{all}
	}
	// the kept ones are at least as frequent as the others
	byFreq := append([]string{}, all...)
	sort.SliceStable(byFreq, func(i, j int) bool { return freq[byFreq[i]] > freq[byFreq[j]] })
	if g.limit == 0 {
		return [][]string{nil}
	}
	edge := freq[byFreq[g.limit-1]]
	var sure, tied []string
	for _, c := range byFreq {
		if freq[c] > edge {
			sure = append(sure, c)
		} else if freq[c] == edge {
			tied = append(tied, c)
		}
	}
	var out [][]string
	for bits := 0; bits < 1<<len(tied); bits++ {
		k := append([]string{}, sure...)
		for i, c := range tied {
			if bits>>i&1 == 1 {
				k = append(k, c)
			}
		}
		if len(k) == g.limit {
			sort.Strings(k)
			out = append(out, k)
		}
	}
	return out
}

// c21Seg cuts a word into the forms of its known characters.
func c21Seg(w string, g c21Cfg, known map[string]int) []string {
	rs := []rune(w)
	var out []string
	for i, r := range rs {
		s := string(r)
		if _, ok := known[s]; !ok {
			continue
		}
		if i > 0 {
			s = g.prefix + s
		}
		if i == len(rs)-1 {
			s += g.suffix
		}
		out = append(out, s)
	}
	return out
}

// c21Base checks the entries that are there before any merge and returns
// their number, or the numbers that are possible.
func c21Base(order []string, tab map[string]int, g c21Cfg) ([]int, error) {
	var want []string
	var out []int
	for _, alpha := range c21Alphabets(tab, g) {
		want = nil
		known := map[string]int{}
		add := func(s string) {
			if _, ok := known[s]; !ok {
				known[s] = len(want)
				want = append(want, s)
			}
		}
		for _, s := range g.specials {
			add(s)
		}
		for _, c := range alpha {
			add(c)
		}
		head := len(want)
		forms := c21Forms(tab, g, known)
		end := head + len(forms)
		if len(order) < end || !eqStrs(order[:head], want) {
			continue
		}
		for _, f := range order[head:end] {
			delete(forms, f)
		}
		if len(forms) == 0 {
			out = append(out, end)
		}
	}
	if out != nil {
		return out, nil
	}
	return nil, fmt.Errorf("vocabulary %q does not begin with the special tokens, the alphabet and the forms, such as %q", order, want)
}

func c21Forms(tab map[string]int, g c21Cfg, known map[string]int) map[string]bool {
	forms := map[string]bool{}
	for w := range tab {
		for _, f := range c21Seg(w, g, known) {
			if _, ok := known[f]; !ok {
				forms[f] = true
			}
		}
	}
	return forms
}

type c21State struct {
	segs  [][]int
	count []int
}

func (s *c21State) pairs() (map[[2]int]int, int) {
	m := map[[2]int]int{}
	for i, w := range s.segs {
		for j := 0; j+1 < len(w); j++ {
			m[[2]int{w[j], w[j+1]}] += s.count[i]
		}
	}
	top := 0
	for _, n := range m {
		top = max(top, n)
	}
	return m, top
}

func c21Apply(w []int, a, b, id int) []int {
	out := make([]int, 0, len(w))
	for j := 0; j < len(w); j++ {
		if j+1 < len(w) && w[j] == a && w[j+1] == b {
			out = append(out, id)
			j++
		} else {
			out = append(out, w[j])
		}
	}
	return out
}

func (s *c21State) apply(a, b, id int) *c21State {
	n := &c21State{count: s.count, segs: make([][]int, len(s.segs))}
	for i, w := range s.segs {
		n.segs[i] = c21Apply(w, a, b, id)
	}
	return n
}

// c21Replay follows the recorded merges. It returns the final cut of the words
// and whether some token was built twice.
func c21Replay(st *c21State, order []string, merges []c21Merge, g c21Cfg, again bool, done int, size int) (*c21State, bool, error) {
	counts, top := st.pairs()
	stop := size >= g.size || top < 1 || top < g.min
	if stop {
		if done < len(merges) {
			m := merges[done]
			return nil, false, fmt.Errorf("merge %d (%q, %q) is recorded though %s", done, order[m.a], order[m.b],
				core.If(size >= g.size, fmt.Sprintf("the vocabulary has %d entries", size), fmt.Sprintf("no pair is more frequent than %d", top)))
		}
		if size != len(order) {
			return nil, false, fmt.Errorf("the vocabulary has %d entries, %d of them from words and merges", len(order), size)
		}
		return st, again, nil
	}
	// a pair that formed again after it was merged away
	var firstErr error
	for k, m := range merges[:done] {
		if counts[[2]int{m.a, m.b}] == top {
			f, _, err := c21Replay(st.apply(m.a, m.b, m.id), order, merges, g, true, done, size)
			if err == nil {
				return f, true, nil
			}
			firstErr = fmt.Errorf("after merge %d once more: %v", k, err)
		}
	}
	if done == len(merges) {
		if firstErr != nil {
			return nil, false, firstErr
		}
		return nil, false, fmt.Errorf("no merge after the first %d though some pair occurs %d times and the vocabulary has %d entries", done, top, size)
	}
	m := merges[done]
	if n := counts[[2]int{m.a, m.b}]; n != top {
		return nil, false, fmt.Errorf("merge %d (%q, %q) occurs %d times in the words, some other pair %d times", done, order[m.a], order[m.b], n, top)
	}
	b := order[m.b]
	if g.prefix != "" {
		b = strings.TrimPrefix(b, g.prefix)
	}
	if order[m.id] != order[m.a]+b {
		return nil, false, fmt.Errorf("merge %d of %q and %q makes %q", done, order[m.a], order[m.b], order[m.id])
	}
	if m.id == size {
		size++
	} else if m.id > size {
		return nil, false, fmt.Errorf("merge %d makes id %d while the vocabulary has %d entries", done, m.id, size)
	} else {
		again = true
	}
	return c21Replay(st.apply(m.a, m.b, m.id), order, merges, g, again, done+1, size)
}

func c21Specials(got, want []tokenizer.AddedToken) bool {
	return len(got) == 0 && len(want) == 0 || reflect.DeepEqual(got, want)
}

// c21Judge trains both kinds of models.
func c21Judge(t *core.T, tab map[string]int, g c21Cfg, both bool) {
	in := map[string]int{}
	for k, v := range tab {
		in[k] = v
	}
	bad := func(f string, a ...any) {
		t.Errorf("%v, words %v: %s", g, tab, fmt.Sprintf(f, a...))
	}
	tr := g.bpe()
	m0, sp := tr.Train(in)
	m, ok := m0.(bpe.BPE)
	if !ok {
		bad("the model is a %T", m0)
		return
	}
	t.Op(1)
	if !c21Specials(sp, g.added()) {
		bad("special tokens %v are returned", sp)
	}
	order, err := c21Vocab(m)
	if err != nil {
		bad("%v", err)
		return
	}
	merges, err := c21Merges(m)
	if err != nil {
		bad("%v", err)
		return
	}
	t.State(fmt.Sprint(order, merges))
	for _, x := range merges {
		if x.a < 0 || x.b < 0 || x.id < 0 || x.a >= len(order) || x.b >= len(order) || x.id >= len(order) {
			bad("merge %v has ids outside of the vocabulary %q", x, order)
			return
		}
	}
	bases, err := c21Base(order, tab, g)
	if err != nil {
		bad("%v", err)
		return
	}
	id := map[string]int{}
	for i, s := range order {
		id[s] = i
	}
	ws := core.Keys(tab)
	var known map[string]int
	var fin *c21State
	again := false
	for _, base := range bases {
		known = map[string]int{}
		for i, s := range order[:base] {
			known[s] = i
		}
		st := &c21State{}
		for _, w := range ws {
			var seg []int
			for _, f := range c21Seg(w, g, known) {
				seg = append(seg, id[f])
			}
			st.segs = append(st.segs, seg)
			st.count = append(st.count, tab[w])
		}
		if fin, again, err = c21Replay(st, order, merges, g, false, 0, base); err == nil {
			break
		}
	}
	if err != nil {
		bad("%v\nvocabulary %q merges %v", err, order, merges)
		return
	}
	if (m.ContinuingSubwordPrefix == nil) != (g.prefix == "") || g.prefix != "" && *m.ContinuingSubwordPrefix != g.prefix ||
		(m.EndOfWordSuffix == nil) != (g.suffix == "") || g.suffix != "" && *m.EndOfWordSuffix != g.suffix || m.UnkToken != nil || m.Dropout != nil && *m.Dropout != 0 {
		bad("the model has prefix %v, suffix %v, unknown token %v, dropout %v", m.ContinuingSubwordPrefix, m.EndOfWordSuffix, m.UnkToken, m.Dropout)
	}
	for i, w := range ws {
		if len(c21Seg(w, g, known)) != len([]rune(w)) {
			continue // has characters that are not in the alphabet
		}
		toks, err := m.Tokenize(w)
		if err != nil {
			bad("Tokenize(%q): %v", w, err)
			continue
		}
		var got []int
		for _, k := range toks {
			got = append(got, k.Id)
			if id[k.Value] != k.Id {
				bad("Tokenize(%q): token %v", w, k)
			}
		}
		if !again && !eqInts(got, fin.segs[i]) {
			bad("Tokenize(%q) = %v, training ends with %v\nvocabulary %q merges %v", w, got, fin.segs[i], order, merges)
		}
		t.Op(1)
	}
	// once more with the same trainer and with a new one
	for k, tr := range []c21Trainer{tr, g.bpe()} {
		m2, _ := tr.Train(in)
		n, ok := m2.(bpe.BPE)
		if !ok || !reflect.DeepEqual(*n.Vocab, *m.Vocab) || !reflect.DeepEqual(*n.Merges, *m.Merges) {
			bad("trained again (%s) the model differs: %v %v, first %v %v", core.If(k == 0, "same trainer", "new trainer"), *n.Vocab, *n.Merges, *m.Vocab, *m.Merges)
			return
		}
	}
	if !reflect.DeepEqual(in, tab) {
		bad("training changes the table of words to %v", in)
	}
	if !both || g.prefix == "" {
		return
	}
	w0, sp := g.wordpiece().Train(in)
	wp, ok := w0.(wordpiece.WordPiece)
	if !ok {
		bad("the WordPiece trainer makes a %T", w0)
		return
	}
	t.Op(1)
	if !c21Specials(sp, g.added()) {
		bad("the WordPiece trainer returns special tokens %v", sp)
	}
	if o, err := c21Vocab(wp); err != nil || !eqStrs(o, order) {
		bad("the WordPiece trainer makes vocabulary %q (%v), the BPE trainer %q", o, err, order)
		return
	}
	// words are cut by the longest first pieces of the vocabulary
	for _, w := range append(ws, "qq") {
		toks, err := wp.Tokenize(w)
		var want []int
		rs := []rune(w)
		missing := false
		for i := 0; i < len(rs) && !missing; {
			j := len(rs)
			for ; j > i; j-- {
				p := string(rs[i:j])
				if i > 0 {
					p = g.prefix + p
				}
				if n, ok := id[p]; ok {
					want = append(want, n)
					break
				}
			}
			missing = j == i
			i = j
		}
		if missing {
			u, ok := id["[UNK]"]
			if want = []int{u}; !ok {
				if err == nil {
					bad("WordPiece.Tokenize(%q) = %v, want an error", w, toks)
				}
				continue
			}
		}
		var got []int
		for _, k := range toks {
			got = append(got, k.Id)
		}
		if err != nil || !eqInts(got, want) {
			bad("WordPiece.Tokenize(%q) = %v %v, want %v", w, toks, err, want)
		}
	}
}

// c21Tables calls f with every table of up to n of the words with counts up to
// most.
func c21Tables(ws []string, n, most int, f func(map[string]int)) {
	var rec func(i, left int, tab map[string]int)
	rec = func(i, left int, tab map[string]int) {
		if i == len(ws) {
			c := map[string]int{}
			for k, v := range tab {
				c[k] = v
			}
			f(c)
			return
		}
		rec(i+1, left, tab)
		if left > 0 {
			for k := 1; k <= most; k++ {
				tab[ws[i]] = k
				rec(i+1, left-1, tab)
			}
			delete(tab, ws[i])
		}
	}
	rec(0, n, map[string]int{})
}

func c21(c *core.Ctx) {
	type job struct {
		name string
		tabs []map[string]int
		cfgs []c21Cfg
		both bool
	}
	var jobs []job
	add := func(name string, tabs []map[string]int, cfgs []c21Cfg, both bool) {
		for i := 0; i < len(tabs); i += 40 {
			jobs = append(jobs, job{fmt.Sprintf("%s/%d", name, i/40), tabs[i:min(i+40, len(tabs))], cfgs, both})
		}
	}
	tables := func(ws []string, n, most int) (out []map[string]int) {
		c21Tables(ws, n, most, func(m map[string]int) { out = append(out, m) })
		return out
	}
	none := c21Cfg{size: 40, limit: -1}
	// all small tables with few settings
	var few []c21Cfg
	for _, min := range []int{0, 2, 3} {
		for _, size := range []int{4, 6, 40} {
			for _, p := range []string{"", "##"} {
				g := none
				g.min, g.size, g.prefix = min, size, p
				few = append(few, g)
			}
		}
	}
	add("tables", tables(words([]string{"a", "b"}, 0, 3), 3, core.Pick(c, 2, 3)), few, false)
	add("three letters", tables(words([]string{"é", "b", "日"}, 1, 2), 3, core.Pick(c, 2, 3)), few, false)
	g := none
	g.prefix = "##"
	h := none
	h.suffix = "</w>"
	add("longer words", tables(words([]string{"a", "b"}, 4, core.Pick(c, 5, 6)), 2, core.Pick(c, 2, 3)), []c21Cfg{none, g, h}, false)
	add("long words", tables(words([]string{"a", "b"}, 6, core.Pick(c, 10, 13)), 1, 1), []c21Cfg{none, g, h}, false)
	add("long words of three letters", tables(words([]string{"a", "b", "c"}, 4, core.Pick(c, 7, 9)), 1, 1), []c21Cfg{none}, false)
	// prefixes and suffixes that are in the words, too
	var odd []c21Cfg
	for _, p := range []string{"##", "#", "a", "a#", ""} {
		for _, s := range []string{"", "#", "a"} {
			g := none
			g.prefix, g.suffix = p, s
			odd = append(odd, g)
		}
	}
	add("prefix in the words", tables(words([]string{"a", "#"}, 1, 3), 2, core.Pick(c, 2, 3)), odd, true)
	add("prefix in longer words", tables(words([]string{"a", "#"}, 4, core.Pick(c, 6, 9)), 1, 1), odd, true)
	// all settings with few tables
	var all []c21Cfg
	for _, min := range []int{0, 1, 2, 4} {
		for _, size := range []int{0, 1, 3, 5, 7, 40} {
			for _, sp := range [][]string{nil, {"<s>"}, {"[UNK]", "<s>", "[UNK]"}, {"ab", "b"}, {"##b", "z", "aa", "##b", "c", "z"}} {
				for _, limit := range []int{-1, 0, 1, 2} {
					for _, init := range [][]string{nil, {"z"}, {"a", "é"}} {
						for _, p := range []string{"", "##"} {
							for _, s := range []string{"", "</w>"} {
								all = append(all, c21Cfg{min, size, sp, limit, init, p, s})
							}
						}
					}
				}
			}
		}
	}
	rich := []map[string]int{
		{"ab": 2, "abc": 1, "bab": 3},
		{"aabb": 2, "abab": 2, "b": 1},
		{"aaaa": 1, "aaa": 2, "ba": 1, "a": 5},
		{"bca": 3, "cab": 2, "abc": 2, "": 4},
	}
	if c.Thorough() {
		rich = append(rich, tables([]string{"ab", "abc", "bab", "aab", "é日", "abcabc"}, 4, 2)...)
		for i := range rich {
			add("settings", rich[i:i+1], all, true)
		}
	} else {
		for k := 0; k < len(all); k += 100 {
			add(fmt.Sprintf("settings %d", k/100), rich, all[k:min(k+100, len(all))], true)
		}
	}
	c.Par(len(jobs), func(w *core.W, i int) {
		j := jobs[i]
		w.Case(j.name, func(t *core.T) {
			for _, tab := range j.tabs {
				if c.TimeUp() {
					return
				}
				for _, g := range j.cfgs {
					c21Judge(t, tab, g, j.both)
				}
			}
		})
	})
	// counts that ints of 32 bits do not hold, many words
	c.Seq().Case("large", func(t *core.T) {
		c21Judge(t, map[string]int{"ab": math.MaxInt32, "abc": math.MaxInt32, "ca": 1}, none, false)
		c21Judge(t, map[string]int{"ab": 1 << 40, "abc": 1 << 41, "ca": 1}, c21Cfg{size: 40, limit: 2, min: 1 << 41, initial: []string{"c"}}, false)
		for _, n := range []int{9999, 10000, 10001, 10003} {
			tab := map[string]int{}
			for k := range n {
				tab[fmt.Sprintf("%05d", k*7)] = k%3 + 1
			}
			c21Judge(t, tab, c21Cfg{size: 26, limit: -1}, false)
			// pairs that several parts of the list of words share, each followed by
			// something that only one part has
			for _, most := range []int{0, 1, 2, 3, 4} {
				tab := map[string]int{}
				for k := range n {
					w := fmt.Sprintf("%05d", k*7)
					part := k / 2500
					if at := k % 2500; at == 0 || at > 2400 && at <= 2401+(part+most)%5 {
						tab[w+"ab"+string(rune('c'+part))] = 1_000_000 + part
					} else {
						tab[w] = k%3 + 1
					}
				}
				c21Judge(t, tab, c21Cfg{size: 60, limit: -1, min: 500_000}, false)
			}
		}
	})
	// Word.Merge
	lens := core.Pick(c, 6, 8)
	list := seqs(3, 0, lens)
	c.Par((len(list)+199)/200, func(w *core.W, i int) {
		w.Case(fmt.Sprintf("Word.Merge/%d", i), func(t *core.T) {
			for _, s := range list[i*200 : min(i*200+200, len(list))] {
				for a := range 3 {
					for b := range 3 {
						for _, r := range []int{3, 2} {
							if r == a || r == b {
								continue
							}
							c21Word(t, s, a, b, r)
						}
					}
				}
			}
		})
	})
	// counting tokens
	c.Seq().Case("ProcessTokens", func(t *core.T) {
		// as many as there are
		long := make([]string, 70_000)
		for i := range long {
			long[i] = []string{"a", "a", "b"}[i%3]
		}
		for k, tr := range []interface {
			ProcessTokens(map[string]int, []string)
		}{bpe.NewBpeTrainer(0, 9), wordpiece.NewWordPieceTrainerBuilder().Build()} {
			got := map[string]int{"b": math.MaxInt32}
			tr.ProcessTokens(got, long)
			if len(got) != 2 || got["a"] != 46_667 || got["b"] != math.MaxInt32+23_333 {
				t.Errorf("trainer %d: 70000 tokens counted: %v", k, got)
			}
		}
		names := []string{"a", "b", ""}
		for _, s := range seqs(3, 0, 4) {
			for _, old := range []map[string]int{{}, {"a": 2, "x": 1}} {
				want := map[string]int{}
				for k, v := range old {
					want[k] = v
				}
				var toks []string
				for _, k := range s {
					toks = append(toks, names[k])
					want[names[k]]++
				}
				for k, tr := range []interface {
					ProcessTokens(map[string]int, []string)
				}{bpe.NewBpeTrainer(0, 9), wordpiece.NewWordPieceTrainerBuilder().Build()} {
					got := map[string]int{}
					for k, v := range old {
						got[k] = v
					}
					tr.ProcessTokens(got, toks)
					if !reflect.DeepEqual(got, want) {
						t.Errorf("trainer %d: tokens %q counted into %v: %v", k, toks, old, got)
					}
					t.Op(1)
				}
			}
		}
	})
	schedRun(c, "C21")
}

func c21Word(t *core.T, s []int, a, b, r int) {
	w := bpe.NewWord()
	n := 0
	for i, k := range s {
		w.Add(k, i+1)
		n += i + 1
	}
	t.Op(1)
	if !eqInts(w.GetChars(), s) {
		t.Errorf("word of %v: %v", s, w.GetChars())
		return
	}
	ch, err := w.Merge(a, b, r)
	want := c21Apply(s, a, b, r)
	if err != nil || !eqInts(w.GetChars(), want) {
		t.Errorf("%v merging %d %d to %d: %v %v", s, a, b, r, w.GetChars(), err)
		return
	}
	// the changes are those of the pair counts, but for the pair itself
	diff := map[[2]int]int{}
	for j := 0; j+1 < len(want); j++ {
		diff[[2]int{want[j], want[j+1]}]++
	}
	for j := 0; j+1 < len(s); j++ {
		diff[[2]int{s[j], s[j+1]}]--
	}
	for _, x := range ch {
		diff[[2]int{x.C1, x.C2}] -= x.Change
	}
	for p, d := range diff {
		if d != 0 && p != [2]int{a, b} {
			t.Errorf("%v merging %d %d to %d: changes %v miss %d of pair %v", s, a, b, r, ch, d, p)
		}
	}
	pos, k := 0, 0
	for i, o := range w.GetOffsets() {
		l := k + 1
		if k++; len(s) > 0 && want[i] == r && k < len(s) && s[k-1] == a && s[k] == b {
			k++
			l += k
		}
		if o[0] != pos || o[1] != pos+l {
			t.Errorf("%v merging %d %d to %d: offsets %v", s, a, b, r, w.GetOffsets())
			return
		}
		pos += l
	}
	if pos != n {
		t.Errorf("%v merging %d %d to %d: offsets %v of %d bytes", s, a, b, r, w.GetOffsets(), n)
	}
}
