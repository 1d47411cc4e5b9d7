package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/normalizer"
)

// mapModel is a model whose vocabulary is a plain map and whose tokenization is
// one token per piece; it records what it was asked to tokenize.
type mapModel struct {
	v    map[string]int
	seen *[]string
}

func (m mapModel) Tokenize(s string) ([]tokenizer.Token, error) {
	if m.seen != nil {
		*m.seen = append(*m.seen, s)
	}
	if s == "" {
		return nil, nil
	}
	return []tokenizer.Token{{Id: 9999, Value: s, Offsets: []int{0, len(s)}}}, nil
}
func (m mapModel) TokenToId(t string) (int, bool) { i, ok := m.v[t]; return i, ok }
func (m mapModel) IdToToken(id int) (string, bool) {
	for k, v := range m.v {
		if v == id {
			return k, true
		}
	}
	return "", false
}
func (m mapModel) GetVocab() map[string]int                    { return m.v }
func (m mapModel) GetVocabSize() int                           { return len(m.v) }
func (m mapModel) Save(path string, prefixOpt ...string) error { return nil }

type modelDef struct {
	name string
	v    map[string]int
	mk   func() tokenizer.Model
}

func c13Models() []modelDef {
	dense := map[string]int{"k": 0, "x": 1, "[UNK]": 2}
	var out []modelDef
	add := func(name string, v map[string]int, mk func() tokenizer.Model) {
		out = append(out, modelDef{name, v, mk})
	}
	cp := func(v map[string]int) map[string]int {
		o := map[string]int{}
		for k, i := range v {
			o[k] = i
		}
		return o
	}
	for _, d := range []struct {
		n string
		v map[string]int
	}{{"dense", dense}, {"empty", map[string]int{}}, {"sparse", map[string]int{"k": 0, "x": 4, "[UNK]": 6}}, {"high", map[string]int{"k": 3, "x": 4, "[UNK]": 5}}, {"gap", map[string]int{"k": 0, "x": 3}}} {
		v := d.v
		add("map/"+d.n, v, func() tokenizer.Model { return mapModel{v: cp(v)} })
		add("wordlevel/"+d.n, v, func() tokenizer.Model {
			m, err := wordlevel.New(cp(v), "[UNK]")
			if err != nil {
				panic(err)
			}
			return m
		})
		add("wordpiece/"+d.n, v, func() tokenizer.Model {
			vv := model.Vocab(cp(v))
			return wordpiece.NewWordPieceBuilder().Vocab(&vv).UnkToken("[UNK]").Build()
		})
		add("bpe/"+d.n, v, func() tokenizer.Model {
			return bpe.NewBPE(cp(v), bpe.Merges{})
		})
	}
	add("unigram", map[string]int{"[UNK]": 0, "k": 1, "x": 2}, func() tokenizer.Model {
		m, err := unigram.NewUnigramBuilder().Vocab([]unigram.TokenScore{{Token: "[UNK]"}, {Token: "k", Score: -1}, {Token: "x", Score: -2}}).UnkID(0).Build()
		if err != nil {
			panic(err)
		}
		return m
	})
	return out
}

type addOp struct {
	special bool
	toks    []string
	read    int // 1: GetVocab(true), the result scribbled on; 2: sizes, lists; 3: set a normalizer; 4: encode
}

func (o addOp) String() string {
	if o.read > 0 {
		return []string{"", "vocab", "sizes", "norm", "encode"}[o.read]
	}
	return fmt.Sprintf("%s%s", core.If(o.special, "S", "A"), js(o.toks))
}

func c13Ops(c *core.Ctx) []addOp {
	var ops []addOp
	for _, sp := range []bool{false, true} {
		for _, t := range [][]string{{"A"}, {"B"}, {"k"}, {"A", "B"}, {"", "C", "C"}, {"[UNK]", "B", "x"}} {
			ops = append(ops, addOp{special: sp, toks: t})
		}
	}
	ops = append(ops, addOp{special: false, toks: []string{"C", "A", "D", "E", "F"}})
	ops = append(ops, addOp{special: true, toks: nil})
	// names that differ by little
	ops = append(ops, addOp{special: false, toks: []string{" A", "a", "A ", "é", "K"}}, addOp{special: true, toks: []string{"e\u0301", "É", "[unk]", "\n", "##x", "▁x", "ﬁ", "fi"}})
	ops = append(ops, addOp{read: 1}, addOp{read: 2}, addOp{read: 3}, addOp{read: 4})
	return ops
}

func c13Run(d modelDef, h []addOp, observe bool, t *core.T) map[string]int {
	tk := tokenizer.NewTokenizer(d.mk())
	universe := []string{"A", "B", "C", "D", "E", "F", "k", "x", "[UNK]", "zz", "", " A", "A ", "a", "K", "e\u0301", "é", "É", "[unk]", "\n", "##x", "▁x", "ﬁ", "fi"}
	for _, o := range h {
		for _, s := range o.toks {
			if !in(universe, s) {
				universe = append(universe, s)
			}
		}
	}
	added := map[string]bool{}
	special := map[string]bool{}
	ids := map[string]int{}
	for k, v := range d.v {
		ids[k] = v
	}
	check := func(where string) {
		for _, s := range universe {
			id, ok := tk.TokenToId(s)
			_, inModel := d.v[s]
			want := inModel || added[s]
			if ok != want {
				t.Errorf("%s: TokenToId(%q) found=%v, want %v", where, s, ok, want)
				continue
			}
			if !ok {
				continue
			}
			if old, was := ids[s]; was && old != id {
				t.Errorf("%s: %q had id %d and now has %d", where, s, old, id)
			}
			ids[s] = id
		}
		byId := map[int]string{}
		max := 0
		for s, id := range ids {
			if o, dup := byId[id]; dup {
				t.Errorf("%s: %q and %q share id %d", where, o, s, id)
			}
			byId[id] = s
			if id > max {
				max = id
			}
			if id < 0 {
				t.Errorf("%s: %q has id %d", where, s, id)
			}
		}
		for id := -1; id <= max+3; id++ {
			s, ok := tk.IdToToken(id)
			w, in := byId[id]
			if ok != in || (ok && s != w) {
				t.Errorf("%s: IdToToken(%d) = %q,%v, want %q,%v", where, id, s, ok, w, in)
			}
		}
	}
	sizes := func(where string) {
		if n := tk.GetVocabSize(false); n != len(d.v) {
			t.Errorf("%s: GetVocabSize(false)=%d, want %d", where, n, len(d.v))
		}
		if n := tk.GetVocabSize(true); n != len(d.v)+len(added) {
			t.Errorf("%s: GetVocabSize(true)=%d, want %d", where, n, len(d.v)+len(added))
		}
		sp := tk.GetSpecialTokens()
		if len(sp) != len(special) {
			t.Errorf("%s: special tokens %q, want %v", where, sp, special)
		}
		for _, s := range sp {
			if !special[s] {
				t.Errorf("%s: special tokens %q, want %v", where, sp, special)
			}
		}
	}
	vocab := func(where string) {
		want := map[string]int{}
		for k, v := range d.v {
			want[k] = v
		}
		if g := tk.GetVocab(false); !sameMap(g, want) {
			t.Errorf("%s: GetVocab(false)=%v, want %v", where, g, want)
		}
		for k := range added {
			id, ok := tk.TokenToId(k)
			if !ok {
				t.Errorf("%s: added token %q lost", where, k)
			}
			want[k] = id
		}
		if g := tk.GetVocab(true); !sameMap(g, want) {
			t.Errorf("%s: GetVocab(true)=%v, want %v", where, g, want)
		}
		if g := tk.GetVocab(false); len(g) != len(d.v) {
			t.Errorf("%s: GetVocab(false) after GetVocab(true) has %d entries, want %d", where, len(g), len(d.v))
		}
	}
	for i, o := range h {
		where := fmt.Sprintf("after %v", h[:i+1])
		switch o.read {
		case 1:
			m := tk.GetVocab(true)
			if len(m) != len(d.v)+len(added) {
				t.Errorf("%s: GetVocab(true) has %d entries, want %d", where, len(m), len(d.v)+len(added))
			}
			m["zz"] = 77
		case 2:
			sizes(where)
		case 3:
			tk.WithNormalizer(normalizer.Lowercase())
		case 4:
			if _, ok := d.v["x"]; !ok {
				break // nothing the model could tokenize
			}
			if _, err := tk.EncodeSingle("kx"+core.If(added["A"], "A", ""), i%2 == 0); err != nil && !strings.HasPrefix(d.name, "w") {
				t.Errorf("%s: encode: %v", where, err)
			}
		default:
			var ats []tokenizer.AddedToken
			n := 0
			for _, s := range o.toks {
				ats = append(ats, tokenizer.NewAddedToken(s, o.special))
				_, in := d.v[s]
				if s != "" && !in && !added[s] {
					n++
					added[s] = true
				}
				if s != "" && o.special {
					special[s] = true
				}
			}
			var got int
			if o.special {
				got = tk.AddSpecialTokens(ats)
			} else {
				got = tk.AddTokens(ats)
			}
			if got != n {
				t.Errorf("%s: %d newly added reported, want %d", where, got, n)
			}
		}
		t.Op(1)
		if observe {
			check(where)
			sizes(where)
		}
	}
	where := fmt.Sprintf("after %v", h)
	check(where)
	sizes(where)
	vocab(where)
	check(where + " and reads")
	return ids
}

func in(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func sameMap(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func c13(c *core.Ctx) {
	ops := c13Ops(c)
	models := c13Models()
	type job struct {
		d modelDef
		h [][]int
	}
	var jobs []job
	for i, d := range models {
		depth := core.Pick(c, 3, 4)
		if strings.HasPrefix(d.name, "map/") && i < 9 {
			depth++
		}
		all := seqs(len(ops), 0, depth)
		for len(all) > 0 {
			n := min(500, len(all))
			jobs = append(jobs, job{d, all[:n]})
			all = all[n:]
		}
	}
	// many tokens, in one call and in many
	c.Par(len(models), func(w *core.W, i int) {
		d := models[i]
		for _, n := range []int{64, 300, core.Pick(c, 700, 1500)} {
			for how := 0; how < 4; how++ {
				var h []addOp
				o := addOp{special: how%2 == 1}
				for k := 0; k < n; k++ {
					o.toks = append(o.toks, fmt.Sprintf("t%d", k))
					if len(o.toks) == core.If(how < 2, n, n/10) || k == n-1 {
						h = append(h, o, addOp{read: 2})
						o.toks = nil
						o.special = o.special != (how > 2)
					}
				}
				h = append(h, addOp{special: true, toks: []string{"t5", "x", "A", fmt.Sprintf("t%d", n-1)}}, addOp{special: false, toks: []string{"t6", "B"}})
				w.Case(fmt.Sprintf("%s %d tokens/%d", d.name, n, how), func(t *core.T) {
					c13Run(d, h, false, t)
					t.State(fmt.Sprint(d.name, n, how))
				})
			}
		}
	})
	c.Par(len(jobs), func(w *core.W, i int) {
		j := jobs[i]
		for _, hi := range j.h {
			if c.TimeUp() {
				return
			}
			var h []addOp
			for _, x := range hi {
				h = append(h, ops[x])
			}
			w.Case(fmt.Sprintf("%s %v", j.d.name, h), func(t *core.T) {
				a := c13Run(j.d, h, true, t)
				b := c13Run(j.d, h, false, t)
				if !sameMap(a, b) {
					t.Errorf("ids depend on lookups in between: %v, without: %v", a, b)
				}
				var ks []string
				for k, v := range a {
					ks = append(ks, fmt.Sprintf("%s=%d", k, v))
				}
				sort.Strings(ks)
				t.State(j.d.name + strings.Join(ks, ","))
			})
		}
	})
}

func init() {
	core.Register(&core.Check{
		ID: "C13", Level: "model_checking",
		Rule:        "every history up to the depth bound over 20 operations (adding plain or special tokens singly, several, repeated, empty, already known to the model, differing by case, spaces or composition only; reading the vocabulary and writing to the result; sizes; setting a normalizer; encoding) on 5 vocabularies (contiguous, empty, three with gaps) under 4 models and a unigram model; after every operation all lookups of all tokens and ids, counts, vocabulary and sizes are compared with a plain map model, and the same history is run without lookups in between; 64 to 700 (thorough 1500) tokens added in one call and in tenths, plain, special and mixed",
		Run:         c13,
		Assumptions: []string{"one caller at a time (sharing is C18)", "the model itself does not change during the history"},
	})
}
