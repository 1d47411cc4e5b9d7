package props

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/pretrained"
)

// c22Place is where a model is saved.
type c22Place struct {
	sub  string   // below the scratch directory
	name []string // optional file name prefix
	mk   bool     // make the directory beforehand
}

var c22Places = []c22Place{
	{"", nil, false},
	{"new/deep", nil, false},
	{"made", []string{"es"}, true},
	{"new dir", []string{"a.b c"}, false},
}

func c22Files(t *core.T, dir string) map[string]string {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(dir, p)
			out[rel] = string(b)
		}
		return nil
	})
	if err != nil {
		t.Fatalf("cannot read what was saved: %v", err)
	}
	return out
}

type c22Loader struct {
	name string
	load func(prefix string) (tokenizer.Model, error) // prefix: path of the written files up to their suffix
}

// c22Trip saves a model everywhere, loads it in every way and compares.
func c22Trip(t *core.T, m tokenizer.Model, places []c22Place, suffixes []string, loaders []c22Loader, texts []string, more func(*core.T, string, tokenizer.Model)) {
	root := scratchDir(t)
	defer os.RemoveAll(root)
	vocab := map[string]int{}
	for k, v := range m.GetVocab() {
		vocab[k] = v
	}
	for pi, p := range places {
		dir := filepath.Join(root, fmt.Sprint(pi), p.sub)
		if p.mk {
			os.MkdirAll(dir, 0o755)
		}
		if err := m.Save(dir, p.name...); err != nil {
			t.Errorf("Save(%q, %q): %v", p.sub, p.name, err)
			continue
		}
		t.Op(1)
		files := c22Files(t, dir)
		pre := ""
		if len(p.name) > 0 {
			pre = p.name[0] + "-"
		} else if len(suffixes) == 1 && suffixes[0] == "vocab.json" {
			pre = "tokenizer-" // unigram's default
		}
		for _, s := range suffixes {
			if _, ok := files[pre+s]; !ok || len(files) != len(suffixes) {
				t.Errorf("Save(%q, %q) wrote %v, want %s%v", p.sub, p.name, core.Keys(files), pre, suffixes)
				return
			}
		}
		for _, l := range loaders {
			g, err := l.load(dir + "/" + pre)
			if err != nil {
				t.Errorf("%s: %v\nfiles %q", l.name, err, files)
				continue
			}
			t.Op(1)
			if !reflect.DeepEqual(map[string]int(g.GetVocab()), vocab) {
				t.Errorf("%s: vocabulary %v, saved was %v\nfiles %q", l.name, g.GetVocab(), vocab, files)
			}
			if g.GetVocabSize() != m.GetVocabSize() {
				t.Errorf("%s: vocabulary size %d, saved was %d", l.name, g.GetVocabSize(), m.GetVocabSize())
			}
			for k, v := range vocab {
				i, ok := g.TokenToId(k)
				s, ok2 := g.IdToToken(v)
				s0, _ := m.IdToToken(v)
				if i != v || !ok || s != s0 || !ok2 {
					t.Errorf("%s: token %q id %d: TokenToId %d %v, IdToToken %q %v", l.name, k, v, i, ok, s, ok2)
				}
			}
			if more != nil {
				more(t, l.name, g)
			}
			for _, s := range texts {
				a, ea := m.Tokenize(s)
				b, eb := g.Tokenize(s)
				if (ea == nil) != (eb == nil) || !(len(a) == 0 && len(b) == 0) && !reflect.DeepEqual(a, b) {
					t.Errorf("%s: Tokenize(%q) = %v %v, before saving %v %v\nfiles %q", l.name, s, b, eb, a, ea, files)
				}
				t.Op(1)
			}
			// over the same files and elsewhere
			for _, d := range []string{dir, filepath.Join(root, "again", l.name, fmt.Sprint(pi))} {
				if err := g.Save(d, p.name...); err != nil {
					t.Errorf("saving again: %v", err)
					continue
				}
				if f := c22Files(t, d); !reflect.DeepEqual(f, files) {
					t.Errorf("%s: saved again (%s): %q, first %q", l.name, core.If(d == dir, "same place", "elsewhere"), f, files)
				}
			}
		}
	}
	// shorter files replace longer ones
	{
		dir := filepath.Join(root, "over")
		os.MkdirAll(dir, 0o755)
		if err := m.Save(dir, "x"); err != nil {
			t.Errorf("Save: %v", err)
			return
		}
		want := c22Files(t, dir)
		for f, s := range want {
			os.WriteFile(filepath.Join(dir, f), []byte(s+strings.Repeat("zzz zzz\n", 9)), 0o644)
		}
		if err := m.Save(dir, "x"); err != nil {
			t.Errorf("Save over files: %v", err)
		} else if g := c22Files(t, dir); !reflect.DeepEqual(g, want) {
			t.Errorf("Save over longer files wrote %q, want %q", g, want)
		}
		// a second model of another name leaves the first alone
		if err := m.Save(dir, "y"); err != nil {
			t.Errorf("Save: %v", err)
		}
		g := c22Files(t, dir)
		for f, s := range want {
			if g[f] != s || g["y"+f[1:]] != s {
				t.Errorf("two names in one directory: %q, want %q twice", g, want)
			}
		}
		// every file that cannot be written is an error
		for _, s := range suffixes {
			d := filepath.Join(root, "blocked-"+s)
			os.MkdirAll(filepath.Join(d, "x-"+s, "in the way"), 0o755)
			if err := m.Save(d, "x"); err == nil {
				t.Errorf("Save reports success although %q cannot be written", s)
			}
			t.Op(1)
		}
		os.WriteFile(filepath.Join(root, "plain"), nil, 0o644)
		if err := m.Save(filepath.Join(root, "plain", "sub"), "x"); err == nil {
			t.Errorf("Save reports success although the directory cannot be made")
		}
	}
}

func c22BPE(t *core.T, d *bpeDef, extra map[string]int, places []c22Place, texts []string) {
	build := func(load func(*bpe.BpeBuilder)) (*bpe.BPE, error) {
		b := bpe.NewBpeBuilder()
		load(b)
		if d.hasUnk {
			b.UnkToken(d.unk)
		}
		if d.prefix != "" {
			b.ContinuingSubwordPrefix(d.prefix)
		}
		if d.suffix != "" {
			b.EndOfWordSuffix(d.suffix)
		}
		return b.Build()
	}
	merges := d.mergeMap()
	m, err := build(func(b *bpe.BpeBuilder) {
		v := d.vocab()
		for k, i := range extra {
			v[k] = i
		}
		b.VocabAndMerges(v, d.mergeMap())
	})
	if err != nil {
		t.Fatalf("%v", err)
	}
	loaders := []c22Loader{
		{"Builder.Files", func(p string) (tokenizer.Model, error) {
			return build(func(b *bpe.BpeBuilder) { b.Files(p+"vocab.json", p+"merges.txt") })
		}},
	}
	if d.prefix == "" && d.suffix == "" {
		loaders = append(loaders, c22Loader{"NewBpeFromFiles", func(p string) (tokenizer.Model, error) {
			m, err := bpe.NewBpeFromFiles(p+"vocab.json", p+"merges.txt")
			if err == nil {
				m.UnkToken = ptr(d.unk)
			}
			return m, err
		}}, c22Loader{"FromFiles", func(p string) (tokenizer.Model, error) {
			m0, _ := bpe.DefaultBPE()
			b := m0.FromFiles(p+"vocab.json", p+"merges.txt")
			b.UnkToken(d.unk)
			return b.Build()
		}})
	}
	// the header of the merges is optional and may say more
	for _, head := range []string{"", "#version: 0.2 - Trained by `huggingface/tokenizers`\n"} {
		if _, ok := d.ids["#version"]; ok && head == "" {
			continue
		}
		loaders = append(loaders, c22Loader{fmt.Sprintf("Builder.Files with the header %q", head), func(p string) (tokenizer.Model, error) {
			text, err := os.ReadFile(p + "merges.txt")
			if err != nil {
				return nil, err
			}
			_, rest, ok := strings.Cut(string(text), "\n")
			if !ok || !strings.HasPrefix(string(text), "#version") {
				return nil, fmt.Errorf("merges.txt has no header: %q", text)
			}
			other, err := os.MkdirTemp(filepath.Dir(filepath.Clean(p+"x")), "head")
			if err != nil {
				return nil, err
			}
			defer os.RemoveAll(other)
			if err := os.WriteFile(other+"/m", []byte(head+rest), 0o644); err != nil {
				return nil, err
			}
			return build(func(b *bpe.BpeBuilder) { b.Files(p+"vocab.json", other+"/m") })
		}})
	}
	c22Trip(t, m, places, []string{"vocab.json", "merges.txt"}, loaders, texts, func(t *core.T, l string, g tokenizer.Model) {
		if got := *g.(*bpe.BPE).Merges; !reflect.DeepEqual(got, merges) {
			t.Errorf("%s: merges %v, saved was %v", l, got, merges)
		}
	})
}

func c22Uni(t *core.T, d *uniDef, places []c22Place, texts []string) {
	m, err := d.build(false)
	if err != nil {
		t.Fatalf("%v", err)
	}
	load := func(p string) (tokenizer.Model, error) {
		b, err := os.ReadFile(p + "vocab.json")
		if err != nil {
			return nil, err
		}
		var cfg tokenizer.Config
		if err := json.Unmarshal(b, &cfg.Model); err != nil {
			return nil, err
		}
		return pretrained.CreateModel(&cfg)
	}
	c22Trip(t, m, places, []string{"vocab.json"}, []c22Loader{{"CreateModel", load}}, texts, nil)
}

func c22(c *core.Ctx) {
	type job struct {
		name string
		f    func(t *core.T)
	}
	var jobs []job
	add := func(name string, f func(t *core.T)) { jobs = append(jobs, job{name, f}) }
	one := c22Places[1:2]

	// BPE: all merge lists up to a length, in every order
	nm := core.Pick(c, 3, 4)
	for _, pf := range [][2]string{{"", ""}, {"##", ""}, {"", "</w>"}, {"#", "."}} {
		base := []string{"a", "b"}
		if pf[0] != "" {
			base = append(base, pf[0]+"a", pf[0]+"b")
		}
		if pf[1] != "" {
			base = append(base, pf[0]+"a"+pf[1], "b"+pf[1])
		}
		var rec func(steps [][2]int, n int)
		texts := words([]string{"a", "b", "é"}, 0, core.Pick(c, 4, 5))
		rec = func(steps [][2]int, n int) {
			d := newBpeDef(base, steps, pf[0], pf[1])
			seen := map[[2]int]bool{}
			for _, m := range d.merges {
				if seen[m] {
					return
				}
				seen[m] = true
			}
			s2 := append([][2]int{}, steps...)
			add("bpe "+d.String(), func(t *core.T) {
				d := newBpeDef(base, s2, pf[0], pf[1])
				c22BPE(t, d, nil, one, texts)
			})
			if len(steps) == n {
				return
			}
			for a := range base {
				for b := range base {
					rec(append(steps, [2]int{a, b}), n)
				}
			}
			for k := range steps {
				rec(append(steps, [2]int{len(base) + k, k % len(base)}), n)
				rec(append(steps, [2]int{k % len(base), len(base) + k}), n)
			}
		}
		rec(nil, core.If(len(base) > 2, nm-1, nm))
	}
	// tokens that need care in the files
	odd := []string{"#version", "#", "é", "\"", "\\", "<", "&", "\u2028", "日", "\U0001F600", "{", "\\n", "'", "0"}
	for _, x := range odd {
		for _, y := range append([]string{"a"}, odd...) {
			if x == y {
				continue
			}
			for _, st := range [][][2]int{{{0, 1}}, {{1, 0}}, {{0, 1}, {2, 0}}, {{1, 1}, {0, 2}}} {
				add(fmt.Sprintf("bpe %q %q %v", x, y, st), func(t *core.T) {
					d := newBpeDef([]string{x, y}, st, "", "")
					c22BPE(t, d, map[string]int{"with space": 90, "": 91, "line\nbreak": 92, "tab\t": 99}, c22Places, words([]string{x, y}, 0, 4))
				})
			}
		}
	}
	// vocab.txt models: every ordered choice of tokens
	pool := []string{"[UNK]", "a", "##b", "é", "#", " x", "a b", "", "\"", "b", "##a", "\t", "日"}
	texts := append(words([]string{"a", "b", "é"}, 0, 3), " x", "a b", "#", "\"", "日", "\t", "ab#", "zzzzz")
	nt := core.Pick(c, 3, 4)
	var lists [][]string
	for _, ix := range seqs(len(pool), 0, nt) {
		seen := map[int]bool{}
		dup := false
		var l []string
		for _, i := range ix {
			dup = dup || seen[i]
			seen[i] = true
			l = append(l, pool[i])
		}
		if !dup {
			lists = append(lists, l)
		}
	}
	big := []string{"[PAD]", "[UNK]"}
	for i := 0; i < 300; i++ {
		big = append(big, fmt.Sprintf("t%d", (i*37)%300))
	}
	lists = append(lists, big)
	for at := 0; at < len(lists); at += 8 {
		chunk := lists[at:min(at+8, len(lists))]
		add(fmt.Sprintf("vocab.txt from %q", fmt.Sprint(chunk[0])[:min(60, len(fmt.Sprint(chunk[0])))])+fmt.Sprint(at), func(t *core.T) {
			for _, l := range chunk {
				v := map[string]int{}
				for i, s := range l {
					v[s] = i
				}
				places := c22Places[:2]
				if len(l) > 2 {
					places = c22Places[3:]
				}
				for _, unk := range []string{"[UNK]", "a"} {
					for _, mx := range []int{100, 2} {
						vv := model.Vocab{}
						for k, i := range v {
							vv[k] = i
						}
						m := wordpiece.NewWordPieceBuilder().Vocab(&vv).UnkToken(unk).MaxInputCharsPerWord(mx).Build()
						loaders := []c22Loader{{"NewWordPieceFromFile", func(p string) (tokenizer.Model, error) {
							m, err := wordpiece.NewWordPieceFromFile(p+"vocab.txt", unk, mx)
							return m, err
						}}, {"NewWordPieceBuilderFromFile", func(p string) (tokenizer.Model, error) {
							return wordpiece.NewWordPieceBuilderFromFile(p + "vocab.txt").UnkToken(unk).MaxInputCharsPerWord(mx).Build(), nil
						}}}
						if mx == 100 {
							loaders = append(loaders, c22Loader{"NewWordPieceFromFile/default", func(p string) (tokenizer.Model, error) {
								m, err := wordpiece.NewWordPieceFromFile(p+"vocab.txt", unk)
								return m, err
							}})
						}
						if unk == "a" && mx == 2 {
							continue
						}
						c22Trip(t, m, places, []string{"vocab.txt"}, loaders, texts, nil)
					}
					vl := map[string]int{}
					for k, i := range v {
						vl[k] = i
					}
					wl, err := wordlevel.New(vl, unk)
					if err != nil {
						t.Fatalf("%v", err)
					}
					c22Trip(t, wl, places, []string{"vocab.txt"}, []c22Loader{{"NewWorldLevelFromFile", func(p string) (tokenizer.Model, error) {
						return wordlevel.NewWorldLevelFromFile(p+"vocab.txt", unk)
					}}}, texts, nil)
				}
			}
		})
	}
	// unigram
	scores := []float64{-1, 0, -0.1, 0.1 + 0.2, 1e-7, -1e21, 3, -2.5, math.SmallestNonzeroFloat64, -123456.789012345}
	utoks := []string{"<unk>", "a", "b", "ab", "é", "<0xC3>", "\"", "&", "日本", " "}
	for _, ix := range seqs(len(utoks), 1, core.Pick(c, 3, 4)) {
		seen := map[int]bool{}
		ok := true
		for _, i := range ix {
			ok = ok && !seen[i]
			seen[i] = true
		}
		if !ok {
			continue
		}
		add(fmt.Sprintf("unigram %v", ix), func(t *core.T) {
			for sh := 0; sh < 3; sh++ {
				var v []unigram.TokenScore
				for k, i := range ix {
					v = append(v, unigram.TokenScore{Token: utoks[i], Score: scores[(i+k*3+sh*4)%len(scores)]})
				}
				for _, o := range [][3]int{{-1, 1, 0}, {0, 1, 0}, {0, 0, 0}, {len(ix) - 1, 0, 1}, {-1, 0, 1}} {
					if sh > 0 && o[0] < 0 {
						continue
					}
					d := newUniDef(v, o[0], o[1] == 1, o[2] == 1)
					c22Uni(t, d, c22Places[1+sh:2+sh], append(words([]string{"a", "b", "é"}, 0, 3), "日本", "\"&", "  "))
				}
			}
		})
	}
	// large models, long tokens
	for _, b := range []string{strings.Repeat("b", 4097), strings.Repeat("é", 40000)} {
		for _, st := range [][][2]int{{{0, 1}}, {{1, 0}, {2, 1}}} {
			add(fmt.Sprintf("bpe long tokens %d %v", len(b), st), func(t *core.T) {
				c22BPE(t, newBpeDef([]string{"a", b}, st, "", ""), nil, c22Places[1:3], []string{"a", "ab", "aba"})
			})
		}
	}
	for _, n := range []int{130, 257, 1100} {
		pieces := bigPieces(n)
		texts := bigTexts(pieces, 20)[:24]
		for k, s := range texts {
			r := []rune(s)
			texts[k] = string(r[:min(len(r), 90)])
		}
		for _, flip := range []bool{false, true} {
			add(fmt.Sprintf("large bpe %d %v", n, flip), func(t *core.T) {
				d := bigBpe(n, flip)
				x := lcg(2)
				texts := append([]string{}, texts...)
				for k := 0; k < 20; k++ {
					s := ""
					for i := 0; i < 1+k; i++ {
						s += d.toks[1+x.n(len(d.toks)-1)]
					}
					texts = append(texts, s)
				}
				c22BPE(t, d, nil, c22Places[1:2], texts)
			})
		}
		add(fmt.Sprintf("large vocab.txt %d", n), func(t *core.T) {
			l := append([]string{"[UNK]"}, pieces...)
			for k := 1; k < len(pieces); k += 3 {
				l = append(l, "##"+pieces[k])
			}
			l = append(l, strings.Repeat("long", 5000), "##"+strings.Repeat("é", 40000), "last")
			texts := append([]string{strings.Repeat("long", 20), "last", "lastly"}, texts...)
			v, vl := model.Vocab{}, map[string]int{}
			for k, s := range l {
				v[s], vl[s] = k, k
			}
			m := wordpiece.NewWordPieceBuilder().Vocab(&v).UnkToken("[UNK]").MaxInputCharsPerWord(100).Build()
			c22Trip(t, m, c22Places[1:3], []string{"vocab.txt"}, []c22Loader{{"NewWordPieceFromFile", func(p string) (tokenizer.Model, error) {
				m, err := wordpiece.NewWordPieceFromFile(p+"vocab.txt", "[UNK]", 100)
				return m, err
			}}}, texts, nil)
			wl, err := wordlevel.New(vl, "[UNK]")
			if err != nil {
				t.Fatalf("%v", err)
			}
			c22Trip(t, wl, c22Places[1:3], []string{"vocab.txt"}, []c22Loader{{"NewWorldLevelFromFile", func(p string) (tokenizer.Model, error) {
				return wordlevel.NewWorldLevelFromFile(p+"vocab.txt", "[UNK]")
			}}}, append(l[:60], l[len(l)-3:]...), nil)
		})
		add(fmt.Sprintf("large unigram %d", n), func(t *core.T) {
			v := []unigram.TokenScore{{Token: "<unk>", Score: -40}}
			x := lcg(9)
			for _, s := range pieces {
				v = append(v, unigram.TokenScore{Token: s, Score: -float64(x.n(100000)) / 7777})
			}
			for _, unk := range []int{0, -1} {
				c22Uni(t, newUniDef(v, unk, true, false), c22Places[1:3], texts)
			}
		})
	}
	sort.SliceStable(jobs, func(i, j int) bool { return len(jobs[i].name) < len(jobs[j].name) })
	c.Par(len(jobs), func(w *core.W, i int) {
		if c.TimeUp() {
			return
		}
		w.Case(jobs[i].name, func(t *core.T) {
			jobs[i].f(t)
			t.State(jobs[i].name)
		})
	})
}

func init() {
	core.Register(&core.Check{ID: "C22", Level: "model_checking", Run: c22,
		Rule:        "Every BPE merge list up to the bound over small alphabets (with and without continuing prefix and end-of-word suffix, and with tokens that need care in JSON or merges files), every ordered vocabulary of WordPiece and word-level models up to the bound, every unigram vocabulary up to the bound with its options, and models of 130-1100 entries of up to 300 letters (vocab.txt: up to 80000 bytes), is saved (new, existing and nested directories, with and without a name), loaded in every way the code offers, compared (vocabulary, merges, tokens of every text up to the bound) and saved again; saving over longer files, beside another model and onto every file that cannot be written is tried as well. Trivial cases: empty vocabularies.",
		Assumptions: []string{"Tokens of vocab.txt models are valid UTF-8 without line breaks and ids are contiguous from 0; parts of merges contain no space or line break (the file formats cannot hold more).", "Scores are finite."}})
}
