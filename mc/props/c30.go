package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

// C30: the bundled presets build the documented pipeline from the files that come with
// them, and leave nothing else changed.

func init() {
	core.Register(&core.Check{ID: "C30", Level: "model_checking",
		Rule:        "every preset with every combination of its options against the documented pipeline put together by hand from vocabularies read on their own: on every text up to the length bound over 14 pieces (for the byte-level presets also that decoding gives the text back), with small vocabularies in place of the bundled files; with the bundled files, every entry of the BERT vocabularies and every merge result (quick: each 16th) as a text, and longer texts. Every sequence of presets up to the depth bound, in one process, from two working directories (one with other files under the same relative names): the working directory after every step, and every tokenizer's answers after the last",
		Run:         c30,
		Assumptions: []string{"the vocabularies of the byte-level presets, which do not come with the repository, are put beside the merges in a copy of it", "whether the cased BERT preset strips accents is taken as it is"}})
}

type c30Step struct {
	Dir, Preset string
	Add, Trim   bool
}

func (s c30Step) String() string {
	if strings.HasPrefix(s.Preset, "bert") {
		return s.Preset
	}
	return fmt.Sprintf("%s(%v,%v)", s.Preset, s.Add, s.Trim)
}

type c30Answer struct {
	Plain, Special, Pair string
	Kept, Skipped        string
}

type c30Result struct {
	Cwds    []string
	Sizes   [][2]int
	Answers [][]c30Answer
}

type c30Job struct {
	Steps []c30Step
	Texts []string
}

// c30Files is what the presets read.
type c30Files struct {
	words  map[string][]string    // preset -> lines of its vocabulary
	vocab  map[string]model.Vocab // preset -> ids
	merges map[string][][2]string
}

var c30Names = map[string]string{
	"bert": "bert-base-uncased-vocab.txt", "bertlarge": "bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt",
	"gpt2": "gpt2", "roberta": "roberta-base", "robertasquad": "roberta-base-squad2",
}

var c30Presets = []string{"bert", "bertlarge", "gpt2", "roberta", "robertasquad"}

func c30Small() *c30Files {
	f := &c30Files{map[string][]string{}, map[string]model.Vocab{}, map[string][][2]string{}}
	f.words["bert"] = []string{"[PAD]", "[UNK]", "[CLS]", "[SEP]", "[MASK]", "a", "b", "un", "##a", "##b", "##ab", "##un", "e", "##e", "世", "!", "'", ",", "A", "ab", "é", "#", "abe"}
	f.words["bertlarge"] = []string{"[UNK]", "[SEP]", "A", "a", "##e", "b", "un", "##b", "##a", "##un", "##A", "e", "[CLS]", "世", "'", "!", ",", "Ab", "[MASK]", "#", "ab"}
	sp := string(byteChar(' '))
	e := [2]string{string(byteChar(0xC3)), string(byteChar(0xA9))}
	f.merges["gpt2"] = [][2]string{{sp, "t"}, {"h", "e"}, {sp + "t", "he"}, e, {sp, "a"}, {"a", "b"}, {sp, sp}, {"t", "he"}, {sp + "a", "b"}}
	f.merges["roberta"] = [][2]string{{"h", "e"}, {sp, "a"}, e, {sp, e[0] + e[1]}, {"t", "he"}, {sp, "the"}, {"<", "s"}, {"'", "s"}}
	f.merges["robertasquad"] = [][2]string{{sp, "t"}, e, {"a", "b"}, {"ab", "ab"}, {sp, "1"}}
	for p, m := range f.merges {
		v := model.Vocab{}
		add := func(s string) {
			if _, ok := v[s]; !ok {
				v[s] = len(v)
			}
		}
		if p != "gpt2" {
			for _, s := range []string{"<s>", "<pad>", "</s>", "<unk>"} {
				add(s)
			}
		}
		for b := 0; b < 256; b++ {
			add(string(byteChar(byte(core.If(p == "roberta", 255-b, b)))))
		}
		for _, x := range m {
			add(x[0] + x[1])
		}
		f.vocab[p] = v
	}
	f.number()
	return f
}

func (f *c30Files) number() {
	for p, l := range f.words {
		v := model.Vocab{}
		for i, s := range l {
			v[s] = i
		}
		f.vocab[p] = v
	}
}

// c30Bundled reads the files that come with the repository.
func c30Bundled(dir string) (*c30Files, error) {
	f := &c30Files{map[string][]string{}, map[string]model.Vocab{}, map[string][][2]string{}}
	for p, n := range c30Names {
		bert := strings.HasPrefix(p, "bert")
		b, err := os.ReadFile(filepath.Join(dir, n+core.If(bert, "", "-merges.txt")))
		if err != nil {
			return nil, err
		}
		lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if bert {
			f.words[p] = lines
			continue
		}
		v := model.Vocab{}
		if p != "gpt2" {
			v = model.Vocab{"<s>": 0, "<pad>": 1, "</s>": 2, "<unk>": 3}
		}
		for b := 0; b < 256; b++ {
			v[string(byteChar(byte(b)))] = len(v)
		}
		for i, l := range lines {
			if i == 0 && strings.HasPrefix(l, "#version") || l == "" {
				continue
			}
			x := strings.Split(l, " ")
			if len(x) != 2 {
				return nil, fmt.Errorf("%s line %d: %q", n, i, l)
			}
			f.merges[p] = append(f.merges[p], [2]string{x[0], x[1]})
			if _, ok := v[x[0]+x[1]]; !ok {
				v[x[0]+x[1]] = len(v)
			}
		}
		f.vocab[p] = v
	}
	f.number()
	return f, nil
}

func (f *c30Files) write(dir string) error {
	put := func(n, s string) error { return os.WriteFile(filepath.Join(dir, n), []byte(s), 0644) }
	for p, n := range c30Names {
		if l, ok := f.words[p]; ok {
			if err := put(n, strings.Join(l, "\n")+"\n"); err != nil {
				return err
			}
			continue
		}
		var b strings.Builder
		b.WriteString("#version: 0.2\n")
		for _, m := range f.merges[p] {
			b.WriteString(m[0] + " " + m[1] + "\n")
		}
		v, _ := json.Marshal(f.vocab[p])
		if err := put(n+"-merges.txt", b.String()); err != nil {
			return err
		}
		if err := put(n+"-vocab.json", string(v)); err != nil {
			return err
		}
	}
	return nil
}

// pipe is the documented pipeline.
func (f *c30Files) pipe(s c30Step) (*tokenizer.Tokenizer, error) {
	special := func(tk *tokenizer.Tokenizer, l ...string) {
		for _, x := range l {
			tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken(x, true)})
		}
	}
	v := model.Vocab{}
	for k, id := range f.vocab[s.Preset] {
		v[k] = id
	}
	if strings.HasPrefix(s.Preset, "bert") {
		tk := tokenizer.NewTokenizer(wordpiece.NewWordPieceBuilder().Vocab(&v).UnkToken("[UNK]").Build())
		tk.WithNormalizer(normalizer.NewBertNormalizer(true, s.Preset == "bert", true, true))
		tk.WithPreTokenizer(pretokenizer.NewBertPreTokenizer())
		tk.WithPostProcessor(processor.NewBertProcessing(processor.PostToken{Value: "[SEP]", Id: v["[SEP]"]}, processor.PostToken{Value: "[CLS]", Id: v["[CLS]"]}))
		special(tk, "[MASK]", "[SEP]", "[CLS]")
		tk.WithDecoder(decoder.NewWordPieceDecoder("##", true))
		return tk, nil
	}
	ms := bpe.Merges{}
	for i, m := range f.merges[s.Preset] {
		ms[bpe.Pair{C1: v[m[0]], C2: v[m[1]]}] = bpe.PairVal{Rank: i, NewId: v[m[0]+m[1]]}
	}
	b := bpe.NewBpeBuilder()
	b.VocabAndMerges(v, ms)
	m, err := b.Build()
	if err != nil {
		return nil, err
	}
	tk := tokenizer.NewTokenizer(m)
	bl := pretokenizer.NewByteLevel()
	bl.SetAddPrefixSpace(s.Add)
	bl.SetTrimOffsets(s.Trim)
	tk.WithPreTokenizer(bl)
	tk.WithDecoder(bl)
	if s.Preset == "gpt2" {
		tk.WithPostProcessor(processor.NewByteLevelProcessing(bl))
		return tk, nil
	}
	tk.WithPostProcessor(processor.NewRobertaProcessing(processor.PostToken{Value: "</s>", Id: v["</s>"]}, processor.PostToken{Value: "<s>", Id: v["<s>"]}, s.Trim, s.Add))
	special(tk, "<s>", "</s>")
	return tk, nil
}

func c30Say(tk *tokenizer.Tokenizer, text, next string) (a c30Answer) {
	defer func() {
		if r := recover(); r != nil {
			a.Plain += fmt.Sprintf("panic: %v", r)
		}
	}()
	enc := func(e *tokenizer.Encoding, err error) string {
		if err != nil {
			return "error: " + err.Error()
		}
		return snap(e)
	}
	a.Plain = enc(tk.EncodeSingle(text))
	e, err := tk.EncodeSingle(text, true)
	a.Special = enc(e, err)
	a.Pair = enc(tk.EncodePair(text, next, true))
	if err == nil {
		a.Kept, a.Skipped = tk.Decode(e.Ids, false), tk.Decode(e.Ids, true)
	}
	return a
}

// c30Copy copies the library's sources, with the given files for the presets, and
// builds the program that loads them there.
func c30Copy(dir string, small *c30Files) (bin, models string, err error) {
	src := os.Getenv("VERIF_SRC")
	if src == "" {
		return "", "", fmt.Errorf("VERIF_SRC is not set")
	}
	sh := func(in string, a ...string) (string, error) {
		cmd := exec.Command(a[0], a[1:]...)
		cmd.Dir = in
		o, err := cmd.CombinedOutput()
		if err != nil {
			return "", fmt.Errorf("%v: %v\n%s", a, err, o)
		}
		return strings.TrimSpace(string(o)), nil
	}
	repo, err := sh(src, "go", "list", "-m", "-f", "{{.Dir}}", "github.com/sugarme/tokenizer")
	if err != nil {
		return "", "", err
	}
	to := filepath.Join(dir, "repo")
	models = filepath.Join(to, "pretrained", "model")
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if fi.Name() == ".git" || fi.Name() == "example" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(to, rel), 0755)
		}
		if !fi.Mode().IsRegular() || strings.HasSuffix(p, "_test.go") || fi.Size() > 1<<24 {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0644)
	})
	if err != nil {
		return "", "", err
	}
	if small == nil {
		if small, err = c30Bundled(models); err != nil {
			return "", "", err
		}
	}
	if err := small.write(models); err != nil {
		return "", "", err
	}
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		return "", "", err
	}
	mod := strings.Replace(string(b), "=> "+repo, "=> "+to, 1)
	if mod == string(b) {
		return "", "", fmt.Errorf("no %s in go.mod", repo)
	}
	sum, err := os.ReadFile(filepath.Join(src, "go.sum"))
	if err != nil {
		return "", "", err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte(mod), 0644); err != nil {
		return "", "", err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0644); err != nil {
		return "", "", err
	}
	bin = filepath.Join(dir, "c30child")
	_, err = sh(src, "go", "build", "-modfile", filepath.Join(dir, "go.mod"), "-tags", "verifoverlay", "-o", bin, "./c30child")
	return bin, models, err
}

func c30Run(t *core.T, bin, cwd string, jobs []c30Job) []c30Result {
	var in bytes.Buffer
	en := json.NewEncoder(&in)
	en.SetEscapeHTML(false)
	for _, j := range jobs {
		en.Encode(j)
	}
	cmd := exec.Command(bin)
	cmd.Dir = cwd
	cmd.Env = []string{"HOME=" + cwd, "GO_TOKENIZER=" + cwd, "TMPDIR=" + cwd, "PWD=" + cwd, "GOMAXPROCS=1"}
	cmd.Stdin = &in
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	tm := time.AfterFunc(300*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !tm.Stop() {
		t.Fatalf("the presets do not come to an end")
	}
	var out []c30Result
	de := json.NewDecoder(&so)
	for {
		var r c30Result
		if de.Decode(&r) != nil {
			break
		}
		out = append(out, r)
	}
	if err != nil || len(out) != len(jobs) {
		what := ""
		if len(out) < len(jobs) {
			what = fmt.Sprint(jobs[len(out)].Steps)
		}
		t.Fatalf("loading the presets %s ended the program (%v): %s", what, err, cut(schedTail(se.String()), 300))
	}
	return out
}

func c30(c *core.Ctx) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c30-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var steps []c30Step
	for _, p := range c30Presets {
		if strings.HasPrefix(p, "bert") {
			steps = append(steps, c30Step{Preset: p})
			continue
		}
		for _, a := range []bool{false, true} {
			for _, tr := range []bool{false, true} {
				steps = append(steps, c30Step{Preset: p, Add: a, Trim: tr})
			}
		}
	}
	small := c30Small()
	type place struct {
		bin, cwd string
		files    *c30Files
	}
	var ps [2]place
	for i := range ps {
		d := filepath.Join(dir, fmt.Sprint(i))
		cwd := filepath.Join(d, "cwd")
		if err := os.MkdirAll(filepath.Join(cwd, "model"), 0755); err != nil {
			panic(err)
		}
		bin, models, err := c30Copy(d, core.If(i == 0, small, nil))
		if err != nil {
			panic(err)
		}
		f := small
		if i == 1 {
			if f, err = c30Bundled(models); err != nil {
				panic(err)
			}
		}
		ps[i] = place{bin, cwd, f}
	}
	// other files under the relative names the presets use for theirs
	decoy := c30Small()
	for p, l := range decoy.words {
		for i := range l {
			j := (i*7 + 3) % len(l)
			l[i], l[j] = l[j], l[i]
		}
		decoy.words[p] = l
	}
	for p := range decoy.merges {
		decoy.merges[p] = decoy.merges[p][:1]
	}
	if err := decoy.write(filepath.Join(ps[0].cwd, "model")); err != nil {
		panic(err)
	}
	check := func(t *core.T, f *c30Files, s c30Step, texts []string, got []c30Answer, sizes [2]int) {
		tk, err := f.pipe(s)
		if err != nil {
			t.Fatalf("%v: %v", s, err)
		}
		if want := [2]int{tk.GetVocabSize(true), tk.GetVocabSize(false)}; sizes != want {
			t.Errorf("%v: vocabulary sizes %v, want %v", s, sizes, want)
		}
		for i, text := range texts {
			want := c30Say(tk, text, texts[(i+1)%len(texts)])
			if got[i] != want {
				w, g := want, got[i]
				for _, x := range [][3]string{{"encoding", w.Plain, g.Plain}, {"encoding with special tokens", w.Special, g.Special}, {"pair", w.Pair, g.Pair}, {"decoding", w.Kept, g.Kept}, {"decoding without special tokens", w.Skipped, g.Skipped}} {
					if x[1] != x[2] {
						t.Fatalf("%v: %s of %q gives %s, want %s", s, x[0], text, cut(x[2], 400), cut(x[1], 400))
					}
				}
			}
			if !strings.HasPrefix(s.Preset, "bert") && !strings.Contains(text, "s>") && text != "" {
				if w := core.If(s.Add && text[0] != ' ', " ", "") + text; got[i].Skipped != w {
					t.Fatalf("%v: %q decodes to %q, want %q", s, text, got[i].Skipped, w)
				}
			}
			t.State(s.String() + got[i].Special)
		}
		t.Op(5 * len(texts))
	}
	// texts on the small files
	bertTexts := words([]string{"a", "b", "un", "é", "世", " ", "\t", "##", "'", "A", "[MASK]", "[SEP]", "e\u0301", "!"}, 0, core.Pick(c, 3, 4))
	blTexts := words([]string{"a", "b", "the", " t", " ", "  ", "é", "世", "<s>", "</s>", "\n", "'s", "1", "😀"}, 0, core.Pick(c, 3, 4))
	const chunk = 400
	type job struct {
		s     c30Step
		p     int
		texts []string
	}
	var jobs []job
	split := func(p int, s c30Step, texts []string, size int) {
		for i := 0; i < len(texts); i += size {
			jobs = append(jobs, job{s, p, texts[i:min(i+size, len(texts))]})
		}
	}
	longBl := []string{"Hello world, it's a nice day!", " two  spaces   three", "naïve café 日本語 😀", "line\nbreak\ttab", "don't we'll I'm you've", "1234 5678", "...?!", "ﬁ ½ ²"}
	longBert := append([]string{"A man, a plan; a canal: Panama", "unaffable embeddings", "HELLO World", "[CLS] a [SEP]", "naïve CAFÉ", "日本語 テスト", "a\u0000b\u200bc", strings.Repeat("a", 120)}, longBl...)
	for _, s := range steps {
		bert := strings.HasPrefix(s.Preset, "bert")
		split(0, s, core.If(bert, bertTexts, blTexts), chunk)
		if bert {
			var l []string
			for _, w := range ps[1].files.words[s.Preset] {
				l = append(l, strings.TrimPrefix(w, "##"))
			}
			split(1, s, append(l, longBert...), 4000)
			continue
		}
		var l []string
		every := core.Pick(c, 16, 1)
		for i, m := range ps[1].files.merges[s.Preset] {
			if i%every == 0 {
				var b []byte
				for _, r := range m[0] + m[1] {
					for x := 0; x < 256; x++ {
						if byteChar(byte(x)) == r {
							b = append(b, byte(x))
						}
					}
				}
				if t := strings.ToValidUTF8(string(b), ""); t != "" {
					l = append(l, t)
				}
			}
		}
		split(1, s, append(l, longBl...), 4000)
	}
	c.Par(len(jobs), func(w *core.W, i int) {
		j := jobs[i]
		w.Case(fmt.Sprintf("%v files %d texts from %q", j.s, j.p, j.texts[0]), func(t *core.T) {
			r := c30Run(t, ps[j.p].bin, ps[j.p].cwd, []c30Job{{[]c30Step{j.s}, j.texts}})[0]
			check(t, ps[j.p].files, j.s, j.texts, r.Answers[0], r.Sizes[0])
		})
	})
	// histories
	other := filepath.Join(dir, "other")
	if err := os.MkdirAll(other, 0755); err != nil {
		panic(err)
	}
	probes := []string{"the ab é", "A un[MASK]", " t</s>b"}
	alone := map[string][]c30Answer{}
	sizes := map[string][2]int{}
	for _, s := range steps {
		tk, err := small.pipe(s)
		if err != nil {
			panic(err)
		}
		for i, x := range probes {
			alone[s.String()] = append(alone[s.String()], c30Say(tk, x, probes[(i+1)%len(probes)]))
		}
		sizes[s.String()] = [2]int{tk.GetVocabSize(true), tk.GetVocabSize(false)}
	}
	few := []c30Step{steps[0], steps[1], steps[3], steps[6], steps[10]}
	var hist [][]c30Step
	var walk func(h []c30Step, al []c30Step, n int)
	walk = func(h []c30Step, al []c30Step, n int) {
		if n == 0 {
			return
		}
		for _, s := range al {
			for _, d := range []string{"", ps[0].cwd, other} {
				if len(h) == 0 && d == "" {
					continue
				}
				s := s
				s.Dir = d
				x := append(append([]c30Step{}, h...), s)
				hist = append(hist, x)
				walk(x, al, n-1)
			}
		}
	}
	walk(nil, steps, 2)
	walk(nil, few, core.Pick(c, 3, 4))
	const per = 150
	c.Par((len(hist)+per-1)/per, func(w *core.W, i int) {
		hs := hist[i*per : min((i+1)*per, len(hist))]
		w.Case(fmt.Sprintf("histories from %v", i*per), func(t *core.T) {
			var js []c30Job
			for _, h := range hs {
				js = append(js, c30Job{h, probes})
			}
			for k, r := range c30Run(t, ps[0].bin, ps[0].cwd, js) {
				cwd := ""
				for n, s := range hs[k] {
					if s.Dir != "" {
						cwd = s.Dir
					}
					if r.Cwds[n] != cwd {
						t.Fatalf("%v: the working directory is %s after step %d, want %s", hs[k], strings.TrimPrefix(r.Cwds[n], dir), n, strings.TrimPrefix(cwd, dir))
					}
					if r.Sizes[n] != sizes[s.String()] {
						t.Fatalf("%v: %v has vocabulary sizes %v, want %v", hs[k], s, r.Sizes[n], sizes[s.String()])
					}
					for m := range probes {
						if r.Answers[n][m] != alone[s.String()][m] {
							t.Fatalf("%v: %v answers %+v on %q, want %+v", hs[k], s, r.Answers[n][m], probes[m], alone[s.String()][m])
						}
					}
				}
				t.State(fmt.Sprint(hs[k]))
				t.Op(len(hs[k]))
			}
		})
	})
}
