package props

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/util"
)

type uniDef struct {
	vocab    []unigram.TokenScore
	ids      map[string]int
	unk      int // -1 none
	fuse     bool
	fallback bool
	min      float64
}

func newUniDef(v []unigram.TokenScore, unk int, fuse, fallback bool) *uniDef {
	d := &uniDef{vocab: v, ids: map[string]int{}, unk: unk, fuse: fuse, fallback: fallback, min: math.Inf(1)}
	for i, t := range v {
		d.ids[t.Token] = i
		d.min = math.Min(d.min, t.Score)
	}
	return d
}

func (d *uniDef) build(viaParams bool) (*unigram.Unigram, error) {
	if viaParams {
		m := map[string]interface{}{"fuse_unk": d.fuse, "byte_fallback": d.fallback}
		if d.unk >= 0 {
			m["unk_id"] = d.unk
		}
		return unigram.New(d.vocab, util.NewParams(m))
	}
	b := unigram.NewUnigramBuilder().Vocab(d.vocab).FuseUnk(d.fuse).BytesFallback(d.fallback)
	if d.unk >= 0 {
		b = b.UnkID(d.unk)
	}
	return b.Build()
}

func (d *uniDef) known(p string) (float64, bool) {
	id, ok := d.ids[p]
	if !ok {
		return 0, false
	}
	return d.vocab[id].Score + 0.1*float64(len(p)), true
}

// best enumerates every segmentation of s into known pieces and unknown characters.
func (d *uniDef) best(s string) float64 {
	if s == "" {
		return 0
	}
	b := math.Inf(-1)
	_, cl := utf8.DecodeRuneInString(s)
	if _, ok := d.known(s[:cl]); !ok && (d.unk >= 0 || d.fallback) {
		b = d.min - 10 + d.best(s[cl:])
	}
	for e := 1; e <= len(s); e++ {
		if sc, ok := d.known(s[:e]); ok {
			b = math.Max(b, sc+d.best(s[e:]))
		}
	}
	return b
}

// bestDP is the same by dynamic programming, for long texts.
func (d *uniDef) bestDP(s string) float64 {
	n := len(s)
	f := make([]float64, n+1)
	for i := n - 1; i >= 0; i-- {
		f[i] = math.Inf(-1)
		if !utf8.RuneStart(s[i]) {
			continue
		}
		_, cl := utf8.DecodeRuneInString(s[i:])
		if _, ok := d.known(s[i : i+cl]); !ok && (d.unk >= 0 || d.fallback) {
			f[i] = d.min - 10 + f[i+cl]
		}
		for tok := range d.ids {
			if tok != "" && strings.HasPrefix(s[i:], tok) {
				sc, _ := d.known(tok)
				f[i] = math.Max(f[i], sc+f[i+len(tok)])
			}
		}
	}
	return f[0]
}

// pieceScore is the best score a returned piece can stand for.
func (d *uniDef) pieceScore(p string) float64 {
	b := math.Inf(-1)
	if sc, ok := d.known(p); ok {
		b = sc
	}
	if utf8.RuneCountInString(p) > 1 && !d.fuse {
		return b
	}
	// a run of unknown characters (and of the unknown token's own text when fused)
	ut := ""
	if d.unk >= 0 && d.fuse {
		ut = d.vocab[d.unk].Token
	}
	var run func(s string) float64
	run = func(s string) float64 {
		if s == "" {
			return 0
		}
		r := math.Inf(-1)
		if ut != "" && strings.HasPrefix(s, ut) {
			sc, _ := d.known(ut)
			r = sc + run(s[len(ut):])
		}
		_, cl := utf8.DecodeRuneInString(s)
		if _, ok := d.known(s[:cl]); !ok {
			r = math.Max(r, d.min-10+run(s[cl:]))
		}
		return r
	}
	return math.Max(b, run(p))
}

func (d *uniDef) check(t *core.T, s string, toks []tokenizer.Token, err error) {
	want := math.Inf(-1)
	if len(s) <= 14 {
		want = d.best(s)
	} else {
		want = d.bestDP(s)
	}
	if math.IsInf(want, -1) {
		if err == nil {
			t.Fatalf("no segmentation exists but got %+v", toks)
		}
		return
	}
	if err != nil {
		t.Fatalf("error %v", err)
	}
	pos, total := 0, 0.0
	prevUnk := false
	for i := 0; i < len(toks); {
		k := toks[i]
		if len(k.Offsets) != 2 || k.Offsets[0] != pos || k.Offsets[1] <= pos || k.Offsets[1] > len(s) {
			t.Fatalf("token %d %+v does not continue at %d of %q (all %+v)", i, k, pos, s, toks)
		}
		p := s[pos:k.Offsets[1]]
		_, isKnown := d.known(p)
		if !isKnown && d.fallback {
			// one token per byte of the character
			if utf8.RuneCountInString(p) != 1 {
				t.Fatalf("fallback tokens over %q", p)
			}
			for b := 0; b < len(p); b++ {
				bt := fmt.Sprintf("<0x%02X>", p[b])
				id, ok := d.ids[bt]
				if !ok {
					if d.unk < 0 {
						continue
					}
					id, bt = d.unk, d.vocab[d.unk].Token
				}
				if i >= len(toks) || toks[i].Id != id || toks[i].Value != bt || !eqInts(toks[i].Offsets, []int{pos, pos + len(p)}) {
					t.Fatalf("byte %d of %q: got %+v want %s", b, p, toks, bt)
				}
				i++
			}
			total += d.min - 10
			prevUnk = false
			pos += len(p)
			continue
		}
		wantID := d.unk
		if isKnown {
			wantID = d.ids[p]
		}
		if k.Id != wantID || k.Value != p {
			t.Fatalf("token %+v over %q, want id %d", k, p, wantID)
		}
		unk := k.Id == d.unk
		if unk && d.fuse && prevUnk {
			t.Fatalf("unknown pieces not fused: %+v", toks)
		}
		prevUnk = unk
		sc := d.pieceScore(p)
		if math.IsInf(sc, -1) {
			t.Fatalf("piece %q is neither known nor unknown", p)
		}
		total += sc
		pos += len(p)
		i++
	}
	if pos != len(s) {
		t.Fatalf("tokens end at %d of %q: %+v", pos, s, toks)
	}
	if total < want-1e-6 {
		t.Fatalf("score %v, best is %v: %+v", total, want, toks)
	}
}

// c12Big: vocabularies of hundreds of pieces, long texts, and their beginnings and ends
// afterwards on the same model.
func c12Big(c *core.Ctx) {
	sizes := core.Pick(c, []int{130, 300, 1100}, []int{130, 256, 300, 1100, 2500})
	c.Par(4*len(sizes), func(w *core.W, i int) {
		n, fuse, fb := sizes[i/4], i&1 == 1, i&2 == 2
		pieces := bigPieces(n)
		x := lcg(5)
		v := []unigram.TokenScore{{Token: "<unk>", Score: -40}}
		for _, p := range pieces {
			v = append(v, unigram.TokenScore{Token: p, Score: -float64(x.n(4000)) / 128})
		}
		if fb {
			for b := 0; b < 256; b++ {
				v = append(v, unigram.TokenScore{Token: fmt.Sprintf("<0x%02X>", b), Score: -45})
			}
		}
		d := newUniDef(v, 0, fuse, fb)
		m, err := d.build(i%2 == 0)
		for _, s := range bigTexts(pieces, core.Pick(c, 40, 200)) {
			name := s
			if len(name) > 100 {
				name = fmt.Sprintf("%d bytes %s", len(s), name[:90])
			}
			w.Case(fmt.Sprintf("%d pieces fuse=%v fallback=%v text=%q", n, fuse, fb, name), func(t *core.T) {
				if err != nil {
					t.Fatalf("%v", err)
				}
				toks, err := m.Tokenize(s)
				d.check(t, s, toks, err)
				again, err2 := m.Tokenize(s)
				if fmt.Sprint(toks, err) != fmt.Sprint(again, err2) {
					t.Fatalf("second call differs: %v then %v", toks, again)
				}
				t.Op(2)
				if n == 130 {
					for _, e := range prefixes(s) {
						toks, err := m.Tokenize(e)
						d.check(t, e, toks, err)
						t.Op(1)
					}
				}
				t.State(fmt.Sprint(i, toks))
			})
		}
	})
}

func c12(c *core.Ctx) {
	c12Big(c)
	pieces := []string{"a", "é", "aé", "éa", "aa", "aéa"}
	scores := []float64{-3, -1, 0.5}
	texts := words([]string{"a", "é", "x"}, 0, core.Pick(c, 5, 6))
	long := []string{}
	for _, n := range []int{10, 19, 20, 21, 22, 30, 41, 64, 100} {
		long = append(long, strings.Repeat("a", n), strings.Repeat("aé", n), strings.Repeat("aéx", n), strings.Repeat("é", n)+"x"+strings.Repeat("a", n))
	}
	type job struct {
		v        []unigram.TokenScore
		unk      int
		fuse, fb bool
	}
	var jobs []job
	// every assignment of absent / score to the pieces
	n := 1
	for range pieces {
		n *= len(scores) + 1
	}
	for m := 0; m < n; m++ {
		v := []unigram.TokenScore{{Token: "<unk>", Score: -2}}
		k := m
		for _, p := range pieces {
			if d := k % (len(scores) + 1); d > 0 {
				v = append(v, unigram.TokenScore{Token: p, Score: scores[d-1]})
			}
			k /= len(scores) + 1
		}
		if !c.Thorough() && m%3 != 0 && m > 300 {
			// quick: two absent/score levels for the last pieces
			continue
		}
		jobs = append(jobs, job{v, 0, true, false}, job{v, 0, false, false})
		if m%4 == 0 || c.Thorough() {
			jobs = append(jobs, job{v, -1, true, false})
			fv := append(append([]unigram.TokenScore{}, v...), unigram.TokenScore{Token: "<0xC3>", Score: -6}, unigram.TokenScore{Token: "<0xA9>", Score: -6}, unigram.TokenScore{Token: "<0x78>", Score: -6})
			fv2 := fv[:len(fv)-1]
			all := append([]unigram.TokenScore{}, v...)
			for _, b := range []string{"61", "C3", "A9", "78", "E6", "97", "A5", "9C", "AC", "F0", "9F", "98", "80"} {
				all = append(all, unigram.TokenScore{Token: "<0x" + b + ">", Score: -6})
			}
			jobs = append(jobs, job{fv, 0, true, true}, job{fv, 0, false, true}, job{fv2, 0, true, true}, job{all, -1, true, true}, job{all, -1, false, true})
		}
	}
	// special shapes: long entries, positive minimum, unknown id elsewhere, the unknown token's text
	lv := []unigram.TokenScore{{Token: "a", Score: -1}, {Token: "é", Score: -1}, {Token: strings.Repeat("a", 19), Score: 3}, {Token: strings.Repeat("a", 20), Score: 2}, {Token: strings.Repeat("a", 21), Score: 1}, {Token: strings.Repeat("é", 15), Score: 4}, {Token: "<u>", Score: -9}, {Token: strings.Repeat("aé", 30), Score: 9}}
	jobs = append(jobs, job{lv, 6, true, false}, job{lv, 6, false, false}, job{lv, -1, false, false})
	pv := []unigram.TokenScore{{Token: "a", Score: 31}, {Token: "x", Score: 30}, {Token: "éé", Score: 30}, {Token: "<unk>", Score: 35}}
	jobs = append(jobs, job{pv, 3, true, false}, job{pv, 3, false, false})
	texts2 := append(append([]string{}, texts...), "<unk>", "a<unk>", "<unk>x", "x<unk>é", "<unk><unk>", "日本", "日a本", "😀a", "é日x")
	c.Count("vocabularies", int64(len(jobs)))
	c.Par(len(jobs), func(w *core.W, i int) {
		j := jobs[i]
		d := newUniDef(j.v, j.unk, j.fuse, j.fb)
		m, err := d.build(i%2 == 0)
		ts := texts2
		if j.fb {
			ts = append(append([]string{}, texts...), "日本", "日a本", "😀a", "é日x")
		}
		if i%16 == 0 || len(jobs)-i < 8 {
			ts = append(append([]string{}, ts...), long...)
		}
		for _, s := range ts {
			w.Case(fmt.Sprintf("vocab=%v unk=%d fuse=%v fallback=%v text=%q", j.v, j.unk, j.fuse, j.fb, s), func(t *core.T) {
				if err != nil {
					t.Fatalf("%v", err)
				}
				toks, err := m.Tokenize(s)
				d.check(t, s, toks, err)
				again, err2 := m.Tokenize(s)
				if fmt.Sprint(toks, err) != fmt.Sprint(again, err2) {
					t.Fatalf("second call differs: %v then %v", toks, again)
				}
				t.Op(2)
				t.State(fmt.Sprint(i, toks))
			})
		}
	})
	// texts that differ in what a cache may overlook
	fam := cousins(true)
	all := []unigram.TokenScore{{Token: "<unk>", Score: -2}}
	for i, l := range lettersOf(fam) {
		all = append(all, unigram.TokenScore{Token: l, Score: -1 - float64(i)/100})
	}
	all = append(all, unigram.TokenScore{Token: "ab", Score: -1}, unigram.TokenScore{Token: "é1", Score: -1})
	for _, d := range []*uniDef{newUniDef(all, 0, true, false), newUniDef(all, 0, false, true), newUniDef(all[:9], 0, true, true), newUniDef(all[:9], -1, false, false)} {
		c.Seq().Case(fmt.Sprintf("cousins/%d/%d/%v", len(d.vocab), d.unk, d.fuse), func(t *core.T) {
			forgets(t, fam, func() func(string) string {
				m, err := d.build(false)
				if err != nil {
					t.Fatalf("%v", err)
				}
				return func(s string) string {
					toks, err := m.Tokenize(s)
					return fmt.Sprint(toks, err)
				}
			})
			t.State(fmt.Sprint("cousins", len(d.vocab), d.unk, d.fuse))
		})
	}
	// histories: the answer does not depend on what was tokenized before
	hv := []unigram.TokenScore{{Token: "<unk>", Score: -2}, {Token: "a", Score: -1}, {Token: "aé", Score: -1.5}, {Token: "éa", Score: -1}, {Token: "<0xC3>", Score: -3}}
	ht := []string{"aé", "aéa", "x", "aéx", "", "xa"}
	hs := seqs(len(ht), 1, core.Pick(c, 5, 6))
	for _, fb := range []bool{false, true} {
		for _, fuse := range []bool{false, true} {
			d := newUniDef(hv, 0, fuse, fb)
			fresh := map[string]string{}
			for _, s := range ht {
				m, _ := d.build(false)
				toks, err := m.Tokenize(s)
				fresh[s] = fmt.Sprint(toks, err)
			}
			c.Par(len(hs), func(w *core.W, i int) {
				var h []string
				for _, k := range hs[i] {
					h = append(h, ht[k])
				}
				w.Case(fmt.Sprintf("history fuse=%v fallback=%v %s", fuse, fb, js(h)), func(t *core.T) {
					m, err := d.build(false)
					if err != nil {
						t.Fatalf("%v", err)
					}
					var prev []tokenizer.Token
					for _, s := range h {
						toks, err := m.Tokenize(s)
						t.Op(1)
						if g := fmt.Sprint(toks, err); g != fresh[s] {
							t.Fatalf("%q: got %s, fresh model gives %s", s, g, fresh[s])
						}
						// a caller may do what it likes with what it got
						for k := range toks {
							toks[k].Offsets[0] = 99
							toks[k].Id = 77
						}
						prev = toks
					}
					_ = prev
					t.State(fmt.Sprint("h", fuse, fb, h))
				})
			})
		}
	}
}

func init() {
	core.Register(&core.Check{ID: "C12", Level: "model_checking", Run: c12,
		Rule:        "every assignment of {absent, three scores} to six pieces (quick: a fixed third of them) x every text up to the bound plus long periodic texts x unknown/fuse/byte-fallback options; every history of repeated texts up to the bound; vocabularies of 130-1100 pieces of up to 300 letters on texts of up to 260 pieces, each followed by its beginnings and ends; optimum by enumerating all segmentations (by dynamic programming for texts over 14 bytes); state = distinct (vocabulary, token sequence)",
		Assumptions: []string{"texts are valid UTF-8", "scoring rule as documented in the code: piece score plus a bonus of 0.1 per byte, unknown character = minimum score - 10"}})
}
