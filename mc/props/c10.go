package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
)

// ---- reference BPE: repeatedly merge the leftmost pair of lowest rank ----

type bpeDef struct {
	toks   []string // id -> token
	ids    map[string]int
	merges [][2]int // rank order
	newID  []int
	unk    string
	hasUnk bool
	prefix string
	suffix string
}

type bpeSym struct{ id, n int }

func (d *bpeDef) initial(w string) []bpeSym {
	var syms []bpeSym
	n := utf8.RuneCountInString(w)
	i := 0
	for _, r := range w {
		s := string(r)
		if i > 0 {
			s = d.prefix + s
		}
		if i == n-1 {
			s = s + d.suffix
		}
		id, ok := d.ids[s]
		if !ok {
			id = d.ids[d.unk]
		}
		syms = append(syms, bpeSym{id, utf8.RuneLen(r)})
		i++
	}
	return syms
}

func (d *bpeDef) ref(w string) []bpeSym {
	syms := d.initial(w)
	for {
		best, at := -1, -1
		for i := 0; i+1 < len(syms); i++ {
			for r, m := range d.merges {
				if m[0] == syms[i].id && m[1] == syms[i+1].id {
					if best < 0 || r < best {
						best, at = r, i
					}
					break
				}
			}
		}
		if best < 0 {
			return syms
		}
		ns := append([]bpeSym{}, syms[:at]...)
		ns = append(ns, bpeSym{d.newID[best], syms[at].n + syms[at+1].n})
		syms = append(ns, syms[at+2:]...)
	}
}

func (d *bpeDef) mergeMap() bpe.Merges {
	m := bpe.Merges{}
	for r, p := range d.merges {
		m[bpe.Pair{C1: p[0], C2: p[1]}] = bpe.PairVal{Rank: r, NewId: d.newID[r]}
	}
	return m
}

func (d *bpeDef) vocab() model.Vocab {
	v := model.Vocab{}
	for k, i := range d.ids {
		v[k] = i
	}
	return v
}

func (d *bpeDef) build(cache int, dropout *float32) (*bpe.BPE, error) {
	b := bpe.NewBpeBuilder()
	b.VocabAndMerges(d.vocab(), d.mergeMap())
	b.CacheCapacity(cache)
	if d.hasUnk {
		b.UnkToken(d.unk)
	}
	if d.prefix != "" {
		b.ContinuingSubwordPrefix(d.prefix)
	}
	if d.suffix != "" {
		b.EndOfWordSuffix(d.suffix)
	}
	if dropout != nil {
		b.Dropout(*dropout)
	}
	return b.Build()
}

func (d *bpeDef) String() string {
	var s []string
	for _, m := range d.merges {
		s = append(s, d.toks[m[0]]+"+"+d.toks[m[1]])
	}
	o := strings.Join(s, ",")
	if d.prefix != "" || d.suffix != "" {
		o += " pre=" + d.prefix + " suf=" + d.suffix
	}
	return o
}

// newBpeDef builds a definition from base tokens and merges given as token index pairs
// over the growing list of tokens (base, then merge results).
func newBpeDef(base []string, steps [][2]int, prefix, suffix string) *bpeDef {
	d := &bpeDef{ids: map[string]int{}, prefix: prefix, suffix: suffix, unk: "<u>", hasUnk: true}
	add := func(t string) int {
		if i, ok := d.ids[t]; ok {
			return i
		}
		d.ids[t] = len(d.toks)
		d.toks = append(d.toks, t)
		return d.ids[t]
	}
	add("<u>")
	var items []int
	for _, b := range base {
		items = append(items, add(b))
	}
	for _, s := range steps {
		a, b := items[s[0]], items[s[1]]
		tb := strings.TrimPrefix(d.toks[b], prefix)
		n := add(d.toks[a] + tb)
		d.merges = append(d.merges, [2]int{a, b})
		d.newID = append(d.newID, n)
		items = append(items, n)
	}
	return d
}

func (d *bpeDef) permuted(p []int) *bpeDef {
	e := *d
	e.merges, e.newID = nil, nil
	for _, i := range p {
		e.merges = append(e.merges, d.merges[i])
		e.newID = append(e.newID, d.newID[i])
	}
	return &e
}

// mergeLists enumerates all lists of n distinct merges over the growing token set.
func mergeLists(base, n int) [][][2]int {
	out := [][][2]int{{}}
	for k := 0; k < n; k++ {
		var next [][][2]int
		m := base + k
		for _, l := range out {
			for a := 0; a < m; a++ {
				for b := 0; b < m; b++ {
					dup := false
					for _, x := range l {
						if x == [2]int{a, b} {
							dup = true
						}
					}
					if dup {
						continue
					}
					next = append(next, append(append([][2]int{}, l...), [2]int{a, b}))
				}
			}
		}
		out = next
	}
	return out
}

func dedupBpe(d *bpeDef) bool {
	// two merges of the same id pair (possible when results coincide) are not a valid list
	seen := map[[2]int]bool{}
	for _, m := range d.merges {
		if seen[m] {
			return false
		}
		seen[m] = true
	}
	return true
}

func checkTiles(t *core.T, w string, toks []tokenizer.Token) {
	pos := 0
	for i, tk := range toks {
		if len(tk.Offsets) != 2 || tk.Offsets[0] != pos || tk.Offsets[1] <= pos || tk.Offsets[1] > len(w) || !(tk.Offsets[1] == len(w) || utf8.RuneStart(w[tk.Offsets[1]])) {
			t.Fatalf("token %d %+v does not continue at %d of %q", i, tk, pos, w)
		}
		pos = tk.Offsets[1]
	}
	if pos != len(w) {
		t.Fatalf("tokens end at %d of %d", pos, len(w))
	}
}

func bpeCompare(t *core.T, d *bpeDef, w string, toks []tokenizer.Token, what string) {
	want := d.ref(w)
	if len(want) != len(toks) {
		t.Fatalf("%s: got %v want %v", what, toks, d.show(want))
	}
	pos := 0
	for i, s := range want {
		k := toks[i]
		if k.Id != s.id || k.Value != d.toks[s.id] || len(k.Offsets) != 2 || k.Offsets[0] != pos || k.Offsets[1] != pos+s.n {
			t.Fatalf("%s: token %d got %+v want %v@%d-%d (all %v)", what, i, k, d.toks[s.id], pos, pos+s.n, d.show(want))
		}
		pos += s.n
	}
}

func (d *bpeDef) show(s []bpeSym) []string {
	var o []string
	for _, x := range s {
		o = append(o, d.toks[x.id])
	}
	return o
}

func c10(c *core.Ctx) {
	c10Big(c)
	// 1. merge lists x rank permutations x words
	nm := core.Pick(c, 3, 4)
	wl := core.Pick(c, 6, 7)
	wl2 := core.Pick(c, 5, 6) // with the longest merge lists
	ab := []string{"a", "é"}
	ws := words([]string{"a", "é", "日"}, 0, wl)
	ws2 := words([]string{"a", "é", "日"}, 0, wl2)
	for n := 40; n > 0; n -= 3 {
		ws = append(ws, strings.Repeat("a", n), strings.Repeat("aé", n), strings.Repeat("é", n)+"a", strings.Repeat("aaé", n))
		ws2 = append(ws2, strings.Repeat("a", n), strings.Repeat("aé", n))
	}
	var defs []*bpeDef
	for n := 0; n <= nm; n++ {
		for _, l := range mergeLists(2, n) {
			d := newBpeDef(ab, l, "", "")
			if !dedupBpe(d) {
				continue
			}
			ps := perms(n)
			if n > 3 {
				ps = [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}}
			}
			for _, p := range ps {
				defs = append(defs, d.permuted(p))
			}
		}
	}
	c.Count("merge_lists", int64(len(defs)))
	c.Par(len(defs), func(w *core.W, i int) {
		d := defs[i]
		m, err := d.build(0, nil)
		mc, err2 := d.build(4, nil)
		for _, s := range core.If(len(d.merges) == nm, ws2, ws) {
			w.Case("merges="+d.String()+" word="+q(s), func(t *core.T) {
				if err != nil || err2 != nil {
					t.Fatalf("build: %v %v", err, err2)
				}
				toks, err := m.Tokenize(s)
				if err != nil {
					t.Fatalf("error %v", err)
				}
				bpeCompare(t, d, s, toks, "uncached")
				for r := 0; r < 2; r++ {
					toks, err = mc.Tokenize(s)
					if err != nil {
						t.Fatalf("error %v", err)
					}
					bpeCompare(t, d, s, toks, "cached")
				}
				t.Op(3)
				if len(toks) > 1 {
					t.State(fmt.Sprint(d.String(), toks))
				}
			})
		}
	})
	// 2. prefix / suffix
	type ps struct{ p, s string }
	for _, x := range []ps{{"##", ""}, {"", "</w>"}, {"##", "</w>"}, {"é", ""}, {"", "日"}} {
		base := []string{}
		for _, ch := range []string{"a", "é"} {
			for _, f := range []string{ch, x.p + ch, ch + x.s, x.p + ch + x.s} {
				dup := false
				for _, b := range base {
					if b == f {
						dup = true
					}
				}
				if !dup {
					base = append(base, f)
				}
			}
		}
		lists := mergeLists(len(base), 1)
		if core.Pick(c, len(base) <= 4, true) {
			lists = append(lists, mergeLists(len(base), 2)...)
		}
		lists = append(lists, [][2]int{})
		pw := words([]string{"a", "é", "日"}, 0, 5)
		c.Par(len(lists), func(w *core.W, i int) {
			d := newBpeDef(base, lists[i], x.p, x.s)
			if !dedupBpe(d) {
				return
			}
			m, err := d.build(0, nil)
			for _, s := range pw {
				w.Case("merges="+d.String()+" word="+q(s), func(t *core.T) {
					if err != nil {
						t.Fatalf("build: %v", err)
					}
					toks, err := m.Tokenize(s)
					if err != nil {
						t.Fatalf("error %v", err)
					}
					bpeCompare(t, d, s, toks, "affix")
					t.State(fmt.Sprint(d.String(), toks))
				})
			}
		})
	}
	// 3. dropout: any result must be reachable by merges and spell the word
	dl := mergeLists(2, 2)
	dw := words([]string{"a", "é", "日"}, 1, core.Pick(c, 6, 8))
	for n := 8; n <= 24; n += 4 {
		dw = append(dw, strings.Repeat("a", n), strings.Repeat("aé", n/2))
	}
	c.Par(len(dl), func(w *core.W, i int) {
		d := newBpeDef(ab, dl[i], "", "")
		if !dedupBpe(d) {
			return
		}
		for _, p := range []float32{0.1, 0.3, 0.5, 0.9, 1} {
			m, err := d.build(8, &p)
			for _, s := range dw {
				w.Case(fmt.Sprintf("merges=%s dropout=%v word=%q", d, p, s), func(t *core.T) {
					if err != nil {
						t.Fatalf("build: %v", err)
					}
					toks, err := m.Tokenize(s)
					if err != nil {
						t.Fatalf("error %v", err)
					}
					checkTiles(t, s, toks)
					for _, k := range toks {
						piece := s[k.Offsets[0]:k.Offsets[1]]
						if k.Value == "<u>" {
							if piece != "日" {
								t.Fatalf("unknown token covers %q", piece)
							}
							continue
						}
						if k.Value != piece || d.ids[piece] != k.Id {
							t.Fatalf("token %+v does not spell %q", k, piece)
						}
						if utf8.RuneCountInString(piece) > 1 && (p == 1 || !d.derivable(piece)) {
							t.Fatalf("piece %q cannot come from the merges at dropout %v", piece, p)
						}
					}
					t.State(fmt.Sprint(d.String(), toks))
				})
			}
		}
	})
}

// bigBpe is a table of n merges over an alphabet of 48 letters of one to four bytes: the
// first ones join letters, the later ones whatever was made before.
func bigBpe(n int, flip bool) *bpeDef {
	base := letters48()
	have := map[[2]int]bool{}
	var steps [][2]int
	names := append([]string{}, base...)
	made := map[string]bool{}
	for x := uint32(1); len(steps) < n; {
		x = x*1664525 + 1013904223
		lim := len(base)
		if len(steps) > n/2 {
			lim = len(names)
		}
		p := [2]int{int(x>>8) % lim, int(x>>20) % lim}
		t := names[p[0]] + names[p[1]]
		if have[p] || made[t] || len(t) > 40 {
			continue
		}
		have[p], made[t] = true, true
		steps = append(steps, p)
		names = append(names, t)
	}
	d := newBpeDef(base, steps, "", "")
	if flip {
		var p []int
		for i := n - 1; i >= 0; i-- {
			p = append(p, i)
		}
		d = d.permuted(p)
	}
	return d
}

// c10Big runs tables of hundreds of merges on long words made of their tokens.
func c10Big(c *core.Ctx) {
	sizes := core.Pick(c, []int{130, 300, 1100}, []int{130, 256, 257, 300, 1100, 2500})
	c.Par(2*len(sizes), func(w *core.W, i int) {
		d := bigBpe(sizes[i/2], i%2 == 1)
		m, err := d.build(0, nil)
		mc, err2 := d.build(16, nil)
		x := uint32(7)
		for k := 0; k < core.Pick(c, 60, 300); k++ {
			var b strings.Builder
			for n := []int{1, 2, 3, 5, 9, 17, 33, 65, 129, 260}[k%10]; n > 0; n-- {
				x = x*1664525 + 1013904223
				b.WriteString(d.toks[1+int(x>>9)%(len(d.toks)-1)])
				if x>>28 == 3 {
					b.WriteString("日")
				}
			}
			s := b.String()
			w.Case(fmt.Sprintf("%d merges flip=%v word=%q", sizes[i/2], i%2 == 1, s), func(t *core.T) {
				if err != nil || err2 != nil {
					t.Fatalf("build: %v %v", err, err2)
				}
				for r, b := range []*bpe.BPE{m, mc, mc} {
					toks, err := b.Tokenize(s)
					t.Op(1)
					if err != nil {
						t.Fatalf("error %v", err)
					}
					bpeCompare(t, d, s, toks, []string{"uncached", "cached", "cached again"}[r])
				}
				t.State(fmt.Sprint(i, s))
			})
		}
		for _, n := range []int{130, 257, 300, 1030} {
			for _, s := range []string{strings.Repeat(d.toks[1], n), strings.Repeat(d.toks[len(d.toks)-1], n/5), strings.Repeat("日", n), strings.Repeat(d.toks[60]+d.toks[61], n/4)} {
				w.Case(fmt.Sprintf("%d merges flip=%v long word %d %q", sizes[i/2], i%2 == 1, n, s[:4]), func(t *core.T) {
					toks, err := m.Tokenize(s)
					t.Op(1)
					if err != nil {
						t.Fatalf("error %v", err)
					}
					bpeCompare(t, d, s, toks, "uncached")
					// beginnings and ends after the whole, on a model that remembers
					if mb, err := d.build(2000, nil); err == nil && n < 300 {
						mb.Tokenize(s)
						for _, e := range prefixes(s) {
							toks, err := mb.Tokenize(e)
							if err != nil {
								t.Fatalf("error %v", err)
							}
							bpeCompare(t, d, e, toks, fmt.Sprintf("first or last %d bytes after the whole", len(e)))
						}
					}
					t.State(fmt.Sprint(i, n, s))
				})
			}
		}
	})
}

// derivable tells whether some sequence of merges yields piece as one symbol.
func (d *bpeDef) derivable(piece string) bool {
	want := d.ids[piece]
	seen := map[string]bool{}
	var rec func(s []bpeSym) bool
	rec = func(s []bpeSym) bool {
		if len(s) == 1 {
			return s[0].id == want
		}
		k := fmt.Sprint(s)
		if seen[k] {
			return false
		}
		seen[k] = true
		for i := 0; i+1 < len(s); i++ {
			for r, m := range d.merges {
				if m[0] == s[i].id && m[1] == s[i+1].id {
					ns := append(append([]bpeSym{}, s[:i]...), bpeSym{d.newID[r], s[i].n + s[i+1].n})
					if rec(append(ns, s[i+2:]...)) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(d.initial(piece))
}

func init() {
	core.Register(&core.Check{ID: "C10", Level: "model_checking", Run: c10,
		Rule:        "every merge list up to the bound over a two-letter base alphabet (1- and 2-byte letters, one 3-byte unknown letter), every rank permutation, every word up to the bound plus long periodic words; tables of 130-1100 merges over 48 letters on words of up to 260 of their tokens and 1030 letters; affix and dropout options; state = distinct (merge list, token sequence) with more than one token",
		Assumptions: []string{"words are valid UTF-8", "an unknown token is configured and in the vocabulary"}})
}
