package props

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/mc/core"

	"github.com/rivo/uniseg"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/spm"
)

// charsMap is a character map in plain form.
type charsMap struct {
	name string
	m    map[string]string
	pos  map[string]int // offset of the answer
	blob []byte         // encoded
}

// buildMap encodes entries as a double-array trie followed by the answers.
func buildMap(name string, m map[string]string) *charsMap {
	cm := &charsMap{name: name, m: m, pos: map[string]int{}}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var text []byte
	for _, k := range keys {
		cm.pos[k] = len(text)
		text = append(append(text, m[k]...), 0)
	}
	type node struct {
		kids map[byte]*node
		val  int
	}
	root := &node{kids: map[byte]*node{}, val: -1}
	for _, k := range keys {
		n := root
		for i := 0; i < len(k); i++ {
			if n.kids[k[i]] == nil {
				n.kids[k[i]] = &node{kids: map[byte]*node{}, val: -1}
			}
			n = n.kids[k[i]]
		}
		n.val = cm.pos[k]
	}
	units := make([]uint32, 256)
	var place func(n *node, at int)
	place = func(n *node, at int) {
		if len(n.kids) == 0 && n.val < 0 {
			return
		}
		base := len(units)
		units = append(units, make([]uint32, 256)...)
		units[at] |= uint32(at^base) << 10
		if n.val >= 0 {
			units[at] |= 1 << 8
			units[base] = uint32(n.val) | 1<<31
		}
		for b := 0; b < 256; b++ {
			if k := n.kids[byte(b)]; k != nil {
				units[base^b] = uint32(b)
				place(k, base^b)
			}
		}
	}
	// unused units must not look like an edge: label 0 is never asked for
	place(root, 0)
	cm.blob = make([]byte, 4+4*len(units))
	binary.LittleEndian.PutUint32(cm.blob, uint32(4*len(units)))
	for i, u := range units {
		binary.LittleEndian.PutUint32(cm.blob[4+4*i:], u)
	}
	cm.blob = append(cm.blob, text...)
	return cm
}

// readMap decodes a map by walking its whole trie.
func readMap(name string, blob []byte) *charsMap {
	cm := &charsMap{name: name, m: map[string]string{}, pos: map[string]int{}, blob: blob}
	size := binary.LittleEndian.Uint32(blob)
	unit := func(i int) uint32 { return binary.LittleEndian.Uint32(blob[4+4*i:]) }
	off := func(u uint32) int { return int(u>>10) << ((u & (1 << 9)) >> 6) }
	text := blob[4+size:]
	var walk func(base int, key []byte)
	walk = func(base int, key []byte) {
		for b := 1; b < 256; b++ {
			at := base ^ b
			if at >= int(size/4) {
				continue
			}
			u := unit(at)
			if u&(1<<31|0xff) != uint32(b) {
				continue
			}
			k := append(key[:len(key):len(key)], byte(b))
			next := at ^ off(u)
			if u>>8&1 == 1 {
				p := int(unit(next) & (1<<31 - 1))
				e := p
				for e < len(text) && text[e] != 0 {
					e++
				}
				cm.pos[string(k)] = p
				cm.m[string(k)] = string(text[p:e])
			}
			walk(next, k)
		}
	}
	walk(off(unit(0)), nil)
	return cm
}

// prefixes gives the known prefixes of s, shortest first.
func (m *charsMap) prefixes(s string) []string {
	if i := strings.IndexByte(s, 0); i >= 0 {
		s = s[:i]
	}
	var out []string
	for i := 1; i <= len(s); i++ {
		if _, ok := m.m[s[:i]]; ok {
			out = append(out, s[:i])
		}
	}
	return out
}

func (m *charsMap) lookup(s string) (string, bool) {
	p := m.prefixes(s)
	if len(p) == 0 {
		return "", false
	}
	return m.m[p[0]], true
}

func spell(s string) string {
	var b strings.Builder
	for _, r := range s {
		if unicode.Is(unicode.Mn, r) {
			fmt.Fprintf(&b, "%U", r)
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// normalize is the definition.  With hack, nonspacing marks outside short mapped
// graphemes are spelled out, the way NormalizeString's tests pin it.
func (m *charsMap) normalize(s string, hack bool) string {
	out := ""
	m.chunks(s, hack, func(_, _ int, a string) { out += a })
	return out
}

// chunks calls f for every part s[from:to] of the text that is replaced, or kept, as a whole.
func (m *charsMap) chunks(s string, hack bool, f func(from, to int, a string)) {
	g := uniseg.NewGraphemes(s)
	at := 0
	for g.Next() {
		gr := g.Str()
		from := at
		at += len(gr)
		if len(gr) < 6 {
			if a, ok := m.lookup(gr); ok {
				f(from, at, a)
				continue
			}
		}
		if hack {
			gr = spell(gr)
		}
		for i, r := range gr {
			a, ok := m.lookup(string(r))
			if !ok {
				a = string(r)
			} else if hack {
				a = spell(a)
			}
			f(from+i, from+i+len(string(r)), a)
		}
	}
}

// aligned checks that every byte of the result is aligned inside the part of the text
// it stands for (and what is removed right after it, which an inserted character may
// take the place of), and every kept character with itself.
func (m *charsMap) aligned(t *core.T, s string, shift int, n *normalizer.NormalizedString) {
	type chunk struct {
		from, to int
		a        string
	}
	var cs []chunk
	m.chunks(s, false, func(from, to int, a string) { cs = append(cs, chunk{from, to, a}) })
	al := n.Alignments()
	pos := 0
	for k, c := range cs {
		from, to, a := c.from, c.to, c.a
		kept := a == s[from:to] && utf8.RuneCountInString(a) == 1
		for k++; k < len(cs) && cs[k].a == "" && !kept; k++ {
			to = cs[k].to
		}
		for i := 0; i < len(a) && pos < len(al); i++ {
			x := al[pos]
			if x[0] < from+shift || x[1] > to+shift || x[0] >= x[1] || (kept && (x[0] != from+shift || x[1] != to+shift)) {
				t.Fatalf("%q -> %q: byte %d is aligned with %v, want inside [%d %d]", s, n.GetNormalized(), pos, x, from+shift, to+shift)
			}
			pos++
		}
	}
}

func hasMark(s string) bool {
	for _, r := range s {
		if unicode.Is(unicode.Mn, r) {
			return true
		}
	}
	return false
}

func c26(c *core.Ctx) {
	nmt := readMap("nmt-nfkc", spm.NmtNfkc())
	hand := []*charsMap{
		buildMap("empty", map[string]string{"\xff": ""}),
		buildMap("one", map[string]string{"a": "b"}),
		buildMap("remove", map[string]string{"a": "", "é": "e", "\u0301": ""}),
		buildMap("grow", map[string]string{"a": "aa", "é": "e\u0301x", "世": "worldy"}),
		buildMap("prefix", map[string]string{"a": "1", "ab": "2", "abc": "3", "a\u0301": "á"}),
		buildMap("grapheme", map[string]string{"e\u0301": "E", "\u1100\u1161": "가", "👍": "up"}),
		buildMap("space", map[string]string{" ": "▁", "\t": " ", "\u0301": "'", "b": ""}),
	}
	maps := append([]*charsMap{nmt}, hand...)
	load := func(t *core.T, m *charsMap) *spm.Precompiled {
		p, err := spm.NewPrecompiledFrom(m.blob)
		if err != nil {
			t.Fatalf("%v", err)
		}
		return p
	}
	var pre []*spm.Precompiled
	c.Seq().Case("load", func(t *core.T) {
		for _, m := range maps {
			pre = append(pre, load(t, m))
		}
	})
	if len(pre) != len(maps) {
		p, err := spm.NewPrecompiledFrom(maps[0].blob)
		if err != nil {
			return
		}
		_ = p
		pre = nil
		for _, m := range maps {
			p, err := spm.NewPrecompiledFrom(m.blob)
			if err != nil {
				return
			}
			pre = append(pre, p)
		}
	}
	lookup := func(t *core.T, m *charsMap, p *spm.Precompiled, s string) {
		var want []int
		for _, k := range m.prefixes(s) {
			want = append(want, m.pos[k])
		}
		if got := p.Trie.CommonPrefixSearch([]byte(s)); !eqInts(got, want) {
			t.Errorf("CommonPrefixSearch(%q)=%v, want %v (%q)", s, got, want, m.prefixes(s))
		}
		w, _ := m.lookup(s)
		if got := p.Transform(s); got != w {
			t.Errorf("Transform(%q)=%q, want %q", s, got, w)
		}
	}
	text := func(t *core.T, m *charsMap, p *spm.Precompiled, s string) {
		want := m.normalize(s, false)
		n := &normalizer.Precompiled{Precompiled: p}
		for i := 0; i < 2; i++ {
			r, err := n.Normalize(normalizer.NewNormalizedFrom(s))
			if err != nil || r == nil {
				t.Fatalf("Normalize(%q): %v %v", s, r, err)
			}
			if r.GetNormalized() != want {
				t.Fatalf("Normalize(%q)=%q, want %q", s, r.GetNormalized(), want)
			}
			nsShape(t, s, r)
			m.aligned(t, s, 0, r)
		}
		// on text already edited
		e, err := n.Normalize(normalizer.NewNormalizedFrom("x" + s).Filter(func(r rune) bool { return r != 'x' }))
		if w := m.normalize(strings.ReplaceAll(s, "x", ""), false); err != nil || e.GetNormalized() != w {
			t.Errorf("Normalize of edited %q: %v %v, want %q", s, e, err, w)
		} else {
			nsShape(t, "x"+s, e)
			if !strings.Contains(s, "x") {
				m.aligned(t, s, 1, e)
			}
		}
		if got, w := p.NormalizeString(s), m.normalize(s, true); got != w {
			t.Errorf("NormalizeString(%q)=%q, want %q", s, got, w)
		}
		t.State(m.name + "\x00" + want)
		t.Op(4)
	}
	c.Seq().Case("NormalizeString keeps nonspacing marks", func(t *core.T) {
		p := load(t, nmt)
		s := "x\u0941y" // neither character is in the map
		if got := p.NormalizeString(s); got != s {
			t.Errorf("NormalizeString(%+q)=%+q", s, got)
		}
	})
	// all keys of the bundled map and all their prefixes and extensions
	var keys []string
	for k := range nmt.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	c.Par(len(keys), func(w *core.W, i int) {
		k := keys[i]
		w.Case(fmt.Sprintf("nmt key %q", k), func(t *core.T) {
			for j := 0; j <= len(k); j++ {
				lookup(t, nmt, pre[0], k[:j])
			}
			for b := 0; b < 256; b++ {
				lookup(t, nmt, pre[0], k+string([]byte{byte(b)}))
			}
			if utf8.ValidString(k) {
				for _, s := range []string{k, "a" + k + "b", k + k, k + "\u0301", "世" + k} {
					text(t, nmt, pre[0], s)
				}
			}
		})
	})
	// every character
	c.Par(0x110000/256, func(w *core.W, i int) {
		for cp := rune(i * 256); cp < rune(i*256+256); cp++ {
			if !utf8.ValidRune(cp) || (!c.Thorough() && cp > 0x3400 && cp%64 != 0 && !interesting(cp)) {
				continue
			}
			w.Case(fmt.Sprintf("U+%04X", cp), func(t *core.T) {
				lookup(t, nmt, pre[0], string(cp))
				text(t, nmt, pre[0], "é"+string(cp)+"ﬁ")
			})
		}
	})
	al := []string{"a", "b", "c", "é", "e", "\u0301", "世", " ", "\t", "ﬁ", "ำ", "\u1100", "\u1161", "👍", "\u200d", "\x00"}
	texts := words(al, 0, core.Pick(c, 3, 4))
	texts = append(texts, words([]string{"a", "b", "\u0301", "ﬁ"}, 4, core.Pick(c, 6, 8))...)
	c.Par(len(texts), func(w *core.W, i int) {
		for k, m := range maps {
			w.Case(m.name+" "+q(texts[i]), func(t *core.T) {
				lookup(t, m, pre[k], texts[i])
				text(t, m, pre[k], texts[i])
			})
		}
	})
	// all small maps over tiny keys: every subset of size <=2 x every answer
	ks := words([]string{"a", "b", "\u0301"}, 1, 2)
	answers := []string{"", "x", "ab", "éy"}
	type pair struct{ a, b int }
	var ps []pair
	for a := range ks {
		for b := a; b < len(ks); b++ {
			ps = append(ps, pair{a, b})
		}
	}
	probe := words([]string{"a", "b", "\u0301"}, 0, core.Pick(c, 3, 5))
	c.Par(len(ps), func(w *core.W, i int) {
		for x := range answers {
			for y := range answers {
				p := ps[i]
				m := map[string]string{ks[p.a]: answers[x]}
				if p.b != p.a {
					m[ks[p.b]] = answers[y]
				} else if y > 0 {
					continue
				}
				w.Case(fmt.Sprintf("map %q", m), func(t *core.T) {
					cm := buildMap("small", m)
					pc := load(t, cm)
					for _, s := range probe {
						lookup(t, cm, pc, s)
						text(t, cm, pc, s)
					}
				})
			}
		}
	})
	// malformed maps: every truncation and every wrong trie size of a small map,
	// and every corruption of one trie unit
	small := buildMap("small", map[string]string{"a": "x", "ab": ""})
	try := func(t *core.T, blob []byte) {
		p, err := spm.NewPrecompiledFrom(blob)
		if err != nil {
			return
		}
		for _, s := range []string{"", "a", "abé", "\u0301b a"} {
			p.Transform(s)
			p.NormalizeString(s)
			p.Trie.CommonPrefixSearch([]byte(s))
			if _, err := (&normalizer.Precompiled{Precompiled: p}).Normalize(normalizer.NewNormalizedFrom(s)); err != nil {
				return
			}
		}
	}
	size := int(binary.LittleEndian.Uint32(small.blob))
	c.Par(len(small.blob), func(w *core.W, i int) {
		w.Case(fmt.Sprintf("truncated to %d", i), func(t *core.T) {
			try(t, small.blob[:i])
			if i < 4+size {
				if _, err := spm.NewPrecompiledFrom(small.blob[:i]); err == nil {
					t.Errorf("a map cut inside its trie was accepted")
				}
			}
		})
		if i%4 == 0 {
			for _, v := range []uint32{0, 1, 3, 4, 7, 8, uint32(size) - 4, uint32(size) + 4, uint32(len(small.blob)), 1 << 31, 1<<32 - 1, 1 << 10, 1<<10 | 1<<9 | 'a', 1<<30 | 1<<8 | 'a', 1<<31 | 1<<30} {
				w.Case(fmt.Sprintf("word %d = %#x", i/4, v), func(t *core.T) {
					b := append([]byte{}, small.blob...)
					if i+4 <= len(b) {
						binary.LittleEndian.PutUint32(b[i:], v)
					}
					try(t, b)
				})
			}
		}
	})
	c.Count("bundled_map_entries", int64(len(nmt.m)))
	c.Count("texts", int64(len(texts)))
}

func init() {
	core.Register(&core.Check{ID: "C26", Level: "model_checking", Run: c26,
		Rule:        "all texts up to a length bound over mapped, unmapped, combining, conjoining and control characters x the bundled map and hand-built maps, all entries of the bundled map with every prefix and every one-byte extension, all maps of up to two entries over tiny keys, all truncations and single-word corruptions of a map; compared with a plain map decoded by an independent trie walk",
		Assumptions: []string{"grapheme boundaries are those of github.com/rivo/uniseg", "a grapheme counts as known when the map knows a prefix of it, the shortest such prefix deciding (sentencepiece behaviour the code documents)"}})
}
