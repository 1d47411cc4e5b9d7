package props

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"verif/mc/core"

	"github.com/sugarme/tokenizer/normalizer"
	"golang.org/x/text/unicode/norm"
)

// nsRef is the reference model of a normalized string: the original text and a
// list of characters with the byte range of the original each one stands for.
type nsChar struct {
	r    rune
	s, e int
}

type nsRef struct {
	orig  string
	cs    []nsChar
	shift int
}

func newNsRef(s string) *nsRef {
	n := &nsRef{orig: s}
	for i, r := range s {
		n.cs = append(n.cs, nsChar{r, i, i + utf8.RuneLen(r)})
	}
	return n
}

func (n *nsRef) text() string {
	var b strings.Builder
	for _, c := range n.cs {
		b.WriteRune(c.r)
	}
	return b.String()
}

func (n *nsRef) String() string { return fmt.Sprintf("%q+%d %v", n.orig, n.shift, n.cs) }

// bytePos gives the byte position of every character, and of the end.
func (n *nsRef) bytePos() []int {
	p := make([]int, len(n.cs)+1)
	for i, c := range n.cs {
		p[i+1] = p[i] + utf8.RuneLen(c.r)
	}
	return p
}

func (n *nsRef) mapRunes(f func(rune) rune) {
	for i := range n.cs {
		n.cs[i].r = f(n.cs[i].r)
	}
}

func (n *nsRef) filter(f func(rune) bool) {
	out := n.cs[:0:0]
	for _, c := range n.cs {
		if f(c.r) {
			out = append(out, c)
		}
	}
	n.cs = out
}

func (n *nsRef) prepend(s string) {
	if len(n.cs) == 0 {
		return
	}
	var out []nsChar
	for _, r := range s {
		out = append(out, nsChar{r, n.cs[0].s, n.cs[0].e})
	}
	n.cs = append(out, n.cs...)
}

func (n *nsRef) append(s string) {
	if len(n.cs) == 0 {
		return
	}
	l := n.cs[len(n.cs)-1]
	for _, r := range s {
		n.cs = append(n.cs[:len(n.cs):len(n.cs)], nsChar{r, l.s, l.e})
	}
}

func (n *nsRef) strip(left, right bool) {
	i, j := 0, len(n.cs)
	for left && i < j && unicode.IsSpace(n.cs[i].r) {
		i++
	}
	for right && j > i && unicode.IsSpace(n.cs[j-1].r) {
		j--
	}
	n.cs = n.cs[i:j:j]
}

// match is a half-open character range.
type nsMatch struct{ a, b int }

// replace substitutes the matches (ascending, in characters of the current text).
// Inserted characters stand for the last character they replace, or when they
// replace none, for the character before, or for nothing at the very beginning.
func (n *nsRef) replace(ms []nsMatch, content string) {
	var out []nsChar
	last := 0
	for _, m := range ms {
		out = append(out, n.cs[last:m.a]...)
		al := nsChar{}
		if m.b > m.a {
			al = n.cs[m.b-1]
		} else if len(out) > 0 {
			al = out[len(out)-1]
		}
		for _, r := range content {
			out = append(out, nsChar{r, al.s, al.e})
		}
		last = m.b
	}
	n.cs = append(out, n.cs[last:]...)
}

// matchStr finds non-overlapping occurrences of p, leftmost first.
func (n *nsRef) matchStr(p string) []nsMatch {
	var ms []nsMatch
	rs := []rune(p)
	for i := 0; i+len(rs) <= len(n.cs); {
		ok := true
		for k, r := range rs {
			if n.cs[i+k].r != r {
				ok = false
			}
		}
		if ok {
			ms = append(ms, nsMatch{i, i + len(rs)})
			i += len(rs)
		} else {
			i++
		}
	}
	return ms
}

// matchRuns finds maximal runs of characters satisfying f.
func (n *nsRef) matchRuns(f func(rune) bool) []nsMatch {
	var ms []nsMatch
	for i := 0; i < len(n.cs); {
		j := i
		for j < len(n.cs) && f(n.cs[j].r) {
			j++
		}
		if j > i {
			ms = append(ms, nsMatch{i, j})
			i = j
		} else {
			i++
		}
	}
	return ms
}

func (n *nsRef) matchEach(f func(rune) bool) []nsMatch {
	var ms []nsMatch
	for i, c := range n.cs {
		if f(c.r) {
			ms = append(ms, nsMatch{i, i + 1})
		}
	}
	return ms
}

// cut returns characters [i,j) as their own string.  The original part is the
// one covered by them.
func (n *nsRef) cut(i, j int) *nsRef {
	var os, oe int
	switch {
	case j > i:
		os, oe = n.cs[i].s, n.cs[j-1].e
	case i < len(n.cs):
		os, oe = n.cs[i].s, n.cs[i].s
	case len(n.cs) > 0:
		os, oe = n.cs[len(n.cs)-1].e, n.cs[len(n.cs)-1].e
	}
	return n.sub(i, j, os, oe)
}

func (n *nsRef) sub(i, j, os, oe int) *nsRef {
	o := &nsRef{orig: n.orig[os:oe], shift: n.shift + os}
	for _, c := range n.cs[i:j] {
		o.cs = append(o.cs, nsChar{c.r, c.s - os, c.e - os})
	}
	return o
}

// cutOrig returns the part standing for original bytes [os,oe).
func (n *nsRef) cutOrig(os, oe int) *nsRef {
	i, j := n.charsOf(os, oe)
	return n.sub(i, j, os, oe)
}

// charsOf gives the characters standing for original bytes [os,oe), which is an
// empty range at the right place when there are none.
func (n *nsRef) charsOf(os, oe int) (int, int) {
	i := 0
	for i < len(n.cs) && n.cs[i].e <= os {
		i++
	}
	j := i
	for j < len(n.cs) && n.cs[j].s < oe {
		j++
	}
	if os == oe {
		j = i
	}
	return i, j
}

// pieces of a split on the given matches
func (n *nsRef) split(ms []nsMatch, b normalizer.SplitDelimiterBehavior) []*nsRef {
	type seg struct {
		a, b int
		m    bool
	}
	var segs []seg
	last := 0
	for _, m := range ms {
		if m.a > last {
			segs = append(segs, seg{last, m.a, false})
		}
		segs = append(segs, seg{m.a, m.b, true})
		last = m.b
	}
	if last < len(n.cs) || len(segs) == 0 {
		segs = append(segs, seg{last, len(n.cs), false})
	}
	return n.splitSegs(func() (a, bb []int, m []bool) {
		for _, s := range segs {
			a, bb, m = append(a, s.a), append(bb, s.b), append(m, s.m)
		}
		return
	})(b)
}

func (n *nsRef) splitSegs(f func() (a, b []int, m []bool)) func(normalizer.SplitDelimiterBehavior) []*nsRef {
	return func(beh normalizer.SplitDelimiterBehavior) []*nsRef {
		a, b, m := f()
		var out [][2]int
		switch beh {
		case normalizer.RemovedBehavior:
			for i := range a {
				if !m[i] {
					out = append(out, [2]int{a[i], b[i]})
				}
			}
		case normalizer.IsolatedBehavior:
			for i := range a {
				out = append(out, [2]int{a[i], b[i]})
			}
		case normalizer.MergedWithPreviousBehavior:
			// a delimiter joins what is before it, unless that is a delimiter too
			for i := range a {
				if m[i] && i > 0 && !m[i-1] {
					out[len(out)-1][1] = b[i]
				} else {
					out = append(out, [2]int{a[i], b[i]})
				}
			}
		case normalizer.MergedWithNextBehavior:
			for i := len(a) - 1; i >= 0; i-- {
				if m[i] && i < len(a)-1 && !m[i+1] {
					out[len(out)-1][0] = a[i]
				} else {
					out = append(out, [2]int{a[i], b[i]})
				}
			}
			sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
		case normalizer.ContiguousBehavior:
			for i := range a {
				if i > 0 && m[i] == m[i-1] {
					out[len(out)-1][1] = b[i]
				} else {
					out = append(out, [2]int{a[i], b[i]})
				}
			}
		}
		var res []*nsRef
		for _, o := range out {
			res = append(res, n.cut(o[0], o[1]))
		}
		return res
	}
}

// form applies a Unicode normalization form.  Within a segment that normalizes on
// its own, which former character a new one stands for is left open; the real
// string's choice is checked against the bounds and adopted.
func (n *nsRef) form(t *core.T, f norm.Form, real *normalizer.NormalizedString) {
	in := n.text()
	want := formOf(f)(in)
	if got := real.GetNormalized(); got != want {
		t.Fatalf("form %d of %q: %q, want %q", f, in, got, want)
	}
	al := real.Alignments()
	if len(al) != len(want) {
		t.Fatalf("form of %q: %d ranges for %d bytes", in, len(al), len(want))
	}
	var out []nsChar
	pos := 0
	for i := 0; i < len(n.cs); {
		j := i + 1
		for j < len(n.cs) && !f.PropertiesString(string(n.cs[j].r)).BoundaryBefore() {
			j++
		}
		var seg strings.Builder
		for _, c := range n.cs[i:j] {
			seg.WriteRune(c.r)
		}
		o := formOf(f)(seg.String())
		first := true
		for _, r := range o {
			a := al[pos]
			l := utf8.RuneLen(r)
			if len(a) != 2 || a[0] < n.cs[i].s || a[1] > n.cs[j-1].e || a[0] > a[1] {
				t.Fatalf("form of %q: character %q made from %v has range %v", in, r, n.cs[i:j], a)
			}
			if first && a[0] != n.cs[i].s {
				t.Fatalf("form of %q: %q made from %v begins at %v", in, o, n.cs[i:j], a)
			}
			if len(o) == l && j == i+1 && a[1] != n.cs[i].e {
				t.Fatalf("form of %q: %q made from %v has range %v", in, o, n.cs[i:j], a)
			}
			first = false
			out = append(out, nsChar{r, a[0], a[1]})
			pos += l
		}
		i = j
	}
	if pos != len(want) {
		t.Fatalf("form of %q: segments give %d bytes, whole %d", in, pos, len(want))
	}
	n.cs = out
}

// same compares every observable of the real string with the model.
func (n *nsRef) same(t *core.T, r *normalizer.NormalizedString) {
	if r == nil {
		t.Fatalf("nil instead of %v", n)
	}
	if r.GetOriginal() != n.orig {
		t.Errorf("original %q, want %q", r.GetOriginal(), n.orig)
	}
	txt := n.text()
	if r.GetNormalized() != txt {
		t.Fatalf("normalized %q, want %q", r.GetNormalized(), txt)
	}
	if r.Shift() != n.shift {
		t.Errorf("shift %d, want %d", r.Shift(), n.shift)
	}
	al := r.Alignments()
	if len(al) != len(txt) {
		t.Fatalf("%d ranges for %d bytes of %q", len(al), len(txt), txt)
	}
	k := 0
	for _, c := range n.cs {
		for b := 0; b < utf8.RuneLen(c.r); b++ {
			if len(al[k]) != 2 || al[k][0] != c.s || al[k][1] != c.e {
				t.Fatalf("byte %d of %q has range %v, want [%d %d]; all %v", k, txt, al[k], c.s, c.e, al)
			}
			k++
		}
	}
	ao := r.AlignmentsOriginal()
	if len(ao) != len(n.orig) {
		t.Fatalf("%d original ranges for %d bytes of %q", len(ao), len(n.orig), n.orig)
	}
	bp := n.bytePos()
	for i, o := range n.orig {
		e := i + utf8.RuneLen(o)
		lo, hi := n.charsOf(i, e)
		for b := i; b < e; b++ {
			x := ao[b]
			if lo < hi {
				if len(x) != 2 || x[0] != bp[lo] || x[1] != bp[hi] {
					t.Fatalf("original byte %d of %q has range %v, want [%d %d]; model %v", b, n.orig, x, bp[lo], bp[hi], n)
				}
			} else {
				// removed: an empty range where it stood
				a, z := 0, len(n.cs)
				for a < len(n.cs) && n.cs[a].e <= i && n.cs[a].s < n.cs[a].e {
					a++
				}
				z = lo
				if a > z {
					a = z
				}
				if len(x) != 2 || x[0] != x[1] || x[0] < bp[a] || x[0] > bp[z] {
					t.Fatalf("original byte %d of %q was removed but has range %v, want empty at [%d..%d]; model %v", b, n.orig, x, bp[a], bp[z], n)
				}
			}
		}
	}
	if oo := r.OffsetsOriginal(); !eqInts(oo, []int{n.shift, n.shift + len(n.orig)}) {
		t.Errorf("OffsetsOriginal %v", oo)
	}
	if r.Len() != len(txt) || r.LenOriginal() != len(n.orig) || r.IsEmpty() != (txt == "") {
		t.Errorf("lengths %d %d %v", r.Len(), r.LenOriginal(), r.IsEmpty())
	}
}

// queries checks conversions, substrings and slices for every range.
func (n *nsRef) queries(t *core.T, r *normalizer.NormalizedString) {
	txt := n.text()
	bp := n.bytePos()
	for i := range bp {
		for j := i; j < len(bp); j++ {
			rg := normalizer.NewRange(bp[i], bp[j], normalizer.NormalizedTarget)
			if got := r.Range(rg); got != txt[bp[i]:bp[j]] {
				t.Errorf("Range(N%d:%d)=%q", bp[i], bp[j], got)
			}
			if i < j {
				o := r.ConvertOffset(rg)
				ws, we := n.cs[i].s, n.cs[j-1].e
				if o == nil || !eqInts(o.Values(), []int{ws, we}) || o.On() != normalizer.OriginalTarget {
					t.Errorf("ConvertOffset(N%d:%d)=%v, want %d:%d", bp[i], bp[j], o, ws, we)
				}
				if got := r.RangeOriginal(rg); got != n.orig[ws:we] {
					t.Errorf("RangeOriginal(N%d:%d)=%q", bp[i], bp[j], got)
				}
			} else if got := r.RangeOriginal(rg); got != "" {
				t.Errorf("RangeOriginal(N%d:%d)=%q", bp[i], bp[j], got)
			}
			n.cut(i, j).same(t, r.Slice(rg))
			if !eqInts(rg.Values(), []int{bp[i], bp[j]}) || rg.On() != normalizer.NormalizedTarget {
				t.Errorf("range N%d:%d was changed to %v", bp[i], bp[j], rg)
			}
		}
	}
	var op []int
	for i := range n.orig {
		op = append(op, i)
	}
	op = append(op, len(n.orig))
	for i := range op {
		for j := i; j < len(op); j++ {
			rg := normalizer.NewRange(op[i], op[j], normalizer.OriginalTarget)
			if got := r.RangeOriginal(rg); got != n.orig[op[i]:op[j]] {
				t.Errorf("RangeOriginal(O%d:%d)=%q", op[i], op[j], got)
			}
			if i < j {
				a, b := n.charsOf(op[i], op[j])
				o := r.ConvertOffset(rg)
				if o == nil {
					t.Errorf("ConvertOffset(O%d:%d)=nil", op[i], op[j])
					continue
				}
				v := o.Values()
				if a < b {
					if !eqInts(v, []int{bp[a], bp[b]}) {
						t.Errorf("ConvertOffset(O%d:%d)=%v, want %d:%d", op[i], op[j], v, bp[a], bp[b])
					}
				} else if v[0] != v[1] || v[0] < 0 || v[0] > len(txt) {
					t.Errorf("ConvertOffset(O%d:%d)=%v, want empty", op[i], op[j], v)
				}
				if got := r.Range(rg); got != txt[bp[a]:bp[b]] {
					t.Errorf("Range(O%d:%d)=%q, want %q", op[i], op[j], got, txt[bp[a]:bp[b]])
				}
			} else if got := r.Range(rg); got != "" {
				t.Errorf("Range(O%d:%d)=%q", op[i], op[j], got)
			}
			n.cutOrig(op[i], op[j]).same(t, r.Slice(rg))
		}
	}
	// not on a character boundary or outside: no slice, no failure
	for a := 0; a <= len(txt); a++ {
		for _, b := range []int{a, a + 1, a + 2} {
			bad := b <= len(txt) && a < b && (!boundary(txt, a) || !boundary(txt, b))
			if bad {
				if s := r.Slice(normalizer.NewRange(a, b, normalizer.NormalizedTarget)); s != nil {
					t.Errorf("Slice(N%d:%d) off character boundaries of %q gave %q", a, b, txt, s.GetNormalized())
				}
			}
			if b > len(txt) {
				r.Slice(normalizer.NewRange(a, b, normalizer.NormalizedTarget))
				r.ConvertOffset(normalizer.NewRange(a, b, normalizer.NormalizedTarget))
			}
		}
	}
	for a := len(txt) + 1; a <= len(txt)+2; a++ {
		if o := r.ConvertOffset(normalizer.NewRange(a, a+1, normalizer.NormalizedTarget)); o != nil {
			t.Errorf("ConvertOffset(N%d:%d) outside gave %v", a, a+1, o)
		}
	}
	// nothing of this may have changed the string
	n.same(t, r)
}

func boundary(s string, i int) bool {
	return i == 0 || i == len(s) || (i > 0 && i < len(s) && utf8.RuneStart(s[i]))
}

type nsOp struct {
	name string
	// do applies the operation to both; it returns nil when it is not applicable
	do func(t *core.T, n *nsRef, r *normalizer.NormalizedString) (*nsRef, *normalizer.NormalizedString)
}

func isSp(r rune) bool { return unicode.IsSpace(r) }

func nsOps() []nsOp {
	var ops []nsOp
	mut := func(name string, f func(n *nsRef), g func(r *normalizer.NormalizedString) *normalizer.NormalizedString) {
		ops = append(ops, nsOp{name, func(t *core.T, n *nsRef, r *normalizer.NormalizedString) (*nsRef, *normalizer.NormalizedString) {
			f(n)
			return n, g(r)
		}})
	}
	type NS = normalizer.NormalizedString
	for _, f := range []struct {
		name string
		f    norm.Form
		g    func(*NS) *NS
	}{{"nfc", norm.NFC, (*NS).NFC}, {"nfd", norm.NFD, (*NS).NFD}, {"nfkc", norm.NFKC, (*NS).NFKC}, {"nfkd", norm.NFKD, (*NS).NFKD}} {
		f := f
		ops = append(ops, nsOp{f.name, func(t *core.T, n *nsRef, r *NS) (*nsRef, *NS) {
			r = f.g(r)
			if r == nil {
				t.Fatalf("%s returned nil", f.name)
			}
			n.form(t, f.f, r)
			return n, r
		}})
	}
	mut("lower", func(n *nsRef) { n.mapRunes(unicode.ToLower) }, (*NS).Lowercase)
	mut("upper", func(n *nsRef) { n.mapRunes(unicode.ToUpper) }, (*NS).Uppercase)
	mut("accents", func(n *nsRef) { n.filter(func(r rune) bool { return !unicode.Is(unicode.Mn, r) }) }, (*NS).RemoveAccents)
	notSp := func(r rune) bool { return !isSp(r) }
	mut("filter-space", func(n *nsRef) { n.filter(notSp) }, func(r *NS) *NS { return r.Filter(notSp) })
	ascii := func(r rune) bool { return r < 128 }
	mut("filter-ascii", func(n *nsRef) { n.filter(ascii) }, func(r *NS) *NS { return r.Filter(ascii) })
	wide := func(r rune) bool { return r >= 128 }
	mut("filter-wide", func(n *nsRef) { n.filter(wide) }, func(r *NS) *NS { return r.Filter(wide) })
	grow := func(r rune) rune {
		switch {
		case r == 'a':
			return '世'
		case r >= 0x4e00:
			return 'z'
		}
		return r
	}
	mut("map", func(n *nsRef) { n.mapRunes(grow) }, func(r *NS) *NS { return r.Map(grow) })
	mut("foreach", func(n *nsRef) { n.mapRunes(grow) }, func(r *NS) *NS { return r.ForEach(grow) })
	for _, s := range []string{"x", "é_", ""} {
		s := s
		mut("prepend"+s, func(n *nsRef) { n.prepend(s) }, func(r *NS) *NS { return r.Prepend(s) })
		mut("append"+s, func(n *nsRef) { n.append(s) }, func(r *NS) *NS { return r.Append(s) })
	}
	mut("lstrip", func(n *nsRef) { n.strip(true, false) }, (*NS).LStrip)
	mut("rstrip", func(n *nsRef) { n.strip(false, true) }, (*NS).RStrip)
	mut("strip", func(n *nsRef) { n.strip(true, true) }, (*NS).Strip)
	mut("clear", func(n *nsRef) { n.cs = nil }, func(r *NS) *NS { r.Clear(); return r })
	mut("rep-space-rune", func(n *nsRef) { n.replace(n.matchStr(" "), "▁") }, func(r *NS) *NS { return r.Replace(normalizer.NewRunePattern(' '), "▁") })
	mut("rep-a-none", func(n *nsRef) { n.replace(n.matchStr("a"), "") }, func(r *NS) *NS { return r.Replace(normalizer.NewStringPattern("a"), "") })
	mut("rep-a-bb", func(n *nsRef) { n.replace(n.matchStr("a"), "bb") }, func(r *NS) *NS { return r.Replace(normalizer.NewStringPattern("a"), "bb") })
	mut("rep-aé-世", func(n *nsRef) { n.replace(n.matchStr("aé"), "世") }, func(r *NS) *NS { return r.Replace(normalizer.NewStringPattern("aé"), "世") })
	mut("rep-ws", func(n *nsRef) { n.replace(n.matchRuns(isSp), "_") }, func(r *NS) *NS { return r.Replace(normalizer.NewRegexpPattern(`\s+`), "_") })
	mut("rep-wide-fn", func(n *nsRef) { n.replace(n.matchEach(wide), "w") }, func(r *NS) *NS { return r.Replace(normalizer.NewFnPattern(wide), "w") })
	mut("rep-invert", func(n *nsRef) {
		// everything but spaces, each stretch once
		n.replace(n.matchRuns(func(r rune) bool { return r != ' ' }), "i")
	}, func(r *NS) *NS {
		if r.GetNormalized() == "" {
			return r
		}
		return r.Replace(normalizer.NewInvertPattern(normalizer.NewRunePattern(' ')), "i")
	})
	// every character doubled
	mut("double", func(n *nsRef) {
		var out []nsChar
		for _, c := range n.cs {
			out = append(out, c, c)
		}
		n.cs = out
	}, func(r *NS) *NS {
		var cm []normalizer.ChangeMap
		for _, c := range r.GetNormalized() {
			cm = append(cm, normalizer.ChangeMap{RuneVal: string(c), Changes: 0}, normalizer.ChangeMap{RuneVal: string(c), Changes: 1})
		}
		return r.Transform(cm, 0)
	})
	// first removed, then each second one removed, kept ones become é
	mut("thin", func(n *nsRef) {
		var out []nsChar
		for i, c := range n.cs {
			if i%2 == 1 {
				c.r = 'é'
				out = append(out, c)
			}
		}
		n.cs = out
	}, func(r *NS) *NS {
		rs := []rune(r.GetNormalized())
		if len(rs) == 0 {
			return r
		}
		var cm []normalizer.ChangeMap
		for i := 1; i < len(rs); i += 2 {
			ch := 0
			if i+1 < len(rs) {
				ch = -1
			}
			cm = append(cm, normalizer.ChangeMap{RuneVal: "é", Changes: ch})
		}
		return r.Transform(cm, 1)
	})
	// a character inserted before the first
	mut("insert-first", func(n *nsRef) { n.cs = append([]nsChar{{'^', 0, 0}}, n.cs...) }, func(r *NS) *NS {
		cm := []normalizer.ChangeMap{{RuneVal: "^", Changes: 1}}
		for _, c := range r.GetNormalized() {
			cm = append(cm, normalizer.ChangeMap{RuneVal: string(c), Changes: 0})
		}
		return r.Transform(cm, 0)
	})
	// the second character becomes two, the rest of the text is outside the range
	rangeOp := func(name string, on normalizer.IndexOn) {
		ops = append(ops, nsOp{name, func(t *core.T, n *nsRef, r *NS) (*nsRef, *NS) {
			if len(n.cs) < 2 {
				return nil, nil
			}
			bp := n.bytePos()
			a, b := 1, 2
			rg := normalizer.NewRange(bp[1], bp[2], on)
			if on == normalizer.OriginalTarget {
				// the original character the second one stands for, if it stands alone for it
				c := n.cs[1]
				if c.s == c.e {
					return nil, nil
				}
				a, b = n.charsOf(c.s, c.e)
				rg = normalizer.NewRange(c.s, c.e, on)
			}
			c := n.cs[b-1]
			cm := []normalizer.ChangeMap{{RuneVal: "1", Changes: 0}, {RuneVal: "二", Changes: 1}}
			n.cs = append(append(append([]nsChar{}, n.cs[:a]...), nsChar{'1', c.s, c.e}, nsChar{'二', c.s, c.e}), n.cs[b:]...)
			return n, r.TransformRange(rg, cm, b-a-1)
		}})
	}
	rangeOp("second-N", normalizer.NormalizedTarget)
	rangeOp("second-O", normalizer.OriginalTarget)
	// slices become the current string
	sl := func(name string, f func(l int) (int, int), on normalizer.IndexOn) {
		ops = append(ops, nsOp{name, func(t *core.T, n *nsRef, r *NS) (*nsRef, *NS) {
			if on == normalizer.NormalizedTarget {
				i, j := f(len(n.cs))
				if i < 0 || j > len(n.cs) || i > j {
					return nil, nil
				}
				bp := n.bytePos()
				return n.cut(i, j), r.Slice(normalizer.NewRange(bp[i], bp[j], on))
			}
			var op []int
			for i := range n.orig {
				op = append(op, i)
			}
			op = append(op, len(n.orig))
			i, j := f(len(op) - 1)
			if i < 0 || j >= len(op) || i > j {
				return nil, nil
			}
			return n.cutOrig(op[i], op[j]), r.Slice(normalizer.NewRange(op[i], op[j], on))
		}})
	}
	for _, on := range []normalizer.IndexOn{normalizer.NormalizedTarget, normalizer.OriginalTarget} {
		s := []string{"O", "N"}[on]
		sl("slice-tail-"+s, func(l int) (int, int) { return 1, l }, on)
		sl("slice-head-"+s, func(l int) (int, int) { return 0, l - 1 }, on)
	}
	// splits; one piece becomes the current string, all pieces are compared
	sp := func(name string, mk func() normalizer.Pattern, ms func(*nsRef) []nsMatch, b normalizer.SplitDelimiterBehavior, pick int) {
		ops = append(ops, nsOp{fmt.Sprintf("split-%s-%d-%d", name, b, pick), func(t *core.T, n *nsRef, r *NS) (*nsRef, *NS) {
			want := n.split(ms(n), b)
			got := r.Split(mk(), b)
			if len(got) != len(want) {
				var g []string
				for _, x := range got {
					g = append(g, x.GetNormalized())
				}
				t.Fatalf("split of %v gave %q, want %v", n, g, want)
			}
			for i := range got {
				want[i].same(t, &got[i])
			}
			n.same(t, r)
			if pick >= len(want) {
				return nil, nil
			}
			return want[pick], &got[pick]
		}})
	}
	for b := normalizer.SplitDelimiterBehavior(0); b <= normalizer.ContiguousBehavior; b++ {
		sp("space", func() normalizer.Pattern { return normalizer.NewRunePattern(' ') }, func(n *nsRef) []nsMatch { return n.matchStr(" ") }, b, 1)
		sp("wide", func() normalizer.Pattern { return normalizer.NewRegexpPattern(`[^\x00-\x7f]+`) }, func(n *nsRef) []nsMatch { return n.matchRuns(wide) }, b, int(b)%2)
	}
	return ops
}

type hashSet struct {
	mu [64]sync.Mutex
	m  [64]map[uint64]struct{}
}

func newHashSet() *hashSet {
	h := &hashSet{}
	for i := range h.m {
		h.m[i] = map[uint64]struct{}{}
	}
	return h
}

// add reports whether x is new.
func (h *hashSet) add(x uint64) bool {
	k := x & 63
	h.mu[k].Lock()
	defer h.mu[k].Unlock()
	if _, ok := h.m[k][x]; ok {
		return false
	}
	h.m[k][x] = struct{}{}
	return true
}

func c03(c *core.Ctx) {
	ops := nsOps()
	seen := newHashSet()
	run := func(t *core.T, text string, hist []int, full bool) (n *nsRef, ok bool) {
		n = newNsRef(text)
		r := normalizer.NewNormalizedFrom(text)
		for k, h := range hist {
			n, r = ops[h].do(t, n, r)
			if n == nil {
				return nil, false
			}
			if r == nil {
				t.Fatalf("%s returned nil", ops[h].name)
			}
			if k == len(hist)-1 || full {
				n.same(t, r)
			}
		}
		if len(hist) == 0 {
			n.same(t, r)
		}
		t.State(n.String())
		t.Op(len(hist) + 1)
		if (full && len(n.cs) < 30) || (len(n.cs) < 30 && seen.add(core.Hash(n.String()))) {
			n.queries(t, r)
		}
		return n, true
	}
	var dfs func(w *core.W, text string, hist []int, depth int)
	dfs = func(w *core.W, text string, hist []int, depth int) {
		key := q(text)
		for _, h := range hist {
			key += " " + ops[h].name
		}
		cont := w.Only != ""
		w.Case(key, func(t *core.T) { _, cont = run(t, text, hist, w.Only != "") })
		if !cont || len(hist) == depth || (w.Only != "" && !strings.HasPrefix(w.Only, key)) {
			return
		}
		for i := range ops {
			dfs(w, text, append(hist[:len(hist):len(hist)], i), depth)
		}
	}
	type job struct {
		text  string
		depth int
		first int
	}
	al := []string{"a", " ", "é", "世", "\u0301", "ﬁ", "İ", "\u212a", "\x00", "각"}
	var jobs []job
	add := func(texts []string, depth int) {
		for _, s := range texts {
			jobs = append(jobs, job{s, depth, -1})
		}
	}
	add(words(al[:6], 0, 2), 3)
	add(words(al, 0, 2), 2)
	add(words([]string{"a", " ", "é", "\u0301"}, 3, core.Pick(c, 3, 4)), 2)
	add([]string{"aé", "a é", " e\u0301a", "ﬁé世", "é a\u0301 ", "\u1100\u1161\u11a8x"}, 3)
	if c.Thorough() {
		add(words(al, 3, 3), 2)
		add(words(al, 0, 2), 3)
		add(words([]string{"a", " ", "é", "\u0301"}, 3, 3), 3)
		add([]string{"aé", "a é"}, 4)
	}
	// long ones, on which all conversions and cuts of every range are too many
	for _, n := range []int{33, core.Pick(c, 70, 140)} {
		for _, u := range []string{"a", "a ", "é", "aé 世", "e\u0301", "ﬁ\x00", " "} {
			add([]string{strings.Repeat(u, n), " " + strings.Repeat(u, n) + "a"}, 2)
		}
	}
	for _, u := range []string{"a", "é ", "a世\u0301", "İ ﬁ"} {
		add([]string{strings.Repeat(u, 300)}, 1)
	}
	// unicode corners: forms, case mapping and accents on single characters of every kind
	c.Par(0x110000/256, func(w *core.W, i int) {
		for cp := rune(i * 256); cp < rune(i*256+256); cp++ {
			if !utf8.ValidRune(cp) || !c.Thorough() && !interesting(cp) {
				continue
			}
			s := string(cp)
			for _, txt := range []string{s, "a" + s + "b"} {
				for h := 0; h < 7; h++ {
					w.Case(fmt.Sprintf("U+%04X in %q %s", cp, txt, ops[h].name), func(t *core.T) { run(t, txt, []int{h}, true) })
				}
			}
		}
	})
	// the deep ones are split by first operation to keep all workers busy
	var flat []job
	for _, j := range jobs {
		if j.depth >= 3 {
			for f := range ops {
				flat = append(flat, job{j.text, j.depth, f})
			}
		} else {
			flat = append(flat, j)
		}
	}
	c.Par(len(flat), func(w *core.W, i int) {
		j := flat[i]
		if j.first < 0 {
			dfs(w, j.text, nil, j.depth)
		} else {
			dfs(w, j.text, []int{j.first}, j.depth)
		}
	})
	c.Count("operations", int64(len(ops)))
	c.Count("texts", int64(len(jobs)))
}

// interesting characters are those some operation treats specially.
func interesting(r rune) bool {
	s := string(r)
	return norm.NFKD.String(s) != s || norm.NFC.String(s) != s || unicode.ToLower(r) != r || unicode.ToUpper(r) != r ||
		unicode.Is(unicode.Mn, r) || unicode.IsSpace(r) || unicode.IsControl(r)
}

func init() {
	core.Register(&core.Check{ID: "C03", Level: "model_checking", Run: c03,
		Rule: "texts up to a length bound over an alphabet of 1-3 byte, combining, ligature, case-changing and Hangul characters x all histories of editing operations up to a depth bound, compared after every step with a list-of-(character, original range) model on text, both alignments and shift, texts of 33 to 300 repetitions with all histories of length two (300: one), and on every new state of fewer than 30 characters with all conversions, substrings and slices of every range; every (thorough) or every specially treated (quick) Unicode character through the forms, case mappings and accent removal",
		Assumptions: []string{"texts are valid UTF-8", "an empty range converts to the same numbers (documented by the tests) and is excluded from conversion checks",
			"which former character of one normalization segment a new character stands for is left open"}})
}
