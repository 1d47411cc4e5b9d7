package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
)

// C27: ranges of a text in bytes and in characters convert into each other.

func init() {
	core.Register(&core.Check{ID: "C27", Level: "model_checking",
		Rule:        "every text up to the length bound over characters of one to four bytes, texts of up to several hundred characters, and on each every pair of positions from before the start to past the end (for the long ones a grid with every boundary near the ends): BytesToChar, CharToBytes, RangeOf and the byte-to-character converter are compared with positions counted by hand; ranges of both kinds are converted there and back",
		Run:         c27,
		Assumptions: []string{"texts are valid UTF-8", "an empty range at the end of the text and ranges that run backwards have no specified conversion"}})
}

func c27Text(t *core.T, s string, grid func(n int) []int) {
	// by hand: where every character starts
	var starts []int
	for i := 0; i < len(s); {
		starts = append(starts, i)
		_, n := utf8.DecodeRuneInString(s[i:])
		i += n
	}
	starts = append(starts, len(s))
	n := len(starts) - 1
	charAt := make([]int, len(s)+1) // of every byte
	bound := make([]bool, len(s)+1)
	for c := 0; c < n; c++ {
		for b := starts[c]; b < starts[c+1]; b++ {
			charAt[b] = c
		}
		bound[starts[c]] = true
	}
	charAt[len(s)], bound[len(s)] = n, true
	conv := tokenizer.NewBytesToCharOffsetConverter(s)
	bs := grid(len(s))
	for _, a := range bs {
		for _, b := range bs {
			got, err := conv.Convert([]int{a, b})
			inside := a >= 0 && a <= len(s) && b >= 0 && b <= len(s)
			switch {
			case !inside:
				if err == nil {
					t.Errorf("%q: bytes [%d,%d) outside the text converted to %v", s, a, b, got)
				}
			case err != nil:
				t.Errorf("%q: bytes [%d,%d): %v", s, a, b, err)
			case len(got) != 2 || got[0] != charAt[a] || got[1] != charAt[b]:
				t.Errorf("%q: bytes [%d,%d) converted to characters %v, want [%d %d]", s, a, b, got, charAt[a], charAt[b])
			}
			t.Op(1)
			if a < 0 || a > b || a >= len(s) && b > 0 {
				continue
			}
			// a range that does not begin and end between characters has no conversion: -1
			in := func(x int) int {
				if x > len(s) || !bound[x] {
					return -1
				}
				return charAt[x]
			}
			w := []int{in(a), in(b)}
			if g := normalizer.BytesToChar(s, []int{a, b}); len(g) != 2 || w[0] >= 0 && w[1] >= 0 && !eqInts(g, w) || (w[0] < 0 || w[1] < 0) && g[0] != -1 && g[1] != -1 {
				t.Errorf("BytesToChar(%q, [%d %d]) = %v, want %v", s, a, b, g, w)
			} else if w[0] >= 0 && w[1] > w[0] {
				if back := normalizer.CharToBytes(s, g); !eqInts(back, []int{a, b}) {
					t.Errorf("%q: bytes [%d %d] are characters %v are bytes %v", s, a, b, g, back)
				}
			}
			t.Op(1)
		}
	}
	cs := grid(n)
	rs := []rune(s)
	for _, a := range cs {
		for _, b := range cs {
			w := ""
			if a >= 0 && a < n && b > a {
				w = string(rs[a:min(b, n)])
			}
			if a >= 0 && b >= 0 {
				if g := normalizer.RangeOf(s, []int{a, b}); g != w {
					t.Errorf("RangeOf(%q, [%d %d]) = %q, want %q", s, a, b, g, w)
				}
				t.Op(1)
			}
			if a < 0 || a > b || a == b && a >= n && a > 0 {
				continue
			}
			want := []int{-1, -1} // no character there
			if a < n || a == 0 && b == 0 {
				want = []int{starts[a], starts[min(b, n)]}
			}
			if g := normalizer.CharToBytes(s, []int{a, b}); !eqInts(g, want) {
				t.Errorf("CharToBytes(%q, [%d %d]) = %v, want %v", s, a, b, g, want)
			} else if w != "" && s[g[0]:g[1]] != w {
				t.Errorf("characters [%d %d] of %q are %q, by bytes %q", a, b, s, w, s[g[0]:g[1]])
			}
			t.Op(1)
		}
	}
	t.State(s)
}

func c27(c *core.Ctx) {
	ts := words([]string{"a", "é", "日", "😀", " ", "\u0301"}, 0, core.Pick(c, 5, 6))
	all := func(n int) (out []int) {
		for i := -2; i <= n+2; i++ {
			out = append(out, i)
		}
		return
	}
	const per = 200
	c.Par((len(ts)+per-1)/per, func(w *core.W, i int) {
		part := ts[i*per : min((i+1)*per, len(ts))]
		w.Case(fmt.Sprintf("texts %q..", part[0]), func(t *core.T) {
			for _, s := range part {
				c27Text(t, s, all)
			}
		})
	})
	var long []string
	for _, n := range []int{31, 64, 128, 257} {
		for _, u := range []string{"a", "é", "日a", "a😀é", "e\u0301 "} {
			long = append(long, strings.Repeat(u, n), strings.Repeat("x", n)+u+strings.Repeat("y", n))
		}
	}
	some := func(n int) (out []int) {
		for i := -1; i <= n+1; i++ {
			if i < 12 || i > n-12 || i%29 < 4 || i%256 < 3 {
				out = append(out, i)
			}
		}
		return
	}
	c.Par(len(long), func(w *core.W, i int) {
		w.Case(fmt.Sprintf("long %d %q..", len(long[i]), long[i][:8]), func(t *core.T) { c27Text(t, long[i], core.If(len(long[i]) < 80, all, some)) })
	})
}
