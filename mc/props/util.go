package props

import (
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"unicode/utf8"

	"verif/mc/core"
)

func init() {
	// the library logs and prints progress; none of it is an observation
	log.SetOutput(io.Discard)
	if len(os.Args) > 1 && os.Args[1] == "work" {
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = f
		}
	}
}

// words returns all sequences over alphabet with min<=len<=max, shortest first,
// concatenated.
func words(alphabet []string, min, max int) []string {
	var out []string
	cur := []string{""}
	for l := 0; l <= max; l++ {
		if l >= min {
			out = append(out, cur...)
		}
		if l == max {
			break
		}
		next := make([]string, 0, len(cur)*len(alphabet))
		for _, c := range cur {
			for _, a := range alphabet {
				next = append(next, c+a)
			}
		}
		cur = next
	}
	return out
}

// seqs returns all index sequences over n symbols with min<=len<=max.
func seqs(n, min, max int) [][]int {
	var out [][]int
	cur := [][]int{{}}
	for l := 0; l <= max; l++ {
		if l >= min {
			out = append(out, cur...)
		}
		if l == max {
			break
		}
		var next [][]int
		for _, c := range cur {
			for a := 0; a < n; a++ {
				d := make([]int, len(c)+1)
				copy(d, c)
				d[len(c)] = a
				next = append(next, d)
			}
		}
		cur = next
	}
	return out
}

// perms returns all permutations of 0..n-1.
func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := n - 1; i >= 0; i-- {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func ptr[T any](v T) *T { return &v }

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqOff(a, b [][]int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqInts(a[i], b[i]) {
			return false
		}
	}
	return true
}

func q(s string) string { return fmt.Sprintf("%q", s) }

func js(ss []string) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, s := range ss {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%q", s)
	}
	b.WriteByte(']')
	return b.String()
}

// scratchDir makes a directory for files, in memory when possible. The caller removes it.
func scratchDir(t *core.T) string {
	base := os.Getenv("VERIF_SCRATCH")
	d, err := os.MkdirTemp(base, "verif-mc-")
	if err != nil {
		if d, err = os.MkdirTemp("", "verif-mc-"); err != nil {
			t.Fatalf("scratch directory: %v", err)
		}
	}
	return d
}

// lcg is the generator behind the large instances: the same sequence in every run.
type lcg uint32

func (x *lcg) n(k int) int {
	*x = *x*1664525 + 1013904223
	return int(*x>>8) % k
}

// letters48 is an alphabet of 48 letters of one to four bytes.
func letters48() (out []string) {
	for i := 0; i < 12; i++ {
		out = append(out, string(rune('a'+i)), string(rune('а'+i)), string(rune('一'+i)), string(rune(0x1f600+i)))
	}
	return
}

// bigPieces returns n distinct pieces: the letters, then strings of 2 to 12 of them,
// and some of up to 300.
func bigPieces(n int) []string {
	out := letters48()
	have := map[string]bool{}
	for _, l := range out {
		have[l] = true
	}
	base := len(out)
	x := lcg(3)
	for len(out) < n {
		k := 2 + x.n(11)
		if len(out)%40 == 7 {
			k = 30 + x.n(270)
		}
		var b strings.Builder
		if len(out)%3 == 0 && len(out) > base { // a longer form of an earlier piece
			b.WriteString(out[base+x.n(len(out)-base)])
			k = 1 + x.n(3)
		}
		for ; k > 0; k-- {
			b.WriteString(out[x.n(core.If(len(out)%2 == 0, 8, base))])
		}
		if s := b.String(); !have[s] {
			have[s] = true
			out = append(out, s)
		}
	}
	return out
}

// bigTexts returns texts made of up to 260 of the pieces, some with foreign characters, and
// long runs.
func bigTexts(pieces []string, n int) (out []string) {
	x := lcg(11)
	for k := 0; k < n; k++ {
		var b strings.Builder
		for m := []int{1, 2, 3, 5, 9, 17, 33, 65, 129, 260}[k%10]; m > 0; m-- {
			p := pieces[x.n(len(pieces))]
			if len(p) > 60 && x.n(3) > 0 {
				p = p[:4]
				for !utf8.ValidString(p) {
					p = p[:len(p)-1]
				}
			}
			b.WriteString(p)
			if k%3 == 0 && x.n(20) == 3 {
				b.WriteString([]string{"Ω", "語", "𝄞"}[x.n(3)])
			}
		}
		out = append(out, b.String())
	}
	for _, m := range []int{64, 65, 130, 257, 1030} {
		out = append(out, strings.Repeat(pieces[0], m), strings.Repeat(pieces[2], m), strings.Repeat(pieces[len(pieces)-1], 1+m/20), strings.Repeat("Ω", m))
	}
	return
}

// prefixes returns beginnings and ends of s at character boundaries, the longest first: all
// of them below 40 characters and around powers of two.
func prefixes(s string) (out []string) {
	r := []rune(s)
	for n := len(r) - 1; n > 0; n-- {
		near := n < 40
		for _, p := range []int{64, 100, 128, 256, 512} {
			near = near || n >= p-3 && n <= p+1 || len(string(r[:n])) == p
		}
		if near {
			out = append(out, string(r[:n]), string(r[len(r)-n:]))
		}
	}
	return
}

// cousins are texts that something which mangles, shortens or hashes its keys takes for one
// another.
func cousins(long bool) []string {
	out := []string{"", "a", "A", "b", "ab", "ba", "AB", "Ab", " a", "a ", " ", "  ", "a\n", "\ta", "a\r\n",
		"é", "e\u0301", "e", "É", "ａ", "ß", "ss", "ﬁ", "fi", "a\u200b", "a\x00", "\x00a", "日", "日本", "本日", "日\u3000",
		"1", "１", "01", "a\ufe0f", "Aa", "BB", "abc", "cba", "cab", "aab", "abb", "aa", "aaa", "a.", "a,", "a-b", "a_b", "\"a\"", "<a>", "a\u0301", "a\u0302",
		// the same CRC-32, the same FNV-1a of 32 bits
		"plumless", "buckeroo", "costarring", "liquid", "declinate", "macallums"}
	if long {
		for _, n := range []int{15, 31, 63, 127, 255, 256} {
			x := strings.Repeat("ab", n/2+1)[:n]
			out = append(out, x, x+"a", x+"b", x+"c", "c"+x, "b"+x, x[:n/2]+"c"+x[n/2:], x[:n/2]+"b"+x[n/2:])
		}
	}
	return dedup(out)
}

func dedup(l []string) (out []string) {
	seen := map[string]bool{}
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// lettersOf are the characters of the texts, each once.
func lettersOf(l []string) []string {
	var out []string
	for _, s := range l {
		for _, r := range s {
			out = append(out, string(r))
		}
	}
	return dedup(out)
}

// forgets checks that what an instance answers for each text does not depend on the others it was
// asked before: all of them in this order, once more, and in the other order on another instance.
func forgets(t *core.T, texts []string, fresh func() func(string) string) {
	want := map[string]string{}
	for _, s := range texts {
		want[s] = fresh()(s)
	}
	there, back := fresh(), fresh()
	for round := range 2 {
		for i := range texts {
			for k, x := range []struct {
				f func(string) string
				s string
			}{{there, texts[i]}, {back, texts[len(texts)-1-i]}} {
				if g := x.f(x.s); g != want[x.s] {
					t.Fatalf("%.80q after %d others (direction %d, round %d): %s, a fresh one gives %s", x.s, i, k, round, g, want[x.s])
				}
				t.Op(1)
			}
		}
	}
}
