package props

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/core"

	"github.com/sugarme/tokenizer/util"
	slice "github.com/sugarme/tokenizer/util/slice"
)

// C29: the slice, range and line helpers do what they say for every slice and position.

func init() {
	core.Register(&core.Check{ID: "C29", Level: "model_checking",
		Rule:        "every slice up to the length bound over three items (numbers and texts, with and without room behind, nil), every position and pair of positions from before the start to past the end, every size: result or error of every helper compared with a definition on a plain list; every chain of two helpers on one slice; files of every text up to the bound over letters and line ends",
		Run:         c29,
		Assumptions: []string{"helpers that work in place may change the slice they are given and what lies behind it", "taking an item off an empty slice and ExpandInt/ExpandStr are not specified"}})
}

type c29Kit[T any] struct {
	name          string
	val           func(i int) T
	cp            func([]T) []T
	cut           func([]T, int, int) ([]T, error)
	del           func([]T, int) ([]T, error)
	extend        func([]T, int) ([]T, error)
	filter, filtN func([]T, func(T) bool) []T
	ins           func([]T, T, int) ([]T, error)
	insVec        func([]T, []T, int) ([]T, error)
	push, pushF   func([]T, T) []T
	pop, popF     func([]T) (T, []T)
	rev, revLR    func([]T) []T
	shuffle       func([]T) []T
	batch         func([]T, int) ([][]T, error)
	dedup         func([]T) []T
}

func c29Ins(l []int, at int, x ...int) []int {
	out := append([]int{}, l[:at]...)
	out = append(out, x...)
	return append(out, l[at:]...)
}

// c29One applies the helper numbered op (with parameters x and y) to list l and says what
// it gave; the model answer comes as a list, or as an error.
func c29One[T comparable](k c29Kit[T], l []int, spare, op, x, y int, nilIn bool) (in, got []T, gerr error, want []int, werr bool, msg string) {
	mk := func(l []int, spare int) []T {
		out := make([]T, 0, len(l)+spare)
		for _, v := range l {
			out = append(out, k.val(v))
		}
		return out
	}
	in = mk(l, spare)
	if nilIn && len(l) == 0 {
		in = nil
	}
	n := len(l)
	even := func(t T) bool { return t != k.val(1) }
	keep := func() (out []int) {
		for _, v := range l {
			if v != 1 {
				out = append(out, v)
			}
		}
		return
	}
	revd := func() (out []int) {
		for i := n - 1; i >= 0; i-- {
			out = append(out, l[i])
		}
		return
	}
	switch op {
	case 0:
		got, want = k.cp(in), l
		if n > 0 && &got[0] == &in[0] {
			msg = "shares memory with the original"
		}
	case 1:
		got, gerr = k.cut(in, x, y)
		if werr = x < 0 || y > n || x > y; !werr {
			want = append(append([]int{}, l[:x]...), l[y:]...)
		}
	case 2:
		got, gerr = k.del(in, x)
		if werr = x < 0 || x >= n; !werr {
			want = append(append([]int{}, l[:x]...), l[x+1:]...)
		}
	case 3:
		got, gerr = k.extend(in, x)
		if werr = x <= 0; !werr {
			want = append(append([]int{}, l...), make([]int, x)...)
		}
	case 4:
		got, want = k.filter(in, even), keep()
	case 5:
		got, want = k.filtN(in, even), keep()
	case 6:
		got, gerr = k.ins(in, k.val(2), x)
		if werr = x < 0 || x > n; !werr {
			want = c29Ins(l, x, 2)
		}
	case 7:
		vec := [][]int{{}, {1}, {2, 0}}[y%3]
		got, gerr = k.insVec(in, mk(vec, 0), x)
		if werr = x < 0 || x > n; !werr {
			want = c29Ins(l, x, vec...)
		}
	case 8:
		got, want = k.push(in, k.val(1)), c29Ins(l, n, 1)
	case 9:
		got, want = k.pushF(in, k.val(1)), c29Ins(l, 0, 1)
	case 10, 11:
		if n == 0 {
			return in, in, nil, l, false, ""
		}
		var v T
		if op == 10 {
			v, got = k.pop(in)
			want = l[:n-1]
		} else {
			v, got = k.popF(in)
			want = l[1:]
		}
		if v != k.val(core.If(op == 10, l[n-1], l[0])) {
			msg = fmt.Sprintf("took %v", v)
		}
	case 12:
		got, want = k.rev(in), revd()
	case 13:
		got, want = k.revLR(in), revd()
	case 14:
		got, want = slice.Reverse(in), revd()
		for i, v := range l {
			if in[i] != k.val(v) {
				msg = "changed the slice it was given"
			}
		}
	case 15: // any order will do
		got = k.shuffle(in)
		left := append([]int{}, l...)
		for _, g := range got {
			for i, v := range left {
				if k.val(v) == g {
					want = append(want, v)
					left = append(left[:i], left[i+1:]...)
					break
				}
			}
		}
		if len(left) > 0 {
			msg = fmt.Sprintf("%v are gone", left)
		}
	case 16:
		var bs [][]T
		bs, gerr = k.batch(in, x)
		if werr = x <= 0; !werr {
			want = l
			for i, b := range bs {
				if len(b) > x || i < len(bs)-1 && len(b) != x || len(b) == 0 && n > 0 {
					msg = fmt.Sprintf("batch %d of %d has %d items", i, len(bs), len(b))
				}
				got = append(got, b...)
			}
			for i, b := range bs { // each may grow
				if i < len(bs)-1 {
					_ = append(b, k.val(1), k.val(0))
				}
			}
			at := 0
			for i, b := range bs {
				for _, v := range b {
					if v != got[at] {
						msg = fmt.Sprintf("batch %d shares memory with the one before it", i)
					}
					at++
				}
			}
		}
	case 17:
		got = k.dedup(in)
		s := append([]int{}, l...)
		sort.Ints(s)
		for i, v := range s {
			if i == 0 || v != s[i-1] {
				want = append(want, v)
			}
		}
	case 18:
		got, want = in, l
		for v := 0; v < 3; v++ {
			has := false
			for _, z := range l {
				has = has || z == v
			}
			if slice.Contain(k.val(v), in) != has {
				msg = fmt.Sprintf("Contain(%v) %v", k.val(v), !has)
			}
		}
	case 19:
		vec := [][]int{{}, {1}, {2, 0}}[y%3]
		b := mk(vec, spare)
		got, want = util.Merge(in, b), c29Ins(l, n, vec...)
		for i := range got {
			g := got[i]
			got[i] = k.val(7)
			if i < n && in[i] != k.val(l[i]) || i >= n && b[i-n] != k.val(vec[i-n]) {
				msg = "shares memory with what it was made of"
			}
			got[i] = g
		}
	}
	return
}

const c29Ops = 20

// the parameters a helper takes: 0 none, 1 a position or size, 2 two
var c29Pars = [c29Ops]int{1: 2, 2: 1, 3: 1, 6: 1, 7: 2, 16: 1, 19: 2}

func c29Run[T comparable](c *core.Ctx, k c29Kit[T]) {
	ls := seqs(3, 0, core.Pick(c, 5, 6))
	c.Par(c29Ops, func(w *core.W, op int) {
		for _, l := range ls {
			w.Case(fmt.Sprintf("%s helper %d on %v", k.name, op, l), func(t *core.T) {
				for _, spare := range []int{0, 1, 9} {
					for x := -2; x <= len(l)+2; x++ {
						for y := -2; y <= len(l)+2; y++ {
							if c29Pars[op] < 2 && y > -2 || c29Pars[op] < 1 && x > -2 {
								continue
							}
							if (op == 7 || op == 19) && y < 0 {
								continue
							}
							what := fmt.Sprintf("spare=%d x=%d y=%d", spare, x, y)
							_, got, gerr, want, werr, msg := c29One(k, l, spare, op, x, y, spare == 1)
							c29Judge(t, k, what, got, gerr, want, werr, msg)
							if gerr != nil || werr || msg != "" || len(l) > 3 {
								continue
							}
							// chained: the result is a slice like any other
							for op2 := 0; op2 < c29Ops; op2++ {
								if c29Pars[op2] == 2 {
									continue
								}
								for x2 := -1; x2 <= len(want)+1; x2++ {
									if c29Pars[op2] == 0 && x2 > -1 {
										break
									}
									_, again, _, _, _, _ := c29One(k, l, spare, op, x, y, spare == 1)
									if op == 15 {
										continue
									}
									_, g2, e2, w2, we2, m2 := c29One(c29On(k, again), want, 0, op2, x2, 0, false)
									c29Judge(t, k, fmt.Sprintf("%s then helper %d (%d)", what, op2, x2), g2, e2, w2, we2, m2)
								}
							}
						}
					}
				}
				t.State(fmt.Sprint(k.name, op, l))
			})
		}
	})
}

// c29On is the kit whose helpers get the given slice instead of a fresh one.
func c29On[T comparable](k c29Kit[T], s []T) c29Kit[T] {
	k.name = k.name + " chained"
	o := k
	k.cp = func([]T) []T { return o.cp(s) }
	k.del = func(_ []T, i int) ([]T, error) { return o.del(s, i) }
	k.extend = func(_ []T, i int) ([]T, error) { return o.extend(s, i) }
	k.filter = func(_ []T, f func(T) bool) []T { return o.filter(s, f) }
	k.filtN = func(_ []T, f func(T) bool) []T { return o.filtN(s, f) }
	k.ins = func(_ []T, v T, i int) ([]T, error) { return o.ins(s, v, i) }
	k.push = func(_ []T, v T) []T { return o.push(s, v) }
	k.pushF = func(_ []T, v T) []T { return o.pushF(s, v) }
	k.pop = func([]T) (T, []T) { return o.pop(s) }
	k.popF = func([]T) (T, []T) { return o.popF(s) }
	k.rev = func([]T) []T { return o.rev(s) }
	k.revLR = func([]T) []T { return o.revLR(s) }
	k.shuffle = func([]T) []T { return o.shuffle(s) }
	k.batch = func(_ []T, i int) ([][]T, error) { return o.batch(s, i) }
	k.dedup = func([]T) []T { return o.dedup(s) }
	return k
}

func c29Judge[T comparable](t *core.T, k c29Kit[T], what string, got []T, gerr error, want []int, werr bool, msg string) {
	t.Op(1)
	switch {
	case msg != "":
		t.Errorf("%s: %s", what, msg)
	case (gerr != nil) != werr:
		t.Errorf("%s: error %v, want one: %v", what, gerr, werr)
	case werr:
	case len(got) != len(want):
		t.Errorf("%s: %v, want %v", what, got, want)
	default:
		for i := range got {
			if got[i] != k.val(want[i]) {
				t.Errorf("%s: %v, want %v", what, got, want)
				return
			}
		}
	}
}

func c29(c *core.Ctx) {
	c29Run(c, c29Kit[int]{"int", func(i int) int { return i }, slice.CopyInt, slice.CutInt, slice.DeleteInt, slice.ExtendInt, slice.FilterInt, slice.FilterIntNoAllocate, slice.InsertInt, slice.InsertVecInt, slice.PushInt, slice.PushFrontInt, slice.PopInt, slice.PopFrontInt, slice.ReverseInt, slice.ReverseLRInt, slice.ShuffleInt, slice.BatchInt, slice.DeduplicateInt})
	c29Run(c, c29Kit[string]{"text", func(i int) string { return []string{"", "a", "é", "3", "4", "5", "6", "z"}[i] }, slice.CopyStr, slice.CutStr, slice.DeleteStr, slice.ExtendStr, slice.FilterStr, slice.FilterStrNoAllocate, slice.InsertStr, slice.InsertVecStr, slice.PushStr, slice.PushFrontStr, slice.PopStr, slice.PopFrontStr, slice.ReverseStr, slice.ReverseLRStr, slice.ShuffleStr, slice.BatchStr, slice.DeduplicateStr})
	// ranges, extremes, pairs
	ls := seqs(4, 0, core.Pick(c, 5, 6))
	c.Par(4, func(w *core.W, part int) {
		for i := part; i < len(ls); i += 4 {
			l := ls[i]
			w.Case(fmt.Sprintf("list %v", l), func(t *core.T) {
				c29List(t, l)
				t.State(fmt.Sprint(l))
			})
		}
		for a := -3; a < 6 && part == 0; a++ {
			w.Case(fmt.Sprintf("range from %d", a), func(t *core.T) {
				for b := a; b < 8; b++ {
					var want []int
					for v := a; v < b; v++ {
						want = append(want, v)
					}
					if g := util.MakeRange(a, b); !eqInts(g, want) {
						t.Errorf("MakeRange(%d, %d) = %v", a, b, g)
					}
					t.Op(1)
				}
			})
		}
	})
	// lines
	ts := words([]string{"a", "é ", "\n", "\r\n", ""}, 0, core.Pick(c, 5, 6))
	ts = append(ts, strings.Repeat("x", 5000)+"\n"+strings.Repeat("y\n", 5000))
	c.Par(16, func(w *core.W, part int) {
		w.Case(fmt.Sprintf("lines of every 16th text from %d", part), func(t *core.T) {
			f := filepath.Join(scratchDir(t), "f")
			for i := part; i < len(ts); i += 16 {
				if err := os.WriteFile(f, []byte(ts[i]), 0o644); err != nil {
					t.Fatalf("%v", err)
				}
				var want []string
				s := strings.TrimSuffix(ts[i], "\n")
				if ts[i] != "" {
					for _, l := range strings.Split(s, "\n") {
						want = append(want, strings.TrimSuffix(l, "\r"))
					}
				}
				for _, keep := range []bool{false, true} {
					if keep {
						want = append([]string{}, want...)
						for k := range want {
							want[k] += "\n"
						}
					}
					got, err := util.ReadAllLn(f, keep)
					if err != nil || !eqStrs(got, want) {
						t.Errorf("ReadAllLn(keep=%v): %.200q %v, want %.200q", keep, got, err, want)
					}
					t.Op(1)
				}
				if n, err := util.FileSize(f); err != nil || n != int64(len(ts[i])) {
					t.Errorf("FileSize: %d %v of %d bytes", n, err, len(ts[i]))
				}
				t.State(ts[i])
			}
		})
	})
}

func c29List(t *core.T, l []int) {
	var any []interface{}
	var f64 []float64
	var ss []string
	lo, hi := 9, -9
	for _, v := range l {
		any = append(any, v)
		f64 = append(f64, float64(v)/2)
		ss = append(ss, fmt.Sprint(v))
		lo, hi = min(lo, v), max(hi, v)
	}
	if len(l) > 0 {
		if a, b := util.MinMax(l); a != lo || b != hi {
			t.Errorf("MinMax: %d %d", a, b)
		}
		if a, b := util.MinMaxFloat64(f64); a != float64(lo)/2 || b != float64(hi)/2 {
			t.Errorf("MinMaxFloat64: %v %v", a, b)
		}
	}
	for v := 0; v < 5; v++ {
		has := false
		for _, x := range l {
			has = has || x == v
		}
		if util.StringInSlice(fmt.Sprint(v), ss) != has || util.Contains(ss, fmt.Sprint(v)) != has {
			t.Errorf("%d in %v is not %v", v, l, has)
		}
		j := strings.Join(ss, "é")
		at, err := util.StringIndex(j, fmt.Sprint(v))
		if at != strings.Index(j, fmt.Sprint(v)) || (err == nil) != has {
			t.Errorf("StringIndex(%q, %d): %d %v", j, v, at, err)
		}
	}
	if g := util.CastSlice[int](any); !eqInts(g, l) {
		t.Errorf("CastSlice: %v", g)
	}
	if g := util.ConvertSlice[int, float64](l); len(g) != len(l) {
		t.Errorf("ConvertSlice: %v", g)
	} else {
		for i := range g {
			if g[i] != float64(l[i]) {
				t.Errorf("ConvertSlice: %v", g)
			}
		}
	}
	var zip [][2]int
	two := append([]int{}, l...)
	for i := range two {
		two[i] += 10
	}
	if err := util.Zip(l, two, &zip); err != nil || len(zip) != len(l) {
		t.Errorf("Zip: %v %v", zip, err)
	}
	for i := range zip {
		if zip[i] != [2]int{l[i], two[i]} {
			t.Errorf("Zip: %v", zip)
		}
	}
	if err := util.Zip(l, append(two, 1), &zip); err == nil {
		t.Errorf("Zip of different lengths: %v", zip)
	}
	if g := util.Repeat("é", len(l)); len(g) != len(l) || strings.Join(g, "") != strings.Repeat("é", len(l)) {
		t.Errorf("Repeat: %v", g)
	}
	var deep []int
	if err := util.DeepCopy(l, &deep); err != nil || !eqInts(deep, l) {
		t.Errorf("DeepCopy: %v %v", deep, err)
	} else if len(l) > 0 && &deep[0] == &l[0] {
		t.Errorf("DeepCopy shares memory")
	}
	t.Op(8)
}
