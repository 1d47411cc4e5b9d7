package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
)

func init() {
	core.Register(&core.Check{ID: "C19", Level: "model_checking", Hang: time.Hour,
		Rule:        "part 1: all histories up to the depth of set (one, two or three items, new, known and repeated keys), clear and reads on a cache of capacity 0-3, with every read after each step against a reference table. part 2: all histories of tokenize, clear and dropout switching on cached BPE models of capacity 1-4, compared with the same model without a cache. part 3: all schedules within a preemption bound of 2-3 goroutines of up to two cache operations each (the results must be those of some order of the operations) and of goroutines tokenizing and clearing one model, on the controlled scheduler with the race detector. Non-trivial: an entry was served from the cache or refused for lack of room.",
		Run:         c19,
		Assumptions: []string{"What is set while the cache has no room for all of it may be dropped, new or not (as upstream does).", "The two dropout settings used (none and always) make no random choice."}})
}

func c19(c *core.Ctx) {
	c19cache(c)
	c19large(c)
	c19model(c)
	c19cousins(c)
	schedRun(c, "C19")
}

type c19op struct {
	name string
	keys []string
	do   string // set clear
}

func c19cache(c *core.Ctx) {
	keys := []string{"a", "b", "", "c"}
	var ops []c19op
	for _, l := range append(append(seqs(3, 1, 1), seqs(4, 2, 2)...), [][]int{{}, {0, 1, 2}, {0, 0, 1}, {3, 2, 1, 0}}...) {
		o := c19op{do: "set"}
		for _, k := range l {
			o.keys = append(o.keys, keys[k])
		}
		o.name = fmt.Sprintf("set %q", o.keys)
		ops = append(ops, o)
	}
	ops = append(ops, c19op{name: "clear", do: "clear"})
	depth := core.Pick(c, 4, 5)
	c.Count("cache operations", int64(len(ops)))
	c.Count("cache history depth", int64(depth))
	caps := []int{0, 1, 2, 3}
	first := seqs(len(ops), 2, 2)
	c.Par(len(first)*len(caps), func(w *core.W, i int) {
		capacity, pre := caps[i%len(caps)], first[i/len(caps)]
		w.Case(fmt.Sprintf("cache/%d/%v", capacity, pre), func(t *core.T) {
			bad := false
			var rec func(h []int)
			rec = func(h []int) {
				if bad {
					return
				}
				if len(h) == depth {
					bad = !c19history(t, ops, keys, capacity, h)
					return
				}
				for o := range ops {
					rec(append(h[:len(h):len(h)], o))
				}
			}
			rec(pre)
		})
	})
}

// c19large: caches of usual sizes filled past their capacity, words without symbols and with
// many.
func c19large(c *core.Ctx) {
	caps := []int{5, 64, 255, 256, 1000, bpe.DefaultCacheCapacity}
	c.Par(len(caps)*4, func(w *core.W, i int) {
		capacity, step := caps[i/4], []int{1, 2, 3, 7}[i%4]
		w.Case(fmt.Sprintf("large cache/%d/%d", capacity, step), func(t *core.T) {
			ca := bpe.NewCache(capacity)
			wordOf := func(n int) (out bpe.Word) {
				for k := range n % 4 {
					out.Symbols = append(out.Symbols, bpe.Symbol{C: n + k, Len: 1})
				}
				return out
			}
			same := func(a, b bpe.Word) bool {
				if len(a.Symbols) != len(b.Symbols) {
					return false
				}
				for i := range a.Symbols {
					if a.Symbols[i] != b.Symbols[i] {
						return false
					}
				}
				return true
			}
			for round := range 2 {
				var in []string
				for n := 0; n < capacity+3*step; n += step {
					var items []bpe.CacheItem
					for k := range step {
						items = append(items, bpe.CacheItem{Key: fmt.Sprint("w", n+k), Value: wordOf(n + k + round)})
					}
					room := capacity-len(in) >= step
					ca.SetValues(items)
					t.Op(1)
					for _, it := range items {
						g, ok := ca.Get(it.Key)
						if room && !ok {
							t.Fatalf("%d entries: %q was not stored although there was room", len(in), it.Key)
						}
						if ok && !same(g, it.Value) {
							t.Fatalf("%d entries: %q gives %v, stored was %v", len(in), it.Key, g, it.Value)
						}
						if ok {
							in = append(in, it.Key)
						}
					}
					if ca.GetSize() != len(in) || len(in) > capacity || ca.IsFull() != (len(in) == capacity) {
						t.Fatalf("size %d, full %v, with %d entries", ca.GetSize(), ca.IsFull(), len(in))
					}
				}
				for i, k := range append(in[:len(in):len(in)], "other") {
					var n int
					fmt.Sscanf(k, "w%d", &n)
					g, ok := ca.Get(k)
					if ok != (i < len(in)) || ok && !same(g, wordOf(n+round)) {
						t.Fatalf("%q gives %v %v in the end", k, g, ok)
					}
				}
				for i, g := range ca.GetValues(in) {
					var n int
					fmt.Sscanf(in[i], "w%d", &n)
					if !same(g, wordOf(n+round)) {
						t.Fatalf("GetValues gives %v for %q", g, in[i])
					}
				}
				ca.Clear()
				if ca.GetSize() != 0 || ca.IsFull() {
					t.Fatalf("size %d, full %v after Clear", ca.GetSize(), ca.IsFull())
				}
				if len(in) > 0 {
					if _, ok := ca.Get(in[0]); ok {
						t.Fatalf("%q is still there after Clear", in[0])
					}
				}
			}
			t.State(fmt.Sprint("large", capacity))
		})
	})
}

func c19word(n int) bpe.Word { return bpe.Word{Symbols: []bpe.Symbol{{C: n, Len: 1}}} }

func c19history(t *core.T, ops []c19op, keys []string, capacity int, h []int) bool {
	ca := bpe.NewCache(capacity)
	has := map[string]int{}
	val := func(w bpe.Word, ok bool) int {
		if !ok || len(w.Symbols) != 1 {
			return -1
		}
		return w.Symbols[0].C
	}
	tell := func(f string, a ...any) bool {
		var l []string
		for _, x := range h {
			l = append(l, ops[x].name)
		}
		t.Errorf("cache of %d after %s: %s", capacity, strings.Join(l, "; "), fmt.Sprintf(f, a...))
		return false
	}
	next := 0
	for step, x := range h {
		o := ops[x]
		t.Op(1)
		now := map[string]int{}
		if o.do == "clear" {
			ca.Clear()
			for _, k := range keys {
				if _, ok := ca.Get(k); ok {
					return tell("step %d: %q is still there", step, k)
				}
			}
		} else {
			room := capacity-len(has) >= len(o.keys)
			var items []bpe.CacheItem
			may := map[string][]int{}
			for _, k := range o.keys {
				next++
				items = append(items, bpe.CacheItem{Key: k, Value: c19word(next)})
				may[k] = append(may[k], next)
			}
			ca.SetValues(items)
			for _, k := range keys {
				old, had := has[k]
				w, ok := ca.Get(k)
				v := val(w, ok)
				if !ok {
					if had {
						return tell("step %d: the entry %q is gone", step, k)
					}
					if room && len(may[k]) > 0 {
						return tell("step %d: %q was not stored although there was room", step, k)
					}
					continue
				}
				fine := had && v == old && !(room && len(may[k]) > 0)
				for j, m := range may[k] {
					fine = fine || v == m && (!room || j == len(may[k])-1)
				}
				if !fine {
					return tell("step %d: %q gives value %d; before %d (%v), set now %v", step, k, v, old, had, may[k])
				}
				now[k] = v
			}
		}
		has = now
		if len(has) > capacity {
			return tell("step %d: %d entries", step, len(has))
		}
		if ca.GetSize() != len(has) || ca.IsFull() != (len(has) >= capacity) {
			return tell("step %d: size %d, full %v, with %d entries", step, ca.GetSize(), ca.IsFull(), len(has))
		}
		ask := []string{"c", "b", "a", "", "zz", "a"}
		got := ca.GetValues(ask)
		if len(got) != len(ask) {
			return tell("step %d: GetValues of %d keys gives %d values", step, len(ask), len(got))
		}
		for i, k := range ask {
			v, ok := has[k]
			if ok != (len(got[i].Symbols) > 0) || ok && got[i].Symbols[0].C != v {
				return tell("step %d: GetValues gives %+v for %q, Get %d %v", step, got[i], k, v, ok)
			}
		}
	}
	var l []string
	for k := range has {
		l = append(l, k)
	}
	sort.Strings(l)
	t.State(fmt.Sprint(capacity, l))
	return true
}

func c19model(c *core.Ctx) {
	type def struct {
		d     *bpeDef
		words []string
	}
	defs := []def{
		{newBpeDef([]string{"a", "b", "c"}, [][2]int{{0, 1}, {3, 2}, {1, 2}}, "", ""), []string{"abc", "bca", "ab", "abq", "qq"}},
		{newBpeDef([]string{"a", "##a", "##b", "b"}, [][2]int{{0, 1}, {4, 2}}, "##", ""), []string{"aab", "aa", "baa", "é", "a"}},
		{newBpeDef([]string{"a", "b", "b</w>", "a</w>"}, [][2]int{{0, 2}, {0, 1}}, "", "</w>"), []string{"ab", "aba", "a", "aab", "b b"}},
		{newBpeDef([]string{"日", "é", " "}, [][2]int{{0, 1}, {0, 0}}, "", ""), []string{"日é", "日日é", "é ", "e\u0301", "\n"}},
	}
	depth := core.Pick(c, 5, 6)
	c.Count("model history depth", int64(depth))
	always := float32(1)
	caps := []int{1, 2, 3, 4}
	type job struct{ d, c, first int }
	var jobs []job
	for d := range defs {
		for _, k := range caps {
			for f := 0; f < len(defs[d].words)+2; f++ {
				jobs = append(jobs, job{d, k, f})
			}
		}
	}
	c.Par(len(jobs), func(w *core.W, i int) {
		j := jobs[i]
		d := defs[j.d]
		n := len(d.words) + 2
		w.Case(fmt.Sprintf("model/%d/%d/%d", j.d, j.c, j.first), func(t *core.T) {
			plain, err := d.d.build(0, nil)
			if err != nil {
				t.Fatalf("%v", err)
			}
			drop, err := d.d.build(0, &always)
			if err != nil {
				t.Fatalf("%v", err)
			}
			want := map[bool][][]tokenizer.Token{}
			for _, x := range d.words {
				a, e1 := plain.Tokenize(x)
				b, e2 := drop.Tokenize(x)
				if e1 != nil || e2 != nil {
					t.Fatalf("Tokenize(%q): %v %v", x, e1, e2)
				}
				want[false], want[true] = append(want[false], a), append(want[true], b)
			}
			for _, rest := range seqs(n, 0, depth-1) {
				h := append([]int{j.first}, rest...)
				m, err := d.d.build(j.c, nil)
				if err != nil {
					t.Fatalf("%v", err)
				}
				t.Op(len(h))
				for step, o := range h {
					switch o {
					case n - 1:
						m.ClearCache()
						continue
					case n - 2:
						if m.Dropout == nil {
							m.Dropout = &always
						} else {
							m.Dropout = nil
						}
						continue
					}
					got, err := m.Tokenize(d.words[o])
					if err != nil || !reflect.DeepEqual(got, want[m.Dropout != nil][o]) {
						t.Fatalf("%v with a cache of %d, history %v (words %q, then dropout, clear), step %d: %v (%v), without a cache %v", d.d, j.c, h, d.words, step, got, err, want[m.Dropout != nil][o])
					}
					if m.Cache.GetSize() > j.c {
						t.Fatalf("%v: the cache of %d holds %d entries after %v", d.d, j.c, m.Cache.GetSize(), h[:step+1])
					}
				}
				t.State(fmt.Sprint(j.d, j.c, m.Cache.GetSize(), h[len(h)-1]))
			}
		})
	})
}

// c19cousins: words that differ in what a cache may overlook.
func c19cousins(c *core.Ctx) {
	fam := cousins(true)
	ls := lettersOf(fam)
	var base []string
	for _, l := range ls {
		base = append(base, l)
	}
	plain := newBpeDef(base, [][2]int{{0, 1}, {0, 0}}, "", "")
	base = nil
	for _, l := range ls {
		base = append(base, l, "##"+l)
	}
	pre := newBpeDef(base, [][2]int{{0, 3}}, "##", "")
	for i, d := range []*bpeDef{plain, pre} {
		for _, capacity := range []int{1, 7, 10000} {
			c.Seq().Case(fmt.Sprintf("cousins/%d/%d", i, capacity), func(t *core.T) {
				forgets(t, fam, func() func(string) string {
					m, err := d.build(capacity, nil)
					if err != nil {
						t.Fatalf("%v", err)
					}
					return func(s string) string {
						toks, err := m.Tokenize(s)
						return fmt.Sprint(toks, err)
					}
				})
				t.State(fmt.Sprint("cousins", i, capacity))
			})
		}
	}
}
