//go:build verifoverlay

package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/sugarme/tokenizer/model/bpe"
)

func init() { table["C19"] = c19 }

type cacheOp struct {
	name string
	run  func(c *bpe.Cache) string
}

func word(n int) bpe.Word { return bpe.Word{Symbols: []bpe.Symbol{{C: n, Prev: -1, Next: -1, Len: 1}}} }

func showWord(w bpe.Word) string {
	if len(w.Symbols) == 0 {
		return "-"
	}
	return fmt.Sprint(w.Symbols[0].C)
}

func cacheOps() []cacheOp {
	set := func(kv ...any) cacheOp {
		var items []bpe.CacheItem
		var n []string
		for i := 0; i < len(kv); i += 2 {
			items = append(items, bpe.CacheItem{Key: kv[i].(string), Value: word(kv[i+1].(int))})
			n = append(n, fmt.Sprintf("%v=%v", kv[i], kv[i+1]))
		}
		return cacheOp{"set " + strings.Join(n, ","), func(c *bpe.Cache) string { c.SetValues(items); return "" }}
	}
	get := func(k string) cacheOp {
		return cacheOp{"get " + k, func(c *bpe.Cache) string {
			w, ok := c.Get(k)
			return fmt.Sprint(showWord(w), ok)
		}}
	}
	return []cacheOp{
		set("a", 1), set("a", 2), set("b", 3), set("a", 4, "b", 5), get("a"), get("b"),
		{"values", func(c *bpe.Cache) string {
			var out []string
			for _, w := range c.GetValues([]string{"a", "b", "c"}) {
				out = append(out, showWord(w))
			}
			return strings.Join(out, " ")
		}},
		{"clear", func(c *bpe.Cache) string { c.Clear(); return "" }},
		{"size", func(c *bpe.Cache) string { return fmt.Sprint(c.GetSize()) }},
		{"full", func(c *bpe.Cache) string { return fmt.Sprint(c.IsFull()) }},
	}
}

// final looks at a cache when all is over.
func final(c *bpe.Cache) string {
	a, ok := c.Get("a")
	b, ok2 := c.Get("b")
	return fmt.Sprint(showWord(a), ok, showWord(b), ok2, c.GetSize(), c.IsFull())
}

// orders calls f with every order of the operations that keeps each script's own.
func orders(scripts [][]int, f func(order [][2]int)) {
	at := make([]int, len(scripts))
	var rec func(o [][2]int)
	rec = func(o [][2]int) {
		end := true
		for g := range scripts {
			if at[g] < len(scripts[g]) {
				end = false
				i := at[g]
				at[g]++
				rec(append(o[:len(o):len(o)], [2]int{g, i}))
				at[g]--
			}
		}
		if end {
			f(o)
		}
	}
	rec(nil)
}

func cacheScenario(ops []cacheOp, capacity int, scripts [][]int, bound int) scenario {
	name := fmt.Sprintf("cache of %d:", capacity)
	for i, s := range scripts {
		if i > 0 {
			name += " ||"
		}
		for _, o := range s {
			name += " " + ops[o].name + ";"
		}
	}
	var okay map[string]bool
	key := func(res [][]string, fin string) string { return fmt.Sprint(res, fin) }
	blank := func() [][]string {
		r := make([][]string, len(scripts))
		for i := range r {
			r[i] = make([]string, len(scripts[i]))
		}
		return r
	}
	return scenario{name: name, bound: bound, free: bound + 1, prepare: func() func() string {
		if okay == nil {
			okay = map[string]bool{}
			orders(scripts, func(o [][2]int) {
				c := bpe.NewCache(capacity)
				r := blank()
				for _, x := range o {
					r[x[0]][x[1]] = ops[scripts[x[0]][x[1]]].run(c)
				}
				okay[key(r, final(c))] = true
			})
		}
		return func() string {
			c := bpe.NewCache(capacity)
			r := blank()
			var wg sync.WaitGroup
			wg.Add(len(scripts))
			for g, s := range scripts {
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							r[g][len(s)-1] = fmt.Sprint("panic ", p)
						}
					}()
					for i, o := range s {
						r[g][i] = ops[o].run(c)
					}
				}()
			}
			wg.Wait()
			got := key(r, final(c))
			if !okay[got] {
				var l []string
				for k := range okay {
					l = append(l, k)
				}
				sort.Strings(l)
				return fmt.Sprintf("%s: the results %s are those of no order of the operations (possible: %q)", name, got, l)
			}
			return ""
		}
	}}
}

// bpeScenario uses one cached model from several goroutines.
func bpeScenario(capacity int, scripts [][]string, bound int) scenario {
	name := fmt.Sprintf("model with a cache of %d: %q", capacity, scripts)
	var want map[string]any
	return scenario{name: name, bound: bound, free: bound + 1, prepare: func() func() string {
		if want == nil {
			want = map[string]any{}
			plain := newBPE(0, nil)
			for _, s := range scripts {
				for _, w := range s {
					want[w] = must(plain.Tokenize(w))
				}
			}
		}
		m := newBPE(capacity, nil)
		return func() string {
			errs := make([]string, len(scripts))
			var wg sync.WaitGroup
			wg.Add(len(scripts))
			for g, s := range scripts {
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							errs[g] = fmt.Sprint("panic ", p)
						}
					}()
					for _, w := range s {
						if w == "clear" {
							m.ClearCache()
							continue
						}
						got, err := m.Tokenize(w)
						if err != nil || !reflect.DeepEqual(any(got), want[w]) {
							errs[g] = fmt.Sprintf("Tokenize(%q) gives %v (%v), without a cache %v", w, got, err, want[w])
						}
						if n := m.Cache.GetSize(); n > capacity {
							errs[g] = fmt.Sprintf("the cache holds %d entries, its capacity is %d", n, capacity)
						}
					}
				}()
			}
			wg.Wait()
			for _, e := range errs {
				if e != "" {
					return name + ": " + e
				}
			}
			for w := range want {
				if w == "clear" {
					continue
				}
				if got, err := m.Tokenize(w); err != nil || !reflect.DeepEqual(any(got), want[w]) {
					return fmt.Sprintf("%s: afterwards Tokenize(%q) gives %v (%v), without a cache %v", name, w, got, err, want[w])
				}
				if x, ok := m.Cache.Get(w); ok && !reflect.DeepEqual(any(m.WordToTokens(x)), want[w]) {
					return fmt.Sprintf("%s: the entry of %q is %+v", name, w, x)
				}
			}
			return ""
		}
	}}
}

func allTwos(n int) (out [][]int) {
	for a := range n {
		for b := range n {
			out = append(out, []int{a, b})
		}
	}
	return
}

func c19(thorough bool) []scenario {
	ops := cacheOps()
	pick := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	var out []scenario
	group := func(name string, subs []scenario) {
		out = append(out, scenario{name: name, subs: subs, weight: len(subs)})
	}
	var twos [][]int
	for _, capacity := range []int{1, 2} {
		if !thorough && capacity == 1 {
			ops = append(append([]cacheOp{}, ops[0], ops[1], ops[3]), ops[4], ops[6], ops[7], ops[8])
			twos = allTwos(len(ops))
		} else {
			ops = cacheOps()
			twos = allTwos(len(ops))
		}
		for i := range ops { // first operation of the first goroutine
			var subs []scenario
			for x := range twos {
				if twos[x][0] != i {
					continue
				}
				for y := x; y < len(twos); y++ {
					subs = append(subs, cacheScenario(ops, capacity, [][]int{twos[x], twos[y]}, pick(1, 3)))
				}
			}
			group(fmt.Sprintf("cache of %d, two by two, first %s", capacity, ops[i].name), subs)
		}
		var subs []scenario
		for a := range ops {
			for b := a; b < len(ops); b++ {
				for c := b; c < len(ops); c++ {
					subs = append(subs, cacheScenario(ops, capacity, [][]int{{a}, {b}, {c}}, pick(1, 2)))
				}
			}
		}
		group(fmt.Sprintf("cache of %d, three at once", capacity), subs)
	}
	words := []string{"abc", "ab", "bcq", "clear"}
	var ws [][]string
	for _, a := range words {
		for _, b := range words {
			ws = append(ws, []string{a, b})
		}
	}
	for _, capacity := range []int{1, 2, 3} {
		for i := range ws {
			var subs []scenario
			for j := i; j < len(ws); j++ {
				subs = append(subs, bpeScenario(capacity, [][]string{ws[i], ws[j]}, pick(map[bool]int{true: 2, false: 1}[capacity == 2], 3)))
			}
			group(fmt.Sprintf("model with a cache of %d, two by two, first %q", capacity, ws[i]), subs)
		}
		var subs []scenario
		for a := range words {
			for b := a; b < len(words); b++ {
				for c := b; c < len(words); c++ {
					subs = append(subs, bpeScenario(capacity, [][]string{{words[a]}, {words[b]}, {words[c], "abc"}}, pick(1, 2)))
				}
			}
		}
		group(fmt.Sprintf("model with a cache of %d, three at once", capacity), subs)
	}
	return out
}
