package props

import (
	"fmt"
	"io"
	"sort"
	"strings"

	"verif/mc/core"

	"github.com/sugarme/tokenizer/util"
)

// C28: parameter sets and iterators follow their specification under every history of
// operations.

func init() {
	core.Register(&core.Check{ID: "C28", Level: "model_checking",
		Rule:        "every sequence of operations up to the depth bound on two parameter sets over two names and values of every kind that matters (numbers, texts, nil, nil pointers and slices, arrays, nested sets), followed in a model made of plain maps; after every sequence everything the sets answer (also about nested sets, through whichever name they are reached) is compared. Every sequence of Next, Reset, Len and CurrentIndex on iterators over up to four items, readers read past their end",
		Run:         c28,
		Assumptions: []string{"CurrentIndex once the items are used up is not specified", "names are listed in any order"}})
}

// mparams is the model of a parameter set.
type mparams struct{ m map[string]any }

func newMp() *mparams { return &mparams{map[string]any{}} }

// what is kept under a name: nil kinds are told apart from one another
type mNilPtr struct{}
type mNilSlice struct{}

func (p *mparams) get(k string) any {
	switch v := p.m[k].(type) {
	case mNilPtr, mNilSlice:
		return nil
	default:
		return v
	}
}

func (p *mparams) clone() *mparams {
	out := newMp()
	for k := range p.m {
		out.m[k] = p.deep(k)
	}
	return out
}

func (p *mparams) deep(k string) any {
	if v, ok := p.get(k).(*mparams); ok {
		return v.clone()
	}
	return p.get(k)
}

type c28Side struct {
	p *util.Params
	m *mparams
}

type c28State struct{ a, b c28Side }

func c28Real(v any) any {
	switch v := v.(type) {
	case mNilPtr:
		return (*int)(nil)
	case mNilSlice:
		return []string(nil)
	default:
		return v
	}
}

// c28Same says whether a value read from a set is the wanted one.
func c28Same(got, want any, depth int) string {
	switch w := want.(type) {
	case *mparams:
		g, ok := got.(*util.Params)
		if !ok {
			return fmt.Sprintf("%#v, want a set", got)
		}
		return c28Cmp(g, w, depth+1)
	case []int:
		g, ok := got.([]int)
		if !ok || !eqInts(g, w) {
			return fmt.Sprintf("%#v, want %v", got, w)
		}
	case mNilSlice:
		if g, ok := got.([]string); !ok || g != nil {
			return fmt.Sprintf("%#v, want a nil slice", got)
		}
	default:
		if _, ok := got.([]string); ok {
			return fmt.Sprintf("%#v, want %#v", got, c28Real(want))
		}
		if _, ok := got.([]int); ok {
			return fmt.Sprintf("%#v, want %#v", got, c28Real(want))
		}
		if got != c28Real(want) {
			return fmt.Sprintf("%#v, want %#v", got, c28Real(want))
		}
	}
	return ""
}

func c28Cmp(p *util.Params, m *mparams, depth int) string {
	if p.Len() != len(m.m) || len(p.Values()) != len(m.m) {
		return fmt.Sprintf("Len %d, %d values, want %d", p.Len(), len(p.Values()), len(m.m))
	}
	ks := append([]string{}, p.Keys()...)
	sort.Strings(ks)
	if w := core.Keys(m.m); !eqStrs(ks, w) {
		return fmt.Sprintf("Keys %v, want %v", ks, w)
	}
	for _, k := range []string{"a", "b", "c"} {
		raw, has := m.m[k]
		if e := c28Same(p.Param(k), raw, depth); e != "" {
			return fmt.Sprintf("Param(%s): %s", k, e)
		}
		if v, ok := p.Values()[k]; ok != has {
			return fmt.Sprintf("Values()[%s]: %v", k, v)
		}
		w := m.get(k)
		if p.Has(k) != (w != nil) {
			return fmt.Sprintf("Has(%s) %v", k, p.Has(k))
		}
		if e := c28Same(p.Get(k), w, depth); e != "" {
			return fmt.Sprintf("Get(%s): %s", k, e)
		}
		d := p.Get(k, "def")
		if w == nil {
			w = "def"
		}
		if e := c28Same(d, w, depth); e != "" {
			return fmt.Sprintf("Get(%s, default): %s", k, e)
		}
	}
	return ""
}

type c28Op struct {
	name string
	do   func(s *c28State) string
}

func c28Ops() []c28Op {
	set := func(k string, v any) c28Op {
		return c28Op{fmt.Sprintf("Set(%s,%T)", k, v), func(s *c28State) string {
			s.a.p.Set(k, c28Real(v))
			s.a.m.m[k] = v
			return ""
		}}
	}
	ops := []c28Op{
		set("a", 1), set("a", nil), set("b", "x"), set("b", mNilSlice{}), set("a", mNilPtr{}), set("b", [2]int{1, 2}), set("a", []int{}),
		{"Set(a,set)", func(s *c28State) string {
			s.a.p.Set("a", util.NewParams(map[string]any{"a": 7, "b": util.NewParams(map[string]any{"a": "in"})}))
			s.a.m.m["a"] = &mparams{map[string]any{"a": 7, "b": &mparams{map[string]any{"a": "in"}}}}
			return ""
		}},
		{"Pop(a)", func(s *c28State) string {
			got, want := s.a.p.Pop("a"), s.a.m.m["a"]
			delete(s.a.m.m, "a")
			return c28Same(got, want, 0)
		}},
		{"Delete(b)", func(s *c28State) string {
			s.a.p.Delete("b")
			delete(s.a.m.m, "b")
			return ""
		}},
		{"Delete(a)", func(s *c28State) string {
			s.a.p.Delete("a")
			delete(s.a.m.m, "a")
			return ""
		}},
		{"DeleteAll", func(s *c28State) string {
			s.a.p.DeleteAll()
			clear(s.a.m.m)
			return ""
		}},
		{"other.Copy(a)", func(s *c28State) string {
			s.b.p.Copy(s.a.p, "a")
			s.b.m.m["a"] = s.a.m.get("a")
			return ""
		}},
		{"other.Copy(b,a)", func(s *c28State) string {
			s.b.p.Copy(s.a.p, "b", "a")
			s.b.m.m["a"] = s.a.m.get("b")
			return ""
		}},
		{"Copy(own a,b)", func(s *c28State) string {
			s.a.p.Copy(s.a.p, "a", "b")
			s.a.m.m["b"] = s.a.m.get("a")
			return ""
		}},
		{"other.DeepCopy(a)", func(s *c28State) string {
			s.b.p.DeepCopy(s.a.p, "a")
			s.b.m.m["a"] = s.a.m.deep("a")
			return ""
		}},
		{"other.DeepCopy(a,b)", func(s *c28State) string {
			s.b.p.DeepCopy(s.a.p, "a", "b")
			s.b.m.m["b"] = s.a.m.deep("a")
			return ""
		}},
		{"other=Clone", func(s *c28State) string {
			s.b = c28Side{s.a.p.Clone(), s.a.m.clone()}
			return ""
		}},
		{"other=Select(a,c)", func(s *c28State) string {
			s.b = c28Side{s.a.p.Select([]string{"a", "c"}), &mparams{map[string]any{"a": s.a.m.get("a"), "c": nil}}}
			return ""
		}},
		{"swap", func(s *c28State) string { s.a, s.b = s.b, s.a; return "" }},
		{"WithParams(other)", func(s *c28State) string {
			opts := util.WithParams(s.b.p)
			if len(opts) != len(s.b.m.m) {
				return fmt.Sprintf("%d options of %d values", len(opts), len(s.b.m.m))
			}
			for _, o := range opts {
				o(s.a.p)
			}
			for k, v := range s.b.m.m {
				s.a.m.m[k] = v
			}
			return ""
		}},
		{"WithParam(b,3)", func(s *c28State) string {
			util.WithParam("b", 3)(s.a.p)
			s.a.m.m["b"] = 3
			return ""
		}},
	}
	// through the nested sets
	in := func(path string, v any) c28Op {
		return c28Op{"in " + path, func(s *c28State) string {
			p, m := s.a.p, s.a.m
			ks := strings.Split(path, ".")
			for _, k := range ks[:len(ks)-1] {
				mm, ok := m.get(k).(*mparams)
				if !ok {
					return ""
				}
				pp, ok := p.Get(k).(*util.Params)
				if !ok {
					return fmt.Sprintf("no set at %s", k)
				}
				p, m = pp, mm
			}
			k := ks[len(ks)-1]
			p.Set(k, v)
			m.m[k] = v
			return ""
		}}
	}
	return append(ops, in("a.a", 8), in("a.b.a", "deep"), in("b.b.c", 9))
}

func c28(c *core.Ctx) {
	ops := c28Ops()
	depth := core.Pick(c, 4, 5)
	first := seqs(len(ops), 0, 2)
	run := func(t *core.T, seq []int) {
		mk := func() c28Side { return c28Side{util.NewParams(nil), newMp()} }
		s := &c28State{mk(), mk()}
		if len(seq)%2 == 1 { // from values
			s.a = c28Side{util.NewParams(map[string]any{"b": 5}), &mparams{map[string]any{"b": 5}}}
		}
		hist := func() string {
			var n []string
			for _, o := range seq {
				n = append(n, ops[o].name)
			}
			return strings.Join(n, " ")
		}
		for _, o := range seq {
			if e := ops[o].do(s); e != "" {
				t.Errorf("%s: %s: %s", hist(), ops[o].name, e)
				return
			}
			t.Op(1)
		}
		if e := c28Cmp(s.a.p, s.a.m, 0); e != "" {
			t.Errorf("%s: first set: %s", hist(), e)
		}
		if e := c28Cmp(s.b.p, s.b.m, 0); e != "" {
			t.Errorf("%s: other set: %s", hist(), e)
		}
		t.State(fmt.Sprint(seq))
	}
	c.Par(len(first), func(w *core.W, i int) {
		if c.TimeUp() {
			return
		}
		w.Case(fmt.Sprintf("params %v..", first[i]), func(t *core.T) {
			if len(first[i]) < 2 {
				run(t, first[i])
				return
			}
			var rec func(seq []int)
			rec = func(seq []int) {
				run(t, seq)
				if len(seq) == depth {
					return
				}
				for o := range ops {
					rec(append(seq[:len(seq):len(seq)], o))
				}
			}
			rec(first[i])
		})
	})
	// iterators
	c.Par(5, func(w *core.W, n int) {
		for _, seq := range seqs(4, 0, core.Pick(c, 7, 9)) {
			w.Case(fmt.Sprintf("iterator of %d, %v", n, seq), func(t *core.T) {
				data := []rune("aé日😀")[:n]
				it := util.NewRuneIter(data)
				pos := 0
				for _, o := range seq {
					switch o {
					case 0:
						r, ok := it.Next()
						if ok != (pos < n) || ok && r != data[pos] {
							t.Fatalf("Next: %q %v at %d", r, ok, pos)
						}
						if ok {
							pos++
						}
					case 1:
						it.Reset()
						pos = 0
					case 2:
						if it.Len() != n {
							t.Fatalf("Len %d", it.Len())
						}
					case 3:
						if g := it.CurrentIndex(); pos < n && g != pos-1 || n == 0 && g != -1 {
							t.Fatalf("CurrentIndex %d at %d", g, pos)
						}
					}
					t.Op(1)
				}
				t.State(fmt.Sprint(n, seq))
			})
		}
		w.Case(fmt.Sprintf("readers of %d", n), func(t *core.T) {
			data := []rune("aé日😀")[:n]
			it := util.NewIter(strings.Split("pqrs", "")[:n])
			rd := util.NewRuneReader(data)
			var src io.RuneReader = &rd
			for i := 0; i < n+3; i++ {
				s, ok := it.Next()
				if ok != (i < n) || ok && s != "pqrs"[i:i+1] {
					t.Errorf("Next: %q %v at %d", s, ok, i)
				}
				r, size, err := src.ReadRune()
				switch {
				case i < n:
					if r != data[i] || size != 1 || err != nil {
						t.Errorf("ReadRune: %q %d %v at %d", r, size, err, i)
					}
				case err != io.EOF || size != 0:
					t.Errorf("ReadRune: %d %v at the end", size, err)
				}
				t.Op(2)
			}
		})
	})
}
