package props

import (
	"fmt"
	"time"

	"verif/mc/core"

	"github.com/sugarme/tokenizer"
)

func init() {
	core.Register(&core.Check{ID: "C18", Level: "model_checking", Hang: time.Hour,
		Rule: "a race-instrumented build of the real code runs on a runtime whose scheduler is replaced: one goroutine at a time, switched only before synchronization operations (locks, wait groups, channels, select, once, typed atomics) and where a goroutine blocks or ends. For every scenario (batches of 0-3 items, erroneous items, 2-3 concurrent callers of encode, decode, batch and vocabulary calls, on four kinds of tokenizer with and without added tokens, and on one tokenizer per normalizer, pre-tokenizer, post-processor and decoder) all schedules within a bound on preemptions and on departures from first-come order are run, each with the race detector's happens-before analysis; each result is compared with the calls done one by one on a fresh tokenizer, and deadlocks, leaked goroutines, panics and dead processes are violations. A state is a distinct schedule. Non-trivial: the schedule has at least one preemption.",
		Run: func(c *core.Ctx) {
			longBatches(c)
			schedRun(c, "C18")
		},
		Assumptions: []string{"Function-style sync/atomic operations are not switching points; the race detector still sees them.", "Random values of the runtime (map order, select order, pool drops) are fixed within a run."}})
}

// longBatches compares batches of many items with their single calls.
func longBatches(c *core.Ctx) {
	c.Par(4, func(w *core.W, i int) {
		n := []int{257, 1030, 1100, 2049}[i]
		w.Case(fmt.Sprintf("a batch of %d", n), func(t *core.T) {
			within(t, time.Minute, func(t *core.T) {
				tk := c05tok()
				if i%2 == 1 {
					tk.WithPostProcessor(schemes()[1].proc)
					tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 6, Stride: 1})
				}
				var ins []tokenizer.EncodeInput
				var ids [][]int
				var want []tokenizer.Encoding
				for k := 0; k < n; k++ {
					in := tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(fmt.Sprintf("w%d x%d%s", k%700, k/3%700, []string{"", " w1 w2 w3 w4 w5", " w9"}[k%3])))
					ins = append(ins, in)
					ids = append(ids, []int{10 + k%700, 1000 + k%13, 9000, 10 + k%2})
					e, err := tk.Encode(in, true)
					if err != nil {
						t.Fatalf("%v", err)
					}
					want = append(want, *e)
				}
				if i%2 == 0 {
					p := tokenizer.PaddingParams{Strategy: *tokenizer.NewPaddingStrategy(), Direction: tokenizer.Right, PadId: 3, PadToken: "[PAD]"}
					want = tokenizer.PadEncodings(want, p)
					tk.WithPadding(&p)
				}
				got, err := tk.EncodeBatch(ins, true)
				if err != nil || len(got) != n {
					t.Fatalf("%d encodings of %d inputs, %v", len(got), n, err)
				}
				for k := range got {
					if g, wt := showRest(&got[k])+fmt.Sprint(got[k].Offsets), showRest(&want[k])+fmt.Sprint(want[k].Offsets); g != wt {
						t.Fatalf("item %d: %s, on its own %s", k, g, wt)
					}
				}
				var texts []string
				for k := range ids {
					texts = append(texts, tk.Decode(ids[k], k%2 == 0))
				}
				for k, skip := range []bool{true, false} {
					dec := tk.DecodeBatch(ids, skip)
					if len(dec) != n {
						t.Fatalf("%d texts of %d", len(dec), n)
					}
					for j := range dec {
						if j%2 == k && dec[j] != texts[j] {
							t.Fatalf("item %d decodes to %q, on its own %q", j, dec[j], texts[j])
						}
					}
				}
				// one item in error
				ins[n*2/3] = tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence("w1"))
				tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 1, Strategy: tokenizer.OnlySecond})
				tk.WithPostProcessor(nil)
				if es, err := tk.EncodeBatch(ins, true); err == nil || len(es) > 0 {
					t.Errorf("%d encodings and error %v though single calls fail", len(es), err)
				}
				t.Op(3 * n)
			})
		})
	})
}

// within runs a part of a case that must end.
func within(t *core.T, d time.Duration, f func(t *core.T)) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f(t)
	}()
	select {
	case p := <-done:
		if p != nil {
			panic(p)
		}
	case <-time.After(d):
		t.Fatalf("does not return within %v", d)
	}
}
