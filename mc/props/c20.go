package props

import (
	"time"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{ID: "C20", Level: "model_checking", Hang: time.Hour,
		Rule:        "Tokenizer.Train of a race-instrumented build (tag verif: settable chunk size) runs under the controlled scheduler of C18 with a trainer that keeps what it is handed. All texts up to 4 (thorough 5) characters over letters, a space or comma and line ends as one file, all of them cut into chunks of 1-4 (6) bytes, all pairs of tiny files, all ways to put 4 (5) lines into three files, and fixed sets of 1-3 files or chunks under all schedules within the bound. The counts must be those of the lines of the files; afterwards the trained model and the special tokens are in use. Files that cannot be read, texts a normalizer refuses and a missing pre-tokenizer must give an error and leave the tokenizer as it was. Deadlocks, leaked goroutines, data races and dead processes are violations. A state is a distinct schedule of a scenario. Non-trivial: the schedule has at least one preemption.",
		Run:         func(c *core.Ctx) { schedRun(c, "C20") },
		Assumptions: []string{"The file system delivers what was written to the files; reads are not switching points (they share nothing).", "Lines are shorter than 2 GB and end with a line feed, optionally preceded by a carriage return."}})
}
