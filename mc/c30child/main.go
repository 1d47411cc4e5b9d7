//go:build verifoverlay

// The program that plays the histories of C30: loads bundled presets from given
// working directories and tells what they answer.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretrained"
)

type Step struct {
	Dir       string // go there first, if it is set
	Preset    string
	Add, Trim bool
}

type Job struct {
	Steps []Step
	Texts []string
}

type Answer struct {
	Plain, Special, Pair string
	Kept, Skipped        string
}

type Result struct {
	Cwds    []string // after every step
	Sizes   [][2]int
	Answers [][]Answer // of every tokenizer, after the last step
}

func load(s Step) *tokenizer.Tokenizer {
	switch s.Preset {
	case "bert":
		return pretrained.BertBaseUncased()
	case "bertlarge":
		return pretrained.BertLargeCasedWholeWordMaskingSquad()
	case "gpt2":
		return pretrained.GPT2(s.Add, s.Trim)
	case "roberta":
		return pretrained.RobertaBase(s.Add, s.Trim)
	case "robertasquad":
		return pretrained.RobertaBaseSquad2(s.Add, s.Trim)
	}
	panic(s.Preset)
}

func enc(e *tokenizer.Encoding, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func answer(tk *tokenizer.Tokenizer, text, next string) (a Answer) {
	defer func() {
		if r := recover(); r != nil {
			a.Plain += fmt.Sprintf("panic: %v", r)
		}
	}()
	a.Plain = enc(tk.EncodeSingle(text))
	e, err := tk.EncodeSingle(text, true)
	a.Special = enc(e, err)
	a.Pair = enc(tk.EncodePair(text, next, true))
	if err == nil {
		a.Kept = tk.Decode(e.Ids, false)
		a.Skipped = tk.Decode(e.Ids, true)
	}
	return a
}

func main() {
	out := os.Stdout
	os.Stdout = os.Stderr
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	w := json.NewEncoder(out)
	for {
		var j Job
		if dec.Decode(&j) != nil {
			return
		}
		var r Result
		var tks []*tokenizer.Tokenizer
		for _, s := range j.Steps {
			if s.Dir != "" {
				if err := os.Chdir(s.Dir); err != nil {
					panic(err)
				}
			}
			tk := load(s)
			d, _ := os.Getwd()
			tks = append(tks, tk)
			r.Cwds = append(r.Cwds, d)
			r.Sizes = append(r.Sizes, [2]int{tk.GetVocabSize(true), tk.GetVocabSize(false)})
		}
		for _, tk := range tks {
			var l []Answer
			for i, t := range j.Texts {
				l = append(l, answer(tk, t, j.Texts[(i+1)%len(j.Texts)]))
			}
			r.Answers = append(r.Answers, l)
		}
		if err := w.Encode(r); err != nil {
			panic(err)
		}
	}
}
