//go:build verifoverlay

// Command schedchild explores the schedules of one scenario.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"time"
)

// request is what the checker asks for.
type request struct {
	Prop, Scenario string
	Bound, Free    int // preemptions; departures from first-come order where the running goroutine blocked
	Maps           bool
	Max            int // runs
	Seconds        int
	Path           []uint16 // replay this path only
}

// report is what came out.
type report struct {
	Runs, Choices, Longest, Yields, Goroutines int
	Preempted                                  int
	Capped                                     bool
	States                                     []uint64
	Path                                       []uint16
	Message                                    string
}

// scenario is run under every schedule. prepare makes a fresh body; what it
// does is not explored. The body judges what it sees.
type scenario struct {
	name    string
	prepare func() func() string
	bound   int
	free    int
	weight  int
	maps    bool
	subs    []scenario // explored one after the other instead
}

var table = map[string]func(thorough bool) []scenario{}

// devnull keeps the library's chatter away from our report.
func muteStdout() *os.File {
	fd, err := syscall.Dup(1)
	if err != nil {
		panic(err)
	}
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	if err := syscall.Dup2(int(null.Fd()), 1); err != nil {
		panic(err)
	}
	return os.NewFile(uintptr(fd), "report")
}

func main() {
	out := muteStdout()
	defer out.Close()
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if len(os.Args) == 3 && os.Args[1] == "list" {
		type item struct {
			Name        string
			Bound, Free int
			Maps        bool
			Weight      int
		}
		var l []item
		for _, s := range table[os.Args[2]](thorough) {
			l = append(l, item{s.name, s.bound, s.free, s.maps, s.weight})
		}
		json.NewEncoder(out).Encode(l)
		return
	}
	var rq request
	if err := json.NewDecoder(os.Stdin).Decode(&rq); err != nil {
		panic(err)
	}
	for _, s := range table[rq.Prop](thorough) {
		if s.name == rq.Scenario {
			var r report
			if s.subs == nil {
				s.subs = []scenario{s}
				s.subs[0].bound, s.subs[0].free = rq.Bound, rq.Free
			}
			for i, x := range s.subs {
				one := rq
				one.Bound, one.Free, one.Maps = x.bound, x.free, x.maps
				e := explore(x, one)
				r.Runs += e.Runs
				r.Choices += e.Choices
				r.Longest = max(r.Longest, e.Longest)
				r.Yields = max(r.Yields, e.Yields)
				r.Goroutines = max(r.Goroutines, e.Goroutines)
				r.Preempted += e.Preempted
				r.Capped = r.Capped || e.Capped
				for _, h := range e.States {
					r.States = append(r.States, h*31+uint64(i))
				}
				if r.Message, r.Path = e.Message, e.Path; r.Message != "" {
					break
				}
			}
			json.NewEncoder(out).Encode(r)
			return
		}
	}
	fmt.Fprintf(os.Stderr, "no scenario %q\n", rq.Scenario)
	out.Close()
	os.Exit(3)
}

// play runs the scenario once along a path.
func play(s scenario, path []uint16, maps bool) (msg string, stuck bool) {
	body := s.prepare()
	var done atomic.Int32
	before := runtime.RaceErrors()
	runtime.MCBegin(path, maps)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				msg = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
			}
			done.Store(1)
		}()
		msg = body()
	}()
	var since time.Time
	for {
		runtime.Gosched()
		live, ready := runtime.MCState()
		if live == 0 {
			break
		}
		if ready > 0 {
			since = time.Time{}
			continue
		}
		if since.IsZero() {
			since = time.Now()
		}
		if time.Since(since) > 2*time.Second {
			stuck = true
			break
		}
		if time.Since(since) > time.Millisecond {
			time.Sleep(time.Millisecond)
		}
	}
	if done.Load() == 0 {
		return "deadlock: goroutines of the run wait for each other for ever", true
	}
	if stuck {
		return "some goroutine never ends", true
	}
	if msg == "" && runtime.RaceErrors() != before {
		msg = "data race (report above)"
	}
	return msg, false
}

var began = time.Now()

func explore(s scenario, rq request) report {
	debug.SetGCPercent(-1)
	runtime.GC()
	var r report
	seen := map[uint64]bool{}
	if rq.Path != nil {
		msg, _ := play(s, rq.Path, rq.Maps)
		_, c, _, _, _, _ := runtime.MCEnd()
		r.Runs, r.Message, r.Path = 1, msg, c
		return r
	}
	// the first run warms caches inside the standard library
	if msg, stuck := play(s, nil, rq.Maps); msg != "" {
		_, c, _, _, _, _ := runtime.MCEnd()
		_ = stuck
		r.Runs, r.Message, r.Path = 1, msg, c
		return r
	}
	runtime.MCEnd()
	var path []uint16
	for {
		msg, _ := play(s, path, rq.Maps)
		n, c, k, yields, created, diverged := runtime.MCEnd()
		r.Runs++
		r.Choices += len(c)
		r.Longest = max(r.Longest, len(c))
		r.Yields = max(r.Yields, yields)
		r.Goroutines = max(r.Goroutines, created)
		h := uint64(14695981039346656037)
		pre, free := 0, 0
		for i := range c {
			h = (h ^ uint64(c[i])) * 1099511628211
			h = (h ^ uint64(n[i])) * 1099511628211
			if k[i] == runtime.MCPreempt && c[i] > 0 {
				pre++
			} else if c[i] > 0 {
				free++
			}
		}
		seen[h] = true
		if pre > 0 {
			r.Preempted++
		}
		if msg == "" && diverged {
			fmt.Fprintf(os.Stderr, "a run did not follow its path: the same choices gave another run\n")
			os.Exit(3)
		}
		if msg != "" {
			r.Message, r.Path = msg, c
			break
		}
		// the next path: the last choice that has another option within the bound
		i := len(c) - 1
		for ; i >= 0; i-- {
			if k[i] == runtime.MCPreempt && c[i] > 0 {
				pre--
			} else if c[i] > 0 {
				free--
			}
			if int(c[i])+1 >= int(n[i]) {
				continue
			}
			if k[i] == runtime.MCPreempt && pre >= rq.Bound || k[i] != runtime.MCPreempt && free >= rq.Free {
				continue
			}
			break
		}
		if i < 0 {
			break
		}
		path = append(append([]uint16{}, c[:i]...), c[i]+1)
		if r.Runs >= rq.Max || time.Since(began) > time.Duration(rq.Seconds)*time.Second {
			r.Capped = true
			break
		}
		if r.Runs%50 == 0 {
			runtime.GC()
		}
	}
	for h := range seen {
		r.States = append(r.States, h)
	}
	return r
}
