// Package core is the small runtime shared by every check: it runs enumerated
// cases in a worker process, watches that process from a parent (so that a
// log.Fatal, a stack overflow or a hang inside the code under test becomes a
// reported violation and not an error of the check), counts what was covered,
// and writes evidence and replay artefacts.
package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	slotSize = 8192
	maxSlots = 64
)

// Check is one property's check.
type Check struct {
	ID    string
	Level string // model_checking | fault_enumeration | exploration
	Rule  string // how cases are made, what makes one non-trivial
	Run   func(*Ctx)
	// Assumptions are copied to the evidence file.
	Assumptions []string
	// Workers bounds parallelism (0: number of CPUs).
	Workers int
	// Hang is how long one case may take (0: a minute).
	Hang time.Duration
}

var checks = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { checks[c.ID] = c }

// Violation is one failing case.
type Violation struct {
	Property string   `json:"property"`
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Parts    []string `json:"parts,omitempty"` // the single failures of the case
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
	_  [40]byte
}

// Ctx is handed to the check.
type Ctx struct {
	ID       string
	Tier     string
	Only     string // replay: evaluate only this key
	deadline time.Time

	cases       atomic.Int64
	transitions atomic.Int64
	capped      atomic.Bool
	partial     atomic.Bool

	mu      sync.Mutex
	shards  [256]shard
	samples []string
	viol    map[string]Violation
	nviol   atomic.Int64
	extra   map[string]int64
	notes   []string

	slots   []byte
	workers int
}

// Thorough tells whether the deep tier was asked for.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier, t in the thorough one.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

// If is a conditional expression.
func If[T any](b bool, x, y T) T {
	if b {
		return x
	}
	return y
}

// T is the recorder for a single case.
type T struct {
	c    *Ctx
	key  string
	errs []string
	nop  int64
	h    uint64
}

type failNow struct{}

// Errorf records a failure of the case.
func (t *T) Errorf(f string, a ...any) { t.errs = append(t.errs, fmt.Sprintf(f, a...)) }

// Fatalf records a failure and ends the case.
func (t *T) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(failNow{}) }

// Op counts n operations applied to the implementation.
func (t *T) Op(n int) { t.nop += int64(n) }

// State records a canonical model state / observation reached.
func (t *T) State(s any) {
	h := Hash(s)
	sh := &t.c.shards[h&255]
	sh.mu.Lock()
	if sh.m == nil {
		sh.m = map[uint64]struct{}{}
	}
	sh.m[h] = struct{}{}
	sh.mu.Unlock()
}

// Hash hashes the %v form of s.
func Hash(s any) uint64 {
	h := fnv.New64a()
	switch v := s.(type) {
	case string:
		h.Write([]byte(v))
	default:
		fmt.Fprintf(h, "%v", s)
	}
	return h.Sum64()
}

func (c *Ctx) setSlot(w int, key string) {
	if c.slots == nil {
		return
	}
	s := c.slots[w*slotSize : (w+1)*slotSize]
	n := copy(s[16:], key)
	binary.LittleEndian.PutUint64(s[8:], uint64(n))
	binary.LittleEndian.PutUint64(s[0:], binary.LittleEndian.Uint64(s[0:])+1)
}

func (c *Ctx) clearSlot(w int) {
	if c.slots == nil {
		return
	}
	s := c.slots[w*slotSize : (w+1)*slotSize]
	binary.LittleEndian.PutUint64(s[8:], 0)
}

// W is one worker of a parallel enumeration.
type W struct {
	*Ctx
	id int
}

// Case evaluates one case under key.
func (w *W) Case(key string, f func(t *T)) {
	c := w.Ctx
	if c.Only != "" && c.Only != key {
		return
	}
	if c.capped.Load() {
		return
	}
	if c.nviol.Load() >= 400 {
		return
	}
	c.setSlot(w.id, key)
	t := &T{c: c, key: key}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failNow); ok {
					return
				}
				t.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		f(t)
	}()
	c.clearSlot(w.id)
	n := c.cases.Add(1)
	if t.nop == 0 {
		t.nop = 1
	}
	c.transitions.Add(t.nop)
	if len(t.errs) > 0 {
		c.nviol.Add(1)
		c.mu.Lock()
		if _, ok := c.viol[key]; !ok {
			c.viol[key] = Violation{c.ID, key, strings.Join(t.errs, "; "), t.errs}
		}
		c.mu.Unlock()
	}
	// powers of two make a spread-out sample of actual cases
	if n&(n-1) == 0 {
		c.mu.Lock()
		if len(c.samples) < 24 {
			k := key
			if len(k) > 300 {
				k = k[:300]
			}
			c.samples = append(c.samples, k)
		}
		c.mu.Unlock()
	}
	if n&1023 == 0 && time.Now().After(c.deadline) {
		c.capped.Store(true)
	}
}

// Quiet runs a case without counting or judging it, for what else it does.
func (w *W) Quiet(f func(t *T)) {
	t := &T{c: w.Ctx, key: "quiet"}
	defer func() { recover() }()
	f(t)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// Par runs f(w, i) for every i in [0,n) on all workers.
func (c *Ctx) Par(n int, f func(w *W, i int)) {
	nw := c.workers
	if nw > n {
		nw = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := &W{c, k}
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.capped.Load() {
					return
				}
				f(w, i)
			}
		}(k)
	}
	wg.Wait()
}

// Seq returns worker 0, for sequential use.
func (c *Ctx) Seq() *W { return &W{c, 0} }

// Count adds to a named counter shown in the evidence.
func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.extra[name] += n
	c.mu.Unlock()
}

// Capped tells whether the time cap was hit.
func (c *Ctx) Capped() bool { return c.capped.Load() }

// Cap marks the run as not exhaustive.
func (c *Ctx) Cap() { c.capped.Store(true) }

// Partial notes that some case was not explored to its bound; the rest goes on.
func (c *Ctx) Partial() { c.partial.Store(true) }

// TimeUp marks the run capped when its time is over.
func (c *Ctx) TimeUp() bool {
	if time.Now().After(c.deadline) {
		c.capped.Store(true)
	}
	return c.capped.Load()
}

type result struct {
	Cases, Transitions, States int64
	Samples                    []string
	Viol                       []Violation
	Extra                      map[string]int64
	Capped                     bool
	Done                       bool
}

// Main is the entry point of the mc binary.
//
//	mc run ID        parent: spawns the worker, judges, writes evidence
//	mc work ID OUT SLOTS   worker
func Main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc run ID [replayfile]")
		os.Exit(2)
	}
	ck := checks[os.Args[2]]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", os.Args[2])
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(parent(ck))
	case "work":
		work(ck)
	default:
		os.Exit(2)
	}
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func work(ck *Check) {
	out, slotf := os.Args[3], os.Args[4]
	f, err := os.OpenFile(slotf, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	mm, err := syscall.Mmap(int(f.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	budget := 420 * time.Second
	if tier() == "thorough" {
		budget = 3 * time.Hour
	}
	if b := os.Getenv("VERIF_BUDGET_S"); b != "" {
		var s int
		fmt.Sscan(b, &s)
		budget = time.Duration(s) * time.Second
	}
	c := &Ctx{ID: ck.ID, Tier: tier(), Only: os.Getenv("VERIF_ONLY"), deadline: time.Now().Add(budget),
		viol: map[string]Violation{}, extra: map[string]int64{}, slots: mm}
	c.workers = runtime.NumCPU()
	if ck.Workers > 0 {
		c.workers = ck.Workers
	}
	if c.workers > maxSlots {
		c.workers = maxSlots
	}
	if os.Getenv("VERIF_WORKERS") != "" {
		fmt.Sscan(os.Getenv("VERIF_WORKERS"), &c.workers)
	}
	debug.SetMaxStack(256 << 20)
	ck.Run(c)
	var nst int64
	for i := range c.shards {
		nst += int64(len(c.shards[i].m))
	}
	r := result{Cases: c.cases.Load(), Transitions: c.transitions.Load(), States: nst, Samples: c.samples,
		Extra: c.extra, Capped: c.capped.Load() || c.partial.Load(), Done: true}
	keys := make([]string, 0, len(c.viol))
	for k := range c.viol {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if len(keys[i]) != len(keys[j]) {
			return len(keys[i]) < len(keys[j])
		}
		return keys[i] < keys[j]
	})
	for _, k := range keys {
		r.Viol = append(r.Viol, c.viol[k])
	}
	b, _ := json.Marshal(r)
	if err := os.WriteFile(out, b, 0o644); err != nil {
		panic(err)
	}
	os.Exit(0)
}

// Root is the /verif directory.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Msg      string `json:"msg_contains"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"`
}

func loadKnown() ([]known, error) {
	b, err := os.ReadFile(filepath.Join(Root(), "known-findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' {
			continue
		}
		var k known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			return nil, err
		}
		if k.Fixed == "" {
			ks = append(ks, k)
		}
	}
	return ks, nil
}

type attempt struct {
	res  result
	dead *Violation
	err  error
}

func readSlots(mm []byte) []string {
	var out []string
	for i := 0; i < maxSlots; i++ {
		s := mm[i*slotSize : (i+1)*slotSize]
		n := binary.LittleEndian.Uint64(s[8:])
		if n > 0 && n <= slotSize-16 {
			out = append(out, string(s[16:16+n]))
		}
	}
	return out
}

func runWorker(ck *Check, dir string, only string, hang time.Duration) attempt {
	slotf := filepath.Join(dir, "slots")
	outf := filepath.Join(dir, "out.json")
	os.Remove(outf)
	if err := os.WriteFile(slotf, make([]byte, slotSize*maxSlots), 0o600); err != nil {
		return attempt{err: err}
	}
	f, err := os.OpenFile(slotf, os.O_RDWR, 0)
	if err != nil {
		return attempt{err: err}
	}
	defer f.Close()
	mm, err := syscall.Mmap(int(f.Fd()), 0, slotSize*maxSlots, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return attempt{err: err}
	}
	defer syscall.Munmap(mm)
	self, _ := os.Executable()
	cmd := exec.Command(self, "work", ck.ID, outf, slotf)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "VERIF_SCRATCH="+dir)
	if only != "" {
		cmd.Env = append(cmd.Env, "VERIF_ONLY="+only)
	}
	errf, _ := os.Create(filepath.Join(dir, "stderr"))
	defer errf.Close()
	cmd.Stderr = errf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return attempt{err: err}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	type st struct {
		seq   uint64
		since time.Time
	}
	last := make([]st, maxSlots)
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case werr := <-done:
			b, rerr := os.ReadFile(outf)
			if werr == nil && rerr == nil {
				var r result
				if err := json.Unmarshal(b, &r); err == nil && r.Done {
					return attempt{res: r}
				}
			}
			tail := ""
			if b, err := os.ReadFile(filepath.Join(dir, "stderr")); err == nil {
				if len(b) > 3000 {
					// keep head of a fatal error and the end
					b = append(append([]byte{}, b[len(b)-3000:]...))
				}
				tail = string(b)
			}
			keys := readSlots(mm)
			if len(keys) == 0 {
				return attempt{err: fmt.Errorf("worker ended outside a case: %v %s", werr, tail)}
			}
			return attempt{dead: &Violation{Property: ck.ID, Key: keys[0], Msg: fmt.Sprintf("process ended (%v) while running case(s) %q: %s", werr, keys, lastLines(tail, 12))}}
		case <-tick.C:
			now := time.Now()
			for i := range last {
				s := mm[i*slotSize : (i+1)*slotSize]
				seq := binary.LittleEndian.Uint64(s[0:])
				n := binary.LittleEndian.Uint64(s[8:])
				if seq != last[i].seq || n == 0 {
					last[i] = st{seq, now}
					continue
				}
				if now.Sub(last[i].since) > hang {
					key := string(s[16 : 16+n])
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					<-done
					return attempt{dead: &Violation{Property: ck.ID, Key: key, Msg: fmt.Sprintf("no end after %v", hang)}}
				}
			}
		}
	}
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, " | ")
}

func parent(ck *Check) int {
	start := time.Now()
	only := ""
	if len(os.Args) > 3 {
		b, err := os.ReadFile(os.Args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		only = v.Key
	}
	dir, err := os.MkdirTemp("", "verif-"+ck.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	kn, err := loadKnown()
	if err != nil {
		fmt.Fprintln(os.Stderr, "known-findings:", err)
		return 2
	}
	hang := 60 * time.Second
	if ck.Hang > 0 {
		hang = ck.Hang
	}
	at := runWorker(ck, dir, only, hang)
	if at.err != nil {
		fmt.Fprintln(os.Stderr, "error:", at.err)
		return 2
	}
	var viol []Violation
	if at.dead != nil {
		// believe a death only if the same case dies again on its own
		var best *Violation
		for _, k := range append([]string{at.dead.Key}, deadKeys(at.dead.Msg)...) {
			again := runWorker(ck, dir, k, hang)
			if again.dead != nil {
				best = again.dead
				break
			}
			if again.err == nil && len(again.res.Viol) > 0 {
				best = &again.res.Viol[0]
				break
			}
		}
		if best == nil {
			// not reproducible in isolation: run everything again
			again := runWorker(ck, dir, only, hang)
			if again.err != nil {
				fmt.Fprintln(os.Stderr, "error:", again.err)
				return 2
			}
			if again.dead == nil {
				at = again
				viol = again.res.Viol
			} else {
				best = again.dead
			}
		}
		if best != nil {
			viol = []Violation{*best}
		}
	} else {
		viol = at.res.Viol
	}
	unlisted := 0
	shown := map[string]bool{}
	var first *Violation
	for i := range viol {
		v := viol[i]
		parts := v.Parts
		if len(parts) == 0 {
			parts = []string{v.Msg}
		}
		// every failure of the case must be a listed one
		listed := true
		var what []string
		for _, m := range parts {
			hit := false
			for _, k := range kn {
				if k.Property == v.Property && k.Key == v.Key && (k.Msg == "" || strings.Contains(m, k.Msg)) {
					hit = true
					what = append(what, k.What)
					break
				}
			}
			listed = listed && hit
		}
		for _, w := range what {
			if listed && !shown[w] {
				shown[w] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, w)
			}
		}
		if !listed {
			unlisted++
			if first == nil {
				first = &viol[i]
			}
		}
	}
	r := at.res
	sm := make([]any, 0, len(r.Samples))
	for _, s := range r.Samples {
		sm = append(sm, s)
	}
	cov := map[string]any{}
	if ck.Level == "model_checking" {
		cov["states"] = r.States
		cov["transitions"] = r.Transitions
		cov["traces_validated_against_impl"] = r.Cases
	} else {
		cov["evaluations"] = r.Cases
		cov["distinct_nontrivial"] = r.States
	}
	cov["rule"] = ck.Rule
	cov["samples"] = sm
	cov["exhaustive"] = !r.Capped && at.dead == nil && only == ""
	for k, v := range r.Extra {
		cov[k] = v
	}
	ev := map[string]any{"property": ck.ID, "tier": tier(), "seed": seed(), "level": ck.Level, "coverage": cov,
		"assumptions": ck.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": unlisted}
	if ck.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if only == "" {
		os.MkdirAll(filepath.Join(Root(), "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(Root(), "evidence", ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s tier=%s cases=%d states=%d transitions=%d capped=%v wall=%.1fs\n", ck.ID, tier(), r.Cases, r.States, r.Transitions, r.Capped, time.Since(start).Seconds())
	if unlisted > 0 {
		rd := filepath.Join(Root(), "replays")
		os.MkdirAll(rd, 0o755)
		p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", ck.ID, os.Getpid()))
		b, _ := json.MarshalIndent(first, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		n := 0
		for _, v := range viol {
			if n++; n > 8 && os.Getenv("VERIF_ALL") == "" {
				break
			}
			m := v.Msg
			if len(m) > 600 {
				m = m[:600]
			}
			fmt.Printf("  [%d/%d] %s: %s\n", n, len(viol), v.Key, m)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
		return 1
	}
	return 0
}

func deadKeys(msg string) []string {
	i := strings.Index(msg, "case(s) [")
	if i < 0 {
		return nil
	}
	var out []string
	s := msg[i+len("case(s) ["):]
	for {
		s = strings.TrimLeft(s, " ")
		if s == "" || s[0] != '"' {
			return out
		}
		var q string
		j := 1
		for j < len(s) && s[j] != '"' {
			if s[j] == '\\' {
				j++
			}
			j++
		}
		if j >= len(s) {
			return out
		}
		if err := json.Unmarshal([]byte(s[:j+1]), &q); err == nil {
			out = append(out, q)
		}
		s = s[j+1:]
	}
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

// Keys returns the sorted keys of a map.
func Keys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
