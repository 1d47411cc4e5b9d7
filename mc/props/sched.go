package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"verif/mc/core"
)

// schedBuild builds schedchild against a standard library whose scheduler
// makes every choice among the goroutines of a run where it is told to.
func schedBuild(dir string) (string, error) {
	src := os.Getenv("VERIF_SRC")
	if src == "" {
		return "", fmt.Errorf("VERIF_SRC is not set")
	}
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", fmt.Errorf("go env: %v", err)
	}
	root := filepath.Join(strings.TrimSpace(string(b)), "src")
	over := map[string]string{}
	n := 0
	// edit changes a file of the standard library; an empty old text is the
	// start of the body of the functions new names.
	edit := func(file string, pairs ...string) error {
		path := filepath.Join(root, file)
		t, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		s := string(t)
		for i := 0; i < len(pairs); i += 2 {
			if strings.Count(s, pairs[i]) != 1 {
				return fmt.Errorf("%s: %d × %q", file, strings.Count(s, pairs[i]), pairs[i])
			}
			s = strings.Replace(s, pairs[i], pairs[i+1], 1)
		}
		return put(dir, path, s, over, &n)
	}
	// enter puts a statement at the start of the functions whose header matches.
	enter := func(file, header, stmt, extra string) error {
		path := filepath.Join(root, file)
		t, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		re := regexp.MustCompile(`(?m)^func ` + header + `.*\{`)
		if len(re.FindAllString(string(t), -1)) == 0 {
			return fmt.Errorf("%s: no %q", file, header)
		}
		s := re.ReplaceAllStringFunc(string(t), func(m string) string { return m + " " + stmt + ";" })
		return put(dir, path, s+extra, over, &n)
	}
	steps := []func() error{
		func() error {
			return edit("runtime/runtime2.go", "\tgcAssistBytes int64\n", "\tgcAssistBytes int64\n\tmcID uint32\n")
		},
		func() error {
			return edit("runtime/proc.go",
				"\tnewg.startpc = fn.fn\n", "\tnewg.startpc = fn.fn\n\tnewg.mcID = mcInherit(callergp)\n",
				"func gdestroy(gp *g) {\n", "func gdestroy(gp *g) {\n\tmcExit(gp)\n",
				"func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif gp.mcID != 0 {\n\t\tmcPut(gp)\n\t\treturn\n\t}\n",
				"func globrunqput(gp *g) {\n", "func globrunqput(gp *g) {\n\tif gp.mcID != 0 {\n\t\tmcPut(gp)\n\t\treturn\n\t}\n",
				"\t// Try to schedule the trace reader.\n", "\tif gp := mcPick(); gp != nil {\n\t\treturn gp, false, false\n\t}\n\t// Try to schedule the trace reader.\n",
				"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif mcOn {\n\t\treturn 0\n\t}\n",
				"func os_beforeExit(exitCode int) {\n", "func os_beforeExit(exitCode int) {\n\tmcDump()\n")
		},
		func() error {
			return edit("runtime/panic.go", "func startpanic_m() bool {\n", "func startpanic_m() bool {\n\tmcDump()\n")
		},
		func() error {
			return edit("runtime/chan.go",
				"callerpc uintptr) bool {\n\tif c == nil {", "callerpc uintptr) bool {\n\tmcYield()\n\tif c == nil {",
				"func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n\tmcYield()\n",
				"block bool) (selected, received bool) {\n", "block bool) (selected, received bool) {\n\tmcYield()\n")
		},
		func() error {
			return edit("runtime/select.go",
				"\tgp := getg()\n\tif debugSelect {\n\t\tprint(\"select: cas0", "\tmcYield()\n\tmcFirst := mcSelect(nsends + nrecvs)\n\tgp := getg()\n\tif debugSelect {\n\t\tprint(\"select: cas0",
				"\t\tj := cheaprandn(uint32(norder + 1))\n", "\t\tj := cheaprandn(uint32(norder + 1))\n\t\tif mcOn && gp.mcID != 0 {\n\t\t\tj = uint32(norder)\n\t\t\tif i == mcFirst {\n\t\t\t\tj = 0\n\t\t\t}\n\t\t}\n")
		},
		func() error {
			return edit("runtime/slice.go", "\treturn mallocgc(mem, et, true)\n}\n\nfunc makeslice64", "\tif mcOn && len == 0 && mem >= 1<<29 {\n\t\tmem = 1 << 20 // a reading buffer much larger than what is read here\n\t}\n\treturn mallocgc(mem, et, true)\n}\n\nfunc makeslice64")
		},
		func() error {
			return edit("internal/runtime/maps/runtime.go", "func rand() uint64\n", "func rand() uint64\n\n//go:linkname mcRand\nfunc mcRand(n int) uint64\n")
		},
		func() error {
			return edit("internal/runtime/maps/table.go", "\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n", "\tit.entryOffset = mcRand(int(min(m.used, 8)))\n\tit.dirOffset = 0\n")
		},
		func() error {
			t, err := os.ReadFile(filepath.Join(root, "internal/runtime/maps/map.go"))
			if err != nil {
				return err
			}
			s := strings.ReplaceAll(string(t), "m.seed = uintptr(rand())", "m.seed = 12345")
			return put(dir, filepath.Join(root, "internal/runtime/maps/map.go"), s, over, &n)
		},
		func() error {
			t, err := os.ReadFile(filepath.Join(root, "runtime/alg.go"))
			if err != nil {
				return err
			}
			s := strings.ReplaceAll(string(t), "uintptr(bootstrapRand())", "uintptr(0x9e3779b97f4a7c15)*uintptr(i+1)")
			s = strings.ReplaceAll(s, "bootstrapRand()", "(uint64(0x9e3779b97f4a7c15)*uint64(i+1))")
			return put(dir, filepath.Join(root, "runtime/alg.go"), s, over, &n)
		},
		func() error {
			s, err := os.ReadFile(filepath.Join(root, "internal/sync/mutex.go"))
			if err != nil {
				return err
			}
			t := strings.Replace(string(s), "starving = starving || runtime_nanotime()-waitStartTime > starvationThresholdNs", "starving = false", 1)
			t = strings.Replace(t, "func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\tmcYield()\n", 1)
			t = strings.Replace(t, "func (m *Mutex) TryLock() bool {\n", "func (m *Mutex) TryLock() bool {\n\tmcYield()\n", 1)
			if strings.Count(t, "mcYield") != 2 {
				return fmt.Errorf("internal/sync/mutex.go has changed")
			}
			return put(dir, filepath.Join(root, "internal/sync/mutex.go"), t+"\n//go:linkname mcYield\nfunc mcYield()\n", over, &n)
		},
		func() error {
			return enter("sync/rwmutex.go", `\(rw \*RWMutex\) (RLock|TryRLock|TryLock)\(`, "mcYield()", "\n//go:linkname mcYield\nfunc mcYield()\n")
		},
		func() error { return enter("sync/waitgroup.go", `\(wg \*WaitGroup\) (Add|Wait)\(`, "mcYield()", "") },
		func() error { return enter("sync/once.go", `\(o \*Once\) Do\(`, "mcYield()", "") },
		func() error { return enter("sync/cond.go", `\(c \*Cond\) (Wait|Signal|Broadcast)\(`, "mcYield()", "") },
		func() error { return enter("sync/hashtriemap.go", `\(m \*Map\) `, "mcYield()", "") },
		func() error {
			return enter("sync/atomic/type.go", `\(x \*[A-Za-z0-9\[\]]+\) `, "mcYield()", "\nfunc mcYield()\n")
		},
		func() error {
			return edit("sync/pool.go", "\t\tif runtime_randn(4) == 0 {", "\t\tif false {", "\tallPoolsMu.Lock()\n\tdefer allPoolsMu.Unlock()\n", "")
		},
	}
	for _, f := range steps {
		if err := f(); err != nil {
			return "", err
		}
	}
	over[filepath.Join(root, "runtime/zz_mc.go")] = filepath.Join(src, "sched/runtime_mc.go.txt")
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": over})
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), ov, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "schedchild")
	cmd := exec.Command("go", "build", "-race", "-tags", "verifoverlay,verif", "-overlay", filepath.Join(dir, "overlay.json"), "-o", bin, "./schedchild")
	cmd.Dir = src
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, o)
	}
	return bin, nil
}

func put(dir, path, text string, over map[string]string, n *int) error {
	*n++
	to := filepath.Join(dir, fmt.Sprintf("%d_%s", *n, filepath.Base(path)))
	over[path] = to
	return os.WriteFile(to, []byte(text), 0644)
}

type schedItem struct {
	Name        string
	Bound, Free int
	Maps        bool
	Weight      int
}

type schedReport struct {
	Runs, Choices, Longest, Yields, Goroutines, Preempted int
	Capped                                                bool
	States                                                []uint64
	Path                                                  []uint16
	Message                                               string
}

// schedRun explores every scenario of a property, one process each.
func schedRun(c *core.Ctx, prop string) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "sched-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin, err := schedBuild(dir)
	if err != nil {
		panic(err)
	}
	env := []string{"GOMAXPROCS=1", "GORACE=atexit_sleep_ms=0", "VERIF_TIER=" + c.Tier, "TMPDIR=" + dir, "HOME=" + dir}
	cmd := exec.Command(bin, "list", prop)
	cmd.Env = env
	b, err := cmd.Output()
	if err != nil {
		panic(fmt.Sprintf("schedchild list: %v", err))
	}
	var items []schedItem
	if err := json.Unmarshal(b, &items); err != nil {
		panic(err)
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].Weight > items[j].Weight })
	c.Count("scenarios", int64(len(items)))
	sec := core.Pick(c, 100, 1500)
	c.Par(len(items), func(w *core.W, i int) {
		it := items[i]
		w.Case("schedules/"+it.Name, func(t *core.T) {
			if c.TimeUp() {
				return
			}
			in, _ := json.Marshal(map[string]any{"Prop": prop, "Scenario": it.Name, "Bound": it.Bound, "Free": it.Free, "Maps": it.Maps, "Max": core.Pick(c, 200000, 5000000), "Seconds": sec})
			home := scratchDir(t)
			defer os.RemoveAll(home)
			cmd := exec.Command(bin)
			cmd.Env, cmd.Dir = append(append([]string{}, env...), "TMPDIR="+home), home
			cmd.Stdin = bytes.NewReader(in)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			tm := time.AfterFunc(time.Duration(sec+60)*time.Second, func() { cmd.Process.Kill() })
			err := cmd.Wait()
			if !tm.Stop() {
				t.Fatalf("a run does not end: some goroutine goes on for ever without waiting for anything")
			}
			var r schedReport
			if err != nil && len(bytes.TrimSpace(so.Bytes())) == 0 {
				if strings.Contains(se.String(), "did not follow its path") {
					panic("schedchild: " + se.String())
				}
				t.Fatalf("under a schedule the program ends (%v): %s", err, schedTail(se.String()))
			}
			if err := json.Unmarshal(so.Bytes(), &r); err != nil {
				panic(fmt.Sprintf("schedchild: %v %q %q", err, so.String(), cut(se.String(), 500)))
			}
			t.Op(r.Choices + r.Runs)
			for _, h := range r.States {
				t.State(h)
			}
			c.Count("schedules", int64(r.Runs))
			c.Count("schedules with a preemption", int64(r.Preempted))
			if r.Capped {
				c.Partial()
			}
			if r.Message != "" {
				extra := ""
				if strings.Contains(r.Message, "data race") {
					extra = " " + schedTail(se.String())
				}
				t.Errorf("%s%s (schedule %v, found after %d)", r.Message, extra, r.Path, r.Runs)
			}
		})
	})
}

// schedTail is the part of what a dying program prints that says why.
func schedTail(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l != "" && !strings.HasPrefix(l, "=====") {
			out = append(out, l)
		}
		if len(out) == 24 {
			break
		}
	}
	return strings.Join(out, " | ")
}
