package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{ID: "C24", Level: "fault_enumeration",
		Rule:        "CachedPath of the real code is run in a process of its own against a scripted server, with a gate in front of every file operation of the standard library (open, read, write, close, rename, stat, mkdir, unlink, ...). Enumerated: every response kind x the connection lost or reset at every byte of every request; every file operation of each of those histories x death before it, every errno, writes torn or cut short at every length; and every interleaving of two calls at their file operations up to a preemption bound. After each: a call that returned no error gave a complete file; no partial file is at the cached place; a later call with a dead network serves the complete file or fails, one with a healthy network delivers the complete file. Non-trivial: the fault was reached.",
		Run:         c24,
		Assumptions: []string{"Death of the process, not of the machine: data the kernel accepted survives.", "A server that announces a body shorter than it meant has delivered the body it announced.", "HTTP/1.1; the response is replaced below the transport, so protocol parsing is the real one."}})
}

type c24Server struct {
	Kind   string
	Status int
	Body   string
	Repeat int
	Length int
	Req    int
	Cut    int
	Reset  bool
}

type c24Scenario struct {
	Root, Cache, Model, File string
	Server                   c24Server
	Calls                    int
	Schedule                 []int
	FaultOp                  int
	Fault                    string
	K                        int
}

type c24Op struct {
	Name, Path, Path2 string
	N                 int
	Call              int
}

type c24Output struct {
	Ops      []c24Op
	Results  []struct{ Path, Err, Panic string }
	Requests int
	RespLen  int
	Refused  []string
	Choices  [][2]int
	Died     bool
}

const c24Body = "ab\nc\u00e9\n"

// c24Build builds the program that plays a history.
func c24Build(dir string) (string, error) {
	src := os.Getenv("VERIF_SRC")
	if src == "" {
		return "", fmt.Errorf("VERIF_SRC is not set")
	}
	b, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", fmt.Errorf("go env: %v", err)
	}
	root := strings.TrimSpace(string(b))
	z := filepath.Join(root, "src/syscall/zsyscall_linux_"+runtime.GOARCH+".go")
	text, err := os.ReadFile(z)
	if err != nil {
		return "", err
	}
	s := string(text)
	for _, f := range []string{"openat", "write", "pwrite", "read", "Close", "Ftruncate", "Fchmod", "Fsync", "Renameat", "linkat", "symlinkat", "Mkdirat", "unlinkat", "fchmodat", "fstatat"} {
		if strings.Count(s, "\nfunc "+f+"(") != 1 {
			return "", fmt.Errorf("no %s in %s", f, z)
		}
		s = strings.Replace(s, "\nfunc "+f+"(", "\nfunc verif_"+f+"(", 1)
	}
	c := filepath.Join(root, "src/internal/syscall/unix/copy_file_range_unix.go")
	ct, err := os.ReadFile(c)
	if err != nil {
		return "", err
	}
	at := bytes.Index(ct, []byte(" (n int, err error) {\n"))
	if at < 0 {
		return "", fmt.Errorf("no copy_file_range in %s", c)
	}
	at += len(" (n int, err error) {\n")
	cs := string(ct[:at]) + "\tif true { return 0, syscall.ENOSYS }\n" + string(ct[at:])
	files := map[string]string{"z.go": s, "cfr.go": cs}
	for n, v := range files {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(v), 0644); err != nil {
			return "", err
		}
	}
	ov, _ := json.Marshal(map[string]map[string]string{"Replace": {
		z: filepath.Join(dir, "z.go"),
		c: filepath.Join(dir, "cfr.go"),
		filepath.Join(root, "src/syscall/verif_hooks.go"): filepath.Join(src, "c24child/hooks.go.txt"),
	}})
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), ov, 0644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "c24child")
	cmd := exec.Command("go", "build", "-tags", "verifoverlay", "-overlay", filepath.Join(dir, "overlay.json"), "-o", bin, "./c24child")
	cmd.Dir = src
	if o, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, o)
	}
	return bin, nil
}

type c24env struct {
	bin, base string
	mu        sync.Mutex
	n         int
}

func (e *c24env) dir(t *core.T) string {
	e.mu.Lock()
	e.n++
	d := filepath.Join(e.base, fmt.Sprint(e.n))
	e.mu.Unlock()
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

func (e *c24env) run(t *core.T, sc c24Scenario) c24Output {
	in, _ := json.Marshal(sc)
	cmd := exec.Command(e.bin)
	cmd.Env = []string{"HOME=" + sc.Root, "GO_TOKENIZER=" + sc.Cache, "TMPDIR=" + sc.Root + "/tmp", "PATH=/nonexistent", "GOMAXPROCS=2"}
	cmd.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	cmd.Dir = sc.Root
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	tm := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	timedOut := !tm.Stop()
	var out c24Output
	if err != nil {
		if timedOut {
			t.Fatalf("CachedPath does not return: %+v", sc)
		}
		if ws := cmd.ProcessState.String(); strings.Contains(ws, "killed") && (sc.Fault == "die" || sc.Fault == "torn") {
			out.Died = true
			return out
		}
		t.Fatalf("CachedPath ended the program (%v: %s) instead of reporting an error: %+v", err, cut(se.String(), 300), sc)
	}
	if err := json.Unmarshal(so.Bytes(), &out); err != nil {
		panic(fmt.Sprintf("child: %v: %q %q", err, so.String(), se.String()))
	}
	return out
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// c24World is a place to fetch from.
type c24World struct {
	name   string
	srv    c24Server
	local  bool // the model is a directory that holds the file
	body   string
	ok     bool // without faults the call delivers
	atBody bool // cut the response also inside the head
}

func (wd c24World) want() string { return wd.body }

// setup makes the history's directory and its scenario.
func (wd c24World) setup(e *c24env, t *core.T) c24Scenario {
	root := e.dir(t)
	sc := c24Scenario{Root: root, Cache: root + "/cache", Model: "org/model", File: "vocab.txt", Server: wd.srv, FaultOp: -1}
	if err := os.Mkdir(root+"/tmp", 0755); err != nil {
		panic(err)
	}
	if wd.local {
		sc.Model = root + "/local"
		if err := os.MkdirAll(sc.Model, 0755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(sc.Model+"/"+sc.File, []byte(wd.body), 0644); err != nil {
			panic(err)
		}
	}
	return sc
}

func (wd c24World) healthy() c24Server {
	return c24Server{Kind: "plain", Body: wd.body, Req: -2}
}

// judge looks at what a history left behind and plays the later calls.
func (wd c24World) judge(e *c24env, t *core.T, sc c24Scenario, out c24Output, what string) {
	final := sc.Cache + "/" + sc.Model + "/" + sc.File
	state := func() (string, bool) {
		b, err := os.ReadFile(final)
		return string(b), err == nil
	}
	show := func(s string) string {
		return fmt.Sprintf("%d bytes %q", len(s), cut(s, 40))
	}
	if len(out.Refused) > 0 {
		t.Fatalf("%s: writes outside of the cache and the temporary directory: %q", what, out.Refused)
	}
	got, there := state()
	if there && got != wd.want() {
		t.Fatalf("%s: the cached file has %s, the file is %s", what, show(got), show(wd.want()))
	}
	for i, r := range out.Results {
		if r.Panic != "" {
			t.Fatalf("%s: call %d panics: %s", what, i, cut(r.Panic, 300))
		}
		if r.Err != "" {
			continue
		}
		b, err := os.ReadFile(r.Path)
		if err != nil {
			t.Fatalf("%s: call %d reports success but its path %q cannot be read: %v", what, i, r.Path, err)
		}
		if string(b) != wd.want() {
			t.Fatalf("%s: call %d reports success with %s, the file is %s", what, i, show(string(b)), show(wd.want()))
		}
	}
	if wd.local { // the source is not touched
		if b, err := os.ReadFile(sc.Model + "/" + sc.File); err != nil || string(b) != wd.body {
			t.Fatalf("%s: the local source file is now %s (%v)", what, show(string(b)), err)
		}
	}
	later := func(srv c24Server, name string, must bool) {
		l := c24Scenario{Root: sc.Root, Cache: sc.Cache, Model: sc.Model, File: sc.File, Server: srv, FaultOp: -1}
		before, had := state()
		o := e.run(t, l)
		r := o.Results[0]
		if r.Panic != "" {
			t.Fatalf("%s: the later call (%s) panics: %s", what, name, cut(r.Panic, 300))
		}
		if r.Err == "" {
			b, err := os.ReadFile(r.Path)
			if err != nil || string(b) != wd.want() {
				t.Fatalf("%s: the later call (%s) serves %s (%v), the file is %s", what, name, show(string(b)), err, show(wd.want()))
			}
		} else if must {
			t.Fatalf("%s: the later call (%s) fails: %s", what, name, r.Err)
		}
		if had {
			if r.Err != "" || r.Path != final {
				t.Fatalf("%s: the file is cached but a later call (%s) gives %q, %s", what, name, r.Path, r.Err)
			}
			if o.Requests != 0 {
				t.Fatalf("%s: the file is cached but a later call contacts the network", what)
			}
			if now, _ := state(); now != before {
				t.Fatalf("%s: a later call changed the cached file", what)
			}
			for _, op := range o.Ops {
				if op.Name == "write" || op.Name == "rename" || op.Name == "unlink" || op.Name == "ftruncate" {
					t.Fatalf("%s: the file is cached but a later call does %+v", what, op)
				}
			}
		}
	}
	later(c24Server{Kind: "dead"}, "no network", wd.local)
	later(wd.healthy(), "healthy network", true)
}

func (wd c24World) tidy(sc c24Scenario) { os.RemoveAll(sc.Root) }

func c24(c *core.Ctx) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "verif-c24-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	bin, err := c24Build(dir)
	if err != nil {
		panic(err)
	}
	e := &c24env{bin: bin, base: dir + "/h"}
	plain := func(kind string) c24Server { return c24Server{Kind: kind, Body: c24Body, Req: -2} }
	long := plain("plain")
	long.Repeat = 6000
	longC := plain("chunked")
	longC.Repeat = 6000
	empty := plain("plain")
	empty.Body = ""
	status := func(n int) c24Server { s := plain("plain"); s.Status = n; return s }
	off := func(n int) c24Server { s := plain("plain"); s.Length = n; return s }
	big := strings.Repeat(c24Body, 6000)
	worlds := []c24World{
		{"plain", plain("plain"), false, c24Body, true, true},
		{"chunked", plain("chunked"), false, c24Body, true, true},
		{"gzip", plain("gzip"), false, c24Body, true, true},
		{"redirect", plain("redirect"), false, c24Body, true, true},
		{"announces too much", off(5), false, c24Body, false, true},
		{"announces a little too much", off(1), false, c24Body, false, true},
		{"long", long, false, big, true, false},
		{"long chunked", longC, false, big, true, false},
		{"local", c24Server{Kind: "dead"}, true, c24Body, true, false},
		{"local long", c24Server{Kind: "dead"}, true, big, true, false},
		{"dead", c24Server{Kind: "dead"}, false, c24Body, false, false},
	}
	for _, s := range []int{204, 206, 301, 401, 403, 404, 416, 500, 503} {
		worlds = append(worlds, c24World{fmt.Sprint("status ", s), status(s), false, c24Body, false, s == 404})
	}
	worlds = append(worlds, c24World{"empty", empty, false, "", true, true})

	type job struct {
		key string
		run func(t *core.T)
	}
	var jobs []job
	var mu sync.Mutex
	var next []job
	add := func(key string, f func(t *core.T)) {
		mu.Lock()
		next = append(next, job{key, f})
		mu.Unlock()
	}
	// base histories: no fault
	for _, wd := range worlds {
		add("base/"+wd.name, func(t *core.T) {
			sc := wd.setup(e, t)
			defer wd.tidy(sc)
			out := e.run(t, sc)
			what := wd.name
			if (out.Results[0].Err == "") != wd.ok {
				t.Fatalf("%s: CachedPath reports %q", what, out.Results[0].Err)
			}
			t.Op(len(out.Ops))
			t.State(fmt.Sprint(out.Ops))
			wd.judge(e, t, sc, out, what)
			// a fault at every file operation
			for i, op := range out.Ops {
				faults := []string{"die", "EIO", "EACCES"}
				ks := []int{0}
				switch op.Name {
				case "write":
					faults = append(faults, "ENOSPC")
				case "rename":
					faults = append(faults, "EXDEV")
				case "open", "mkdir":
					faults = append(faults, "ENOSPC")
				}
				for _, f := range faults {
					add(fmt.Sprintf("file/%s/%d/%s", wd.name, i, f), wd.fault(e, i, op, f, 0))
				}
				if op.Name != "write" {
					continue
				}
				ks = nil
				for k := 0; k <= op.N; k++ {
					if op.N < 20 || k < 3 || k > op.N-3 || k%8192 == 0 {
						ks = append(ks, k)
					}
				}
				for _, k := range ks {
					add(fmt.Sprintf("file/%s/%d/torn/%d", wd.name, i, k), wd.fault(e, i, op, "torn", k))
					if k < op.N {
						add(fmt.Sprintf("file/%s/%d/short/%d", wd.name, i, k), wd.fault(e, i, op, "short", k))
					}
				}
			}
			add(fmt.Sprintf("file/%s/end/die", wd.name), wd.fault(e, len(out.Ops), c24Op{Name: "end"}, "die", 0))
			// the connection lost at every byte
			if out.Requests == 0 {
				return
			}
			reqs := []int{-1}
			for r := 0; r < out.Requests; r++ {
				reqs = append(reqs, r)
			}
			for _, r := range reqs {
				p := sc
				p.Server.Req, p.Server.Cut = r, 1<<30
				pw := wd
				psc := pw.setup(e, t)
				psc.Server = p.Server
				n := e.run(t, psc).RespLen
				pw.tidy(psc)
				for cutAt := 0; cutAt < n; cutAt++ {
					if n > 1000 && cutAt > 100 && cutAt%core.Pick(c, 1<<14, 1<<12) > 1 && n-cutAt > 8 {
						continue
					}
					for _, reset := range []bool{false, true} {
						add(fmt.Sprintf("net/%s/%d/%d/%v", wd.name, r, cutAt, reset), func(t *core.T) {
							sc := wd.setup(e, t)
							defer wd.tidy(sc)
							sc.Server.Req, sc.Server.Cut, sc.Server.Reset = r, cutAt, reset
							out := e.run(t, sc)
							wd.judge(e, t, sc, out, fmt.Sprintf("%s: response %d %s after %d of %d bytes", wd.name, r, core.If(reset, "reset", "ends"), cutAt, n))
							t.Op(len(out.Ops))
						})
					}
				}
			}
		})
	}
	// two calls at once
	bound := core.Pick(c, 2, 4)
	for _, wd := range []c24World{worlds[0], worlds[1], worlds[6], worlds[8]} {
		if wd.name == "long" && !c.Thorough() {
			continue
		}
		var explore func(prefix []int, used int) func(t *core.T)
		explore = func(prefix []int, used int) func(t *core.T) {
			return func(t *core.T) {
				sc := wd.setup(e, t)
				defer wd.tidy(sc)
				sc.Calls, sc.Schedule = 2, append(prefix[:len(prefix):len(prefix)], 0)
				out := e.run(t, sc)
				var tr []string
				for _, o := range out.Ops {
					tr = append(tr, fmt.Sprintf("%d:%s", o.Call, o.Name))
				}
				what := fmt.Sprintf("%s, two calls at once, file operations %v", wd.name, tr)
				for i, r := range out.Results {
					if r.Err != "" {
						t.Fatalf("%s: call %d fails: %s", what, i, r.Err)
					}
				}
				wd.judge(e, t, sc, out, what)
				t.Op(len(out.Ops))
				t.State(strings.Join(tr, ""))
				if used == bound {
					return
				}
				for i := len(prefix); i < len(out.Choices); i++ {
					if out.Choices[i][1] > 1 {
						p := append([]int{}, prefix...)
						for len(p) < i {
							p = append(p, 0)
						}
						p = append(p, 1)
						add(fmt.Sprintf("two/%s/%v", wd.name, p), explore(p, used+1))
					}
				}
			}
		}
		add("two/"+wd.name+"/[]", explore(nil, 0))
	}
	for len(next) > 0 {
		jobs, next = next, nil
		c.Par(len(jobs), func(w *core.W, i int) {
			if c.TimeUp() {
				return
			}
			if c.Only != "" && c.Only != jobs[i].key {
				w.Quiet(jobs[i].run) // finds the histories that follow
				return
			}
			w.Case(jobs[i].key, jobs[i].run)
		})
	}
}

// fault plays the history with one fault at a file operation.
func (wd c24World) fault(e *c24env, i int, op c24Op, kind string, k int) func(t *core.T) {
	return func(t *core.T) {
		sc := wd.setup(e, t)
		defer wd.tidy(sc)
		sc.FaultOp, sc.Fault, sc.K = i, kind, k
		out := e.run(t, sc)
		wd.judge(e, t, sc, out, fmt.Sprintf("%s: %s %d at file operation %d (%s %s %d)", wd.name, kind, k, i, op.Name, op.Path, op.N))
		t.Op(i + 1)
	}
}
