//go:build verifoverlay

// The program that plays one history of C24: calls of CachedPath against a
// scripted server, with one fault or death at a file operation, or with two
// calls interleaved as told. It is built with gates in front of the file
// operations of the standard library (hooks.go.txt).
package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/sugarme/tokenizer"
)

type Server struct {
	Kind   string // plain, chunked, gzip, redirect, dead
	Status int
	Body   string
	Repeat int // times the body is repeated
	Length int // announced length is off by this much
	Req    int // request with the fault, -1: every request, -2: none
	Cut    int // bytes of the response that arrive
	Reset  bool
}

type Scenario struct {
	Root, Cache, Model, File string
	Server                   Server
	Calls                    int
	Schedule                 []int
	FaultOp                  int // -1: none
	Fault                    string
	K                        int
}

type Op struct {
	Name, Path, Path2 string
	N                 int
	Call              int
}

type Result struct {
	Path, Err string
	Panic     string
}

type Output struct {
	Ops      []Op
	Results  []Result
	Requests int
	RespLen  int
	Refused  []string // operations that would change something outside the root
	Choices  [][2]int // of a schedule: which was chosen, how many could run
}

var (
	sc   Scenario
	out  Output
	mu   sync.Mutex
	fds  = map[int]string{}
	outF *os.File
)

func body() string { return strings.Repeat(sc.Server.Body, max(1, sc.Server.Repeat)) }

// response gives the bytes the server sends for a request.
func response(path string) []byte {
	s := sc.Server
	if s.Kind == "redirect" && !strings.HasPrefix(path, "/cdn/") {
		return []byte("HTTP/1.1 302 Found\r\nLocation: https://cdn.example/cdn/x\r\nContent-Length: 3\r\n\r\nsee")
	}
	if s.Status != 200 && s.Status != 0 {
		return []byte(fmt.Sprintf("HTTP/1.1 %d %s\r\nContent-Length: %d\r\n\r\n%s", s.Status, http.StatusText(s.Status), len(body()), body()))
	}
	var b bytes.Buffer
	switch s.Kind {
	case "chunked":
		b.WriteString("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
		p := body()
		for len(p) > 0 {
			n := min(len(p), 3)
			if len(p) > 1000 {
				n = min(len(p), 30000)
			}
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, p[:n])
			p = p[n:]
		}
		b.WriteString("0\r\n\r\n")
	case "gzip":
		var z bytes.Buffer
		w := gzip.NewWriter(&z)
		io.WriteString(w, body())
		w.Close()
		fmt.Fprintf(&b, "HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: %d\r\n\r\n", z.Len())
		b.Write(z.Bytes())
	default:
		fmt.Fprintf(&b, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(body())+s.Length, body())
	}
	return b.Bytes()
}

// conn plays the server's side of one connection.
type conn struct {
	mu     sync.Mutex
	cond   *sync.Cond
	req    bytes.Buffer
	resp   []byte
	end    error
	closed bool
}

func newConn() *conn { c := &conn{}; c.cond = sync.NewCond(&c.mu); return c }

func (c *conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return 0, net.ErrClosed
	}
	c.req.Write(p)
	for {
		i := bytes.Index(c.req.Bytes(), []byte("\r\n\r\n"))
		if i < 0 {
			break
		}
		line := string(c.req.Next(i + 4))
		path := "/"
		if f := strings.Fields(line); len(f) > 1 {
			path = f[1]
		}
		mu.Lock()
		n := out.Requests
		out.Requests++
		mu.Unlock()
		r := response(path)
		if sc.Server.Req == n || sc.Server.Req == -1 {
			out.RespLen = len(r)
			if sc.Server.Cut < len(r) {
				r = r[:sc.Server.Cut]
				c.end = io.EOF
				if sc.Server.Reset {
					c.end = syscall.ECONNRESET
				}
			}
		}
		if sc.Server.Length > 0 { // the server closes short of what it announced
			c.end = io.EOF
		}
		c.resp = append(c.resp, r...)
	}
	c.cond.Broadcast()
	return len(p), nil
}

func (c *conn) Read(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if len(c.resp) > 0 {
			n := copy(p, c.resp)
			c.resp = c.resp[n:]
			return n, nil
		}
		if c.end != nil {
			return 0, c.end
		}
		c.cond.Wait()
	}
}

func (c *conn) Close() error {
	c.mu.Lock()
	c.closed = true
	c.cond.Broadcast()
	c.mu.Unlock()
	return nil
}
func (c *conn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *conn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	return strings.Fields(string(b[:n]))[1]
}

// turns of the calls of a schedule
type turn struct {
	wait chan bool
	done bool
	at   bool
}

var (
	turns  []*turn
	byGo   = map[string]int{}
	parked = make(chan int)
)

// inScope tells the path of an operation inside the history's directory.
func inScope(op syscall.VerifOp) (string, bool) {
	switch op.Name {
	case "write", "read", "close", "ftruncate", "fchmod", "fsync":
		mu.Lock()
		p, ok := fds[op.Fd]
		mu.Unlock()
		return p, ok
	}
	if strings.HasPrefix(op.Path, sc.Root) || strings.HasPrefix(op.Path2, sc.Root) {
		return op.Path, true
	}
	mu.Lock()
	d, ok := fds[op.Fd]
	mu.Unlock()
	return d + "/" + op.Path, ok && !strings.HasPrefix(op.Path, "/")
}

// refused tells an operation that would change something outside the history's directory.
func refused(op syscall.VerifOp) bool {
	outside := func(p string) bool {
		if p == "" || p == os.DevNull {
			return false
		}
		if !strings.HasPrefix(p, "/") {
			if d, ok := fdPath(op.Fd); ok {
				p = d + "/" + p
			} else if wd, err := os.Getwd(); err == nil {
				p = wd + "/" + p
			}
		}
		return !strings.HasPrefix(filepath.Clean(p)+"/", filepath.Clean(sc.Root)+"/")
	}
	switch op.Name {
	case "open":
		return op.N&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0 && outside(op.Path)
	case "rename", "link", "symlink":
		return outside(op.Path) || outside(op.Path2)
	case "mkdir", "unlink", "chmod":
		return outside(op.Path)
	}
	return false
}

func fdPath(fd int) (string, bool) {
	mu.Lock()
	defer mu.Unlock()
	p, ok := fds[fd]
	return p, ok
}

var die int = -1 // remaining operations before death, when set

func gate(op syscall.VerifOp) (int, error) {
	if refused(op) {
		mu.Lock()
		out.Refused = append(out.Refused, op.Name+" "+op.Path+" "+op.Path2)
		mu.Unlock()
		return -1, syscall.EPERM
	}
	path, ok := inScope(op)
	if !ok {
		return -1, nil
	}
	call := 0
	if len(sc.Schedule) > 0 || sc.Calls > 1 {
		id := goid()
		mu.Lock()
		n, ok := byGo[id]
		mu.Unlock()
		if ok {
			call = n
			parked <- n
			<-turns[n].wait
		}
	}
	mu.Lock()
	i := len(out.Ops)
	rel := func(p string) string { return strings.TrimPrefix(p, sc.Root) }
	out.Ops = append(out.Ops, Op{op.Name, rel(path), rel(op.Path2), op.N, call})
	mu.Unlock()
	kill := func() {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
		select {}
	}
	if die == 0 {
		kill()
	}
	if i != sc.FaultOp {
		if die > 0 {
			die--
		}
		return -1, nil
	}
	switch sc.Fault {
	case "die":
		kill()
	case "torn": // K bytes arrive, then the process dies
		if op.Name == "write" {
			die = 0
			return sc.K, nil
		}
		kill()
	case "EIO":
		return -1, syscall.EIO
	case "ENOSPC":
		return -1, syscall.ENOSPC
	case "EACCES":
		return -1, syscall.EACCES
	case "EXDEV":
		return -1, syscall.EXDEV
	case "short": // K bytes arrive, then the disk is full
		if op.Name == "write" {
			sc.FaultOp, sc.Fault = i+1, "ENOSPC"
			return sc.K, nil
		}
	}
	return -1, nil
}

func done(op syscall.VerifOp, fd int, err error) {
	switch op.Name {
	case "open":
		if p, ok := inScope(op); ok && err == nil {
			mu.Lock()
			fds[fd] = p
			mu.Unlock()
		}
	case "close":
		mu.Lock()
		delete(fds, op.Fd)
		mu.Unlock()
	}
}

func call() (r Result) {
	defer func() {
		if p := recover(); p != nil {
			r.Panic = fmt.Sprint(p) + "\n" + string(debug.Stack())
		}
	}()
	p, err := tokenizer.CachedPath(sc.Model, sc.File)
	r.Path = p
	if err != nil {
		r.Err = err.Error()
		if r.Err == "" {
			r.Err = "error"
		}
	}
	return r
}

func main() {
	outF = os.Stdout
	if err := json.NewDecoder(os.Stdin).Decode(&sc); err != nil {
		panic(err)
	}
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	log.SetOutput(io.Discard)
	tr := &http.Transport{DisableCompression: false}
	dial := func(ctx context.Context, network, addr string) (net.Conn, error) {
		if sc.Server.Kind == "dead" {
			return nil, syscall.ENETUNREACH
		}
		return newConn(), nil
	}
	tr.DialContext, tr.DialTLSContext = dial, dial
	http.DefaultTransport = tr
	if t, ok := http.DefaultClient.Transport.(*http.Transport); ok && t != nil {
		t.DialContext, t.DialTLSContext = dial, dial
	}
	// the cache directory is taken from the environment

	syscall.VerifDone = done
	syscall.VerifGate = gate
	if sc.Calls <= 1 {
		out.Results = append(out.Results, call())
	} else {
		concurrent()
	}
	syscall.VerifGate = nil
	mu.Lock()
	b, _ := json.Marshal(out)
	mu.Unlock()
	outF.Write(b)
	os.Exit(0)
}

// concurrent lets the calls take turns at their file operations as the schedule says
// (beyond its end: the current one goes on).
func concurrent() {
	out.Results = make([]Result, sc.Calls)
	type fin struct{ n int }
	finished := make(chan fin)
	for i := 0; i < sc.Calls; i++ {
		turns = append(turns, &turn{wait: make(chan bool)})
	}
	running := 0
	for i := 0; i < sc.Calls; i++ {
		running++
		go func(i int) {
			mu.Lock()
			byGo[goid()] = i
			mu.Unlock()
			r := call()
			mu.Lock()
			out.Results[i] = r
			mu.Unlock()
			finished <- fin{i}
		}(i)
	}
	cur := 0
	for {
		for running > 0 {
			select {
			case n := <-parked:
				turns[n].at = true
				running--
			case f := <-finished:
				turns[f.n].done = true
				running--
			}
		}
		var can []int
		if turns[cur].at {
			can = append(can, cur) // choice 0: the current one goes on
		}
		for i, t := range turns {
			if t.at && i != cur {
				can = append(can, i)
			}
		}
		if len(can) == 0 {
			return
		}
		k := 0
		if n := len(out.Choices); n < len(sc.Schedule) {
			k = sc.Schedule[n]
		}
		if k >= len(can) {
			k = 0
		}
		out.Choices = append(out.Choices, [2]int{k, len(can)})
		cur = can[k]
		turns[cur].at = false
		running++
		turns[cur].wait <- true
	}
}
