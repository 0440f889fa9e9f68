package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/yanun0323/goast"
)

// Guards around the code under test: panics, hangs, runaway memory and
// crashes that cannot be recovered are turned into reports.

const (
	exitMismatch = 3 // the code under test did something the specification does not allow
	exitError    = 2 // the driver itself failed
)

// report is where the driver says what it found; the code under test may print
// to os.Stdout, which is another file then.
var report = os.Stdout

var (
	reportMu  sync.Mutex
	onTrouble func() string // describes the case in progress
)

// mismatch reports a behaviour of the code that the specification does not
// allow and ends the driver.
func mismatch(what string, detail any) {
	reportMu.Lock()
	b, err := json.Marshal(map[string]any{"what": what, "case": detail})
	if err != nil {
		b = []byte(fmt.Sprintf("%q", what))
	}
	report.WriteString("MISMATCH " + string(b) + "\n")
	os.Exit(exitMismatch)
}

func fail(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "driver: "+format+"\n", args...)
	os.Exit(exitError)
}

// inProgress records the case a worker is about to run, so that a crash of the
// whole process can be attributed and reproduced.
type inProgress struct{ f *os.File }

var progressDir = os.Getenv("DRIVER_PROGRESS")

func newProgress(worker string) *inProgress {
	if progressDir == "" {
		return &inProgress{}
	}
	f, err := os.Create(fmt.Sprintf("%s/%s", progressDir, worker))
	if err != nil {
		fail("progress: %v", err)
	}
	return &inProgress{f}
}

func (p *inProgress) set(s string) {
	if p.f == nil {
		return
	}
	_ = p.f.Truncate(0)
	_, _ = p.f.WriteAt([]byte(s), 0)
}

var (
	curMu   sync.Mutex
	current = map[int]string{}
)

func guardMemory(stack int) {
	debug.SetMaxStack(stack << 20)
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(250 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 10<<30 {
				curMu.Lock()
				mismatch("the code under test used up the memory", current)
			}
		}
	}()
}

// limitFiles makes writing more than n bytes to a file fail, as on a disk that
// is full: what fits is written, then there is an error.
func limitFiles(n int) {
	signal.Ignore(syscall.SIGXFSZ)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}); err != nil {
		fail("%v", err)
	}
}

// safely runs f. It reports a panic, and gives up after the limit.
func safely(limit time.Duration, f func()) (trouble string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				where := ""
				for _, l := range st {
					if strings.Contains(l, "goast.") || strings.Contains(l, "/goast/") {
						where = strings.TrimSpace(l)
						break
					}
				}
				done <- fmt.Sprintf("panic: %v at %s", e, where)
			}
		}()
		f()
		done <- ""
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case s := <-done:
		return s
	case <-t.C:
		return "does not return"
	}
}

type obsNode struct {
	text string
	line int
	kind string
}

type obsScope struct {
	first int // index of its first node
	kind  string
	line  int
}

// parsed is the projection of what ParseScope returned.
type parsed struct {
	nodes   []obsNode
	scopes  []obsScope
	linked  bool
	trouble string // panic, hang
	err     string // returned error
	raw     []goast.Scope
}

func (p *parsed) concat() string {
	var b strings.Builder
	for _, n := range p.nodes {
		b.WriteString(n.text)
	}
	return b.String()
}

func limitFor(text string) time.Duration {
	return 20*time.Second + time.Duration(len(text))*time.Millisecond
}

// within keeps what cannot be a line out of a trace: the checker counts in 32 bits.
func within(line int) int {
	if line < -1<<30 || line > 1<<30 {
		return -1 << 30
	}
	return line
}

// startLine is the line the n-th case starts with: any integer will do.
func startLine(n int) int {
	return []int{0, 41, 17, 1<<31 - 3, -7, 1<<40 + 1, -1, 1}[n&7]
}

func parse(base int, text string) *parsed {
	out := &parsed{linked: true}
	t := safely(limitFor(text), func() {
		scs, err := goast.ParseScope(base, []byte(text))
		if err != nil {
			out.err = err.Error()
		}
		project(out, scs, len(text)*4+64)
	})
	if t != "" {
		return &parsed{trouble: t, linked: true}
	}
	return out
}

// project flattens scopes into nodes; max bounds the walk (a cycle in the
// links would never end).
func project(out *parsed, scs []goast.Scope, max int) {
	out.raw = scs
	seen := map[*goast.Node]bool{}
	for _, s := range scs {
		out.scopes = append(out.scopes, obsScope{len(out.nodes), s.Kind().String(), s.Line()})
		n := s.Node()
		if n == nil || n.Prev() != nil {
			out.linked = false
		}
		var prev *goast.Node
		for ; n != nil; n = n.Next() {
			if seen[n] || len(out.nodes) > max {
				out.linked = false
				break
			}
			seen[n] = true
			if n.Prev() != prev {
				out.linked = false
			}
			out.nodes = append(out.nodes, obsNode{n.Text(), n.Line(), n.Kind().String()})
			prev = n
		}
	}
}
