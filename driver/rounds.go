package main

import (
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/yanun0323/goast"
)

// Replay of the rounds spec/Reentrant.tla prints: the calls of a round are
// made at the same time, a goroutine for each.  Build with -race.

// # is a word of the history, so that every history brings new words; a text
// may not have been seen before a round, or tables filled on the first call
// would be full when the calls are made at the same time.
var roundTexts = []string{
	"package p#\n\nfunc name_%d(a, b int, c# func(x T) error) (d# *T, err error) { return }\n",
	"package p\n\ntype name_%d struct {\n\ta#, b int `json:\"a#\"`\n\tc     func(x T) (y U#)\n\tin    struct {\n\t\tz []V\n\t}\n}\n",
	"package p\n\ntype name_%d interface {\n\tfmt#.Stringer\n\tDo(ctx# context.Context, x ...T) (err error)\n}\n",
	"// note#\npackage p\n\nimport \"fmt\"\n\nvar (\n\ta# = \"x\\\"\"\n\tb# = 'x'\n)\n\nfunc (r# *R[K]) name_%d(\n\tx map[string]T#, /* c */\n\ty chan<- U,\n) {\n\tfmt.Println(`raw#`)\n}\n",
	"package p\n\ntype name_%d = map[string#][]T\n\nconst (\n\tA# = iota\n\tB\n)\n\n/* block #\n * comment */\nfunc f#[T any](T, ...U#) {}\n",
	"package p\n\ntype (\n\tA# int\n\tB struct{}\n)\n\nfunc name_%d() func(int) (a# T) { return nil }\n",
	"package p\n\nfunc name_%d(w# io.Writer, n uint8) (k# int64, e complex128) {\n\tdefer close(c#)\n\tgo func() { <-c# }()\n\tfor i := range x# {\n\t\tif i%%2 == 0 && !ok# || i >= 0x#F {\n\t\t\tcontinue\n\t\t} else {\n\t\t\tbreak\n\t\t}\n\t}\n\tswitch v# := y.(type) {\n\tcase rune, byte:\n\t\tfallthrough\n\tdefault:\n\t\tgoto end\n\t}\n\tselect {}\nend:\n\tvar a float64 = 1.5e#\n\ta++\n\ta <<= 3\n\treturn k &^ #, e\n}\n",
}

func render2(t, v, word int) []byte {
	b, err := format.Source([]byte(fmt.Sprintf(strings.ReplaceAll(roundTexts[t-1], "#", fmt.Sprint(word)), v)))
	if err != nil {
		fail("text %d: %v", t, err)
	}
	return b
}

// what a text of a history was seen to be, and where first; judged at the end
type seenKey struct{ word, t, v int }
type sighting struct {
	got  string
	call map[string]any
}
type sightings struct {
	sync.Mutex
	m map[seenKey]map[string]map[string]sighting // text -> projection -> results
}

func (s *sightings) add(k seenKey, what, got string, call func() map[string]any) {
	s.Lock()
	defer s.Unlock()
	if s.m[k] == nil {
		s.m[k] = map[string]map[string]sighting{}
	}
	if s.m[k][what] == nil {
		s.m[k][what] = map[string]sighting{}
	}
	if _, ok := s.m[k][what][got]; !ok {
		s.m[k][what][got] = sighting{got, call()}
	}
}

// judge compares everything seen with what the call says when it is made alone.
func (s *sightings) judge() (texts int) {
	for k, whats := range s.m {
		texts++
		scs, err := goast.ParseScope(0, render2(k.t, k.v, k.word))
		if err != nil {
			mismatch("a text does not parse", map[string]any{"text": string(render2(k.t, k.v, k.word)), "err": err.Error()})
		}
		alone := map[string]string{"nodes": projectNodes(scs), "names": projectNames(scs), "describe": projectDescribe(scs)}
		for what, results := range whats {
			for _, r := range results {
				if r.got != alone[what] {
					mismatch(fmt.Sprintf("expected %q as when it is called alone, got %q", alone[what], r.got), r.call)
				}
			}
		}
	}
	return
}

func projectNodes(scs []goast.Scope) string {
	var b strings.Builder
	for _, s := range scs {
		fmt.Fprintf(&b, "%s %d\n", s.Kind(), s.Line())
		s.Node().IterNext(func(n *goast.Node) bool {
			fmt.Fprintf(&b, "%q %d %s\n", n.Text(), n.Line(), n.Kind())
			return true
		})
	}
	return b.String()
}

func projectNames(scs []goast.Scope) string {
	var b strings.Builder
	for _, s := range scs {
		for _, f := range []func() (string, bool){s.GetTypeName, s.GetStructName, s.GetInterfaceName, s.GetFuncName, s.GetMethodName, s.GetMethodReceiver} {
			n, ok := f()
			fmt.Fprintf(&b, "%q %v ", n, ok)
		}
	}
	a, err := goast.NewAst(scs...)
	if err != nil {
		return b.String() + err.Error()
	}
	p, err := a.Package()
	return fmt.Sprint(b.String(), p, err)
}

func projectDescribe(scs []goast.Scope) string {
	a, err := goast.NewAst(scs...)
	if err != nil {
		return err.Error()
	}
	return a.Description()
}

func replayRounds(in, dir string) {
	seenTexts := &sightings{m: map[seenKey]map[string]map[string]sighting{}}
	rounds, calls := 0, 0
	ops := map[string]int{}
	samples := []string{}
	seen := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	type job struct {
		n    int
		hist []any
	}
	ch := make(chan job)
	if err := os.Chdir(dir); err != nil {
		fail("%v", err)
	}
	defer os.Chdir("/")
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				d := filepath.Join(dir, fmt.Sprint("r", j.n))
				if err := os.MkdirAll(d, 0o755); err != nil {
					fail("%v", err)
				}
				r, c := runRounds(j.hist, d, j.n, seenTexts, func(op string) { mu.Lock(); ops[op]++; mu.Unlock() })
				_ = os.RemoveAll(d)
				mu.Lock()
				rounds += r
				calls += c
				if j.n%60 == 7 && len(samples) < 3 {
					samples = append(samples, fmt.Sprint(arr(arr(j.hist)[len(j.hist)-1])[0]))
				}
				mu.Unlock()
			}
		}()
	}
	eachVector(in, func(v any) {
		if key := fmt.Sprint(v); !seen[key] {
			seen[key] = true
			ch <- job{len(seen), arr(v)}
		}
	})
	close(ch)
	wg.Wait()
	stats["texts"] = seenTexts.judge()
	stats["cases"], stats["rounds"], stats["calls_by_op"], stats["histories"], stats["samples"] = calls, rounds, ops, len(seen), samples
}

func runRounds(hist []any, dir string, word int, seen *sightings, count func(string)) (rounds, calls int) {
	objs := [][]goast.Scope{nil}
	// directories are made by the first to save there; names repeat
	names := []string{"", "f.go", "x/f.go", "x/y/f.go"}
	file := func(f int) string { return filepath.Join(dir, names[f]) }
	given := file // as the calls are told
	if word%2 == 1 {
		given = func(f int) string { return filepath.Base(dir) + "/" + names[f] }
	}
	for i, h := range hist {
		round, res, want, files := arr(arr(h)[0]), arr(arr(h)[1]), arr(arr(h)[2]), arr(arr(h)[3])
		rounds++
		base := len(objs)
		for len(objs) <= len(want) {
			objs = append(objs, nil)
		}
		describe := func(k int) map[string]any {
			past := []string{}
			for _, g := range hist[:i] {
				past = append(past, fmt.Sprint(arr(g)[0]))
			}
			return map[string]any{"earlier rounds": past, "calls made at the same time": fmt.Sprint(round), "call": fmt.Sprint(round[k]), "text": fmt.Sprint(res[k])}
		}
		bad := make([]string, len(round))
		start := make(chan struct{})
		var ready, wg sync.WaitGroup
		next := base
		for k, c := range round {
			op, o, f := arr(c)[0].(string), arr(c)[1].(int), arr(c)[2].(int)
			count(op)
			calls++
			tv := ints(res[k])
			see := func(what, got string) string {
				seen.add(seenKey{word, tv[0], tv[1]}, what, got, func() map[string]any { return describe(k) })
				return ""
			}
			id, path := 0, ""
			if op == "save" || op == "load" {
				path = given(f)
			}
			if op == "parse" || op == "copy" || op == "load" {
				id = next
				next++
			}
			ready.Add(1)
			wg.Add(1)
			go func() {
				defer wg.Done()
				ready.Done()
				<-start
				defer func() {
					if e := recover(); e != nil {
						bad[k] = fmt.Sprint("panic: ", e)
					}
				}()
				bad[k] = roundCall(op, o, id, objs, path, render2(tv[0], tv[1], word), see)
			}()
		}
		ready.Wait()
		close(start)
		wg.Wait()
		for k, b := range bad {
			if b != "" {
				mismatch(b, describe(k))
			}
		}
		// everything as the specification says, after the round
		for id := range want {
			tv := ints(want[id])
			seen.add(seenKey{word, tv[0], tv[1]}, "nodes", projectNodes(objs[id+1]), func() map[string]any {
				d := describe(0)
				d["call"] = fmt.Sprintf("object %d after the round", id+1)
				return d
			})
		}
		for f := range files {
			tv := ints(files[f])
			if tv[0] == 0 {
				continue
			}
			got, err := os.ReadFile(file(f + 1))
			if raw := render2(tv[0], tv[1], word); err != nil || string(got) != string(raw) {
				mismatch(fmt.Sprintf("after the round, file %d: expected %q, got %q %v", f+1, raw, got, err), describe(0))
			}
		}
	}
	return
}

func roundCall(op string, o, id int, objs [][]goast.Scope, file string, raw []byte, see func(what, got string) string) string {
	switch op {
	case "parse": // many calls are given the same bytes
		scs, err := goast.ParseScope(0, raw)
		if err != nil {
			return err.Error()
		}
		objs[id] = scs
		return see("nodes", projectNodes(scs))
	case "load":
		a, err := goast.ParseAst(file)
		if err != nil {
			return err.Error()
		}
		if a.File() != file || a.Dir() != filepath.Dir(file) || a.Filename() != "f.go" || a.Ext() != ".go" {
			return fmt.Sprintf("file %s: got %s, %s, %s, %s", file, a.File(), a.Dir(), a.Filename(), a.Ext())
		}
		objs[id] = a.Scope()
		return see("nodes", projectNodes(a.Scope()))
	case "copy":
		a, err := goast.NewAst(objs[o]...)
		if err != nil {
			return err.Error()
		}
		objs[id] = a.Copy().Scope()
		return see("nodes", projectNodes(objs[id]))
	case "edit":
		for _, s := range objs[o] {
			for n := s.Node(); n != nil; n = n.Next() {
				if t := n.Text(); strings.HasPrefix(t, "name_") {
					n.SetText(fmt.Sprintf("name_%d", int(t[5]-'0')+1))
					return see("nodes", projectNodes(objs[o]))
				}
			}
		}
		return "the name is not one node"
	case "save":
		a, err := goast.NewAst(objs[o]...)
		if err == nil {
			err = a.Save(file)
		}
		if err != nil {
			return err.Error()
		}
		return ""
	case "read":
		return see("nodes", projectNodes(objs[o]))
	case "names":
		return see("names", projectNames(objs[o]))
	case "describe":
		return see("describe", projectDescribe(objs[o]))
	}
	fail("call %q", op)
	return ""
}
