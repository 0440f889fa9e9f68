package main

import (
	"fmt"
	"hash/fnv"
	"strings"
	"sync"
	"time"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
)

// Replay of the histories of very long chains spec/Rope.tla prints.

var ropeWords = []string{"x", "foo", " ", "y1", "/* c */", "(", "世界"}

// ropeText is the text with a label: every third one is a line break.
func ropeText(lab int) string {
	if lab%3 == 0 {
		return "\n"
	}
	return ropeWords[lab%len(ropeWords)]
}

// ropeOwner tells which property a wrong result or state after a call concerns.
func ropeOwner(op string) string {
	switch op {
	case "new":
		return "C08"
	case "CombineNext", "CombinePrev":
		return "C10"
	case "CopyAll", "CopyOne":
		return "C11"
	case "IterNext", "IterPrev", "Ends":
		return "C12"
	case "Line":
		return "C03"
	}
	return "C09"
}

type rope struct {
	nodes []*goast.Node // by number
	ids   map[*goast.Node]int
	lines []int // by label, -1 unknown
	shift int   // lines are that much larger than in the history
}

func (w *rope) id(n *goast.Node) int {
	if n == nil {
		return 0
	}
	if id, ok := w.ids[n]; ok {
		return id
	}
	return -1
}

func (w *rope) add(n *goast.Node) {
	w.ids[n] = len(w.nodes)
	w.nodes = append(w.nodes, n)
}

// call makes a call and gives its result.
func (w *rope) call(c []any) (res []int, trouble string) {
	op := c[0].(string)
	arg := func(i int) int { return c[i].(int) }
	node := func(i int) *goast.Node { return w.nodes[arg(i)] }
	two := func(a, b *goast.Node) []int { return []int{w.id(a), w.id(b)} }
	switch op {
	case "new":
		first := len(w.nodes)
		texts := make([]string, arg(2))
		start := arg(1) + w.shift
		line := start
		for i := range texts {
			texts[i] = ropeText(first + i)
			for len(w.lines) <= first+i {
				w.lines = append(w.lines, -1)
			}
			w.lines[first+i] = line
			line += strings.Count(texts[i], "\n")
		}
		n := goast.NewNodes(start, texts...)
		for range texts {
			if n == nil {
				return nil, "the new chain is too short"
			}
			w.add(n)
			n = n.Next()
		}
		return []int{first}, ""
	case "RemoveNext":
		return []int{w.id(node(1).RemoveNext())}, ""
	case "RemovePrev":
		return []int{w.id(node(1).RemovePrev())}, ""
	case "TakeNext":
		return []int{w.id(node(1).TakeNext())}, ""
	case "TakePrev":
		return []int{w.id(node(1).TakePrev())}, ""
	case "Isolate":
		node(1).Isolate()
		return nil, ""
	case "ReplaceNext":
		return two(node(1).ReplaceNext(node(2))), ""
	case "ReplacePrev":
		return two(node(1).ReplacePrev(node(2))), ""
	case "InsertNext":
		return two(node(1).InsertNext(node(2))), ""
	case "InsertPrev":
		return two(node(1).InsertPrev(node(2))), ""
	case "CombineNext", "CombinePrev":
		n := node(1)
		var parts []*goast.Node
		for p := n; len(parts) < arg(2); {
			if op == "CombineNext" {
				p = p.Next()
			} else {
				p = p.Prev()
			}
			if p == nil {
				return nil, "a chain is shorter than before"
			}
			parts = append(parts, p)
		}
		k := n.Kind()
		var r *goast.Node
		if op == "CombineNext" {
			r = n.CombineNext(kind.Method, parts...)
		} else {
			r = n.CombinePrev(kind.Method, parts...)
		}
		if n.Kind() != kind.Method {
			return nil, "a joined node has another kind than asked for"
		}
		n.SetKind(k)
		return []int{w.id(r)}, ""
	case "CopyAll", "CopyOne":
		n := node(1)
		r := n.Copy(op == "CopyAll")
		if op == "CopyOne" {
			if r.Next() != nil || r.Prev() != nil {
				return nil, "a node copied alone has neighbours"
			}
			w.add(r)
			return []int{w.id(r)}, ""
		}
		first, steps := r, 0
		for first.Prev() != nil {
			first = first.Prev()
			if steps++; steps > 1<<25 {
				return nil, "a copied chain does not end"
			}
		}
		for n := first; n != nil; n = n.Next() {
			if w.id(n) > 0 {
				return nil, "a copied chain contains a node that was there before"
			}
			w.add(n)
		}
		return []int{w.id(r)}, ""
	case "IterNext", "IterPrev":
		n, seen, wrong := node(1), 0, false
		at := n
		f := func(m *goast.Node) bool {
			wrong = wrong || m != at
			if op == "IterNext" {
				at = at.Next()
			} else {
				at = at.Prev()
			}
			seen++
			return seen != arg(2)
		}
		var r *goast.Node
		if op == "IterNext" {
			r = n.IterNext(f)
		} else {
			r = n.IterPrev(f)
		}
		if wrong {
			return nil, "a walk visits another node than the next one"
		}
		return []int{w.id(r), seen}, ""
	case "Ends":
		return two(node(1).First(), node(1).Last()), ""
	case "Line":
		return []int{node(1).Line() - w.shift}, ""
	}
	fail("rope call %q", op)
	return nil, ""
}

type ropeRun struct{ id, n, lab int }

func ropeRuns(v any) (out []ropeRun) {
	for _, e := range arr(v) {
		t := arr(e)
		out = append(out, ropeRun{t[0].(int), t[1].(int), t[2].(int)})
	}
	return
}

// check compares all chains with the expected ones; it answers the property a
// difference concerns, "" for that of the call made last.
func (w *rope) check(state []any) (prop, bad string) {
	joined := map[int]string{}
	for _, e := range arr(state[2]) {
		var b strings.Builder
		for _, l := range arr(arr(e)[1]) {
			for i := 0; i < arr(l)[1].(int); i++ {
				b.WriteString(ropeText(arr(l)[0].(int) + i))
			}
		}
		joined[arr(e)[0].(int)] = b.String()
	}
	node := func(id, lab int, prev, next *goast.Node) (string, string) {
		n := w.nodes[id]
		if n.Prev() != prev || n.Next() != next {
			p, q := w.id(n.Prev()), w.id(n.Next())
			if p > 0 && w.nodes[p].Next() != n || q > 0 && w.nodes[q].Prev() != n {
				return "C08", fmt.Sprintf("node %d is linked one way only", id)
			}
			return "", fmt.Sprintf("node %d: expected neighbours %d and %d, got %d and %d", id, w.id(prev), w.id(next), p, q)
		}
		want, ok := joined[id]
		if !ok {
			want = ropeText(lab)
		}
		if n.Text() != want {
			return "", fmt.Sprintf("node %d: expected a text of %d bytes, got %d bytes, or other ones", id, len(want), len(n.Text()))
		}
		if n.Line() != w.lines[lab] {
			return "C03", fmt.Sprintf("node %d: expected line %d, got %d", id, w.lines[lab], n.Line())
		}
		return "", ""
	}
	for _, c := range arr(state[0]) {
		var prev *goast.Node
		runs := ropeRuns(c)
		for i, r := range runs {
			for k := 0; k < r.n; k++ {
				var next *goast.Node
				if k+1 < r.n {
					next = w.nodes[r.id+k+1]
				} else if i+1 < len(runs) {
					next = w.nodes[runs[i+1].id]
				}
				if p, b := node(r.id+k, r.lab+k, prev, next); b != "" {
					return p, b
				}
				prev = w.nodes[r.id+k]
			}
		}
	}
	for _, r := range ropeRuns(state[1]) {
		for k := 0; k < r.n; k++ {
			if p, b := node(r.id+k, r.lab+k, nil, nil); b != "" {
				return p, b
			}
		}
	}
	return "", ""
}

func replayRope(in, prop string, workers, most int) {
	var mu sync.Mutex
	cases, calls, longest := 0, 0, 0
	ops := map[string]int{}
	var samples []any
	run := func(hist []any, pr *inProgress) {
		mu.Lock()
		cases++
		nth := cases
		mu.Unlock()
		w := &rope{shift: startLine(len(hist) + nth), nodes: []*goast.Node{nil}, ids: map[*goast.Node]int{}}
		var done []string
		for _, e := range hist {
			step := arr(e)
			c, want := arr(step[0]), ints(step[1])
			op := c[0].(string)
			done = append(done, fmt.Sprint(c))
			pr.set(strings.Join(done, " "))
			var owner, bad string
			t := safely(120*time.Second, func() {
				var got []int
				got, bad = w.call(c)
				if bad == "" && !equalInts(got, want) {
					bad = fmt.Sprintf("expected result %v, got %v", want, got)
				}
				if bad == "" {
					owner, bad = w.check(arr(step[2]))
				}
			})
			if t != "" {
				bad = t
			}
			if owner == "" {
				owner = ropeOwner(op)
			}
			if bad != "" {
				if owner == prop || prop == "C08" && op == "new" {
					mismatch(op+" in a long chain: "+bad, map[string]any{"calls": done})
				}
				return // another check has this
			}
			mu.Lock()
			calls++
			ops[op]++
			longest = max(longest, len(w.nodes))
			mu.Unlock()
		}
		mu.Lock()
		if cases%97 == 3 && len(samples) < 3 {
			samples = append(samples, strings.Join(done, " "))
		}
		mu.Unlock()
	}
	ch := make(chan []any, 8)
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			pr := newProgress(fmt.Sprint("rope", k))
			for h := range ch {
				run(h, pr)
			}
		}(k)
	}
	seen := map[uint64]bool{}
	eachVector(in, func(v any) {
		h := fnv.New64a()
		_, _ = h.Write([]byte(fmt.Sprint(v)))
		if !seen[h.Sum64()] && len(seen) < most {
			seen[h.Sum64()] = true
			ch <- arr(v)
		}
	})
	close(ch)
	wg.Wait()
	stats["cases"], stats["calls"], stats["by_call"], stats["most_nodes"], stats["samples"] = cases, calls, ops, longest, samples
}
