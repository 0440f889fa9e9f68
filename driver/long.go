package main

import (
	"fmt"
	"strings"
	"sync"
)

// Replay of very long texts of spec/Pump.tla: what it says about the tokens of
// a text with few copies of its unit is carried over to one with many.

func replayLong(in, prop string) {
	type job struct {
		head, unit, tail, counts []int
		facts                    []any
		period, copies, nls      int
	}
	ch := make(chan job, 64)
	var wg sync.WaitGroup
	var mu sync.Mutex
	cases, tokens, longest := 0, 0, 0
	samples := []string{}
	const before = 5 // copies in front of the further periods
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			pr := newProgress(fmt.Sprint("long", k))
			for j := range ch {
				pl := runsFor(j.unit)
				if len(pl[0]) > 100 {
					pl = plainRuns[0]
				}
				head, _ := render(j.head, pl)
				unit, _ := render(j.unit, pl)
				tail, _ := render(j.tail, pl)
				for _, count := range j.counts {
					more := (count - j.copies + j.period - 1) / j.period
					n := j.copies + more*j.period
					text := head + strings.Repeat(unit, n) + tail
					var few []int // the symbols of the text with few copies
					few = append(few, j.head...)
					for i := 0; i < j.copies; i++ {
						few = append(few, j.unit...)
					}
					_, off := render(append(few, j.tail...), pl)
					from := len(j.head) + before*len(j.unit)
					till := from + j.period*len(j.unit)
					type fact struct {
						at, ln int
						kind   string
					}
					var pre, rep, post []fact
					for _, f := range j.facts {
						a := arr(f)
						x := fact{off[a[0].(int)-1], a[1].(int), a[2].(string)}
						switch {
						case a[0].(int) <= from:
							pre = append(pre, x)
						case a[0].(int) <= till:
							rep = append(rep, x)
							post = append(post, x)
						default:
							post = append(post, x)
						}
					}
					want := pre
					for i := 0; i < more; i++ {
						for _, x := range rep {
							want = append(want, fact{x.at + i*j.period*len(unit), x.ln + i*j.period*j.nls, x.kind})
						}
					}
					for _, x := range post {
						want = append(want, fact{x.at + more*j.period*len(unit), x.ln + more*j.period*j.nls, x.kind})
					}
					note := map[string]any{"head": head, "unit": unit, "times": n, "tail": tail}
					pr.set(fmt.Sprint(note))
					base := startLine(n)
					p := parse(base, text)
					bad := p.trouble
					if bad == "" && p.err != "" {
						bad = "error: " + p.err
					}
					switch {
					case bad != "":
					case prop == "C17":
						bad = safely(limitFor(text), func() { exercise(p.raw) })
					case prop == "C01":
						if p.concat() != text {
							bad = "the nodes do not spell the text"
						}
					case prop == "C08":
						if !p.linked {
							bad = "the nodes of a scope are not one well linked chain"
						}
					default:
						for i, w := range want {
							end := len(text)
							if i+1 < len(want) {
								end = want[i+1].at
							}
							t := text[w.at:end]
							if i >= len(p.nodes) {
								bad = fmt.Sprintf("token %d %.80q: no node", i, t)
							} else if nd := p.nodes[i]; nd.text != t {
								bad = fmt.Sprintf("token %d: expected %.80q, got %.80q", i, t, nd.text)
							} else if prop == "C03" && nd.line != base+w.ln {
								bad = fmt.Sprintf("token %d %.80q: expected line %d, got %d", i, t, base+w.ln, nd.line)
							} else if prop == "C07" && !kindOK(w.kind, nd.kind) {
								bad = fmt.Sprintf("token %d %.80q: expected kind %s, got %s", i, t, w.kind, nd.kind)
							}
							if bad != "" {
								break
							}
						}
						if bad == "" && len(p.nodes) > len(want) {
							bad = fmt.Sprintf("%d nodes for %d tokens", len(p.nodes), len(want))
						}
					}
					if bad != "" {
						mismatch(bad, note)
					}
					mu.Lock()
					cases++
					tokens += len(want)
					longest = max(longest, len(want))
					if cases%23 == 7 {
						samples = append(samples, fmt.Sprintf("%q + %d x %q + %q: %d tokens", head, n, unit, tail, len(want)))
					}
					mu.Unlock()
				}
			}
		}(k)
	}
	eachVector(in, func(v any) {
		a := arr(v)
		s := arr(a[4])
		ch <- job{ints(a[0]), ints(a[1]), ints(a[2]), ints(a[3]), arr(s[0]), s[1].(int), s[2].(int), s[3].(int)}
	})
	close(ch)
	wg.Wait()
	stats["cases"], stats["tokens"], stats["longest"], stats["samples"] = cases, tokens, longest, samples
}
