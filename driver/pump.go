package main

import (
	"fmt"
	"strings"
	"sync"
)

// Replay of the texts spec/Pump.tla builds: head, unit over and over, tail.

func replayPump(in, prop string, limit int) {
	type job struct{ head, unit, tail, counts []int }
	ch := make(chan job, 64)
	var wg sync.WaitGroup
	var mu sync.Mutex
	cases, bytes := 0, 0
	samples := []string{}
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			pr := newProgress(fmt.Sprint("pump", k))
			for j := range ch {
				pl := plainRuns[len(j.unit)%len(plainRuns)]
				head, _ := render(j.head, pl)
				unit, _ := render(j.unit, pl)
				tail, _ := render(j.tail, pl)
				for _, n := range j.counts {
					text := head + strings.Repeat(unit, n) + tail
					note := map[string]any{"head": head, "unit": unit, "times": n, "tail": tail}
					pr.set(fmt.Sprint(note))
					p := parse(0, text)
					bad := p.trouble
					if bad == "" && p.err != "" {
						bad = "error: " + p.err
					}
					switch {
					case bad != "":
					case prop == "C17":
						bad = safely(limitFor(text), func() { exercise(p.raw) })
					case prop == "C01":
						if p.concat() != text {
							bad = "the nodes do not spell the text"
						}
					case prop == "C03":
						line := 0
						for _, nd := range p.nodes {
							if nd.line != line {
								bad = fmt.Sprintf("%.80q: expected line %d, got %d", nd.text, line, nd.line)
								break
							}
							line += strings.Count(nd.text, "\n")
						}
					case prop == "C08":
						if !p.linked {
							bad = "the nodes of a scope are not one well linked chain"
						}
					}
					if bad != "" {
						mismatch(bad, note)
					}
					mu.Lock()
					cases++
					bytes += len(text)
					if cases%1009 == 7 {
						samples = append(samples, fmt.Sprintf("%q + %d x %q + %q", head, n, unit, tail))
					}
					mu.Unlock()
				}
			}
		}(k)
	}
	eachVector(in, func(v any) {
		a := arr(v)
		ch <- job{ints(a[0]), ints(a[1]), ints(a[2]), ints(a[3])}
	})
	close(ch)
	wg.Wait()
	stats["cases"], stats["bytes"], stats["samples"] = cases, bytes, samples
}
