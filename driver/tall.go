package main

import (
	"fmt"
	"strings"
	"sync"
)

// Replay of the files of many lines and scopes spec/Tall.tla builds.

func readTall(v any) (text string, scopes []docScope, brief string) {
	var b, br strings.Builder
	lines := func(v any, n int) {
		s := ""
		for _, l := range arr(v) {
			s += l.(string) + "\n"
		}
		b.WriteString(strings.Repeat(s, n))
		if s != "" {
			fmt.Fprintf(&br, "%q x %d ", s, n)
		}
	}
	runs := arr(arr(v)[1])
	for i, x := range arr(arr(v)[0]) {
		a, run := arr(x), arr(runs[i])
		var ask []string
		for _, s := range arr(run[4]) {
			ask = append(ask, s.(string))
		}
		br.Reset()
		for k := 0; k < a[4].(int); k++ {
			scopes = append(scopes, docScope{run[0].(string), run[1].(int) + k*run[2].(int), b.Len(), ask})
			br.Reset()
			lines(a[0], 1)
			lines(a[1], a[3].(int))
			lines(a[2], 1)
			lines(a[5], a[3].(int))
			lines(a[6], 1)
		}
		if a[4].(int) != run[3].(int) {
			fail("a specified file disagrees about the number of scopes")
		}
		brief += fmt.Sprintf("(%s) x %d; ", br.String(), a[4].(int))
	}
	return b.String(), scopes, brief
}

func replayTall(in, prop string) {
	ch := make(chan any, 8)
	var wg sync.WaitGroup
	var mu sync.Mutex
	cases, scopes, longest := 0, 0, 0
	samples := []string{}
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			pr := newProgress(fmt.Sprint("tall", k))
			for v := range ch {
				text, want, brief := readTall(v)
				raw := text
				text = formatDoc(text, want)
				pr.set(brief)
				base := startLine(len(want))
				if bad, _ := checkDoc(prop, base, text, want); bad != "" {
					if len(bad) > 400 {
						bad = bad[:200] + "..." + bad[len(bad)-100:]
					}
					mismatch(bad, map[string]any{"file": brief, "base": base})
				}
				mu.Lock()
				cases++
				scopes += len(want)
				longest = max(longest, strings.Count(raw, "\n"))
				if cases%301 == 40 && len(samples) < 4 {
					samples = append(samples, brief)
				}
				mu.Unlock()
			}
		}(k)
	}
	eachVector(in, func(v any) { ch <- v })
	close(ch)
	wg.Wait()
	stats["cases"], stats["scopes"], stats["lines_of_longest"], stats["samples"] = cases, scopes, longest, samples
}
