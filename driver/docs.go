package main

import (
	"fmt"
	"go/format"
	"path/filepath"
	"strings"
	"sync"
)

// Replay of the files spec/Doc.tla builds.

type docScope struct {
	kind  string
	line  int // from 1
	begin int // offset
	ask   []string
}

func readDoc(v any) (text string, scopes []docScope) {
	var b strings.Builder
	for _, p := range arr(arr(v)[0]) {
		kind, open, lines := arr(p)[0].(string), arr(p)[1].(bool), arr(arr(p)[2])
		if kind != "" {
			scopes = append(scopes, docScope{kind: kind, begin: b.Len()})
		}
		for i, l := range lines {
			b.WriteString(l.(string))
			if !open || i+1 < len(lines) {
				b.WriteByte('\n')
			}
		}
	}
	exp := arr(arr(v)[1])
	if len(exp) != len(scopes) {
		fail("a specified file has %d pieces and %d scopes", len(scopes), len(exp))
	}
	for i, e := range exp {
		scopes[i].line = arr(e)[1].(int)
		for _, a := range arr(arr(e)[2]) {
			scopes[i].ask = append(scopes[i].ask, a.(string))
		}
		if arr(e)[0].(string) != scopes[i].kind {
			fail("a specified file disagrees about a scope")
		}
	}
	return b.String(), scopes
}

func isSpace(b byte) bool { return b == ' ' || b == '\t' || b == '\n' }

// formatDoc formats a specified file.  That may move and add white space; the
// scopes move along.
func formatDoc(text string, scopes []docScope) string {
	b, err := format.Source([]byte(text))
	if err != nil {
		fail("the specification built a file that is not Go: %v\n%s", err, text)
	}
	f := string(b)
	if f == text {
		return f
	}
	k, j, line := 0, 0, 1
	for i := 0; i < len(text); i++ {
		if isSpace(text[i]) {
			continue
		}
		for j < len(f) && isSpace(f[j]) {
			line += b2i(f[j] == '\n')
			j++
		}
		if j == len(f) || f[j] != text[i] {
			fail("formatting changes more than white space\n%s\n--- formatted\n%s", text, f)
		}
		if k < len(scopes) && scopes[k].begin == i {
			scopes[k].begin, scopes[k].line = j, line
			k++
		}
		j++
	}
	if k != len(scopes) {
		fail("a scope begins with white space\n%s", text)
	}
	return f
}

var askNames = [6]string{"type name", "struct name", "interface name", "func name", "method name", "method receiver"}

func checkDoc(prop string, base int, text string, want []docScope) (bad string, p *parsed) {
	p = parse(base, text)
	if p.trouble != "" || p.err != "" {
		return p.trouble + p.err, p
	}
	switch prop {
	case "C01":
		if got := p.concat(); got != text {
			return fmt.Sprintf("the nodes spell %q", got), p
		}
	case "C08":
		if !p.linked {
			return "the nodes of a scope are not one well linked chain", p
		}
	case "C03":
		line := base
		for _, n := range p.nodes {
			if n.line != line {
				return fmt.Sprintf("%q: expected line %d, got %d", n.text, line, n.line), p
			}
			line += strings.Count(n.text, "\n")
		}
		for i, s := range p.scopes {
			if i < len(want) && s.line != base+want[i].line {
				return fmt.Sprintf("scope %d: expected line %d, got %d", i+1, base+want[i].line, s.line), p
			}
		}
	case "C04":
		at := 0
		begins := map[int]int{}
		for i, n := range p.nodes {
			begins[i] = at
			at += len(n.text)
		}
		for i, w := range want {
			if i >= len(p.scopes) {
				return fmt.Sprintf("expected %d scopes, got %d", len(want), len(p.scopes)), p
			}
			s := p.scopes[i]
			if s.kind != w.kind {
				return fmt.Sprintf("scope %d: expected kind %s, got %s", i+1, w.kind, s.kind), p
			}
			if begins[s.first] != w.begin {
				return fmt.Sprintf("scope %d of kind %s: expected to begin at offset %d, got %d", i+1, w.kind, w.begin, begins[s.first]), p
			}
		}
		if len(p.scopes) != len(want) {
			return fmt.Sprintf("expected %d scopes, got %d", len(want), len(p.scopes)), p
		}
	case "C05":
		for i, w := range want {
			if i >= len(p.scopes) || p.scopes[i].kind != w.kind || (w.kind == "Type" && w.ask[0] == "") { // groups declare no one name
				continue
			}
			s := p.raw[i]
			var name [6]string
			var ok [6]bool
			if t := safely(limitFor(text), func() {
				for j, f := range []func() (string, bool){s.GetTypeName, s.GetStructName, s.GetInterfaceName, s.GetFuncName, s.GetMethodName, s.GetMethodReceiver} {
					name[j], ok[j] = f()
				}
			}); t != "" {
				return t, p
			}
			for j := range askNames {
				if ok[j] != (w.ask[j] != "") || (ok[j] && name[j] != w.ask[j]) {
					return fmt.Sprintf("scope %d, %s: expected %q, got %q %v", i+1, askNames[j], w.ask[j], name[j], ok[j]), p
				}
			}
		}
	case "C17":
		if t := safely(limitFor(text), func() { exercise(p.raw) }); t != "" {
			return t, p
		}
	}
	return "", p
}

func replayDocs(in, prop, dir string) {
	type job struct {
		n int
		v any
	}
	ch := make(chan job, 64)
	var wg sync.WaitGroup
	var mu sync.Mutex
	cases, scopes := 0, 0
	samples := []string{}
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			pr := newProgress(fmt.Sprint("doc", k))
			for j := range ch {
				text, want := readDoc(j.v)
				text = formatDoc(text, want)
				pr.set(text)
				base := startLine(j.n)
				if dir != "" {
					if bad, note := checkStored(prop, j.n, filepath.Join(dir, fmt.Sprint("d", j.n)), text, want); bad != "" {
						mismatch(bad, note)
					}
				} else if bad, p := checkDoc(prop, base, text, want); bad != "" {
					mismatch(bad, caseOf(base, text, p))
				}
				mu.Lock()
				cases++
				scopes += len(want)
				if cases%2003 == 40 && len(samples) < 4 {
					samples = append(samples, text)
				}
				mu.Unlock()
			}
		}(k)
	}
	seen := map[string]bool{}
	eachVector(in, func(v any) {
		if key := fmt.Sprint(v); !seen[key] {
			seen[key] = true
			ch <- job{len(seen), v}
		}
	})
	close(ch)
	wg.Wait()
	stats["cases"], stats["scopes"], stats["samples"] = cases, scopes, samples
}
