package main

import (
	"fmt"
	"strings"
	"sync"
)

// Replay of the vectors GenLex emits: a text with the tokens, lines and
// lexical kinds the lexical machine cuts it into.

var plainRuns = [][]string{
	{"a", "b", "c"},
	{"Foo_9.x", "=", "é世"},
	{".", "\x00\xff", "0"},
	{"func1", "types", "importer"},
	{"_var", "xconst", "packages"},
	{"map_", "chan2", "structs"},
	{"é", "\xc3", "\xe4\xb8"},
	{"-", "&", ">"},
	{"interface_", "1e9", "世func"},
	// what other languages, and package unicode, take for blanks, quotes or nothing at all
	{"\ufeff", "\u00a0", "\u2028"},
	{"\f", "\v", "\u0085"},
	{"\x7f", "\U0010ffff", "e\u0301"},
	{"\u200b", "\u3000", "\ufffd"},
	{"“", "’", "；"},
	{"\x1b", "\x1a", "\b"},
}

// hugeRuns do not fit into any buffer of a usual size.
var hugeRuns = []string{strings.Repeat("a", 70000), strings.Repeat("0123456789", 6600), strings.Repeat("é", 33000)}

// runsFor chooses the plain runs of a text, and now and then huge ones.
func runsFor(syms []int) []string {
	h := uint32(2166136261)
	for _, s := range syms {
		h = (h ^ uint32(s)) * 16777619
	}
	h ^= h >> 15
	if h%1499 == 0 {
		return hugeRuns
	}
	return plainRuns[h%uint32(len(plainRuns))]
}

// render turns symbols into text.
func render(syms []int, plain []string) (string, []int) {
	var b strings.Builder
	off := make([]int, 0, len(syms)+1)
	for _, s := range syms {
		off = append(off, b.Len())
		switch {
		case s < 256:
			b.WriteByte(byte(s))
		case s < 256+len(keywordSyms):
			b.WriteString(keywordSyms[s-256])
		default:
			b.WriteString(plain[(s-firstPlain)%len(plain)])
		}
	}
	return b.String(), append(off, b.Len())
}

var structural = map[string]bool{}

func init() {
	for _, k := range []string{"Tab", "Space", "NewLine", "Comma", "Colon", "Semicolon", "ParenthesisLeft", "ParenthesisRight", "CurlyBracketLeft",
		"CurlyBracketRight", "SquareBracketLeft", "SquareBracketRight", "Separator", "Comment", "String", "Package", "Import", "Var", "Const",
		"Type", "Func", "Map", "Channel", "Struct", "Interface", ""} {
		structural[k] = true
	}
}

func kindOK(lex, got string) bool {
	switch lex {
	case "word":
		return !structural[got]
	case "rune":
		return got == "Raw"
	default:
		return lex == got
	}
}

func replayLex(in, prop string) {
	type job struct {
		syms []int
		toks []any
	}
	var wg sync.WaitGroup
	ch := make(chan job, 256)
	var mu sync.Mutex
	cases := 0
	samples := []string{}
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			pr := newProgress(fmt.Sprint("lex", k))
			n := 0
			for j := range ch {
				// injective renamings of the plain runs; a rotating choice per vector
				pl := runsFor(j.syms)
				text, off := render(j.syms, pl)
				base := startLine(n)
				pr.set(text)
				p := parse(base, text)
				if d := compareLex(prop, base, text, off, j.toks, p); d != "" {
					mismatch(d, caseOf(base, text, p))
				}
				n++
				if n == 700 {
					mu.Lock()
					samples = append(samples, fmt.Sprintf("%q -> %d tokens", text, len(j.toks)))
					mu.Unlock()
				}
			}
			mu.Lock()
			cases += n
			mu.Unlock()
		}(k)
	}
	eachVector(in, func(v any) {
		a := v.([]any)
		ch <- job{ints(a[0]), a[1].([]any)}
	})
	close(ch)
	wg.Wait()
	stats["cases"] = cases
	stats["samples"] = samples
}

// caseOf describes a parse for a replay file.
func caseOf(base int, text string, p *parsed) map[string]any {
	nodes := []string{}
	for i, n := range p.nodes {
		if i == 400 {
			break
		}
		nodes = append(nodes, fmt.Sprintf("%d %q %s", n.line, n.text, n.kind))
	}
	return map[string]any{"base": base, "text": text, "bytes": []byte(text), "nodes": nodes, "scopes": fmt.Sprint(p.scopes), "trouble": p.trouble, "err": p.err}
}

func compareLex(prop string, base int, text string, off []int, toks []any, p *parsed) string {
	if p.trouble != "" {
		return p.trouble
	}
	if p.err != "" {
		return "error: " + p.err
	}
	if prop == "C17" {
		return safely(limitFor(text), func() { exercise(p.raw) })
	}
	if !p.linked && prop == "C08" {
		return "the nodes of a scope are not one well linked chain"
	}
	if prop == "C01" {
		if s := p.concat(); s != text {
			return fmt.Sprintf("the nodes spell %q", s)
		}
		return ""
	}
	if prop == "C08" {
		return ""
	}
	want := func(i int) (string, int, string) {
		t := toks[i].([]any)
		end := len(text)
		if i+1 < len(toks) {
			end = off[toks[i+1].([]any)[0].(int)-1]
		}
		return text[off[t[0].(int)-1]:end], t[1].(int), t[2].(string)
	}
	for i := range toks {
		w, ln, k := want(i)
		if i >= len(p.nodes) {
			return fmt.Sprintf("token %d %q: no node", i, w)
		}
		n := p.nodes[i]
		if n.text != w {
			return fmt.Sprintf("token %d: expected %q, got %q", i, w, n.text)
		}
		if prop == "C03" && n.line != base+ln {
			return fmt.Sprintf("token %d %q: expected line %d, got %d", i, w, base+ln, n.line)
		}
		if prop == "C07" && !kindOK(k, n.kind) {
			return fmt.Sprintf("token %d %q: expected kind %s, got %s", i, w, k, n.kind)
		}
	}
	if len(p.nodes) > len(toks) {
		return fmt.Sprintf("%d nodes for %d tokens", len(p.nodes), len(toks))
	}
	if prop == "C03" {
		for _, s := range p.scopes {
			if s.line != p.nodes[s.first].line+1 {
				return fmt.Sprintf("scope of node %d: expected line %d, got %d", s.first, p.nodes[s.first].line+1, s.line)
			}
		}
	}
	return ""
}
