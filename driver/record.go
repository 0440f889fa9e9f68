package main

import (
	"bufio"
	"encoding/json"
	"os"
	"sync"
)

// textCase is one recorded parse in the form spec/TraceText.tla reads.
type textCase struct {
	ID    int     `json:"id"`
	T     []int   `json:"t"`
	Base  int     `json:"base"`
	O     []int   `json:"o"`
	Canon int     `json:"canon"`
	OC    []int   `json:"oc"`
	N     [][]any `json:"n"`
	S     [][]any `json:"s"`
	Lk    int     `json:"lk"`
	Err   int     `json:"err"`
	Fm    int     `json:"fm"`
	text  string
	note  string
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func makeTextCase(in *interner, id, base int, text string, formatted bool, p *parsed) *textCase {
	// the trace tells lines from a smaller start line
	small := (base%200 + 200) % 200
	shift := base - small
	c := &textCase{ID: id, Base: small, text: text, Fm: b2i(formatted),
		O: []int{}, OC: []int{}, N: [][]any{}, S: [][]any{},
		Lk: b2i(p.linked), Err: b2i(p.trouble != "" || p.err != ""), note: p.trouble + p.err}
	c.T = in.encode([]int{}, text)
	for _, n := range p.nodes {
		before := len(c.O)
		c.O = in.encode(c.O, n.text)
		c.N = append(c.N, []any{len(c.O) - before, within(n.line - shift), n.kind})
	}
	for _, s := range p.scopes {
		c.S = append(c.S, []any{s.first + 1, s.kind, within(s.line - shift)})
	}
	oc := in.encode([]int{}, p.concat())
	c.Canon = b2i(equalInts(oc, c.O))
	if c.Canon == 0 {
		c.OC = oc
	}
	return c
}

type srcText struct {
	base      int
	text      string
	origin    string
	formatted bool
}

// recordTexts parses every text and writes the trace and an index of the texts.
func recordTexts(prop string, texts []srcText, out, index string) (cases, symbols int) {
	f, err := os.Create(out)
	if err != nil {
		fail("%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	fi, err := os.Create(index)
	if err != nil {
		fail("%v", err)
	}
	wi := bufio.NewWriterSize(fi, 1<<20)
	ps := parseAll(prop, texts)
	in := newInterner()
	enc, encI := json.NewEncoder(w), json.NewEncoder(wi)
	for i, t := range texts {
		c := makeTextCase(in, i+1, t.base, t.text, t.formatted, ps[i])
		symbols += len(c.T)
		if err := enc.Encode(c); err != nil {
			fail("%v", err)
		}
		_ = encI.Encode(map[string]any{"id": i + 1, "origin": t.origin, "base": t.base, "text": t.text, "note": c.note})
	}
	if w.Flush() != nil || wi.Flush() != nil || f.Close() != nil || fi.Close() != nil {
		fail("write trace")
	}
	return len(texts), symbols
}

func parseAll(prop string, texts []srcText) []*parsed {
	ps := make([]*parsed, len(texts))
	var wg sync.WaitGroup
	ch := make(chan int, 64)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			pr := newProgress(string(rune('a' + k)))
			for i := range ch {
				pr.set(texts[i].text)
				p := parse(texts[i].base, texts[i].text)
				if prop == "C17" && p.trouble == "" {
					p.trouble = safely(limitFor(texts[i].text), func() { exercise(p.raw) })
				}
				p.raw = nil
				ps[i] = p
			}
			pr.set("")
		}(k)
	}
	for i := range texts {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return ps
}
