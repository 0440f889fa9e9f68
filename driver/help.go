package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/charset"
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

// Replay of the texts spec/Help.tla prints: text helpers and descriptions.

func bytesOf(v any) []byte {
	out := []byte{}
	for _, b := range ints(v) {
		out = append(out, byte(b))
	}
	return out
}

func replayHelp(in string) {
	cases := 0
	samples := []string{}
	var probes [][]byte
	kinds := []kind.Kind{kind.Raw, kind.Comment, kind.FuncName, kind.ParamType, kind.Basic, kind.NewLine, kind.Package, kind.String}
	scopes := []scope.Kind{scope.Unknown, scope.Package, scope.Comment, scope.InnerComment, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func}
	eachVector(in, func(v any) {
		t := arr(v)
		text := bytesOf(t[0])
		var tidy strings.Builder
		for _, s := range arr(t[1]) {
			switch s := s.(string); s {
			case "nl":
				tidy.WriteString("\\n")
			case "dot":
				tidy.WriteString("·")
			case "arrow":
				tidy.WriteString(" -> ")
			default:
				b := 0
				fmt.Sscan(s, &b)
				tidy.WriteByte(byte(b))
			}
		}
		report := func(what string, want, got any) {
			mismatch(fmt.Sprintf("%s: expected %q, got %q", what, fmt.Sprint(want), fmt.Sprint(got)), map[string]any{"text": fmt.Sprintf("%q", text)})
		}
		if trouble := safely(limitFor(""), func() {
			if got := helper.TidyText(string(text)); got != tidy.String() {
				report("tidied text", tidy.String(), got)
			}
			begins, ends := map[string]bool{}, map[string]bool{}
			for _, p := range arr(t[2]) {
				begins[string(bytesOf(p))] = true
			}
			for _, p := range arr(t[3]) {
				ends[string(bytesOf(p))] = true
			}
			if probes == nil {
				probes = probesOf([]byte{97, 195, 168, 169, 32, 9, 10, 13}, 2)
			}
			for _, p := range probes {
				if got := helper.HasPrefix(text, string(p)); got != begins[string(p)] {
					report(fmt.Sprintf("prefix %q", p), begins[string(p)], got)
				}
				if got := helper.HasSuffix(text, string(p)); got != ends[string(p)] {
					report(fmt.Sprintf("suffix %q", p), ends[string(p)], got)
				}
			}
			for _, c := range arr(t[4]) {
				k := arr(c)[0].(int)
				a, b := append([]byte{}, text[:k]...), append([]byte{}, text[k:]...)
				if got, want := helper.AppendUnrepeatable(a, b...), bytesOf(arr(c)[1]); string(got) != string(want) {
					report(fmt.Sprintf("joining at %d", k), want, got)
				}
			}
			// the same at length (Long in the specification)
			pad := longPads[cases%len(longPads)]
			if got, want := helper.TidyText(strings.Repeat(string(text), 700)), strings.Repeat(tidy.String(), 700); got != want {
				report("tidied text, 700 times", want, got)
			}
			for i, p := range probes {
				if i%9 != cases%9 && len(p) != len(text) {
					continue
				}
				if got := helper.HasPrefix([]byte(pad+string(text)), pad+string(p)); got != begins[string(p)] {
					report(fmt.Sprintf("prefix %q behind %d bytes", p, len(pad)), begins[string(p)], got)
				}
				if got := helper.HasSuffix([]byte(string(text)+pad), string(p)+pad); got != ends[string(p)] {
					report(fmt.Sprintf("suffix %q before %d bytes", p, len(pad)), ends[string(p)], got)
				}
				if len(p) != len(text) {
					continue
				}
				if got := helper.HasPrefix([]byte(string(text)+pad), string(p)+pad); got != begins[string(p)] {
					report(fmt.Sprintf("prefix %q before %d bytes", p, len(pad)), begins[string(p)], got)
				}
				if got := helper.HasSuffix([]byte(pad+string(text)), pad+string(p)); got != ends[string(p)] {
					report(fmt.Sprintf("suffix %q behind %d bytes", p, len(pad)), ends[string(p)], got)
				}
			}
			for _, c := range arr(t[4]) {
				k := arr(c)[0].(int)
				if k == 0 || k == len(text) {
					continue
				}
				a, b := []byte(pad+string(text[:k])), []byte(string(text[k:])+pad)
				if got, want := helper.AppendUnrepeatable(a, b...), pad+string(bytesOf(arr(c)[1]))+pad; string(got) != want {
					report(fmt.Sprintf("joining at %d with %d bytes around", k, len(pad)), want, got)
				}
			}
			// sets of bytes
			set, both := charset.New(text...), charset.NewSlice(text[:len(text)/2], text[len(text)/2:])
			for b := 0; b < 256; b++ {
				want := strings.IndexByte(string(text), byte(b)) >= 0
				if set.Contain(byte(b)) != want || both.Contain(byte(b)) != want || charset.Set[byte](nil).Contain(byte(b)) {
					report(fmt.Sprintf("byte %d in the set", b), want, fmt.Sprint(set.Contain(byte(b)), both.Contain(byte(b))))
				}
			}
			// descriptions
			line := startLine(cases)
			k, k2 := kinds[cases%len(kinds)], kinds[(cases/3)%len(kinds)]
			n := goast.NewNode(line, string(text), k)
			n2 := goast.NewNode(line+2, "x", k2)
			n.InsertNext(n2)
			dn := fmt.Sprintf("%d .... %s .... *Node.%s", line+1, tidy.String(), k.String())
			dn2 := fmt.Sprintf("%d .... x .... *Node.%s", line+3, k2.String())
			if got := n.Description(); got != dn {
				report("description of a node", dn, got)
			}
			if got := (*goast.Node)(nil).Description(); got != "<nil>" {
				report("description of no node", "<nil>", got)
			}
			sk := scopes[cases%len(scopes)]
			s := goast.NewScope(line, sk, n)
			ds := fmt.Sprintf("%d .... *Scope.%s", line+1, sk.String())
			if got := s.Description(); got != ds {
				report("description of a scope", ds, got)
			}
			p := goast.NewScope(9, scope.Package, goast.NewNodes(9, "package", " ", "p"))
			dp := "10 .... *Scope.Package" + "10 .... package .... *Node.Package" + "10 .... · .... *Node.Space" + "10 .... p .... *Node.Raw"
			a, err := goast.NewAst(p, s)
			if err != nil {
				report("document", "no error", err)
			}
			want := dp + ds + dn + dn2
			if got := a.Description(); got != want {
				report("description of a document", want, got)
			}
		}); trouble != "" {
			report("helpers", "an answer", trouble)
		}
		cases++
		if cases%1501 == 3 {
			samples = append(samples, fmt.Sprintf("%q: tidy %q", text, tidy.String()))
		}
	})
	stats["cases"], stats["samples"] = cases, samples
}

var longPads = []string{strings.Repeat("a", 65), strings.Repeat("\r\n", 150), strings.Repeat("é ", 700), strings.Repeat("a\t", 40_000)}

func probesOf(alphabet []byte, n int) [][]byte {
	out, last := [][]byte{{}}, [][]byte{{}}
	for ; n > 0; n-- {
		var next [][]byte
		for _, p := range last {
			for _, b := range alphabet {
				next = append(next, append(append([]byte{}, p...), b))
			}
		}
		out, last = append(out, next...), next
	}
	return out
}

// toJSON writes the values TLC printed as lines of JSON.
func toJSON(in, out string) {
	f, err := os.Create(out)
	if err != nil {
		fail("%v", err)
	}
	w := bufio.NewWriter(f)
	enc := json.NewEncoder(w)
	n := eachVector(in, func(v any) {
		if err := enc.Encode(v); err != nil {
			fail("%v", err)
		}
	})
	if w.Flush() != nil || f.Close() != nil {
		fail("write %s", out)
	}
	stats["cases"] = n
}
