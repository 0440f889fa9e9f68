package main

import (
	"fmt"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/charset"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

var scopeKinds = map[string]scope.Kind{
	"Unknown": scope.Unknown, "Package": scope.Package, "Comment": scope.Comment, "InnerComment": scope.InnerComment,
	"Import": scope.Import, "Variable": scope.Variable, "Const": scope.Const, "Type": scope.Type, "Func": scope.Func,
}

// replayKinds replays the vectors of spec/Kind.tla: word, kind, kind of the closing bracket.
func replayKinds(in string) {
	n := 0
	samples := []string{}
	eachVector(in, func(v any) {
		a := v.([]any)
		if a[0].(string) == "#scopes" {
			pairs := a[1].([]any)
			if len(pairs) != len(scopeKinds) {
				fail("scope kinds")
			}
			for _, p := range pairs {
				name, want := p.([]any)[0].(string), p.([]any)[1].(string)
				k := scopeKinds[name]
				if k.String() != name {
					mismatch("scope kind has the wrong name", map[string]any{"scope": name, "got": k.String()})
				}
				if got := k.ToKind().String(); got != want {
					mismatch("scope kind turns into the wrong kind", map[string]any{"scope": name, "expected": want, "got": got})
				}
				n++
			}
			return
		}
		if a[0].(string) == "#sets" {
			n += checkSets(a[1:])
			return
		}
		w, want, cl := a[0].(string), a[1].(string), a[2].(string)
		var got, node, pgot, closing, back string
		var ok, ok2 bool
		if t := safely(limitFor(w), func() {
			k := kind.New(w)
			got, pgot = k.String(), k.PointerString()
			node = goast.NewNode(3, w).Kind().String()
			c, o := k.GetClose()
			ok, closing = o, c.String()
			b, o2 := c.GetClose()
			ok2, back = o2, b.String()
		}); t != "" {
			mismatch(t, map[string]any{"word": w})
		}
		if got != want || node != want || pgot != want {
			mismatch("word has the wrong kind", map[string]any{"word": w, "expected": want, "got": got, "got of a node": node, "got of a pointer": pgot})
		}
		if ok != (cl != "") || closing != cl || (ok && (!ok2 || back != want)) {
			mismatch("wrong closing bracket", map[string]any{"word": w, "expected": cl, "got": closing, "found": ok, "back": back})
		}
		if n++; n%3001 == 0 {
			samples = append(samples, fmt.Sprintf("%q is %s", w, want))
		}
	})
	stats["cases"], stats["samples"] = n, samples
}

// checkSets compares the published sets with those of the language.
func checkSets(want []any) int {
	words := []charset.Set[string]{charset.GolangKeywords, charset.GolangBasicType}
	bytes := []charset.Set[byte]{charset.NumberCharset, charset.GolangSymbol, charset.SeparatorCharset}
	n := 0
	for i, w := range want {
		in := map[string]bool{}
		for _, e := range arr(w) {
			in[e.(string)] = true
		}
		n += len(in)
		if i < 2 {
			for e := range in {
				if !words[i].Contain(e) {
					mismatch("a published set lacks a word", map[string]any{"set": i, "word": e})
				}
			}
			if len(words[i]) != len(in) {
				mismatch("a published set has other words", map[string]any{"set": i, "words": fmt.Sprint(words[i])})
			}
			continue
		}
		for b := 0; b < 256; b++ {
			if bytes[i-2].Contain(byte(b)) != in[string([]byte{byte(b)})] {
				mismatch("a published set is wrong about a byte", map[string]any{"set": i, "byte": b})
			}
		}
	}
	return n
}
