package goast

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"testing"
)

// Replay of the histories spec/Trie.tla prints (as JSON lines in the file
// VERIF_VECTORS names) into the prefix tree.
func TestVerifTrie(t *testing.T) {
	f, err := os.Open(os.Getenv("VERIF_VECTORS"))
	if err != nil {
		t.Skip(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 16<<20)
	cases := 0
	turn, stretch := byte(0), 1 // how bytes are written
	write := func(b byte) string { return strings.Repeat(string([]byte{b + turn}), stretch) }
	text := func(v any) string {
		var b strings.Builder
		for _, x := range v.([]any) {
			b.WriteString(write(byte(x.(float64))))
		}
		return b.String()
	}
	for sc.Scan() {
		var v []any
		if err := json.Unmarshal(sc.Bytes(), &v); err != nil {
			t.Fatal(err)
		}
		stretch = 1
		if turn += 37; cases%5 == 4 {
			stretch = 150
		}
		var all []string
		level := []string{""}
		for n := 0; n <= int(v[3].(float64)); n++ {
			all = append(all, level...)
			var next []string
			for _, s := range level {
				for _, c := range v[2].([]any) {
					next = append(next, s+write(byte(c.(float64))))
				}
			}
			level = next
		}
		hist := v[0].([]any)
		want := map[string]int{}
		for _, m := range v[1].([]any) {
			want[text(m.([]any)[0])] = int(m.([]any)[1].(float64))
		}
		bad := func(format string, args ...any) {
			b, _ := json.Marshal(map[string]any{"what": fmt.Sprintf(format, args...), "case": map[string]any{"calls": hist, "map": fmt.Sprintf("%q", want)}})
			fmt.Printf("MISMATCH %s\n", b)
			t.FailNow()
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					bad("panic: %v", e)
				}
			}()
			var none *trie_[int]
			if v, ok := none.FindText("x"); ok || v != 0 || none.AddText("x", 1) != nil || none.Value() != 0 {
				bad("no tree holds something")
			}
			root := newTrie(map[string]int{})
			set := map[string]int{}
			onlyAdds := true
			for _, h := range hist {
				op, s, b, val := h.([]any)[0].(string), text(h.([]any)[1]), byte(h.([]any)[2].(float64)), int(h.([]any)[3].(float64))
				if op == "add" {
					set[s] = val
					if n := root.AddText(s, val); n == nil || n.Value() != val {
						bad("adding %q does not return its value", s)
					}
					continue
				}
				if stretch > 1 {
					root.AddText(s+write(b), val)
					continue
				}
				onlyAdds = false
				b += turn
				// walk to the known text, byte by byte
				n := root
				for i := 0; i < len(s); i++ {
					next, ok := n.Next(s[i])
					if !ok {
						bad("no way along the known text %q", s)
					}
					n = next
				}
				if m := n.Insert(b, val); m == nil || m.Value() != val {
					bad("inserting byte %d behind %q does not return its value", b, s)
				}
			}
			check := func(root trie[int], how string) {
				for _, s := range all {
					w, known := want[s]
					ask := func(what string, got int, ok bool) {
						if ok != known || got != w {
							bad("%s, %s of %q: expected %d %v, got %d %v", how, what, s, w, known, got, ok)
						}
					}
					rev := []byte(s)
					for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
						rev[i], rev[j] = rev[j], rev[i]
					}
					v, ok := root.FindText(s)
					ask("text", v, ok)
					v, ok = root.FindByte([]byte(s))
					ask("bytes", v, ok)
					v, ok = root.FindTextReversely(string(rev))
					ask("text backwards", v, ok)
					v, ok = root.FindByteReversely(rev)
					ask("bytes backwards", v, ok)
				}
			}
			check(root, "added one by one")
			if onlyAdds && stretch == 1 { // the order of adding does not matter
				check(newTrie(set), "made of a map")
			}
			cases++
		}()
	}
	fmt.Printf("STATS {\"cases\":%d}\n", cases)
}
