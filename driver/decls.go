package main

import (
	"fmt"
	"go/format"
	"hash/fnv"
	"os"
	"strings"
	"sync"

	"github.com/yanun0323/goast"
)

// Replay of the declarations spec/Decl.tla derives.

var fillers = map[string][]string{
	"$n": {"a", "b", "ctx", "x1", "_", "é", "世界", "funcs", "typeX", "error", "any", "string2", "A", "maps", "pkg_1", "n'"[:1], "chans", "structs", "interfaces", "packages", "imports", "vars", "consts", "selfunc", "maptype", "nil", "len", "init", "main", "structural", "chanel", "interface_", "a1b2", "int8x", "uint", "Ørsted"},
	"$t": {"Foo", "pkg.Bar", "*Foo", "*pkg.Baz", "error", "any", "é.Ü", "**Foo", "T世", "Func", "typeY", "context.Context", "X9", "Interface", "StructX", "structs.Map", "chan2", "mapX", "*funcs.Func", "interfaceT", "typing.Type", "*maps.Maps", "stringer", "intX", "errors.Error", "vars.Var", "package1"},
	"$m": {"Foo", "pkg.Bar", "*Foo", "*pkg.Baz", "error", "T世", "structs.Map", "interfaceT", "mapX"},
	"$i": {"Foo", "pkg.Bar", "error", "T世", "fmt.Stringer", "Interface", "structs.Map", "funcs.Func", "mapX", "interfaceT"},
	"$b": {"int", "string", "bool", "byte", "rune", "uint8", "float64", "uintptr", "complex128", "int64", "uint", "float32", "complex64", "int16", "uint64", "int32", "uint16", "uint32", "int8"},
	"$f": {"F", "Foo", "String", "string", "int8", "é", "_", "funcX", "error", "New_1", "世", "init", "main", "typeOf", "Interface", "structOf", "mapX", "chanX", "importX", "varX", "package1", "any", "len"},
	"$T": {"X", "Foo", "T世", "string", "rune", "error", "_", "typed", "é1", "A_b", "Interface", "structT", "interfaceT", "funcT", "mapT", "chanT", "any", "int", "string2", "importT"},
	"$r": {"r", "_", "self", "é", "this1", "interface1", "maps", "funcs", "len", "string"},
	"$R": {"R", "Foo", "T世", "error", "rs_1", "Interface", "structR", "funcR", "mapR", "any", "string", "int8"},
	"$k": {"K", "V", "string", "E9", "structK", "any", "int"},
	"$e": {"x", "y1", "foo", "é", "funcE", "structE", "n9"},
}

func init() {
	// names may be those of basic types, and may be long
	long := []string{strings.Repeat("long", 20), "L" + strings.Repeat("é9_", 100)}
	for _, key := range []string{"$n", "$f", "$T", "$r", "$R", "$k"} {
		had := map[string]bool{}
		for _, x := range fillers[key] {
			had[x] = true
		}
		for i, x := range fillers["$b"] {
			if !had[x] {
				at := (i*7 + 3) % len(fillers[key])
				fillers[key] = append(fillers[key][:at:at], append([]string{x}, fillers[key][at:]...)...)
			}
		}
	}
	for key := range fillers {
		if key == "$b" {
			continue
		}
		fillers[key] = append(fillers[key], long...)
		if key == "$t" || key == "$i" || key == "$m" {
			fillers[key] = append(fillers[key], "pkg."+long[1], long[0]+"."+long[0])
		}
	}
}

var roleKinds = map[string]string{"FN": "FuncName", "TN": "TypeName", "PN": "ParamName", "PT": "ParamType", "RN": "MethodReceiverName", "RT": "MethodReceiverType"}

var roles = map[string]bool{"FuncName": true, "TypeName": true, "ParamName": true, "ParamType": true, "MethodReceiverName": true,
	"MethodReceiverType": true, "TypeAliasType": true, "Method": true}

type word struct{ text, role string }

// fill replaces the placeholders; the rotation depends on the declaration.
func fill(toks []any, turn int) []word {
	next := map[string]int{}
	from := func(key string) int { // unrelated for the kinds of names
		return int((uint32(turn)*2654435761 + uint32(key[1])*40503) >> 12)
	}
	out := make([]word, 0, len(toks))
	for _, t := range toks {
		text, role := arr(t)[0].(string), arr(t)[1].(string)
		for at := 0; role != "cm"; {
			i := strings.IndexByte(text[at:], '$')
			if i < 0 {
				break
			}
			i += at
			key := text[i : i+2]
			p := fillers[key]
			// a different step for every declaration keeps the choice injective
			s := p[(next[key]+from(key))%len(p)]
			if len(s) > 40 && strings.IndexByte(text, '{') >= 0 {
				// gofmt breaks long braces over lines
				s = p[(next[key]+from(key))%len(p)/2]
			}
			text = text[:i] + s + text[i+2:]
			next[key]++
			at = i + len(s)
		}
		out = append(out, word{text, role})
	}
	return out
}

// place finds the offsets of the words in a formatted text.
func place(text string, at int, ws []word) []int {
	offs := make([]int, len(ws))
	for i, w := range ws {
		if w.role == "sp" || w.role == "cm" || w.role == "re" {
			offs[i] = -1
			continue
		}
		for {
			switch {
			case at >= len(text):
				return nil
			case strings.HasPrefix(text[at:], w.text):
			case text[at] == ' ' || text[at] == '\n' || text[at] == '\t' || text[at] == ',' || text[at] == ';':
				at++
				continue
			case strings.HasPrefix(text[at:], "/*"):
				at += strings.Index(text[at:], "*/") + 2
				continue
			case strings.HasPrefix(text[at:], "//"):
				at += strings.IndexByte(text[at:], '\n')
				continue
			default:
				return nil
			}
			break
		}
		offs[i] = at
		at += len(w.text)
	}
	return offs
}

// survey lists every mismatch in a file instead of stopping at the first; the
// checks do not use it.
var survey = func() *os.File {
	name := os.Getenv("DRIVER_SURVEY")
	if name == "" {
		return nil
	}
	f, err := os.OpenFile(name, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		fail("%v", err)
	}
	return f
}()

type declResult struct {
	bad  string
	desc map[string]any
	text string
}

// spaced writes the words with blanks and tabs where Go allows them, and
// semicolons for the ends of some rows.
func spaced(ws []word, turn int) string {
	var b strings.Builder
	rnd := uint32(turn)
	for i, w := range ws {
		if i > 0 && w.text != "\n" {
			rnd = rnd*1103515245 + 12345
			b.WriteString([]string{"", " ", "  ", "\t", " \t"}[(rnd>>16)%5])
		}
		if w.role == "re" {
			rnd = rnd*1103515245 + 12345
			b.WriteString([]string{"\n", ";", "; ", ";\n", "\n"}[(rnd>>16)%5])
			continue
		}
		b.WriteString(w.text)
	}
	return b.String()
}

func checkDecl(prop, root string, toks []any, turn int, loose bool) (r declResult) {
	ws := fill(toks, turn)
	var raw strings.Builder
	for _, w := range ws {
		raw.WriteString(w.text)
	}
	head := []string{"package p\n\n", "package p\n\n// doc of it\n", "package p\n\nimport \"fmt\"\n\n/* block */\n\n", "package p\n\nvar before = func(a, b T) {}\n\n"}[turn%4]
	tail := []string{"", "\n// tail\n", "\nvar tail = 1\n", "\nfunc (t *Tail) Tail(x Y) {}\n", "\ntype Tail struct {\n\tx Y\n}\n"}[turn%5]
	src, err := format.Source([]byte(head + raw.String() + tail))
	if err != nil {
		fail("the specification derived something that is not Go: %.300v\n%.2000s", err, raw.String())
	}
	text := string(src)
	if loose {
		text = head + spaced(ws, turn) + tail
		if _, err := format.Source([]byte(text)); err != nil {
			return // the blanks took a comment to where none may be
		}
	}
	r.text = raw.String()
	kw := "type"
	if root == "func" || root == "method" {
		kw = "func"
	}
	start := len(head) // of the declaration
	if !loose {
		start = strings.Index(text, "\n"+kw+" ") + 1
	}
	offs := place(text, start, ws)
	if offs == nil {
		fail("cannot find the words of a declaration in %q, words %q", text, ws)
	}
	p := parse(0, text)
	r.desc = map[string]any{"text": text}
	if p.trouble != "" || p.err != "" {
		r.bad = p.trouble + p.err
		return
	}
	r.desc = caseOf(0, text, p)
	switch prop {
	case "C01":
		if p.concat() != text {
			r.bad = "the nodes do not spell the text"
		}
		return
	case "C03":
		line := 0
		for _, n := range p.nodes {
			if n.line != line {
				r.bad = fmt.Sprintf("%.80q: expected line %d, got %d", n.text, line, n.line)
				return
			}
			line += strings.Count(n.text, "\n")
		}
		return
	case "C08":
		if !p.linked {
			r.bad = "the nodes of a scope are not one well linked chain"
		}
		return
	case "C17":
		r.bad = safely(limitFor(text), func() { exercise(p.raw) })
		return
	}
	// the scope of the declaration
	var sc goast.Scope
	at := 0
	ends := make([]int, len(p.nodes))
	for i, n := range p.nodes {
		at += len(n.text)
		ends[i] = at
	}
	if at != len(text) {
		r.bad = "the nodes do not spell the text"
		return
	}
	for i, s := range p.scopes {
		begin := 0
		if s.first > 0 {
			begin = ends[s.first-1]
		}
		if begin == start {
			sc = p.raw[i]
		}
	}
	if sc == nil {
		r.bad = "no scope begins with the declaration"
		return
	}
	first := func(role string) string {
		for _, w := range ws {
			if w.role == role {
				return w.text
			}
		}
		return ""
	}
	if prop == "C05" {
		type q struct {
			what string
			name string
			ok   bool
		}
		isFunc, isMethod := kw == "func", root == "method"
		want := []q{
			{"type name", first("TN"), !isFunc},
			{"struct name", first("TN"), root == "struct"},
			{"interface name", first("TN"), root == "interface"},
			{"func name", first("FN"), isFunc},
			{"method name", first("FN"), isMethod},
			{"method receiver", first("RT"), isMethod},
		}
		var got [6]q
		if t := safely(limitFor(text), func() {
			ask := func(i int, f func() (string, bool)) { got[i].name, got[i].ok = f() }
			ask(0, sc.GetTypeName)
			ask(1, sc.GetStructName)
			ask(2, sc.GetInterfaceName)
			ask(3, sc.GetFuncName)
			ask(4, sc.GetMethodName)
			ask(5, sc.GetMethodReceiver)
		}); t != "" {
			r.bad = t
			return
		}
		for i, w := range want {
			if got[i].ok != w.ok || (w.ok && got[i].name != w.name) {
				r.bad = fmt.Sprintf("%s: expected %q %v, got %q %v", w.what, w.name, w.ok, got[i].name, got[i].ok)
				return
			}
		}
		// asked again, of a copy, and after the declared name was changed, which the copy does not see
		queries := func(s goast.Scope) []func() (string, bool) {
			return []func() (string, bool){s.GetTypeName, s.GetStructName, s.GetInterfaceName, s.GetFuncName, s.GetMethodName, s.GetMethodReceiver}
		}
		if t := safely(limitFor(text), func() {
			cp := sc.Copy()
			for _, s := range []goast.Scope{sc, cp} {
				for i, f := range queries(s) {
					if name, ok := f(); name != got[i].name || ok != got[i].ok {
						r.bad = fmt.Sprintf("%s, asked again or of a copy: expected %q %v, got %q %v", want[i].what, got[i].name, got[i].ok, name, ok)
						return
					}
				}
			}
			renamed := map[string]string{"FuncName": "Renamed", "TypeName": "Retyped", "MethodReceiverType": "Received"}
			done := map[string]bool{}
			for n := sc.Node(); n != nil; n = n.Next() {
				if k := n.Kind().String(); renamed[k] != "" && !done[k] {
					done[k] = true
					n.SetText(renamed[k])
				}
			}
			after := [6]string{"Retyped", "Retyped", "Retyped", "Renamed", "Renamed", "Received"}
			for i, f := range queries(sc) {
				if name, ok := f(); ok != want[i].ok || (ok && name != after[i]) {
					r.bad = fmt.Sprintf("%s, after the name was changed: expected %q %v, got %q %v", want[i].what, after[i], want[i].ok, name, ok)
					return
				}
			}
			for i, f := range queries(cp) {
				if name, ok := f(); ok != want[i].ok || (ok && name != want[i].name) {
					r.bad = fmt.Sprintf("%s of a copy, after the name of the original was changed: expected %q %v, got %q %v", want[i].what, want[i].name, want[i].ok, name, ok)
					return
				}
			}
		}); t != "" {
			r.bad = t
		}
		return
	}
	node := 0
	for i, w := range ws {
		if offs[i] < 0 || w.role == "dc" {
			continue
		}
		for ends[node] <= offs[i] {
			node++
		}
		begin := 0
		if node > 0 {
			begin = ends[node-1]
		}
		k := p.nodes[node].kind
		whole := begin == offs[i] && ends[node] == offs[i]+len(w.text)
		covers := begin <= offs[i] && ends[node] >= offs[i]+len(w.text)
		ok := false
		switch w.role {
		case "FN", "TN", "PN", "RN", "RT":
			ok = whole && k == roleKinds[w.role]
		case "PT":
			ok = covers && k == "ParamType" && strings.TrimSpace(p.nodes[node].text) == p.nodes[node].text
		case "bt":
			ok = covers && (k == "ParamType" || k == "BasicType")
		case "k":
			// the type of a declaration may be one node
			ok = !roles[k] || (root == "typedecl" && k == "ParamType" && !whole && covers) ||
				k == "ParamType" && strings.HasPrefix(p.nodes[node].text, "...") // ...map, ...func, ...chan
		case "el":
			ok = k != "FuncName" && k != "ParamName" && k != "Method"
		default:
			fail("role %q", w.role)
		}
		if !ok {
			want := roleKinds[w.role]
			if want == "" {
				want = map[string]string{"bt": "BasicType or ParamType", "k": "no role", "el": "no name"}[w.role]
			}
			r.bad = fmt.Sprintf("%q at offset %d: expected %s, got node %q of kind %s", w.text, offs[i], want, p.nodes[node].text, k)
			return
		}
	}
	return
}

func replayDecls(in, prop string, turns int, seed int64) {
	type job struct {
		root string
		toks []any
		n    int
	}
	ch := make(chan job, 256)
	var wg sync.WaitGroup
	var mu sync.Mutex
	cases := 0
	samples := []string{}
	byRoot := map[string]int{}
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			pr := newProgress(fmt.Sprint("decl", k))
			for j := range ch {
				for t := 0; t <= turns; t++ { // the last one with loose spacing
					turn := j.n*7 + t*13
					pr.set(fmt.Sprint(j.root, " ", turn, " ", t == turns, " ", j.toks))
					r := checkDecl(prop, j.root, j.toks, turn, t == turns)
					if r.bad != "" && survey != nil {
						fmt.Fprintf(survey, "%s\t%q\t%s\n", j.root, r.text, r.bad)
					} else if r.bad != "" {
						mismatch(r.bad, r.desc)
					}
					mu.Lock()
					cases++
					byRoot[j.root]++
					if cases%4001 == 99 && len(samples) < 6 {
						samples = append(samples, r.text)
					}
					mu.Unlock()
				}
			}
		}(k)
	}
	seen := map[string]bool{}
	n := 0
	eachVector(in, func(v any) {
		if a := arr(v); len(a) == 7 { // of spec/Wide.tla
			toks := append([]any{}, arr(a[1])...)
			for i := 0; i < a[6].(int); i++ {
				toks = append(toks, arr(a[2])...)
			}
			toks = append(toks, arr(a[3])...)
			for i := 0; i < a[6].(int); i++ {
				toks = append(toks, arr(a[4])...)
			}
			n++
			ch <- job{a[0].(string), append(toks, arr(a[5])...), n*17 + int(seed)*31}
			return
		}
		if key := fmt.Sprint(v); !seen[key] {
			seen[key] = true
			n++
			h := fnv.New32a()
			_, _ = h.Write([]byte(key))
			ch <- job{arr(v)[0].(string), arr(arr(v)[1]), int(h.Sum32()%100003) + int(seed)*31}
		}
	})
	close(ch)
	wg.Wait()
	stats["cases"], stats["declarations"], stats["by_root"], stats["samples"] = cases, n, byRoot, samples
}
