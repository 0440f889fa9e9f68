package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
)

// Replay of the lines spec/GenNode.tla prints and recording of histories for
// spec/TraceNode.tla.

// world is a population of nodes with numbers 1..len; 0 is nil.
type world struct {
	nodes []*goast.Node
	ids   map[*goast.Node]int
	shift int // lines of the nodes are that much larger than told
}

func newWorld() *world {
	return &world{nodes: []*goast.Node{nil}, ids: map[*goast.Node]int{nil: 0}}
}

func (w *world) add(n *goast.Node) int {
	w.nodes = append(w.nodes, n)
	w.ids[n] = len(w.nodes) - 1
	return len(w.nodes) - 1
}

func (w *world) id(n *goast.Node) int {
	if id, ok := w.ids[n]; ok {
		return id
	}
	return -1
}

func (w *world) links() (nx, pv []int) {
	nx, pv = []int{}, []int{}
	for _, n := range w.nodes[1:] {
		nx = append(nx, w.id(n.Next()))
		pv = append(pv, w.id(n.Prev()))
	}
	return
}

// linked tells whether both directions agree, without rings and unknown nodes.
func linked(nx, pv []int) bool {
	for i := range nx {
		if nx[i] < 0 || pv[i] < 0 || (nx[i] != 0 && pv[nx[i]-1] != i+1) || (pv[i] != 0 && nx[pv[i]-1] != i+1) {
			return false
		}
	}
	for i := range nx {
		left := len(nx)
		for j := i + 1; j != 0; j = nx[j-1] {
			if left--; left < 0 {
				return false
			}
		}
	}
	return true
}

func invert(nx []int) []int {
	pv := make([]int, len(nx))
	for i, n := range nx {
		if n != 0 {
			pv[n-1] = i + 1
		}
	}
	return pv
}

var nodeTexts = []string{"", "alpha", "世", "\n", "x y", "func", "(", "\"s\"", "0", "//c", "\t", "b\x00\xff", " pad ", "end\t", "\r\n", "'", "\ufeffx", "/* c */ ", "a\nb\n", "  ", "\u00a0"}

// build makes n nodes that are linked like vec.
func build(vec []int) *world {
	w := newWorld()
	at := 1 // which texts they have
	for i, n := range vec {
		at += 5 * n * (i + 1)
	}
	for i := range vec {
		w.add(goast.NewNode(10*i+3, nodeTexts[(i+at)%len(nodeTexts)]))
	}
	pv := invert(vec)
	for i := range vec {
		if pv[i] != 0 {
			continue
		}
		// chains are built front to back or back to front
		if i%2 == 0 {
			for a := i + 1; vec[a-1] != 0; a = vec[a-1] {
				w.nodes[a].InsertNext(w.nodes[vec[a-1]])
			}
		} else {
			last := i + 1
			for vec[last-1] != 0 {
				last = vec[last-1]
			}
			for b := last; pv[b-1] != 0; b = pv[b-1] {
				w.nodes[b].InsertPrev(w.nodes[pv[b-1]])
			}
		}
	}
	return w
}

// apply calls an editing operation.
func (w *world) apply(op string, a, b int) []int {
	n, x := w.nodes[a], w.nodes[b]
	two := func(p, q *goast.Node) []int { return []int{w.id(p), w.id(q)} }
	switch op {
	case "InsertNext":
		return two(n.InsertNext(x))
	case "InsertPrev":
		return two(n.InsertPrev(x))
	case "ReplaceNext":
		return two(n.ReplaceNext(x))
	case "ReplacePrev":
		return two(n.ReplacePrev(x))
	case "TakeNext":
		return []int{w.id(n.TakeNext())}
	case "TakePrev":
		return []int{w.id(n.TakePrev())}
	case "RemoveNext":
		return []int{w.id(n.RemoveNext())}
	case "RemovePrev":
		return []int{w.id(n.RemovePrev())}
	case "Isolate":
		n.Isolate()
		return []int{}
	}
	fail("operation %q", op)
	return nil
}

type nodeLook struct {
	text, kind string
	line       int
}

func (w *world) looks() (out []nodeLook) {
	for _, n := range w.nodes[1:] {
		out = append(out, nodeLook{n.Text(), n.Kind().String(), n.Line()})
	}
	return
}

// askNil makes the calls on a nil node that are no edits.
func askNil(aloud bool) {
	var n *goast.Node
	_, _, _, _ = n.Line(), n.Kind(), n.Text(), n.Description()
	if aloud {
		n.Print()
	}
}

func sameLooks(a, b []nodeLook) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// replayer runs one vector at a time with the guards on.
type replayer struct {
	prop    string
	n       int
	samples []string
	every   int
}

func (r *replayer) run(desc func() map[string]any, f func() string) {
	var bad string
	if t := safely(limitFor(""), func() { bad = f() }); t != "" {
		bad = t
	}
	if bad != "" {
		mismatch(bad, desc())
	}
	if r.n++; r.every > 0 && r.n%r.every == 7 && len(r.samples) < 5 {
		r.samples = append(r.samples, fmt.Sprint(desc()))
	}
}

// compare the state of a world with the expected links.
func (r *replayer) compare(w *world, want []int) string {
	nx, pv := w.links()
	if !linked(nx, pv) {
		return fmt.Sprintf("links are broken: next %v, prev %v", nx, pv)
	}
	if r.prop == "C08" {
		return ""
	}
	// nodes of the vector that do not exist in this world have no links
	for i := range nx {
		if nx[i] != want[i] {
			return fmt.Sprintf("expected next links %v, got %v", want, nx)
		}
	}
	return ""
}

func arr(v any) []any { return v.([]any) }

func replayNodes(in, prop string) {
	r := &replayer{prop: prop, every: 5003}
	eachVector(in, func(v any) {
		l := arr(v)
		vec := ints(l[1])
		switch l[0].(string) {
		case "ops":
			for _, e := range arr(l[2]) {
				t := arr(e)
				op, a, b := t[0].(string), t[1].(int), t[2].(int)
				want, res := ints(t[3]), ints(t[4])
				r.run(func() map[string]any {
					return map[string]any{"next": vec, "op": op, "node": a, "arg": b, "expected next": want, "expected result": res}
				}, func() string {
					w := build(vec)
					if d := r.compare(w, vec); d != "" {
						return "building the chains: " + d
					}
					before := w.looks()
					got := w.apply(op, a, b)
					askNil(r.n%5003 == 0)
					if d := r.compare(w, want); d != "" {
						return d
					}
					if prop == "C08" {
						return ""
					}
					if !equalInts(got, res) {
						return fmt.Sprintf("expected result %v, got %v", res, got)
					}
					if !sameLooks(before, w.looks()) {
						return "text, kind or line of a node changed"
					}
					return ""
				})
			}
		case "walks":
			replayWalks(r, vec, l)
		case "joins":
			replayJoins(r, vec, l)
		case "copies":
			replayCopies(r, vec, l)
		default:
			fail("vector %v", l[0])
		}
	})
	stats["cases"], stats["samples"] = r.n, r.samples
}

func replayWalks(r *replayer, vec []int, l []any) {
	for i, e := range arr(l[2]) {
		first, last := arr(e)[0].(int), arr(e)[1].(int)
		r.run(func() map[string]any {
			return map[string]any{"next": vec, "node": i + 1, "expected first": first, "expected last": last}
		}, func() string {
			w := build(vec)
			n := w.nodes[i+1]
			if f, la := w.id(n.First()), w.id(n.Last()); f != first || la != last {
				return fmt.Sprintf("got first %d, last %d", f, la)
			}
			return r.compare(w, vec)
		})
	}
	for _, e := range arr(l[3]) {
		t := arr(e)
		dir, a, m, stop := t[0].(string), t[1].(int), t[2].(int), t[4].(int)
		ed := arr(t[3])
		x := arr(t[5])
		seen, res, want := ints(x[0]), x[1].(int), ints(x[2])
		r.run(func() map[string]any {
			return map[string]any{"next": vec, "walk": dir, "from": a, "edit at visit": m, "edit": fmt.Sprint(ed...), "stop at visit": stop,
				"expected visits": seen, "expected result": res, "expected next": want}
		}, func() string {
			w := build(vec)
			got := []int{}
			fn := func(n *goast.Node) bool {
				got = append(got, w.id(n))
				if len(got) > 10*len(vec) {
					return false
				}
				if len(got) == m {
					w.apply(ed[0].(string), ed[1].(int), ed[2].(int))
				}
				return len(got) != stop
			}
			var end *goast.Node
			if dir == "next" {
				end = w.nodes[a].IterNext(fn)
			} else {
				end = w.nodes[a].IterPrev(fn)
			}
			if !equalInts(got, seen) {
				return fmt.Sprintf("visited %v", got)
			}
			if w.id(end) != res {
				return fmt.Sprintf("returned %d", w.id(end))
			}
			return r.compare(w, want)
		})
	}
}

func replayJoins(r *replayer, vec []int, l []any) {
	kinds := []kind.Kind{kind.ParamType, kind.Raw, kind.Comment, kind.None, kind.String, kind.NewLine, kind.Space, kind.Basic, kind.Method, kind.Keyword, kind.Func}
	for i, e := range arr(l[2]) {
		t := arr(e)
		op, a, args, m := t[0].(string), t[1].(int), ints(t[2]), t[3].(int)
		parts, want := ints(t[4]), ints(t[5])
		k := kinds[i%len(kinds)]
		r.run(func() map[string]any {
			return map[string]any{"next": vec, "op": op, "node": a, "args": args, "kind": k.String(), "expected node": m, "expected parts of the text": parts, "expected next": want}
		}, func() string {
			w := build(vec)
			before := w.looks()
			var nns []*goast.Node
			for _, x := range args {
				nns = append(nns, w.nodes[x])
			}
			given := append([]*goast.Node{}, nns...)
			var got *goast.Node
			if op == "CombineNext" {
				got = w.nodes[a].CombineNext(k, nns...)
			} else {
				got = w.nodes[a].CombinePrev(k, nns...)
			}
			if w.id(got) != m {
				return fmt.Sprintf("returned %d", w.id(got))
			}
			for j := range nns {
				if nns[j] != given[j] {
					return "the given slice of nodes changed"
				}
			}
			after := before
			if m != 0 {
				var b strings.Builder
				for _, p := range parts {
					b.WriteString(before[p-1].text)
				}
				after = append([]nodeLook{}, before...)
				after[m-1].text, after[m-1].kind = b.String(), k.String()
			}
			if now := w.looks(); !sameLooks(after, now) {
				return fmt.Sprintf("expected the nodes to be %q, got %q", after, now)
			}
			return r.compare(w, want)
		})
	}
}

func replayCopies(r *replayer, vec []int, l []any) {
	n := len(vec)
	for _, e := range arr(l[2]) {
		t := arr(e)
		a, deep := t[0].(int), t[1].(bool)
		vec2, pop := ints(t[2]), map[int]bool{}
		for _, p := range ints(t[3]) {
			pop[p] = true
		}
		follow := append([]any{nil}, arr(t[4])...)
		for _, f := range follow {
			r.run(func() map[string]any {
				return map[string]any{"next": vec, "copied": a, "with its chain": deep, "expected next": vec2, "then": fmt.Sprint(f)}
			}, func() string {
				w := build(vec)
				var cp *goast.Node
				if deep {
					cp = w.nodes[a].Copy(true)
				} else if a%2 == 0 {
					cp = w.nodes[a].Copy()
				} else {
					cp = w.nodes[a].Copy(false)
				}
				for id := n + 1; id <= 2*n; id++ {
					w.nodes = append(w.nodes, nil)
				}
				put := func(id int, x *goast.Node) string {
					if x == nil {
						return fmt.Sprintf("node %d has no copy", id-n)
					}
					if _, known := w.ids[x]; known {
						return "the copy shares a node"
					}
					w.nodes[id] = x
					w.ids[x] = id
					return ""
				}
				if d := put(n+a, cp); d != "" {
					return d
				}
				if deep {
					x := cp
					for b := vec[a-1]; b != 0; b = vec[b-1] {
						x = x.Next()
						if d := put(n+b, x); d != "" {
							return d
						}
					}
					x, pv := cp, invert(vec)
					for b := pv[a-1]; b != 0; b = pv[b-1] {
						x = x.Prev()
						if d := put(n+b, x); d != "" {
							return d
						}
					}
				}
				check := func(want []int) string {
					for id := 1; id <= 2*n; id++ {
						if x := w.nodes[id]; x != nil {
							if got := w.id(x.Next()); got != want[id-1] {
								return fmt.Sprintf("next of %d: expected %d, got %d", id, want[id-1], got)
							}
							if got := w.id(x.Prev()); got != invert(want)[id-1] {
								return fmt.Sprintf("prev of %d: expected %d, got %d", id, invert(want)[id-1], got)
							}
						}
					}
					return ""
				}
				if d := check(vec2); d != "" {
					return d
				}
				for id := n + 1; id <= 2*n; id++ {
					if x, o := w.nodes[id], w.nodes[id-n]; x != nil && (x.Text() != o.Text() || x.Kind() != o.Kind() || x.Line() != o.Line()) {
						return fmt.Sprintf("copy of %d looks different", id-n)
					}
				}
				if f == nil {
					// texts and kinds of both sides are their own
					for id := 1; id <= 2*n; id++ {
						if x := w.nodes[id]; x != nil {
							x.SetText(fmt.Sprint("own", id))
							x.SetKind(kind.Kind{"", fmt.Sprint("own", id)})
						}
					}
					for id := 1; id <= 2*n; id++ {
						if x := w.nodes[id]; x != nil && (x.Text() != fmt.Sprint("own", id) || x.Kind().String() != fmt.Sprint("own", id)) {
							return "copy and original share text or kind"
						}
					}
					return check(vec2)
				}
				o := arr(f)
				got := w.apply(o[0].(string), o[1].(int), o[2].(int))
				if res := ints(o[4]); !equalInts(got, res) {
					return fmt.Sprintf("then: expected result %v, got %v", res, got)
				}
				if d := check(ints(o[3])); d != "" {
					return "then: " + d
				}
				return ""
			})
		}
	}
}

// ---------------------------------------------------------------- histories

type nodeStep struct {
	Op   string   `json:"op"`
	A    int      `json:"a"`
	B    int      `json:"b"`
	Args []int    `json:"args"`
	Kd   string   `json:"kd"`
	At   []int    `json:"at"`
	Ats  [][]int  `json:"ats"`
	Ln0  int      `json:"ln0"`
	R    []int    `json:"r"`
	Nx   []int    `json:"nx"`
	Pv   []int    `json:"pv"`
	Tx   [][]int  `json:"tx"`
	Ks   []string `json:"ks"`
	Ln   []int    `json:"ln"`
}

// edges stand around the atoms of a text.
var edges = [][2]string{{"", ""}, {" ", ""}, {"", " "}, {"\t", "\t "}, {"", "\r"}, {"\ufeff", "\u00a0"}, {"\xff", "\xc3"}, {"", "\x00"}, {"(", ")"}, {"é", "."}, {"-", "\\"}, {"\f", "\v"}, {"}", "{"}}

func renderAtom(a int) string {
	if a == 0 {
		return "\n"
	}
	e := edges[a%len(edges)]
	return fmt.Sprintf("%sa%d.%s", e[0], a, e[1])
}

func renderAtoms(at []int) string {
	var b strings.Builder
	for _, a := range at {
		b.WriteString(renderAtom(a))
	}
	return b.String()
}

// atomsOf reads a text as atoms; -1 stands for what is none.
func atomsOf(s string) []int {
	out := []int{}
	for len(s) > 0 {
		v := 0
		if s[0] != '\n' {
			i := strings.IndexByte(s, 'a')
			j := i + 1
			for ; i >= 0 && j < len(s) && s[j] >= '0' && s[j] <= '9'; j++ {
				v = v*10 + int(s[j]-'0')
			}
			if v == 0 || v > 1<<20 {
				return append(out, -1)
			}
		}
		x := renderAtom(v)
		if !strings.HasPrefix(s, x) {
			return append(out, -1)
		}
		out = append(out, v)
		s = s[len(x):]
	}
	return out
}

var histKinds = []kind.Kind{kind.Raw, kind.Comment, kind.ParamType, kind.Func, kind.None, kind.NewLine, kind.Basic}

// recordNodes makes random histories of calls and writes them as a trace.
// which property a call belongs to
func nodeProp(op string) string {
	switch op {
	case "CombineNext", "CombinePrev":
		return "C10"
	case "Copy", "CopyAll":
		return "C11"
	case "First", "Last", "IterNext", "IterPrev":
		return "C12"
	case "NewChain":
		return "C03"
	default:
		return "C09"
	}
}

func recordNodes(r *rand.Rand, prop string, count, length int, out, index string) {
	f, err := os.Create(out)
	if err != nil {
		fail("%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	fi, err := os.Create(index)
	if err != nil {
		fail("%v", err)
	}
	enc, encI := json.NewEncoder(w), json.NewEncoder(fi)
	steps := 0
	ops := map[string]int{}
	for c := 0; c < count; c++ {
		var hist []nodeStep
		op := ""
		if t := safely(limitFor(""), func() { oneHistory(r, length, &hist, &op) }); t != "" {
			if op == "" {
				op = "a call" // it hangs: nobody told which
			}
			if p := nodeProp(op); prop == "" || prop == "C08" || p == prop || op == "a call" {
				mismatch(t, map[string]any{"history": hist, "during the call after": op})
			}
		}
		for _, s := range hist {
			ops[s.Op]++
		}
		steps += len(hist)
		_ = enc.Encode(map[string]any{"id": c + 1, "steps": hist})
		lines := []string{}
		for _, s := range hist {
			lines = append(lines, fmt.Sprintf("%s %d %d %v %s %v%v -> %v next %v", s.Op, s.A, s.B, s.Args, s.Kd, s.At, s.Ats, s.R, s.Nx))
		}
		_ = encI.Encode(map[string]any{"id": c + 1, "steps": lines})
	}
	if w.Flush() != nil || f.Close() != nil || fi.Close() != nil {
		fail("write trace")
	}
	stats["cases"], stats["steps"], stats["ops"] = count, steps, ops
}

func oneHistory(r *rand.Rand, length int, hist *[]nodeStep, op *string) {
	w := newWorld()
	w.shift = startLine(r.Intn(8))
	atom := 0
	newText := func() []int {
		t := []int{}
		for k := r.Intn(3); k >= 0; k-- {
			if r.Intn(4) == 0 {
				t = append(t, 0)
			} else {
				atom++
				t = append(t, atom)
			}
		}
		if r.Intn(8) == 0 {
			t = []int{}
		}
		return t
	}
	pick := func() int { return r.Intn(len(w.nodes)) }
	some := func() int { // rarely nil
		if len(w.nodes) == 1 || r.Intn(12) == 0 {
			return 0
		}
		return 1 + r.Intn(len(w.nodes)-1)
	}
	before := func(a, x int) bool { // x strictly before a
		steps := 0
		for n := w.nodes[a].Prev(); n != nil && steps < 10000; n = n.Prev() {
			if n == w.nodes[x] {
				return true
			}
			steps++
		}
		return false
	}
	var s nodeStep
	defer func() { *op = s.Op }()
	for len(*hist) < length {
		s = nodeStep{Args: []int{}, At: []int{}, Ats: [][]int{}, R: []int{}, Kd: ""}
		room := 26 - len(w.nodes)
		switch p := r.Intn(100); {
		case len(w.nodes) < 5 || (p < 6 && room > 0):
			s.Op, s.At, s.Ln0, s.Kd = "New", newText(), r.Intn(100), "by text"
			if r.Intn(2) == 0 {
				k := histKinds[r.Intn(len(histKinds))]
				s.Kd = k.String()
				s.R = []int{w.add(goast.NewNode(s.Ln0+w.shift, renderAtoms(s.At), k))}
			} else {
				s.R = []int{w.add(goast.NewNode(s.Ln0+w.shift, renderAtoms(s.At)))}
			}
		case p < 12 && room > 4:
			s.Op, s.Ln0 = "NewChain", r.Intn(100)
			var texts []string
			for k := r.Intn(5); k > 0; k-- {
				t := newText()
				s.Ats = append(s.Ats, t)
				texts = append(texts, renderAtoms(t))
			}
			n := goast.NewNodes(s.Ln0+w.shift, texts...)
			for x := n; x != nil && len(w.nodes) < 60; x = x.Next() {
				w.add(x)
			}
			s.R = []int{w.id(n)}
		case p < 16 && room > 0:
			s.Op, s.A = "Copy", pick()
			n := w.nodes[s.A].Copy()
			if n != nil && w.id(n) == -1 {
				w.add(n)
			}
			s.R = []int{w.id(n)}
		case p < 20 && room > 6:
			s.Op, s.A = "CopyAll", pick()
			n := w.nodes[s.A].Copy(true)
			for x := n.First(); x != nil && len(w.nodes) < 90; x = x.Next() {
				if w.id(x) == -1 {
					w.add(x)
				}
			}
			s.R = []int{w.id(n)}
		case p < 25:
			s.Op, s.A, s.At = "SetText", pick(), newText()
			w.nodes[s.A].SetText(renderAtoms(s.At))
		case p < 29:
			k := histKinds[r.Intn(len(histKinds))]
			s.Op, s.A, s.Kd = "SetKind", pick(), k.String()
			w.nodes[s.A].SetKind(k)
		case p < 36:
			s.A = pick()
			switch r.Intn(4) {
			case 0:
				s.Op = "First"
				s.R = []int{w.id(w.nodes[s.A].First())}
			case 1:
				s.Op = "Last"
				s.R = []int{w.id(w.nodes[s.A].Last())}
			default:
				fn := func(n *goast.Node) bool { s.R = append(s.R, w.id(n)); return len(s.R) < 200 }
				var end *goast.Node
				if r.Intn(2) == 0 {
					s.Op = "IterNext"
					end = w.nodes[s.A].IterNext(fn)
				} else {
					s.Op = "IterPrev"
					end = w.nodes[s.A].IterPrev(fn)
				}
				s.R = append(s.R, w.id(end))
			}
		case p < 46:
			s.A = some()
			used := map[int]bool{}
			var nns []*goast.Node
			for k := r.Intn(4); k > 0; k-- {
				x := some()
				if x != 0 && used[x] {
					continue
				}
				used[x] = true
				s.Args = append(s.Args, x)
				nns = append(nns, w.nodes[x])
			}
			k := histKinds[r.Intn(len(histKinds))]
			s.Kd = k.String()
			var n *goast.Node
			if r.Intn(2) == 0 {
				s.Op = "CombineNext"
				n = w.nodes[s.A].CombineNext(k, nns...)
			} else {
				s.Op = "CombinePrev"
				n = w.nodes[s.A].CombinePrev(k, nns...)
			}
			s.R = []int{w.id(n)}
		case p < 85:
			s.Op = []string{"InsertNext", "InsertPrev", "ReplaceNext", "ReplacePrev"}[r.Intn(4)]
			s.A, s.B = some(), some()
			if s.A != 0 && s.B != 0 && s.A != s.B && ((s.Op == "ReplaceNext" && before(s.A, s.B)) || (s.Op == "ReplacePrev" && before(s.B, s.A))) {
				continue
			}
			s.R = w.apply(s.Op, s.A, s.B)
		default:
			s.Op = []string{"TakeNext", "TakePrev", "RemoveNext", "RemovePrev", "Isolate"}[r.Intn(5)]
			s.A = some()
			s.R = w.apply(s.Op, s.A, 0)
		}
		s.Nx, s.Pv = w.links()
		s.Tx, s.Ks, s.Ln = [][]int{}, []string{}, []int{}
		for _, l := range w.looks() {
			s.Tx, s.Ks, s.Ln = append(s.Tx, atomsOf(l.text)), append(s.Ks, l.kind), append(s.Ln, within(l.line-w.shift))
		}
		*hist = append(*hist, s)
	}
}
