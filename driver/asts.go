package main

import (
	"errors"
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/scope"
)

// Replay of the histories spec/AstDoc.tla prints.

var astPaths = map[string][5]string{ // text, file, dir, name, ext
	"p1":  {"a.go", "a.go", "", "a.go", ".go"},
	"p2":  {"a", "a.go", "", "a", ""},
	"p3":  {"sub/b", "sub/b.go", "/sub", "b", ""},
	"p4":  {"sub/b.go", "sub/b.go", "/sub", "b.go", ".go"},
	"p5":  {"new/d/c.go", "new/d/c.go", "/new/d", "c.go", ".go"},
	"p6":  {"e.go.txt", "e.go.txt.go", "", "e.go.txt", ".txt"},
	"p7":  {"blk/x.go", "blk/x.go", "/blk", "x.go", ".go"},
	"p8":  {"dir", "dir.go", "", "dir", ""},
	"p9":  {"v1.2/f", "v1.2/f.go", "/v1.2", "f", ""},
	"p10": {"x.GO", "x.GO.go", "", "x.GO", ".GO"},
	"p11": {"w//g.go", "w/g.go", "/w", "g.go", ".go"},
	"p12": {"lib.go/h.go", "lib.go/h.go", "/lib.go", "h.go", ".go"},
	"p13": {"i.go/go", "i.go/go.go", "/i.go", "go", ""},
	"p14": {"k/.go", "k/.go", "/k", ".go", ".go"},
	"p15": {"z e'/a b", "z e'/a b.go", "/z e'", "a b", ""},
	"p16": {"ln/s.go", "real/s.go", "/ln", "s.go", ".go"},
	"p17": {longName, longName + ".go", "", longName, ""},
	"p18": {longName + "xxxxxxxxxxxxxx", "none", "", longName + "xxxxxxxxxxxxxx", ""},
}

var longName = strings.Repeat("n", 240)

// longText does not fit into any buffer of a usual size.
var longText = strings.Repeat("0123456789 abcdef\n", 4100)

func atomText(a string, v int) string {
	switch a {
	case "P":
		return fmt.Sprintf("package p_%d", v)
	case "Q":
		return fmt.Sprintf("package q_%d", v)
	case "I":
		return `import "fmt"`
	case "C":
		return fmt.Sprintf("// note_%d", v)
	case "G":
		return "// Code generated by a tool. DO NOT EDIT."
	case "H":
		return fmt.Sprintf("//go:generate echo do_%d", v)
	case "F":
		return fmt.Sprintf("func F_%d() {}", v)
	case "N":
		return fmt.Sprintf("func N_%d() { fmt.Println() }", v)
	case "V":
		return fmt.Sprintf("var V_%d = `x\n\tfunc y() `", v)
	case "T":
		return fmt.Sprintf("type T_%d struct{}", v)
	case "U":
		return fmt.Sprintf("func  U_%d( )   {\r\n}", v)
	case "u":
		return fmt.Sprintf("func U_%d() {\n}", v)
	case "L":
		return fmt.Sprintf("var L_%d = `%s`", v, longText)
	case "E":
		return ""
	case "B":
		return fmt.Sprintf("func B_%d( {", v)
	}
	fail("atom %q", a)
	return ""
}

func atomMark(a string, v int) string {
	switch a {
	case "P", "Q":
		return fmt.Sprintf("%s_%d", strings.ToLower(a), v)
	case "C":
		return fmt.Sprintf("// note_%d", v)
	case "u":
		return fmt.Sprintf("U_%d", v)
	}
	return fmt.Sprintf("%s_%d", a, v)
}

var atomKinds = map[string]scope.Kind{"P": scope.Package, "Q": scope.Package, "I": scope.Import, "C": scope.Comment, "G": scope.Comment, "H": scope.Comment, "F": scope.Func,
	"N": scope.Func, "U": scope.Func, "u": scope.Func, "B": scope.Func, "V": scope.Variable, "L": scope.Variable, "T": scope.Type, "E": scope.Const}

type atom struct {
	a string
	v int
}

func atoms(v any) (out []atom) {
	for _, e := range arr(v) {
		out = append(out, atom{arr(e)[0].(string), arr(e)[1].(int)})
	}
	return
}

func renderAtomList(as []atom) string {
	var b strings.Builder
	for _, a := range as {
		b.WriteString(atomText(a.a, a.v) + "\n\n")
	}
	return b.String()
}

// norm ignores empty lines and white space at the ends of lines.
func norm(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimRight(l, " \t"); l != "" {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func scopeText(s goast.Scope) string {
	var b strings.Builder
	for n := s.Node(); n != nil; n = n.Next() {
		b.WriteString(n.Text())
	}
	return b.String()
}

// newScopes makes the scopes of atoms, each with nodes of its own.
func newScopes(as []atom) ([]goast.Scope, string) {
	out := make([]goast.Scope, 0, len(as)+3) // room behind: an append may not write there
	for i, a := range as {
		if a.a == "E" {
			out = append(out, goast.NewScope(i-3, atomKinds[a.a], nil))
			continue
		}
		scs, err := goast.ParseScope(i, []byte(atomText(a.a, a.v)+"\n\n"))
		if err != nil || len(scs) != 1 {
			return nil, fmt.Sprintf("%s%q is not one scope: %d scopes, error %v", foreign, atomText(a.a, a.v), len(scs), err)
		}
		if i%2 == 0 {
			out = append(out, scs[0])
		} else {
			if i%4 == 1 { // a chain that begins before the node the scope shows
				scs[0].Node().InsertPrev(goast.NewNodes(i-9, "// hidden", "\n", "nodes", " "))
			}
			out = append(out, goast.NewScope(i*i-5, atomKinds[a.a], scs[0].Node())) // lines may be of any value
		}
	}
	return out, ""
}

// foreign begins the trouble of a call that has nothing to do with documents.
const foreign = "(not about documents) "

type astWorld struct {
	dir    string
	prefix string // of the paths the code is given: the directory, or a way to it from the working directory
	base   string // of the directories it reports, "." for the working directory
	docs   []goast.Ast
	scopes []goast.Scope // by number, [0] unused
	ids    map[goast.Scope]int
	fixed  []string // by number: what no call changes
}

func (w *astWorld) adopt(scs []goast.Scope) string {
	for _, s := range scs {
		if _, ok := w.ids[s]; ok {
			return "a scope that should be new is known already"
		}
		w.scopes = append(w.scopes, s)
		w.fixed = append(w.fixed, fixedPart(s))
		w.ids[s] = len(w.scopes) - 1
	}
	return ""
}

// fixedPart is the line, the kind, and the nodes before the one the scope shows.
func fixedPart(s goast.Scope) string {
	out := fmt.Sprintf("line %d, %s", s.Line(), s.Kind())
	if n := s.Node(); n != nil {
		for n = n.Prev(); n != nil; n = n.Prev() {
			out += fmt.Sprintf(", after %q (%s, %d)", n.Text(), n.Kind(), n.Line())
		}
	}
	return out
}

// copied compares a copy with its original.
func copied(s, c goast.Scope) string {
	if x, g := fixedPart(s), fixedPart(c); x != g {
		return fmt.Sprintf("the copy differs: expected %s, got %s", x, g)
	}
	n, m := s.Node(), c.Node()
	for i := 0; n != nil || m != nil; i++ {
		switch {
		case n == nil || m == nil:
			return fmt.Sprintf("the copy has another number of nodes: %d against more", i)
		case n == m:
			return fmt.Sprintf("node %d of the copy is that of the original", i)
		case n.Text() != m.Text() || n.Kind() != m.Kind() || n.Line() != m.Line():
			return fmt.Sprintf("node %d of the copy: expected %q (%s, %d), got %q (%s, %d)", i, n.Text(), n.Kind(), n.Line(), m.Text(), m.Kind(), m.Line())
		}
		n, m = n.Next(), m.Next()
	}
	return ""
}

func (w *astWorld) some(d int) []goast.Scope {
	if d == 0 {
		return nil
	}
	return w.docs[d-1].Scope()
}

func errName(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, goast.ErrNoPackage):
		return "nopackage"
	case errors.Is(err, goast.ErrNotExist):
		return "notexist"
	default:
		return "error"
	}
}

// which property a deviation of a call belongs to
var astProps = map[string]string{"parse": "C15", "new": "C15", "share": "C13", "set": "C13", "append": "C13", "appendnew": "C13",
	"copy": "C11", "copyscope": "C11", "edit": "C13", "save": "C14", "write": "C14", "delete": "C14"}

func (w *astWorld) call(c []any) (res string, made goast.Ast, trouble string) {
	path := func(p string) string { return w.prefix + astPaths[p][0] }
	list := func(v any) (out []atom) {
		for _, a := range arr(v) {
			out = append(out, atom{a.(string), 0})
		}
		return
	}
	switch op := c[0].(string); op {
	case "write":
		f := filepath.Join(w.dir, c[1].(string))
		if os.MkdirAll(filepath.Dir(f), 0o755) != nil || os.WriteFile(f, []byte(renderAtomList(list(c[2]))), 0o644) != nil {
			fail("cannot write %s", f)
		}
		return "ok", nil, ""
	case "delete":
		if err := os.Remove(filepath.Join(w.dir, c[1].(string))); err != nil {
			return "ok", nil, "a file that should exist does not: " + err.Error()
		}
		return "ok", nil, ""
	case "parse":
		a, err := goast.ParseAst(path(c[1].(string)))
		if err == nil {
			trouble = w.adopt(a.Scope())
			if b, err := os.ReadFile(filepath.Join(w.dir, astPaths[c[1].(string)][1])); trouble == "" && err == nil {
				want, _ := format.Source(b)
				if got := docText(a); got != string(want) {
					trouble = fmt.Sprintf("the document does not hold the text of the file: expected %q, got %q", want, got)
				}
			}
		} else {
			a = nil
		}
		return errName(err), a, trouble
	case "new":
		scs, bad := newScopes(list(c[1]))
		if bad != "" {
			return "", nil, bad
		}
		trouble = w.adopt(scs)
		a, err := goast.NewAst(scs...)
		if err != nil {
			a = nil
		}
		return errName(err), a, trouble
	case "share":
		scs := append(append([]goast.Scope{}, w.some(c[1].(int))...), w.some(c[2].(int))...)
		a, err := goast.NewAst(scs...)
		if err != nil {
			a = nil
		}
		return errName(err), a, ""
	case "set":
		// the slice of another document, with its spare room
		return "ok", w.docs[c[1].(int)-1].SetScope(w.some(c[2].(int))), ""
	case "append":
		list := w.some(c[2].(int))
		if c[1].(int)%2 == 0 { // a list of the caller, who uses it for other things afterwards
			list = append(make([]goast.Scope, 0, len(list)+3), list...)
			defer scribble(list)
		}
		w.docs[c[1].(int)-1].AppendScope(list...)
		return "ok", nil, ""
	case "appendnew":
		scs, bad := newScopes(list(c[2]))
		if bad != "" {
			return "", nil, bad
		}
		trouble = w.adopt(scs)
		w.docs[c[1].(int)-1].AppendScope(scs...)
		scribble(scs)
		return "ok", nil, trouble
	case "copy":
		d := w.docs[c[1].(int)-1]
		a := d.Copy()
		if trouble = w.adopt(a.Scope()); trouble == "" && len(a.Scope()) == len(d.Scope()) {
			for i, s := range d.Scope() {
				if trouble == "" {
					trouble = copied(s, a.Scope()[i])
				}
			}
		}
		return "ok", a, trouble
	case "copyscope":
		d := w.docs[c[1].(int)-1]
		s := d.Scope()[c[2].(int)-1].Copy()
		if trouble = w.adopt([]goast.Scope{s}); trouble == "" {
			trouble = copied(d.Scope()[c[2].(int)-1], s)
		}
		d.AppendScope(s)
		return "ok", nil, trouble
	case "edit":
		s := w.docs[c[1].(int)-1].Scope()[c[2].(int)-1]
		for n := s.Node(); n != nil; n = n.Next() {
			t := n.Text()
			if i := strings.LastIndexByte(t, '_'); i > 0 && i+2 == len(t) && t[i+1] >= '0' && t[i+1] <= '9' {
				n.SetText(fmt.Sprintf("%s_%d", t[:i], int(t[i+1]-'0')+1))
				return "ok", nil, ""
			}
		}
		return "ok", nil, fmt.Sprintf("the scope does not hold its name in one node: %q", scopeText(s))
	case "save":
		err := w.docs[c[1].(int)-1].Save(path(c[2].(string)), c[3].(bool))
		if !c[3].(bool) && err == nil && c[1].(int)%2 == 0 { // the option left out means the same
			err = w.docs[c[1].(int)-1].Save(path(c[2].(string)))
		}
		if err == nil {
			trouble = savedExactly(w.docs[c[1].(int)-1], filepath.Join(w.dir, astPaths[c[2].(string)][1]), c[3].(bool))
		}
		return errName(err), nil, trouble
	default:
		fail("call %q", op)
	}
	return
}

// scribble uses a list, and the room behind it, for something else.
func scribble(list []goast.Scope) {
	list = list[:cap(list)]
	for i := range list {
		list[i] = scribbled
	}
}

var scribbled = goast.NewScope(7, scope.Variable, goast.NewNodes(7, "var", " ", "Elsewhere", " ", "int"))

func docText(a goast.Ast) string {
	var b strings.Builder
	for _, s := range a.Scope() {
		b.WriteString(scopeText(s))
	}
	return b.String()
}

// savedExactly compares a saved file, byte by byte, with what Go makes of the
// text of the document.
func savedExactly(a goast.Ast, file string, auto bool) string {
	got, err := os.ReadFile(file)
	if err != nil {
		return "the saved file cannot be read: " + err.Error()
	}
	text := docText(a)
	want, err := format.Source([]byte(text))
	switch {
	case err != nil:
		want = []byte(text)
	case auto: // imports were put right; what is left has to be formatted
		if want, err = format.Source(got); err != nil {
			return fmt.Sprintf("the saved file is not Go: %q", got)
		}
	}
	if string(got) != string(want) {
		return fmt.Sprintf("saved file: expected %q, got %q", want, got)
	}
	return ""
}

func (w *astWorld) check(docs, disk []any) (prop, bad string) {
	if len(docs) != len(w.docs) {
		return "C13", fmt.Sprintf("expected %d documents, got %d", len(docs), len(w.docs))
	}
	for i, e := range docs {
		d, t := w.docs[i], arr(e)
		want := [4]string{}
		if p := t[0].(string); p != "none" {
			x := astPaths[p]
			want = [4]string{w.prefix + x[0], w.base + x[2], x[3], x[4]}
			if w.base == "." && x[2] != "" {
				want[1] = x[2][1:]
			}
		}
		if got := [4]string{d.File(), d.Dir(), d.Filename(), d.Ext()}; got != want {
			return "C15", fmt.Sprintf("document %d: expected file, directory, name and extension %q, got %q", i+1, want, got)
		}
		ids, content := ints(t[1]), atoms(t[2])
		got := []int{}
		for _, s := range d.Scope() {
			got = append(got, w.ids[s])
		}
		if !equalInts(got, ids) {
			return "C13", fmt.Sprintf("document %d: expected scopes %v, got %v", i+1, ids, got)
		}
		for stop := 0; stop <= len(ids); stop++ {
			seen := []int{}
			d.IterScope(func(s goast.Scope) bool { seen = append(seen, w.ids[s]); return len(seen) != stop })
			if w := ids; !equalInts(seen, w[:min(len(w), max(stop, b2i(stop == 0)*len(w)))]) {
				return "C13", fmt.Sprintf("document %d: iteration stopped at visit %d saw %v of %v", i+1, stop, seen, ids)
			}
		}
		for k, s := range d.Scope() {
			if g, x := norm(scopeText(s)), norm(atomText(content[k].a, content[k].v)); g != x {
				return "C11", fmt.Sprintf("document %d, scope %d: expected %q, got %q", i+1, ids[k], x, g)
			}
			if g, x := fixedPart(s), w.fixed[ids[k]]; g != x {
				return "C11", fmt.Sprintf("document %d, scope %d: expected %s, got %s", i+1, ids[k], x, g)
			}
			if s.Kind() != atomKinds[content[k].a] {
				return "C11", fmt.Sprintf("document %d, scope %d: kind %s", i+1, ids[k], s.Kind())
			}
		}
		pk := arr(t[3])
		name, err := d.Package()
		if pk[0].(string) == "" {
			if !errors.Is(err, goast.ErrNoPackage) || name != "" {
				return "C15", fmt.Sprintf("document %d has no package, got %q and error %v", i+1, name, err)
			}
		} else if x := atomMark(pk[0].(string), pk[1].(int)); err != nil || name != x {
			return "C15", fmt.Sprintf("document %d: expected package %q, got %q and error %v", i+1, x, name, err)
		}
	}
	want := map[string]string{"blk": "keep"}
	broken := map[string]bool{} // what they hold is not said
	for _, e := range disk {
		if c := atoms(arr(e)[1]); len(c) == 1 && c[0].a == "broken" {
			broken[arr(e)[0].(string)] = true
			continue
		}
		want[arr(e)[0].(string)] = norm(renderAtomList(atoms(arr(e)[1])))
	}
	got := map[string]string{}
	_ = filepath.Walk(w.dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				fail("%v", err)
			}
			rel, _ := filepath.Rel(w.dir, p)
			got[rel] = norm(string(b))
		}
		return nil
	})
	for f, x := range want {
		if g, ok := got[f]; !ok {
			return "C14", fmt.Sprintf("file %s is missing", f)
		} else if g != x {
			return "C14", fmt.Sprintf("file %s: expected %q, got %q", f, x, g)
		}
	}
	for f := range got {
		if _, ok := want[f]; !ok && !broken[f] {
			return "C14", fmt.Sprintf("file %s should not exist", f)
		}
	}
	return "", ""
}

// astJob is one history; what replaying it found.
type astRun struct {
	steps, skipped int
	calls          map[string]int
}

func replayAst(hist []any, prop, dir, prefix, base string, run *astRun) {
	w := &astWorld{dir: dir, prefix: prefix, base: base, scopes: []goast.Scope{nil}, fixed: []string{""}, ids: map[goast.Scope]int{}}
	if os.MkdirAll(filepath.Join(w.dir, "dir.go"), 0o755) != nil || os.WriteFile(filepath.Join(w.dir, "blk"), []byte("keep"), 0o644) != nil ||
		os.Mkdir(filepath.Join(w.dir, "real"), 0o755) != nil || os.Symlink("real", filepath.Join(w.dir, "ln")) != nil {
		fail("cannot make %s", w.dir)
	}
	defer func() {
		if err := os.RemoveAll(w.dir); err != nil {
			fail("%v", err)
		}
	}()
	for k, h := range hist {
		c := arr(arr(h)[0])
		var res, bad, p string
		var made goast.Ast
		op := c[0].(string)
		t := safely(limitFor(""), func() {
			p = astProps[op]
			res, made, bad = w.call(c)
			if strings.HasPrefix(bad, foreign) { // nothing to do with documents
				p = "C04"
				return
			}
			if strings.HasPrefix(bad, "the document does not hold") {
				p = "C14"
			}
			if bad == "" && res != arr(h)[1].(string) {
				bad = fmt.Sprintf("expected %s, got %s", arr(h)[1], res)
			}
			if made != nil {
				w.docs = append(w.docs, made)
			}
			if bad == "" {
				var q string
				if q, bad = w.check(arr(arr(h)[2]), arr(arr(h)[3])); bad != "" {
					if op == "copy" || op == "copyscope" || op == "save" {
						if p = astProps[op]; prop == q && q == "C15" {
							p = q // a path or package name is also wrong
						}
					} else if op == "parse" && (q == "C11" || q == "C13") {
						p = "C14" // reading back what was saved
					} else {
						p = q
					}
					if q == "C11" && op == "edit" {
						p = "C11" // an edit shows where it should not
					}
				}
			}
		})
		if t != "" {
			bad = t
		}
		run.steps++
		run.calls[op]++
		if bad != "" {
			if prop == "" || p == prop {
				mismatch(bad, describeHistory(hist, k))
			}
			run.skipped++ // another property's business
			return
		}
	}
}

func describeHistory(hist []any, k int) map[string]any {
	out := []string{}
	for _, h := range hist[:k+1] {
		out = append(out, fmt.Sprint(arr(h)[0]))
	}
	return map[string]any{"calls": out, "expected result": fmt.Sprint(arr(hist[k])[1]), "expected documents": fmt.Sprint(arr(hist[k])[2]), "expected files": fmt.Sprint(arr(hist[k])[3])}
}

func replayAsts(in, prop, dir string) {
	type job struct {
		n    int
		hist []any
	}
	ch := make(chan job, 64)
	var wg sync.WaitGroup
	var mu sync.Mutex
	total := astRun{calls: map[string]int{}}
	samples := []string{}
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			pr := newProgress(fmt.Sprint("ast", k))
			run := astRun{calls: map[string]int{}}
			for j := range ch {
				pr.set(fmt.Sprint(j.hist))
				name := fmt.Sprint("h", j.n)
				at := filepath.Join(dir, name)
				switch j.n % 6 {
				case 1:
					replayAst(j.hist, prop, at, name+"/", name, &run)
				case 3:
					replayAst(j.hist, prop, at, "./"+name+"/", name, &run)
				case 5:
					replayAst(j.hist, prop, at, name+"/../"+name+"//", name, &run)
				default:
					replayAst(j.hist, prop, at, at+"/", at, &run)
				}
				if j.n%997 == 5 {
					mu.Lock()
					if len(samples) < 4 {
						samples = append(samples, strings.Join(describeHistory(j.hist, len(j.hist)-1)["calls"].([]string), "; "))
					}
					mu.Unlock()
				}
			}
			mu.Lock()
			total.steps += run.steps
			total.skipped += run.skipped
			for c, n := range run.calls {
				total.calls[c] += n
			}
			mu.Unlock()
		}(k)
	}
	here := func(dir string) {
		if err := os.Chdir(dir); err != nil {
			fail("%v", err)
		}
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fail("%v", err)
	}
	here(dir)
	defer here("/")
	bare := [][]any{} // histories in the working directory
	seen := map[string]bool{}
	eachVector(in, func(v any) {
		hist := arr(v)
		if len(seen)%61 == 7 {
			bare = append(bare, hist)
		}
		if key := fmt.Sprint(hist); !seen[key] {
			seen[key] = true
			ch <- job{len(seen), hist}
		}
	})
	close(ch)
	wg.Wait()
	pr := newProgress("ast8")
	for i, hist := range bare {
		at := filepath.Join(dir, fmt.Sprint("b", i))
		if os.MkdirAll(at, 0o755) != nil {
			fail("cannot make %s", at)
		}
		here(at)
		pr.set(fmt.Sprint("in the working directory: ", hist))
		replayAst(hist, prop, at, "", ".", &total)
		here(dir)
	}
	stats["cases"], stats["steps"], stats["calls"], stats["skipped"], stats["samples"] = len(seen), total.steps, total.calls, total.skipped, samples
}
