package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/yanun0323/goast"
)

// Replay of the files spec/Imports.tla saves.

var importUses = map[string]string{"fmt": "fmt.Println()", "os": "os.Getpid()", "filepath": `filepath.Base("")`, "strings": `strings.ToUpper("")`,
	"b64": "b64.StdEncoding.WithPadding(0)", "none": "print()"}

// importFile writes the file and what shall be left of it beside its imports.
func importFile(decls []any, funcs []any, broken bool) (text, rest string) {
	var b, r strings.Builder
	both := func(s string) { b.WriteString(s); r.WriteString(s) }
	both("// Package p is for \"imports\".\npackage p\n\n")
	for _, d := range decls {
		group, specs := arr(d)[0].(bool), arr(arr(d)[1])
		b.WriteString("import ")
		if group {
			b.WriteString("(\n")
		}
		for _, s := range specs {
			n, p, remark := arr(s)[0].(string), arr(s)[1].(string), arr(s)[2].(string)
			if p == "" {
				b.WriteString("\n")
				continue
			}
			if group {
				b.WriteString("\t")
			}
			if n != "" {
				b.WriteString(n + " ")
			}
			fmt.Fprintf(&b, "%q", p)
			if remark != "" {
				b.WriteString(" " + remark)
			}
			b.WriteString("\n")
		}
		if group {
			b.WriteString(")\n")
		}
		b.WriteString("\n")
	}
	both("// a note\n\nvar V = `fmt.x`\n\n")
	for i, f := range funcs {
		both(fmt.Sprintf("// F%d uses %s\nfunc F%d( ) {\n\t%s // here\n}\n\n", i, f, i, importUses[f.(string)]))
	}
	if broken {
		both("func broken( {\n")
	}
	return b.String(), r.String()
}

// plainImport leaves out a name that says what the path says.
func plainImport(name, path string) string {
	if name == filepath.Base(path) {
		name = ""
	}
	return name + " " + path
}

// splitImports parses a file and takes its imports out of it.
func splitImports(src []byte) (imports []string, rest string, err error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, "", err
	}
	at := 0
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			i := s.(*ast.ImportSpec)
			n := ""
			if i.Name != nil {
				n = i.Name.Name
			}
			imports = append(imports, plainImport(n, strings.Trim(i.Path.Value, "\"`")))
		}
		rest += string(src[at:fs.Position(g.Pos()).Offset])
		at = fs.Position(g.End()).Offset
		for at < len(src) && src[at] != '\n' { // a remark
			at++
		}
	}
	sort.Strings(imports)
	return imports, rest + string(src[at:]), nil
}

func checkImports(file string, v any) (bad, text string) {
	a := arr(v)
	broken, auto := a[2].(bool), a[3].(bool)
	text, rest := importFile(arr(a[0]), arr(a[1]), broken)
	scs, err := goast.ParseScope(0, []byte(text))
	if err != nil {
		return foreign, text
	}
	tree, err := goast.NewAst(scs...)
	if err != nil {
		return foreign, text
	}
	if docText(tree) != text {
		return foreign, text
	}
	if err := tree.Save(file, auto); err != nil {
		return "saving: " + err.Error(), text
	}
	got, err := os.ReadFile(file)
	if err != nil {
		return "the saved file cannot be read: " + err.Error(), text
	}
	if broken {
		if string(got) != text {
			return fmt.Sprintf("text that is not Go: expected %q, got %q", text, got), text
		}
		return "", text
	}
	if !auto {
		want, err := format.Source([]byte(text))
		if err != nil {
			fail("the specification built something that is not Go: %v\n%s", err, text)
		}
		if string(got) != string(want) {
			return fmt.Sprintf("expected %q, got %q", want, got), text
		}
	}
	if again, err := format.Source(got); err != nil || string(again) != string(got) {
		return fmt.Sprintf("the saved file is not formatted: %q", got), text
	}
	imports, left, err := splitImports(got)
	if err != nil {
		return fmt.Sprintf("the saved file is not Go: %v", err), text
	}
	want := []string{}
	for _, s := range arr(a[4]) {
		want = append(want, plainImport(arr(s)[0].(string), arr(s)[1].(string)))
	}
	sort.Strings(want)
	if fmt.Sprint(imports) != fmt.Sprint(want) {
		return fmt.Sprintf("expected the imports %q, got %q", want, imports), text
	}
	f, err := format.Source([]byte(rest))
	if err != nil {
		fail("%v", err)
	}
	for _, d := range arr(a[0]) { // the remark of an import that was removed may stay
		for _, x := range arr(arr(d)[1]) {
			if r := arr(x)[2].(string); r != "" {
				left = strings.ReplaceAll(left, r+"\n", "\n")
			}
		}
	}
	if norm(left) != norm(string(f)) {
		return fmt.Sprintf("what is not an import: expected %q, got %q", f, left), text
	}
	return "", text
}

func replayImports(in, dir string) {
	ch := make(chan any, 64)
	var wg sync.WaitGroup
	var mu sync.Mutex
	cases, skipped := 0, 0
	samples := []string{}
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			pr := newProgress(fmt.Sprint("imports", k))
			file := filepath.Join(dir, fmt.Sprintf("f%d.go", k))
			for v := range ch {
				pr.set(fmt.Sprint(v))
				_ = os.Remove(file)
				var bad, text string
				if t := safely(3*limitFor(""), func() { bad, text = checkImports(file, v) }); t != "" {
					bad = t
				}
				if bad == foreign {
					bad = ""
					mu.Lock()
					skipped++
					mu.Unlock()
				}
				if bad != "" {
					mismatch(bad, map[string]any{"text": text, "auto": arr(v)[3]})
				}
				mu.Lock()
				cases++
				if cases%1001 == 40 && len(samples) < 4 {
					samples = append(samples, fmt.Sprint(v))
				}
				mu.Unlock()
			}
		}(k)
	}
	eachVector(in, func(v any) { ch <- v })
	close(ch)
	wg.Wait()
	stats["cases"], stats["not_parsed_as_asked"], stats["samples"] = cases, skipped, samples
}
