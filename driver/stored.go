package main

import (
	"bytes"
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"strings"

	"github.com/yanun0323/goast"
)

// Files of spec/Doc.tla that lie on the disk, written down more or less neatly.

// styles write a file in other ways that are Go, too.
var styles = []struct {
	name string
	of   func(string) string
}{
	{"neat", func(s string) string { return s }},
	{"with carriage returns", func(s string) string { return strings.ReplaceAll(s, "\n", "\r\n") }},
	{"with blanks at the ends of lines", func(s string) string { return strings.ReplaceAll(s, "\n", " \t\n") }},
	{"with more empty lines", func(s string) string { return "\n\n" + strings.ReplaceAll(s, "\n\n", "\n\n\n\n") + "\n\n" }},
	{"without indentation", func(s string) string { return strings.ReplaceAll(s, "\n\t", "\n") }},
	{"with blanks for tabs", func(s string) string { return strings.ReplaceAll(s, "\t", "    ") }},
	{"without a last line break", func(s string) string { return strings.TrimRight(s, "\n") }},
	{"indented", func(s string) string { return "\t" + strings.ReplaceAll(s, "\n", "\n\t") }},
}

// checkStored writes a file in one style, reads it with ParseAst, and saves
// and reads it again.
func checkStored(prop string, n int, dir, text string, want []docScope) (bad string, note map[string]any) {
	st := styles[n%len(styles)]
	given := st.of(text)
	note = map[string]any{"text": text, "written": given, "style": st.name}
	form, err := format.Source([]byte(given))
	if err != nil {
		fail("a file is no longer Go when it is written %s: %v\n%s", st.name, err, given)
	}
	at := func(name string) string { return filepath.Join(dir, name) }
	if os.MkdirAll(dir, 0o755) != nil || os.WriteFile(at("in.go"), []byte(given), 0o644) != nil {
		fail("cannot write below %s", dir)
	}
	defer os.RemoveAll(dir)
	t := safely(limitFor(given), func() {
		a, err := goast.ParseAst(at("in.go"))
		if err != nil {
			bad = "reading: " + err.Error()
			return
		}
		if bad = storedAst(prop, a, string(form), st.name == "neat", want); bad != "" {
			bad = "read: " + bad
			return
		}
		// as it is read
		if err := a.Save(at("out")); err != nil {
			bad = "saving what was read: " + err.Error()
			return
		}
		if prop == "C14" {
			again, _ := format.Source(form) // formatting twice is not always formatting once
			if got, _ := os.ReadFile(at("out.go")); !bytes.Equal(got, again) {
				bad = fmt.Sprintf("saving what was read: expected %q, got %q", again, got)
				return
			}
		}
		// as it was given
		scs, err := goast.ParseScope(0, []byte(given))
		if err != nil {
			bad = "parsing: " + err.Error()
			return
		}
		// scopes hold the text from the first declaration or comment on
		var b strings.Builder
		for _, s := range scs {
			b.WriteString(scopeText(s))
		}
		kept, err := format.Source([]byte(b.String()))
		if err != nil {
			if prop == "C01" {
				bad = fmt.Sprintf("the scopes spell no Go file: %q", b.String())
			}
			return
		}
		x, err := goast.NewAst(scs...)
		if err != nil {
			if prop == "C15" && st.name != "indented" {
				bad = "making a tree: " + err.Error()
			}
			return
		}
		if err := x.Save(at("sub/out.go")); err != nil {
			bad = "saving what was given: " + err.Error()
			return
		}
		got, _ := os.ReadFile(at("sub/out.go"))
		if prop == "C14" && !bytes.Equal(got, kept) {
			bad = fmt.Sprintf("saving what was given: expected %q, got %q", kept, got)
			return
		}
		if !bytes.Equal(kept, form) {
			return // another property's business
		}
		a, err = goast.ParseAst(at("sub/out"))
		if err != nil {
			bad = "reading what was saved: " + err.Error()
			return
		}
		again, _ := format.Source(form)
		if bad = storedAst(prop, a, string(again), st.name == "neat", want); bad != "" {
			bad = "read after saving: " + bad
		}
	})
	if t != "" {
		bad = t
	}
	return bad, note
}

func storedAst(prop string, a goast.Ast, form string, neat bool, want []docScope) string {
	switch prop {
	case "C01", "C14":
		if got := docText(a); got != form {
			return fmt.Sprintf("expected the text %q, got %q", form, got)
		}
		for _, s := range a.Scope() {
			for n := s.Node(); n != nil; n = n.Next() {
				if n.Text() == "" {
					return "a node is empty"
				}
			}
		}
	case "C15":
		name, err := a.Package()
		if err != nil || (name != "p" && name != "main") || !strings.Contains("\n"+form, "package "+name) {
			return fmt.Sprintf("package %q, error %v", name, err)
		}
	case "C03":
		line := 0
		for k, s := range a.Scope() {
			if s.Line() != line+1 {
				return fmt.Sprintf("scope %d: expected line %d, got %d", k+1, line+1, s.Line())
			}
			for n := s.Node(); n != nil; n = n.Next() {
				if n.Line() != line {
					return fmt.Sprintf("%q: expected line %d, got %d", n.Text(), line, n.Line())
				}
				line += strings.Count(n.Text(), "\n")
			}
		}
	case "C04":
		if !neat {
			return ""
		}
		scs := a.Scope()
		for k, w := range want {
			if k >= len(scs) {
				return fmt.Sprintf("expected %d scopes, got %d", len(want), len(scs))
			}
			if scs[k].Kind().String() != w.kind || scs[k].Line() != w.line {
				return fmt.Sprintf("scope %d: expected kind %s in line %d, got %s in %d", k+1, w.kind, w.line, scs[k].Kind(), scs[k].Line())
			}
		}
		if len(scs) != len(want) {
			return fmt.Sprintf("expected %d scopes, got %d", len(want), len(scs))
		}
	}
	return ""
}
