package main

import (
	"errors"
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/scope"
)

// Replay of the package clauses spec/Pack.tla builds.

func checkPack(text, name, dir string, file bool) (bad string) {
	ask := func(how string, a goast.Ast, err error) {
		if bad != "" {
			return
		}
		if name == "" {
			if err == nil {
				bad = how + ": expected an error for a text without a package clause, got none"
			} else if how != "ParseAst" && !errors.Is(err, goast.ErrNoPackage) {
				bad = how + ": expected ErrNoPackage, got " + err.Error()
			} else if a != nil {
				bad = how + ": a tree was made in spite of an error"
			}
			return
		}
		if err != nil {
			bad = how + ": unexpected error: " + err.Error()
			return
		}
		if got, err := a.Package(); err != nil || got != name {
			bad = fmt.Sprintf("%s: expected package %q, got %q, error %v", how, name, got, err)
		}
	}
	if t := safely(limitFor(text), func() {
		scs, err := goast.ParseScope(0, []byte(text))
		if err != nil {
			bad = "ParseScope: " + err.Error()
			return
		}
		a, err := goast.NewAst(scs...)
		ask("NewAst", a, err)
		if name != "" && bad == "" {
			c := a.Copy()
			ask("Copy", c, nil)
			if more, err := goast.ParseScope(0, []byte("package other\n")); err == nil && len(more) == 1 {
				c.AppendScope(more...)
				ask("AppendScope", c, nil)
				d := a.SetScope(append(more, a.Scope()...))
				if got, err := d.Package(); bad == "" && (err != nil || got != "other") {
					bad = fmt.Sprintf("SetScope: expected package %q, got %q, error %v", "other", got, err)
				}
				none := a.SetScope(nil)
				if got, err := none.Package(); bad == "" && (!errors.Is(err, goast.ErrNoPackage) || got != "") {
					bad = fmt.Sprintf("a tree without scopes: expected ErrNoPackage, got %q, error %v", got, err)
				}
			}
			ask("the first tree", a, nil)
			for _, s := range a.Scope() {
				if s.Kind() == scope.Package && bad == "" {
					b, err := goast.NewAst(s)
					ask("NewAst of one scope", b, err)
					b, err = goast.NewAst(s.Copy())
					ask("NewAst of a copied scope", b, err)
				}
			}
		}
		if !file || bad != "" {
			return
		}
		if name == "" && strings.Contains(text, "//go:build") {
			return // formatting such a piece of a file gives it a clause
		}
		if _, err := format.Source([]byte(text)); err != nil {
			return
		}
		path := filepath.Join(dir, "x.go")
		if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
			fail("%v", err)
		}
		a, err = goast.ParseAst(path)
		ask("ParseAst", a, err)
	}); t != "" {
		bad = t
	}
	return
}

func replayPack(in, dir string) {
	type job struct {
		text, name string
		n          int
	}
	ch := make(chan job, 256)
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			pr := newProgress(fmt.Sprint("pack", k))
			d := filepath.Join(dir, fmt.Sprint("pack", k))
			if err := os.MkdirAll(d, 0o755); err != nil {
				fail("%v", err)
			}
			for j := range ch {
				pr.set(j.text)
				bad := checkPack(j.text, j.name, d, j.n%4 == 0)
				if bad != "" && survey != nil {
					fmt.Fprintf(survey, "%q\t%s\n", j.text, bad)
				} else if bad != "" {
					mismatch(bad, map[string]any{"text": j.text})
				}
			}
		}(k)
	}
	special := strings.NewReplacer("@e", "éa", "@w", "世界")
	n, without := 0, 0
	var samples []string
	eachVector(in, func(v any) {
		text, name := special.Replace(arr(v)[0].(string)), special.Replace(arr(v)[1].(string))
		if name == "" {
			without++
		}
		if n%9001 == 77 {
			samples = append(samples, text)
		}
		ch <- job{text, name, n}
		n++
	})
	close(ch)
	wg.Wait()
	stats["cases"], stats["without_clause"], stats["samples"] = n, without, samples
}
