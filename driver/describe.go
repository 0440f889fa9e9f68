package main

import (
	"fmt"
	"os"
	"strings"
	"syscall"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
)

// Replay of the trees spec/Describe.tla builds.

var nodeKinds = map[string]kind.Kind{"None": kind.None, "Raw": kind.Raw, "Comment": kind.Comment, "Number": kind.Number, "Symbol": kind.Symbol,
	"Basic": kind.Basic, "Separator": kind.Separator, "Keyword": kind.Keyword, "Tab": kind.Tab, "Space": kind.Space, "Comma": kind.Comma,
	"Colon": kind.Colon, "NewLine": kind.NewLine, "Semicolon": kind.Semicolon, "ParenthesisLeft": kind.ParenthesisLeft,
	"ParenthesisRight": kind.ParenthesisRight, "CurlyBracketLeft": kind.CurlyBracketLeft, "CurlyBracketRight": kind.CurlyBracketRight,
	"SquareBracketLeft": kind.SquareBracketLeft, "SquareBracketRight": kind.SquareBracketRight, "Pointer": kind.Pointer, "Address": kind.Address,
	"Import": kind.Import, "Var": kind.Var, "Const": kind.Const, "Map": kind.Map, "Channel": kind.Channel, "Func": kind.Func, "Type": kind.Type,
	"Struct": kind.Struct, "Interface": kind.Interface, "Package": kind.Package, "FuncName": kind.FuncName, "TypeName": kind.TypeName,
	"TypeAliasType": kind.TypeAliasType, "ParamName": kind.ParamName, "ParamType": kind.ParamType, "MethodReceiverName": kind.MethodReceiverName,
	"MethodReceiverType": kind.MethodReceiverType, "String": kind.String, "Method": kind.Method}

// printed returns what f prints to the standard error.
func printed(f func()) string {
	file, err := os.CreateTemp(".", "printed")
	if err != nil {
		fail("%v", err)
	}
	defer os.Remove(file.Name())
	defer file.Close()
	old, err := syscall.Dup(2)
	if err != nil {
		fail("%v", err)
	}
	_ = syscall.Dup3(int(file.Fd()), 2, 0)
	f()
	_ = syscall.Dup3(old, 2, 0)
	_ = syscall.Close(old)
	b, err := os.ReadFile(file.Name())
	if err != nil {
		fail("%v", err)
	}
	return string(b)
}

func replayDescribe(in string) {
	cases, parts := 0, 0
	var samples []string
	dot := strings.NewReplacer(".", "·")
	eachVector(in, func(v any) {
		tree, desc := arr(arr(v)[0]), arr(arr(v)[1])
		detail := map[string]any{"tree": fmt.Sprintf("%q", fmt.Sprint(tree))}
		var scs []goast.Scope
		var nodes [][]*goast.Node
		for _, s := range tree {
			var head *goast.Node
			var all []*goast.Node
			skip := arr(s)[3].(int)
			for i, e := range arr(arr(s)[2]) {
				n := goast.NewNode(arr(e)[0].(int), arr(e)[1].(string), nodeKinds[arr(e)[2].(string)])
				if i > 0 {
					all[i-1].InsertNext(n)
				}
				all = append(all, n)
				if i == skip {
					head = n
				}
			}
			scs = append(scs, goast.NewScope(arr(s)[0].(int), scopeKinds[arr(s)[1].(string)], head))
			nodes = append(nodes, all[min(skip, len(all)):])
		}
		var want []string
		for _, d := range desc {
			p := arr(d)
			if p[1].(string) == "scope" {
				want = append(want, fmt.Sprintf("%d .... *Scope.%s", p[0], p[2]))
				continue
			}
			text := p[3].(string)
			if text != "...." { // the others show a blank as a dot
				text = dot.Replace(text)
			}
			want = append(want, fmt.Sprintf("%d .... %s .... *Node.%s", p[0], text, p[2]))
		}
		if t := safely(limitFor(""), func() {
			at := 0
			say := func(what, got string) {
				if got != want[at] {
					detail["part"] = at
					mismatch(fmt.Sprintf("%s: expected %q, got %q", what, want[at], got), detail)
				}
				at++
			}
			for i, s := range scs {
				say("description of a scope", s.Description())
				for _, n := range nodes[i] {
					say("description of a node", n.Description())
				}
			}
			clause := goast.NewScope(9, scope.Package, goast.NewNodes(9, "package", " ", "p"))
			a, err := goast.NewAst(append([]goast.Scope{clause}, scs...)...)
			if err == nil {
				all := "10 .... *Scope.Package10 .... package .... *Node.Package10 .... · .... *Node.Space10 .... p .... *Node.Raw" + strings.Join(want, "")
				for _, x := range []goast.Ast{a, a.Copy()} {
					if got := x.Description(); got != all {
						mismatch(fmt.Sprintf("description of a tree: expected %q, got %q", all, got), detail)
					}
				}
			}
			if cases%97 == 0 {
				at = 0
				got := printed(func() {
					for i, s := range scs {
						s.Print()
						for _, n := range nodes[i] {
							n.Print()
						}
					}
				})
				lines := strings.Split(strings.TrimSuffix(got, "\n"), "\n")
				if len(lines) != len(want) && len(want) > 0 {
					mismatch(fmt.Sprintf("expected %d lines to be printed, got %q", len(want), got), detail)
				}
				for i := range want {
					if !strings.HasSuffix(lines[i], want[i]) {
						mismatch(fmt.Sprintf("printed: expected %q, got %q", want[i], lines[i]), detail)
					}
				}
			}
		}); t != "" {
			mismatch("description: "+t, detail)
		}
		cases++
		parts += len(want)
		if cases%3001 == 50 {
			samples = append(samples, strings.Join(want, " | "))
		}
	})
	stats["cases"], stats["parts"], stats["samples"] = cases, parts, samples
}
