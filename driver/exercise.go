package main

import (
	"strings"

	"github.com/yanun0323/goast"
)

// exercise asks everything there is to ask about scopes; the answers are not
// looked at.
func exercise(scs []goast.Scope) {
	for _, s := range scs {
		_, _ = s.GetTypeName()
		_, _ = s.GetStructName()
		_, _ = s.GetInterfaceName()
		_, _ = s.GetFuncName()
		_, _ = s.GetMethodName()
		_, _ = s.GetMethodReceiver()
		_ = s.Description()
		n := 0
		s.Node().IterNext(func(n *goast.Node) bool {
			_ = n.Description()
			_, _, _ = n.Text(), n.Line(), n.Kind().String()
			return true
		})
		s.Node().Last().IterPrev(func(*goast.Node) bool { n++; return true })
		c := s.Copy()
		var b strings.Builder
		c.Node().IterNext(func(n *goast.Node) bool { b.WriteString(n.Text()); return true })
		_ = c.Node().CombineNext(c.Kind().ToKind())
	}
	if a, err := goast.NewAst(scs...); err == nil {
		_, _ = a.Package()
		_ = a.Description()
		a.IterScope(func(goast.Scope) bool { return true })
		_ = a.Copy().SetScope(scs)
	}
}
