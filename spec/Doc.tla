-------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* Whole source files, built item by item, with the scopes they consist    *)
(* of.  A file is a sequence of pieces <<kind, open, lines, ask>>: lines   *)
(* of text (the last one is not ended if open is TRUE); if kind is not ""  *)
(* the piece begins a scope of this kind; ask is what the scope declares:  *)
(* <<type, struct, interface, func, method, receiver>> ("" for nothing).   *)
(* Everything up to the next such piece belongs to the scope.              *)
(*                                                                         *)
(* The items hide keywords, brackets, quotes and comment marks in places   *)
(* where they must not count: comments, literals, bodies, groups, tags.    *)
(* The files are formatted the way gofmt does it.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxItems,
          Rich,     \* are comments put in front of declarations?
          Random    \* does each step try one choice instead of all?

VARIABLES pieces, line, scopes, items, last, body
vars == <<pieces, line, scopes, items, last, body>>

None == <<"", "", "", "", "", "">>
P(kind, lines)      == <<kind, FALSE, lines, None>>
Q(kind, lines, ask) == <<kind, FALSE, lines, ask>>
Open(kind, l)       == <<kind, TRUE, <<l>>, None>>
Fn(n)      == <<"", "", "", n, "", "">>
Me(n, r)   == <<"", "", "", n, n, r>>
Ty(n)      == <<n, "", "", "", "", "">>
St(n)      == <<n, n, "", "", "", "">>
If(n)      == <<n, "", n, "", "", "">>
Blank      == P("", <<"">>)

(***************************************************************************)
(* In front of the package clause.                                         *)
(***************************************************************************)
Heads == {
  <<P("Package", <<"package p">>)>>,
  <<P("Package", <<"package p // import \"x\"">>)>>,
  <<P("Package", <<"package p /* func f() { */">>)>>,
  <<P("Comment", <<"// Package p: func, type (">>), P("Package", <<"package p">>)>>,
  <<P("Comment", <<"//go:build linux && !cgo">>), Blank, P("Package", <<"package main">>)>>,
  <<P("Comment", <<"// Copyright">>), P("Comment", <<"// \"unclosed">>), P("Comment", <<"//">>), Blank,
    P("Comment", <<"// Package p">>), P("Package", <<"package p">>)>>,
  <<P("InnerComment", <<"/*", "Package p.", "", "func f() {", "type X struct", "*/">>), P("Package", <<"package p">>)>>,
  <<Open("InnerComment", "/* x */ "), P("Package", <<"package p">>)>>,
  <<P("InnerComment", <<"/* x */">>), P("Comment", <<"// y /* z">>), Blank, P("Package", <<"package p">>)>> }

(***************************************************************************)
(* Items: <<class, pieces>>.  Items of the class c1 may follow one of the  *)
(* same class and keyword without an empty line.                           *)
(***************************************************************************)
Imports == {
  <<"import", <<P("Import", <<"import \"fmt\"">>)>>>>,
  <<"import", <<P("Import", <<"import . \"a/b-c.d\" // type X">>)>>>>,
  <<"import!", <<P("Import", <<"import (", "\t\"fmt\"", "\t_ \"os\"", "", "\t// var x", "\tfunc1 \"strings\" /* } */", ")">>)>>>>,
  <<"import!", <<P("Import", <<"import ()">>)>>>>,
  <<"import!", <<P("InnerComment", <<"/*", "#include <stdio.h>", "int type(void) {", "*/">>), P("Import", <<"import \"C\"">>)>>>> }

Vars == {
  <<"var", <<P("Variable", <<"var a = 1">>)>>>>,
  <<"var", <<P("Variable", <<"var a, b map[string][]func(int) (x, y *T)">>)>>>>,
  <<"var", <<P("Variable", <<"var s, r = \"func f() {\\\"\", '{'">>)>>>>,
  <<"var", <<P("Variable", <<"var s, r = \"\\\\\", '\\''">>)>>>>,
  <<"var", <<P("Variable", <<"var q, z = '\"', '`'">>)>>>>,
  <<"var!", <<P("Variable", <<"var s = `", "func f() {", "type T struct", "// c \\` + \"`\"">>)>>>>,
  <<"var!", <<P("Variable", <<"var w = `\t ", " end\t", "", "", "\t \t", "  in`, `", "`">>)>>>>,
  <<"var!", <<P("Variable", <<"var f = func(a int) (err error) {", "\tvar x = 1", "\ttype T struct {", "\t\ta int // }", "\t}", "\treturn nil", "}">>)>>>>,
  <<"var!", <<P("Variable", <<"var (", "\ta int", "\tb = func() { return }", "\t// type X struct {", "", "\tc, d = 1, \")\"", ")">>)>>>>,
  <<"var!", <<P("Variable", <<"var (", "//line x.y", "\ta int", "//line x.y", ")">>)>>>>,
  <<"var!", <<P("Variable", <<"var x = []T{", "\t{1, 2}, // {", "\t{f: func() {", "\t\tgo func() {}()", "\t}},", "}">>)>>>>,
  <<"var>", <<P("Variable", <<"var x = a +", "\tb +", "\tfoo(1,", "\t\t2)">>)>>>>,
  <<"var>", <<P("Variable", <<"var x = a.", "\tb().", "\tc">>)>>>>,
  <<"var", <<P("Variable", <<"var _ I = (*T)(nil) /* ( */">>)>>>>,
  <<"var!", <<P("Variable", <<"var ()">>)>>>> }

Consts == {
  <<"const", <<P("Const", <<"const a = 1">>)>>>>,
  <<"const", <<P("Const", <<"const a, b string = `x`, \"`\"">>)>>>>,
  <<"const!", <<P("Const", <<"const (", "\tA = iota << 1", "\tB // func", "\tC", ")">>)>>>> }

Types == {
  <<"type", <<Q("Type", <<"type X int">>, Ty("X"))>>>>,
  <<"type", <<Q("Type", <<"type X = pkg.Y // struct {">>, Ty("X"))>>>>,
  <<"type", <<Q("Type", <<"type F func(struct{}, interface{}) (func(), error)">>, Ty("F"))>>>>,
  <<"type", <<Q("Type", <<"type M map[struct{ a int }]interface{ F() }">>, Ty("M"))>>>>,
  <<"type", <<Q("Type", <<"type S struct{}">>, St("S"))>>>>,
  <<"type", <<Q("Type", <<"type I interface{}">>, If("I"))>>>>,
  <<"type!", <<Q("Type", <<"type S struct {", "\tA, B int `json:\"a{,\"` // func f() {", "\t*pkg.E", "", "\t// type X", "\tf func(a, b int) (c error)",
                          "\tin struct {", "\t\tx []string", "\t}", "\ty int /* } */", "}">>, St("S"))>>>>,
  <<"type!", <<Q("Type", <<"type G[K comparable, V int | ~string] struct {", "\tm map[K]V", "}">>, St("G"))>>>>,
  <<"type!", <<Q("Type", <<"type I interface {", "\tfmt.Stringer", "\tDo(ctx context.Context, f func(int)) (err error)", "\t// }", "\t~int | string", "}">>, If("I"))>>>>,
  <<"type!", <<Q("Type", <<"type S struct {", "//line x.y", "\ta struct {", "//line x.y", "\t\tb int", "\t}", "/*line x.y*/", "}">>, St("S"))>>>>,
  <<"type!", <<P("Type", <<"type (", "\tA int", "\tB struct {", "\t\tx int", "\t}", "", "\t// func", "\tC = A", ")">>)>>>> }

Funcs == {
  <<"func", <<Q("Func", <<"func f() {}">>, Fn("f"))>>>>,
  <<"func", <<Q("Func", <<"func asm(a, b int) (c int) // no body {">>, Fn("asm"))>>>>,
  <<"func", <<Q("Func", <<"func f(s string) string { return s + \"}\" }">>, Fn("f"))>>>>,
  <<"func!", <<Q("Func", <<"func init() {", "\tif x := func() bool { return true }(); x {", "\t\ttype T int", "\t}",
                          "\tvar s = `", "func g() {", "\t}`", "\t/* } */", "\t// }", "outer:", "\tfor range s {", "\t\tbreak outer", "\t}", "}">>, Fn("init"))>>>>,
  <<"func!", <<Q("Func", <<"func (t *T) M(", "\ta int,", "\tb func(x, y T) error, // )", ") (err error) {", "\treturn", "}">>, Me("M", "*T"))>>>>,
  <<"func!", <<Q("Func", <<"func f(", "//line x.y", "\ta int,", ") {", "//line x.y", "\tg(func() {", "//line x.y", "\t\th()", "//line x.y", "\t})", "//line x.y", "}">>, Fn("f"))>>>>,
  <<"func", <<Q("Func", <<"func (G[K, V]) Get(k K) (v V, ok bool) { return }">>, Me("Get", "G"))>>>>,
  <<"func", <<Q("Func", <<"func Map[K comparable, V any](m map[K]V, f func(K) V) {}">>, Fn("Map"))>>>>,
  <<"func!", <<Q("Func", <<"func /* x */ f(a /* int */ string) /* } */ {", "\tcase1 := []rune{'{', '\\'', '\\\\', '\"'}", "\t_ = case1", "}">>, Fn("f"))>>>>,
  <<"func!", <<Q("Func", <<"func f() {", "", "\tconst c = '\\x7b'", "\tvar v = 1", "", "\timport1()", "}">>, Fn("f"))>>>> }

\* every line comment is a scope of its own; comments behind a block comment
\* on its line belong to it, a declaration there does not
Notes == {
  <<"note", <<P("Comment", <<"// x">>)>>>>,
  <<"note", <<P("Comment", <<"// func f() {">>), P("Comment", <<"// var \"x /* `">>), P("Comment", <<"// '">>)>>>>,
  <<"note", <<P("InnerComment", <<"/* x \" */">>)>>>>,
  <<"note", <<P("InnerComment", <<"/* x */ // y">>)>>>>,
  <<"note", <<P("InnerComment", <<"/* x", "type T struct {", "", "*/">>)>>>>,
  <<"note", <<P("InnerComment", <<"/**/">>), P("InnerComment", <<"/*/ * /*/">>), P("Comment", <<"///*">>)>>>>,
  <<"note", <<P("Comment", <<"//go:generate stringer -type=X">>)>>>>,
  <<"note", <<P("InnerComment", <<"/*\tx  y", "", "", "   type  T  struct", "\tz */">>)>>>>,
  <<"note", <<P("InnerComment", <<"/**", " * x", " **/">>)>>>> }

Leads == {<<Open("InnerComment", "/* x */ ")>>, <<Open("InnerComment", "/* func */ /* \" */ ")>>, <<P("InnerComment", <<"/* a", "b */">>)>>}

Decls == Imports \cup Vars \cup Consts \cup Types \cup Funcs

\* a declaration alone, with comments in front, or with a comment on its line
Variants ==
    Decls \cup Notes
    \cup (IF ~Rich THEN {} ELSE
            {<<d[1], n[2] \o d[2]>> : d \in Decls, n \in Notes}
            \cup {<<d[1], l \o d[2]>> : d \in {x \in Decls : Len(x[2]) = 1}, l \in Leads})

(***************************************************************************)
(* Building.                                                               *)
(***************************************************************************)
Newlines(p) == IF p[2] THEN Len(p[3]) - 1 ELSE Len(p[3])

RECURSIVE Put(_, _, _)
Put(ps, l, s) == \* line and scopes behind the pieces ps
    IF ps = <<>> THEN <<l, s>>
    ELSE Put(Tail(ps), l + Newlines(Head(ps)),
             IF Head(ps)[1] = "" THEN s ELSE Append(s, <<Head(ps)[1], l, Head(ps)[4]>>))

Add(ps, class) ==
    LET r == Put(ps, line, scopes) IN
    /\ pieces' = pieces \o ps
    /\ line' = r[1] /\ scopes' = r[2]
    /\ items' = items + 1 /\ last' = class
    /\ body' = (body \/ class \notin {"head", "note", "import", "import!"})

\* one-line declarations of one kind may follow each other directly
Close(class) == class = last /\ class \in {"import", "var", "const", "type", "func"}
\* imports come first; gofmt indents comments behind an expression that was
\* continued on an indented line
Fits(v) == /\ body => v[1] \notin {"import", "import!"}
           /\ last = "var>" => v[2][1][1] \notin {"Comment", "InnerComment"}

Choices(S) == IF Random THEN {RandomElement(S)} ELSE S

Init == /\ pieces = <<>> /\ line = 1 /\ scopes = <<>> /\ items = 0 /\ last = "" /\ body = FALSE
Next == IF items = 0 THEN \E h \in Choices(Heads) : Add(h, "head")
        ELSE /\ items <= MaxItems
             /\ \E v \in Choices({<<x[1], <<Blank>> \o x[2]>> : x \in {y \in Variants : Fits(y)}}
                               \cup {x \in Decls : Fits(x) /\ Close(x[1]) /\ Len(x[2]) = 1}) : Add(v[2], v[1])
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Design properties.                                                      *)
(***************************************************************************)
\* scopes are in order of their lines, and begin at or behind the first line
Ordered == \A k \in 1 .. Len(scopes) :
             /\ scopes[k][2] >= 1 /\ scopes[k][2] < line
             /\ k > 1 => scopes[k - 1][2] <= scopes[k][2]
\* the first piece begins a scope: nothing is left out
Covers  == pieces = <<>> \/ pieces[1][1] # ""
\* there is one package clause
OnePkg  == items = 0 \/ Cardinality({k \in 1 .. Len(scopes) : scopes[k][1] = "Package"}) = 1
\* a scope declares something only if it is a func or a type
Asks    == \A k \in 1 .. Len(scopes) : scopes[k][3] # None => scopes[k][1] \in {"Func", "Type"}

Emit == items <= MaxItems \/ PrintT(ToString(<<pieces, scopes>>))
=============================================================================
