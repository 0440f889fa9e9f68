-------------------------------- MODULE Tall --------------------------------
(***************************************************************************)
(* Files of tens of thousands of lines or scopes.  Doc builds files line   *)
(* by line; here a file is a sequence of blocks                            *)
(*                                                                         *)
(*     [kind, head, body, foot, rest, end, ask, n, copies]                 *)
(*                                                                         *)
(* each of them a scope of that kind: the lines head, n times the lines    *)
(* body, the lines foot, n times the lines rest, the lines end; all that   *)
(* copies times.  Lines with `//line` keep to the margin, whatever they    *)
(* stand in.  What Doc says scope by scope is said here in runs            *)
(* <<kind, line, stride, copies, ask>>: the k-th scope of the run begins   *)
(* at line + (k - 1) * stride.  With small sizes TLC compares the runs     *)
(* with the scopes counted one by one (Agrees).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sizes,     \* how often bodies and scopes are repeated
          Depths,    \* how often bodies that nest are
          MaxBlocks,
          MaxLines   \* of a file
VARIABLES blocks, line, runs, over
vars == <<blocks, line, runs, over>>

None == <<"", "", "", "", "", "">>
D(kind, head, body, foot, rest, end, ask) ==
    [kind |-> kind, head |-> head, body |-> body, foot |-> foot, rest |-> rest, end |-> end, ask |-> ask, n |-> 1, copies |-> 1]
S(kind, head, body, foot, ask) == D(kind, head, body, foot, <<>>, <<>>, ask)
Mark == "//line x.y"

Shapes == {
  S("Import",       <<"import (">>, <<"\t\"fmt\"", "">>, <<"\t\"os\"", ")", "">>, None),
  S("Import",       <<"import \"fmt\"">>, <<>>, <<>>, None),
  S("Variable",     <<"var v = 1">>, <<>>, <<>>, None),
  S("Variable",     <<"var (">>, <<"\ta = 1", "">>, <<"\tb = 1", ")", "">>, None),
  S("Variable",     <<"var s = `">>, <<"func f() {">>, <<"`", "">>, None),
  S("Variable",     <<"var s = []T{">>, <<"\t{1, \"}\", '{'}, // {">>, <<"}", "">>, None),
  S("Const",        <<"const c = 1">>, <<>>, <<>>, None),
  S("Const",        <<"const (">>, <<"\tA = iota">>, <<")", "">>, None),
  S("Type",         <<"type T int">>, <<>>, <<>>, <<"T", "", "", "", "", "">>),
  S("Type",         <<"type S struct {">>, <<"\tf int">>, <<"}", "">>, <<"S", "S", "", "", "", "">>),
  S("Type",         <<"type S struct {", "\tg struct {">>, <<"\t\tf func(int)">>, <<"\t}", "}", "">>, <<"S", "S", "", "", "", "">>),
  S("Type",         <<"type I interface {">>, <<"\tM(a int) error", "\t// }">>, <<"}", "">>, <<"I", "", "I", "", "", "">>),
  S("Func",         <<"func f() {}">>, <<>>, <<>>, <<"", "", "", "f", "", "">>),
  S("Func",         <<"func f() {">>, <<"\tx(func() {", "\t\tvar y int", "\t})">>, <<"}", "">>, <<"", "", "", "f", "", "">>),
  S("Func",         <<"func f() {">>, <<"">>, <<"\tx()", "}", "">>, <<"", "", "", "f", "", "">>),
  S("Func",         <<"func (t *T) M(">>, <<"\ta int,">>, <<"\tb int,", ") {", "}", "">>, <<"", "", "", "M", "M", "*T">>),
  S("Func",         <<"func (t T) M(a int) string { return `{` }">>, <<>>, <<>>, <<"", "", "", "M", "M", "T">>),
  D("Func",         <<"func f() {">>, <<"if x {", Mark>>, <<"y()">>, <<"}", Mark>>, <<"}", "">>, <<"", "", "", "f", "", "">>),
  D("Variable",     <<"var x = []T{">>, <<"{ // {", Mark>>, <<"1,">>, <<"},", Mark>>, <<"}", "">>, None),
  D("Type",         <<"type S struct {">>, <<"a struct {", Mark>>, <<"b int">>, <<"}", Mark>>, <<"}", "">>, <<"S", "S", "", "", "", "">>),
  S("Comment",      <<"// func f() {">>, <<>>, <<>>, None),
  S("InnerComment", <<"/* x">>, <<"type X struct {">>, <<"*/">>, None),
  S("InnerComment", <<"/* x */">>, <<>>, <<"">>, None) }

Lines(b) == Len(b.head) + b.n * (Len(b.body) + Len(b.rest)) + Len(b.foot) + Len(b.end)
Run(b)   == <<b.kind, line, Lines(b), b.copies, b.ask>>

First == S("Package", <<"package p">>, <<>>, <<"">>, None)

Init == blocks = <<First>> /\ line = 3 /\ runs = <<<<"Package", 1, 2, 1, None>>>> /\ over = FALSE
\* imports come first
Imported(b) == b.kind = "Import" => \A k \in 2 .. Len(blocks) : blocks[k].kind = "Import"
Add(b) == /\ blocks' = Append(blocks, b)
          /\ runs' = Append(runs, Run(b))
          /\ line' = line + b.copies * Lines(b)
          /\ over' = FALSE
\* repeated within, or as a whole, or both a little
Sized(s) == {[s EXCEPT !.n = k] : k \in IF s.rest = <<>> THEN Sizes ELSE Depths} \cup {[s EXCEPT !.copies = k] : k \in Sizes} \cup {[s EXCEPT !.n = 7, !.copies = 9]}
Next == \/ /\ ~over /\ Len(blocks) <= MaxBlocks
           /\ \E s \in Shapes : Imported(s) /\ \E b \in Sized(s) : line + b.copies * Lines(b) <= MaxLines /\ Add(b)
        \/ ~over /\ Len(blocks) > MaxBlocks /\ over' = TRUE /\ UNCHANGED <<blocks, line, runs>>
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Design properties.                                                      *)
(***************************************************************************)
\* runs follow one another without a gap
Ordered == \A k \in 1 .. Len(runs) : runs[k][2] + runs[k][3] * runs[k][4] = (IF k = Len(runs) THEN line ELSE runs[k + 1][2])
\* counted one by one
RECURSIVE Times(_, _), Text(_), Unrolled(_, _, _), Said(_)
Times(s, k) == IF k = 0 THEN <<>> ELSE s \o Times(s, k - 1)
Text(b) == b.head \o Times(b.body, b.n) \o b.foot \o Times(b.rest, b.n) \o b.end
Unrolled(bs, ln, acc) ==
    IF bs = <<>> THEN acc
    ELSE LET b == Head(bs) IN
         IF b.copies = 0 THEN Unrolled(Tail(bs), ln, acc)
         ELSE Unrolled(<<[b EXCEPT !.copies = @ - 1]>> \o Tail(bs), ln + Len(Text(b)), Append(acc, <<b.kind, ln, b.ask>>))
Said(rs) == IF rs = <<>> THEN <<>>
            ELSE [k \in 1 .. Head(rs)[4] |-> <<Head(rs)[1], Head(rs)[2] + (k - 1) * Head(rs)[3], Head(rs)[5]>>] \o Said(Tail(rs))
Agrees == (\E k \in Sizes : k > 20) \/ Said(runs) = Unrolled(blocks, 1, <<>>)

Emit == ~over \/ PrintT(ToString(<<[k \in 1 .. Len(blocks) |-> <<blocks[k].head, blocks[k].body, blocks[k].foot, blocks[k].n, blocks[k].copies, blocks[k].rest, blocks[k].end>>], runs>>))
=============================================================================
