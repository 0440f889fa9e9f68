-------------------------------- MODULE Wide --------------------------------
(***************************************************************************)
(* Declarations that are wide or deep: lists of thousands of params,       *)
(* results, fields, methods or type parameters, bodies of thousands of     *)
(* lines, types nested some hundred levels.  A declaration is              *)
(*                                                                         *)
(*     frame.head  open^n  mid  close^n  frame.tail                        *)
(*                                                                         *)
(* where open is a sequence of units of one list.  The tokens and their    *)
(* roles are those of Decl; what role a word has does not depend on how    *)
(* many came before it, which is what this module is to show.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Width,   \* how many units are repeated together
          Lists,   \* how often a unit of a list is repeated
          Nests    \* how often one that nests

T(text, role) == <<text, role>>
K(text)       == T(text, "k")
DC(text)      == T(text, "dc")
EL(text)      == T(text, "el")
Sp            == T(" ", "sp")
NL            == T("\n", "sp")
RE            == T("\n", "re")
Comma         == <<K(","), Sp>>

VARIABLES frame, open, mid, close
vars == <<frame, open, mid, close>>

FuncHead == <<K("func"), Sp, T("$f", "FN")>>
MethHead == <<K("func"), Sp, K("("), T("$r", "RN"), Sp, T("*$R", "RT"), K(")"), Sp, T("$f", "FN")>>
TypeHead == <<K("type"), Sp, T("$T", "TN")>>
Body     == <<Sp, K("{"), NL, K("return"), NL, K("}"), NL>>
Result   == <<Sp, T("$t", "PT")>>
F(root, class, h, t) == [root |-> root, class |-> class, head |-> h, tail |-> t]

Frames ==
  UNION {
    {F(h[1], "named", h[2] \o <<K("(")>>, <<K(")")>> \o r \o Body) : h \in {<<"func", FuncHead>>, <<"method", MethHead>>}, r \in {<<>>, Result}},
    {F("func", "typed", FuncHead \o <<K("(")>>, <<K(")")>> \o Result \o Body)},
    {F("func", "result", FuncHead \o <<K("("), K(")"), Sp, K("(")>>, <<K(")")>> \o Body)},
    {F("method", "typed", MethHead \o <<K("("), K(")"), Sp, K("(")>>, <<K(")")>> \o Body)},
    {F("func", "lines", FuncHead \o <<K("("), NL>>, <<K(")")>> \o Result \o Body)},
    {F("func", "tparam", FuncHead \o <<K("[")>>, <<K("]"), K("("), T("$n", "PN"), Sp, T("$t", "PT"), K(")")>> \o Result \o Body)},
    {F("struct", "tparam", TypeHead \o <<K("[")>>, <<K("]"), Sp, K("struct"), Sp, K("{"), NL, T("$n", "PN"), Sp, T("$t", "PT"), NL, K("}"), NL>>)},
    {F("struct", "field", TypeHead \o <<Sp, K("struct"), Sp, K("{"), NL>>, <<K("}"), NL>>)},
    {F("struct", "row", TypeHead \o <<Sp, K("struct"), Sp, K("{"), NL>> \o pre, post \o <<NL, T("$n", "PN"), Sp, T("$t", "PT"), NL, K("}"), NL>>)
        : pre \in {<<>>, <<T("$m", "PT"), NL>>}, post \in {<<>>, <<Sp, K("`a:\"b c\"`")>>, <<Sp, T("// c d", "cm")>>}},
    \* type arguments: of a field, an embedded one, a param, a receiver, an element of an interface
    {F("struct", "args", TypeHead \o <<Sp, K("struct"), Sp, K("{"), NL>> \o pre \o <<K("[")>>, <<K("]"), NL, T("$n", "PN"), Sp, T("$t", "PT"), NL, K("}"), NL>>)
        : pre \in {<<T("$m", "PT")>>, <<T("$n", "PN"), Sp, T("$t", "PT")>>, <<T("$n", "PN"), K(","), Sp, T("$n", "PN"), Sp, T("$t", "PT")>>}},
    {F("func", "args", FuncHead \o <<K("(")>> \o pre \o <<T("$t", "PT"), K("[")>>, <<K("]"), K(")")>> \o Result \o Body) : pre \in {<<>>, <<T("$n", "PN"), Sp>>}},
    {F("method", "args", <<K("func"), Sp, K("(")>> \o pre \o <<K("[")>>, <<K("]"), K(")"), Sp, T("$f", "FN"), K("("), T("$n", "PN"), Sp, T("$t", "PT"), K(")")>> \o Body)
        : pre \in {<<T("$R", "RT")>>, <<T("$r", "RN"), Sp, T("*$R", "RT")>>}},
    {F("interface", "args", TypeHead \o <<Sp, K("interface"), Sp, K("{"), NL, T("$i", "TN"), K("[")>>, <<K("]"), NL, T("$f", "FN"), K("("), T("$t", "PT"), K(")"), NL, K("}"), NL>>)},
    {F("interface", "union", TypeHead \o <<Sp, K("interface"), Sp, K("{"), NL>>, <<NL, T("$f", "FN"), K("("), T("$t", "PT"), K(")"), NL, K("}"), NL>>)},
    {F("interface", "method", TypeHead \o <<Sp, K("interface"), Sp, K("{"), NL>>, <<K("}"), NL>>)},
    {F(h[1], "statement", h[2] \o <<K("("), T("$n", "PN"), Sp, T("$t", "PT"), K(")")>> \o Result \o <<Sp, K("{"), NL>>, <<K("}"), NL>>)
        : h \in {<<"func", FuncHead>>, <<"method", MethHead>>}},
    {F("func", "type", FuncHead \o <<K("("), T("$n", "PN"), Sp>>, <<K(","), Sp, T("$n", "PN"), Sp, T("$t", "PT"), K(")")>> \o Result \o Body)},
    {F("func", "type", FuncHead \o <<K("(")>>, <<K(","), Sp, T("$t", "PT"), K(")")>> \o Body)},
    {F("struct", "type", TypeHead \o <<Sp, K("struct"), Sp, K("{"), NL, T("$n", "PN"), Sp>>, <<NL, T("$n", "PN"), Sp, T("$t", "PT"), NL, K("}"), NL>>)},
    {F("interface", "type", TypeHead \o <<Sp, K("interface"), Sp, K("{"), NL, T("$f", "FN"), K("(")>>, <<K(")"), NL, T("$f", "FN"), K("("), T("$t", "PT"), K(")"), NL, K("}"), NL>>)},
    {F("typedecl", "def", TypeHead \o <<Sp>>, <<NL>>)} }

\* <<open, close>>: what is repeated; close is <<>> for a list
List(s) == <<s, <<>>>>
Units(class) ==
  CASE class \in {"named", "result"} ->
        {List(<<T("$n", "PN"), Sp, T("$t", "PT")>> \o Comma), List(<<T("$n", "PN"), Sp, T("$b", "bt")>> \o Comma), List(<<T("$n", "PN")>> \o Comma),
         List(<<T("$n", "PN"), Sp, K("["), K("]"), T("$t", "PT")>> \o Comma), List(<<T("$n", "PN"), Sp, K("func"), K("("), T("$t", "PT"), K(")")>> \o Comma),
         List(<<T("$n", "PN"), Sp, K("map"), K("["), DC("$k"), K("]"), T("$t", "PT")>> \o Comma), List(<<T("$n", "PN"), Sp, T("$t", "PT"), K("["), DC("$k"), K("]")>> \o Comma)}
    [] class = "typed" ->
        {List(<<T("$t", "PT")>> \o Comma), List(<<T("$b", "bt")>> \o Comma), List(<<K("["), K("]"), T("$t", "PT")>> \o Comma),
         List(<<K("func"), K("("), T("$n", "PN"), Sp, T("$t", "PT"), K(")"), Sp, T("$t", "PT")>> \o Comma), List(<<K("chan"), Sp, T("$t", "PT")>> \o Comma)}
    [] class = "lines" ->
        {List(<<T("$n", "PN"), Sp, T("$t", "PT"), K(","), NL>>), List(<<T("$n", "PN"), K(","), NL>>), List(<<T("$n", "PN"), Sp, T("$b", "bt"), K(","), Sp, T("// c d", "cm"), NL>>),
         List(<<T("// c d,", "cm"), NL>>)}
    [] class = "row"  -> {List(<<T("$n", "PN")>> \o Comma)}
    [] class = "args" -> {List(<<DC("$k")>> \o Comma)}
    [] class = "union" -> {List(<<EL("$i"), Sp, K("|"), Sp>>), List(<<EL("~[]$k"), Sp, K("|"), Sp>>), List(<<EL("func()"), Sp, K("|"), Sp>>)}
    [] class = "tparam" ->
        {List(<<DC("$k"), Sp, DC("any")>> \o Comma), List(<<DC("$k")>> \o Comma), List(<<DC("$k"), Sp, DC("interface{ ~[]$k }")>> \o Comma)}
    [] class = "field" ->
        {List(<<T("$n", "PN"), Sp, T("$t", "PT"), RE>>), List(<<T("$n", "PN"), Sp, T("$b", "bt"), Sp, K("`a:\"b c\"`"), RE>>), List(<<T("$m", "PT"), RE>>), List(<<T("$b", "bt"), RE>>),
         List(<<NL>>), List(<<T("// c d", "cm"), NL>>), List(<<T("$n", "PN"), Sp, K("func"), K("("), T("$n", "PN"), Sp, T("$t", "PT"), K(")"), NL>>),
         List(<<T("$n", "PN"), K(","), Sp, T("$n", "PN"), Sp, K("map"), K("["), DC("$k"), K("]"), T("$t", "PT"), NL>>),
         <<<<T("$n", "PN"), Sp, K("struct"), Sp, K("{"), NL>>, <<K("}"), NL>>>>}
    [] class = "method" ->
        {List(<<T("$f", "FN"), K("("), T("$n", "PN"), Sp, T("$t", "PT"), K(")"), NL>>), List(<<T("$f", "FN"), K("("), K(")"), Sp, T("$t", "PT"), RE>>), List(<<T("$i", "TN"), RE>>), List(<<NL>>),
         List(<<T("$f", "FN"), K("("), T("$t", "PT"), K(")"), Sp, K("("), T("$t", "PT"), K(","), Sp, T("$b", "bt"), K(")"), NL>>), List(<<T("// c d()", "cm"), NL>>)}
    [] class = "statement" ->
        {List(<<K("$e"), K("("), K("$e"), K(","), Sp, K("$e"), K(")"), NL>>), List(<<K("var"), Sp, K("$e"), Sp, K("func"), K("("), K("$e"), Sp, K("$e"), K(")"), Sp, K("$e"), NL>>),
         List(<<K("type"), Sp, K("$e"), Sp, K("struct"), K("{"), NL, K("$e"), Sp, K("$e"), NL, K("}"), NL>>), List(<<NL>>), List(<<T("// func c(d e) {", "cm"), NL>>),
         <<<<K("if"), Sp, K("$e"), Sp, K("{"), NL>>, <<K("}"), NL>>>>, <<<<K("func"), K("("), K("$e"), Sp, K("$e"), K(")"), Sp, K("{"), NL>>, <<K("}"), K("("), K("$e"), K(")"), NL>>>>}
    [] class = "type" ->
        {List(<<K("["), K("]")>>), List(<<K("map"), K("["), DC("$k"), K("]")>>), List(<<K("chan"), Sp>>), List(<<K("["), DC("4"), K("]")>>), List(<<K("func"), K("("), K(")"), Sp>>),
         <<<<K("func"), K("(")>>, <<K(")")>>>>, <<<<K("func"), K("("), T("$t", "PT"), K(","), Sp>>, <<K(")")>>>>, <<<<K("func"), K("("), T("$n", "PN"), Sp>>, <<K(")"), Sp, T("$t", "PT")>>>>,
         <<<<K("func"), K("("), K(")"), Sp, K("("), T("$t", "PT"), K(","), Sp>>, <<K(")")>>>>}
    [] class = "def" ->
        {List(<<K("["), K("]")>>), List(<<K("map"), K("["), DC("$k"), K("]")>>), List(<<K("func"), K("("), T("$t", "PT"), K(")"), Sp>>), <<<<K("func"), K("(")>>, <<K(")")>>>>}

\* what ends the repetition
Mids(class) ==
  CASE class = "result"    -> {<<T("$n", "PN"), Sp, T("$t", "PT")>>}
    [] class = "named"     -> {<<T("$n", "PN"), Sp, T("$t", "PT")>>, <<T("$n", "PN"), Sp, T("...$t", "PT")>>}
    [] class = "typed"     -> {<<T("$t", "PT")>>, <<K("func"), K("("), K(")")>>}
    [] class = "lines"     -> {<<T("$n", "PN"), Sp, T("$t", "PT"), K(","), NL>>}
    [] class = "row"       -> {<<T("$n", "PN"), Sp, T("$t", "PT")>>, <<T("$n", "PN"), Sp, T("$b", "bt")>>, <<T("$n", "PN"), Sp, K("func"), K("("), T("$t", "PT"), K(")")>>}
    [] class = "args"      -> {<<DC("$k")>>}
    [] class = "union"     -> {<<EL("$i")>>, <<EL("~int")>>}
    [] class = "tparam"    -> {<<DC("$k"), Sp, DC("any")>>}
    [] class = "field"     -> {<<T("$n", "PN"), Sp, T("$t", "PT"), NL>>}
    [] class = "method"    -> {<<T("$f", "FN"), K("("), T("$t", "PT"), K(")"), NL>>}
    [] class = "statement" -> {<<K("$e"), K("("), K(")"), NL>>}
    [] class \in {"type", "def"} -> {<<T("$t", "PT")>>, <<T("$b", "bt")>>}

RECURSIVE Front(_), Back(_)
Front(us) == IF us = <<>> THEN <<>> ELSE Head(us)[1] \o Front(Tail(us))
Back(us)  == IF us = <<>> THEN <<>> ELSE Back(Tail(us)) \o Head(us)[2]
Listed    == \A k \in 1 .. Len(open) : open[k][2] = <<>> /\ frame.class \notin {"type", "def"}

\* names that share a type do not share a variadic one
Fits(m)   == m[Len(m)][1] # "...$t" \/ Len(open[Len(open)][1]) > 3

Init == frame \in Frames /\ open = <<>> /\ mid = <<>> /\ close = FALSE
\* a list of funcs that is a result may be one node or many: not repeated in turn
Unit == ~close /\ Len(open) < (IF frame.class = "def" THEN 1 ELSE Width) /\ \E u \in Units(frame.class) : open' = Append(open, u) /\ UNCHANGED <<frame, mid, close>>
End  == ~close /\ open # <<>> /\ \E m \in Mids(frame.class) : Fits(m) /\ mid' = m /\ close' = TRUE /\ UNCHANGED <<frame, open>>
Next == Unit \/ End
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Design properties: a unit and its counterpart are balanced, so any      *)
(* number of them is; and exactly one func or type is declared.            *)
(***************************************************************************)
RECURSIVE Balance(_, _)
Balance(s, d) == IF s = <<>> \/ d < 0 THEN d
                 ELSE Balance(Tail(s), d + (CASE Head(s)[1] \in {"(", "[", "{"} -> 1 [] Head(s)[1] \in {")", "]", "}"} -> -1 [] OTHER -> 0))
Depth(s)  == Balance(s, 0)
Balanced  == LET f == frame.head \o Front(open) IN
             /\ Balance(frame.head \o frame.tail, 0) = 0
             /\ Balance(Front(open) \o mid \o Back(open), 0) = 0
             /\ Balance(frame.head \o Front(open) \o mid \o Back(open) \o frame.tail, 0) = 0
Count(s, role) == Cardinality({k \in 1 .. Len(s) : s[k][2] = role})
OneName   == LET all == frame.head \o Front(open) \o mid \o Back(open) \o frame.tail IN
             IF frame.root \in {"func", "method"}
               THEN Count(all, "FN") = 1 /\ Count(all, "TN") = 0 /\ Count(all, "RT") = (IF frame.root = "method" THEN 1 ELSE 0)
               ELSE Cardinality({k \in 1 .. Len(frame.head) : frame.head[k][1] = "$T"}) = 1 /\ Count(all, "RT") = 0

Emit == ~close \/ PrintT(ToString(<<frame.root, frame.head, Front(open), mid, Back(open), frame.tail, IF Listed THEN Lists ELSE Nests>>))
=============================================================================
