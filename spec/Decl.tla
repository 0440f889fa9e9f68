-------------------------------- MODULE Decl --------------------------------
(***************************************************************************)
(* Declarations of funcs and types, derived step by step from a grammar,   *)
(* together with the role every word of them plays.  A state is a stack of *)
(* symbols still to be derived and the tokens derived so far; a step       *)
(* replaces the top of the stack by one of its productions.  A finished    *)
(* derivation is printed; the driver fills in names (injectively), formats *)
(* the text, parses it with the code and compares the role of every word.  *)
(*                                                                         *)
(* Tokens are <<text, role>>.  Roles:                                      *)
(*   FN  name of a func or method     TN  name of a type                   *)
(*   PN  name of a param, result or field     PT  (part of) its type       *)
(*   bt  the same, a basic type       RN, RT  name and type of a receiver  *)
(*   k   anything without a role      dc  not judged   sp  white space     *)
(*   cm  a comment                   re  the end of a field or method       *)
(* Texts that begin with $ are filled in by the driver.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Fuel,       \* how many productions may be derived that grow the text
          Comments,   \* are comments derived, too?
          Spots,      \* is one comment put between any two tokens?
          Roots       \* nonterminals to start with

T(text, role) == <<"t", text, role>>
N(name)       == <<"n", name, "">>
K(text)       == T(text, "k")
EL(text)      == T(text, "el")   \* part of an element of an interface that is no method
DC(text)      == T(text, "dc")
Sp            == T(" ", "sp")
NL            == T("\n", "sp")
RE            == T("\n", "re")   \* the end of a row: a semicolon would do

VARIABLES root, stack, out, fuel, spot
vars == <<root, stack, out, fuel, spot>>

Commas(s) == \* joins symbol sequences with ", "
    LET RECURSIVE J(_)
        J(k) == IF k = Len(s) THEN s[k] ELSE s[k] \o <<K(","), Sp>> \o J(k + 1)
    IN IF s = <<>> THEN <<>> ELSE J(1)

(***************************************************************************)
(* Productions: sequences of symbols.  Grow are the ones that cost fuel.   *)
(***************************************************************************)
Cm == IF Comments THEN {<<>>, <<N("comment")>>} ELSE {<<>>}

Entry(sym) == {c \o <<sym>> : c \in Cm}

\* type parameters whose constraints have brackets of their own
Constrained ==
    {<<K("["), DC("$k"), Sp, DC("[]$k"), DC(","), Sp, DC("$k"), Sp, DC("any"), K("]")>>,
     <<K("["), NL, DC("$k"), Sp, DC("any"), DC(","), NL, DC("$k"), DC(","), Sp, DC("$k"), Sp, DC("~int"), Sp, DC("|"), Sp, DC("$k"), DC(","), NL, K("]")>>,
     <<K("["), DC("$k"), Sp, DC("~[]$k"), DC(","), Sp, DC("$k"), Sp, DC("comparable"), K("]")>>,
     <<K("["), DC("$k"), Sp, DC("map[$k][]$k"), K("]")>>,
     <<K("["), DC("$k"), Sp, DC("interface{ ~[]$k }"), DC(","), Sp, DC("$k"), Sp, DC("func($k) [2]$k"), K("]")>>,
     <<K("["), DC("$k"), Sp, DC("interface"), Sp, DC("{"), NL, DC("$k($k)"), Sp, DC("$k"), NL, DC("}"), K("]")>>,
     <<K("["), DC("$k"), Sp, DC("$k[$k]"), DC(","), Sp, DC("$k"), Sp, DC("*$k"), DC(","), Sp, DC("$k"), Sp, DC("any"), K("]")>>}

Small(name) ==
    CASE name = "comment" -> {<<T("/* c */", "cm"), Sp>>, <<T("/* f(a T, b *U) */", "cm"), Sp>>}
      [] name = "type"    -> {<<T("$t", "PT")>>, <<T("$b", "bt")>>}
      \* what follows chan: a type that does not begin with an arrow
      [] name = "elem"    -> {<<T("$t", "PT")>>, <<T("$b", "bt")>>}
      [] name = "result"  -> {<<>>, <<Sp, T("$t", "PT")>>, <<Sp, T("$b", "bt")>>}
      [] name = "params"  -> {<<K("("), K(")")>>}
      \* a result list; one result without a name has no parentheses
      [] name = "results" -> {<<K("("), T("$t", "PT"), K(","), Sp, T("$b", "bt"), K(")")>>,
                              <<K("("), T("$n", "PN"), Sp, T("$b", "bt"), K(")")>>}
      [] name = "group"   -> {<<T("$n", "PN"), Sp, T("$t", "PT")>>, <<T("$n", "PN"), Sp, T("$b", "bt")>>}
      [] name = "tparams" -> {<<>>}
      [] name = "body"    -> {<<Sp, K("{"), K("}")>>}
      [] name = "fields"  -> {<<>>}
      [] name = "methods" -> {<<>>}
      [] name = "def"     -> {<<T("$t", "PT")>>, <<T("$b", "bt")>>}
      [] name = "func"    -> {<<K("func"), Sp, T("$f", "FN"), N("tp0"), N("params"), N("result"), N("body"), NL>>}
      [] name = "method"  -> {<<K("func"), Sp, N("recv"), T("$f", "FN"), N("params"), N("result"), N("body"), NL>>}
      [] name = "typedecl" -> {<<K("type"), Sp, T("$T", "TN"), N("tparams"), Sp, N("def"), NL>>,
                               <<K("type"), Sp, T("$T", "TN"), Sp, K("="), Sp, N("def"), NL>>}
      [] name = "struct"  -> {<<K("type"), Sp, T("$T", "TN"), N("tparams"), Sp, K("struct"), Sp, K("{"), NL, N("fields"), K("}"), NL>>,
                               <<K("type"), Sp, T("$T", "TN"), Sp, K("="), Sp, K("struct"), Sp, K("{"), NL, N("fields"), K("}"), NL>>}
      [] name = "interface" -> {<<K("type"), Sp, T("$T", "TN"), N("tparams"), Sp, K("interface"), Sp, K("{"), NL, N("methods"), K("}"), NL>>,
                                  <<K("type"), Sp, T("$T", "TN"), Sp, K("interface"), K("{"), K("}"), NL>>}
      [] name = "recv"    -> {<<K("("), T("$r", "RN"), Sp, T("*$R", "RT"), K(")"), Sp>>}
      [] name = "tp0"     -> {<<>>}

Grow(name) ==
    CASE name = "type" ->
           {<<K("["), K("]"), N("type")>>,
            <<K("["), DC("4"), K("]"), N("type")>>,
            <<K("map"), K("["), DC("$k"), K("]"), N("type")>>,
            <<K("chan"), Sp, N("elem")>>,
            <<DC("<-chan"), Sp, N("type")>>,
            <<K("func"), N("params"), N("result")>>,
            <<DC("interface"), DC("{"), DC("}")>>,
            <<DC("struct"), DC("{"), DC("}")>>,
            <<T("$t", "PT"), K("["), DC("$k"), K("]")>>,
            <<T("$t", "PT"), K("["), DC("$k"), DC(","), Sp, DC("[]$k"), K("]")>>,
            <<DC("*"), K("["), K("]"), N("type")>>,
            <<DC("chan<-"), Sp, N("elem")>>,
            <<K("chan"), Sp, K("("), DC("<-chan"), Sp, T("$t", "PT"), K(")")>>,
            <<K("["), DC("$k"), K("]"), N("type")>>,
            <<K("map"), K("["), DC("[2]$k"), K("]"), N("type")>>,
            <<T("$t", "PT"), K("["), DC("$k[map[$k][]$k]"), K("]")>>,
            <<T("$t", "PT"), K("["), DC("func($k, $k) $k"), K("]")>>,
            <<DC("struct"), DC("{"), Sp, DC("$k"), DC(","), Sp, DC("$k"), Sp, DC("$k"), Sp, DC("}")>>,
            <<DC("*struct"), Sp, DC("{"), NL, DC("$k"), Sp, DC("func($k)"), NL, DC("}")>>,
            <<DC("interface"), DC("{"), Sp, DC("$k($k)"), Sp, DC("$k"), Sp, DC("}")>>}
      [] name = "elem" ->
           {<<K("["), K("]"), N("type")>>,
            <<K("map"), K("["), DC("$k"), K("]"), N("type")>>,
            <<K("chan"), Sp, N("elem")>>,
            <<DC("struct"), DC("{"), DC("}")>>,
            <<T("$t", "PT"), K("["), DC("$k"), K("]")>>,
            <<K("func"), N("params"), N("result")>>}
      [] name = "result" ->
           {<<Sp, N("results")>>,
            <<Sp, DC("*"), DC("["), DC("]"), T("$t", "PT")>>,
            <<Sp, DC("["), DC("4"), DC("]"), T("$t", "PT")>>,
            <<Sp, DC("chan"), Sp, DC("$k")>>,
            <<Sp, DC("<-chan"), Sp, DC("$k")>>,
            <<Sp, DC("interface"), DC("{"), DC("}")>>,
            <<Sp, DC("struct"), DC("{"), DC("}")>>,
            <<Sp, DC("interface"), DC("{"), Sp, DC("$k($k)"), Sp, DC("}")>>,
            <<Sp, DC("map"), DC("["), DC("$k"), DC("]"), DC("func($k)"), Sp, DC("$k")>>,
            <<Sp, DC("["), DC("]"), T("$t", "PT")>>,
            <<Sp, DC("map"), DC("["), DC("$k"), DC("]"), T("$t", "PT")>>,
            <<Sp, T("$t", "PT"), DC("["), DC("$k"), DC("]")>>,
            <<Sp, K("func"), N("params"), N("result")>>}
      [] name = "params" ->
           {<<K("(")>> \o c \o <<N("type")>> \o m \o <<K(")")>>
              : c \in Cm, m \in {<<>>, <<K(","), Sp, N("type")>>, <<K(","), Sp, N("type"), K(","), Sp, N("type")>>}}
           \cup {<<K("(")>> \o c \o <<N("group")>> \o m \o <<K(")")>>
              : c \in Cm, m \in {<<>>, <<K(","), Sp, N("group")>>, <<K(","), Sp, N("group"), K(","), Sp, N("group")>>}}
           \* one entry per line
           \cup {<<K("("), NL, N("type"), K(","), NL, N("type"), K(","), NL, K(")")>>,
                 <<K("("), NL, N("group"), K(","), NL, N("group"), K(","), NL, K(")")>>,
                 <<K("("), N("group"), K(","), NL, N("group"), K(")")>>}
           \cup (IF Comments THEN
                {<<K("("), NL, N("type"), K(","), Sp, T("// c d, e", "cm"), NL, T("// f(a T)", "cm"), NL, N("type"), K(","), Sp, T("/* g\n h */", "cm"), NL, K(")")>>,
                 <<K("("), NL, N("group"), K(","), Sp, T("// c d, e", "cm"), NL, N("group"), K(","), NL, T("// f(a T)", "cm"), NL, K(")")>>,
                 <<K("("), Sp, T("// c d, e", "cm"), NL, N("group"), K(","), NL, T("/* g\n h */", "cm"), NL, N("group"), K(","), NL, K(")")>>}
                ELSE {})
           \cup {<<K("("), T("...$t", "PT"), K(")")>>,
                 <<K("("), N("type"), K(","), Sp, T("...$t", "PT"), K(")")>>,
                 <<K("("), N("group"), K(","), Sp, T("$n", "PN"), Sp, T("...$t", "PT"), K(")")>>,
                 <<K("("), T("$n", "PN"), Sp, T("...", "dc"), K("["), K("]"), T("$t", "PT"), K(")")>>,
                 <<K("("), T("$n", "PN"), Sp, DC("..."), N("type"), K(")")>>,
                 <<K("("), DC("..."), N("type"), K(")")>>}
      [] name = "results" ->
           {<<K("(")>> \o c \o <<N("type"), K(","), Sp, N("type")>> \o m \o <<K(")")>>
              : c \in Cm, m \in {<<>>, <<K(","), Sp, N("type")>>}}
           \cup {<<K("("), N("group"), K(")")>>, <<K("("), N("group"), K(","), Sp, N("group"), K(")")>>}
      [] name = "group" ->
           {<<T("$n", "PN"), Sp>> \o c \o <<N("type")>> : c \in Cm}
           \cup {<<T("$n", "PN"), K(","), Sp, T("$n", "PN"), Sp, N("type")>>,
                 <<T("$n", "PN"), K(","), Sp, T("$n", "PN"), K(","), Sp, T("$n", "PN"), Sp, N("type")>>}
      [] name = "tparams" ->
           {<<K("["), DC("$k"), Sp, DC("any"), K("]")>>,
            <<K("["), DC("$k"), DC(","), Sp, DC("$k"), Sp, DC("~int"), Sp, DC("|"), Sp, DC("~string"), K("]")>>}
           \cup Constrained
      [] name = "tp0" -> {<<K("["), DC("$k"), Sp, DC("any"), K("]")>>} \cup Constrained
      [] name = "recv" ->
           {<<K("("), T("$r", "RN"), Sp, T("$R", "RT"), K(")"), Sp>>,
            <<K("("), T("$R", "RT"), K(")"), Sp>>,
            <<K("("), T("*$R", "RT"), K(")"), Sp>>,
            <<K("("), T("$r", "RN"), Sp, T("*$R", "RT"), K("["), DC("$k"), K("]"), K(")"), Sp>>,
            <<K("("), T("$r", "RN"), Sp, T("$R", "RT"), K("["), DC("$k"), DC(","), Sp, DC("$k"), K("]"), K(")"), Sp>>,
            <<K("("), T("$R", "RT"), K("["), DC("$k"), K("]"), K(")"), Sp>>,
            <<K("("), NL, T("$r", "RN"), Sp, T("*$R", "RT"), K(","), NL, K(")"), Sp>>,
            <<K("("), NL, T("$R", "RT"), K("["), DC("$k"), K("]"), K(","), NL, K(")"), Sp>>,
            <<K("("), T("*$R", "RT"), K("["), DC("_"), K("]"), K(")"), Sp>>}
      [] name = "body" ->
           {<<Sp, K("{"), NL, K("return"), Sp, K("$e"), K("("), K("$e"), K(","), Sp, K("$e"), K(")"), NL, K("}")>>,
            <<Sp, K("{"), NL, K("var"), Sp, K("$e"), Sp, K("func"), K("("), K("$e"), Sp, K("$e"), K(")"), Sp, K("$e"), NL, K("}")>>,
            <<Sp, K("{"), NL, K("type"), Sp, K("$e"), Sp, K("struct"), K("{"), NL, K("$e"), Sp, K("$e"), NL, K("}"), NL, K("}")>>,
            <<Sp, K("{"), NL, K("$e"), Sp, K(":="), Sp, K("func"), K("("), K("$e"), K(","), Sp, K("$e"), Sp, K("*$e"), K(")"), Sp, K("{"), NL, K("}"),
              NL, K("if"), Sp, K("$e"), Sp, K("{"), NL, K("}"), NL, K("}")>>,
            <<>>}
      [] name = "fields" ->
           {<<T("$n", "PN"), Sp, N("type"), RE, N("fields")>>,
            <<T("$n", "PN"), K(","), Sp, T("$n", "PN"), Sp, N("type"), RE, N("fields")>>,
            <<T("$n", "PN"), Sp, N("type"), Sp, K("`json:\"a b\"`"), RE, N("fields")>>,
            <<T("$b", "bt"), RE, N("fields")>>,
            <<T("$b", "bt"), Sp, K("`json:\"a b\"`"), RE, N("fields")>>,
            <<T("$m", "PT"), RE, N("fields")>>,
            <<T("$m", "PT"), Sp, K("`json:\"a b\"`"), RE, N("fields")>>,
            <<T("$m", "PT"), K("["), DC("$k"), K("]"), RE, N("fields")>>,
            <<T("$m", "PT"), K("["), DC("$k"), DC(","), Sp, DC("[]$k"), K("]"), Sp, K("\"tag\""), RE, N("fields")>>,
            <<T("$n", "PN"), K(","), Sp, T("$n", "PN"), K(","), Sp, T("$n", "PN"), Sp, N("type"), Sp, K("`t`"), RE, N("fields")>>,
            <<NL, N("fields")>>,
            <<T("$n", "PN"), Sp, DC("[]struct"), Sp, K("{"), NL, DC("$k"), Sp, DC("$k"), NL, K("}"), Sp, K("`x:\"y\"`"), RE, N("fields")>>,
            <<T("$n", "PN"), K(","), Sp, T("$n", "PN"), Sp, DC("interface"), Sp, DC("{"), NL, DC("$k($k)"), Sp, DC("$k"), NL, DC("}"), RE, N("fields")>>,
            <<T("$n", "PN"), Sp, K("func"), N("params"), N("result"), RE, N("fields")>>,
            <<T("$n", "PN"), Sp, K("struct"), Sp, K("{"), NL, N("fields"), K("}"), RE, N("fields")>>}
           \cup (IF Comments THEN {<<T("// c d", "cm"), NL, N("fields")>>,
                                   <<T("$n", "PN"), Sp, N("type"), Sp, T("// $n int", "cm"), NL, N("fields")>>,
                                   <<T("$m", "PT"), Sp, T("// $n int", "cm"), NL, N("fields")>>,
                                   <<T("$n", "PN"), Sp, N("type"), Sp, K("`k`"), Sp, T("// $n int", "cm"), NL, N("fields")>>,
                                   <<T("/* x\n y */", "cm"), NL, N("fields")>>,
                                   <<T("/* x */", "cm"), Sp, T("$n", "PN"), Sp, N("type"), RE, N("fields")>>}
                 ELSE {})
      [] name = "methods" ->
           {<<T("$f", "FN"), N("params"), N("result"), RE, N("methods")>>,
            <<T("$i", "TN"), RE, N("methods")>>,
            <<T("$i", "TN"), K("["), DC("$k"), K("]"), RE, N("methods")>>,
            <<T("$b", "bt"), RE, N("methods")>>,
            <<EL("$i"), Sp, DC("|"), Sp, EL("$i"), RE, N("methods")>>,
            <<EL("~int"), Sp, DC("|"), Sp, EL("~[]$k"), RE, N("methods")>>,
            \* elements with brackets are no methods
            <<T("$i", "TN"), K("["), EL("func($k) $k"), K("]"), RE, N("methods")>>,
            <<T("$i", "TN"), K("["), EL("$k"), DC(","), Sp, EL("func()"), K("]"), RE, N("methods")>>,
            <<EL("$b"), Sp, DC("|"), Sp, EL("func"), DC("("), EL("$k"), DC(")"), Sp, EL("$k"), RE, N("methods")>>,
            <<EL("[]func($k)"), Sp, DC("|"), Sp, EL("$i"), Sp, DC("|"), Sp, EL("chan"), Sp, EL("func()"), RE, N("methods")>>,
            <<EL("~map[$k]func($k) $k"), RE, N("methods")>>,
            <<EL("interface"), DC("{"), Sp, DC("$k($k)"), Sp, DC("$k"), Sp, DC("}"), RE, N("methods")>>,
            <<EL("interface"), Sp, DC("{"), NL, DC("$k($k)"), Sp, DC("$k"), NL, DC("}"), RE, N("methods")>>,
            <<EL("interface"), DC("{"), DC("}"), RE, N("methods")>>,
            <<NL, N("methods")>>}
           \cup (IF Comments THEN {<<T("// c d()", "cm"), NL, N("methods")>>,
                                   <<T("$f", "FN"), N("params"), N("result"), Sp, T("// $n int", "cm"), NL, N("methods")>>}
                 ELSE {})
      [] name = "def" ->
           {<<K("["), K("]"), N("type")>>, <<K("map"), K("["), DC("$k"), K("]"), T("$t", "PT")>>,
            <<K("func"), N("params"), N("result")>>, <<K("chan"), Sp, T("$t", "PT")>>,
            <<T("$t", "PT"), DC("["), DC("$k"), DC("]")>>,
            <<DC("*$k")>>, <<DC("["), DC("$k"), DC("]"), N("type")>>, <<DC("["), DC("4"), DC("]"), DC("struct{}")>>,
            <<DC("<-chan"), Sp, DC("$k")>>, <<DC("chan<-"), Sp, DC("struct{}")>>, <<DC("[]"), DC("struct"), Sp, DC("{"), NL, DC("$k"), Sp, DC("$k"), NL, DC("}")>>,
            <<DC("map[$k]struct{}")>>, <<DC("map[$k]interface{ $k() }")>>, <<DC("*struct{}")>>, <<DC("("), DC("$k"), DC(")")>>,
            <<DC("func($k struct{})"), Sp, DC("interface{}")>>, <<DC("chan"), Sp, DC("interface{}")>>}
      [] name = "struct" ->
           {<<K("type"), Sp, T("$T", "TN"), N("tparams"), Sp, K("struct"), K("{"), Sp, T("$n", "PN"), K(","), Sp, T("$n", "PN"), Sp, N("type"), Sp, K("}"), NL>>,
            <<K("type"), Sp, T("$T", "TN"), N("tparams"), Sp, K("struct"), K("{"), Sp, T("$n", "PN"), Sp, N("type"), Sp, K("}"), NL>>,
            <<K("type"), Sp, T("$T", "TN"), N("tparams"), Sp, K("struct"), K("{"), Sp, T("$m", "PT"), Sp, K("}"), NL>>,
            <<K("type"), Sp, T("$T", "TN"), N("tparams"), Sp, K("struct"), K("{"), Sp, T("$b", "bt"), Sp, K("}"), NL>>,
            <<K("type"), Sp, T("$T", "TN"), K("["), DC("$k"), Sp, DC("any"), K("]"), Sp, K("="), Sp, K("struct"), K("{"), K("}"), NL>>}
      [] name = "interface" ->
           {<<K("type"), Sp, T("$T", "TN"), N("tparams"), Sp, K("interface"), K("{"), Sp, T("$f", "FN"), N("params"), N("result"), Sp, K("}"), NL>>,
            <<K("type"), Sp, T("$T", "TN"), N("tparams"), Sp, K("interface"), K("{"), Sp, T("$i", "TN"), Sp, K("}"), NL>>,
            <<K("type"), Sp, T("$T", "TN"), Sp, K("="), Sp, K("interface"), Sp, K("{"), NL, N("methods"), K("}"), NL>>,
            <<K("type"), Sp, T("$T", "TN"), Sp, K("interface"), K("{"), Sp, EL("~int"), Sp, DC("|"), Sp, EL("~string"), Sp, K("}"), NL>>,
            <<K("type"), Sp, T("$T", "TN"), Sp, K("interface"), K("{"), Sp, EL("$i"), Sp, DC("|"), Sp, EL("func()"), Sp, K("}"), NL>>,
            <<K("type"), Sp, T("$T", "TN"), Sp, K("interface"), K("{"), Sp, T("$i", "TN"), K("["), EL("func()"), K("]"), Sp, K("}"), NL>>}
      [] OTHER -> {}

Expand(name) ==
    LET rest == Tail(stack) IN
    \/ \E p \in Small(name) : stack' = p \o rest /\ fuel' = fuel
    \/ fuel > 0 /\ \E p \in Grow(name) : stack' = p \o rest /\ fuel' = fuel - 1

RECURSIVE Lead(_)
Lead(s) == IF s = <<>> \/ Head(s)[1] = "n" THEN <<>> ELSE <<Head(s)>> \o Lead(Tail(s))

\* terminals are moved to the output all at once
\* s with a comment before its j-th token
Spotted(s, j) == SubSeq(s, 1, j - 1) \o <<<<"/* c d */", "cm">>>> \o SubSeq(s, j, Len(s))

Init == /\ root \in Roots /\ stack = <<N(root)>> /\ out = <<>> /\ fuel = Fuel /\ spot = Spots
Next == /\ stack # <<>>
        /\ LET l == Lead(stack) IN
           IF l # <<>>
             THEN /\ LET s == [k \in 1 .. Len(l) |-> <<l[k][2], l[k][3]>>] IN
                     \/ out' = out \o s /\ spot' = spot
                     \/ /\ spot
                        /\ \E j \in 1 .. Len(s) : (out # <<>> \/ j > 1) /\ out' = out \o Spotted(s, j)
                        /\ spot' = FALSE
                  /\ stack' = SubSeq(stack, Len(l) + 1, Len(stack))
                  /\ fuel' = fuel
             ELSE out' = out /\ spot' = spot /\ Expand(Head(stack)[2])
        /\ root' = root
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Design properties of a finished derivation.                             *)
(***************************************************************************)
Done == stack = <<>>
Count(role) == Cardinality({k \in 1 .. Len(out) : out[k][2] = role})
RECURSIVE Balance(_, _)
Balance(k, d) == IF k > Len(out) THEN d = 0
                 ELSE IF d < 0 THEN FALSE
                 ELSE Balance(k + 1, d + (CASE out[k][1] \in {"(", "[", "{"} -> 1
                                            [] out[k][1] \in {")", "]", "}"} -> -1 [] OTHER -> 0))
Balanced  == Done => Balance(1, 0)
OneName   == Done => IF root \in {"func", "method"}
                        THEN /\ Count("FN") = 1 /\ Count("TN") = 0
                             /\ Count("RT") = (IF root = "method" THEN 1 ELSE 0) /\ Count("RN") <= Count("RT")
                        ELSE Count("TN") >= 1 /\ Count("RT") = 0
Emit      == ~Done \/ PrintT(ToString(<<root, out>>))
=============================================================================
