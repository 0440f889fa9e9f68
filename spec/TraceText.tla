----------------------------- MODULE TraceText -----------------------------
(***************************************************************************)
(* Trace specification for ParseScope: every recorded parse (text in,      *)
(* scopes and nodes out) has to be the behaviour of the lexical and scope  *)
(* machines of GoLex.  One initial state per recorded parse, one step per  *)
(* symbol of its text; the machines run along and every observed node      *)
(* boundary, line, kind and scope is compared with theirs.                 *)
(*                                                                         *)
(* A recorded parse:                                                       *)
(*   id    number of the case                                              *)
(*   t     the text                                                        *)
(*   base  the start line given to ParseScope                              *)
(*   o     the texts of all nodes, in order                                *)
(*   oc    the same, encoded as one text (only given when it differs)      *)
(*   n     per node: number of symbols, line, kind                         *)
(*   s     per scope: number of its first node, kind, line                 *)
(*   lk    1 if every scope is one well linked chain of its own            *)
(*   fm    1 if the text is Go source, formatted                          *)
(*   err   1 if ParseScope returned an error                               *)
(***************************************************************************)
EXTENDS GoLex, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, i, mode, ln, sm, k, off, p, sc, from, stop, bad
vars == <<c, i, mode, ln, sm, k, off, p, sc, from, stop, bad>>

Case == Cases[c]
T    == Case.t

Structural == {"Tab", "Space", "NewLine", "Comma", "Colon", "Semicolon",
  "ParenthesisLeft", "ParenthesisRight", "CurlyBracketLeft",
  "CurlyBracketRight", "SquareBracketLeft", "SquareBracketRight", "Separator",
  "Comment", "String", "Package", "Import", "Var", "Const", "Type", "Func",
  "Map", "Channel", "Struct", "Interface", ""}

\* kinds the parser may give to a node of a func or type scope on top of the
\* lexical ones
Roles == {"FuncName", "TypeName", "ParamName", "ParamType",
          "MethodReceiverName", "MethodReceiverType"}

Refined(kind) == kind \in {"Func", "Type"}

KindOk(lex, got, scopeKind) ==
    \/ lex = got
    \/ lex = "word" /\ got \notin Structural /\ got \notin Roles
    \/ lex = "rune" /\ got = "Raw"
    \/ lex \in {"word", "rune"} /\ got \in Roles /\ Refined(scopeKind)
    \* a type that several nodes were combined into may begin with any token
    \/ got = "ParamType" /\ Refined(scopeKind)

Init ==
    /\ c \in 1 .. Len(Cases)
    /\ i = 1 /\ mode = "gap" /\ ln = 0 /\ sm = ScopeInit
    /\ k = 1 /\ off = 0 /\ p = 1 /\ sc = 0 /\ from = 0
    /\ stop = FALSE
    /\ bad = (IF Case.err = 1 THEN {<<"C17", 0>>} ELSE {})
             \cup (IF Case.lk = 0 THEN {<<"C08", 0>>} ELSE {})

\* consume one symbol of the text
Symbol ==
    /\ i <= Len(T) /\ ~stop
    /\ i' = i + 1 /\ UNCHANGED c
    /\ LET starts  == Starts(T, i, mode)
           opens   == starts /\ ScopeStarts(sm, T, i, ln)
           started == from # 0 \/ opens
           \* the observed scope that begins with the current node
           logged  == off = 0 /\ sc < Len(Case.s) /\ Case.s[sc + 1][1] = k
           sc2     == IF logged THEN sc + 1 ELSE sc
           have    == k <= Len(Case.n)
           same    == have /\ Case.o[p] = T[i]
           node    == Case.n[k]
           sk      == IF sc2 > 0 THEN Case.s[sc2][2] ELSE "Unknown"
           fail    ==
             IF ~started THEN {}
             ELSE
               (IF ~have \/ (~same /\ Case.canon = 1) THEN {<<"C01", i>>} ELSE {})
               \cup
               (IF have /\ ~same /\ Case.canon = 0 THEN {<<"C02", i>>} ELSE {})
               \cup
               (IF same /\ starts /\ off # 0
                   /\ ~(node[3] = "ParamType" /\ Refined(sk))
                THEN {<<"C02", i>>} ELSE {})
               \cup
               (IF same /\ ~starts /\ off = 0 THEN {<<"C02", i>>} ELSE {})
               \cup
               (IF same /\ starts /\ off = 0 /\ node[2] # Case.base + ln
                THEN {<<"C03", i>>} ELSE {})
               \cup
               (IF same /\ starts /\ off = 0 /\ ~KindOk(LexKind(T, i), node[3], sk)
                THEN {<<"C07", i>>} ELSE {})
               \cup
               (IF same /\ opens # logged THEN {<<"C04", i>>} ELSE {})
               \cup
               (IF same /\ opens /\ logged /\ Case.s[sc2][2] # ScopeKind(T, i)
                THEN {<<"C04", i>>} ELSE {})
               \cup
               (IF same /\ opens /\ logged /\ Case.s[sc2][3] # Case.base + ln + 1
                THEN {<<"C03", i>>} ELSE {})
       IN /\ bad' = bad \cup fail
          /\ stop' = (started /\ ~same)
          /\ mode' = NextMode(T, i, mode)
          /\ ln' = IF T[i] = NL THEN ln + 1 ELSE ln
          /\ sm' = IF starts THEN ScopeStep(sm, T, i, ln) ELSE sm
          /\ from' = IF from = 0 /\ opens THEN i ELSE from
          /\ IF ~started \/ ~same
               THEN UNCHANGED <<k, off, p, sc>>
               ELSE /\ p' = p + 1
                    /\ sc' = sc2
                    /\ IF off + 1 = node[1] THEN k' = k + 1 /\ off' = 0
                                            ELSE k' = k /\ off' = off + 1

\* nothing is compared any more once the node texts have left the text
Skip == /\ i <= Len(T) /\ stop
        /\ i' = i + 1
        /\ UNCHANGED <<c, mode, ln, sm, k, off, p, sc, from, stop, bad>>

\* the end of the text: nothing may be left over
End ==
    /\ i = Len(T) + 1
    /\ i' = Len(T) + 2
    /\ bad' = bad
         \cup (IF ~stop /\ (k <= Len(Case.n) \/ off # 0) THEN {<<"C01", i>>} ELSE {})
         \cup (IF ~stop /\ k > Len(Case.n) /\ sc < Len(Case.s) THEN {<<"C04", i>>} ELSE {})
         \cup (IF Case.canon = 0 /\ (IF from = 0 THEN Case.oc # <<>>
                                     ELSE Case.oc # SubSeq(T, from, Len(T)))
               THEN {<<"C01", i>>} ELSE {})
    /\ UNCHANGED <<c, mode, ln, sm, k, off, p, sc, from, stop>>

Next == Symbol \/ Skip \/ End
Spec == Init /\ [][Next]_vars

\* which scopes a text has is only specified for Go source
Holds(id) == \A b \in bad : b[1] # id
C01_Lossless     == Holds("C01")
C02_Tokens       == Holds("C02")
C03_Lines        == Holds("C03")
C04_Scopes       == Case.fm = 1 => Holds("C04")
C07_LexicalKinds == Holds("C07")
C08_Links        == Holds("C08")
C17_Total        == Holds("C17")
=============================================================================
