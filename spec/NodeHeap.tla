------------------------------ MODULE NodeHeap ------------------------------
(***************************************************************************)
(* The two-pointer design of the node list, step by step as the code does  *)
(* it: every link is changed through SetPrev / SetNext, which unhook the   *)
(* old neighbour first.  Checked: for every arrangement of N nodes and     *)
(* every operation and argument, both directions stay consistent, no ring  *)
(* appears, and the result is the one NodeChain defines.                   *)
(***************************************************************************)
EXTENDS NodeChain, TLC

CONSTANT N
Ids == 1 .. N
Ptr == 0 .. N

VARIABLES prev, next
vars == <<prev, next>>
Heap == [p |-> prev, n |-> next]

P(h, a) == IF a = Nil THEN Nil ELSE h.p[a]
X(h, a) == IF a = Nil THEN Nil ELSE h.n[a]

SetPrev(h, a, b) ==
    IF a = b \/ a = Nil THEN h
    ELSE LET n1 == IF h.p[a] # Nil THEN [h.n EXCEPT ![h.p[a]] = Nil] ELSE h.n
         IN [p |-> [h.p EXCEPT ![a] = b], n |-> n1]
SetNext(h, a, b) ==
    IF a = b \/ a = Nil THEN h
    ELSE LET p1 == IF h.n[a] # Nil THEN [h.p EXCEPT ![h.n[a]] = Nil] ELSE h.p
         IN [p |-> p1, n |-> [h.n EXCEPT ![a] = b]]

Res(h, r) == [h |-> h, r |-> r]

HInsertPrev(h, n, x) ==
    IF n = x \/ P(h, n) = x THEN Res(h, <<Nil, Nil>>)
    ELSE LET op == P(h, x) on == X(h, x) np == P(h, n)
             h1 == SetNext(SetPrev(h, n, x), x, n)
             h2 == SetNext(SetPrev(h1, x, np), np, x)
         IN Res(SetPrev(SetNext(h2, op, Nil), on, Nil), <<op, on>>)
HInsertNext(h, n, x) ==
    IF n = x \/ X(h, n) = x THEN Res(h, <<Nil, Nil>>)
    ELSE LET op == P(h, x) on == X(h, x) nn == X(h, n)
             h1 == SetPrev(SetNext(h, n, x), x, n)
             h2 == SetPrev(SetNext(h1, x, nn), nn, x)
         IN Res(SetPrev(SetNext(h2, op, Nil), on, Nil), <<op, on>>)
HReplacePrev(h, n, x) ==
    IF n = x \/ P(h, n) = x THEN Res(h, <<Nil, Nil>>)
    ELSE LET op == P(h, n) on == X(h, x)
             h1 == SetNext(SetPrev(h, n, x), x, n)
         IN Res(SetPrev(SetNext(h1, op, Nil), on, Nil), <<op, on>>)
HReplaceNext(h, n, x) ==
    IF n = x \/ X(h, n) = x THEN Res(h, <<Nil, Nil>>)
    ELSE LET op == P(h, x) on == X(h, n)
             h1 == SetPrev(SetNext(h, n, x), x, n)
         IN Res(SetPrev(SetNext(h1, op, Nil), on, Nil), <<op, on>>)
HTakePrev(h, n) ==
    LET x == P(h, n) np == P(h, x)
        h1 == SetNext(SetPrev(h, n, np), np, n)
    IN Res(SetPrev(SetNext(h1, x, Nil), x, Nil), <<x>>)
HTakeNext(h, n) ==
    LET x == X(h, n) nn == X(h, x)
        h1 == SetPrev(SetNext(h, n, nn), nn, n)
    IN Res(SetPrev(SetNext(h1, x, Nil), x, Nil), <<x>>)
HRemovePrev(h, n) == LET x == P(h, n) IN Res(SetNext(SetPrev(h, n, Nil), x, Nil), <<x>>)
HRemoveNext(h, n) == LET x == X(h, n) IN Res(SetPrev(SetNext(h, n, Nil), x, Nil), <<x>>)
HIsolate(h, n) ==
    LET h1 == SetNext(h, P(h, n), Nil)
        h2 == SetPrev(h1, X(h1, n), Nil)
    IN Res(SetNext(SetPrev(h2, n, Nil), n, Nil), <<>>)

HApply(h, op, n, x) ==
    CASE op = "InsertNext"  -> HInsertNext(h, n, x)
      [] op = "InsertPrev"  -> HInsertPrev(h, n, x)
      [] op = "ReplaceNext" -> HReplaceNext(h, n, x)
      [] op = "ReplacePrev" -> HReplacePrev(h, n, x)
      [] op = "TakeNext"    -> HTakeNext(h, n)
      [] op = "TakePrev"    -> HTakePrev(h, n)
      [] op = "RemoveNext"  -> HRemoveNext(h, n)
      [] op = "RemovePrev"  -> HRemovePrev(h, n)
      [] op = "Isolate"     -> HIsolate(h, n)

\* abstraction: the links, if both directions agree
Consistent(h) == \A a \in Ids : /\ h.n[a] # Nil => h.p[h.n[a]] = a
                                /\ h.p[a] # Nil => h.n[h.p[a]] = a
Links(h) == {<<a, h.n[a]>> : a \in {b \in Ids : h.n[b] # Nil}}

Init == prev = [a \in Ids |-> Nil] /\ next = [a \in Ids |-> Nil]

\* one operation; it has to do what NodeChain says
Do(op, n, x) ==
    LET E == Links(Heap) a == Apply(E, op, n, x) c == HApply(Heap, op, n, x) IN
    /\ Allowed(E, op, n, x)
    /\ Assert(Consistent(c.h) /\ Links(c.h) = a.E /\ c.r = a.r,
              <<"the pointer design does not refine NodeChain", op, n, x, Heap, c, a>>)
    /\ prev' = c.h.p /\ next' = c.h.n

Next == \/ \E op \in Binary, n \in Ptr, x \in Ptr : Do(op, n, x)
        \/ \E op \in Unary, n \in Ptr : Do(op, n, Nil)
Spec == Init /\ [][Next]_vars

WellLinked == Consistent(Heap) /\ Linked(Links(Heap))
=============================================================================
