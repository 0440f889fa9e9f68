------------------------------ MODULE GenNode ------------------------------
(***************************************************************************)
(* Generator over NodeHeap / NodeChain.  TLC reaches every arrangement of  *)
(* N nodes by operations; in each one it prints                            *)
(*   Ops     every operation with every argument: links and results after, *)
(*   Walks   every iteration, stopped at some visit, with an edit made in  *)
(*           the callback of some visit: visits, result and links after,   *)
(*   Joins   every combination of up to MaxArgs nodes into a node,         *)
(*   Copies  every copy followed by every operation on originals + copies. *)
(* The driver replays each line into real nodes.                           *)
(***************************************************************************)
EXTENDS NodeHeap

CONSTANT MaxArgs

E0 == Links(Heap)
Vec(E, n) == [a \in 1 .. n |-> Nxt(E, a)]

Results(E, pop, n) ==
    UNION {{LET r == Apply(E, op, a, b) IN <<op, a, b, Vec(r.E, n), r.r>>
              : b \in {y \in pop \cup {Nil} : Allowed(E, op, a, y)}}
            : op \in Binary, a \in pop \cup {Nil}}
    \cup {LET r == Apply(E, op, a, Nil) IN <<op, a, Nil, Vec(r.E, n), r.r>>
            : op \in Unary, a \in pop \cup {Nil}}

Ops == PrintT(ToString(<<"ops", Vec(E0, N), Results(E0, Ids, N)>>))

(***************************************************************************)
(* Walking.  The next node is read after the callback of a visit returned. *)
(***************************************************************************)
Side(E, dir, a) == IF dir = "next" THEN Nxt(E, a) ELSE Prv(E, a)

\* m: the visit that edits (0: none), stop: the visit that ends the walk (0: none)
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(E, dir, a, m, edit, stop, seen) ==
    IF a = Nil THEN <<seen, Nil, Vec(E, N)>>
    ELSE LET s == Append(seen, a)
             F == IF Len(s) = m THEN Apply(E, edit[1], edit[2], edit[3]).E ELSE E
         IN IF Len(s) = stop THEN <<s, a, Vec(F, N)>>
            ELSE Walk(F, dir, Side(F, dir, a), m, edit, stop, s)

Edits == (Binary \X Ids \X Ids) \cup (Unary \X Ids \X {Nil})

\* the state in which visit m happens (Nil-terminated walks that are too short
\* have no visit m)
Visit(dir, a, m) == LET s == IF dir = "next" THEN <<a>> \o Behind(E0, a) ELSE <<a>> \o Before(E0, a)
                    IN m <= Len(s)

WalkLines ==
    {<<dir, a, 0, <<"", 0, 0>>, stop, Walk(E0, dir, a, 0, <<"Isolate", a, 0>>, stop, <<>>)>>
        : dir \in {"next", "prev"}, a \in Ids \cup {Nil}, stop \in 0 .. N}
    \cup
    UNION {{<<dir, a, m, e, stop, Walk(E0, dir, a, m, e, stop, <<>>)>>
              : e \in {f \in Edits : Allowed(E0, f[1], f[2], f[3])}, stop \in {0} \cup (m .. N)}
            : dir \in {"next", "prev"}, a \in Ids, m \in {k \in 1 .. N : \E b \in Ids : Visit("next", b, k)}}

FirstOf(E, a) == IF a = Nil THEN Nil ELSE ChainOf(E, a)[1]
LastOf(E, a)  == IF a = Nil THEN Nil ELSE LET ch == ChainOf(E, a) IN ch[Len(ch)]
Ends == [a \in 1 .. N |-> <<FirstOf(E0, a), LastOf(E0, a)>>]

Walks == PrintT(ToString(<<"walks", Vec(E0, N), Ends, WalkLines>>))

(***************************************************************************)
(* Combining.                                                              *)
(***************************************************************************)
Txt == [a \in Ids |-> <<a>>]
ArgLists == {s \in UNION {[1 .. k -> Ptr] : k \in 0 .. MaxArgs} : Distinct(s)}
JoinLines ==
    {LET m == CombineTarget(n, s) p == CombineParts(n, s) IN
       <<op, n, s, m, IF m = Nil THEN <<>> ELSE CombinedText(op, Txt, m, p), Vec(CutOutAll(E0, p), N)>>
       : op \in {"CombineNext", "CombinePrev"}, n \in Ptr, s \in ArgLists}
Joins == PrintT(ToString(<<"joins", Vec(E0, N), JoinLines>>))

(***************************************************************************)
(* Copying.  The copy of node a is node N + a.                             *)
(***************************************************************************)
InChain(a, n) == InSeq(ChainOf(E0, n), a)
CopyLinks(n) == E0 \cup {<<N + e[1], N + e[2]>> : e \in {f \in E0 : InChain(f[1], n)}}
CopyPop(n, deep) == Ids \cup (IF deep THEN {N + a : a \in {b \in Ids : InChain(b, n)}} ELSE {N + n})
CopyLines ==
    {LET E == IF deep THEN CopyLinks(n) ELSE E0 IN
       <<n, deep, Vec(E, 2 * N), CopyPop(n, deep), Results(E, CopyPop(n, deep), 2 * N)>>
       : n \in Ids, deep \in BOOLEAN}
\* a copy shares no node with what it was made from, and looks the same
CopyApart == \A n \in Ids : LET E == CopyLinks(n) IN
    /\ Linked(E)
    /\ \A e \in E : (e[1] <= N) <=> (e[2] <= N)
    /\ \A a \in Ids : InChain(a, n) =>
         /\ Nxt(E, N + a) = (IF Nxt(E, a) = Nil THEN Nil ELSE N + Nxt(E, a))
         /\ Prv(E, N + a) = (IF Prv(E, a) = Nil THEN Nil ELSE N + Prv(E, a))
Copies == PrintT(ToString(<<"copies", Vec(E0, N), CopyLines>>))
=============================================================================
