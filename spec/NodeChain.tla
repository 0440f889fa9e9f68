----------------------------- MODULE NodeChain -----------------------------
(***************************************************************************)
(* What the editing operations of a Node mean.                             *)
(*                                                                         *)
(* Nodes are numbers >= 1; Nil is 0.  The links between nodes are a set E  *)
(* of pairs <<a, b>>: "b is directly behind a".  A set of pairs is a set   *)
(* of chains exactly if it is functional, injective and acyclic (Linked).  *)
(* Both link directions of the code (prev, next) are projections of E.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Nil == 0

Nxt(E, a) == IF \E e \in E : e[1] = a THEN (CHOOSE e \in E : e[1] = a)[2] ELSE Nil
Prv(E, b) == IF \E e \in E : e[2] = b THEN (CHOOSE e \in E : e[2] = b)[1] ELSE Nil

\* the pair a, b; nothing if one of them is missing
Pair(a, b) == IF a = Nil \/ b = Nil THEN {} ELSE {<<a, b>>}

CutBehind(E, n) == {e \in E : e[1] # n}
CutBefore(E, n) == {e \in E : e[2] # n}
CutOut(E, n)    == {e \in E : e[1] # n /\ e[2] # n}

\* the nodes strictly behind / before a
RECURSIVE Behind(_, _)
Behind(E, a) == LET b == Nxt(E, a) IN IF b = Nil THEN <<>> ELSE <<b>> \o Behind(E, b)
RECURSIVE Before(_, _)
Before(E, b) == LET a == Prv(E, b) IN IF a = Nil THEN <<>> ELSE <<a>> \o Before(E, a)

InSeq(s, x) == \E j \in 1 .. Len(s) : s[j] = x

Reverse(s) == [j \in 1 .. Len(s) |-> s[Len(s) + 1 - j]]
ChainOf(E, n) == Reverse(Before(E, n)) \o <<n>> \o Behind(E, n)

Linked(E) ==
    /\ \A e, f \in E : (e[1] = f[1]) <=> (e[2] = f[2])
    /\ \A e \in E : e[1] # Nil /\ e[2] # Nil
    /\ \A e \in E :       \* acyclic: walking |E| steps from anywhere ends at Nil
         LET RECURSIVE Walk(_, _)
             Walk(a, left) == IF a = Nil THEN TRUE
                              ELSE IF left = 0 THEN FALSE
                              ELSE Walk(Nxt(E, a), left - 1)
         IN Walk(e[1], Cardinality(E) + 1)

(***************************************************************************)
(* The operations.  Each is [E |-> links afterwards, r |-> results].       *)
(***************************************************************************)
Op(E, r) == [E |-> E, r |-> r]

\* x is taken out of its chain (both its sides stay apart) and put behind n
InsertNext(E, n, x) ==
    IF n = x \/ Nxt(E, n) = x THEN
       \* nothing to do (x = Nil: there is nothing behind n either)
       Op(E, <<Nil, Nil>>)
    ELSE LET E1 == CutOut(E, x) b == Nxt(E1, n) IN
       Op(CutBehind(E1, n) \cup Pair(n, x) \cup (IF n = Nil THEN {} ELSE Pair(x, b)),
          <<Prv(E, x), Nxt(E, x)>>)

InsertPrev(E, n, x) ==
    IF n = x \/ Prv(E, n) = x THEN Op(E, <<Nil, Nil>>)
    ELSE LET E1 == CutOut(E, x) a == Prv(E1, n) IN
       Op(CutBefore(E1, n) \cup Pair(x, n) \cup (IF n = Nil THEN {} ELSE Pair(a, x)),
          <<Prv(E, x), Nxt(E, x)>>)

\* the chain that starts at x replaces everything behind n
ReplaceNext(E, n, x) ==
    IF n = x \/ Nxt(E, n) = x THEN Op(E, <<Nil, Nil>>)
    ELSE Op(CutBefore(CutBehind(E, n), x) \cup Pair(n, x), <<Prv(E, x), Nxt(E, n)>>)
\* the chain that ends at x replaces everything before n
ReplacePrev(E, n, x) ==
    IF n = x \/ Prv(E, n) = x THEN Op(E, <<Nil, Nil>>)
    ELSE Op(CutBehind(CutBefore(E, n), x) \cup Pair(x, n), <<Prv(E, n), Nxt(E, x)>>)

\* replacing with a chain one is part of would close a ring: not a use the
\* operations are made for
ReplaceNextOk(E, n, x) == n = Nil \/ x = Nil \/ n = x \/ ~InSeq(Before(E, n), x)
ReplacePrevOk(E, n, x) == n = Nil \/ x = Nil \/ n = x \/ ~InSeq(Behind(E, n), x)

\* the direct neighbour is taken out, what it stood between is joined
TakeNext(E, n) == LET x == Nxt(E, n) IN
    IF x = Nil THEN Op(E, <<Nil>>)
    ELSE Op(CutOut(E, x) \cup Pair(n, Nxt(E, x)), <<x>>)
TakePrev(E, n) == LET x == Prv(E, n) IN
    IF x = Nil THEN Op(E, <<Nil>>)
    ELSE Op(CutOut(E, x) \cup Pair(Prv(E, x), n), <<x>>)

\* everything behind / before is cut off
RemoveNext(E, n) == Op(CutBehind(E, n), <<Nxt(E, n)>>)
RemovePrev(E, n) == Op(CutBefore(E, n), <<Prv(E, n)>>)

Isolate(E, n) == Op(CutOut(E, n), <<>>)

Binary == {"InsertNext", "InsertPrev", "ReplaceNext", "ReplacePrev"}
Unary  == {"TakeNext", "TakePrev", "RemoveNext", "RemovePrev", "Isolate"}

Allowed(E, op, n, x) ==
    CASE op = "ReplaceNext" -> ReplaceNextOk(E, n, x)
      [] op = "ReplacePrev" -> ReplacePrevOk(E, n, x)
      [] OTHER -> TRUE

Apply(E, op, n, x) ==
    CASE op = "InsertNext"  -> InsertNext(E, n, x)
      [] op = "InsertPrev"  -> InsertPrev(E, n, x)
      [] op = "ReplaceNext" -> ReplaceNext(E, n, x)
      [] op = "ReplacePrev" -> ReplacePrev(E, n, x)
      [] op = "TakeNext"    -> TakeNext(E, n)
      [] op = "TakePrev"    -> TakePrev(E, n)
      [] op = "RemoveNext"  -> RemoveNext(E, n)
      [] op = "RemovePrev"  -> RemovePrev(E, n)
      [] op = "Isolate"     -> Isolate(E, n)

(***************************************************************************)
(* Combining.  txt maps nodes to texts (sequences of atoms).  The texts of *)
(* the given nodes are joined into the receiver (the first given node that *)
(* is not Nil if the receiver is Nil), in order for CombineNext, reversed  *)
(* for CombinePrev; the other nodes are isolated.                          *)
(***************************************************************************)
RECURSIVE DropNil(_)
DropNil(s) == IF s = <<>> \/ Head(s) # Nil THEN s ELSE DropNil(Tail(s))

CombineTarget(n, s) == IF n # Nil THEN n ELSE LET d == DropNil(s) IN IF d = <<>> THEN Nil ELSE d[1]
CombineParts(n, s)  == LET d == IF n # Nil \/ DropNil(s) = <<>> THEN s ELSE Tail(DropNil(s))
                           m == CombineTarget(n, s)
                       IN SelectSeq(d, LAMBDA y : y # Nil /\ y # m)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

CombinedText(op, txt, m, parts) ==
    LET all == <<txt[m]>> \o [j \in 1 .. Len(parts) |-> txt[parts[j]]]
    IN Flat(IF op = "CombinePrev" THEN Reverse(all) ELSE all)

RECURSIVE CutOutAll(_, _)
CutOutAll(E, s) == IF s = <<>> THEN E ELSE CutOutAll(CutOut(E, Head(s)), Tail(s))

Distinct(s) == \A a, b \in 1 .. Len(s) : a # b /\ s[a] = s[b] => s[a] = Nil
=============================================================================
