-------------------------------- MODULE Rope --------------------------------
(***************************************************************************)
(* Very long chains of nodes.                                              *)
(*                                                                         *)
(* The meaning of the node operations is the one of NodeChain; what that   *)
(* module writes as a set of pairs is written here as a few runs, so that  *)
(* chains of many thousand nodes are a short state.  A run is a record     *)
(* [id, n, lab]: the nodes id, id+1 .. id+n-1, each directly behind the    *)
(* one before it, labelled lab, lab+1 .. lab+n-1.  The label of a node     *)
(* says what text it was made with and in which line: every third label    *)
(* is a line break, and the labels of a list of texts follow one another.  *)
(* A chain is a sequence of runs.  The text of a joined node is a          *)
(* sequence of runs of labels, kept in joined; a joined node is always a   *)
(* run by itself.                                                          *)
(*                                                                         *)
(* hist records every call with its result and all chains afterwards.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sizes,     \* how many texts a new chain is made of
          MaxSteps, MaxChains,
          Plan       \* "any", or what follows a first call that makes a chain:
                     \* "copy" a copy of it, then a few calls; "walk" walks

VARIABLES chains,    \* set of chains, as a sequence
          loose,     \* runs of nodes that have no neighbours
          joined,    \* node -> runs of labels
          made,      \* the lists of texts: [lab, n, start]
          next,      \* the next unused node
          hist
vars == <<chains, loose, joined, made, next, hist>>

Pick(S) == RandomElement(S)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE Size(_)
Size(c) == IF c = <<>> THEN 0 ELSE Head(c).n + Size(Tail(c))

\* the first k nodes of a chain; the others
RECURSIVE Front(_, _)
Front(c, k) == IF k = 0 THEN <<>>
               ELSE IF Head(c).n <= k THEN <<Head(c)>> \o Front(Tail(c), k - Head(c).n)
               ELSE <<[Head(c) EXCEPT !.n = k]>>
RECURSIVE Rest(_, _)
Rest(c, k) == IF k = 0 THEN c
              ELSE IF Head(c).n <= k THEN Rest(Tail(c), k - Head(c).n)
              ELSE <<[id |-> Head(c).id + k, n |-> Head(c).n - k, lab |-> Head(c).lab + k]>> \o Tail(c)
Mid(c, k)   == Front(Rest(c, k - 1), 1)        \* the k-th node, as a chain
Id(c, k)    == Mid(c, k)[1].id
IdOrNil(c, k) == IF k >= 1 /\ k <= Size(c) THEN Id(c, k) ELSE 0

\* line of a label: the start line of its list and the line breaks before it
Breaks(lo, hi) == (hi \div 3) - ((lo - 1) \div 3)
LineOf(l) == LET m == CHOOSE k \in 1 .. Len(made) : made[k].lab <= l /\ l < made[k].lab + made[k].n
             IN made[m].start + Breaks(made[m].lab, l - 1)

LabelsOf(c) == Flat([k \in 1 .. Len(c) |-> IF c[k].id \in DOMAIN joined THEN joined[c[k].id]
                                           ELSE <<<<c[k].lab, c[k].n>>>>])

NonEmpty(s) == SelectSeq(s, LAMBDA c : c # <<>>)
\* all chains but those at a and b
Others(a, b) == LET keep == SelectSeq([k \in 1 .. Len(chains) |-> k], LAMBDA k : k # a /\ k # b)
                IN [k \in 1 .. Len(keep) |-> chains[keep[k]]]

Show(cs, lo, j) == <<[k \in 1 .. Len(cs) |-> [i \in 1 .. Len(cs[k]) |-> <<cs[k][i].id, cs[k][i].n, cs[k][i].lab>>]],
                     [i \in 1 .. Len(lo) |-> <<lo[i].id, lo[i].n, lo[i].lab>>],
                     {<<x, j[x]>> : x \in DOMAIN j}>>

Record(call, res, cs, lo, j) ==
    /\ chains' = NonEmpty(cs) /\ loose' = lo /\ joined' = j
    /\ hist' = Append(hist, <<call, res, Show(NonEmpty(cs), lo, j)>>)
Same == made' = made /\ next' = next
Walked(call, res) == Record(call, res, chains, loose, joined) /\ Same

\* a place in a chain: near the ends, near the seams, or anywhere
Seams(c) == {Size(SubSeq(c, 1, k)) : k \in 1 .. Len(c)} \cup {Size(SubSeq(c, 1, k)) + 1 : k \in 0 .. Len(c) - 1}
Place(c) == LET n == Size(c) IN
            Pick(({Pick({1, 2, n - 1, n, Pick(1 .. n), Pick(Seams(c))})} \cap (1 .. n)) \cup (IF n = 1 THEN {1} ELSE {})
                 \cup {Pick(1 .. n)})

New ==
    /\ Len(chains) < MaxChains
    /\ \E n \in {Pick(Sizes)} : \E start \in {Pick({0, 1, 41})} :
       /\ made' = Append(made, [lab |-> next, n |-> n, start |-> start])
       /\ next' = next + n
       /\ Record(<<"new", start, n>>, <<next>>, Append(chains, <<[id |-> next, n |-> n, lab |-> next]>>), loose, joined)

Chain(P(_, _)) == Len(chains) > 0 /\ \E a \in {Pick(1 .. Len(chains))} : \E k \in {Place(chains[a])} : P(a, k)

RemoveNext(a, k) == LET c == chains[a] IN
    /\ Len(chains) < MaxChains
    /\ Record(<<"RemoveNext", Id(c, k)>>, <<IdOrNil(c, k + 1)>>, Others(a, a) \o <<Front(c, k), Rest(c, k)>>, loose, joined) /\ Same
RemovePrev(a, k) == LET c == chains[a] IN
    /\ Len(chains) < MaxChains
    /\ Record(<<"RemovePrev", Id(c, k)>>, <<IdOrNil(c, k - 1)>>, Others(a, a) \o <<Front(c, k - 1), Rest(c, k - 1)>>, loose, joined) /\ Same

TakeNext(a, k) == LET c == chains[a] IN
    /\ Len(chains) < MaxChains /\ k < Size(c)
    /\ Record(<<"TakeNext", Id(c, k)>>, <<Id(c, k + 1)>>, Others(a, a) \o <<Front(c, k) \o Rest(c, k + 1), Mid(c, k + 1)>>, loose, joined) /\ Same
TakePrev(a, k) == LET c == chains[a] IN
    /\ Len(chains) < MaxChains /\ k > 1
    /\ Record(<<"TakePrev", Id(c, k)>>, <<Id(c, k - 1)>>, Others(a, a) \o <<Front(c, k - 2) \o Rest(c, k - 1), Mid(c, k - 1)>>, loose, joined) /\ Same

Isolate(a, k) == LET c == chains[a] IN
    /\ Len(chains) + 1 < MaxChains
    /\ Record(<<"Isolate", Id(c, k)>>, <<>>, Others(a, a) \o <<Front(c, k - 1), Mid(c, k), Rest(c, k)>>, loose, joined) /\ Same

\* the chain from place k of a on is put behind place j of b, a # b
ReplaceNext(a, k) ==
    /\ Len(chains) < MaxChains /\ Len(chains) > 1
    /\ \E b \in {Pick((1 .. Len(chains)) \ {a})} : \E j \in {Place(chains[b])} : LET c == chains[a] d == chains[b] IN
       Record(<<"ReplaceNext", Id(d, j), Id(c, k)>>, <<IdOrNil(c, k - 1), IdOrNil(d, j + 1)>>,
              Others(a, b) \o <<Front(d, j) \o Rest(c, k - 1), Front(c, k - 1), Rest(d, j)>>, loose, joined) /\ Same
\* the chain up to place k of a is put before place j of b
ReplacePrev(a, k) ==
    /\ Len(chains) < MaxChains /\ Len(chains) > 1
    /\ \E b \in {Pick((1 .. Len(chains)) \ {a})} : \E j \in {Place(chains[b])} : LET c == chains[a] d == chains[b] IN
       Record(<<"ReplacePrev", Id(d, j), Id(c, k)>>, <<IdOrNil(d, j - 1), IdOrNil(c, k + 1)>>,
              Others(a, b) \o <<Front(c, k) \o Rest(d, j - 1), Rest(c, k), Front(d, j - 1)>>, loose, joined) /\ Same
\* within one chain: what lies between the two is cut out
Shorten(a, k) == LET c == chains[a] IN
    /\ Len(chains) < MaxChains /\ k > 2
    /\ \E j \in {Pick(1 .. k - 2)} :
       Record(<<"ReplaceNext", Id(c, j), Id(c, k)>>, <<Id(c, k - 1), Id(c, j + 1)>>,
              Others(a, a) \o <<Front(c, j) \o Rest(c, k - 1), Rest(Front(c, k - 1), j)>>, loose, joined) /\ Same

InsertNext(a, k) ==
    /\ Len(chains) + 1 < MaxChains /\ Len(chains) > 1
    /\ \E b \in {Pick((1 .. Len(chains)) \ {a})} : \E j \in {Place(chains[b])} : LET c == chains[a] d == chains[b] IN
       Record(<<"InsertNext", Id(d, j), Id(c, k)>>, <<IdOrNil(c, k - 1), IdOrNil(c, k + 1)>>,
              Others(a, b) \o <<Front(d, j) \o Mid(c, k) \o Rest(d, j), Front(c, k - 1), Rest(c, k)>>, loose, joined) /\ Same
InsertPrev(a, k) ==
    /\ Len(chains) + 1 < MaxChains /\ Len(chains) > 1
    /\ \E b \in {Pick((1 .. Len(chains)) \ {a})} : \E j \in {Place(chains[b])} : LET c == chains[a] d == chains[b] IN
       Record(<<"InsertPrev", Id(d, j), Id(c, k)>>, <<IdOrNil(c, k - 1), IdOrNil(c, k + 1)>>,
              Others(a, b) \o <<Front(d, j - 1) \o Mid(c, k) \o Rest(d, j - 1), Front(c, k - 1), Rest(c, k)>>, loose, joined) /\ Same

With(j, x, v) == [y \in DOMAIN j \cup {x} |-> IF y = x THEN v ELSE j[y]]

\* the nodes behind (before) place k, up to place j, are joined into it
CombineNext(a, k) == LET c == chains[a] IN
    /\ Len(chains) < MaxChains /\ k < Size(c)
    /\ \E j \in {Pick({k + 1, Size(c), Pick(k + 1 .. Size(c))})} : LET gone == Rest(Front(c, j), k) IN
       Record(<<"CombineNext", Id(c, k), j - k>>, <<Id(c, k)>>, Others(a, a) \o <<Front(c, k - 1) \o Mid(c, k), Rest(c, j)>>,
              loose \o gone, With(joined, Id(c, k), LabelsOf(Rest(Front(c, j), k - 1)))) /\ Same
CombinePrev(a, k) == LET c == chains[a] IN
    /\ Len(chains) < MaxChains /\ k > 1
    /\ \E j \in {Pick({k - 1, 1, Pick(1 .. k - 1)})} : LET gone == Rest(Front(c, k - 1), j - 1) IN
       Record(<<"CombinePrev", Id(c, k), k - j>>, <<Id(c, k)>>, Others(a, a) \o <<Front(c, j - 1), Mid(c, k) \o Rest(c, k)>>,
              loose \o gone, With(joined, Id(c, k), LabelsOf(Rest(Front(c, k), j - 1)))) /\ Same

\* runs of the copy of a chain; copies keep labels and joined texts
RECURSIVE Copied(_, _)
Copied(c, id) == IF c = <<>> THEN <<>> ELSE <<[Head(c) EXCEPT !.id = id]>> \o Copied(Tail(c), id + Head(c).n)
CopyAll(a, k) == LET c == chains[a] d == Copied(c, next) IN
    /\ Len(chains) < MaxChains
    /\ Record(<<"CopyAll", Id(c, k)>>, <<Id(d, k)>>, Append(chains, d), loose,
              LET src == {i \in 1 .. Len(c) : c[i].id \in DOMAIN joined}
              IN [x \in DOMAIN joined \cup {d[i].id : i \in src} |->
                    IF x \in DOMAIN joined THEN joined[x] ELSE joined[c[CHOOSE i \in src : d[i].id = x].id]])
    /\ made' = made /\ next' = next + Size(c)
CopyOne(a, k) == LET c == chains[a] IN
    /\ Len(chains) < MaxChains
    /\ Record(<<"CopyOne", Id(c, k)>>, <<next>>, Append(chains, <<[Mid(c, k)[1] EXCEPT !.id = next]>>), loose,
              IF Id(c, k) \in DOMAIN joined THEN With(joined, next, joined[Id(c, k)]) ELSE joined)
    /\ made' = made /\ next' = next + 1

\* walks that stop at the m-th node they see, or that nothing stops (m = 0)
IterNext(a, k) == LET c == chains[a] n == Size(c) - k + 1 IN
    \E m \in {Pick({0, 1, n, Pick(1 .. n)})} : Walked(<<"IterNext", Id(c, k), m>>, <<IF m = 0 THEN 0 ELSE Id(c, k + m - 1), IF m = 0 THEN n ELSE m>>)
IterPrev(a, k) == LET c == chains[a] IN
    \E m \in {Pick({0, 1, k, Pick(1 .. k)})} : Walked(<<"IterPrev", Id(c, k), m>>, <<IF m = 0 THEN 0 ELSE Id(c, k - m + 1), IF m = 0 THEN k ELSE m>>)
Ends(a, k) == LET c == chains[a] IN Walked(<<"Ends", Id(c, k)>>, <<Id(c, 1), Id(c, Size(c))>>)
Line(a, k) == LET c == chains[a] IN Walked(<<"Line", Id(c, k)>>, <<LineOf(Mid(c, k)[1].lab)>>)

Init == chains = <<>> /\ loose = <<>> /\ joined = <<>> /\ made = <<>> /\ next = 1 /\ hist = <<>>
Next == /\ Len(hist) < MaxSteps
        /\ \/ New \/ Chain(RemoveNext) \/ Chain(RemovePrev) \/ Chain(TakeNext) \/ Chain(TakePrev) \/ Chain(Isolate)
           \/ Chain(ReplaceNext) \/ Chain(ReplacePrev) \/ Chain(Shorten) \/ Chain(InsertNext) \/ Chain(InsertPrev)
           \/ Chain(CombineNext) \/ Chain(CombinePrev) \/ Chain(CopyAll) \/ Chain(CopyOne)
           \/ Chain(IterNext) \/ Chain(IterPrev) \/ Chain(Ends) \/ Chain(Line)
        /\ Plan # "any" => hist'[Len(hist')][1][1] \in
             (CASE Len(hist') = 1 -> {"new"}
                [] Plan = "walk" -> {"IterNext", "IterPrev", "Ends"}
                [] Len(hist') = 2 -> {"CopyAll"}
                [] OTHER -> {"IterNext", "IterPrev", "Ends", "Line", "RemoveNext", "RemovePrev", "Isolate", "CopyOne"})
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Design properties.                                                      *)
(***************************************************************************)
AllRuns == Flat(chains) \o loose
\* no node is in two places, and none got lost
Apart == /\ \A i, j \in 1 .. Len(AllRuns) : i # j => AllRuns[i].id + AllRuns[i].n <= AllRuns[j].id \/ AllRuns[j].id + AllRuns[j].n <= AllRuns[i].id
         /\ Size(AllRuns) = next - 1
\* a joined node is a run by itself
Single == \A i \in 1 .. Len(AllRuns) : AllRuns[i].n = 1 \/ \A x \in DOMAIN joined : x < AllRuns[i].id \/ x >= AllRuns[i].id + AllRuns[i].n
Emit == Len(hist) < MaxSteps \/ PrintT(ToString(hist))
=============================================================================
