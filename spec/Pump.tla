-------------------------------- MODULE Pump --------------------------------
(***************************************************************************)
(* Texts that repeat: a head, one or two pieces of code over and over, a   *)
(* tail.  Repetition is what makes nesting deep, runs long and scans       *)
(* repeat themselves.  The lexical machine has finitely many modes, so     *)
(* over a repeated piece it becomes periodic; Settles says so, which is    *)
(* why parsing such a text has an end: every scan is bounded by the text.  *)
(* Whatever they are, such texts are parsed to an end and lose nothing.    *)
(***************************************************************************)
EXTENDS GoLex, TLC, FiniteSets

CONSTANTS Heads, Pieces, Tails,   \* sequences of symbols
          Width,                  \* pieces repeated together
          Counts,                 \* how many copies there shall be
          Whole                   \* are the tokens told?

VARIABLES head, unit, tail
vars == <<head, unit, tail>>

Init == head \in Heads /\ unit = <<>> /\ tail = <<>>
Grow == tail = <<>> /\ Len(unit) < Width /\ \E p \in Pieces : unit' = Append(unit, p) /\ UNCHANGED <<head, tail>>
Close == unit # <<>> /\ tail = <<>> /\ \E t \in Tails : tail' = <<t>> /\ UNCHANGED <<head, unit>>
Next == Grow \/ Close
Spec == Init /\ [][Next]_vars

Flat(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o s[2]
RECURSIVE Times(_, _)
Times(u, k) == IF k = 0 THEN <<>> ELSE u \o Times(u, k - 1)

Copies == 11
Text   == head \o Times(Flat(unit), Copies) \o (IF tail = <<>> THEN <<>> ELSE tail[1])
Facts(text, toks) == [j \in 1 .. Len(toks) |-> <<toks[j].at, toks[j].ln, LexKind(text, toks[j].at)>>]

Newlines(u) == Cardinality({j \in 1 .. Len(u) : u[j] = NL})
\* the tokens that begin in a copy, seen from the start of the copy
Starting(facts, k) ==
    LET u == Len(Flat(unit)) a == Len(head) + (k - 1) * u
        l == Newlines(head) + (k - 1) * Newlines(Flat(unit)) IN
    {<<facts[j][1] - a, facts[j][2] - l, facts[j][3]>> : j \in {i \in 1 .. Len(facts) : facts[i][1] > a /\ facts[i][1] <= a + u}}
\* from the third copy on the tokens repeat after some copies
Repeats(facts, p) ==
    LET n == [k \in 1 .. Copies - 1 |-> Starting(facts, k)]
    IN \A k \in 3 .. Copies - 1 - p : n[k] = n[k + p]
Periods == LET facts == Facts(Text, Lex(Text)) IN {p \in 1 .. 4 : Repeats(facts, p)}
Settles == unit = <<>> \/ Periods # {}
\* an even number of copies: within a literal no token begins, but whether the
\* next byte is escaped may change from copy to copy
Period  == LET p == CHOOSE p \in Periods : \A q \in Periods : p <= q IN IF p % 2 = 0 THEN p ELSE 2 * p

\* what is said about the text with few copies is said about every longer one:
\* between copies 5 and 6 any number of periods may be put
Said == IF Whole THEN <<Facts(Text, Lex(Text)), Period, Copies, Newlines(Flat(unit))>> ELSE <<>>
Emit == tail = <<>> \/ PrintT(ToString(<<head, Flat(unit), tail[1], Counts, Said>>))
=============================================================================
