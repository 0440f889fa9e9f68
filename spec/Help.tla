-------------------------------- MODULE Help --------------------------------
(***************************************************************************)
(* Text helpers and descriptions.  A text is a sequence of symbols: bytes, *)
(* among them the halves of runes that share a byte.  Each state is one    *)
(* text, with what the helpers have to say about it:                       *)
(*   tidy   the text on one line: symbols and replacements ("nl", "dot",   *)
(*          "arrow")                                                       *)
(*   pre, suf  the texts of up to MaxProbe symbols that it begins/ends with*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Bytes, MaxLen, MaxProbe

VARIABLES text
vars == <<text>>

SP == 32  TAB == 9  NL == 10  CR == 13

Shown(b) == CASE b = NL -> "nl" [] b \in {SP, CR} -> "dot" [] b = TAB -> "arrow" [] OTHER -> ToString(b)
Tidy(t)  == [k \in 1 .. Len(t) |-> Shown(t[k])]

Probes == UNION {[1 .. n -> Bytes] : n \in 0 .. MaxProbe}
Begins(t, p) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
Ends(t, p)   == Len(p) <= Len(t) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p

Init == text = <<>>
Next == Len(text) < MaxLen /\ \E b \in Bytes : text' = Append(text, b)
Spec == Init /\ [][Next]_vars

\* every text begins and ends with itself and with nothing; reversing swaps
Rev(t) == [k \in 1 .. Len(t) |-> t[Len(t) + 1 - k]]
Sane == /\ Begins(text, <<>>) /\ Ends(text, <<>>) /\ Begins(text, text) /\ Ends(text, text)
        /\ \A p \in Probes : Begins(text, p) = Ends(Rev(text), Rev(p))
        /\ \A k \in 1 .. Len(text) : Shown(text[k]) \notin {"10", "13", "32", "9"}

\* joining two lists without repeating where they meet
Join(a, b) == IF b = <<>> THEN a ELSE IF a = <<>> THEN b
              ELSE IF a[Len(a)] = b[1] THEN a \o Tail(b) ELSE a \o b
Cuts == {<<k, Join(SubSeq(text, 1, k), SubSeq(text, k + 1, Len(text)))>> : k \in 0 .. Len(text)}

\* what holds of short texts holds of long ones: the driver puts the same long
\* text before (or behind) a text and a probe, and repeats texts
Long == /\ Tidy(text \o text) = Tidy(text) \o Tidy(text)
        /\ \A p \in Probes, b \in Bytes :
              /\ Begins(<<b>> \o text, <<b>> \o p) = Begins(text, p)
              /\ Ends(text \o <<b>>, p \o <<b>>) = Ends(text, p)
              /\ Len(p) = Len(text) => /\ Begins(text \o <<b>>, p \o <<b>>) = Begins(text, p)
                                       /\ Ends(<<b>> \o text, <<b>> \o p) = Ends(text, p)
        /\ \A k \in 1 .. Len(text) - 1, b \in Bytes :
              LET x == SubSeq(text, 1, k)  y == SubSeq(text, k + 1, Len(text)) IN
              Join(<<b>> \o x, y \o <<b>>) = <<b>> \o Join(x, y) \o <<b>>

Emit == PrintT(ToString(<<text, Tidy(text), {p \in Probes : Begins(text, p)}, {p \in Probes : Ends(text, p)}, Cuts>>))
=============================================================================
