------------------------------- MODULE GenLex -------------------------------
(***************************************************************************)
(* Generator over GoLex: every text of at most MaxLen symbols of Alphabet, *)
(* put behind Prefix, with the tokens and lines the lexical machine cuts   *)
(* it into.  The design invariants are checked in every state; Emit prints *)
(* the text and the expected tokens, which are replayed into ParseScope.   *)
(***************************************************************************)
EXTENDS GoLex, TLC, FiniteSets

CONSTANTS Alphabet, MaxLen, Prefix

VARIABLES text, toks, nls      \* nls: newlines in front of each position
vars == <<text, toks, nls>>

Full   == Prefix \o text
Tokens == toks

NlsOf(t) == [n \in 1 .. Len(t) |-> Cardinality({m \in 1 .. n - 1 : t[m] = NL})]

Init == /\ text = <<>>
        /\ toks = Lex(Prefix)
        /\ nls = NlsOf(Prefix)
Next == /\ Len(text) < MaxLen
        /\ \E s \in Alphabet : text' = Append(text, s)
        /\ toks' = Lex(Prefix \o text')
        /\ nls' = NlsOf(Prefix \o text')
Spec == Init /\ [][Next]_vars

TokEnd(k) == IF k = Len(Tokens) THEN Len(Full) ELSE Tokens[k + 1].at - 1

\* the tokens cut the text without gap or overlap
Partition == Full = <<>> \/
    /\ Tokens[1].at = 1
    /\ \A k \in 1 .. Len(Tokens) : Tokens[k].at <= TokEnd(k)
\* lines never decrease and count the newlines in front
LineCount == \A k \in 1 .. Len(Tokens) : Tokens[k].ln = nls[Tokens[k].at]
\* a separator is a token of one symbol; comments and literals start with their
\* opening and, unless the text ends first, end with their closing
Shape == \A k \in 1 .. Len(Tokens) :
    LET a == Tokens[k].at b == TokEnd(k) cl == Tokens[k].cl last == k = Len(Tokens) IN
    CASE cl = "sep"    -> a = b
      [] cl = "word"   -> \A j \in a .. b : Full[j] \notin Separators \cup Quotes
      [] cl = "line"   -> /\ \A j \in a .. b : Full[j] # NL
                          /\ (last \/ Full[b + 1] = NL)
      [] cl = "block"  -> last \/ (b - a >= 3 /\ Full[b] = SLASH /\ Full[b - 1] = STAR)
      [] cl = "string" -> last \/ (b > a /\ Full[b] = DQ)
      [] cl = "raw"    -> last \/ (b > a /\ Full[b] = BQ)
      [] cl = "rune"   -> last \/ (b > a /\ Full[b] = SQ)

Emit == PrintT(ToString(<<Full, [k \in 1 .. Len(Tokens) |-> <<Tokens[k].at, Tokens[k].ln, LexKind(Full, Tokens[k].at)>>]>>))
=============================================================================
