-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* The prefix tree as a map.  Its state is the set of texts (sequences of  *)
(* bytes) that are prefixes of added ones, with a value each; 0 is the     *)
(* value of a prefix that was never given one, and may be stored, too.  A  *)
(* finished history is printed with the map; the driver replays it, with   *)
(* its bytes moved around the code and sometimes each of them repeated     *)
(* many times, and asks for every text of up to MaxLen bytes, forwards and *)
(* backwards.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Bytes, MaxLen, Values, MaxOps, Random

VARIABLES map, hist    \* map: a set of <<text, value>>
vars == <<map, hist>>

Strings == UNION {[1 .. n -> Bytes] : n \in 0 .. MaxLen}
Known   == {m[1] : m \in map}
Value(s) == (CHOOSE m \in map : m[1] = s)[2]
Prefixes(s) == {SubSeq(s, 1, k) : k \in 0 .. Len(s)}
Put(s, v) == {m \in map : m[1] # s} \cup {<<p, 0>> : p \in Prefixes(s) \ (Known \cup {s})} \cup {<<s, v>>}

AddText(s, v)   == /\ map' = Put(s, v) /\ hist' = Append(hist, <<"add", s, 0, v>>)
\* a value is put one byte behind a known text
Insert(s, b, v) == /\ map' = Put(Append(s, b), v) /\ hist' = Append(hist, <<"insert", s, b, v>>)

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S

Init == map = {<<<<>>, 0>>} /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E s \in Pick(Strings) : \E v \in Pick(Values) : AddText(s, v)
           \/ \E s \in Pick({k \in Known : Len(k) < MaxLen}) : \E b \in Pick(Bytes) : \E v \in Pick(Values) : Insert(s, b, v)
Spec == Init /\ [][Next]_vars

PrefixClosed == \A s \in Known : Prefixes(s) \subseteq Known
Function     == Cardinality(map) = Cardinality(Known)
\* nothing is lost and the last value wins
LastWins == \A k \in 1 .. Len(hist) :
    LET key(h) == IF h[1] = "add" THEN h[2] ELSE Append(h[2], h[3]) IN
    (\A j \in k + 1 .. Len(hist) : key(hist[j]) # key(hist[k])) => Value(key(hist[k])) = hist[k][4]
Emit == Len(hist) < MaxOps \/ PrintT(ToString(<<hist, map, Bytes, MaxLen>>))
=============================================================================
