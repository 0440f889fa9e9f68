----------------------------- MODULE TraceNode -----------------------------
(***************************************************************************)
(* Trace specification for histories of node operations.  A recorded       *)
(* history is a sequence of calls with their results and, after each call, *)
(* the whole observed state: both links, text, kind and line of every node *)
(* that exists.  Each call has to be the transition NodeChain defines.     *)
(*                                                                         *)
(* A step: op, a, b (nodes), args (nodes), kd (kind), at (atoms of a text),*)
(* r (resulting nodes), nx, pv (links), tx (texts as sequences of atoms),  *)
(* ks (kinds), ln (lines).  -1 stands for a node nobody knows.             *)
(***************************************************************************)
EXTENDS NodeChain, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, i, pop, E, txt, kd, ln, bad
vars == <<c, i, pop, E, txt, kd, ln, bad>>

Steps == Cases[c].steps

Init == /\ c \in 1 .. Len(Cases)
        /\ i = 0 /\ pop = 0 /\ E = {} /\ txt = <<>> /\ kd = <<>> /\ ln = <<>>
        /\ bad = {}

Edit == Binary \cup Unary
Join == {"CombineNext", "CombinePrev"}
Property(op) == CASE op \in Edit -> "C09" [] op \in Join -> "C10"
                  [] op \in {"Copy", "CopyAll"} -> "C11"
                  [] op \in {"First", "Last", "IterNext", "IterPrev"} -> "C12"
                  [] op = "NewChain" -> "C03"
                  [] OTHER -> "C09"

State(p, e, t, k, l, r) == [pop |-> p, E |-> e, txt |-> t, kd |-> k, ln |-> l, r |-> r]
Here(e, r) == State(pop, e, txt, kd, ln, r)

\* lines of a new chain: the line of its head plus the newlines in front
\* (atom 0 is a newline)
KindOfText(t) == IF t = <<>> THEN "" ELSE IF t = <<0>> THEN "NewLine" ELSE "Raw"
Newlines(t) == Cardinality({j \in 1 .. Len(t) : t[j] = 0})
RECURSIVE LinesFrom(_, _)
LinesFrom(l, ts) == IF ts = <<>> THEN <<>> ELSE <<l>> \o LinesFrom(l + Newlines(Head(ts)), Tail(ts))

\* what the next state has to be
After(s) ==
    CASE s.op \in Edit -> LET x == Apply(E, s.op, s.a, s.b) IN Here(x.E, x.r)
      [] s.op \in Join ->
           LET m == CombineTarget(s.a, s.args) p == CombineParts(s.a, s.args) IN
           IF m = Nil THEN Here(E, <<Nil>>)
           ELSE State(pop, CutOutAll(E, p), [txt EXCEPT ![m] = CombinedText(s.op, txt, m, p)],
                      [kd EXCEPT ![m] = s.kd], ln, <<m>>)
      [] s.op = "SetText" ->
           IF s.a = Nil THEN Here(E, <<>>) ELSE State(pop, E, [txt EXCEPT ![s.a] = s.at], kd, ln, <<>>)
      [] s.op = "SetKind" ->
           IF s.a = Nil THEN Here(E, <<>>) ELSE State(pop, E, txt, [kd EXCEPT ![s.a] = s.kd], ln, <<>>)
      [] s.op = "New" ->
           State(pop + 1, E, Append(txt, s.at), Append(kd, IF s.kd = "by text" THEN KindOfText(s.at) ELSE s.kd), Append(ln, s.ln0), <<pop + 1>>)
      [] s.op = "NewChain" ->    \* s.ats: the texts
           LET k == Len(s.ats) IN
           State(pop + k, E \cup {<<pop + j, pop + j + 1>> : j \in 1 .. k - 1}, txt \o s.ats, kd \o [j \in 1 .. k |-> KindOfText(s.ats[j])],
                 ln \o LinesFrom(s.ln0, s.ats), <<IF k = 0 THEN Nil ELSE pop + 1>>)
      [] s.op = "Copy" ->
           IF s.a = Nil THEN Here(E, <<Nil>>)
           ELSE State(pop + 1, E, Append(txt, txt[s.a]), Append(kd, kd[s.a]), Append(ln, ln[s.a]), <<pop + 1>>)
      [] s.op = "CopyAll" ->
           IF s.a = Nil THEN Here(E, <<Nil>>)
           ELSE LET ch == ChainOf(E, s.a) k == Len(ch)
                    at == CHOOSE j \in 1 .. k : ch[j] = s.a
                IN State(pop + k, E \cup {<<pop + j, pop + j + 1>> : j \in 1 .. k - 1},
                         txt \o [j \in 1 .. k |-> txt[ch[j]]], kd \o [j \in 1 .. k |-> kd[ch[j]]],
                         ln \o [j \in 1 .. k |-> ln[ch[j]]], <<pop + at>>)
      [] s.op = "First" -> Here(E, <<IF s.a = Nil THEN Nil ELSE ChainOf(E, s.a)[1]>>)
      [] s.op = "Last"  -> Here(E, <<IF s.a = Nil THEN Nil ELSE LET ch == ChainOf(E, s.a) IN ch[Len(ch)]>>)
      \* r: the visited nodes, then what was returned
      [] s.op = "IterNext" -> Here(E, IF s.a = Nil THEN <<Nil>> ELSE (<<s.a>> \o Behind(E, s.a)) \o <<Nil>>)
      [] s.op = "IterPrev" -> Here(E, IF s.a = Nil THEN <<Nil>> ELSE (<<s.a>> \o Before(E, s.a)) \o <<Nil>>)

Possible(s) == /\ s.op \in Binary => Allowed(E, s.op, s.a, s.b)
               /\ s.op \in Join => Distinct(s.args)

\* both directions agree, no ring, no foreign node
ObservedOk(s) ==
    /\ \A a \in 1 .. Len(s.nx) :
         /\ s.nx[a] # -1 /\ s.pv[a] # -1
         /\ (s.nx[a] # Nil => s.pv[s.nx[a]] = a)
         /\ (s.pv[a] # Nil => s.nx[s.pv[a]] = a)
    /\ Linked({<<a, s.nx[a]>> : a \in {b \in 1 .. Len(s.nx) : s.nx[b] # Nil}})

Step ==
    /\ i < Len(Steps)
    /\ LET s == Steps[i + 1] IN
       IF bad # {} THEN UNCHANGED <<pop, E, txt, kd, ln, bad>>
       ELSE IF ~Possible(s) THEN bad' = {<<"impossible", i>>} /\ UNCHANGED <<pop, E, txt, kd, ln>>
       ELSE LET w == After(s)
                same == /\ s.r = w.r
                        /\ Len(s.nx) = w.pop
                        /\ \A a \in 1 .. w.pop : s.nx[a] = Nxt(w.E, a) /\ s.pv[a] = Prv(w.E, a)
                        /\ s.tx = w.txt /\ s.ks = w.kd /\ s.ln = w.ln
            IN /\ bad' = (IF ~ObservedOk(s) THEN {<<"C08", i>>} ELSE {})
                         \cup (IF ~same THEN {<<Property(s.op), i>>} ELSE {})
                         \* no call moves a node that is there to another line
                         \cup (IF Len(s.nx) = w.pop /\ s.ln # w.ln THEN {<<"C03", i>>} ELSE {})
               /\ pop' = w.pop /\ E' = w.E /\ txt' = w.txt /\ kd' = w.kd /\ ln' = w.ln
    /\ i' = i + 1
    /\ UNCHANGED c

Next == Step
Spec == Init /\ [][Next]_vars

Holds(id) == \A b \in bad : b[1] # id
WellFormed     == Holds("impossible")
C08_Links      == Holds("C08")
C03_Lines      == Holds("C03")
C09_Edits      == Holds("C09")
C10_Combine    == Holds("C10")
C11_Copies     == Holds("C11")
C12_Walks      == Holds("C12")
=============================================================================
