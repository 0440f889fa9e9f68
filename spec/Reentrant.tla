----------------------------- MODULE Reentrant -----------------------------
(***************************************************************************)
(* Calls made at the same time.  Objects are parsed texts: <<text,         *)
(* version>>, where the version counts the edits of its nodes.  A round    *)
(* is a list of calls that do not touch what another one changes; they     *)
(* take effect in any order.  However they are ordered, results, objects   *)
(* and files have to be those of the calls made one after the other: that  *)
(* is checked here for every order, and the rounds are replayed into the   *)
(* code with one goroutine per call.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Texts,      \* number of texts
          NFiles,     \* number of files
          MaxObjs, Width, Rounds,
          Random      \* TRUE: one random round at a time, calls in order

VARIABLES objs, files, round, pend, res, seqd, hist
vars == <<objs, files, round, pend, res, seqd, hist>>

Missing == <<0, 0>>

\* [op, o: object read or changed, f: file or text, new: object it makes]
Calls(os, fs) ==
    {<<"parse", 0, t>> : t \in 1 .. Texts}
    \cup {<<op, o, 0>> : op \in {"read", "names", "describe", "edit"}, o \in 1 .. Len(os)}
    \cup {<<"copy", o, 0>> : o \in 1 .. Len(os)}
    \cup {<<"save", o, f>> : o \in 1 .. Len(os), f \in 1 .. NFiles}
    \cup {<<"load", 0, f>> : f \in {g \in 1 .. NFiles : fs[g] # Missing}}

Makes(c)      == c[1] \in {"parse", "copy", "load"}
ReadsObj(c)   == IF c[1] \in {"read", "names", "describe", "copy", "save"} THEN {c[2]} ELSE {}
WritesObj(c)  == IF c[1] = "edit" THEN {c[2]} ELSE {}
ReadsFile(c)  == IF c[1] = "load" THEN {c[3]} ELSE {}
WritesFile(c) == IF c[1] = "save" THEN {c[3]} ELSE {}
Conflict(c, d) ==
    \/ WritesObj(c) \cap (ReadsObj(d) \cup WritesObj(d)) # {}
    \/ WritesObj(d) \cap ReadsObj(c) # {}
    \/ WritesFile(c) \cap (ReadsFile(d) \cup WritesFile(d)) # {}
    \/ WritesFile(d) \cap ReadsFile(c) # {}
Free(r) == \A j, k \in 1 .. Len(r) : j < k => ~Conflict(r[j], r[k])

\* the object that call k of a round makes
RECURSIVE MadeBefore(_, _)
MadeBefore(r, k) == IF k = 0 THEN 0 ELSE MadeBefore(r, k - 1) + (IF Makes(r[k]) THEN 1 ELSE 0)
Made(r) == MadeBefore(r, Len(r))
NewId(base, r, k) == base + MadeBefore(r, k)

\* effect of call k; st = [objs, files, res]
Effect(st, base, r, k) ==
    LET c == r[k] n == NewId(base, r, k) IN
    CASE c[1] = "parse" -> [st EXCEPT !.objs[n] = <<c[3], 0>>, !.res[k] = <<c[3], 0>>]
      [] c[1] = "load"  -> [st EXCEPT !.objs[n] = st.files[c[3]], !.res[k] = st.files[c[3]]]
      [] c[1] = "copy"  -> [st EXCEPT !.objs[n] = st.objs[c[2]], !.res[k] = st.objs[c[2]]]
      [] c[1] = "edit"  -> [st EXCEPT !.objs[c[2]][2] = @ + 1, !.res[k] = <<st.objs[c[2]][1], st.objs[c[2]][2] + 1>>]
      [] c[1] = "save"  -> [st EXCEPT !.files[c[3]] = st.objs[c[2]], !.res[k] = st.objs[c[2]]]
      [] OTHER          -> [st EXCEPT !.res[k] = st.objs[c[2]]]

RECURSIVE InOrder(_, _, _, _)
InOrder(st, base, r, k) == IF k > Len(r) THEN st ELSE InOrder(Effect(st, base, r, k), base, r, k + 1)

Room(r) == [objs |-> objs \o [k \in 1 .. Made(r) |-> Missing], files |-> files, res |-> [k \in 1 .. Len(r) |-> Missing]]

Begin(r) ==
    /\ Free(r)
    /\ Len(objs) + Made(r) <= MaxObjs
    /\ \A k \in 1 .. Len(r) : r[k][1] = "edit" => objs[r[k][2]][2] < 9
    /\ objs' = Room(r).objs /\ files' = files
    /\ round' = r /\ pend' = 1 .. Len(r) /\ res' = Room(r).res
    /\ seqd' = InOrder(Room(r), Len(objs), r, 1)
    /\ hist' = hist

\* a random round: calls that do not fit are left out
RECURSIVE Grow(_, _, _)
Grow(r, C, n) == IF n = 0 THEN r
                 ELSE LET c == RandomElement(C) IN
                      IF (\A k \in 1 .. Len(r) : ~Conflict(r[k], c)) /\ (Makes(c) => Len(objs) + Made(r) < MaxObjs)
                         /\ (c[1] = "edit" => objs[c[2]][2] < 9)
                      THEN Grow(Append(r, c), C, n - 1) ELSE Grow(r, C, n - 1)
Start == /\ pend = {} /\ round = <<>> /\ Len(hist) < Rounds
         /\ IF Random
              THEN \E r \in {Grow(<<>>, Calls(objs, files), Width)} : Len(r) > 0 /\ Begin(r)
              ELSE \E n \in 1 .. Width : \E r \in [1 .. n -> Calls(objs, files)] : Begin(r)

Base == Len(objs) - Made(round)
Perform(k) ==
    LET st == Effect([objs |-> objs, files |-> files, res |-> res], Base, round, k) IN
    /\ objs' = st.objs /\ files' = st.files /\ res' = st.res
    /\ pend' = pend \ {k}
    /\ UNCHANGED <<round, seqd, hist>>
Step == /\ pend # {}
        /\ IF Random THEN Perform(CHOOSE k \in pend : \A j \in pend : k <= j)
                     ELSE \E k \in pend : Perform(k)
Finish == /\ pend = {} /\ round # <<>>
          /\ hist' = Append(hist, <<round, res, objs, files>>)
          /\ round' = <<>> /\ res' = <<>>
          /\ UNCHANGED <<objs, files, pend, seqd>>

Init == /\ objs = <<>> /\ files = [f \in 1 .. NFiles |-> Missing]
        /\ round = <<>> /\ pend = {} /\ res = <<>> /\ seqd = <<>> /\ hist = <<>>
Next == Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars

\* whatever the order was, everything is as if there had been no other
Commute == (round # <<>> /\ pend = {}) => [objs |-> objs, files |-> files, res |-> res] = seqd
\* no call sees what another one of its round makes
Apart   == round # <<>> => \A k \in 1 .. Len(round) : round[k][2] <= Base
Emit    == ~(Len(hist) = Rounds /\ round = <<>>) \/ PrintT(ToString(hist))
=============================================================================
