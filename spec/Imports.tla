------------------------------ MODULE Imports ------------------------------
(***************************************************************************)
(* Saving with imports put right.                                          *)
(*                                                                         *)
(* A file has import declarations, each a sequence of <<name, path>> in    *)
(* one or several groups, and funcs that use packages.  Saving with        *)
(* automatic import keeps the imports that are used or that stand for      *)
(* their effects, removes the others, and adds the ones that are missing;  *)
(* everything else stays.  Saving without leaves all imports as they are.  *)
(* Imports are a set here: where an added one is put is a matter of taste. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxDecls, MaxFuncs

VARIABLES decls, funcs, broken, saved
vars == <<decls, funcs, broken, saved>>

\* what a func of a kind uses
Uses == [fmt |-> "fmt", os |-> "os", filepath |-> "path/filepath", strings |-> "strings", b64 |-> "encoding/base64", none |-> ""]
Kinds == DOMAIN Uses

\* <<in parentheses, specs>>; a spec is <<name, path, remark>>
Single(n, p)  == <<FALSE, <<<<n, p, "">>>>>>
Shapes == {
  Single("", "fmt"), Single("", "os"), Single("_", "embed"), Single(".", "math"), Single("b64", "encoding/base64"), Single("filepath", "path/filepath"),
  <<FALSE, <<<<"", "fmt", "// for x">>>>>>,
  <<TRUE, <<>>>>,
  <<TRUE, <<<<"", "fmt", "">>>>>>,
  <<TRUE, <<<<"", "fmt", "">>, <<"", "os", "">>>>>>,
  <<TRUE, <<<<"", "fmt", "">>, <<"", "", "">>, <<"", "os", "">>, <<"", "strings", "">>>>>>,
  <<TRUE, <<<<"_", "embed", "// func f() {">>, <<"", "os", "">>, <<"", "", "">>, <<"b64", "encoding/base64", "">>>>>>,
  <<TRUE, <<<<"str", "strings", "">>, <<"", "path/filepath", "/* y */">>>>>>,
  <<TRUE, <<<<"_", "net/http/pprof", "">>>>>> }

Specs(ds) == UNION {{<<ds[k][2][j][1], ds[k][2][j][2]>> : j \in {i \in 1 .. Len(ds[k][2]) : ds[k][2][i][2] # ""}} : k \in 1 .. Len(ds)}
Pathes(s) == {x[2] : x \in s}
Name(x)   == IF x[1] # "" THEN x[1] ELSE IF x[2] = "path/filepath" THEN "filepath" ELSE x[2]
Effect(x) == x[1] \in {"_", "."}
Used      == {funcs[k] : k \in 1 .. Len(funcs)} \ {"none"}

Right(s) == {x \in s : Effect(x) \/ Name(x) \in Used}
            \cup {<<(IF u = "b64" THEN "b64" ELSE ""), Uses[u]>> : u \in {w \in Used : ~\E x \in s : Name(x) = w}}

Init == decls = <<>> /\ funcs = <<>> /\ broken = FALSE /\ saved = <<>>
Import == /\ saved = <<>> /\ funcs = <<>> /\ Len(decls) < MaxDecls
          /\ \E d \in Shapes : Specs(<<d>>) \cap Specs(decls) = {} /\ Pathes(Specs(<<d>>)) \cap Pathes(Specs(decls)) = {} /\ decls' = Append(decls, d)
          /\ UNCHANGED <<funcs, broken, saved>>
Func   == /\ saved = <<>> /\ Len(funcs) < MaxFuncs
          /\ \E k \in Kinds : (k = "b64" => \E x \in Specs(decls) : x[1] = "b64") /\ funcs' = Append(funcs, k)
          /\ UNCHANGED <<decls, broken, saved>>
Save   == /\ saved = <<>>
          /\ \E auto \in BOOLEAN : \E b \in BOOLEAN :
             /\ broken' = b
             /\ saved' = <<auto, IF auto /\ ~b THEN Right(Specs(decls)) ELSE Specs(decls)>>
          /\ UNCHANGED <<decls, funcs>>
Next == Import \/ Func \/ Save
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Design properties: what is used is imported, once, and nothing else is  *)
(* but for its effects; putting right again changes nothing.               *)
(***************************************************************************)
Complete == (saved # <<>> /\ saved[1] /\ ~broken) =>
    /\ \A u \in Used : Cardinality({x \in saved[2] : Name(x) = u /\ ~Effect(x)}) = 1
    /\ \A x \in saved[2] : Effect(x) \/ Name(x) \in Used
    /\ Right(saved[2]) = saved[2]
Untouched == (saved # <<>> /\ (~saved[1] \/ broken)) => saved[2] = Specs(decls)

Emit == saved = <<>> \/ PrintT(ToString(<<decls, funcs, broken, saved[1], saved[2]>>))
=============================================================================
