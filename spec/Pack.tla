-------------------------------- MODULE Pack --------------------------------
(***************************************************************************)
(* The package clause of a file and what stands around it.  A file is      *)
(* built part by part: what comes before the clause, the clause with blanks*)
(* and comments between its two words, and what follows.  Or there is no   *)
(* clause, only text that looks like one.  The package is the name behind  *)
(* the keyword, and nothing else.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANT MaxBefore

VARIABLES text, stage, name, before
vars == <<text, stage, name, before>>

Before == {"// package q\n", "/* package q */ ", "/* package q\n\npackage r */\n", "\n", "//go:build x\n\n", "// \"package q\n",
           "/*package*/ /**/\n", "//\n"}
Gaps   == {" ", "  ", "\t", "\n", " /* q */ ", "/* package q */", " // q\n", " /* q\nr */ ", " /**/ /* q */\t"}
Names  == {"p", "main", "p_test", "string", "int8", "error", "any", "packages", "funcs", "type1", "@e", "@w", "x86", "_p", "P"}
Afters == {"", "\n", " // q\n", " /* q */\n", "/* q */", "\t\n", "\n\nimport \"fmt\"\n", "\n\n// package q\n\nfunc f() {}\n", " // import \"q\"\n\nvar package1 = `\npackage q\n`\n",
           "\n/* package q */\ntype packaged struct {\n\tq package2\n}\n", " /* q\nr */\n"}
\* what looks like a clause but is none
Without == {"", "func f() {\n}\n", "// package q\n", "/*\npackage q\n*/\n", "var package1 = 1\n", "var s = `\npackage q\n`\n", "import \"package q\"\n",
            "// x\n\nfunc packageQ() {}\n", "type packages struct {\n\tpackage1 int\n}\n"}

Init == text = "" /\ stage = "before" /\ name = "" /\ before = 0
Next ==
    \/ /\ stage = "before" /\ before < MaxBefore
       /\ \E b \in Before : text' = text \o b
       /\ before' = before + 1 /\ UNCHANGED <<stage, name>>
    \/ /\ stage = "before"
       /\ \E g \in Gaps : \E n \in Names : text' = text \o "package" \o g \o n /\ name' = n
       /\ stage' = "after" /\ UNCHANGED before
    \/ /\ stage = "after"
       /\ \E a \in Afters : text' = text \o a
       /\ stage' = "done" /\ UNCHANGED <<name, before>>
    \/ /\ stage = "before"
       /\ \E w \in Without : text' = text \o w
       /\ stage' = "done" /\ UNCHANGED <<name, before>>
Spec == Init /\ [][Next]_vars

\* the package is known as soon as the clause is there, and only then
Known == (stage = "before" => name = "") /\ (stage = "after" => name # "")

Emit == stage # "done" \/ PrintT(ToString(<<text, name>>))
=============================================================================
