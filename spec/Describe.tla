------------------------------ MODULE Describe ------------------------------
(***************************************************************************)
(* Trees of scopes and nodes and their descriptions.  A node is            *)
(* <<line, text, kind>>, a scope <<line, kind, nodes, skip>>: its chain    *)
(* holds the nodes, and it begins at the one behind the first skip nodes.  *)
(* A tree is a sequence of scopes, built scope by scope and node by node.  *)
(* The description of a tree lists scopes and nodes in order, each with    *)
(* its line counted from one, and leaves out what lies in front of the node*)
(* a scope begins at.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxScopes, MaxNodes, Wide  \* Wide: all kinds and texts, at random

VARIABLES tree, desc
vars == <<tree, desc>>

\* kinds of nodes and how they are shown
NodeKinds == [k \in {"None", "Raw", "Comment", "Number", "Symbol", "Basic", "Separator", "Keyword", "Tab", "Space", "Comma", "Colon",
    "NewLine", "Semicolon", "ParenthesisLeft", "ParenthesisRight", "CurlyBracketLeft", "CurlyBracketRight", "SquareBracketLeft",
    "SquareBracketRight", "Pointer", "Address", "Import", "Var", "Const", "Map", "Channel", "Func", "Type", "Struct", "Interface",
    "Package", "FuncName", "TypeName", "TypeAliasType", "ParamName", "ParamType", "MethodReceiverName", "MethodReceiverType", "String",
    "Method"} |-> CASE k = "None" -> "" [] k = "Basic" -> "BasicType" [] OTHER -> k]
ScopeKinds == {"Unknown", "Package", "Comment", "InnerComment", "Import", "Variable", "Const", "Type", "Func"}

\* texts as they are and as they are shown
Texts == {<<"", "">>, <<"x", "x">>, <<" ", ".">>, <<"\n", "\\n">>, <<"\t", " -> ">>, <<"a b", "a.b">>, <<"a\n\tb\n", "a\\n -> b\\n">>,
          <<"\\n", "\\n">>, <<"// c ", "//.c.">>, <<"%d%s", "%d%s">>, <<"  ", "..">>, <<" ->", ".->">>, <<"....", "....">>, <<"\r\n", ".\\n">>}
Lines == {0, 1, 8, 99}
SmallNodes  == {<<0, <<"", "">>, "None">>, <<3, <<"a b", "a.b">>, "Raw">>}
SmallScopes == {<<0, "Func">>, <<4, "Unknown">>}

Pick(S) == RandomElement(S)

NewScope ==
    /\ Len(tree) < MaxScopes
    /\ \E s \in IF Wide THEN {<<Pick(Lines), Pick(ScopeKinds)>>} ELSE SmallScopes :
       /\ tree' = Append(tree, <<s[1], s[2], <<>>, 0>>)
       /\ desc' = Append(desc, <<s[1] + 1, "scope", s[2]>>)
NewNode ==
    /\ tree # <<>> /\ Len(tree[Len(tree)][3]) < MaxNodes
    /\ \E n \in IF Wide THEN {<<Pick(Lines), Pick(Texts), Pick(DOMAIN NodeKinds)>>} ELSE SmallNodes :
       /\ tree' = [tree EXCEPT ![Len(tree)][3] = Append(@, <<n[1], n[2][1], n[3]>>)]
       /\ desc' = Append(desc, <<n[1] + 1, "node", NodeKinds[n[3]], n[2][2]>>)
\* the last scope is made to begin at its next node
Skip ==
    /\ tree # <<>>
    /\ LET s == tree[Len(tree)] IN
       /\ Len(s[3]) > s[4] + 1
       /\ tree' = [tree EXCEPT ![Len(tree)][4] = @ + 1]
       /\ LET at == Len(desc) - (Len(s[3]) - s[4]) + 1 IN
          desc' = SubSeq(desc, 1, at - 1) \o SubSeq(desc, at + 1, Len(desc))

Init == tree = <<>> /\ desc = <<>>
Next == NewScope \/ NewNode \/ Skip
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The description, built step by step, is that of the tree as a whole.    *)
(***************************************************************************)
RECURSIVE Nodes(_, _)
Nodes(ns, k) == IF k > Len(ns) THEN <<>> ELSE <<<<ns[k][1] + 1, "node", NodeKinds[ns[k][3]]>>>> \o Nodes(ns, k + 1)
RECURSIVE Whole(_)
Whole(t) == IF t = <<>> THEN <<>>
            ELSE <<<<Head(t)[1] + 1, "scope", Head(t)[2]>>>> \o Nodes(Head(t)[3], Head(t)[4] + 1) \o Whole(Tail(t))
Complete == [k \in 1 .. Len(desc) |-> SubSeq(desc[k], 1, 3)] = Whole(tree)

Emit == PrintT(ToString(<<tree, desc>>))
=============================================================================
