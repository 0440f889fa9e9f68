------------------------------- MODULE AstDoc -------------------------------
(***************************************************************************)
(* Documents (asts), the scopes they hold, and the files they are read     *)
(* from and saved to.                                                      *)
(*                                                                         *)
(* A scope is a number; what it contains is an atom, a piece of Go source: *)
(*   P, Q  package clauses      I  import of fmt       C  a line comment   *)
(*   F  func   N  func that uses fmt   V  var   T  type                    *)
(*   U  func that is not formatted, formatting turns it into "u"           *)
(*   B  not Go   L  var of 70 000 bytes                                    *)
(*   G  the comment that marks generated code    H  a go:generate comment  *)
(*   E  a scope without nodes                                              *)
(* and a version, the number in the name it declares, which an edit of its *)
(* nodes counts up.  A document is a file path and a sequence of scopes; a *)
(* file is a sequence of <<atom, version>>.                                *)
(*                                                                         *)
(* Behaviours are histories of calls.  hist records each call with its     *)
(* result and with all documents and files afterwards; a finished history  *)
(* is printed and replayed into the code with real files.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxSteps, MaxDocs, MaxScopes,
          MaxList,   \* scopes in a document
          Long,      \* length of further lists; 0: none
          Tight      \* what the disk has no room for: "none", "L", "all"

LongName == "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnnn"
\* the paths used: path given -> file it means, directory, name, extension
Path == [
  p1 |-> [text |-> "a.go",       file |-> "a.go",       dir |-> "",         name |-> "a.go",  ext |-> ".go"],
  p2 |-> [text |-> "a",          file |-> "a.go",       dir |-> "",         name |-> "a",     ext |-> ""],
  p3 |-> [text |-> "sub/b",      file |-> "sub/b.go",   dir |-> "/sub",     name |-> "b",     ext |-> ""],
  p4 |-> [text |-> "sub/b.go",   file |-> "sub/b.go",   dir |-> "/sub",     name |-> "b.go",  ext |-> ".go"],
  p5 |-> [text |-> "new/d/c.go", file |-> "new/d/c.go", dir |-> "/new/d",   name |-> "c.go",  ext |-> ".go"],
  p6 |-> [text |-> "e.go.txt",   file |-> "e.go.txt.go", dir |-> "",        name |-> "e.go.txt", ext |-> ".txt"],
  \* "blk" is a file, so nothing can lie below it; "dir.go" is a directory
  p7 |-> [text |-> "blk/x.go",   file |-> "blk/x.go",   dir |-> "/blk",     name |-> "x.go",  ext |-> ".go"],
  p8 |-> [text |-> "dir",        file |-> "dir.go",     dir |-> "",         name |-> "dir",   ext |-> ""],
  p9 |-> [text |-> "v1.2/f",     file |-> "v1.2/f.go",  dir |-> "/v1.2",    name |-> "f",     ext |-> ""],
  p10 |-> [text |-> "x.GO",      file |-> "x.GO.go",    dir |-> "",         name |-> "x.GO",  ext |-> ".GO"],
  p11 |-> [text |-> "w//g.go",   file |-> "w/g.go",     dir |-> "/w",       name |-> "g.go",  ext |-> ".go"],
  p12 |-> [text |-> "lib.go/h.go", file |-> "lib.go/h.go", dir |-> "/lib.go", name |-> "h.go", ext |-> ".go"],
  p13 |-> [text |-> "i.go/go",   file |-> "i.go/go.go", dir |-> "/i.go",    name |-> "go",    ext |-> ""],
  p14 |-> [text |-> "k/.go",     file |-> "k/.go",      dir |-> "/k",       name |-> ".go",   ext |-> ".go"],
  p15 |-> [text |-> "z e'/a b",  file |-> "z e'/a b.go", dir |-> "/z e'",   name |-> "a b",   ext |-> ""],
  \* "ln" is a link to the directory "real"
  p16 |-> [text |-> "ln/s.go",   file |-> "real/s.go",  dir |-> "/ln",      name |-> "s.go",  ext |-> ".go"],
  \* the longest name there may be, and one that is too long with ".go"
  p17 |-> [text |-> LongName, file |-> LongName \o ".go", dir |-> "",       name |-> LongName, ext |-> ""],
  p18 |-> [text |-> LongName \o "xxxxxxxxxxxxxx", file |-> "none", dir |-> "", name |-> LongName \o "xxxxxxxxxxxxxx", ext |-> ""]]
Paths  == DOMAIN Path
NoPath == "none"
Files  == {Path[p].file : p \in Paths}
NoFile == {"blk/x.go", "dir.go", "none"}      \* never a regular file

IsPkg(a) == a \in {"P", "Q"}
Note(a)  == a \in {"C", "G", "H"}
KindOf(a) == CASE a \in {"P", "Q"} -> "Package" [] a = "I" -> "Import" [] Note(a) -> "Comment"
               [] a \in {"F", "N", "U", "u", "B"} -> "Func" [] a \in {"V", "L"} -> "Variable" [] a = "T" -> "Type" [] a = "E" -> "Const"

(***************************************************************************)
(* Formatting.                                                             *)
(***************************************************************************)
Has(s, a)  == \E k \in 1 .. Len(s) : s[k][1] = a
HasPkg(s)  == \E k \in 1 .. Len(s) : IsPkg(s[k][1])
PkgAt(s)   == CHOOSE k \in 1 .. Len(s) : IsPkg(s[k][1]) /\ \A j \in 1 .. k - 1 : ~IsPkg(s[j][1])
Code(s)    == SelectSeq(s, LAMBDA x : ~Note(x[1]) /\ x[1] # "E")
Solid(s)   == SelectSeq(s, LAMBDA x : x[1] # "E")   \* what there is in a file
Valid(s) ==
    LET d == Code(s) IN
    \A k \in 1 .. Len(d) :
        /\ d[k][1] # "B"
        /\ IsPkg(d[k][1]) => k = 1
        /\ d[k][1] = "I" => \A j \in 1 .. k - 1 : d[j][1] \in {"P", "Q", "I"}
Pretty(s) == [k \in 1 .. Len(s) |-> IF s[k][1] = "U" THEN <<"u", s[k][2]>> ELSE s[k]]
Format(s) == IF Valid(s) THEN Pretty(Solid(s)) ELSE Solid(s)

\* with imports put right: what is used and missing is added behind the
\* package clause, what is not used is removed
AutoFormat(s0) == LET s == Solid(s0) IN
    IF ~Valid(s) THEN s
    ELSE IF Has(s, "N") /\ ~Has(s, "I")
         THEN LET k == PkgAt(s) IN Pretty(SubSeq(s, 1, k) \o <<<<"I", 0>>>> \o SubSeq(s, k + 1, Len(s)))
    ELSE IF ~Has(s, "N") THEN Pretty(SelectSeq(s, LAMBDA x : x[1] # "I"))
    ELSE Pretty(s)
\* imports are put right in whole files; whether an import that stands there
\* twice is left or merged is not said
AutoOk(s) == HasPkg(s) /\ Cardinality({k \in 1 .. Len(s) : s[k][1] = "I"}) <= 1 /\ (Has(s, "I") => Has(s, "N") \/ (~Has(s, "C") /\ ~Has(s, "G") /\ ~Has(s, "H")))

(***************************************************************************)
(* State.                                                                  *)
(***************************************************************************)
VARIABLES heap,    \* sequence: scope -> <<atom, version>>
          docs,    \* sequence of [path, scopes]
          disk,    \* file -> content; Missing if it does not exist
          hist
vars == <<heap, docs, disk, hist>>

Missing == <<<<"missing", 0>>>>
Broken  == <<<<"broken", 0>>>>        \* was not written to its end
Content(h, ss) == [k \in 1 .. Len(ss) |-> h[ss[k]]]
PackageOf(c)   == IF HasPkg(c) THEN c[PkgAt(c)] ELSE <<"", 0>>

View(h, d) == [k \in 1 .. Len(d) |-> <<d[k].path, d[k].scopes, Content(h, d[k].scopes), PackageOf(Content(h, d[k].scopes))>>]
DiskView(f) == {<<x, f[x]>> : x \in {y \in Files : f[y] # Missing}}
Fits(c)     == CASE Tight = "none" -> TRUE [] Tight = "L" -> ~Has(c, "L") [] Tight = "all" -> Solid(c) = <<>>

Record(call, res, h, d, f) ==
    /\ heap' = h /\ docs' = d /\ disk' = f
    /\ hist' = Append(hist, <<call, res, View(h, d), DiskView(f)>>)

Room(k) == Len(heap) + k <= MaxScopes
Fresh(k) == [j \in 1 .. k |-> Len(heap) + j]
WithDoc(p, ss) == Append(docs, [path |-> p, scopes |-> ss])

\* what new documents are made of
Lists == {c \o p \o i \o t :
            c \in {<<>>, <<"C">>, <<"G">>}, p \in {<<"P">>, <<"Q">>}, i \in {<<>>, <<"I">>},
            t \in {<<>>, <<"F">>, <<"V", "U">>, <<"N">>, <<"C", "T">>, <<"N", "C", "F">>}}
         \cup {<<>>, <<"F">>, <<"C">>, <<"I", "F">>, <<"U", "V">>, <<"F", "P">>, <<"P", "B">>, <<"P", "F", "B", "U">>,
               <<"P", "F", "Q">>, <<"P", "V", "I">>, <<"B">>, <<"C", "C">>, <<"T", "Q", "F">>, <<"P", "L", "U">>, <<"P", "F", "L">>,
               <<"G", "P", "U">>, <<"G", "C", "P", "U", "U">>, <<"P", "G", "U">>, <<"G", "P", "B">>, <<"G", "F">>, <<"H", "P", "U">>, <<"P", "H", "U", "H">>}
Hollow == {<<"E">>, <<"E", "E">>, <<"E", "P", "F">>, <<"P", "E", "U">>, <<"P", "V", "E">>, <<"C", "E", "P", "E", "E", "N">>, <<"E", "B", "P">>, <<"E", "F", "V">>}
Row(k) == [j \in 1 .. k |-> CASE j % 5 = 0 -> "V" [] j % 5 = 1 -> "F" [] j % 5 = 2 -> "C" [] j % 5 = 3 -> "U" [] OTHER -> "T"]
Rows   == IF Long = 0 THEN {} ELSE {Row(Long), Row(Long - 7), Row(3 * Long)}
Files0 == IF Long = 0 THEN Lists
          ELSE Lists \cup {<<"P">> \o w : w \in Rows} \cup {w \o <<"Q">> : w \in Rows} \cup {<<"C", "P", "I", "N">> \o w : w \in Rows} \cup Rows
Large  == {<<"P", "L", "U">>, <<"P", "F", "L">>, <<"Q", "I", "N", "L">>, <<"P", "L", "B">>}
NewRows == {<<"F">>, <<"H", "F">>, <<"G">>, <<"V", "T">>, <<"U">>, <<"N">>, <<"B">>, <<"C">>, <<"E">>, <<"E", "F">>} \cup Rows
V0(l) == [k \in 1 .. Len(l) |-> <<l[k], 0>>]

Pick(S) == RandomElement(S)

\* a file is written by somebody else
Write ==
    \E p \in {Pick(Paths)} : \E l \in {Pick(IF Long = 0 \/ Pick(BOOLEAN) THEN Lists ELSE Files0 \ Lists)} : LET f == Path[p].file IN
      /\ f \notin NoFile /\ Fits(V0(l))
      /\ Record(<<"write", f, l>>, "ok", heap, docs, [disk EXCEPT ![f] = V0(l)])
Delete ==
    \E p \in {Pick(Paths)} : LET f == Path[p].file IN
      /\ disk[f] \notin {Missing, Broken}
      /\ Record(<<"delete", f>>, "ok", heap, docs, [disk EXCEPT ![f] = Missing])

\* reading a file
Parse ==
    /\ Len(docs) < MaxDocs
    /\ \E p \in {Pick(Paths)} : LET f == Path[p].file IN
       disk[f] # Broken /\
       IF f \in NoFile THEN Record(<<"parse", p>>, "error", heap, docs, disk)
       ELSE IF disk[f] = Missing THEN Record(<<"parse", p>>, "notexist", heap, docs, disk)
       ELSE IF ~Valid(disk[f]) THEN Record(<<"parse", p>>, "error", heap, docs, disk)
       ELSE IF ~HasPkg(disk[f]) THEN Record(<<"parse", p>>, "nopackage", heap, docs, disk)
       ELSE /\ Room(Len(disk[f]))
            /\ Record(<<"parse", p>>, "ok", heap \o Format(disk[f]),
                      WithDoc(p, Fresh(Len(disk[f]))), disk)

\* a document made of new scopes
New ==
    /\ Len(docs) < MaxDocs
    /\ \E l \in {Pick(IF Tight = "L" /\ Pick(BOOLEAN) THEN Large ELSE IF Pick(1 .. 6) = 1 THEN Hollow ELSE IF Long = 0 \/ Pick(BOOLEAN) THEN Lists ELSE Files0 \ Lists)} :
       /\ Room(Len(l))
       /\ IF HasPkg(V0(l))
            THEN Record(<<"new", l>>, "ok", heap \o V0(l), WithDoc(NoPath, Fresh(Len(l))), disk)
            ELSE Record(<<"new", l>>, "nopackage", heap \o V0(l), docs, disk)

\* a document made of scopes that exist
Some(d) == IF d = 0 THEN <<>> ELSE docs[d].scopes
Share ==
    /\ Len(docs) < MaxDocs /\ Len(docs) > 0
    /\ \E a \in {Pick(0 .. Len(docs))} : \E b2 \in {Pick(0 .. Len(docs))} :
       LET ss == Some(a) \o Some(b2) IN
       /\ Len(ss) <= MaxList
       /\ Record(<<"share", a, b2>>, IF HasPkg(Content(heap, ss)) THEN "ok" ELSE "nopackage", heap,
                 IF HasPkg(Content(heap, ss)) THEN WithDoc(NoPath, ss) ELSE docs, disk)

\* the scopes of b are set in a copy of a
SetScope ==
    /\ Len(docs) < MaxDocs /\ Len(docs) > 0
    /\ \E a \in {Pick(1 .. Len(docs))} : \E b \in {Pick(0 .. Len(docs))} :
       Record(<<"set", a, b>>, "ok", heap, WithDoc(docs[a].path, Some(b)), disk)

\* scopes of b are appended to a
Append1 ==
    /\ Len(docs) > 0
    /\ \E a \in {Pick(1 .. Len(docs))} : \E b \in {Pick(0 .. Len(docs))} :
       LET ss == docs[a].scopes \o Some(b) IN
       /\ Len(ss) <= MaxList
       /\ Record(<<"append", a, b>>, "ok", heap, [docs EXCEPT ![a].scopes = ss], disk)
AppendNew ==
    /\ Len(docs) > 0
    /\ \E a \in {Pick(1 .. Len(docs))} : \E l \in {Pick(NewRows)} :
       LET ss == docs[a].scopes \o Fresh(Len(l)) IN
       /\ Room(Len(l)) /\ Len(ss) <= MaxList
       /\ Record(<<"appendnew", a, l>>, "ok", heap \o V0(l), [docs EXCEPT ![a].scopes = ss], disk)

Copy ==
    /\ Len(docs) < MaxDocs /\ Len(docs) > 0
    /\ \E a \in {Pick(1 .. Len(docs))} : LET ss == docs[a].scopes IN
       /\ Room(Len(ss))
       /\ Record(<<"copy", a>>, "ok", heap \o Content(heap, ss), WithDoc(docs[a].path, Fresh(Len(ss))), disk)
\* one scope is copied and appended
CopyScope ==
    /\ Len(docs) > 0
    /\ \E a \in {Pick(1 .. Len(docs))} :
       /\ docs[a].scopes # <<>>
       /\ \E k \in {Pick(1 .. Len(docs[a].scopes))} :
          /\ Room(1) /\ Len(docs[a].scopes) < MaxList
          /\ Record(<<"copyscope", a, k>>, "ok", Append(heap, heap[docs[a].scopes[k]]),
                    [docs EXCEPT ![a].scopes = Append(@, Len(heap) + 1)], disk)

\* the nodes of scope k of a document are edited
Edit ==
    /\ Len(docs) > 0
    /\ \E a \in {Pick(1 .. Len(docs))} :
       /\ docs[a].scopes # <<>>
       /\ \E k \in {Pick(1 .. Len(docs[a].scopes))} : LET s == docs[a].scopes[k] IN
          /\ heap[s][1] \notin {"I", "G", "E"} /\ heap[s][2] < 9
          /\ Record(<<"edit", a, k>>, "ok", [heap EXCEPT ![s][2] = @ + 1], docs, disk)

\* saving; nothing is written if there is nothing to save
Save ==
    /\ Len(docs) > 0
    /\ \E a \in {Pick(1 .. Len(docs))} : \E p \in {Pick(Paths)} : \E auto \in {Pick(BOOLEAN)} :
       LET c == Content(heap, docs[a].scopes) f == Path[p].file IN
       /\ auto => AutoOk(c)
       /\ IF ~Fits(c) /\ f \notin NoFile
            THEN Record(<<"save", a, p, auto>>, "error", heap, docs, [disk EXCEPT ![f] = Broken])
          ELSE IF Solid(c) = <<>> \/ f \in NoFile
            THEN Record(<<"save", a, p, auto>>, "error", heap, docs, disk)
            ELSE Record(<<"save", a, p, auto>>, "ok", heap, docs,
                        [disk EXCEPT ![f] = IF auto THEN AutoFormat(c) ELSE Format(c)])

Init == /\ heap = <<>> /\ docs = <<>> /\ hist = <<>>
        /\ disk = [f \in Files |-> Missing]

Next == /\ Len(hist) < MaxSteps
        /\ \/ Write \/ Delete \/ Parse \/ New \/ Share \/ SetScope \/ Append1 \/ AppendNew
           \/ Copy \/ CopyScope \/ Edit \/ Save
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Design properties.                                                      *)
(***************************************************************************)
\* formatting twice is formatting once
Stable == \A f \in Files : disk[f] \notin {Missing, Broken} => Format(Format(disk[f])) = Format(disk[f])
\* scopes of documents exist
Sound  == \A k \in 1 .. Len(docs) : \A j \in 1 .. Len(docs[k].scopes) : docs[k].scopes[j] \in 1 .. Len(heap)
\* a document read from a file has a package
Read   == \A k \in 1 .. Len(docs) : docs[k].path \in Paths \cup {NoPath}

Emit == Len(hist) < MaxSteps \/ PrintT(ToString(hist))
=============================================================================
