------------------------------- MODULE GoLex -------------------------------
(***************************************************************************)
(* The lexical state machine behind goast's parser, one symbol per step.   *)
(*                                                                         *)
(* A text is a sequence of symbols.  A symbol is either one "special" byte *)
(* (separators, quotes, slash, star, backslash; its byte value) or a       *)
(* maximal run of other bytes, interned to a number >= 256.  Interning is  *)
(* injective, so equality of symbol sequences is equality of texts.        *)
(*                                                                         *)
(* The same operators drive the generator (GenLex: every text up to a      *)
(* bound, expected tokens emitted and replayed into the code) and the      *)
(* trace specification (TraceText: what the code produced for a recorded   *)
(* text has to be what this machine produces).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

TAB == 9   NL == 10   CR == 13   SP == 32   DQ == 34   SQ == 39
LP == 40   RP == 41   STAR == 42 COMMA == 44 SLASH == 47 COLON == 58
SEMI == 59 LB == 91   BSL == 92  RB == 93   BQ == 96   LC == 123  RC == 125

Separators == {SP, LB, RB, LP, RP, LC, RC, COMMA, COLON, SEMI, NL, TAB, CR}
Quotes     == {DQ, BQ, SQ}
Openings   == {LP, LC, LB}
Closings   == {RP, RC, RB}
Specials   == Separators \cup Quotes \cup {SLASH, STAR, BSL}

\* interned runs with a meaning of their own (same numbers in driver/sym.go)
KwPackage == 256  KwImport == 257  KwVar == 258  KwConst == 259
KwType    == 260  KwFunc   == 261  KwMap == 262  KwChan  == 263
KwStruct  == 264  KwInterface == 265
FirstPlain == 280

At(t, i) == IF i >= 1 /\ i <= Len(t) THEN t[i] ELSE -1

OpensLine(t, i)  == At(t, i) = SLASH /\ At(t, i + 1) = SLASH
OpensBlock(t, i) == At(t, i) = SLASH /\ At(t, i + 1) = STAR

(* Modes.  "gap": the next symbol starts a token.  "word": inside a run of *)
(* word symbols.  "lc0"/"lc": line comment (before/after its second        *)
(* slash).  "bc0"/"bc"/"bcs": block comment (before its star / inside /    *)
(* inside, last symbol was a star that may close it).  "str"/"strE",       *)
(* "rune"/"runeE": interpreted literals and their escape state.  "raw".    *)
Modes == {"gap", "word", "lc0", "lc", "bc0", "bc", "bcs",
          "str", "strE", "rune", "runeE", "raw"}

\* token classes
Classes == {"sep", "word", "line", "block", "string", "raw", "rune"}

\* the class of a token that starts at position i
ClassAt(t, i) ==
    CASE t[i] \in Separators -> "sep"
      [] t[i] = DQ           -> "string"
      [] t[i] = BQ           -> "raw"
      [] t[i] = SQ           -> "rune"
      [] OpensLine(t, i)     -> "line"
      [] OpensBlock(t, i)    -> "block"
      [] OTHER               -> "word"

\* does symbol i continue the token the machine is in?
Continues(t, i, mode) ==
    CASE mode = "gap"  -> FALSE
      [] mode = "word" -> ClassAt(t, i) = "word"
      [] mode = "lc"   -> t[i] # NL
      [] OTHER         -> TRUE

\* the mode after the first symbol of a token of class cl
Enter(cl) ==
    CASE cl = "sep"    -> "gap"
      [] cl = "word"   -> "word"
      [] cl = "line"   -> "lc0"
      [] cl = "block"  -> "bc0"
      [] cl = "string" -> "str"
      [] cl = "raw"    -> "raw"
      [] cl = "rune"   -> "rune"

\* the mode after a symbol s that continues the token
Advance(mode, s) ==
    CASE mode = "word" -> "word"
      [] mode = "lc0"  -> "lc"
      [] mode = "lc"   -> "lc"
      [] mode = "bc0"  -> "bc"
      [] mode = "bc"   -> IF s = STAR THEN "bcs" ELSE "bc"
      [] mode = "bcs"  -> IF s = SLASH THEN "gap" ELSE IF s = STAR THEN "bcs" ELSE "bc"
      [] mode = "str"  -> IF s = BSL THEN "strE" ELSE IF s = DQ THEN "gap" ELSE "str"
      [] mode = "strE" -> "str"
      [] mode = "rune" -> IF s = BSL THEN "runeE" ELSE IF s = SQ THEN "gap" ELSE "rune"
      [] mode = "runeE" -> "rune"
      [] mode = "raw"  -> IF s = BQ THEN "gap" ELSE "raw"

\* one step of the machine: does symbol i start a token, and the next mode
Starts(t, i, mode)   == ~Continues(t, i, mode)
NextMode(t, i, mode) == IF Starts(t, i, mode) THEN Enter(ClassAt(t, i))
                                              ELSE Advance(mode, t[i])

\* a word token that starts at i and consists of this one symbol
LoneWord(t, i) == ClassAt(t, i) = "word"
                  /\ (i = Len(t) \/ ClassAt(t, i + 1) # "word")

\* the lexical kind of the token that starts at i, as far as it is decided by
\* separators, literals, comments and the keywords the parser looks for
LexKind(t, i) ==
    LET cl == ClassAt(t, i) s == t[i] IN
    CASE cl \in {"line", "block"}  -> "Comment"
      [] cl \in {"string", "raw"}  -> "String"
      [] cl = "rune"               -> "rune"
      [] cl = "sep" ->
          (CASE s = TAB -> "Tab"       [] s = SP -> "Space"
             [] s = NL -> "NewLine"    [] s = COMMA -> "Comma"
             [] s = COLON -> "Colon"   [] s = SEMI -> "Semicolon"
             [] s = LP -> "ParenthesisLeft"    [] s = RP -> "ParenthesisRight"
             [] s = LC -> "CurlyBracketLeft"   [] s = RC -> "CurlyBracketRight"
             [] s = LB -> "SquareBracketLeft"  [] s = RB -> "SquareBracketRight"
             [] s = CR -> "Separator")
      [] LoneWord(t, i) /\ s = KwPackage -> "Package"
      [] LoneWord(t, i) /\ s = KwImport  -> "Import"
      [] LoneWord(t, i) /\ s = KwVar     -> "Var"
      [] LoneWord(t, i) /\ s = KwConst   -> "Const"
      [] LoneWord(t, i) /\ s = KwType    -> "Type"
      [] LoneWord(t, i) /\ s = KwFunc    -> "Func"
      [] LoneWord(t, i) /\ s = KwMap     -> "Map"
      [] LoneWord(t, i) /\ s = KwChan    -> "Channel"
      [] LoneWord(t, i) /\ s = KwStruct  -> "Struct"
      [] LoneWord(t, i) /\ s = KwInterface -> "Interface"
      [] OTHER -> "word"

(***************************************************************************)
(* Scopes.  The scope machine reads tokens.  Its state is the bracket      *)
(* depth, the line of the last token that was first on its line, and       *)
(* whether only block comments and spaces were seen on this line so far.   *)
(***************************************************************************)
ScopeInit == [depth |-> 0, line |-> -1, leading |-> FALSE]

ScopeKind(t, i) ==
    LET cl == ClassAt(t, i) s == t[i] IN
    CASE cl = "line"  -> "Comment"
      [] cl = "block" -> "InnerComment"
      [] cl = "word" /\ LoneWord(t, i) ->
          (CASE s = KwPackage -> "Package"  [] s = KwImport -> "Import"
             [] s = KwVar -> "Variable"     [] s = KwConst  -> "Const"
             [] s = KwType -> "Type"        [] s = KwFunc   -> "Func"
             [] OTHER -> "Unknown")
      [] OTHER -> "Unknown"

\* is the token at i (on line ln) looked at as a possible start of a scope?
FirstOnLine(sm, ln) == ln # sm.line \/ sm.leading

ScopeStarts(sm, t, i, ln) ==
    /\ FirstOnLine(sm, ln)
    /\ sm.depth = 0
    /\ ScopeKind(t, i) # "Unknown"
    /\ ~(sm.leading /\ ScopeKind(t, i) \in {"Comment", "InnerComment"})

ScopeStep(sm, t, i, ln) ==
    LET sep   == ClassAt(t, i) = "sep"
        depth == IF sep /\ t[i] \in Openings THEN sm.depth + 1
                 ELSE IF sep /\ t[i] \in Closings /\ sm.depth > 0 THEN sm.depth - 1
                 ELSE sm.depth
        sk    == ScopeKind(t, i)
    IN IF ~FirstOnLine(sm, ln) THEN [sm EXCEPT !.depth = depth]
       ELSE IF sm.depth # 0 THEN [depth |-> depth, line |-> ln, leading |-> FALSE]
       ELSE IF sm.leading /\ (t[i] = SP \/ sk \in {"Comment", "InnerComment"})
            THEN [depth |-> depth, line |-> ln, leading |-> TRUE]
       ELSE [depth |-> depth, line |-> ln, leading |-> sk = "InnerComment"]

(***************************************************************************)
(* Whole-text evaluation of the machine (used by the generator).           *)
(* Result: a sequence of [at, cl, ln]: start, class and line of each token.*)
(***************************************************************************)
RECURSIVE LexFrom(_, _, _, _, _)
LexFrom(t, i, mode, ln, acc) ==
    IF i > Len(t) THEN acc
    ELSE LexFrom(t, i + 1, NextMode(t, i, mode),
                 IF t[i] = NL THEN ln + 1 ELSE ln,
                 IF Starts(t, i, mode)
                   THEN Append(acc, [at |-> i, cl |-> ClassAt(t, i), ln |-> ln])
                   ELSE acc)
Lex(t) == LexFrom(t, 1, "gap", 0, <<>>)
=============================================================================
