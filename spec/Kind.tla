-------------------------------- MODULE Kind --------------------------------
(***************************************************************************)
(* The classification of single words, of brackets and of scopes.          *)
(* Words are built character by character (every word of at most MaxLen    *)
(* characters of Chars) or taken from the dictionary of the language and   *)
(* varied by one character, or made long by repetition.  Each word is emitted with its kind and        *)
(* replayed into the classification of the code.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, FiniteSets

CONSTANT MaxLen

Digits  == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Symbols == {"+", "&", "=", "!", "(", ")", "-", "|", "<", "[", "]", "*", "^",
            ">", "{", "}", "/", ":", ",", ";", "%", ".", "~"}
Separators == {" ", "[", "]", "(", ")", "{", "}", ",", ":", ";", "\n", "\t", "\r"}

\* words that are a kind of their own
Own == [w \in {"\t", " ", ",", ":", "\n", ";", "(", ")", "{", "}", "[", "]",
               "import", "var", "const", "map", "chan", "func", "type",
               "struct", "interface", "package"} |->
    CASE w = "\t" -> "Tab"    [] w = " " -> "Space"     [] w = "," -> "Comma"
      [] w = ":" -> "Colon"   [] w = "\n" -> "NewLine"  [] w = ";" -> "Semicolon"
      [] w = "(" -> "ParenthesisLeft"    [] w = ")" -> "ParenthesisRight"
      [] w = "{" -> "CurlyBracketLeft"   [] w = "}" -> "CurlyBracketRight"
      [] w = "[" -> "SquareBracketLeft"  [] w = "]" -> "SquareBracketRight"
      [] w = "import" -> "Import"        [] w = "var" -> "Var"
      [] w = "const" -> "Const"          [] w = "map" -> "Map"
      [] w = "chan" -> "Channel"         [] w = "func" -> "Func"
      [] w = "type" -> "Type"            [] w = "struct" -> "Struct"
      [] w = "interface" -> "Interface"  [] w = "package" -> "Package"]

Keywords == {"break", "default", "func", "interface", "select", "case", "defer",
  "go", "map", "struct", "chan", "else", "goto", "package", "switch", "const",
  "fallthrough", "if", "range", "type", "continue", "for", "import", "return", "var"}
BasicTypes == {"bool", "string", "byte", "rune", "int", "uint", "int8", "uint8",
  "int16", "uint16", "int32", "uint32", "int64", "uint64", "uintptr", "float32",
  "float64", "complex64", "complex128"}

Char(w, i) == SubSeq(w, i, i)
All(w, S)  == \A i \in 1 .. Len(w) : Char(w, i) \in S

KindOf(w) ==
    CASE w = ""                       -> ""
      [] w \in DOMAIN Own             -> Own[w]
      [] All(w, Digits)               -> "Number"
      [] w \in Separators             -> "Separator"
      [] Char(w, 1) \in {"\"", "`"}   -> "String"
      [] w \in Keywords               -> "Keyword"
      [] w \in BasicTypes             -> "BasicType"
      [] All(w, Symbols)              -> "Symbol"
      [] OTHER                        -> "Raw"

Closing == [w \in {"(", ")", "{", "}", "[", "]"} |->
    CASE w = "(" -> ")" [] w = ")" -> "(" [] w = "{" -> "}"
      [] w = "}" -> "{" [] w = "[" -> "]" [] w = "]" -> "["]

\* the kind of the word that opens a scope of a kind
ScopeToKind == [s \in {"Unknown", "Package", "Comment", "InnerComment", "Import",
                       "Variable", "Const", "Type", "Func"} |->
    CASE s = "Unknown" -> "Raw"          [] s = "Package" -> "Package"
      [] s = "Comment" -> "Comment"      [] s = "InnerComment" -> "Comment"
      [] s = "Import" -> "Import"        [] s = "Variable" -> "Var"
      [] s = "Const" -> "Const"          [] s = "Type" -> "Type"
      [] s = "Func" -> "Func"]

Chars == {"a", "Z", "_", "0", "9", "+", ".", "<", "-", "\"", "`", "'", " ", "\t", "\n",
          "\r", "(", "}", "[", ",", ":", ";", "/", "*", "\\", "$", "@", "e"}
Dict  == Keywords \cup BasicTypes \cup {"any", "error", "comparable", "nil", "true", "iota", "goast"}
Edits == {"", "a", "_", "0", "8", "*", ".", " ", "\"", "s", "S", "I"}
Varied == {p \o d \o s : p \in Edits, d \in Dict, s \in Edits}
          \cup {SubSeq(d, 2, Len(d)) : d \in Dict} \cup {SubSeq(d, 1, Len(d) - 1) : d \in Dict}

\* long words, all of one character but for the first or last
RECURSIVE Rep(_, _)
Rep(w, k) == IF k = 0 THEN "" ELSE IF k % 2 = 1 THEN w \o Rep(w, k - 1) ELSE LET h == Rep(w, k \div 2) IN h \o h
Longs == UNION {{Rep(c, k), Rep(c, k) \o d, d \o Rep(c, k)} : c \in Chars, d \in Chars, k \in {4, 7, 20, 70, 300}}
         \cup {Rep(d, k) : d \in Dict, k \in {2, 3, 40}}

VARIABLES word, grows
Init == \/ word = "" /\ grows = TRUE
        \/ word \in Varied \cup Longs /\ grows = FALSE
Next == /\ grows /\ Len(word) < MaxLen
        /\ \E ch \in Chars : word' = word \o ch
        /\ grows' = grows

\* every word has exactly one kind; closing brackets pair up both ways
Kinds == {"", "Raw", "Number", "Symbol", "BasicType", "Separator", "Keyword", "String"}
         \cup {Own[w] : w \in DOMAIN Own}
OneKind == KindOf(word) \in Kinds
Pairs   == \A w \in DOMAIN Closing : Closing[Closing[w]] = w /\ Closing[w] # w

CloseOf(w) == IF w \in DOMAIN Closing THEN KindOf(Closing[w]) ELSE ""
Emit == PrintT(ToString(<<word, KindOf(word), CloseOf(word)>>))

ASSUME PrintT(ToString(<<"#scopes", {<<s, ScopeToKind[s]>> : s \in DOMAIN ScopeToKind}>>))
ASSUME PrintT(ToString(<<"#sets", Keywords, BasicTypes, Digits, Symbols, Separators>>))
=============================================================================
