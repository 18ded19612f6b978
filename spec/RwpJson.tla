------------------------------ MODULE RwpJson ------------------------------
(* JSON text -> value tree. Objects become functions from key to value,       *)
(* arrays sequences, numbers their spelling, strings the decoded bytes,       *)
(* true/false booleans. Members whose value is null are left out.             *)
EXTENDS RwpText

JWS == {" ", "\t", "\n", "\r"}
RECURSIVE SkipWS(_, _)
SkipWS(s, i) == IF i <= Len(s) /\ Ch(s, i) \in JWS THEN SkipWS(s, i + 1) ELSE i

HexVal == [c \in DigitSet \cup {"a","b","c","d","e","f","A","B","C","D","E","F"} |->
             IF c \in DigitSet THEN DigitVal[c]
             ELSE CASE c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12
                    [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] OTHER -> 15]
(* the printable ASCII characters by code, for \uXXXX below 128 *)
AsciiTab == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiChar(n) == IF n >= 32 /\ n <= 126 THEN Ch(AsciiTab, n - 31)
                ELSE IF n = 9 THEN "\t" ELSE IF n = 10 THEN "\n" ELSE IF n = 13 THEN "\r" ELSE IF n = 12 THEN "\f" ELSE "?"

RECURSIVE RunNear(_, _), RunEnd(_, _)
RunNear(s, i) == IF Ch(s, i) \in {"\"", "\\"} THEN i ELSE RunNear(s, i + 1)
RunEnd(s, i) == IF Len(s) - i >= 128 /\ \A n \in i..(i + 127) : Ch(s, n) \notin {"\"", "\\"}
                THEN RunEnd(s, i + 128) ELSE RunNear(s, i)
RECURSIVE StrBody(_, _, _)
(* <<decoded string, index after the closing quote>>; i is after the opening quote *)
StrBody(s, i, acc) ==
    LET e == RunEnd(s, i)
        a == acc \o SubSeq(s, i, e - 1)
    IN IF Ch(s, e) = "\"" THEN << a, e + 1 >>
       ELSE LET c == Ch(s, e + 1) IN
            IF c = "u"
            THEN StrBody(s, e + 6, a \o AsciiChar(HexVal[Ch(s, e+2)] * 4096 + HexVal[Ch(s, e+3)] * 256
                                                   + HexVal[Ch(s, e+4)] * 16 + HexVal[Ch(s, e+5)]))
            ELSE StrBody(s, e + 2, a \o (CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "r" -> "\r"
                                            [] c = "f" -> "\f" [] OTHER -> c))

RECURSIVE NumEnd(_, _)
NumEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \in DigitSet \cup {"-", "+", ".", "e", "E"} THEN NumEnd(s, i + 1) ELSE i

(* JVal(s, i) = <<value, next index, is it null?>> *)
RECURSIVE JVal(_, _), JMembers(_, _, _), JItems(_, _, _)
JVal(s, i0) ==
    LET i == SkipWS(s, i0) IN
    LET c == Ch(s, i) IN
    CASE c = "{" -> (LET j == SkipWS(s, i + 1) IN
                    IF Ch(s, j) = "}" THEN << [x \in {} |-> 0], j + 1, FALSE >> ELSE JMembers(s, j, [x \in {} |-> 0]))
      [] c = "[" -> (LET j == SkipWS(s, i + 1) IN
                    IF Ch(s, j) = "]" THEN << <<>>, j + 1, FALSE >> ELSE JItems(s, j, <<>>))
      [] c = "\"" -> (LET r == StrBody(s, i + 1, "") IN << r[1], r[2], FALSE >>)
      [] c = "t" -> << TRUE, i + 4, FALSE >>
      [] c = "f" -> << FALSE, i + 5, FALSE >>
      [] c = "n" -> << "", i + 4, TRUE >>
      [] OTHER -> LET e == NumEnd(s, i) IN << SubSeq(s, i, e - 1), e, FALSE >>
JMembers(s, i, acc) ==
    LET k == StrBody(s, SkipWS(s, i) + 1, "") IN
    LET colon == SkipWS(s, k[2]) IN
    LET v == JVal(s, colon + 1) IN
    LET j == SkipWS(s, v[2]) IN
    LET acc2 == IF v[3] THEN acc
                ELSE [x \in DOMAIN acc \cup {k[1]} |-> IF x = k[1] THEN v[1] ELSE acc[x]] IN
    IF Ch(s, j) = "," THEN JMembers(s, SkipWS(s, j + 1), acc2) ELSE << acc2, j + 1, FALSE >>
JItems(s, i, acc) ==
    LET v == JVal(s, i) IN
    LET j == SkipWS(s, v[2]) IN
    IF Ch(s, j) = "," THEN JItems(s, j + 1, Append(acc, v[1])) ELSE << Append(acc, v[1]), j + 1, FALSE >>

JsonParse(s) == JVal(s, 1)[1]
=============================================================================
