------------------------------ MODULE RwpText ------------------------------
(* Strings as the ASCII protocol sees them. A TLA+ string stands for a byte  *)
(* string: one character per byte (byte b is the character with code b).     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt   \* FoldLeft: evaluated without recursion, so long sequences stay cheap

Ch(s, k) == SubSeq(s, k, k)

RECURSIVE FindNear(_, _, _), FindFrom(_, _, _)
FindNear(s, c, k) == IF k > Len(s) THEN 0
                     ELSE IF Ch(s, k) = c THEN k ELSE FindNear(s, c, k + 1)
(* first position >= k of character c in s; 0 when there is none (blocks without it are skipped as a whole) *)
FindFrom(s, c, k) == IF Len(s) - k >= 128 /\ \A n \in k..(k + 127) : Ch(s, n) # c
                     THEN FindFrom(s, c, k + 128) ELSE FindNear(s, c, k)
Find(s, c) == FindFrom(s, c, 1)

Split(s, c) ==
    LET cut == FoldLeft(LAMBDA acc, k : IF Ch(s, k) # c THEN acc
                                        ELSE [out |-> Append(acc.out, SubSeq(s, acc.from, k - 1)), from |-> k + 1],
                        [out |-> <<>>, from |-> 1], [k \in 1..Len(s) |-> k])
    IN Append(cut.out, SubSeq(s, cut.from, Len(s)))

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Rest(s, n) == SubSeq(s, n + 1, Len(s))          \* s without its first n characters

DigitSet == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == [c \in DigitSet |->
               CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3
                 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7
                 [] c = "8" -> 8 [] OTHER -> 9]
UpperSet == {SubSeq("ABCDEFGHIJKLMNOPQRSTUVWXYZ", k, k) : k \in 1..26}

AllIn(s, set) == \A k \in 1..Len(s) : Ch(s, k) \in set
IsNat(s) == Len(s) > 0 /\ AllIn(s, DigitSet)
IsIntStr(s) == Len(s) > 0 /\ (IsNat(s) \/ (Ch(s, 1) = "-" /\ IsNat(Rest(s, 1))))

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(Rest(s, 1)) ELSE s
(* canonical decimal spelling of an integer; "" (an omitted field) is 0 *)
CanonInt(s) == IF s = "" THEN "0"
               ELSE IF Ch(s, 1) = "-"
                    THEN LET z == StripZeros(Rest(s, 1)) IN IF z = "0" \/ z = "" THEN "0" ELSE "-" \o z
                    ELSE StripZeros(s)

RECURSIVE ModFrom(_, _, _, _)
ModFrom(s, k, acc, m) == IF k > Len(s) THEN acc
                         ELSE ModFrom(s, k + 1, (acc * 10 + DigitVal[Ch(s, k)]) % m, m)
(* value of a natural number's spelling modulo 2^16: all packed fields live there *)
Low16(s) == IF s = "" THEN 0 ELSE ModFrom(s, 1, 0, 65536)
(* value of a short natural number (at most 9 digits) *)
SmallNat(s) == IF s = "" THEN 0 ELSE ModFrom(s, 1, 0, 100000000)

RECURSIVE NatStr(_)
NatStr(n) == IF n < 10 THEN SubSeq("0123456789", n + 1, n + 1)
             ELSE NatStr(n \div 10) \o SubSeq("0123456789", (n % 10) + 1, (n % 10) + 1)

Bits(n, shift, width) == (n \div (2 ^ shift)) % (2 ^ width)

WS == {" ", "\t", "\n", "\r", "\f"}
RECURSIVE TrimL(_)
TrimL(s) == IF Len(s) > 0 /\ Ch(s, 1) \in WS THEN TrimL(Rest(s, 1)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in WS THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))
Chars(s) == [k \in 1..Len(s) |-> Ch(s, k)]
(* the non-whitespace characters of s, in order *)
NoWS(s) == SelectSeq(Chars(s), LAMBDA c : c \notin WS)

(* canonical spelling of a decimal fraction: no trailing zeros, no trailing point *)
RECURSIVE StripTrail(_)
StripTrail(s) == IF Ch(s, Len(s)) = "0" THEN StripTrail(SubSeq(s, 1, Len(s) - 1))
                 ELSE IF Ch(s, Len(s)) = "." THEN SubSeq(s, 1, Len(s) - 1) ELSE s
CanonDec(s) == LET t == IF Find(s, ".") = 0 THEN CanonInt(s)
                        ELSE LET p == Find(s, ".")
                                 ip == SubSeq(s, 1, p - 1)
                                 neg == StartsWith(ip, "-")
                                 ai == StripZeros(IF neg THEN Rest(ip, 1) ELSE ip)
                                 r == StripTrail(ai \o SubSeq(s, p, Len(s)))
                             IN IF r = "0" THEN "0" ELSE (IF neg THEN "-" ELSE "") \o r
               IN t

(* base64 *)
B64Chars == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64Val == [c \in {Ch(B64Chars, k) : k \in 1..64} |-> (CHOOSE k \in 1..64 : Ch(B64Chars, k) = c) - 1]
B64Len(s) == IF Len(s) = 0 THEN 0
             ELSE (Len(s) \div 4) * 3 - (IF Ch(s, Len(s)) = "=" THEN 1 ELSE 0)
                                      - (IF Ch(s, Len(s) - 1) = "=" THEN 1 ELSE 0)
B64At(s, k) == IF Ch(s, k) = "=" THEN 0 ELSE B64Val[Ch(s, k)]
(* byte n (1-based) of the decoded value *)
B64Byte(s, n) == LET q == ((n - 1) \div 3) * 4
                     r == (n - 1) % 3
                 IN CASE r = 0 -> B64At(s, q + 1) * 4 + B64At(s, q + 2) \div 16
                      [] r = 1 -> (B64At(s, q + 2) % 16) * 16 + B64At(s, q + 3) \div 4
                      [] OTHER -> (B64At(s, q + 3) % 4) * 64 + B64At(s, q + 4)
B64Decode(s) == [n \in 1..B64Len(s) |-> B64Byte(s, n)]

(* sequences *)
FlatMap(Op(_), s) == FoldLeft(LAMBDA acc, x : acc \o Op(x), <<>>, s)
Concat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
(* flat splits into consecutive segments, segment k the same as exp[k] *)
SegmentedBy(Same(_, _), exp, flat) ==
    FoldLeft(LAMBDA at, e : IF at < 0 \/ at + Len(e) > Len(flat) THEN -1
                            ELSE IF Same(e, SubSeq(flat, at + 1, at + Len(e))) THEN at + Len(e) ELSE -1,
             0, exp) = Len(flat)
MapSeq(Op(_), s) == [k \in 1..Len(s) |-> Op(s[k])]
(* adjacent equal elements collapsed *)
Dedup(s) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ acc[Len(acc)] = x THEN acc ELSE Append(acc, x), <<>>, s)
(* field of an optional-field record *)
F(r, name, default) == IF name \in DOMAIN r THEN r[name] ELSE default
=============================================================================
