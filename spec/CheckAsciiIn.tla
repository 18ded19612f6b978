---------------------------- MODULE CheckAsciiIn ----------------------------
(* C01/C02: recorded conversions of the real code against AsciiIn.             *)
(*  enc: the lines produced for a message list (counts: lines per message)     *)
(*  dec: the messages decoded from a list of lines                             *)
EXTENDS AsciiIn, TraceTree
LOCAL INSTANCE SequencesExt

(* lines of message k, read in the context of the whole stream *)
(* at: lines consumed so far; -1 once a message has failed *)
EncOK(c) ==
    LET per == ReadLines(c.lines)
        step(at, k) == IF at < 0 \/ at + c.counts[k] > Len(per) THEN -1
                       ELSE LET seg == Concat(SubSeq(per, at + 1, at + c.counts[k])) IN
                            IF SamePanel(seg, MsgIn(c.msgs[k], TRUE)) /\ ClearsFirst(seg) THEN at + c.counts[k] ELSE -1
    IN Len(c.counts) = Len(c.msgs) /\ FoldLeft(step, 0, [k \in 1..Len(c.msgs) |-> k]) = Len(c.lines)
DecOK(c) ==
    LET m(x) == MsgIn(x, FALSE)
        flat == FlatMap(m, c.msgs)
    IN \/ Segmented(ReadLines(c.lines), flat)
       \/ c.stream /\ Segmented(ReadLines(MapSeq(Trim, c.lines)), flat)   \* a line read from a stream may be trimmed
Accepts(c) == IF c.kind = "enc" THEN EncOK(c) ELSE IF c.kind = "dec" THEN DecOK(c) ELSE FALSE
Conforms == i > 0 => Accepts(Cases[i])
=============================================================================
