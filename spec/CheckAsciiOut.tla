---------------------------- MODULE CheckAsciiOut ----------------------------
(* C03/C04: recorded conversions of the real code against AsciiOut.            *)
EXTENDS AsciiOut, TraceTree
LOCAL INSTANCE SequencesExt

(* at: lines consumed so far; -1 once a message has failed *)
EncOK(c) ==
    LET step(at, k) == IF at < 0 \/ at + c.counts[k] > Len(c.lines) THEN -1
                       ELSE IF SameReports(FlatMap(LineOut, SubSeq(c.lines, at + 1, at + c.counts[k])), MsgOut(c.msgs[k]))
                            THEN at + c.counts[k] ELSE -1
    IN Len(c.counts) = Len(c.msgs) /\ FoldLeft(step, 0, [k \in 1..Len(c.msgs) |-> k]) = Len(c.lines)
DecOK(c) == Segmented(MapSeq(LineOut, c.lines), FlatMap(MsgOut, c.msgs))
Accepts(c) == IF c.kind = "enc" THEN EncOK(c) ELSE IF c.kind = "dec" THEN DecOK(c) ELSE FALSE
Conforms == i > 0 => Accepts(Cases[i])
=============================================================================
