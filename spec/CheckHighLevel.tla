--------------------------- MODULE CheckHighLevel ---------------------------
(* C19: recorded sessions of the real high-level client with scripted panels. Times in milliseconds, -1: never.     *)
EXTENDS HighLevelSession, TraceTree

Window == 2000     \* the initialisation window
Edge == 300        \* around its end, and around disconnects and cancellation, either outcome may be right
Prompt == 1000

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
All(c) == IF \E j \in 1..4 : c.arrived[j] < 0 THEN -1 ELSE Max(Range(c.arrived))
Ends(c) == {t \in {c.dropAt, c.cancelAt} : t >= 0}
InitOK(c) ==
    /\ c.panel = c.ok
    /\ c.ok => c.listening /\ c.ready /\ All(c) >= 0
    /\ c.listening =>
         LET t == All(c) IN
         /\ t >= 0 /\ t <= c.reqAt + Window - Edge /\ (\A x \in {c.cancelAt} : x < 0 \/ x >= t + 50) => c.ok /\ c.returnAt <= Max({t, c.reqAt}) + Prompt
         /\ t < 0 \/ t >= c.reqAt + Window + Edge => ~c.ok
         /\ \A x \in Ends(c) : t < 0 \/ t > x + 50 => ~c.ok
         /\ c.reqAt >= 0 => c.returnAt <= c.reqAt + Window + Prompt
         /\ c.closed
Accepts(c) == CASE c.kind = "run" -> RunOK(c)
                [] c.kind = "init" -> InitOK(c)
                [] OTHER -> FALSE
Conforms == i > 0 => Accepts(Cases[i])
=============================================================================
