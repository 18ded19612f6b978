----------------------------- MODULE CheckPanel -----------------------------
(* C08-C12: recorded sessions of the real client with scripted panels. IOEnv.PROP names the property to judge.     *)
(* Times are in milliseconds since the session began, -1 where something did not happen.                           *)
EXTENDS PanelSession, TraceTree

Stall == 2000      \* the in-frame timeout
Prompt == 1000     \* what happens at once happens within this time
Early == 150       \* tolerance of the measurement
Return == 3000     \* bound for the return after cancellation

Calls(s, k) == s.calls[k]
Up(s, k) == 2 * k - 1 <= Len(s.calls)              \* connection k was reported
Lost(s, k) == 2 * k <= Len(s.calls)                \* its end was reported
Min(a, b) == IF a < b THEN a ELSE b

(* the client gives a connection up only for a reason: the panel dropped it, a frame was broken, the user cancelled *)
LossExplained(s) == \A k \in 1..Len(s.conns) :
    Lost(s, k) => \/ s.calls[2 * k].t >= s.cancelAt /\ s.cancelAt >= 0
                  \/ s.conns[k].dropAt >= 0 /\ s.calls[2 * k].t >= s.conns[k].dropAt - 5
                  \/ s.conns[k].broken # ""
(* the script was not cut short, and the panel saw no connection more than it should *)
Reached(s) == s.fixedCancel \/ Len(s.conns) = s.planned
NoExtra(s) == s.extra = 0 \/ LET c == s.conns[Len(s.conns)] IN c.dropAt >= 0 \/ c.broken # ""

(* C10 *)
Contained(s) == \A k \in 1..Len(s.conns) : LET c == s.conns[k] IN
    c.broken # "" /\ c.done /\ ~c.early =>
       /\ Lost(s, k) /\ ~s.calls[2 * k].cancelled
       /\ LET t == s.calls[2 * k].t - c.lastByte IN
          IF c.broken = "limit" THEN t <= Prompt
          ELSE t >= Stall - Early /\ t <= Stall + 1500

(* C11 *)
Reconnects(s) == \A k \in 2..Len(s.conns) : LET t == s.conns[k].accept - s.calls[2 * (k - 1)].t IN
    IF s.conns[k - 1].gone = 0 THEN t >= s.re - Early /\ t <= s.re + Prompt + s.pause
    ELSE \* nobody listened for a while: the attempts come after the reconnect period and then every connect period
         LET back == s.conns[k - 1].dropAt + s.conns[k - 1].gone - s.calls[2 * (k - 1)].t     \* somebody listens again
             n == IF back <= s.re THEN 0 ELSE (back - s.re + s.no - 1) \div s.no IN
         \E m \in {n, n + 1} : t >= s.re + (m * s.no) - Early - (20 * m) /\ t <= s.re + (m * s.no) + Prompt
FirstAttempts(s) == s.absent > 0 /\ s.conns # <<>> =>
    LET n == (s.absent + s.no - 1) \div s.no  t == s.conns[1].accept IN
    \E m \in {n, n + 1} : t >= (m * s.no) - Early - (20 * m) /\ t <= (m * s.no) + Prompt
Ends(s) == s.cancelAt >= 0 =>
    /\ s.returnAt >= 0 /\ s.returnAt - s.cancelAt <= Return
    /\ s.drainedAt >= 0 /\ s.drainedAt - s.cancelAt <= Return
    /\ \A k \in 1..Len(s.conns) : s.conns[k].eofAt >= 0 /\ s.conns[k].eofAt <= s.cancelAt + Return
    /\ Closed(s)
(* every connection is closed when its end has been reported *)
ClosedSockets(s) == \A k \in 1..Len(s.conns) :
    Lost(s, k) /\ ~s.conns[k].noRead => s.conns[k].eofAt >= 0 /\ s.conns[k].eofAt <= s.calls[2 * k].t + Prompt
(* a disconnect is reported as cancelled only after cancellation; and as cancelled when there is no other reason *)
Flags(s) == \A k \in 1..Len(s.conns) : Lost(s, k) =>
    LET d == s.calls[2 * k] c == s.conns[k] IN
    /\ d.cancelled => s.cancelAt >= 0 /\ d.t >= s.cancelAt
    /\ c.dropAt < 0 /\ c.broken = "" => d.cancelled
Losses(s) == \A k \in 1..Len(s.conns) : LET c == s.conns[k] IN           \* a dropped connection is reported, and not late
    c.dropAt >= 0 /\ ~c.early /\ (s.cancelAt < 0 \/ s.cancelAt > c.dropAt + Prompt) /\ c.class # "silent" =>
       Lost(s, k) /\ s.calls[2 * k].t <= c.dropAt + Prompt + s.pause

(* C12 *)
Ping == <<2, 0, 0, 0, 8, 1>>
ProbeOK(s) == \A k \in 1..Len(s.conns) : LET c == s.conns[k] IN
    /\ c.probe = Ping \/ (c.early /\ c.probe = <<>>)
    /\ Up(s, k) /\ c.class # "other" =>
         /\ s.calls[2 * k - 1].binary = ~c.ascii
         /\ s.calls[2 * k - 1].err = c.errText
         /\ WriterOK(c, ~c.early /\ c.dropAt < 0)
    /\ Up(s, k) /\ c.class = "other" => (s.calls[2 * k - 1].binary => c.units = <<>> /\ c.left = 0)
    /\ Up(s, k) => s.calls[2 * k - 1].t - c.accept <= 2000 + Prompt
DetectOK(d) == /\ Min(6, Len(d.rx)) = 6 /\ SubSeq(d.rx, 1, 6) = Ping
               /\ d.class = "ack" => d.binary /\ Len(d.rx) = 6
               /\ d.class \in {"silent", "rdy", "map"} => ~d.binary /\ Len(d.rx) = 7 /\ d.rx[7] = 10
               /\ d.took <= 2000 + Prompt

Judge(s) == CASE IOEnv.PROP = "C08" -> DeliveryOK(s) /\ LossExplained(s) /\ Reached(s)
                [] IOEnv.PROP = "C09" -> Reached(s) /\ \A k \in 1..Len(s.conns) : LET c == s.conns[k] IN
                                            Up(s, k) => WriterOK(c, ~c.early /\ c.dropAt < 0)
                [] IOEnv.PROP = "C10" -> DeliveryOK(s) /\ LossExplained(s) /\ Contained(s) /\ Reached(s)
                [] IOEnv.PROP = "C11" /\ s.mute -> DeliveryOK(s) /\ Reached(s) /\ NoExtra(s) /\ Ends(s)
                [] IOEnv.PROP = "C11" /\ ~s.mute -> /\ DeliveryOK(s) /\ CallsOK(s) /\ LossExplained(s) /\ Reached(s) /\ NoExtra(s)
                                         /\ Reconnects(s) /\ FirstAttempts(s) /\ Ends(s) /\ ClosedSockets(s) /\ Flags(s) /\ Losses(s)
                [] IOEnv.PROP = "C12" -> ProbeOK(s)
(* A connection which the panel dropped on the spot, before anything of the probe arrived, may have ended before the client's   *)
(* own call to connect returned: to the client nobody listened then.                                                              *)
Unseen(s) == { k \in 1..Len(s.conns) : LET c == s.conns[k] IN c.probe = <<>> /\ c.dropAt >= 0 /\ c.dropAt <= c.accept + 50 }
Without(s, k) ==
    LET rest == [j \in 1..(Len(s.conns) - 1) |-> IF j < k THEN s.conns[j] ELSE s.conns[j + 1]]
        r == [s EXCEPT !.conns = rest, !.planned = @ - 1]
    IN IF k = 1 THEN [r EXCEPT !.absent = s.conns[1].accept + 1]
       ELSE [r EXCEPT !.conns[k - 1].gone = s.conns[k].accept + 1 - s.conns[k - 1].dropAt]
Session(s) == Judge(s) \/ \E k \in Unseen(s) : Judge(Without(s, k))
Accepts(c) == CASE c.kind = "session" -> Session(c)
                [] c.kind = "detect" -> DetectOK(c)
                [] c.kind = "alloc" -> c.bytes < c.bound       \* memory reserved for a header that announces too much
                [] c.kind = "leftover" -> c.n = 0              \* goroutines of the client after all sessions have ended
                [] OTHER -> FALSE
Conforms == i > 0 => Accepts(Cases[i])
=============================================================================
