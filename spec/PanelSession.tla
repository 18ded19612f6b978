---------------------------- MODULE PanelSession ----------------------------
(* What a finished session between the reconnecting client and its panel must look like, whatever happened in it. *)
(* A session is a record                                                                                          *)
(*   conns      the connections in the order in which the panel accepted them, each with                          *)
(*     items      what the panel sent, in order: [w: the messages it stands for, whole: all its bytes were sent,   *)
(*                junk: a frame of correct length that is no message]                                              *)
(*     cut        cancellation came before everything sent had been received                                       *)
(*     lists      per submitting routine the submitted lists, each a sequence of units                             *)
(*     units      what the panel received after the probe, left: the number of bytes beyond the last whole unit    *)
(*     ascii, broken ("", "limit", "stall"), ended (the panel or the client ended it before the end of the session)*)
(*   calls      the callbacks in order: [k: "connect" or "disconnect", cancelled, ...]                             *)
(*   delivered  the messages delivered                                                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

(* ---- delivery: exactly the messages of the complete frames (lines), each once, in order ---- *)
Starts(d, p, w) == /\ p + Len(w) - 1 <= Len(d)
                   /\ \A j \in 1..Len(w) : d[p + j - 1] = w[j]
RECURSIVE Explains(_, _, _, _, _)
Explains(conns, d, k, j, p) ==                       \* d[p..] is what item j of connection k and all later ones deliver
    IF k > Len(conns) THEN p = Len(d) + 1
    ELSE LET c == conns[k] IN
         \/ (j > Len(c.items) \/ c.cut) /\ Explains(conns, d, k + 1, 1, p)
         \/ /\ j <= Len(c.items)
            /\ LET it == c.items[j] IN
               IF it.junk
               THEN \/ Explains(conns, d, k, j + 1, p)
                    \/ it.whole /\ p <= Len(d) /\ Explains(conns, d, k, j + 1, p + 1)
               ELSE IF it.whole \/ (c.cut /\ Starts(d, p, it.w))
                    THEN Starts(d, p, it.w) /\ Explains(conns, d, k, j + 1, p + Len(it.w))
                    ELSE ~c.cut /\ Explains(conns, d, k, j + 1, p)
DeliveryOK(s) == Explains(s.conns, s.delivered, 1, 1, 1)

(* ---- submission: the submitted lists, none torn apart, those of one routine in its order ---- *)
Total(lists) == LET RECURSIVE Sum(_, _)
                    Sum(r, k) == IF r > Len(lists) THEN 0
                                 ELSE IF k > Len(lists[r]) THEN Sum(r + 1, 1)
                                 ELSE Len(lists[r][k]) + Sum(r, k + 1)
                IN Sum(1, 1)
(* the next list of routine r that has any units, from its k-th on *)
RECURSIVE NextList(_, _)
NextList(l, k) == IF k > Len(l) \/ l[k] # <<>> THEN k ELSE NextList(l, k + 1)
RECURSIVE Merges(_, _, _, _, _)
Merges(units, u, lists, pos, all) ==                 \* units[u..] is a merge of what is left of the lists
    IF u > Len(units) THEN all => \A r \in DOMAIN lists : NextList(lists[r], pos[r]) > Len(lists[r])
    ELSE \E r \in DOMAIN lists :
            LET k == NextList(lists[r], pos[r]) IN
            /\ k <= Len(lists[r])
            /\ LET l == lists[r][k]
                   n == IF Len(units) - u + 1 < Len(l) THEN Len(units) - u + 1 ELSE Len(l) IN
               /\ \A j \in 1..n : units[u + j - 1] = l[j]
               /\ n < Len(l) => ~all
               /\ Merges(units, u + n, lists, [pos EXCEPT ![r] = k + 1], all)
(* an ASCII panel gets one bare line feed before anything else *)
Payload(c) == IF c.ascii THEN IF c.units = <<>> THEN <<>> ELSE Tail(c.units) ELSE c.units
WriterOK(c, all) == /\ c.ascii /\ c.units # <<>> => Head(c.units) = ""
                    /\ c.ascii /\ all => c.units # <<>>
                    /\ Merges(Payload(c), 1, c.lists, [r \in DOMAIN c.lists |-> 1], all)
                    /\ all => c.left = 0

(* ---- callbacks ---- *)
Alternate(calls) == \A k \in 1..Len(calls) : calls[k].k = IF k % 2 = 1 THEN "connect" ELSE "disconnect"
CancelledLast(calls) == \A k \in 1..Len(calls) : calls[k].cancelled => k = Len(calls)
CallsOK(s) == Alternate(s.calls) /\ CancelledLast(s.calls)
(* when the call has returned, no connection is left without its disconnect *)
Closed(s) == Len(s.calls) % 2 = 0
=============================================================================
