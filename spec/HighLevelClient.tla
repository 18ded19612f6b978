-------------------------- MODULE HighLevelClient --------------------------
(* The high-level client: a reader fills a queue, a dispatcher empties it and calls handlers, these send feedback    *)
(* through another queue to a writer; a user registers handlers and sends feedback at the same time; a ticker sends    *)
(* pings. The panel sends a stream of units and may break it. What happens is recorded in the form that                *)
(* HighLevelSession judges; the driver records the real client in the same form.                                      *)
(* With Coupled, one goroutine does both dispatching and writing: the queue fills up, and all stands still.            *)
EXTENDS HighLevelSession

CONSTANTS Streams,      \* what the panel may send: sequences of "b" (event with a handler that sends feedback), "u" (event
                        \* whose handler is registered at any time by the user), "r" (event whose handler registers the one of "d"),
                        \* "d", "p" (ping), "i" (identity), "X" (over the limit)
          Feedback,     \* messages per call
          Qin, Qout,    \* capacities of the queues
          Net,          \* units on their way, in either direction
          Outside,      \* messages the user sends meanwhile
          Coupled

VARIABLES stream, sentn, wire, inq, outq, busy, net, disp, state, closed, cancelled, user, pos, hist
vars == <<stream, sentn, wire, inq, outq, busy, net, disp, state, closed, cancelled, user, pos, hist>>

Idle == [st |-> "idle"]
Reg(h, k, id, b, e) == [h |-> h, k |-> k, id |-> id, begin |-> b, end |-> e]
Init == /\ stream \in Streams /\ sentn = 0 /\ wire = <<>> /\ inq = <<>> /\ outq = <<>> /\ busy = <<>> /\ net = <<>>
        /\ disp = Idle /\ state = "" /\ closed = FALSE /\ cancelled = FALSE /\ user = [reg |-> 0, out |-> 0] /\ pos = 2
        /\ hist = [events |-> <<>>, ups |-> <<>>, regs |-> <<Reg(1, "bin", "b", 1, 2), Reg(2, "bin", "r", 1, 2)>>, calls |-> <<>>, pings |-> <<>>, acks |-> <<>>,
                   sent |-> <<>>, got |-> <<>>, sentOut |-> <<>>, gotOut |-> <<>>, polls |-> <<>>, broken |-> "", junkAt |-> 0]
Broken == hist.broken # ""

(* ---- the panel ---- *)
Send == /\ stream # <<>> /\ Len(wire) < Net
        /\ LET x == Head(stream) n == sentn + 1 IN
           /\ stream' = Tail(stream) /\ sentn' = n /\ pos' = pos + 1
           /\ wire' = Append(wire, [x |-> x, n |-> n])
           /\ hist' = CASE x \in {"b", "u", "r", "d"} -> [hist EXCEPT !.events = Append(@, [it |-> n, id |-> x, parts |-> <<<<"bin", n>>>>, live |-> ~Broken, sent |-> pos + 1])]
                        [] x = "i" -> [hist EXCEPT !.ups = Append(@, [f |-> "name", v |-> ToString(n), it |-> n, live |-> ~Broken, sent |-> pos + 1])]
                        [] x = "p" -> IF Broken THEN hist ELSE [hist EXCEPT !.pings = Append(@, pos + 1)]
                        [] x = "X" -> [hist EXCEPT !.broken = "limit"]
        /\ UNCHANGED <<inq, outq, busy, net, disp, state, closed, cancelled, user>>
Receive == /\ net # <<>> /\ net' = Tail(net)
           /\ LET m == Head(net) IN
              CASE m[1] = "ack" -> pos' = pos + 1 /\ hist' = [hist EXCEPT !.acks = Append(@, pos + 1)]
                [] m[1] = "fb" -> hist' = [hist EXCEPT !.got = Append(@, m[2])] /\ UNCHANGED pos
                [] m[1] = "out" -> hist' = [hist EXCEPT !.gotOut = Append(@, m[2])] /\ UNCHANGED pos
                [] OTHER -> UNCHANGED <<pos, hist>>
           /\ UNCHANGED <<stream, sentn, wire, inq, outq, busy, disp, state, closed, cancelled, user>>

(* ---- the reader ---- *)
Read == /\ ~closed /\ wire # <<>>
        /\ LET u == Head(wire) IN
           IF u.x = "X" THEN closed' = TRUE /\ UNCHANGED inq
           ELSE Len(inq) < Qin /\ inq' = Append(inq, u) /\ UNCHANGED closed
        /\ wire' = Tail(wire)
        /\ UNCHANGED <<stream, sentn, outq, busy, net, disp, state, cancelled, user, pos, hist>>
(* when all that was received has been dispatched, or dispatching it takes long *)
Cancel == /\ closed /\ ~cancelled /\ cancelled' = TRUE
          /\ UNCHANGED <<stream, sentn, wire, inq, outq, busy, net, disp, state, closed, user, pos, hist>>

(* ---- the dispatcher ---- *)
Take == /\ disp.st = "idle" /\ inq # <<>>
        /\ inq' = Tail(inq)
        /\ LET u == Head(inq) IN
           CASE u.x = "p" -> disp' = [st |-> "ack"] /\ UNCHANGED state
             [] u.x = "i" -> state' = ToString(u.n) /\ UNCHANGED disp
             [] OTHER -> disp' = [st |-> "lookup", u |-> u] /\ UNCHANGED state
        /\ UNCHANGED <<stream, sentn, wire, outq, busy, net, closed, cancelled, user, pos, hist>>
(* a message is queued when there is room; when the connection has ended it may be dropped as well *)
Queue(m) == \/ Len(outq) < Qout /\ outq' = Append(outq, m)
            \/ cancelled /\ UNCHANGED outq
Ack == /\ disp.st = "ack" /\ Queue(<<"ack">>) /\ disp' = Idle
       /\ UNCHANGED <<stream, sentn, wire, inq, busy, net, state, closed, cancelled, user, pos, hist>>
Lookup == /\ disp.st = "lookup"
          /\ LET bs == {j \in DOMAIN hist.regs : hist.regs[j].id = disp.u.x} IN
             IF bs = {} THEN disp' = Idle /\ UNCHANGED <<pos, hist>>
             ELSE LET j == CHOOSE j \in bs : \A k \in bs : k <= j IN
                  /\ pos' = pos + 1
                  /\ hist' = [hist EXCEPT !.calls = Append(@, [h |-> hist.regs[j].h, k |-> "bin", id |-> disp.u.x, a |-> disp.u.n, pos |-> pos + 1, fin |-> -1,
                                                               gets |-> <<<<"name", state>>>>])]
                  /\ disp' = [st |-> "call", u |-> disp.u, fb |-> IF disp.u.x \in {"b", "u"} THEN Feedback ELSE 0]
          /\ UNCHANGED <<stream, sentn, wire, inq, outq, busy, net, state, closed, cancelled, user>>
Call == /\ disp.st = "call"
        /\ IF disp.fb > 0
           THEN LET m == <<disp.u.n, disp.fb>> IN
                /\ Queue(<<"fb", m>>)
                /\ disp' = [disp EXCEPT !.fb = @ - 1]
                /\ hist' = [hist EXCEPT !.sent = Append(@, m)]
                /\ UNCHANGED pos
           ELSE LET n == Len(hist.calls) register == disp.u.x = "r" IN
                /\ disp' = Idle
                /\ pos' = pos + 3
                /\ hist' = [hist EXCEPT !.calls[n].fin = pos + 3,
                                        !.regs = IF register THEN Append(@, Reg(10 + n, "bin", "d", pos + 1, pos + 2)) ELSE @]
                /\ UNCHANGED outq
        /\ UNCHANGED <<stream, sentn, wire, inq, busy, net, state, closed, cancelled, user>>

(* ---- the writer and the ticker ---- *)
Dequeue == /\ busy = <<>> /\ outq # <<>> /\ (Coupled => disp.st = "idle")
           /\ busy' = <<Head(outq)>> /\ outq' = Tail(outq)
           /\ UNCHANGED <<stream, sentn, wire, inq, net, disp, state, closed, cancelled, user, pos, hist>>
Write == /\ busy # <<>> /\ Len(net) < Net
         /\ net' = (IF closed THEN net ELSE Append(net, Head(busy))) /\ busy' = <<>>
         /\ UNCHANGED <<stream, sentn, wire, inq, outq, disp, state, closed, cancelled, user, pos, hist>>

(* ---- the user ---- *)
Begin == /\ user.reg = 0 /\ user' = [user EXCEPT !.reg = pos + 1] /\ pos' = pos + 1
         /\ UNCHANGED <<stream, sentn, wire, inq, outq, busy, net, disp, state, closed, cancelled, hist>>
Register == /\ user.reg > 0 /\ \A j \in DOMAIN hist.regs : hist.regs[j].id # "u"
            /\ pos' = pos + 1
            /\ hist' = [hist EXCEPT !.regs = Append(@, Reg(3, "bin", "u", user.reg, pos + 1))]
            /\ UNCHANGED <<stream, sentn, wire, inq, outq, busy, net, disp, state, closed, cancelled, user>>
Out == /\ user.out < Outside /\ Queue(<<"out", user.out>>)
       /\ user' = [user EXCEPT !.out = @ + 1] /\ hist' = [hist EXCEPT !.sentOut = Append(@, user.out)]
       /\ UNCHANGED <<stream, sentn, wire, inq, busy, net, disp, state, closed, cancelled, pos>>

Quiet == /\ stream = <<>> /\ (wire = <<>> \/ closed) /\ inq = <<>> /\ disp.st = "idle" /\ net = <<>> /\ user.out = Outside
         /\ (cancelled \/ (~Broken /\ outq = <<>>)) /\ busy = <<>>
Done == Quiet /\ UNCHANGED vars
Client == Read \/ Take \/ Ack \/ Lookup \/ Call \/ Dequeue \/ Write \/ Out \/ Receive \/ Send \/ (Cancel /\ inq = <<>> /\ disp.st = "idle")
Next == Client \/ Cancel \/ Begin \/ Register \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Client) /\ WF_vars(Cancel)

(* ---- the properties ---- *)
(* pings before a break may remain without an answer only if the session was broken *)
Session == [finals |-> <<<<"name", state>>>>, lost |-> cancelled] @@ hist
Conforms == Quiet => RunOK(Session)
NotAfter == closed => \A j \in DOMAIN hist.calls : \E e \in Range(hist.events) : e.it = hist.calls[j].a /\ e.live
Stands == <>Quiet
=============================================================================
