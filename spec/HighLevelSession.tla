-------------------------- MODULE HighLevelSession --------------------------
(* What a session between the high-level client and a panel must look like. The recorder gives everything a        *)
(* position in one common order. A session is a record                                                            *)
(*   events  what the panel sent, in its order: [it: number of the message, id, parts: sequence of <<kind, value>>, *)
(*           live: before the stream was broken, sent: position before its first byte]                            *)
(*   ups     the updates of the panel's state: [f: field, v, it, live, sent]                                       *)
(*   regs    registrations: [h: handler, k: kind, id, begin, end]                                                  *)
(*   calls   the invocations of handlers in order: [h, k, id, a: value, pos, fin, gets: sequence of <<field, v>>]   *)
(*   pings, acks  positions; sent, got  feedback of handlers and what arrived of it; sentOut, gotOut of others      *)
(*   polls   per field the successive values another routine got; finals  what the getters returned in the end      *)
(*   broken  "" or what ended the session; lost: the client had given the connection up at the end                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

(* ---- dispatch ---- *)
Range(q) == {q[j] : j \in 1..Len(q)}
Matches(c, e) == c.id = e.id /\ <<c.k, c.a>> \in Range(e.parts)
For(s, k, id) == {b \in Range(s.regs) : b.k = k /\ b.id = id}
(* in effect for certain when event e is dispatched after position p *)
Certain(b, e, p) == b.end <= p \/ b.end <= e.sent
Certains(s, e, k, p) == {b \in For(s, k, e.id) : Certain(b, e, p)}
(* this call of a handler is due to a registration that may be in effect *)
Justified(s, e, c, p) == \E b \in For(s, c.k, c.id) :
    /\ b.h = c.h /\ b.begin < c.pos
    /\ ~\E b2 \in Certains(s, e, c.k, p) : b2.begin > b.end
(* what a getter may return while event e is dispatched: what came last before it, or anything later that was sent *)
Fresh(s, e, c, g) ==
    LET n == {u \in DOMAIN s.ups : s.ups[u].f = g[1]}
        before == {u \in n : s.ups[u].it < e.it}
        last == IF before = {} THEN 0 ELSE CHOOSE u \in before : \A w \in before : w <= u IN
    \/ last = 0 /\ g[2] = ""
    \/ \E u \in n : u >= last /\ s.ups[u].v = g[2] /\ (u = last \/ s.ups[u].sent < c.fin)
(* the calls p..p+n-1 are all those of event e *)
Block(s, e, p, n) ==
    LET lp == IF p = 1 THEN 0 ELSE s.calls[p - 1].fin
        cs == [j \in 1..n |-> s.calls[p + j - 1]] IN
    /\ \A j, k \in 1..n : j # k => cs[j].k # cs[k].k
    /\ \A j \in 1..n : /\ Matches(cs[j], e) /\ Justified(s, e, cs[j], lp)
                       /\ cs[j].fin > 0
                       /\ \A g \in Range(cs[j].gets) : Fresh(s, e, cs[j], g)
    /\ \A x \in Range(e.parts) : (\E j \in 1..n : cs[j].k = x[1]) \/ Certains(s, e, x[1], lp) = {}
Min(a, b) == IF a < b THEN a ELSE b
(* all calls from p on are those of the events from i on; opt: from event i on none needs to be dispatched *)
Required(s, e) == CASE s.broken = "junk" -> e.it < s.junkAt \/ ~s.lost
                    [] OTHER -> e.live
Possible(s, e) == e.live \/ s.broken = "close"
RECURSIVE Walk(_, _, _)
Walk(s, i, p) ==
    IF i > Len(s.events) THEN p = Len(s.calls) + 1
    ELSE LET e == s.events[i] IN
         \/ ~Required(s, e) /\ p = Len(s.calls) + 1
         \/ /\ Possible(s, e)
            /\ \E n \in 0..Min(Len(e.parts), Len(s.calls) - p + 1) : Block(s, e, p, n) /\ Walk(s, i + 1, p + n)
DispatchOK(s) == Walk(s, 1, 1)

(* ---- pings ---- *)
Prefix(a, b) == Len(a) <= Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
AcksOK(s) == /\ Len(s.acks) <= Len(s.pings)
             /\ \A j \in 1..Len(s.acks) : s.acks[j] > s.pings[j]
             /\ s.broken = "" => Len(s.acks) = Len(s.pings)
(* ---- feedback: in the order it was sent, and all of it unless the connection ends. What is sent meanwhile or
   later may be lost, any of it. ---- *)
Within(a, b) == SelectSeq(b, LAMBDA x : x \in Range(a)) = a      \* no message is sent twice
FeedbackOK(s) == /\ Within(s.got, s.sent) /\ Within(s.gotOut, s.sentOut)
                 /\ s.broken = "" => s.got = s.sent /\ s.gotOut = s.sentOut
(* ---- state ---- *)
Values(s, f) == SelectSeq(s.ups, LAMBDA u : u.f = f /\ u.live)
Fields(s) == {s.ups[u].f : u \in DOMAIN s.ups}
RECURSIVE InOrder(_, _, _, _)
InOrder(vs, k, us, u) ==         \* vs[k..] is a subsequence of the values us[u..], nothing being the first of all
    IF k > Len(vs) THEN TRUE
    ELSE IF vs[k] = "" /\ u = 0 THEN InOrder(vs, k + 1, us, 1)
    ELSE \E w \in u..Len(us) : w > 0 /\ us[w].v = vs[k] /\ (\A x \in u..(w - 1) : x = 0 \/ us[x].v # vs[k]) /\ InOrder(vs, k + 1, us, w + 1)
Determined(s, u) == IF s.broken = "junk" THEN ~s.lost ELSE s.broken # "close"
StateOK(s) ==
    /\ \A p \in Range(s.polls) : InOrder(p.vs, 1, Values(s, p.f), 0)
    /\ s.broken # "close" /\ ~(s.broken = "junk" /\ s.lost) =>
         \A x \in Range(s.finals) : LET us == Values(s, x[1]) IN
            IF x[1] = "a" THEN x[2] = ToString(Cardinality({f \in {s.ups[u].f : u \in {w \in DOMAIN s.ups : s.ups[w].live}} : f \notin {"model", "serial", "name", "topo", "json", "svg"}}))
            ELSE x[2] = IF us = <<>> THEN "" ELSE us[Len(us)].v

RunOK(s) == DispatchOK(s) /\ AcksOK(s) /\ FeedbackOK(s) /\ StateOK(s) /\ (s.broken = "" => ~s.lost)
=============================================================================
