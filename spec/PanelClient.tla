----------------------------- MODULE PanelClient -----------------------------
(* The reconnecting client between its user, the network and a panel that may misbehave. The stream of a binary   *)
(* connection is a sequence of cells: a frame is a header cell "H" and a payload cell "P" (a message), "J" (not a   *)
(* message) or "E" (an empty payload: no cell at all, the header is "0"); "X" is a header over the limit. Reading,  *)
(* writing and every wait can be interrupted between any two cells by the loss of the connection, a stall or        *)
(* cancellation. The history has the form that PanelSession judges, and the driver records the real client's in     *)
(* the same form.                                                                                                   *)
EXTENDS PanelSession, TLC

CONSTANTS MaxConns,     \* connections the panel accepts
          Streams,      \* what a panel may send on a connection: sequences of frame kinds "P", "J", "0", "X"
          Subs,         \* per submitting routine its lists of units
          Wait          \* TRUE: the reader collects the goroutines of a connection before it reports the disconnect

VARIABLES phase,        \* dial, probe, up, down, retry, returned
          cancelled,    \* the user has cancelled
          conns,        \* history of connections
          cells,        \* of the current connection: what the panel will still send
          unit,         \* the frame (number) to which the next cell belongs
          wire,         \* cells sent and not yet read
          inframe,      \* the client has read a header and waits for the payload
          open, stalled,\* the panel's end: not dropped; no longer sending
          socket,       \* the client's end is open
          watcher,      \* the goroutine that closes the socket upon cancellation: "off", "on", "done"
          exit,         \* it was the watcher that closed the socket
          writer,       \* "off", "idle" or [r, k, j]: writing unit j of list k of routine r
          pos,          \* next list of each routine
          calls, delivered
vars == <<phase, cancelled, conns, cells, unit, wire, inframe, open, stalled, socket, watcher, exit, writer, pos, calls, delivered>>

Kinds(st) == [j \in 1..Len(st) |-> st[j]]
CellsOf(k) == CASE k = "P" -> <<"H", "P">> [] k = "J" -> <<"H", "J">> [] k = "0" -> <<"0">> [] k = "X" -> <<"X">>
RECURSIVE Flat(_)
Flat(st) == IF st = <<>> THEN <<>> ELSE CellsOf(Head(st)) \o Flat(Tail(st))
(* names of messages: connection and position *)
Name(c, j) == <<c, j>>
ItemsOf(c, st) == [j \in 1..Len(SelectSeq(st, LAMBDA x : x # "X")) |->
                     [w |-> IF st[j] = "J" THEN <<>> ELSE <<Name(c, j)>>, junk |-> st[j] = "J", whole |-> FALSE]]
Cur == Len(conns)

Init == /\ phase = "dial" /\ cancelled = FALSE /\ conns = <<>> /\ cells = <<>> /\ unit = 1 /\ wire = <<>>
        /\ inframe = FALSE /\ open = FALSE /\ stalled = FALSE /\ socket = FALSE /\ watcher = "off" /\ exit = FALSE
        /\ writer = <<>> /\ pos = [r \in DOMAIN Subs |-> 1] /\ calls = <<>> /\ delivered = <<>>

NoPanel == UNCHANGED <<cells, unit, open, stalled>>
NoWrite == UNCHANGED <<writer, pos>>

(* ---- the user ---- *)
Cancel == /\ ~cancelled /\ phase # "returned"
          /\ cancelled' = TRUE
          /\ conns' = IF Cur > 0 /\ socket THEN [conns EXCEPT ![Cur].cut = TRUE] ELSE conns
          /\ UNCHANGED <<phase, wire, inframe, socket, watcher, exit, calls, delivered>> /\ NoPanel /\ NoWrite

(* ---- connecting ---- *)
Dial == /\ phase = "dial" /\ ~cancelled /\ Cur < MaxConns
        /\ \E st \in Streams :
             /\ conns' = Append(conns, [items |-> ItemsOf(Cur + 1, st), cut |-> FALSE, ascii |-> FALSE, lists |-> Subs, units |-> <<>>,
                                        left |-> 0, broken |-> "", ended |-> FALSE, done |-> 0])
             /\ cells' = Flat(st)
        /\ unit' = 1 /\ wire' = <<>> /\ inframe' = FALSE /\ open' = TRUE /\ stalled' = FALSE
        /\ socket' = TRUE /\ watcher' = "on" /\ exit' = FALSE
        /\ phase' = "probe"
        /\ UNCHANGED <<cancelled, calls, delivered, writer, pos>>
(* the attempt fails at once or hangs until cancelled *)
Refused == /\ phase = "dial" /\ phase' = "retry"
           /\ UNCHANGED <<cancelled, conns, wire, inframe, socket, watcher, exit, calls, delivered>> /\ NoPanel /\ NoWrite
(* the reply is classified, or the wait for it times out, or the socket is closed *)
Negotiated == /\ phase = "probe"
              /\ IF cancelled
                 THEN /\ phase' = "returned" /\ socket' = FALSE /\ watcher' = "off" /\ UNCHANGED <<calls, writer>>
                 ELSE /\ phase' = "up" /\ writer' = <<"idle">>
                      /\ calls' = Append(calls, [k |-> "connect", cancelled |-> FALSE]) /\ UNCHANGED <<socket, watcher>>
              /\ UNCHANGED <<cancelled, conns, wire, inframe, exit, delivered, pos>> /\ NoPanel

(* ---- the panel ---- *)
Send == /\ open /\ ~stalled /\ cells # <<>>
        /\ wire' = Append(wire, Head(cells)) /\ cells' = Tail(cells)
        /\ LET last == Head(cells) # "H" IN
           /\ unit' = IF last THEN unit + 1 ELSE unit
           /\ conns' = IF last /\ unit <= Len(conns[Cur].items) THEN [conns EXCEPT ![Cur].items[unit].whole = TRUE] ELSE conns
        /\ UNCHANGED <<phase, cancelled, inframe, open, stalled, socket, watcher, exit, calls, delivered>> /\ NoWrite
Stall == /\ open /\ ~stalled /\ stalled' = TRUE
         /\ UNCHANGED <<phase, cancelled, conns, cells, unit, wire, inframe, open, socket, watcher, exit, calls, delivered>> /\ NoWrite
Drop == /\ open /\ open' = FALSE
        /\ conns' = [conns EXCEPT ![Cur].ended = TRUE]
        /\ UNCHANGED <<phase, cancelled, cells, unit, wire, inframe, stalled, socket, watcher, exit, calls, delivered>> /\ NoWrite

(* ---- the reader ---- *)
Read == /\ phase = "up" /\ wire # <<>> /\ socket
        /\ LET x == Head(wire) IN
           /\ wire' = Tail(wire)
           /\ CASE x = "H" -> inframe' = TRUE /\ UNCHANGED <<delivered, phase, conns>>
                [] x \in {"P", "J", "0"} ->
                     /\ inframe' = FALSE
                     /\ delivered' = Append(delivered, IF x = "J" THEN <<"any">> ELSE Name(Cur, conns[Cur].done + 1))
                     /\ conns' = [conns EXCEPT ![Cur].done = @ + 1]
                     /\ UNCHANGED phase
                [] x = "X" -> phase' = "down" /\ conns' = [conns EXCEPT ![Cur].broken = "limit"] /\ UNCHANGED <<inframe, delivered>>
        /\ UNCHANGED <<cancelled, socket, watcher, exit, calls>> /\ NoPanel /\ NoWrite
(* the panel has stopped inside a frame *)
Timeout == /\ phase = "up" /\ inframe /\ wire = <<>> /\ (stalled \/ cells = <<>>) /\ socket
           /\ phase' = "down" /\ conns' = [conns EXCEPT ![Cur].broken = "stall"]
           /\ UNCHANGED <<cancelled, wire, inframe, socket, watcher, exit, calls, delivered>> /\ NoPanel /\ NoWrite
(* end of stream, once everything is read; or the watcher has closed the socket *)
ReadError == /\ phase = "up" /\ (~socket \/ (wire = <<>> /\ ~open))
             /\ phase' = "down"
             /\ UNCHANGED <<cancelled, conns, wire, inframe, socket, watcher, exit, calls, delivered>> /\ NoPanel /\ NoWrite
(* teardown: the connection is closed, its goroutines are collected, then the disconnect is reported *)
Collected == Wait => (writer = <<>> /\ watcher # "on")
Quit == /\ phase = "down" /\ socket' = FALSE
        /\ \/ writer # <<>> /\ writer' = <<>> /\ UNCHANGED watcher
           \/ watcher = "on" /\ watcher' = "off" /\ UNCHANGED writer
        /\ UNCHANGED <<phase, cancelled, conns, wire, inframe, exit, calls, delivered, pos>> /\ NoPanel
Down == /\ phase = "down" /\ Collected
        /\ calls' = Append(calls, [k |-> "disconnect", cancelled |-> exit])
        /\ phase' = IF exit THEN "returned" ELSE "retry"
        /\ open' = FALSE /\ socket' = FALSE
        /\ conns' = [conns EXCEPT ![Cur].ended = TRUE]
        /\ UNCHANGED <<cancelled, cells, unit, wire, inframe, stalled, watcher, exit, delivered>> /\ NoWrite
(* the waits between attempts *)
Retry == /\ phase = "retry"
         /\ phase' = IF cancelled THEN "returned" ELSE "dial"
         /\ UNCHANGED <<cancelled, conns, wire, inframe, socket, watcher, exit, calls, delivered>> /\ NoPanel /\ NoWrite
DialCancelled == /\ phase = "dial" /\ cancelled /\ phase' = "retry"
                 /\ UNCHANGED <<cancelled, conns, wire, inframe, socket, watcher, exit, calls, delivered>> /\ NoPanel /\ NoWrite

(* ---- the goroutines of a connection ---- *)
Watch == /\ watcher = "on" /\ cancelled
         /\ watcher' = "done" /\ exit' = TRUE /\ socket' = FALSE
         /\ UNCHANGED <<phase, cancelled, conns, wire, inframe, calls, delivered>> /\ NoPanel /\ NoWrite
Take == /\ writer = <<"idle">>
        /\ \E r \in DOMAIN Subs : /\ pos[r] <= Len(Subs[r])
                                  /\ writer' = <<"busy", r, pos[r], 1>>
                                  /\ pos' = [pos EXCEPT ![r] = @ + 1]
        /\ UNCHANGED <<phase, cancelled, conns, wire, inframe, socket, watcher, exit, calls, delivered>> /\ NoPanel
Write == /\ Len(writer) = 4
         /\ LET r == writer[2] k == writer[3] j == writer[4] IN
            IF j > Len(Subs[r][k]) \/ ~socket
            THEN writer' = <<"idle">> /\ UNCHANGED conns
            ELSE /\ writer' = <<"busy", r, k, j + 1>>
                 /\ conns' = [conns EXCEPT ![Cur].units = Append(@, Subs[r][k][j])]
         /\ UNCHANGED <<phase, cancelled, wire, inframe, socket, watcher, exit, calls, delivered, pos>> /\ NoPanel

Next == \/ Cancel \/ Dial \/ Refused \/ Negotiated \/ Send \/ Stall \/ Drop \/ Read \/ Timeout \/ ReadError
        \/ Quit \/ Down \/ Retry \/ DialCancelled \/ Watch \/ Take \/ Write
Fair == WF_vars(Negotiated) /\ WF_vars(Read) /\ WF_vars(Timeout) /\ WF_vars(ReadError) /\ WF_vars(Quit) /\ WF_vars(Down)
        /\ WF_vars(Retry) /\ WF_vars(DialCancelled) /\ WF_vars(Watch) /\ WF_vars(Send) /\ WF_vars(Write) /\ WF_vars(Take)
Spec == Init /\ [][Next]_vars /\ Fair

(* ---- the properties ---- *)
Hist == [conns |-> conns, calls |-> calls, delivered |-> delivered]
(* what has been read so far, as if cancelled now *)
Delivery == DeliveryOK([Hist EXCEPT !.conns = [k \in 1..Cur |-> IF k = Cur THEN [conns[k] EXCEPT !.cut = TRUE] ELSE conns[k]]])
DeliveryEnd == phase \in {"returned", "retry"} => DeliveryOK(Hist)
Callbacks == CallsOK(Hist) /\ (phase = "returned" => Closed(Hist))
CancelFlag == \A k \in 1..Len(calls) : calls[k].cancelled => cancelled
Submissions == Cur = 1 => WriterOK(conns[1], FALSE)
Contained == phase = "retry" /\ Cur > 0 => calls # <<>> /\ ~calls[Len(calls)].cancelled
NothingLeft == phase = "returned" => ~socket /\ writer = <<>> /\ watcher # "on"
Returns == cancelled ~> phase = "returned"
BrokenDrops == (Cur > 0 /\ conns[Cur].broken # "") ~> phase \in {"retry", "returned", "dial", "probe"}
SubmitsAll == (phase = "up") ~> (phase # "up" \/ \A r \in DOMAIN Subs : pos[r] > Len(Subs[r]))
Constraint == Len(conns) <= MaxConns
=============================================================================
