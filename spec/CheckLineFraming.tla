-------------------------- MODULE CheckLineFraming --------------------------
(* C07: recorded encodings of messages with line feeds in their texts, and the *)
(* line streams two clients write. The high-level client also sends pings.     *)
EXTENDS LineFraming, TraceTree
NoPings(ls) == SelectSeq(ls, LAMBDA l : l # "ping")
Ended(s) == s = "" \/ Ch(s, Len(s)) = LF
Accepts(c) == CASE c.kind = "enc" -> /\ \A k \in 1..Len(c.lines) : OneLine(c.lines[k])
                                     /\ KeepsContent(c.dir, c.msgs, c.lines)
                [] c.kind = "stream" -> /\ \A k \in 1..Len(c.lines) : OneLine(c.lines[k])
                                        /\ \/ c.stream = Stream(c.lines)
                                           \/ c.client = "gorwp" /\ Ended(c.stream) /\ NoPings(Received(c.stream)) = NoPings(c.lines)
                [] OTHER -> FALSE
Conforms == i > 0 => Accepts(Cases[i])
=============================================================================
