------------------------------- MODULE CheckText -------------------------------
(* C20: recorded renderings of a text at several places and sizes.               *)
EXTENDS TextMetrics, TraceTree
Accepts(c) == /\ c.kind = "text"
              /\ c.runs[1].h = 1 /\ c.runs[1].v = 1
              /\ \A k \in 1..Len(c.runs) : Boxed(c.runs[k], c.lf) /\ SameText(c.runs[1], c.runs[k], c.lf)
Conforms == i > 0 => Accepts(Cases[i])
================================================================================
