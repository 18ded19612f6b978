-------------------------- MODULE CheckReassembly --------------------------
(* C05: recorded histories of the real readers and the real line cutter.       *)
EXTENDS Reassembly, TraceTree
Accepts(c) == IF c.kind = "read" THEN Delivers(c.lines, c.obs, c.stream)
              ELSE IF c.kind = "cut" THEN Cut(c.lines, c.img)
              ELSE FALSE
Conforms == i > 0 => Accepts(Cases[i])
=============================================================================
