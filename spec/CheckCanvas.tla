----------------------------- MODULE CheckCanvas -----------------------------
(* C16: recorded sequences of drawing operations.                              *)
EXTENDS Canvas, TraceTree
Rng(s) == {s[k] : k \in DOMAIN s}
RECURSIVE Walk(_, _, _, _)
Walk(c, k, st, lit) ==
  IF k > Len(c.steps) THEN TRUE
  ELSE LET s == c.steps[k]
           on == Rng(s.set)
           off == Rng(s.clr)
       IN  /\ s.len = c.size
           /\ IF IsSetting(s) THEN on = {} /\ off = {} ELSE StepOK(st, s, lit, on, off)
           /\ Walk(c, k + 1, IF IsSetting(s) THEN Set(st, s) ELSE st, (lit \cup on) \ off)
Accepts(c) == /\ c.kind = "draw"
              /\ c.size = RowBytes(c.w) * c.h
              /\ Walk(c, 1, NewState(c.w, c.h), Rng(c.lit))
Conforms == i > 0 => Accepts(Cases[i])
==============================================================================
