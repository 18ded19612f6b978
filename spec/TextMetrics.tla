------------------------------ MODULE TextMetrics ------------------------------
(* C20: the ink of a text against the box its metrics report, and the ink of the *)
(* same text elsewhere and at other sizes. A pixel is y*Stride+x.                *)
EXTENDS Integers, Sequences
Stride == 524288
IX(p) == p % Stride
IY(p) == p \div Stride
\* the box: one line, or as many as the text has line feeds; a line feed returns to the left edge
InBox(r, lf, p) == /\ IY(p) >= r.cy /\ IY(p) < r.cy + (lf + 1) * r.lh
                   /\ lf = 0 => IX(p) >= r.cx /\ IX(p) < r.cx + r.width + r.h
Boxed(r, lf) == \A k \in 1..Len(r.ink) : InBox(r, lf, r.ink[k])

Ink(r) == {r.ink[k] : k \in 1..Len(r.ink)}
\* every pixel of the size-1 rendering, moved to the new cursor and enlarged, as far as it is on the canvas
Enlarged(b, r) ==
  LET ink == Ink(b)
      Left == {p \in ink : r.cx + (IX(p) - b.cx) * r.h < 0 \/ r.cy + (IY(p) - b.cy) * r.v < 0}
      At(p, i, j) == <<r.cx + (IX(p) - b.cx) * r.h + i, r.cy + (IY(p) - b.cy) * r.v + j>>
      Seen(q) == q[1] >= 0 /\ q[2] >= 0
      I == 0..(r.h - 1)
      J == 0..(r.v - 1)
  IN  {LET q == At(p, i, j) IN q[2] * Stride + q[1] : p \in ink \ Left, i \in I, j \in J}
      \cup {q[2] * Stride + q[1] : q \in {q \in {At(p, i, j) : p \in Left, i \in I, j \in J} : Seen(q)}}
SameText(b, r, lf) == lf = 0 => Ink(r) = Enlarged(b, r)
================================================================================
