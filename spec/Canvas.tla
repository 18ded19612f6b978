-------------------------------- MODULE Canvas --------------------------------
(* C16: a monochrome canvas, its bounding box and its drawing operations.       *)
(* A position is y*Stride+x. Rows are padded to whole bytes: positions with     *)
(* w <= x < 8*Ceil(w/8) are padding. An operation's coordinates are relative to *)
(* the corner of the bounding box.                                              *)
EXTENDS Integers, Sequences, FiniteSets

Stride == 131072
PX(q) == q % Stride
PY(q) == q \div Stride
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RowBytes(w) == (w + 7) \div 8

\* drawing state besides the pixels
NewState(w, h) == [w |-> w, h |-> h, bx |-> 0, by |-> 0, bw |-> w, bh |-> h, inv |-> FALSE, font |-> 0, th |-> 1, tv |-> 1, spacing |-> 0]
IsSetting(s) == s.op \in {"bbox", "invert", "font", "size", "wrap", "spacing"}
Set(st, s) == CASE s.op = "bbox" -> [st EXCEPT !.bx = s.a[1], !.by = s.a[2], !.bw = s.a[3], !.bh = s.a[4]]
                [] s.op = "invert" -> [st EXCEPT !.inv = s.color]
                [] s.op = "font" -> [st EXCEPT !.font = s.a[1]]
                [] s.op = "size" -> LET h == IF s.a[1] > 0 THEN s.a[1] ELSE 1
                                    IN  [st EXCEPT !.th = h, !.tv = IF s.a[2] = 0 THEN h ELSE s.a[2]]
                [] s.op = "spacing" -> [st EXCEPT !.spacing = s.a[1]]
                [] OTHER -> st

\* the clip rectangle: bounding box within the canvas
ClipX0(st) == Max2(st.bx, 0)
ClipX1(st) == Min2(st.bx + st.bw, st.w)
ClipY0(st) == Max2(st.by, 0)
ClipY1(st) == Min2(st.by + st.bh, st.h)
InClip(st, q) == PX(q) >= ClipX0(st) /\ PX(q) < ClipX1(st) /\ PY(q) >= ClipY0(st) /\ PY(q) < ClipY1(st)

Glyph(font) == IF font = 1 THEN [w |-> 8, h |-> 8] ELSE IF font = 2 THEN [w |-> 6, h |-> 6] ELSE [w |-> 6, h |-> 8]

InRect(x, y, rx, ry, rw, rh) == x >= rx /\ x < rx + rw /\ y >= ry /\ y < ry + rh
Abs(v) == IF v < 0 THEN -v ELSE v
Near(a, r) == a <= r + 1                  \* keeps the squares small
Bit(n, b) == (n \div b) % 2 = 1
\* a quarter of a circle line
OnArc(x, y, x0, y0, r, corner) ==
  /\ r > 0 /\ r < 20000
  /\ LET dx == x - x0
         dy == y - y0
         ax == Abs(dx)
         ay == Abs(dy)
     IN  /\ ax <= r /\ ay <= r
         /\ ax * ax + ay * ay <= (r + 1) * (r + 1)
         /\ ax * ax + ay * ay >= (r - 1) * (r - 1)
         /\ \/ Bit(corner, 4) /\ dx >= 0 /\ dy >= 0
            \/ Bit(corner, 2) /\ dx >= 0 /\ dy <= 0
            \/ Bit(corner, 8) /\ dx <= 0 /\ dy >= 0
            \/ Bit(corner, 1) /\ dx <= 0 /\ dy <= 0
\* half a disc, its columns lengthened by delta
InHalf(x, y, x0, y0, r, corner, delta) ==
  /\ r > 0 /\ r < 20000
  /\ LET dx == x - x0
         ax == Abs(dx)
         e == Max2(0, Max2(y0 - y, y - y0 - delta))
     IN  /\ ax <= r /\ e <= r
         /\ ax * ax + e * e <= (r + 1) * (r + 1)
         /\ \/ Bit(corner, 1) /\ dx >= 0
            \/ Bit(corner, 2) /\ dx <= 0
InRoundRect(x, y, rx, ry, w, h, r) ==
  \/ InRect(x, y, rx + r, ry, w - 2 * r, 1)
  \/ InRect(x, y, rx + r, ry + h - 1, w - 2 * r, 1)
  \/ InRect(x, y, rx, ry + r, 1, h - 2 * r)
  \/ InRect(x, y, rx + w - 1, ry + r, 1, h - 2 * r)
  \/ OnArc(x, y, rx + r, ry + r, r, 1)
  \/ OnArc(x, y, rx + w - r - 1, ry + r, r, 2)
  \/ OnArc(x, y, rx + w - r - 1, ry + h - r - 1, r, 4)
  \/ OnArc(x, y, rx + r, ry + h - r - 1, r, 8)
InFillRoundRect(x, y, rx, ry, w, h, r) ==
  \/ InRect(x, y, rx + r, ry, w - 2 * r, h)
  \/ InHalf(x, y, rx + w - r - 1, ry + r, r, 1, h - 2 * r - 1)
  \/ InHalf(x, y, rx + r, ry + r, r, 2, h - 2 * r - 1)
\* the radius a rectangle has room for
Radius(w, h, r) == Max2(0, Min2(r, Min2(w, h) \div 2))

\* the geometric footprint of an operation
InFootprint(st, s, q) ==
  LET x == PX(q) - st.bx
      y == PY(q) - st.by
      a == s.a
      g == Glyph(st.font)
  IN  CASE s.op = "pixel" -> x = a[1] /\ y = a[2]
        [] s.op = "hline" -> InRect(x, y, a[1], a[2], a[3], 1)
        [] s.op = "vline" -> InRect(x, y, a[1], a[2], 1, a[3])
        [] s.op \in {"fillrect", "bitmap"} -> InRect(x, y, a[1], a[2], a[3], a[4])
        [] s.op = "roundrect" -> InRect(x, y, a[1], a[2], a[3], a[4]) /\ InRoundRect(x, y, a[1], a[2], a[3], a[4], Radius(a[3], a[4], a[5]))
        [] s.op = "fillroundrect" -> InRect(x, y, a[1], a[2], a[3], a[4]) /\ InFillRoundRect(x, y, a[1], a[2], a[3], a[4], Radius(a[3], a[4], a[5]))
        [] s.op = "circle" -> OnArc(x, y, a[1], a[2], a[3], a[4])
        [] s.op = "fillcircle" -> InHalf(x, y, a[1], a[2], a[3], a[4], a[5])
        [] s.op = "char" -> InRect(x, y, a[1], a[2], s.cw * a[4], g.h * a[5])
        [] s.op = "text" -> InRect(x, y, Min2(a[1], 0), a[2], Max2(a[1], 0) - Min2(a[1], 0) + s.n * (g.w * st.th + st.spacing), s.n * g.h * st.tv)
        [] OTHER -> FALSE

Exact(s) == s.op \in {"pixel", "hline", "vline", "fillrect"}
Region(st, s) == IF s.op \in {"pixel", "hline", "vline", "fillrect"}
                 THEN LET rw == IF s.op \in {"pixel", "vline"} THEN 1 ELSE s.a[3]
                          rh == IF s.op \in {"pixel", "hline"} THEN 1 ELSE IF s.op = "vline" THEN s.a[3] ELSE s.a[4]
                          x0 == Max2(ClipX0(st), st.bx + s.a[1])
                          x1 == Min2(ClipX1(st), st.bx + s.a[1] + rw)
                          y0 == Max2(ClipY0(st), st.by + s.a[2])
                          y1 == Min2(ClipY1(st), st.by + s.a[2] + rh)
                      IN  {y * Stride + x : x \in x0..(x1 - 1), y \in y0..(y1 - 1)}
                 ELSE {}
\* the pixels lit after an exact operation
Drawn(st, s, lit) == IF s.color # st.inv THEN lit \cup Region(st, s) ELSE lit \ Region(st, s)

\* one observed step from the pixels lit: those switched on and off
StepOK(st, s, lit, on, off) ==
  /\ \A q \in on \cup off : InClip(st, q) /\ InFootprint(st, s, q)
  /\ Exact(s) => (lit \cup on) \ off = Drawn(st, s, lit)
===============================================================================
