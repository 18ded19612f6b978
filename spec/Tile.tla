--------------------------------- MODULE Tile ---------------------------------
(* C18: what a rendered display tile may look like. A pixel is y*65536+x.        *)
EXTENDS Integers, Sequences, FiniteSets
Px == INSTANCE PixelFormats
Cv == INSTANCE Canvas

Rng(s) == {s[k] : k \in DOMAIN s}
X(q) == q % 65536
Y(q) == q \div 65536
Bit(n, b) == (n \div b) % 2 = 1

\* the area shrink bits and border leave
Active(w, h, shrink, border) ==
  IF border > 0 THEN [x0 |-> border, y0 |-> border, x1 |-> w - border, y1 |-> h - border]
  ELSE [x0 |-> 0, y0 |-> 0, x1 |-> w - (IF Bit(shrink, 1) THEN 1 ELSE 0), y1 |-> h - (IF Bit(shrink, 2) THEN 1 ELSE 0)]
InArea(a, q) == X(q) >= a.x0 /\ X(q) < a.x1 /\ Y(q) >= a.y0 /\ Y(q) < a.y1

\* ---- colours ----
\* six-bit rrggbb values of the indexed colours
IndexColours == <<63, 0, 63, 61, 48, 53, 51, 19, 52, 60, 3, 7, 27, 15, 28, 12, 13, 42, 21>>
Six(r, g, b) == ((r * 3) \div 255) * 16 + ((g * 3) \div 255) * 4 + (b * 3) \div 255
\* the 16-bit values a requested colour may be shown as
Shown(c, default) == CASE c.kind = "none" -> {default}
                       [] c.kind = "rgb" -> {Px!Six16(Six(c.r, c.g, c.b))}
                       [] c.kind = "index" -> {Px!Six16(IF c.i < Len(IndexColours) THEN IndexColours[c.i + 1] ELSE IndexColours[1])}
                       [] OTHER -> 0..65535           \* a colour without a value requests nothing
ColoursOK(c, img) == /\ img.rgbLen = 2 * c.w * c.h
                     /\ Rng(img.onColours) \subseteq Shown(c.pix, 65535)
                     /\ Rng(img.offColours) \subseteq Shown(c.bck, 0)

\* ---- layout ----
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
MaxOf(S) == CHOOSE m \in S : \A x \in S : m >= x
\* margins left and right of the ink of a line of text, as good as equal
Centred(ink, a) == ink # {} /\ LET l == MinOf({X(q) : q \in ink}) - a.x0
                                    r == a.x1 - 1 - MaxOf({X(q) : q \in ink})
                                IN  l - r <= 2 /\ r - l <= 2
Fits(lines, a) == /\ \A k \in 1..Len(lines) : lines[k].width <= a.x1 - a.x0
                  /\ lines[1].lh * Len(lines) <= a.y1 - a.y0
                  /\ a.x1 > a.x0 /\ a.y1 > a.y0
\* in the default layout the second line begins below the middle row, otherwise with it
TextCentred(c, lit, a) ==
  (~c.fixed /\ Len(c.lines) > 0) => (Fits(c.lines, a) =>
     LET mid == a.y0 + (a.y1 - a.y0 + (IF c.format < 10 THEN 1 ELSE 0)) \div 2
         Line(k, ink) == IF c.lines[k].n > 0 THEN Centred(ink, a) ELSE ink = {}
     IN  IF Len(c.lines) = 1 THEN Line(1, lit)
         ELSE /\ Line(1, {q \in lit : Y(q) < mid})
              /\ Line(2, {q \in lit : Y(q) >= mid}))

TileOK(c) ==
  LET a == Active(c.w, c.h, c.shrink, c.border)
      lit == Rng(c.img.lit)
  IN  /\ c.img.w = c.w /\ c.img.h = c.h /\ c.img.len = Cv!RowBytes(c.w) * c.h
      /\ c.inv.w = c.w /\ c.inv.h = c.h /\ c.inv.len = Cv!RowBytes(c.w) * c.h
      /\ c.again.w = c.w /\ c.again.h = c.h /\ c.again.lit = c.img.lit          \* depends on its inputs only
      /\ c.after = c.before /\ c.invAfter = c.invBefore                          \* and leaves them alone
      /\ \A q \in lit : InArea(a, q)
      /\ c.inv.dark = c.img.lit                                                  \* the complement
      /\ ColoursOK(c, c.img) /\ ColoursOK(c, c.inv)
      /\ TextCentred(c, lit, a)
\* a strength bar over growing values
BarOK(c) == \A k \in 1..(Len(c.imgs) - 1) : Rng(c.imgs[k]) \subseteq Rng(c.imgs[k + 1])
===============================================================================
