----------------------------- MODULE PixelFormats -----------------------------
(* C17: the stored values of the three pixel formats and what they stand for.   *)
EXTENDS Integers, Sequences

\* ---- colours ----
\* 6-bit rrggbb to bbbbbggggggrrrrr
Field6(c, s) == (c \div s) % 4
Six16(c) == ((Field6(c, 1) * 31) \div 3) * 2048 + (Field6(c, 4) * 21) * 32 + (Field6(c, 16) * 31) \div 3
Red5(v) == v % 32
Green6(v) == (v \div 32) % 64
Blue5(v) == v \div 2048
RGB(r, g, b) == r * 65536 + g * 256 + b
\* RGB565 to 24 bits
Expand16(v) == RGB((Red5(v) * 255) \div 31, (Green6(v) * 255) \div 63, (Blue5(v) * 255) \div 31)
Expand4(n) == RGB(n * 17, n * 17, n * 17)
Expand1(b) == IF b = 1 THEN RGB(255, 255, 255) ELSE 0
White == RGB(255, 255, 255)
Black == 0
\* luma of an RGB565 colour, its upper four bits of sixteen; the products are taken in two halves
Luma16(v) == LET R == Red5(v) * 2114
                 G == Green6(v) * 1040
                 B == Blue5(v) * 2114
                 hi == 19595 * (R \div 256) + 38470 * (G \div 256) + 7471 * (B \div 256)
                 lo == 19595 * (R % 256) + 38470 * (G % 256) + 7471 * (B % 256)
             IN  (hi + (lo + 32768) \div 256) \div 256
Nibble(v) == Luma16(v) \div 4096

\* ---- exports of a mono image: bits[y][x] ----
RGBExport(w, h, bits, pix, bck) == [k \in 1..(2 * w * h) |-> LET p == (k - 1) \div 2
                                                                 v == IF bits[p \div w + 1][(p % w) + 1] = 1 THEN pix ELSE bck
                                                             IN  IF k % 2 = 1 THEN v \div 256 ELSE v % 256]
GrayExport(w, h, bits, pix, bck) == LET np == Nibble(pix)
                                        nb == Nibble(bck)
                                        At(p) == IF bits[p \div w + 1][(p % w) + 1] = 1 THEN np ELSE nb
                                    IN  [k \in 1..((w * h) \div 2) |-> At(2 * k - 2) * 16 + At(2 * k - 1)]
ImageOf(bits, invert) == [y \in DOMAIN bits |-> [x \in DOMAIN bits[y] |-> IF (bits[y][x] = 1) # invert THEN Black ELSE White]]
Complement(bits) == [y \in DOMAIN bits |-> [x \in DOMAIN bits[y] |-> 1 - bits[y][x]]]

\* ---- the pixels of a graphics state ----
Covered(type, w, h, n, x, y) == CASE type = 0 -> y * ((w + 7) \div 8) + x \div 8 < n
                                  [] type = 1 -> 2 * (y * w + x) + 1 < n
                                  [] type = 2 -> (y * w + x) \div 2 < n
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Value(type, w, h, d, x, y) == CASE type = 0 -> Expand1((d[y * ((w + 7) \div 8) + x \div 8 + 1] \div Pow2[8 - (x % 8)]) % 2)
                                [] type = 1 -> Expand16(d[2 * (y * w + x) + 1] * 256 + d[2 * (y * w + x) + 2])
                                [] type = 2 -> LET p == y * w + x
                                                   b == d[p \div 2 + 1]
                                               IN  Expand4(IF p % 2 = 0 THEN b \div 16 ELSE b % 16)
\* an image of the declared size, or the state's image placed in the middle of a larger or smaller one
ShowsAt(type, w, h, d, im, ox, oy) ==
  \A y \in 0..(im.th - 1), x \in 0..(im.tw - 1) :
     LET sx == x - ox
         sy == y - oy
         inside == sx >= 0 /\ sx < w /\ sy >= 0 /\ sy < h
     IN  IF inside
         THEN Covered(type, w, h, Len(d), sx, sy) => im.pix[y + 1][x + 1] = Value(type, w, h, d, sx, sy)
         ELSE im.pix[y + 1][x + 1] \in {Black, -1}      \* black, see-through or not
Middle(t, s) == {(t - s) \div 2, 0 - ((s - t) \div 2)}
Shows(type, w, h, d, im) == /\ im.w = im.tw /\ im.h = im.th
                            /\ \E ox \in Middle(im.tw, w), oy \in Middle(im.th, h) : ShowsAt(type, w, h, d, im, ox, oy)
===============================================================================
