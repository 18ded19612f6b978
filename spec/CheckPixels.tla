------------------------------ MODULE CheckPixels ------------------------------
(* C17: recorded exports and conversions.                                        *)
EXTENDS PixelFormats, TraceTree
ExportOK(c) ==
  /\ c.pix16 = IF c.six THEN Six16(c.pix) ELSE c.pix
  /\ c.bck16 = IF c.six THEN Six16(c.bck) ELSE c.bck
  /\ c.rgb = RGBExport(c.w, c.h, c.bits, c.pix16, c.bck16)
  /\ c.w % 2 = 0 => c.gray = GrayExport(c.w, c.h, c.bits, c.pix16, c.bck16)
  /\ \A inv \in BOOLEAN : LET o == IF inv THEN c.inverted ELSE c.plain
                          IN  /\ o.w = c.w /\ o.h = c.h /\ o.backW = c.w /\ o.backH = c.h
                              /\ o.pix = ImageOf(c.bits, inv)
                              /\ o.back = IF inv THEN Complement(c.bits) ELSE c.bits
GfxOK(c) == \A k \in 1..Len(c.imgs) : Shows(c.type, c.w, c.h, c.data, c.imgs[k])
Accepts(c) == CASE c.kind = "export" -> ExportOK(c)
                [] c.kind = "gfx" -> GfxOK(c)
                [] OTHER -> FALSE
Conforms == i > 0 => Accepts(Cases[i])
================================================================================
