------------------------------ MODULE CheckTiles ------------------------------
(* C18: recorded tiles.                                                         *)
EXTENDS Tile, TraceTree
Accepts(c) == CASE c.kind = "tile" -> TileOK(c)
                [] c.kind = "bar" -> BarOK(c)
                [] OTHER -> FALSE
Conforms == i > 0 => Accepts(Cases[i])
===============================================================================
