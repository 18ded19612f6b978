------------------------------ MODULE CheckSvg ------------------------------
(* C15: recorded composite SVG documents.                                      *)
EXTENDS CompositeSvg, TraceTree
Conforms == i > 0 => SvgOK(Cases[i])
=============================================================================
