-------------------------- MODULE CheckConverters --------------------------
(* C06: recorded calls. A case is one argument with the result of the call     *)
(* made on its own (seq) and the results of the calls made while others were   *)
(* under way (conc); a result names what came back: "n/digest", "nil message"  *)
(* or "panic: ...".                                                            *)
EXTENDS RwpText, TraceTree
Returned(d) == Len(d) > 0 /\ Ch(d, 1) \in DigitSet
Accepts(c) == Returned(c.seq) /\ \A k \in 1..Len(c.conc) : c.conc[k] = c.seq
Conforms == i > 0 => Accepts(Cases[i])
=============================================================================
