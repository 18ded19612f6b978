----------------------------- MODULE CanvasModel -----------------------------
(* The canvas as a state machine: every sequence of settings and exact drawing *)
(* operations on a small canvas with padding.                                  *)
EXTENDS Canvas
W == 3
H == 2
Bits == {y * Stride + x : x \in 0..(8 * RowBytes(W) - 1), y \in 0..(H - 1)}
Visible == {q \in Bits : PX(q) < W}
Padding == Bits \ Visible
Coords == -2..3
Big == {-1000000, 1000000}
Boxes == {<<0, 0, W, H>>, <<1, 1, 1, 1>>, <<-1, 0, 3, 1>>, <<1, -1, 100, 2>>, <<0, 0, 0, 0>>, <<2, 0, 9, 9>>}
PadPatterns == {{}, {3, Stride + 7}, Padding}
VARIABLES lit, st, last
vars == <<lit, st, last>>
Ops == {[op |-> "pixel", a |-> <<x, y>>, color |-> c] : x \in Coords \cup Big, y \in Coords \cup Big, c \in BOOLEAN}
       \cup {[op |-> o, a |-> <<x, y, n>>, color |-> c] : o \in {"hline", "vline"}, x \in {-1, 0, 1}, y \in {-1, 0, 1}, n \in {-1, 0, 2, 5}, c \in BOOLEAN}
       \cup {[op |-> "fillrect", a |-> <<x, y, n, m>>, color |-> c] : x \in {-1, 0, 2}, y \in {-1, 0, 1}, n \in {0, 1, 9}, m \in {0, 1, 9}, c \in BOOLEAN}
Init == /\ \E p \in PadPatterns : lit = p
        /\ st = NewState(W, H)
        /\ last = "init"
Draw(s) == /\ lit' = Drawn(st, s, lit)
           /\ last' = s.op
           /\ UNCHANGED st
Settings == {[op |-> "bbox", a |-> b, color |-> TRUE] : b \in Boxes} \cup {[op |-> "invert", a |-> <<>>, color |-> c] : c \in BOOLEAN}
Change(s) == st' = Set(st, s) /\ last' = s.op /\ UNCHANGED lit
Next == (\E s \in Ops : Draw(s)) \/ (\E s \in Settings : Change(s))
Spec == Init /\ [][Next]_vars
View == <<lit, st>>
TypeOK == lit \subseteq Bits
PaddingKept == [][lit' \cap Padding = lit \cap Padding]_vars
Clipped == [][\A q \in (lit' \ lit) \cup (lit \ lit') : InClip(st, q) /\ q \in Visible]_vars
\* the exact drawing is one of the observations StepOK allows, and the only one
OnlyDrawn == \A s \in Ops : LET a == Drawn(st, s, lit) IN StepOK(st, s, lit, a \ lit, lit \ a)
==============================================================================
