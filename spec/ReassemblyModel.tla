-------------------------- MODULE ReassemblyModel --------------------------
(* A reader that keeps one transfer, explored over every history of at most L  *)
(* lines of the alphabet; it delivers what Reassembly allows and demands. The  *)
(* alphabet is handed to the driver, which replays every word of it.           *)
EXTENDS Reassembly, Json, IOUtils, TLC
CONSTANT L
G(t, y, i) == [g |-> TRUE, t |-> t, y |-> y, i |-> i, adv |-> FALSE]
H(t, y, max, xy) == [g |-> TRUE, t |-> t, y |-> y, i |-> 0, adv |-> TRUE, max |-> max, w |-> "48", h |-> "24", xy |-> xy, ox |-> "7", oy |-> "0"]
A == << "5" >>   B == << "6", "7" >>
Alphabet == << [g |-> FALSE],
               H(A, "mono", 0, FALSE), H(A, "mono", 1, TRUE), H(A, "mono", 2, FALSE), G(A, "mono", 0), G(A, "mono", 1), G(A, "mono", 2), G(A, "mono", 3),
               H(B, "mono", 1, FALSE), G(B, "mono", 1), G(B, "mono", 2),
               H(A, "rgb", 1, FALSE), G(A, "rgb", 1) >>
ASSUME IF "OUT_FILE" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.OUT_FILE, Alphabet) ELSE TRUE

VARIABLES hist, cur, out
vars == << hist, cur, out >>
Idle == [on |-> FALSE]
Line(k) == LET s == Alphabet[k] IN IF s.g THEN s @@ [d |-> << Len(hist) + 1 >>] ELSE s
Init == hist = <<>> /\ cur = Idle /\ out = <<>>
Accept(l, c) ==        \* l continues (or starts) transfer c
    LET c2 == [c EXCEPT !.n = @ + 1, !.d = @ \o l.d] IN
    IF l.i = LastIndex(c.l0) THEN /\ out' = Append(out, [img |-> Img(c.l0, c2.d), final |-> Img(c.l0, c2.d), at |-> Len(hist) + 1])
                            /\ cur' = Idle
                       ELSE out' = out /\ cur' = c2
Read(k) ==
    LET l == Line(k) IN
    /\ Len(hist) < L
    /\ hist' = Append(hist, l)
    /\ IF ~l.g THEN UNCHANGED << cur, out >>
       ELSE IF l.i = 0 THEN Accept(l, [on |-> TRUE, l0 |-> l, n |-> 0, d |-> <<>>])
       ELSE IF cur.on /\ Same(l, cur.l0)
            THEN IF l.i = cur.n THEN Accept(l, cur) ELSE cur' = Idle /\ out' = out
            ELSE UNCHANGED << cur, out >>
Next == \E k \in 1..Len(Alphabet) : Read(k)
Spec == Init /\ [][Next]_vars
Conforms == Delivers(hist, out, TRUE)
(* consequences, stated on their own *)
AtMostOncePerLine == \A a, b \in 1..Len(out) : a # b => out[a].at # out[b].at
NoByteTwice == \A a, b \in 1..Len(out) : a # b => {out[a].img.data[k] : k \in 1..Len(out[a].img.data)} \cap {out[b].img.data[k] : k \in 1..Len(out[b].img.data)} = {}
=============================================================================
