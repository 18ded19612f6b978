----------------------------- MODULE Reassembly -----------------------------
(* Chunked graphics: which images a history of lines may and must deliver.     *)
(* A line is a record                                                          *)
(*   [g |-> FALSE]                                      not a graphics line     *)
(*   [g |-> TRUE, t, y, i, adv, max, w, h, xy, ox, oy, d]   chunk i of an image *)
(*     of kind y for the components t, carrying the bytes d; for i = 0 adv      *)
(*     tells the advanced form with its header fields; the simple form means    *)
(*     three lines of a 64x32 tile.                                            *)
EXTENDS Naturals, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

Kinds == [mono |-> "0", rgb |-> "1", gray |-> "2"]
LastIndex(l) == IF l.adv THEN l.max ELSE 2
Img(l, d) == [ids |-> l.t, type |-> Kinds[l.y], w |-> IF l.adv THEN l.w ELSE "64", h |-> IF l.adv THEN l.h ELSE "32",
              xy |-> l.adv /\ l.xy, x |-> IF l.adv /\ l.xy THEN l.ox ELSE "0", y |-> IF l.adv /\ l.xy THEN l.oy ELSE "0", data |-> d]
Same(a, b) == a.g /\ b.g /\ a.t = b.t /\ a.y = b.y

None == [st |-> "none"]
(* one more line k of a history for the transfer that line p0 starts: last is its last accepted line, clean: nothing else in between *)
Take(lines, p0, t, k) ==
    IF t.st # "open" THEN t
    ELSE LET l == lines[k] IN
         IF ~l.g THEN t
         ELSE IF ~Same(l, lines[p0]) THEN [t EXCEPT !.clean = FALSE]
         ELSE IF l.i = lines[t.last].i + 1
              THEN [t EXCEPT !.last = k, !.data = @ \o l.d, !.st = IF l.i = LastIndex(lines[p0]) THEN "done" ELSE "open"]
         ELSE IF l = lines[t.last] /\ l.i # 0 THEN [t EXCEPT !.clean = FALSE]       \* the very same line once more
         ELSE None              \* out of sequence: what follows may belong to another transfer
(* the transfer that line p starts, as far as the history takes it *)
Transfer(lines, p) == FoldLeft(LAMBDA t, k : Take(lines, p, t, k),
                               [st |-> IF LastIndex(lines[p]) = 0 THEN "done" ELSE "open", last |-> p, data |-> lines[p].d, clean |-> TRUE],
                               [n \in 1..(Len(lines) - p) |-> p + n])
Starts(lines) == SelectSeq([k \in 1..Len(lines) |-> k], LAMBDA k : lines[k].g /\ lines[k].i = 0)
(* the images completed by the transfers of a history, in the order of their starting lines *)
Completions(lines) == FoldLeft(LAMBDA acc, p : LET t == Transfer(lines, p) IN
                                   IF t.st # "done" THEN acc
                                   ELSE Append(acc, [at |-> t.last, img |-> Img(lines[p], t.data), must |-> t.clean]),
                               <<>>, Starts(lines))
(* in the order of the line that completes them: at most one per line, of the transfer that was started last *)
All(lines) == LET cs == Completions(lines)
                  latest(at) == {n \in DOMAIN cs : cs[n].at = at /\ \A m \in DOMAIN cs : cs[m].at = at => m <= n}
              IN FoldLeft(LAMBDA acc, at : LET ns == latest(at) IN IF ns = {} THEN acc ELSE Append(acc, cs[CHOOSE n \in ns : TRUE]),
                          <<>>, [k \in 1..Len(lines) |-> k])

RECURSIVE Match(_, _, _, _, _)
(* obs[a..] is what comps[b..] may deliver and contains what they must deliver *)
Match(obs, comps, a, b, stream) ==
    IF b > Len(comps) THEN a > Len(obs)
    ELSE \/ /\ a <= Len(obs)
            /\ obs[a].img = comps[b].img
            /\ obs[a].final = comps[b].img        \* and stays so
            /\ stream => obs[a].at = comps[b].at
            /\ Match(obs, comps, a + 1, b + 1, stream)
         \/ /\ ~comps[b].must
            /\ Match(obs, comps, a, b + 1, stream)
Delivers(lines, obs, stream) == Match(obs, All(lines), 1, 1, stream)

(* how an image is cut into lines: numbered from 0, at most 170 bytes each, header on the first only *)
Data(lines) == FoldLeft(LAMBDA acc, l : acc \o l.d, <<>>, lines)
Cut(lines, img) == IF img.data = <<>> /\ lines = <<>> THEN TRUE ELSE       \* an empty image has no chunks
    /\ Len(lines) > 0
    /\ \A k \in 1..Len(lines) : /\ lines[k].g /\ lines[k].i = k - 1 /\ Len(lines[k].d) <= 170
                                /\ lines[k].t = img.ids /\ Kinds[lines[k].y] = img.type
                                /\ lines[k].adv = (k = 1)
    /\ LastIndex(lines[1]) = Len(lines) - 1
    /\ Img(lines[1], Data(lines)) = img
=============================================================================
