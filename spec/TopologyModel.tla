--------------------------- MODULE TopologyModel ---------------------------
(* A small topology under every sequence of look-ups, renumberings (by any   *)
(* injective map into the free ids), section removals and round trips.       *)
EXTENDS Topology
VARIABLES t, kept, renumbered
vars == << t, kept, renumbered >>
Ids == {"1", "2", "250", "7"}
D(w, disp) == [NoDef EXCEPT !.w = w, !.disp = disp]
Disp == << [w |-> "64", h |-> "32", subidx |-> "-1", type |-> "", shrink |-> "0", border |-> "0"] >>
Defs == {D("0", <<>>), D("5", <<>>), D("5", Disp)}
Overs == {<<>>, << NoDef >>, << D("9", <<>>) >>, << D("0", Disp) >>}
Comp(id, type, over) == [NoComp EXCEPT !.id = id, !.type = type, !.over = over]
(* types "1" and "250" are indexed; components of those types or disabled *)
Init == \E d1, d2 \in Defs, ty1, ty2, ty3 \in {"0", "1", "250"}, o1, o2 \in Overs :
            /\ t = [title |-> "", types |-> << [id |-> "1", def |-> d1], [id |-> "250", def |-> d2] >>,
                    hwc |-> << Comp("1", ty1, o1), Comp("2", ty2, o2), Comp("3", ty3, <<>>) >>]
            /\ kept = [k \in 1..3 |-> [c |-> t.hwc[k], def |-> Resolve(t, t.hwc[k])]]
            /\ renumbered = 0
Map(m, type) == IF type = "0" \/ type \notin DOMAIN m THEN type ELSE m[type]
Apply(m) == [t EXCEPT !.types = [k \in 1..Len(t.types) |-> [t.types[k] EXCEPT !.id = m[@]]],
                      !.hwc = [k \in 1..Len(t.hwc) |-> [t.hwc[k] EXCEPT !.type = Map(m, @)]]]
Renumber == /\ renumbered < 2
            /\ \E m \in [TypeIds(t) -> Ids] : /\ \A a, b \in TypeIds(t) : a # b => m[a] # m[b]
                                              /\ t' = Apply(m)
            /\ renumbered' = renumbered + 1 /\ UNCHANGED kept
RemoveSections == /\ t' = Clean(t)
                  /\ kept' = SelectSeq(kept, LAMBDA e : \E k \in 1..Len(t'.hwc) : t'.hwc[k].id = e.c.id)
                  /\ UNCHANGED renumbered
LookUp == UNCHANGED vars
Next == Renumber \/ RemoveSections \/ LookUp
Spec == Init /\ [][Next]_vars

MeaningKept == /\ Len(t.hwc) = Len(kept) /\ Len(t.types) = 2
               /\ \A k \in 1..Len(kept) : /\ t.hwc[k].id = kept[k].c.id /\ t.hwc[k].over = kept[k].c.over
                                          /\ (t.hwc[k].type = "0") = (kept[k].c.type = "0")
                                          /\ Resolve(t, t.hwc[k]) = kept[k].def
CleanTwice == Clean(Clean(t)) = Clean(t) /\ \A k \in 1..Len(Clean(t).hwc) : Clean(t).hwc[k].type # SectionType
OverlayOK == \A k \in 1..Len(t.hwc) : LET r == Resolve(t, t.hwc[k]) IN IsDefOf(t, t.hwc[k], r, Attrs)
(* the transition relation of the specification admits exactly the steps of the model *)
Accepted == [][\/ t' = t \/ t' = Clean(t) \/ Renumbered(t, t', FALSE)]_vars
=============================================================================
