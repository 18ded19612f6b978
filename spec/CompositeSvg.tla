---------------------------- MODULE CompositeSvg ----------------------------
(* The composite SVG of a panel: the base document, then, per visible        *)
(* component, a main shape, its sub-shapes, label lines and texts.           *)
EXTENDS Topology

IntVal(s) == IF Negative(s) THEN 0 - SmallNat(Rest(s, 1)) ELSE SmallNat(s)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
ToSet(s) == {s[k] : k \in 1..Len(s)}

(* ---- the base document's content ---- *)
NoDuplicates(e) == Cardinality({e.a[k][1] : k \in 1..Len(e.a)}) = Len(e.a)
SameElement(b, o, order) == /\ o.d = b.d /\ o.n = b.n /\ ToSet(o.a) = ToSet(b.a) /\ NoDuplicates(o)
                            /\ NoWS(o.t) = NoWS(b.t)
                            /\ order => o.mix = b.mix
BaseKept(c) == /\ Len(c.kept) = Len(c.els)
               /\ \A k \in 1..Len(c.els) : SameElement(c.els[k], c.kept[k], c.kind = "mixed" /\ k > 1)

(* ---- what is added ---- *)
Visible(c, comp) == c.nomap \/ \E k \in 1..Len(c.map) : c.map[k][1] = comp.id /\ c.map[k][2]
Options(def) == ToSet(Split(def.render, ","))
(* the non-empty label lines *)
Labels(comp) == SelectSeq(Split(comp.txt, "|"), LAMBDA s : NoWS(s) # <<>>)
SignedStr(n) == IF n < 0 THEN "-" \o NatStr(0 - n) ELSE NatStr(n)
SizeText(d) == d.w \o "x" \o d.h \o (IF d.type = "" THEN "" ELSE " " \o d.type)

(* what is expected for a component, in order: shapes, then texts *)
Shapes(comp, def) == << [what |-> "main"] >> \o
    MapSeq(LAMBDA s : [what |-> s.t, sub |-> s], SelectSeq(def.sub, LAMBDA s : s.t \in {"r", "c"}))
Texts(c, comp, def) ==
    (IF c.flags.labels \/ "txt" \in Options(def) THEN MapSeq(LAMBDA s : [what |-> "text", t |-> s, label |-> TRUE, near |-> TRUE], Labels(comp)) ELSE <<>>) \o
    (IF c.flags.types THEN << [what |-> "text", t |-> "[TYPE=" \o comp.type \o "]", label |-> FALSE, near |-> TRUE] >> ELSE <<>>) \o
    (IF c.flags.sizes /\ def.disp # <<>> THEN << [what |-> "text", t |-> SizeText(def.disp[1]), label |-> FALSE, near |-> FALSE] >> ELSE <<>>) \o
    (IF c.flags.ids \/ "hwcid" \in Options(def) THEN << [what |-> "text", t |-> comp.id, label |-> FALSE, near |-> TRUE] >> ELSE <<>>)

(* turned around the component's centre, by the resolved rotation *)
Turned(o, comp, def) == IF def.rotate = "0" THEN o.rot = <<>>
                        ELSE /\ Len(o.rot) = 1 /\ Abs(o.rot[1].milli - IntVal(def.rotate)) <= 1
                             /\ o.rot[1].x = IntVal(comp.x) /\ o.rot[1].y = IntVal(comp.y)
Has(o, names) == names \subseteq DOMAIN o.num
MainOK(o, comp, def) ==
    LET X == IntVal(comp.x) Y == IntVal(comp.y) W == IntVal(def.w) H == IntVal(def.h) IN
    /\ o.id = "HWc" \o comp.id /\ Turned(o, comp, def)
    /\ IF H > 0
       THEN /\ o.n = "rect" /\ Has(o, {"x", "y", "width", "height"})
            /\ o.num.width = W /\ o.num.height = H
            /\ Abs(2 * o.num.x + W - 2 * X) <= 1 /\ Abs(2 * o.num.y + H - 2 * Y) <= 1
       ELSE /\ o.n = "circle" /\ Has(o, {"cx", "cy", "r"})
            /\ o.num.cx = X /\ o.num.cy = Y /\ Abs(2 * o.num.r - W) <= 1
NumOr0(o, f) == IF f \in DOMAIN o.num THEN o.num[f] ELSE 0
SubOK(o, s, comp, def) ==
    LET X == IntVal(comp.x) + IntVal(s.x) Y == IntVal(comp.y) + IntVal(s.y) IN
    /\ Turned(o, comp, def) /\ o.id = ""
    /\ NumOr0(o, "rx") = IntVal(s.rx) /\ NumOr0(o, "ry") = IntVal(s.ry) /\ NoWS(o.style) = NoWS(s.style)
    /\ IF s.t = "r" THEN /\ o.n = "rect" /\ Has(o, {"x", "y", "width", "height"})
                         /\ o.num.x = X /\ o.num.y = Y /\ o.num.width = IntVal(s.w) /\ o.num.height = IntVal(s.h)
       ELSE o.n = "circle" /\ Has(o, {"cx", "cy", "r"}) /\ o.num.cx = X /\ o.num.cy = Y /\ o.num.r = IntVal(s.r)
(* texts stand at the component (labels at its middle), and turn around its centre if at all *)
TextMargin == 60
At(o, comp, def, label) ==
    LET X == IntVal(comp.x) Y == IntVal(comp.y)
        W == IF label THEN 0 ELSE IntVal(def.w) H == IF label THEN 0 ELSE IntVal(def.h)
        half(n) == (IF n < 0 THEN 0 - n ELSE n) \div 2 IN
    /\ Has(o, {"x", "y"})
    /\ Abs(o.num.x - X) <= half(W) + TextMargin
    /\ Abs(o.num.y - Y) <= (IF H > 0 THEN half(H) ELSE half(W)) + TextMargin
    /\ Len(o.rot) <= 1 /\ \A k \in 1..Len(o.rot) : o.rot[k].x = X /\ o.rot[k].y = Y
TextOK(o, e, comp, def) == /\ o.n = "text" /\ NoWS(o.t) = NoWS(e.t) /\ o.id = ""
                           /\ e.near => At(o, comp, def, e.label)
                           /\ e.label => o.num.x = IntVal(comp.x)
ItemOK(o, e, comp, def) == /\ o.d = 2 /\ ~o.dup
                           /\ CASE e.what = "main" -> MainOK(o, comp, def)
                                [] e.what = "text" -> TextOK(o, e, comp, def)
                                [] OTHER -> SubOK(o, e.sub, comp, def)
Expected(c, comp) == LET def == Resolve(c.topo, comp)
                     IN MapSeq(LAMBDA e : [e |-> e, comp |-> comp, def |-> def], Shapes(comp, def) \o Texts(c, comp, def))
(* empty text elements say nothing *)
Said(added) == SelectSeq(added, LAMBDA o : ~(o.n = "text" /\ o.t = ""))
AddedOK(c) ==
    LET want == FlatMap(LAMBDA comp : Expected(c, comp), SelectSeq(c.topo.hwc, LAMBDA comp : Visible(c, comp)))
        got == Said(c.added)
    IN /\ Len(got) = Len(want)
       /\ \A k \in 1..Len(want) : ItemOK(got[k], want[k].e, want[k].comp, want[k].def)
       (* a second label line stands below the first *)
       /\ \A k \in 2..Len(want) : (want[k].e.what = "text" /\ want[k - 1].e.what = "text" /\ want[k].e.label /\ want[k - 1].e.label
                                   /\ k > 2 /\ want[k].comp = want[k - 1].comp)
                                  => got[k].num.y > got[k - 1].num.y

SvgOK(c) == CASE c.kind = "invalid" -> c.empty
              [] c.kind = "any" -> TRUE
              [] c.kind = "wellformed" -> ~c.empty /\ c.wellformed /\ BaseKept(c)
              [] c.kind \in {"doc", "mixed"} -> ~c.empty /\ c.wellformed /\ BaseKept(c) /\ AddedOK(c)
              [] OTHER -> FALSE
=============================================================================
