----------------------------- MODULE Topology -----------------------------
(* A panel's topology: a list of components, each with a type number, an     *)
(* index of type definitions, and per-component overrides.                   *)
(* Numbers are decimal spellings; optional things are sequences of length    *)
(* at most one.                                                              *)
EXTENDS RwpText

NoDef == [w |-> "0", h |-> "0", out |-> "", in |-> "", desc |-> "", ext |-> "", subidx |-> "0", rotate |-> "0", disp |-> <<>>, sub |-> <<>>, render |-> ""]
NoComp == [id |-> "0", x |-> "0", y |-> "0", txt |-> "", type |-> "0", over |-> <<>>, uiparent |-> "0", uiyang |-> "0"]
Attrs == DOMAIN NoDef
(* attributes that only the first resolver overlays are not compared for the second *)
Shared == Attrs \ {"desc", "render"}

Negative(s) == StartsWith(s, "-")
Empty(a, v) == CASE a \in {"w", "h", "subidx", "rotate"} -> v = "0"
                 [] a \in {"disp", "sub"} -> v = <<>>
                 [] OTHER -> v = ""

(* ---- resolution ---- *)
Indexed(t, type) == \E k \in 1..Len(t.types) : t.types[k].id = type
BaseDef(t, type) == IF Indexed(t, type) THEN t.types[CHOOSE k \in 1..Len(t.types) : t.types[k].id = type].def ELSE NoDef
Overlay(base, over) == [a \in Attrs |-> IF Empty(a, over[a]) THEN base[a] ELSE over[a]]
Resolve(t, c) == LET b == BaseDef(t, c.type) IN IF c.over = <<>> THEN b ELSE Overlay(b, c.over[1])
(* the first component with an id; 0 when there is none *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(t, id, k) == IF k > Len(t.hwc) THEN 0 ELSE IF t.hwc[k].id = id THEN k ELSE IndexFrom(t, id, k + 1)
Index(t, id) == IndexFrom(t, id, 1)

(* ---- predicates of a definition ---- *)
Kind(def) == IF Find(def.in, ",") = 0 THEN def.in ELSE SubSeq(def.in, 1, Find(def.in, ",") - 1)
ButtonKinds == {"b", "b4", "b2h", "b2v", "pb"}
Contains(s, p) == \E k \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, k, k + Len(p) - 1) = p
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
PredsOK(def, p) ==
    /\ p.input = Kind(def)
    /\ p.button = (Kind(def) \in ButtonKinds)
    /\ p.binary = (Kind(def) \in ButtonKinds \cup {"gpi"})
    /\ p.pulsed = (Kind(def) \in {"pb", "p"})
    /\ p.absolute = (Kind(def) \in {"av", "ah", "ar", "a"})
    /\ p.intensity = (Kind(def) \in {"iv", "ih", "ir", "i"})
    /\ p.hasDisplay = (def.disp # <<>>)
    /\ p.disp = def.disp
    /\ Find(def.in, ",") = 0 => p.led = (def.out = "rgb" \/ def.in \in {"rg", "rb", "mono"})
    /\ p.motor = (def.ext = "pos")
    /\ p.bar = (IF Contains(def.ext, "steps") THEN Len(def.sub) ELSE 0)
    /\ LET idx == {def.sub[k].idx : k \in 1..Len(def.sub)} IN
       IF def.ext # "steps" THEN p.steps = 0
       ELSE idx # {} => p.steps = MaxOf(idx) - MinOf(idx) + 1

(* ---- look-ups ---- *)
(* a definition d is the one of component c; a handle index below zero in an override may count as given or not *)
IsDefOf(t, c, d, attrs) ==
    LET r == Resolve(t, c) IN
    \A a \in attrs : \/ d[a] = r[a]
                     \/ /\ c.over # <<>> /\ a \in {"w", "h", "subidx"} /\ Negative(c.over[1][a])
                        /\ d[a] = BaseDef(t, c.type)[a]
InRange(id) == ~Negative(id) /\ Len(id) <= 10 /\ (Len(id) = 10 => \A k \in 1..10 : \/ DigitVal[Ch(id, k)] <= DigitVal[Ch("4294967295", k)]
                                                                                  \/ \E j \in 1..(k - 1) : DigitVal[Ch(id, j)] < DigitVal[Ch("4294967295", j)])
LookOK(t, q) ==
    LET k == IF q.fn \in {"xy", "text", "type", "def2", "comp"} /\ InRange(q.id) THEN Index(t, q.id) ELSE 0
        pos == IF q.fn \in {"defk", "over"} THEN (IF Negative(q.id) THEN 0 ELSE SmallNat(q.id) + 1) ELSE 0
        Second(c, r) == IF Indexed(t, c.type)
                        THEN IsDefOf(t, c, r.def, Shared) /\ PredsOK(r.def, r.pred)
                        ELSE TRUE
    IN CASE q.fn = "xy" -> IF k = 0 THEN q.res = [x |-> "-1", y |-> "-1"] ELSE q.res = [x |-> t.hwc[k].x, y |-> t.hwc[k].y]
         [] q.fn = "text" -> q.res.txt = IF k = 0 THEN "" ELSE t.hwc[k].txt
         [] q.fn = "type" -> IF k = 0 THEN q.res.err /\ q.res.def = <<>>
                             ELSE /\ ~q.res.err /\ Len(q.res.def) = 1
                                  /\ IsDefOf(t, t.hwc[k], q.res.def[1], Attrs) /\ PredsOK(q.res.def[1], q.res.pred[1])
         [] q.fn = "over" -> IsDefOf(t, t.hwc[pos], q.res.def, Attrs) /\ PredsOK(q.res.def, q.res.pred)
         [] q.fn = "def2" -> IF k = 0 THEN q.res.def = NoDef ELSE Second(t.hwc[k], q.res)
         [] q.fn = "defk" -> IF pos = 0 \/ pos > Len(t.hwc) THEN q.res.def = NoDef ELSE Second(t.hwc[pos], q.res)
         [] q.fn = "comp" -> q.res.comp = IF k = 0 THEN NoComp ELSE t.hwc[k]
         [] q.fn = "hwcs" -> q.res.ids = [j \in 1..Len(t.hwc) |-> t.hwc[j].id]
         [] q.fn = "withDisplay" -> q.res.ids = MapSeq(LAMBDA c : c.id, SelectSeq(t.hwc, LAMBDA c : Resolve(t, c).disp # <<>>))
         [] q.fn = "verify" -> TRUE
         [] OTHER -> FALSE
(* both resolvers, asked for the same component, agree *)
Agree(looks, t) ==
    \A a, b \in 1..Len(looks) :
        (looks[a].fn = "over" /\ looks[b].fn = "defk" /\ looks[a].id = looks[b].id /\ Indexed(t, t.hwc[SmallNat(looks[a].id) + 1].type))
            => \A x \in Shared : looks[a].res.def[x] = looks[b].res.def[x]
LookupsOK(c) == /\ \A k \in 1..Len(c.looks) : LookOK(c.topo, c.looks[k])
                /\ Agree(c.looks, c.topo)
                /\ Len(c.jsons) = 1 /\ c.after = c.topo

(* ---- transformations ---- *)
SectionType == "250"
Clean(t) == [t EXCEPT !.hwc = SelectSeq(t.hwc, LAMBDA c : c.type # SectionType)]
TypeIds(t) == {t.types[k].id : k \in 1..Len(t.types)}
(* t2 is t with its type numbers exchanged *)
Renumbered(t, t2, seq) ==
    /\ t2.title = t.title
    /\ Len(t2.hwc) = Len(t.hwc)
    /\ \A k \in 1..Len(t.hwc) : /\ \A f \in DOMAIN t.hwc[k] \ {"type"} : t2.hwc[k][f] = t.hwc[k][f]
                                /\ (t.hwc[k].type = "0") = (t2.hwc[k].type = "0")
                                /\ Resolve(t2, t2.hwc[k]) = Resolve(t, t.hwc[k])
                                /\ Indexed(t, t.hwc[k].type) => Indexed(t2, t2.hwc[k].type)
    /\ Len(t2.types) = Len(t.types)
    /\ \A k \in 1..Len(t.types) : Cardinality({j \in 1..Len(t2.types) : t2.types[j].def = t.types[k].def})
                                = Cardinality({j \in 1..Len(t.types) : t.types[j].def = t.types[k].def})
    /\ seq => TypeIds(t2) = {NatStr(n) : n \in 1..Len(t.types)}

(* ---- the JSON form ---- *)
(* spelled numbers, absent when empty unless always present *)
Field(raw, key, v, empty, always) == IF key \in DOMAIN raw THEN raw[key] = v ELSE v = empty /\ ~always
JsonDisp(raw, d) == /\ Field(raw, "w", d.w, "0", FALSE) /\ Field(raw, "h", d.h, "0", FALSE) /\ Field(raw, "subidx", d.subidx, "0", TRUE)
                    /\ Field(raw, "type", d.type, "", FALSE) /\ Field(raw, "shrink", d.shrink, "0", FALSE) /\ Field(raw, "txtborder", d.border, "0", FALSE)
JsonSub(raw, s) == /\ Field(raw, "_", s.t, "", FALSE) /\ Field(raw, "_x", s.x, "0", FALSE) /\ Field(raw, "_y", s.y, "0", FALSE)
                   /\ Field(raw, "_w", s.w, "0", FALSE) /\ Field(raw, "_h", s.h, "0", FALSE) /\ Field(raw, "r", s.r, "0", FALSE)
                   /\ Field(raw, "rx", s.rx, "0", FALSE) /\ Field(raw, "ry", s.ry, "0", FALSE) /\ Field(raw, "style", s.style, "", FALSE)
                   /\ Field(raw, "_idx", IF s.idx < 0 THEN "-" \o NatStr(-s.idx) ELSE NatStr(s.idx), "0", FALSE)
JsonDef(raw, d) ==
    /\ Field(raw, "w", d.w, "0", FALSE) /\ Field(raw, "h", d.h, "0", FALSE) /\ Field(raw, "out", d.out, "", FALSE) /\ Field(raw, "in", d.in, "", FALSE)
    /\ Field(raw, "desc", d.desc, "", FALSE) /\ Field(raw, "ext", d.ext, "", FALSE) /\ Field(raw, "render", d.render, "", FALSE)
    /\ Field(raw, "subidx", d.subidx, "0", TRUE)
    /\ "rotate" \in DOMAIN raw \/ d.rotate = "0"
    /\ IF d.disp = <<>> THEN "disp" \notin DOMAIN raw \/ raw["disp"] = <<>> ELSE "disp" \in DOMAIN raw /\ JsonDisp(raw["disp"], d.disp[1])
    /\ IF d.sub = <<>> THEN "sub" \notin DOMAIN raw \/ raw["sub"] = <<>>
       ELSE "sub" \in DOMAIN raw /\ Len(raw["sub"]) = Len(d.sub) /\ \A k \in 1..Len(d.sub) : JsonSub(raw["sub"][k], d.sub[k])
JsonComp(raw, c) ==
    /\ Field(raw, "id", c.id, "0", FALSE) /\ Field(raw, "x", c.x, "0", FALSE) /\ Field(raw, "y", c.y, "0", FALSE) /\ Field(raw, "txt", c.txt, "", FALSE)
    /\ Field(raw, "type", c.type, "0", FALSE) /\ Field(raw, "UIparent", c.uiparent, "0", FALSE) /\ Field(raw, "UIyang", c.uiyang, "0", FALSE)
    /\ IF c.over = <<>> THEN "typeOverride" \notin DOMAIN raw \/ raw["typeOverride"] = <<>>
       ELSE "typeOverride" \in DOMAIN raw /\ JsonDef(raw["typeOverride"], c.over[1])
JsonTopo(raw, t) ==
    /\ Field(raw, "title", t.title, "", FALSE)
    /\ "HWc" \in DOMAIN raw /\ Len(raw["HWc"]) = Len(t.hwc) /\ \A k \in 1..Len(t.hwc) : JsonComp(raw["HWc"][k], t.hwc[k])
    /\ "typeIndex" \in DOMAIN raw /\ DOMAIN raw["typeIndex"] = TypeIds(t)
    /\ \A k \in 1..Len(t.types) : JsonDef(raw["typeIndex"][t.types[k].id], t.types[k].def)

(* the part of a topology that the older reader of the helpers knows *)
OldDisp(d) == IF d = <<>> THEN [w |-> "0", h |-> "0", subidx |-> "0"] ELSE [w |-> d[1].w, h |-> d[1].h, subidx |-> d[1].subidx]
OldTopo(t) == [hwc |-> MapSeq(LAMBDA c : [id |-> c.id, x |-> c.x, y |-> c.y, txt |-> c.txt, type |-> c.type], t.hwc),
               types |-> MapSeq(LAMBDA e : [id |-> e.id, def |-> [w |-> e.def.w, h |-> e.def.h, out |-> e.def.out, in |-> e.def.in, desc |-> e.def.desc,
                                            subidx |-> e.def.subidx, disp |-> OldDisp(e.def.disp), subs |-> Len(e.def.sub)]], t.types)]

Step(t, s) ==
    CASE s.op = "renumber-seq" -> Renumbered(t, s.topo, TRUE)
      [] s.op = "renumber-rand" -> Renumbered(t, s.topo, FALSE)
      [] s.op = "clean" -> s.topo = Clean(t)
      [] s.op = "lookups" -> s.topo = t
      [] s.op = "roundtrip" -> /\ s.topo = t /\ s.second = t /\ ~s.err
                               /\ \A k \in 1..Len(s.jsons) : s.jsons[k] = s.jsons[1]
                               /\ JsonTopo(s.raw, t) /\ s.old = OldTopo(t)
      [] OTHER -> FALSE
RECURSIVE StepsOK(_, _, _)
StepsOK(t, steps, k) == k > Len(steps) \/ (Step(t, steps[k]) /\ StepsOK(steps[k].topo, steps, k + 1))

(* the summary of renumbering many types: n of them in, all components resolve as before *)
CrowdOK(c) == /\ c.types = c.n /\ c.comps = c.compsAfter /\ c.changed = 0 /\ c.disabled
              /\ c.seq => c.lo = "1" /\ c.hi = NatStr(c.n)
=============================================================================
