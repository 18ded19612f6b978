------------------------------ MODULE AsciiIn ------------------------------
(* System -> panel direction: what an ASCII line means to a panel, and what a *)
(* protobuf message means to a panel. Both meanings are sequences of effects  *)
(* [key, val]: key names the panel register that is written (or the signal    *)
(* raised), val the value written. Written from the protocol grammar; knows   *)
(* nothing of the library's converters.                                       *)
EXTENDS RwpText, RwpJson
LOCAL INSTANCE SequencesExt

(* TRUE: profile payloads may have been flattened onto one line on the way, so *)
(* they are compared by their non-whitespace characters; FALSE: up to trimming  *)
CONSTANT Flatten
Payload(s) == IF Flatten THEN NoWS(s) ELSE Chars(Trim(s))

Eff(k, v) == [key |-> k, val |-> v]

(* ------------------------------ packed values ----------------------------- *)
(* mode word: bits 0-3 state, 5 output, 8-11 blink pattern *)
ModeOf(n)  == [state |-> NatStr(Bits(n, 0, 4)), output |-> Bits(n, 5, 1) = 1, blink |-> NatStr(Bits(n, 8, 4))]
(* extended word: bits 0-11 value, 12-15 interpretation *)
ExtOf(n)   == [interp |-> NatStr(Bits(n, 12, 4)), value |-> NatStr(Bits(n, 0, 12))]
Rgb2(c)    == NatStr(c * 85)                       \* 2-bit channel to 8 bits
(* colour: bit 6 set: rrggbb in bits 0-5; else index in bits 0-4; bit 7 is for readability only *)
ColorOf(n) == IF Bits(n, 6, 1) = 1
              THEN << "rgb", Rgb2(Bits(n, 4, 2)), Rgb2(Bits(n, 2, 2)), Rgb2(Bits(n, 0, 2)) >>
              ELSE << "idx", NatStr(Bits(n, 0, 5)) >>
NoColor    == << "idx", "0" >>                     \* the default colour

(* ------------------------------ text tiles ------------------------------ *)
Fld(p, k) == IF k + 1 <= Len(p) THEN p[k + 1] ELSE ""
IntFld(p, k) == CanonInt(Fld(p, k))
TextOf(body) ==
    LET p     == Split(body, "|")
        fmt0  == IntFld(p, 1)
        fmt   == IF Fld(p, 0) = "" /\ fmt0 = "0" THEN "7" ELSE fmt0
        unfm  == fmt \in {"10", "11"}
        icons == Low16(Fld(p, 2))
        faces == Low16(Fld(p, 15))
        sizes == Low16(Fld(p, 16))
        adv   == Low16(Fld(p, 17))
        pm    == IntFld(p, 8)
        st    == IntFld(p, 9)
        color(k) == IF IntFld(p, k) = "0" THEN NoColor ELSE ColorOf(Low16(Fld(p, k)))
    IN [ fmt   |-> fmt,
         value |-> IF fmt = "7" \/ unfm THEN "0" ELSE IntFld(p, 0),
         ufont |-> IF unfm THEN IntFld(p, 0) ELSE "0",
         sicon |-> NatStr(Bits(icons, 0, 2)), micon |-> NatStr(Bits(icons, 3, 3)),
         title |-> Fld(p, 3),
         solid |-> IntFld(p, 4) = "0" /\ Fld(p, 3) # "" /\ ~unfm,
         line1 |-> Fld(p, 5), line2 |-> Fld(p, 6), value2 |-> IntFld(p, 7),
         pair  |-> IF unfm THEN "0"
                   ELSE IF pm = "0" /\ (Fld(p, 6) # "" \/ Fld(p, 7) # "") THEN "1" ELSE pm,
         scale |-> IF st = "0" THEN << "0", "0", "0", "0", "0" >>
                   ELSE << st, IntFld(p, 10), IntFld(p, 11), IntFld(p, 12), IntFld(p, 13) >>,
         face  |-> NatStr(Bits(faces, 0, 3)), tface |-> NatStr(Bits(faces, 3, 3)), fixed |-> Bits(faces, 6, 1) = 1,
         w |-> NatStr(Bits(sizes, 0, 2)), h |-> NatStr(Bits(sizes, 2, 2)),
         tw |-> NatStr(Bits(sizes, 4, 2)), th |-> NatStr(Bits(sizes, 6, 2)),
         pad |-> NatStr(Bits(adv, 0, 2)), spacing |-> NatStr(Bits(adv, 2, 3)),
         inverted |-> IntFld(p, 18) # "0",
         pixel |-> color(19), back |-> color(20) ]

(* ------------------------------ messages ------------------------------ *)
(* A message tree holds populated fields only. src = TRUE: the message is     *)
(* what someone wants shown, so parts without ASCII expression (colour        *)
(* resolution beyond 2 bits, members that are not in use in the selected      *)
(* format) are normalised to what the protocol can carry. src = FALSE: the    *)
(* message was decoded from a line and is taken literally.                    *)
Num(r, name) == F(r, name, "0")
Quant(v)     == NatStr(((SmallNat(v) * 3) \div 255) * 85)
Chan(v, src) == IF src THEN Quant(v) ELSE v
MsgColor(c, src) ==
    IF "ColorRGB" \in DOMAIN c
    THEN << "rgb", Chan(Num(c.ColorRGB, "Red"), src), Chan(Num(c.ColorRGB, "Green"), src), Chan(Num(c.ColorRGB, "Blue"), src) >>
    ELSE IF "ColorIndex" \in DOMAIN c THEN << "idx", Num(c.ColorIndex, "Index") >>
    ELSE NoColor
Empty == [x \in {} |-> 0]

MsgText(t, src) ==
    LET fmt  == Num(t, "Formatting")
        unfm == fmt \in {"10", "11"}
        ts   == F(t, "TextStyling", Empty)
        tf   == F(ts, "TextFont", Empty)
        hf   == F(ts, "TitleFont", Empty)
        sc   == F(t, "Scale", Empty)
        l2   == F(t, "Textline2", "")
        pm   == Num(t, "PairMode")
    IN [ fmt   |-> fmt,
         value |-> IF fmt = "7" \/ unfm THEN "0" ELSE Num(t, "IntegerValue"),
         ufont |-> IF unfm THEN Num(ts, "UnformattedFontSize") ELSE "0",
         sicon |-> Num(t, "StateIcon"), micon |-> Num(t, "ModifierIcon"),
         title |-> F(t, "Title", ""),
         solid |-> IF src /\ (unfm \/ F(t, "Title", "") = "") THEN FALSE ELSE F(t, "SolidHeaderBar", FALSE),
         line1 |-> F(t, "Textline1", ""), line2 |-> l2, value2 |-> Num(t, "IntegerValue2"),
         pair  |-> IF ~src THEN pm
                   ELSE IF unfm THEN "0"
                   ELSE IF pm = "0" /\ (l2 # "" \/ Num(t, "IntegerValue2") # "0") THEN "1" ELSE pm,
         scale |-> IF Num(sc, "ScaleType") = "0" THEN << "0", "0", "0", "0", "0" >>
                   ELSE << Num(sc, "ScaleType"), Num(sc, "RangeLow"), Num(sc, "RangeHigh"), Num(sc, "LimitLow"), Num(sc, "LimitHigh") >>,
         face |-> Num(tf, "FontFace"), tface |-> Num(hf, "FontFace"), fixed |-> F(ts, "FixedWidth", FALSE),
         w |-> Num(tf, "TextWidth"), h |-> Num(tf, "TextHeight"),
         tw |-> Num(hf, "TextWidth"), th |-> Num(hf, "TextHeight"),
         pad |-> Num(ts, "TitleBarPadding"), spacing |-> Num(ts, "ExtraCharacterSpacing"),
         inverted |-> F(t, "Inverted", FALSE),
         pixel |-> MsgColor(F(t, "PixelColor", Empty), src),
         back  |-> MsgColor(F(t, "BackgroundColor", Empty), src) ]

GfxVal(type, w, h, xy, x, y, data) ==
    [ type |-> type, w |-> w, h |-> h, xy |-> xy,
      x |-> IF xy THEN x ELSE "0", y |-> IF xy THEN y ELSE "0", data |-> data ]
MsgGfx(g) == GfxVal(Num(g, "ImageType"), Num(g, "W"), Num(g, "H"), F(g, "XYoffset", FALSE),
                    Num(g, "X"), Num(g, "Y"), F(g, "ImageData", <<>>))

NetFields == {"dhcp", "address", "netmask", "gateway", "first_dns", "second_dns", "no_default_route"}
NetOf(r) == [k \in NetFields |-> F(r, k, IF k \in {"dhcp", "no_default_route"} THEN FALSE ELSE "")]

RegNames == << "Mem", "Flag", "Shift", "State" >>
RegEff(kind, id, value) ==
    IF kind = "Flag" THEN Eff("reg/Flag/" \o CanonInt(id), IF CanonInt(value) = "0" THEN "0" ELSE "1")
                     ELSE Eff("reg/" \o kind \o "/" \o id, CanonInt(value))
MsgReg(r) == RegEff(RegNames[SmallNat(Num(r, "Reg")) + 1], F(r, "Id", ""), Num(r, "Value"))

BoolCmds == << "ActivatePanel", "SendPanelInfo", "ReportHWCavailability", "SendPanelTopology", "SendBurninProfile",
               "SendCalibrationProfile", "SendNetworkConfig", "SendRegisters", "GetConnections", "GetRunTimeStats",
               "ClearAll", "ClearLEDs", "ClearDisplays", "GetSleepTimeout", "WakeUp", "Reboot" >>
(* commands carrying one number: <<message field, member, line keyword>> *)
NumCmds == << << "SetSleepTimeout", "Value", "SleepTimer" >>, << "SetSleepMode", "Mode", "SleepMode" >>,
              << "SetSleepScreenSaver", "Type", "SleepScreenSaver" >>, << "SetDimmedGain", "Value", "DimmedGain" >>,
              << "SetHeartBeatTimer", "Value", "HeartBeatTimer" >>, << "PublishSystemStat", "PeriodSec", "PublishSystemStat" >>,
              << "LoadCPU", "Level", "LoadCPU" >> >>
(* commands carrying one switch *)
SwCmds == << << "SetWebserverEnabled", "Enabled", "Webserver" >>, << "JSONconfig", "Outbound", "JSONonOutbound" >> >>
CmdFields == {BoolCmds[k] : k \in 1..Len(BoolCmds)} \cup {NumCmds[k][1] : k \in 1..Len(NumCmds)}
             \cup {SwCmds[k][1] : k \in 1..Len(SwCmds)}
             \cup {"PanelBrightness", "SetCalibrationProfile", "SetNetworkConfig", "SimulateEnvironmentalHealth"}

MsgCmd(c) ==
    LET one(name) == IF F(c, name, FALSE) THEN << Eff("cmd/" \o name, "1") >> ELSE <<>>
        num(d) == IF d[1] \in DOMAIN c THEN << Eff("cmd/" \o d[1], Num(c[d[1]], d[2])) >> ELSE <<>>
        sw(d)  == IF d[1] \in DOMAIN c THEN << Eff("cmd/" \o d[1], IF F(c[d[1]], d[2], FALSE) THEN "1" ELSE "0") >> ELSE <<>>
    IN FlatMap(one, BoolCmds) \o FlatMap(num, NumCmds) \o FlatMap(sw, SwCmds)
       \o (IF "PanelBrightness" \in DOMAIN c
           THEN << Eff("cmd/PanelBrightness", << Num(c.PanelBrightness, "LEDs"), Num(c.PanelBrightness, "OLEDs") >>) >> ELSE <<>>)
       \o (IF "SetCalibrationProfile" \in DOMAIN c
           THEN << Eff("cmd/SetCalibrationProfile", Payload(F(c.SetCalibrationProfile, "Json", ""))) >> ELSE <<>>)
       \o (IF "SetNetworkConfig" \in DOMAIN c THEN << Eff("cmd/SetNetworkConfig", NetOf(c.SetNetworkConfig)) >> ELSE <<>>)
       \o (IF "SimulateEnvironmentalHealth" \in DOMAIN c
           THEN << Eff("cmd/SimulateEnvironmentalHealth", Num(c.SimulateEnvironmentalHealth, "RunMode")) >> ELSE <<>>)
       \o (IF DOMAIN c \subseteq CmdFields THEN <<>> ELSE << Eff("unknown/Command", "") >>)

StateFields == {"HWCIDs", "HWCMode", "HWCColor", "HWCExtended", "HWCText", "HWCGfx", "PublishRawADCValues", "Processors"}
MsgState(s, src) ==
    LET per(id) ==
          (IF "HWCMode" \in DOMAIN s
           THEN << Eff("mode/" \o id, [state |-> Num(s.HWCMode, "State"), output |-> F(s.HWCMode, "Output", FALSE),
                                       blink |-> Num(s.HWCMode, "BlinkPattern")]) >> ELSE <<>>)
       \o (IF "HWCColor" \in DOMAIN s /\ DOMAIN s.HWCColor # {}
           THEN << Eff("color/" \o id, MsgColor(s.HWCColor, src)) >> ELSE <<>>)
       \o (IF "HWCExtended" \in DOMAIN s
           THEN << Eff("ext/" \o id, [interp |-> Num(s.HWCExtended, "Interpretation"), value |-> Num(s.HWCExtended, "Value")]) >> ELSE <<>>)
       \o (IF "HWCText" \in DOMAIN s /\ DOMAIN s.HWCText # {}
           THEN << Eff("text/" \o id, MsgText(s.HWCText, src)) >> ELSE <<>>)
       \o (IF "HWCGfx" \in DOMAIN s /\ DOMAIN s.HWCGfx # {} THEN << Eff("gfx/" \o id, MsgGfx(s.HWCGfx)) >> ELSE <<>>)
       \o (IF "PublishRawADCValues" \in DOMAIN s
           THEN << Eff("adc/" \o id, F(s.PublishRawADCValues, "Enabled", FALSE)) >> ELSE <<>>)
       \o (IF "Processors" \in DOMAIN s THEN << Eff("proc/" \o id, s.Processors) >> ELSE <<>>)
       \o (IF DOMAIN s \subseteq StateFields THEN <<>> ELSE << Eff("unknown/HWCState", "") >>)
    IN FlatMap(per, F(s, "HWCIDs", <<>>))

FlowNames == << "ping", "ack", "nack" >>
MsgFields == {"FlowMessage", "Command", "States", "Registers"}
MsgIn(m, src) ==
    LET st(s) == MsgState(s, src) IN
       (IF "FlowMessage" \in DOMAIN m
        THEN << Eff("flow", IF m.FlowMessage \in {"1", "2", "3"} THEN FlowNames[SmallNat(m.FlowMessage)] ELSE "?") >> ELSE <<>>)
    \o (IF "Command" \in DOMAIN m THEN MsgCmd(m.Command) ELSE <<>>)
    \o FlatMap(st, F(m, "States", <<>>))
    \o MapSeq(MsgReg, F(m, "Registers", <<>>))
    \o (IF DOMAIN m \subseteq MsgFields THEN <<>> ELSE << Eff("unknown/InboundMessage", "") >>)

(* ------------------------------ JSON lines ------------------------------ *)
JsonKnown == StateFields \cup MsgFields \cup CmdFields \cup {"Reg", "Id", "Value"}   \* other members mean nothing
RECURSIVE JsonTree(_, _)
(* JSON value of member `name` in the message-tree representation: byte       *)
(* fields are base64 in JSON and byte sequences in trees                      *)
JsonTree(name, v) ==
    IF name = "ImageData" THEN B64Decode(v)
    ELSE IF name \in {"States", "Registers"} THEN [k \in 1..Len(v) |-> JsonTree("item", v[k])]
    ELSE IF name \in {"Command", "item", "HWCMode", "HWCColor", "HWCExtended", "HWCText", "HWCGfx", "PublishRawADCValues",
                      "Processors", "GfxConv", "AudioMeter", "TextToGraphics", "StrengthMeter", "Test", "UniText"}
         THEN [k \in (IF name \in {"Command", "item"} THEN DOMAIN v \cap JsonKnown ELSE DOMAIN v) |-> JsonTree(k, v[k])]
    ELSE v

(* ------------------------------ lines ------------------------------ *)
WordEff(w) ==
    CASE w = "ping" -> << Eff("flow", "ping") >> [] w = "ack" -> << Eff("flow", "ack") >> [] w = "nack" -> << Eff("flow", "nack") >>
      [] w = "ActivePanel=1" -> << Eff("cmd/ActivatePanel", "1") >>
      [] w = "list" -> << Eff("cmd/SendPanelInfo", "1") >>
      [] w = "map" -> << Eff("cmd/ReportHWCavailability", "1") >>
      [] w = "PanelTopology?" -> << Eff("cmd/SendPanelTopology", "1") >>
      [] w = "BurninProfile?" -> << Eff("cmd/SendBurninProfile", "1") >>
      [] w = "CalibrationProfile?" -> << Eff("cmd/SendCalibrationProfile", "1") >>
      [] w = "NetworkConfig?" -> << Eff("cmd/SendNetworkConfig", "1") >>
      [] w = "Registers?" -> << Eff("cmd/SendRegisters", "1") >>
      [] w = "Connections?" -> << Eff("cmd/GetConnections", "1") >>
      [] w = "RunTimeStats?" -> << Eff("cmd/GetRunTimeStats", "1") >>
      [] w = "Clear" -> << Eff("cmd/ClearAll", "1") >>
      [] w = "ClearLEDs" -> << Eff("cmd/ClearLEDs", "1") >>
      [] w = "ClearDisplays" -> << Eff("cmd/ClearDisplays", "1") >>
      [] w = "SleepTimer?" -> << Eff("cmd/GetSleepTimeout", "1") >>
      [] w = "WakeUp!" -> << Eff("cmd/WakeUp", "1") >>
      [] w = "Reboot" -> << Eff("cmd/Reboot", "1") >>
      [] OTHER -> <<>>
Words == {"ping", "ack", "nack", "ActivePanel=1", "list", "map", "PanelTopology?", "BurninProfile?", "CalibrationProfile?",
          "NetworkConfig?", "Registers?", "Connections?", "RunTimeStats?", "Clear", "ClearLEDs", "ClearDisplays",
          "SleepTimer?", "WakeUp!", "Reboot"}

Ids(s) == MapSeq(CanonInt, Split(s, ","))
IdsOK(s) == s # "" /\ AllIn(s, DigitSet \cup {","})
OnAll(prefix, ids, v) == [k \in 1..Len(ids) |-> Eff(prefix \o ids[k], v)]

GfxKinds == {"HWCg", "HWCgRGB", "HWCgGray"}
GfxType(kind) == CASE kind = "HWCgRGB" -> "1" [] kind = "HWCgGray" -> "2" [] OTHER -> "0"
Idle == [on |-> FALSE]

(* result of reading one line: the effects and the image transfer in progress *)
R(effs, g) == [effs |-> effs, gfx |-> g]

(* chunk line  <kind>#<ids>=<n>[/<max>,<w>x<h>[,<x>,<y>]]:<base64> *)
GfxLine(kind, ids, body, g) ==
    LET colon == Find(body, ":")
        head  == SubSeq(body, 1, colon - 1)
        data  == B64Decode(Rest(body, colon))
        slash == Find(head, "/")
        idx   == SmallNat(IF slash = 0 THEN head ELSE SubSeq(head, 1, slash - 1))
        geo   == Split(Rest(head, slash), ",")
        size  == Split(geo[2], "x")
        start == IF slash = 0
                 THEN [on |-> TRUE, kind |-> kind, ids |-> ids, next |-> 0, max |-> 2, w |-> "64", h |-> "32",
                       xy |-> FALSE, x |-> "0", y |-> "0", data |-> <<>>]
                 ELSE [on |-> TRUE, kind |-> kind, ids |-> ids, next |-> 0, max |-> SmallNat(geo[1]),
                       w |-> CanonInt(size[1]), h |-> CanonInt(size[2]), xy |-> Len(geo) = 4,
                       x |-> IF Len(geo) = 4 THEN CanonInt(geo[3]) ELSE "0",
                       y |-> IF Len(geo) = 4 THEN CanonInt(geo[4]) ELSE "0", data |-> <<>>]
        cur   == IF idx = 0 THEN start ELSE g
    IN IF ~cur.on \/ cur.kind # kind \/ cur.ids # ids \/ cur.next # idx THEN R(<<>>, Idle)
       ELSE LET all == cur.data \o data IN
            IF idx = cur.max
            THEN R(OnAll("gfx/", Ids(ids), GfxVal(GfxType(kind), cur.w, cur.h, cur.xy, cur.x, cur.y, all)), Idle)
            ELSE R(<<>>, [cur EXCEPT !.next = idx + 1, !.data = all])

RECURSIVE LookupIn(_, _, _)
LookupIn(tab, word, k) == IF k > Len(tab) THEN 0 ELSE IF tab[k][3] = word THEN k ELSE LookupIn(tab, word, k + 1)

RegKinds == << "Mem", "Shift", "State" >>
LineIn(line, g) ==
    IF line = "" THEN R(<<>>, g)
    ELSE IF line \in Words THEN R(WordEff(line), g)
    ELSE IF Ch(line, 1) = "{" THEN R(MsgState(JsonTree("item", JsonParse(line)), FALSE), g)
    ELSE IF Ch(line, 1) = "["
         THEN LET ms == JsonParse(line)
                  one(m) == MsgIn(JsonTree("item", m), FALSE)
              IN R(FlatMap(one, ms), g)
    ELSE LET eq   == Find(line, "=")
             key  == SubSeq(line, 1, eq - 1)
             body == Rest(line, eq)
             hash == Find(key, "#")
             kind == SubSeq(key, 1, hash - 1)
             ids  == Rest(key, hash)
             nc   == LookupIn(NumCmds, key, 1)
             sc   == LookupIn(SwCmds, key, 1)
         IN CASE eq = 0 -> R(<<>>, g)
              [] hash > 0 /\ kind \in {"HWC", "HWCx", "HWCc", "HWCt", "HWCrawADCValues"} /\ IdsOK(ids) ->
                   R(CASE kind = "HWC"  -> OnAll("mode/", Ids(ids), ModeOf(Low16(body)))
                       [] kind = "HWCx" -> OnAll("ext/", Ids(ids), ExtOf(Low16(body)))
                       [] kind = "HWCc" -> OnAll("color/", Ids(ids), ColorOf(Low16(body)))
                       [] kind = "HWCt" -> OnAll("text/", Ids(ids), TextOf(body))
                       [] OTHER         -> OnAll("adc/", Ids(ids), CanonInt(body) = "1"), g)
              [] hash > 0 /\ kind \in GfxKinds /\ IdsOK(ids) -> GfxLine(kind, ids, body, g)
              [] hash > 0 /\ kind = "Flag" -> R(IF AllIn(ids, DigitSet) /\ IsNat(body) THEN << RegEff("Flag", ids, body) >> ELSE <<>>, g)
              [] nc > 0 -> R(IF IsNat(body) THEN << Eff("cmd/" \o NumCmds[nc][1], CanonInt(body)) >> ELSE <<>>, g)
              [] sc > 0 -> R(IF IsNat(body) THEN << Eff("cmd/" \o SwCmds[sc][1], IF CanonInt(body) = "0" THEN "0" ELSE "1") >> ELSE <<>>, g)
              [] key = "PanelBrightness" ->
                   LET a == Split(body, ",") IN
                   R(<< Eff("cmd/PanelBrightness", << CanonInt(a[1]), CanonInt(a[Len(a)]) >>) >>, g)
              [] key = "SetCalibrationProfile" -> R(<< Eff("cmd/SetCalibrationProfile", Payload(body)) >>, g)
              [] key = "SetNetworkConfig" -> R(<< Eff("cmd/SetNetworkConfig", NetOf(JsonParse(body))) >>, g)
              [] key = "SimulateEnvironmentalHealth" ->
                   R(CASE body = "Normal" -> << Eff("cmd/SimulateEnvironmentalHealth", "0") >>
                       [] body = "Safemode" -> << Eff("cmd/SimulateEnvironmentalHealth", "1") >>
                       [] body = "Blocked" -> << Eff("cmd/SimulateEnvironmentalHealth", "2") >>
                       [] OTHER -> <<>>, g)
              [] \E k \in 1..3 : StartsWith(key, RegKinds[k]) /\ AllIn(Rest(key, Len(RegKinds[k])), DigitSet \cup UpperSet) ->
                   LET k == CHOOSE k \in 1..3 : StartsWith(key, RegKinds[k]) IN
                   R(IF IsNat(body) THEN << RegEff(RegKinds[k], Rest(key, Len(RegKinds[k])), body) >> ELSE <<>>, g)
              [] OTHER -> R(<<>>, g)

(* effects of every line of a stream, line by line *)
ReadLines(lines) == FoldLeft(LAMBDA acc, line : LET r == LineIn(line, acc.gfx) IN [out |-> Append(acc.out, r.effs), gfx |-> r.gfx],
                             [out |-> <<>>, gfx |-> Idle], lines).out

(* ------------------------------ comparing effects ------------------------------ *)
Keys(es) == {es[k].key : k \in 1..Len(es)}
ValsOf(es, key) == LET sel == SelectSeq(es, LAMBDA e : e.key = key) IN [k \in 1..Len(sel) |-> sel[k].val]
(* same writes to every register in the same order; order across registers is free *)
SameEffects(a, b) == /\ Len(a) = Len(b)
                     /\ Keys(a) = Keys(b)
                     /\ \A key \in Keys(a) : ValsOf(a, key) = ValsOf(b, key)
IsStateKey(key) == \E p \in {"mode/", "color/", "ext/", "text/", "gfx/", "adc/", "proc/"} : StartsWith(key, p)
(* same panel: a state written twice in a row with one value is one state *)
SamePanel(a, b) == /\ Keys(a) = Keys(b)
                   /\ \A key \in Keys(a) : IF IsStateKey(key) THEN Dedup(ValsOf(a, key)) = Dedup(ValsOf(b, key))
                                           ELSE ValsOf(a, key) = ValsOf(b, key)
IsClear(e) == e.key \in {"cmd/ClearAll", "cmd/ClearLEDs", "cmd/ClearDisplays"}
(* a message clears first and shows then *)
ClearsFirst(es) == \A i, j \in 1..Len(es) : i < j /\ IsClear(es[j]) => ~IsStateKey(es[i].key)

(* flat splits into consecutive segments with the effects of exp[1], exp[2], ... *)
Segmented(exp, flat) == SegmentedBy(SameEffects, exp, flat)
=============================================================================
