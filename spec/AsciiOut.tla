------------------------------ MODULE AsciiOut ------------------------------
(* Panel -> system direction: what a panel's ASCII line reports and what a    *)
(* protobuf message reports, as sequences of reports [key, val].              *)
EXTENDS RwpText, RwpJson

CONSTANT Flatten        \* see AsciiIn
Payload(s) == IF Flatten THEN NoWS(s) ELSE Chars(Trim(s))

Rep(k, v) == [key |-> k, val |-> v]
Num(r, name) == F(r, name, "0")
Empty == [x \in {} |-> 0]

StrInfo == << << "Model", "_model" >>, << "Serial", "_serial" >>, << "SoftwareVersion", "_version" >>,
              << "Name", "_name" >>, << "Platform", "_platform" >> >>
PanelTypes == << "BPI", "Physical", "Emulation", "Touch", "Composite" >>
Support == << << "ASCII", "ASCII" >>, << "Binary", "Binary" >>, << "ASCII_JSONfeedback", "JSONFeedback" >>,
              << "ASCII_Inbound", "JSONonInbound" >>, << "ASCII_Outbound", "JSONonOutbound" >>, << "System", "System" >>,
              << "RawADCValues", "RawADCValues" >>, << "BurninProfile", "BurninProfile" >>, << "EnvHealth", "EnvHealth" >>,
              << "Registers", "Registers" >>, << "Calibration", "Calibration" >>, << "Processors", "Processors" >>,
              << "NetworkSettings", "NetworkSettings" >> >>
SupportWords == {Support[k][2] : k \in 1..Len(Support)}
SysInts == << "CPUUsage", "CPUFreqCurrent", "CPUFreqMin", "CPUFreqMax", "MemTotal", "MemFree", "MemAvailable", "MemBuffers", "MemCached" >>
SysDecs == << "CPUTemp", "ExtTemp", "CPUVoltage" >>
SysBools == << "UnderVoltageNow", "UnderVoltage", "FreqCapNow", "FreqCap", "ThrottledNow", "Throttled", "SoftTempLimitNow", "SoftTempLimit" >>
Ran(s) == {s[k] : k \in 1..Len(s)}
SysKeys == Ran(SysInts) \cup Ran(SysDecs) \cup Ran(SysBools)
NetFields == {"dhcp", "address", "netmask", "gateway", "first_dns", "second_dns", "no_default_route"}
NetOf(r) == [k \in NetFields |-> F(r, k, IF k \in {"dhcp", "no_default_route"} THEN FALSE ELSE "")]
RunStats == << << "BootsCount", "_bootsCount" >>, << "TotalUptime", "_totalUptimeMin" >>,
               << "SessionUptime", "_sessionUptimeMin" >>, << "ScreenSaveOnTime", "_screenSaverOnMin" >> >>
Payloads == << << "BurninProfile", "Json", "_burninProfile" >>, << "CalibrationProfile", "Json", "_calibrationProfile" >>,
               << "DefaultCalibrationProfile", "Json", "_defaultCalibrationProfile" >>,
               << "ErrorMessage", "Message", "ErrorMsg" >>, << "Message", "Message", "Msg" >> >>
NumReps == << << "SleepTimeout", "Value", "_sleepTimer" >>, << "HeartBeatTimer", "Value", "_heartBeatTimer" >>,
              << "DimmedGain", "Value", "DimmedGain" >> >>
RegNames == << "Mem", "Flag", "Shift", "State" >>
RegRep(kind, id, value) ==
    IF kind = "Flag" THEN Rep("reg/Flag/" \o CanonInt(id), IF CanonInt(value) = "0" THEN "0" ELSE "1")
                     ELSE Rep("reg/" \o kind \o "/" \o id, CanonInt(value))
FlowCode == [c \in {"1", "2", "3", "4", "5", "100"} |->
               CASE c = "1" -> "ping" [] c = "2" -> "ack" [] c = "3" -> "nack" [] c = "4" -> "BSY" [] c = "5" -> "RDY" [] OTHER -> "list"]

(* ------------------------------ messages ------------------------------ *)
InfoFields == {"Model", "Serial", "Name", "SoftwareVersion", "Platform", "BluePillReady", "MaxClients", "LockedToIPs", "PanelType", "RawPanelSupport"}
MsgInfo(p) ==
    LET str(d) == IF d[1] \in DOMAIN p THEN << Rep(d[2], p[d[1]]) >> ELSE <<>> IN
       FlatMap(str, StrInfo)
    \o (IF F(p, "BluePillReady", FALSE) THEN << Rep("_bluePillReady", TRUE) >> ELSE <<>>)
    \o (IF "MaxClients" \in DOMAIN p THEN << Rep("_serverModeMaxClients", p.MaxClients) >> ELSE <<>>)
    \o (IF "LockedToIPs" \in DOMAIN p THEN << Rep("_serverModeLockToIP", p.LockedToIPs) >> ELSE <<>>)
    \o (IF "PanelType" \in DOMAIN p THEN << Rep("_panelType", IF SmallNat(p.PanelType) \in 1..5 THEN PanelTypes[SmallNat(p.PanelType)] ELSE "?") >> ELSE <<>>)
    \o (IF "RawPanelSupport" \in DOMAIN p
        THEN << Rep("_support", {Support[k][2] : k \in {j \in 1..Len(Support) : F(p.RawPanelSupport, Support[j][1], FALSE)}}) >> ELSE <<>>)
    \o (IF DOMAIN p \subseteq InfoFields THEN <<>> ELSE << Rep("unknown/PanelInfo", "") >>)

SysOf(r) == [k \in SysKeys |-> IF k \in Ran(SysBools) THEN F(r, k, FALSE) ELSE CanonDec(Num(r, k))]

EventFields == {"HWCID", "Binary", "Pulsed", "Absolute", "Speed", "RawAnalog", "Timestamp"}
MsgEvent(e) ==
    LET id == Num(e, "HWCID") IN
       (IF "Binary" \in DOMAIN e
        THEN << Rep("event", << "binary", id, IF F(e.Binary, "Pressed", FALSE) THEN "down" ELSE "up", Num(e.Binary, "Edge") >>) >> ELSE <<>>)
    \o (IF "Pulsed" \in DOMAIN e THEN << Rep("event", << "pulsed", id, Num(e.Pulsed, "Value"), "" >>) >> ELSE <<>>)
    \o (IF "Absolute" \in DOMAIN e THEN << Rep("event", << "absolute", id, Num(e.Absolute, "Value"), "" >>) >> ELSE <<>>)
    \o (IF "Speed" \in DOMAIN e THEN << Rep("event", << "speed", id, Num(e.Speed, "Value"), "" >>) >> ELSE <<>>)
    \o (IF "RawAnalog" \in DOMAIN e THEN << Rep("event", << "raw", id, Num(e.RawAnalog, "Value"), "" >>) >> ELSE <<>>)
    \o (IF DOMAIN e \subseteq EventFields THEN <<>> ELSE << Rep("unknown/HWCEvent", "") >>)

MsgFields == {"FlowMessage", "HWCavailability", "PanelInfo", "PanelTopology", "BurninProfile", "SleepTimeout", "SleepState", "BusStatus",
              "Events", "Connections", "HeartBeatTimer", "DimmedGain", "RunTimeStats", "SysStat", "Message", "ErrorMessage",
              "EnvironmentalHealth", "Registers", "CalibrationProfile", "DefaultCalibrationProfile", "NetworkConfig"}
MsgOut(m) ==
    LET pay(d) == IF d[1] \in DOMAIN m THEN << Rep(d[3], Payload(F(m[d[1]], d[2], ""))) >> ELSE <<>>
        num(d) == IF d[1] \in DOMAIN m THEN << Rep(d[3], Num(m[d[1]], d[2])) >> ELSE <<>>
        rt(d)  == IF d[1] \in DOMAIN m.RunTimeStats THEN << Rep(d[2], m.RunTimeStats[d[1]]) >> ELSE <<>>
        mp(e)  == << Rep("map/" \o e[1], e[2]) >>
        topo(name, key) == IF Trim(F(m.PanelTopology, name, "")) = "" THEN <<>> ELSE << Rep(key, Payload(m.PanelTopology[name])) >>
        reg(r) == << RegRep(RegNames[SmallNat(Num(r, "Reg")) + 1], F(r, "Id", ""), Num(r, "Value")) >>
    IN (IF "FlowMessage" \in DOMAIN m THEN << Rep("flow", IF m.FlowMessage \in DOMAIN FlowCode THEN FlowCode[m.FlowMessage] ELSE "?") >> ELSE <<>>)
    \o (IF "PanelInfo" \in DOMAIN m THEN MsgInfo(m.PanelInfo) ELSE <<>>)
    \o (IF "PanelTopology" \in DOMAIN m
        THEN topo("Svgbase", "_panelTopology_svgbase") \o topo("Json", "_panelTopology_HWC") ELSE <<>>)
    \o FlatMap(pay, Payloads) \o FlatMap(num, NumReps)
    \o (IF "NetworkConfig" \in DOMAIN m THEN << Rep("_networkConfig", NetOf(m.NetworkConfig)) >> ELSE <<>>)
    \o (IF "SleepState" \in DOMAIN m THEN << Rep("_isSleeping", F(m.SleepState, "IsSleeping", FALSE)) >> ELSE <<>>)
    \o (IF "Connections" \in DOMAIN m THEN << Rep("_connections", F(m.Connections, "Connection", <<>>)) >> ELSE <<>>)
    \o (IF "RunTimeStats" \in DOMAIN m THEN FlatMap(rt, RunStats) ELSE <<>>)
    \o FlatMap(mp, F(m, "HWCavailability", <<>>))
    \o (IF "EnvironmentalHealth" \in DOMAIN m THEN << Rep("EnvironmentalHealth", Num(m.EnvironmentalHealth, "RunMode")) >> ELSE <<>>)
    \o (IF "SysStat" \in DOMAIN m THEN << Rep("SysStat", SysOf(m.SysStat)) >> ELSE <<>>)
    \o FlatMap(MsgEvent, F(m, "Events", <<>>))
    \o FlatMap(reg, F(m, "Registers", <<>>))
    \o (IF DOMAIN m \subseteq MsgFields /\ "BusStatus" \notin DOMAIN m THEN <<>> ELSE << Rep("unknown/OutboundMessage", "") >>)

(* ------------------------------ lines ------------------------------ *)
ListOf(body) == SelectSeq(MapSeq(Trim, Split(body, ";")), LAMBDA x : x # "")
RECURSIVE SysFrom(_, _, _)
SysFrom(p, k, r) ==
    IF k + 1 > Len(p) THEN r
    ELSE SysFrom(p, k + 2, IF p[k] \notin SysKeys THEN r
                           ELSE [r EXCEPT ![p[k]] = IF p[k] \in Ran(SysBools) THEN p[k + 1] = "1" ELSE CanonDec(p[k + 1])])
SysLine(body) == SysFrom(Split(body, ":"), 1, SysOf(Empty))

(* HWC#<id>[.<edge>]=<kind>[:<value>] *)
EventLine(key, body) ==
    LET addr  == Split(Rest(key, 4), ".")
        id    == CanonInt(addr[1])
        edge  == IF Len(addr) > 1 THEN CanonInt(addr[2]) ELSE "0"
        colon == Find(body, ":")
        kind  == IF colon = 0 THEN body ELSE SubSeq(body, 1, colon - 1)
        val   == IF colon = 0 THEN "0" ELSE CanonInt(Rest(body, colon))
        ev(k, v, e) == Rep("event", << k, id, v, e >>)
    IN IF ~IsNat(addr[1]) THEN <<>>
       ELSE CASE kind = "Down" -> << ev("binary", "down", edge) >>
              [] kind = "Up" -> << ev("binary", "up", edge) >>
              [] kind = "Press" -> << ev("binary", "down", edge), ev("binary", "up", edge) >>
              [] kind = "Enc" -> << ev("pulsed", val, "") >>
              [] kind = "Abs" -> << ev("absolute", val, "") >>
              [] kind = "Speed" -> << ev("speed", val, "") >>
              [] kind = "Raw" -> << ev("raw", val, "") >>
              [] OTHER -> <<>>

(* zero counters and FALSE flags cannot be told from "not reported" in a message *)
NZ(key, v) == IF v = "0" THEN <<>> ELSE << Rep(key, v) >>
Envs == << "Normal", "Safemode", "Blocked" >>
IdxIn(s, x) == IF x \in Ran(s) THEN CHOOSE k \in 1..Len(s) : s[k] = x ELSE 0
RegKinds == << "Mem", "Shift", "State" >>
LineOut(line) ==
    IF line \in {"ping", "ack", "nack", "BSY", "RDY", "list"} THEN << Rep("flow", line) >>
    ELSE LET eq   == Find(line, "=")
             key  == SubSeq(line, 1, eq - 1)
             body == Rest(line, eq)
         IN CASE eq = 0 -> <<>>
              [] StartsWith(key, "HWC#") -> EventLine(key, body)
              [] key = "map" -> LET p == Split(body, ":") IN
                                IF Len(p) = 2 /\ IsNat(p[1]) /\ IsNat(p[2]) THEN << Rep("map/" \o CanonInt(p[1]), CanonInt(p[2])) >> ELSE <<>>
              [] key \in {StrInfo[k][2] : k \in 1..Len(StrInfo)} -> IF body = "" THEN <<>> ELSE << Rep(key, body) >>
              [] key = "_bluePillReady" -> IF CanonInt(body) = "0" THEN <<>> ELSE << Rep(key, TRUE) >>
              [] key = "_panelType" -> IF body \in Ran(PanelTypes) THEN << Rep(key, body) >> ELSE <<>>
              [] key = "_support" -> << Rep(key, Ran(Split(body, ",")) \cap SupportWords) >>
              [] key = "_isSleeping" -> << Rep(key, CanonInt(body) # "0") >>
              [] key \in {NumReps[k][3] : k \in 1..Len(NumReps)} -> << Rep(key, CanonInt(body)) >>
              [] key = "_serverModeMaxClients" \/ key \in {RunStats[k][2] : k \in 1..Len(RunStats)} -> NZ(key, CanonInt(body))
              [] key \in {"_panelTopology_svgbase", "_panelTopology_HWC"} -> IF Trim(body) = "" THEN <<>> ELSE << Rep(key, Payload(body)) >>
              [] key \in {Payloads[k][3] : k \in 1..Len(Payloads)} -> << Rep(key, Payload(body)) >>
              [] key = "_networkConfig" -> << Rep(key, NetOf(JsonParse(body))) >>
              [] key = "_serverModeLockToIP" -> IF ListOf(body) = <<>> THEN <<>> ELSE << Rep(key, ListOf(body)) >>
              [] key = "_connections" -> << Rep(key, ListOf(body)) >>
              [] key = "EnvironmentalHealth" -> LET k == IdxIn(Envs, body) IN IF k = 0 THEN <<>> ELSE << Rep(key, NatStr(k - 1)) >>
              [] key = "SysStat" -> << Rep(key, SysLine(body)) >>
              [] StartsWith(key, "Flag#") -> IF AllIn(Rest(key, 5), DigitSet) /\ IsNat(body) THEN << RegRep("Flag", Rest(key, 5), body) >> ELSE <<>>
              [] \E k \in 1..3 : StartsWith(key, RegKinds[k]) /\ AllIn(Rest(key, Len(RegKinds[k])), DigitSet \cup UpperSet) ->
                   LET k == CHOOSE k \in 1..3 : StartsWith(key, RegKinds[k]) IN
                   IF IsNat(body) THEN << RegRep(RegKinds[k], Rest(key, Len(RegKinds[k])), body) >> ELSE <<>>
              [] OTHER -> <<>>

(* ------------------------------ comparing reports ------------------------------ *)
Keys(es) == {es[k].key : k \in 1..Len(es)}
ValsOf(es, key) == LET sel == SelectSeq(es, LAMBDA e : e.key = key) IN [k \in 1..Len(sel) |-> sel[k].val]
SameReports(a, b) == /\ Len(a) = Len(b)
                     /\ Keys(a) = Keys(b)
                     /\ \A key \in Keys(a) : ValsOf(a, key) = ValsOf(b, key)
Segmented(exp, flat) == SegmentedBy(SameReports, exp, flat)
=============================================================================
