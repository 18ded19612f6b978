---------------------------- MODULE PanelScripts ----------------------------
(* The environments of PanelClient as scripts for the driver: what the panel does on each connection, and where the *)
(* user cancels. Written to IOEnv.SCRIPT_FILE; the driver plays each against the real client, and CheckPanel judges *)
(* what was recorded.                                                                                              *)
(*   units  whole frames ("F"), frames that are no message ("J"), empty frames ("0"); lines ("L"), empty lines ("N") *)
(*   end    what happens after them: the panel drops the connection, stalls in a header or a payload, sends a header *)
(*          over the limit; or the user cancels, idle, in a frame or while waiting to reconnect; or nothing          *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
Long == IOEnv.SCRIPT_DEPTH = "long"
BinUnits == IF Long THEN UNION {[1..n -> {"F", "J", "0"}] : n \in 0..2} ELSE {<<>>, <<"F">>, <<"J", "F">>, <<"0", "F">>}
TextUnits == IF Long THEN UNION {[1..n -> {"L", "N"}] : n \in 0..2} ELSE {<<>>, <<"L", "N">>}
BinLost == {"drop", "head-drop", "body-drop", "head-stall", "body-stall", "over"}
TextLost == {"drop", "body-drop"}
BinLast == {"end", "cancel", "head-cancel", "body-cancel", "wait"}
TextLast == {"end", "cancel", "body-cancel", "wait"}
C(a, us, es) == {[ascii |-> a, units |-> u, end |-> e] : u \in us, e \in es}
Lost == C(FALSE, BinUnits, BinLost) \cup C(TRUE, TextUnits, TextLost)
Final == C(FALSE, BinUnits, BinLast) \cup C(TRUE, TextUnits, TextLast)
Middle == C(FALSE, {<<"F">>}, {"drop", "over", "body-stall"}) \cup C(TRUE, {<<"L">>}, {"drop"})
Scripts == {<<a>> : a \in Final} \cup {<<a, b>> : a \in Lost, b \in Final}
           \cup IF Long THEN {<<a, b, c>> : a \in Middle, b \in Middle, c \in Final} ELSE {<<a, b, c>> : a \in Middle, b \in Middle, c \in C(FALSE, {<<"F">>}, {"end", "cancel"})}
VARIABLE done
Init == done = FALSE
Next == ~done /\ JsonSerialize(IOEnv.SCRIPT_FILE, SetToSeq(Scripts)) /\ PrintT(<<"scripts", Cardinality(Scripts)>>) /\ done' = TRUE
=============================================================================
