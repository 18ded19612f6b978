-------------------------- MODULE HighLevelScripts --------------------------
(* The environments of HighLevelClient as scripts for the driver. Written to IOEnv.SCRIPT_FILE; the driver plays     *)
(* each against the real client, and CheckHighLevel judges what was recorded.                                       *)
(*   b u  an event of a component with handlers that send feedback, without handlers                                *)
(*   r d  an event whose handler registers others; an event for one of these                                        *)
(*   p i t a  a ping, an update of the identity, of the topology, of the map                                        *)
(*   m    all of it in one message                                                                                 *)
(*   X S  a header over the limit; the panel goes away in the middle of a unit (the last one)                        *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
Long == IOEnv.SCRIPT_DEPTH = "long"
Both == {"b", "u", "r", "d", "p", "i", "t", "a"}
Core == {"b", "r", "d", "p", "i"}
Seqs(S, n) == [1..n -> S]
Alive(S, n) == UNION {Seqs(S, k) : k \in 0..n}
Bin == Alive(Both \cup {"m"}, IF Long THEN 3 ELSE 2) \cup Seqs(Core, IF Long THEN 4 ELSE 3)
Txt == Alive(Both, IF Long THEN 3 ELSE 2) \cup Seqs(Core, IF Long THEN 4 ELSE 3)
After == Alive({"b", "p", "i"}, IF Long THEN 2 ELSE 1)
Broken == {a \o <<"X">> \o b : a \in Alive(Core \cup {"m"}, 2), b \in After}
Gone(S) == {a \o <<"S">> : a \in Alive(S, 2)}
Scripts == {[ascii |-> FALSE, units |-> u] : u \in Bin \cup Broken \cup Gone(Core)} \cup {[ascii |-> TRUE, units |-> u] : u \in Txt \cup Gone({"b", "r", "d"})}
VARIABLE done
Init == done = FALSE
Next == ~done /\ JsonSerialize(IOEnv.SCRIPT_FILE, SetToSeq(Scripts)) /\ PrintT(<<"scripts", Cardinality(Scripts)>>) /\ done' = TRUE
=============================================================================
