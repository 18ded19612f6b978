----------------------------- MODULE LineStream -----------------------------
(* The first half of C07 on the model: a reader recovers exactly the written   *)
(* strings if and only if none of them contains a line feed.                   *)
EXTENDS LineFraming, TLC
CONSTANT L
Alphabet == {"a", " ", "\r", "\n"}
Strings == {""} \cup Alphabet \cup {a \o b : a \in Alphabet, b \in Alphabet}
VARIABLE lines
Init == lines = <<>>
Next == Len(lines) < L /\ \E s \in Strings : lines' = Append(lines, s)
Recovers == (Received(Stream(lines)) = lines) <=> (\A k \in 1..Len(lines) : OneLine(lines[k]))
=============================================================================
