----------------------------- MODULE LineFraming -----------------------------
(* C07: the produced strings as lines of a stream. Every string is written     *)
(* followed by one line feed; a reader splits the stream at line feeds.        *)
EXTENDS RwpText
LOCAL INSTANCE SequencesExt
LF == "\n"
Stream(lines) == FoldLeft(LAMBDA acc, l : acc \o l \o LF, "", lines)
(* complete lines of a stream *)
Received(s) == LET p == Split(s, LF) IN SubSeq(p, 1, Len(p) - 1)
OneLine(s) == \A k \in 1..Len(s) : Ch(s, k) # LF

(* texts that are flattened: the line that carries each, and where it is in the message *)
RECURSIVE Path(_, _, _)
Path(m, p, k) == IF k > Len(p) THEN << m >>
                 ELSE IF p[k] \in DOMAIN m THEN Path(m[p[k]], p, k + 1) ELSE <<>>
Places == [in |-> << << "SetCalibrationProfile=", << "Command", "SetCalibrationProfile", "Json" >> >> >>,
           out |-> << << "_panelTopology_svgbase=", << "PanelTopology", "Svgbase" >> >>,
                      << "_panelTopology_HWC=", << "PanelTopology", "Json" >> >>,
                      << "_burninProfile=", << "BurninProfile", "Json" >> >>,
                      << "_calibrationProfile=", << "CalibrationProfile", "Json" >> >>,
                      << "_defaultCalibrationProfile=", << "DefaultCalibrationProfile", "Json" >> >>,
                      << "ErrorMsg=", << "ErrorMessage", "Message" >> >>,
                      << "Msg=", << "Message", "Message" >> >> >>]
NonEmpty(ss) == SelectSeq(ss, LAMBDA s : Len(s) > 0)
Carried(lines, key) == NonEmpty(MapSeq(LAMBDA l : NoWS(Rest(l, Len(key))), SelectSeq(lines, LAMBDA l : StartsWith(l, key))))
Meant(msgs, path) == NonEmpty(FlatMap(LAMBDA m : MapSeq(NoWS, Path(m, path, 1)), msgs))
(* flattening drops whitespace only: every other character is there, in order *)
KeepsContent(dir, msgs, lines) == \A k \in 1..Len(Places[dir]) :
    Carried(lines, Places[dir][k][1]) = Meant(msgs, Places[dir][k][2])
=============================================================================
