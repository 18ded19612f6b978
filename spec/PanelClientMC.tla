---------------------------- MODULE PanelClientMC ----------------------------
EXTENDS PanelClient
StreamsQ == {<<"P", "P">>, <<"P", "J", "P">>, <<"0", "P">>, <<"P", "X">>}
SubsQ == << << <<"a">> >>, << <<"b", "c">> >> >>
StreamsD == {<<"P", "P", "P">>, <<"P", "J", "P">>, <<"0", "P">>, <<"P", "X">>, <<"X">>, <<>>}
SubsD == << << <<"a">>, <<>>, <<"d">> >>, << <<"b", "c">> >> >>
None == << >>
=============================================================================
