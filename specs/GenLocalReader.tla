---------------------------- MODULE GenLocalReader ----------------------------
EXTENDS LocalReader, Json
CONSTANTS Times, Limits, Emitting
VARIABLE q
Filters == {"", "a.*", "^x$", "(", "[z-a]"}
Types == {<<>>, <<"ANY">>, <<"LOG">>, <<"ANY", "LOG">>, <<"GAUGE", "ANY", "LOG">>, <<"TIMER", "EVENT", "COUNTER">>, <<"LOG", "LOG">>}
GInit == q = [op |-> "none"]
GNext == q.op = "none" /\ \E s \in Times, e \in Times, n \in Limits, f \in Filters, t \in Types, d \in BOOLEAN :
            q' = [op |-> "read", src |-> "", start |-> s, end |-> e, limit |-> n, filter |-> f, types |-> t, desc |-> d]
GSpec == GInit /\ [][GNext]_q
AllSane == q.op = "read" => Sane(q)
Emit == Emitting => PrintT("SCN " \o ToJson(<<q'>>))
===============================================================================
